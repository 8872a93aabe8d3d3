// Drives the real mesh pipeline from a reference mesh, and checks its results against the reference.
#pragma once
#include "meshgen.hpp"
#include "DNDS/SerializerFactory.hpp"

namespace mp
{
    using namespace mg;
    namespace G = DNDS::Geom;
    using Mesh = G::UnstructuredMesh;
    using MeshP = DNDS::ssp<G::UnstructuredMesh>;
    using Reader = G::UnstructuredMeshSerialRW;
    using idx = DNDS::index;
    using vt::L;

    struct Quiet // the library reports progress on stdout/stderr of rank 0
    {
        std::streambuf *a, *b;
        static std::ostringstream &sink()
        {
            static std::ostringstream s;
            s.str("");
            return s;
        }
        Quiet() : a(std::cout.rdbuf()), b(std::cerr.rdbuf())
        {
            if (getenv("VT_LOUD"))
                return;
            std::cout.rdbuf(sink().rdbuf());
        }
        ~Quiet()
        {
            std::cout.rdbuf(a);
            std::cerr.rdbuf(b);
        }
    };

    struct PipeOpt
    {
        FileOpt file;
        bool openFoam = false;
        Reader::PartitionOptions part;
        std::string str() const
        {
            return vt::str(openFoam ? "OF" : "CGNS", " z", file.nZone, " s", file.style, " b", file.bcStyle, " i", file.innerFaces, " p", file.physDim, " ", part.metisType, " w", part.edgeWeightMethod);
        }
    };

    inline DNDS::MPIInfo world()
    {
        DNDS::MPIInfo m;
        m.setWorld();
        return m;
    }

    // read, de-duplicate, partition, distribute; leaves global primary adjacency
    inline MeshP readMesh(const DNDS::MPIInfo &mpi, const Spec &s, const PipeOpt &po, const std::string &path, uint64_t seed, DNDS::ssp<Reader> *rd = nullptr)
    {
        std::string p = path;
        if (mpi.rank == 0)
        {
            if (po.openFoam)
                writeOpenFOAM(s, p, seed);
            else
                writeCGNS(s, p, po.file, seed, po.file.nZone > 1 ? randomZones(s, po.file.nZone, seed) : std::vector<int>{});
        }
        MPI_Barrier(MPI_COMM_WORLD);
        MeshP mesh = std::make_shared<Mesh>(mpi, s.dim);
        setPeriodicity(s, mesh->periodicInfo);
        auto reader = std::make_shared<Reader>(mesh, 0);
        if (po.openFoam)
        {
            std::map<std::string, std::string> nm;
            for (int z = -6; z < 40; z++)
                nm["of_" + zoneName(z)] = zoneName(z);
            reader->ReadFromOpenFOAMAndConvertSerial(p, nm, zoneID);
        }
        else
            reader->ReadFromCGNSSerial(p, zoneID);
        reader->Deduplicate1to1Periodic(1e-8);
        reader->BuildCell2Cell();
        reader->MeshPartitionCell2Cell(po.part);
        reader->PartitionReorderToMeshCell2Cell();
        if (rd)
            *rd = reader;
        MPI_Barrier(MPI_COMM_WORLD);
        if (mpi.rank == 0)
            std::filesystem::remove_all(p);
        return mesh;
    }
    inline void n2cb(Mesh &m)
    {
        m.AdjLocal2GlobalPrimary();
        m.RecoverNode2CellAndNode2Bnd();
        m.AdjGlobal2LocalPrimary();
        m.BuildGhostN2CB();
        m.AdjGlobal2LocalN2CB();
    }

    // a boundary element up to its symmetries: vertices, then the mid node of each edge by vertex pair, then the centre
    inline std::vector<int> canonBnd(int dim, const std::vector<int> &n)
    {
        int nv = dim == 2 ? 2 : (n.size() == 3 || n.size() == 6) ? 3 : 4;
        std::vector<int> o(n.begin(), n.begin() + std::min<size_t>(nv, n.size()));
        std::sort(o.begin(), o.end());
        std::map<std::pair<int, int>, int> e;
        int ne = nv == 2 ? 1 : nv;
        for (int i = 0; i < ne; i++)
        {
            int a = n[i], b = n[(i + 1) % nv];
            e[{std::min(a, b), std::max(a, b)}] = int(n.size()) > nv + i ? n[nv + i] : -1;
        }
        for (auto &q : e)
            o.push_back(q.first.first), o.push_back(q.first.second), o.push_back(q.second);
        for (size_t i = nv + ne; i < n.size(); i++)
            o.push_back(n[i]);
        return o;
    }

    // what the reference says, indexed for lookup
    struct Ref
    {
        const Spec *s;
        Locator loc;
        std::map<std::vector<int>, int> cellOf;                            // sorted vertices -> cell
        std::map<std::vector<int>, int> faceOf;                            // sorted vertices of a cell side -> face id (periodic sides glued)
        std::vector<std::vector<int>> faceCells;                           // cells of a face (2 or 1)
        std::vector<int> faceBnd;                                          // bnd element or -1 (non-periodic), for glued faces: -2
        std::vector<int> facePerDir;                                       // 0, or 1..3
        std::map<std::tuple<std::vector<int>, int, int>, int> bndOf;       // (classes in order, zone, cell) -> bnd
        std::vector<std::set<int>> cellNb;                                 // cells sharing a vertex class
        std::vector<std::set<int>> node2cell, node2bnd;                    // by class
        int nClass = 0;
        std::vector<std::vector<int>> bndVertKey;

        explicit Ref(const Spec &sp) : s(&sp), loc(sp)
        {
            std::set<int> cl(sp.cls.begin(), sp.cls.end());
            nClass = int(cl.size());
            node2cell.resize(sp.X.size());
            node2bnd.resize(sp.X.size());
            std::map<std::vector<int>, int> raw;
            for (size_t c = 0; c < sp.cells.size(); c++)
            {
                cellOf[sp.key(sp.cells[c])] = int(c);
                for (int n : sp.cells[c].n)
                    node2cell[sp.cls[n]].insert(int(c));
                for (auto v : faceVerts(sp, sp.cells[c]))
                {
                    std::sort(v.begin(), v.end());
                    auto it = raw.find(v);
                    if (it == raw.end())
                    {
                        raw[v] = int(faceCells.size());
                        faceCells.push_back({int(c)});
                        faceBnd.push_back(-1);
                        facePerDir.push_back(0);
                    }
                    else
                        faceCells[it->second].push_back(int(c));
                }
            }
            faceOf = raw;
            for (size_t b = 0; b < sp.bnds.size(); b++)
            {
                auto &e = sp.bnds[b];
                std::vector<int> k;
                for (int n : e.n)
                    k.push_back(sp.cls[n]), node2bnd[sp.cls[n]].insert(int(b));
                bndOf[{canonBnd(sp.dim, k), e.zone, e.cell}] = int(b);
                if (e.zone > 0)
                    faceBnd[raw.at(sp.key(e))] = int(b);
            }
            // glue the periodic sides: by vertex position modulo the period, direction by direction
            if (sp.periodic)
            {
                std::map<std::pair<int, std::array<long long, 3>>, int> mains;
                auto pk = [&](const El &e, int d)
                {
                    P3 p{0, 0, 0};
                    for (int n : sp.verts(e))
                        for (int q = 0; q < 3; q++)
                            p[q] += sp.P[n][q];
                    p[d] = 0; // the two sides are perturbed alike
                    return std::array<long long, 3>{llround(p[0] * 1e5), llround(p[1] * 1e5), llround(p[2] * 1e5)};
                };
                for (auto &e : sp.bnds)
                    if (e.zone < 0 && e.zone >= -3)
                        mains[{-e.zone, pk(e, -e.zone - 1)}] = raw.at(sp.key(e));
                for (auto &e : sp.bnds)
                    if (e.zone < -3)
                    {
                        int d = -e.zone - 3;
                        auto k0 = pk(e, d - 1);
                        int f = -1;
                        for (int a = -1; a <= 1; a++)
                            for (int b = -1; b <= 1; b++)
                                for (int c = -1; c <= 1; c++)
                                {
                                    auto it = mains.find({d, {k0[0] + a, k0[1] + b, k0[2] + c}});
                                    if (it != mains.end())
                                        f = it->second;
                                }
                        if (f < 0)
                            fprintf(stderr, "meshgen: periodic side without partner\n"), abort();
                        int g = raw.at(sp.key(e));
                        faceOf[sp.key(e)] = f;
                        faceCells[f].push_back(e.cell);
                        faceCells[g].clear();
                        facePerDir[f] = d;
                    }
            }
            cellNb.resize(sp.cells.size());
            for (auto &q : node2cell)
                for (int a : q)
                    for (int b : q)
                        if (a != b)
                            cellNb[a].insert(b);
        }
        int nFace() const
        {
            int n = 0;
            for (auto &f : faceCells)
                n += !f.empty();
            return n;
        }
        template <class M>
        std::vector<int> ids(const M &cs, int n) const
        {
            std::vector<int> o;
            for (int i = 0; i < n; i++)
            {
                std::array<double, 3> x{cs(0, i), cs(1, i), cs(2, i)};
                o.push_back(loc.find(x));
            }
            return o;
        }
    };

    inline std::string vs(const std::vector<int> &v)
    {
        std::string o = "[";
        for (int i : v)
            o += std::to_string(i) + " ";
        return o + "]";
    }

    // global index -> reference id, from the owners
    inline std::vector<int64_t> ownerTable(const std::vector<int64_t> &mine) { return vt::allGather(mine); }

    struct State
    {
        std::vector<int> cell, bnd, nodeCls; // local (father+son) -> reference id
        std::vector<int64_t> cellTab, nodeTab;
        bool ok = true;
    };

    template <class TPair>
    inline int64_t gOf(TPair &p, idx i) { return p.trans.pLGhostMapping->operator()(-1, i); }

    // C08: after BuildGhostPrimary + AdjGlobal2LocalPrimary
    inline State checkPrimary(Mesh &m, const Ref &R, const std::string &K, bool exact, bool recovered = false)
    {
        State st;
        auto &s = *R.s;
        auto &mpi = m.mpi;
        VT_CHECK(m.isPeriodic == s.periodic, K + ":periodic-flag", "isPeriodic ", m.isPeriodic, " expected ", s.periodic);
        // ---- nodes
        std::vector<int64_t> mine;
        bool bad = false;
        for (idx i = 0; i < m.coords.Size(); i++)
        {
            auto x = m.coords[i];
            int n = R.loc.find(x);
            if (n < 0)
            {
                VT_CHECK(false, K + ":node-unknown", "rank ", mpi.rank, " node ", i, " at ", x[0], ",", x[1], ",", x[2], " is no node of the input");
                bad = true;
                n = 0;
            }
            if (exact)
                VT_CHECK(x[0] == s.X[n][0] && x[1] == s.X[n][1] && x[2] == s.X[n][2], K + ":node-coords", "node ", n, " coordinates changed");
            st.nodeCls.push_back(s.cls[n]);
            if (i < m.NumNode())
                mine.push_back(s.cls[n]);
        }
        st.nodeTab = ownerTable(mine);
        if (vt::anyRank(bad))
        {
            st.ok = false;
            return st;
        }
        {
            auto srt = st.nodeTab;
            std::sort(srt.begin(), srt.end());
            VT_CHECK(std::adjacent_find(srt.begin(), srt.end()) == srt.end(), K + ":node-duplicate", "a node is owned twice");
            VT_CHECK(int(srt.size()) == R.nClass, K + ":node-count", srt.size(), " nodes owned in all, expected ", R.nClass);
        }
        for (idx i = 0; i < m.coords.Size(); i++)
        {
            int64_t g = gOf(m.coords, i);
            VT_CHECK(g >= 0 && g < int64_t(st.nodeTab.size()) && st.nodeTab[g] == st.nodeCls[i], K + ":node-global", "rank ", mpi.rank, " local node ", i, " global ", g, " is another node at its owner");
        }
        // ---- cells
        mine.clear();
        for (idx i = 0; i < m.cell2node.Size(); i++)
        {
            G::tSmallCoords cs;
            m.GetCoordsOnCell(i, cs);
            auto ids = R.ids(cs, int(cs.cols()));
            int c = -1;
            auto lt = linOf(m.cellElemInfo(i, 0).getElemType());
            int nv = tab(lt).nv;
            if (int(ids.size()) >= nv)
            {
                std::vector<int> k(ids.begin(), ids.begin() + nv);
                std::sort(k.begin(), k.end());
                auto it = R.cellOf.find(k);
                if (it != R.cellOf.end())
                    c = it->second;
            }
            if (c < 0)
            {
                VT_CHECK(false, K + ":cell-unknown", "rank ", mpi.rank, " cell ", i, i < m.NumCell() ? "" : " (ghost)", " nodes ", vs(ids), " is no cell of the input");
                bad = true;
                c = 0;
            }
            else
            {
                VT_CHECK(ids == s.cells[c].n, K + ":cell-nodes", "cell ", c, " nodes ", vs(ids), " expected ", vs(s.cells[c].n));
                VT_CHECK(m.cellElemInfo(i, 0).getElemType() == s.cells[c].t, K + ":cell-type", "cell ", c, " type ", m.cellElemInfo(i, 0).type, " expected ", int(s.cells[c].t));
                VT_CHECK(m.cellElemInfo(i, 0).zone == 0 || m.cellElemInfo(i, 0).zone == DNDS::Geom::INTERNAL_ZONE, K + ":cell-zone", "cell ", c, " zone ", m.cellElemInfo(i, 0).zone);
            }
            st.cell.push_back(c);
            if (i < m.NumCell())
                mine.push_back(c);
        }
        st.cellTab = ownerTable(mine);
        if (vt::anyRank(bad))
        {
            st.ok = false;
            return st;
        }
        {
            auto srt = st.cellTab;
            std::sort(srt.begin(), srt.end());
            VT_CHECK(std::adjacent_find(srt.begin(), srt.end()) == srt.end(), K + ":cell-duplicate", "a cell is owned twice");
            VT_CHECK(srt.size() == s.cells.size(), K + ":cell-count", srt.size(), " cells owned in all, expected ", s.cells.size());
        }
        for (idx i = 0; i < m.cell2node.Size(); i++)
        {
            int64_t g = gOf(m.cell2node, i);
            VT_CHECK(g >= 0 && g < int64_t(st.cellTab.size()) && st.cellTab[g] == st.cell[i], K + ":cell-global", "rank ", mpi.rank, " local cell ", i, " global ", g, " is another cell at its owner");
        }
        // ---- ghosts: exactly the cells sharing a node with an owned one
        std::set<int> own(mine.begin(), mine.end()), need, have;
        for (int c : own)
            for (int b : R.cellNb[c])
                if (!own.count(b))
                    need.insert(b);
        for (idx i = m.NumCell(); i < m.cell2node.Size(); i++)
            have.insert(st.cell[i]);
        VT_CHECK(int(have.size()) == m.NumCellGhost(), K + ":ghost-duplicate", "rank ", mpi.rank, ": ", m.NumCellGhost(), " ghost cells, ", have.size(), " distinct");
        for (int c : need)
            VT_CHECK(have.count(c), K + ":ghost-missing", "rank ", mpi.rank, " lacks neighbour cell ", c);
        // ---- neighbour lists
        for (idx i = 0; i < m.NumCell(); i++)
        {
            std::set<int> nb;
            bool local = true;
            for (auto j : m.cell2cell[i])
            {
                if (j < 0 || j >= m.cell2node.Size())
                    local = false;
                else
                    nb.insert(st.cell[j]);
            }
            VT_CHECK(local, K + ":cell2cell-range", "rank ", mpi.rank, " cell ", i, " has a neighbour that is not present");
            nb.erase(st.cell[i]);
            VT_CHECK(nb == R.cellNb[st.cell[i]], K + ":cell2cell", "cell ", st.cell[i], " has ", nb.size(), " neighbours, expected ", R.cellNb[st.cell[i]].size());
        }
        // ---- boundary elements
        mine.clear();
        for (idx i = 0; i < m.NumBnd(); i++)
        {
            std::vector<int> k;
            bool inRange = true;
            for (auto n : m.bnd2node[i])
                if (n < 0 || n >= m.coords.Size())
                    inRange = false;
                else
                    k.push_back(st.nodeCls[n]);
            VT_CHECK(inRange, K + ":bnd-node-range", "rank ", mpi.rank, " bnd ", i, " has a node that is not present");
            idx c0 = m.bnd2cell(i, 0);
            VT_CHECK(c0 >= 0 && c0 < m.NumCell(), K + ":bnd-cell-owned", "rank ", mpi.rank, " bnd ", i, " cell ", c0, " is not owned here");
            if (!(c0 >= 0 && c0 < m.cell2node.Size()))
            {
                st.bnd.push_back(-1);
                continue;
            }
            auto it = R.bndOf.find({canonBnd(s.dim, k), m.bndElemInfo(i, 0).zone, st.cell[c0]});
            int b = it == R.bndOf.end() ? -1 : it->second;
            VT_CHECK(b >= 0, K + ":bnd-unknown", "rank ", mpi.rank, " bnd ", i, " zone ", m.bndElemInfo(i, 0).zone, " nodes ", vs(k), " cell ", st.cell[c0], " is not in the input");
            if (b >= 0)
                VT_CHECK(m.bndElemInfo(i, 0).getElemType() == s.bnds[b].t, K + ":bnd-type", "bnd ", b, " type ", m.bndElemInfo(i, 0).type);
            if (b >= 0 && s.bnds[b].zone > 0)
                VT_CHECK(m.bnd2cell(i, 1) == DNDS::UnInitIndex, K + ":bnd-cell2", "bnd ", b, " has a second cell");
            st.bnd.push_back(b);
            mine.push_back(b);
        }
        {
            auto srt = vt::allGather(mine);
            std::sort(srt.begin(), srt.end());
            VT_CHECK(std::adjacent_find(srt.begin(), srt.end()) == srt.end(), K + ":bnd-duplicate", "a boundary element is owned twice");
            VT_CHECK(srt.size() == s.bnds.size(), K + ":bnd-count", srt.size(), " boundary elements in all, expected ", s.bnds.size());
        }
        vt::L().count("cells", m.NumCell());
        vt::L().count("ghosts", m.NumCellGhost());
        return st;
    }

    // C09: after InterpolateFace
    inline void checkFaces(Mesh &m, const Ref &R, const State &st, const std::string &K)
    {
        auto &s = *R.s;
        int rank = m.mpi.rank;
        std::vector<int64_t> tab1; // owned faces -> reference face
        std::vector<int> faceId(m.face2cell.Size(), -1);
        bool bad = false;
        for (idx i = 0; i < m.cell2node.Size(); i++)
        {
            bool owned = i < m.NumCell();
            auto e = m.GetCellElement(i);
            VT_CHECK(m.cell2face.RowSize(i) == int(tab(linOf(e.type)).faces.size()), K + ":cell2face-size", "cell ", st.cell[i], " has ", m.cell2face.RowSize(i), " faces");
            G::tSmallCoords cs;
            m.GetCoordsOnCell(i, cs);
            auto ids = R.ids(cs, int(cs.cols()));
            std::set<int> seen;
            for (int f = 0; f < m.cell2face.RowSize(i); f++)
            {
                idx jf = m.cell2face(i, f);
                auto ef = e.ObtainFace(f);
                std::vector<int> fn(ef.GetNumNodes());
                e.ExtractFaceNodes(f, ids, fn);
                std::vector<int> fv(fn.begin(), fn.begin() + ef.GetNumVertices());
                std::sort(fv.begin(), fv.end());
                auto it = R.faceOf.find(fv);
                if (it == R.faceOf.end())
                {
                    VT_CHECK(false, K + ":face-unknown", "cell ", st.cell[i], " side ", f, " vertices ", vs(fv));
                    bad = true;
                    continue;
                }
                seen.insert(it->second);
                if (jf < 0 || jf >= m.face2cell.Size())
                {
                    VT_CHECK(!owned, K + ":cell2face-range", "rank ", rank, " cell ", st.cell[i], " side ", f, " -> ", jf);
                    continue;
                }
                VT_CHECK(faceId[jf] < 0 || faceId[jf] == it->second, K + ":face-two-sides", "rank ", rank, " face ", jf, " stands for two different faces");
                faceId[jf] = it->second;
                VT_CHECK(m.face2cell(jf, 0) == i || m.face2cell(jf, 1) == i, K + ":cell2face-inverse", "rank ", rank, " cell ", i, " lists face ", jf, " which does not list it");
                if (m.face2cell(jf, 0) == i)
                { // the face is this cell's side: same nodes in the same order, same images
                    G::tSmallCoords fc;
                    m.GetCoordsOnFace(jf, fc);
                    auto fid = R.ids(fc, int(fc.cols()));
                    VT_CHECK(fid == fn, K + ":face-nodes", "face of cell ", st.cell[i], " side ", f, ": nodes ", vs(fid), " expected ", vs(fn));
                    VT_CHECK(m.faceElemInfo(jf, 0).getElemType() == ef.type, K + ":face-type", "face type ", m.faceElemInfo(jf, 0).type);
                    // outward from its first cell
                    Eigen::Vector3d cc = cs.rowwise().mean(), nrm, fcen = fc.rowwise().mean();
                    if (m.dim == 2)
                    {
                        Eigen::Vector3d t = fc.col(1) - fc.col(0);
                        nrm = Eigen::Vector3d(t[1], -t[0], 0);
                    }
                    else if (ef.GetNumVertices() == 3)
                        nrm = (Eigen::Vector3d(fc.col(1)) - Eigen::Vector3d(fc.col(0))).cross(Eigen::Vector3d(fc.col(2)) - Eigen::Vector3d(fc.col(0)));
                    else
                        nrm = (Eigen::Vector3d(fc.col(2)) - Eigen::Vector3d(fc.col(0))).cross(Eigen::Vector3d(fc.col(3)) - Eigen::Vector3d(fc.col(1)));
                    VT_CHECK(nrm.dot(fcen - cc) > 0, K + ":face-outward", "face of cell ", st.cell[i], " side ", f, " points inward");
                }
            }
            VT_CHECK(seen.size() == size_t(m.cell2face.RowSize(i)), K + ":cell2face-distinct", "cell ", st.cell[i], " lists a face twice");
        }
        if (vt::anyRank(bad))
            return;
        for (idx j = 0; j < m.face2cell.Size(); j++)
        {
            VT_CHECK(faceId[j] >= 0, K + ":face-orphan", "rank ", rank, " face ", j, " belongs to no cell here");
            if (faceId[j] < 0)
                continue;
            int f = faceId[j];
            std::vector<int> cs;
            for (int k = 0; k < 2; k++)
                if (m.face2cell(j, k) >= 0 && m.face2cell(j, k) < m.cell2node.Size())
                    cs.push_back(st.cell[m.face2cell(j, k)]);
                else
                    VT_CHECK(k == 1 && m.face2cell(j, k) == DNDS::UnInitIndex, K + ":face2cell-range", "rank ", rank, " face ", j, " side ", k, " -> ", m.face2cell(j, k));
            auto a = cs, b = R.faceCells[f];
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            VT_CHECK(a == b, K + ":face2cell", "face ", f, " cells ", vs(a), " expected ", vs(b));
            int z = m.faceElemInfo(j, 0).zone;
            if (R.facePerDir[f])
            {
                int d = R.facePerDir[f];
                VT_CHECK(z == -d || z == -3 - d, K + ":face-zone-periodic", "face ", f, " zone ", z, " on periodic side ", d);
                // which of the two names it carries must say which side the first cell is on
                if (!cs.empty() && (z == -d || z == -3 - d))
                {
                    int c0 = cs[0];
                    bool c0donor = false, c0main = false;
                    for (auto &e : s.bnds)
                        if (e.cell == c0 && R.faceOf.at(s.key(e)) == f)
                            (e.zone < -3 ? c0donor : c0main) = true;
                    if (c0donor != c0main)
                        VT_CHECK(c0donor ? z == -3 - d : z == -d, K + ":face-zone-side", "face ", f, " zone ", z, " but its first cell ", c0, " is on the ", c0donor ? "donor" : "main", " side");
                }
            }
            else if (R.faceBnd[f] >= 0)
                VT_CHECK(z == s.bnds[R.faceBnd[f]].zone, K + ":face-zone", "boundary face ", f, " zone ", z, " expected ", s.bnds[R.faceBnd[f]].zone);
            else
                VT_CHECK(z == 0, K + ":face-zone-inner", "inner face ", f, " zone ", z);
            if (j < m.NumFace())
                tab1.push_back(f);
        }
        auto gt = ownerTable(tab1);
        {
            auto srt = gt;
            std::sort(srt.begin(), srt.end());
            VT_CHECK(std::adjacent_find(srt.begin(), srt.end()) == srt.end(), K + ":face-duplicate", "a face is owned twice");
            VT_CHECK(int(srt.size()) == R.nFace(), K + ":face-count", srt.size(), " faces in all, expected ", R.nFace());
        }
        for (idx j = 0; j < m.face2cell.Size(); j++)
        {
            int64_t g = gOf(m.face2cell, j);
            if (faceId[j] >= 0)
                VT_CHECK(g >= 0 && g < int64_t(gt.size()) && gt[g] == faceId[j], K + ":face-global", "rank ", rank, " face ", j, " global ", g, " is another face at its owner");
        }
        // boundary elements <-> faces
        VT_CHECK(int64_t(m.bnd2face.size()) >= m.NumBnd(), K + ":bnd2face-size", m.bnd2face.size());
        std::set<idx> bf;
        for (idx b = 0; b < m.NumBnd() && b < idx(m.bnd2face.size()); b++)
        {
            if (st.bnd[b] < 0)
                continue;
            auto &e = s.bnds[st.bnd[b]];
            idx j = m.bnd2face[b];
            if (e.zone > 0)
            {
                VT_CHECK(j >= 0 && j < m.NumFace() && faceId[j] == R.faceOf.at(s.key(e)), K + ":bnd2face", "rank ", rank, " bnd ", st.bnd[b], " -> face ", j);
                VT_CHECK(m.face2bnd.count(j) && m.face2bnd.at(j) == b, K + ":face2bnd", "rank ", rank, " face ", j, " does not lead back to bnd ", b);
            }
            else if (j >= 0)
                VT_CHECK(j < m.face2cell.Size() && faceId[j] == R.faceOf.at(s.key(e)), K + ":bnd2face-periodic", "rank ", rank, " bnd ", st.bnd[b], " -> face ", j);
        }
        for (auto &kv : m.face2bnd)
            VT_CHECK(kv.second >= 0 && kv.second < m.NumBnd() && m.bnd2face[kv.second] == kv.first, K + ":face2bnd-inverse", "rank ", rank, " face ", kv.first, " -> bnd ", kv.second);
        vt::L().count("faces", m.NumFace());
    }

    inline void checkN2CB(Mesh &m, const Ref &R, const State &st, const std::string &K)
    {
        std::vector<int64_t> bndMine;
        for (idx b = 0; b < m.NumBnd(); b++)
            bndMine.push_back(st.bnd[b]);
        auto bndTab = ownerTable(bndMine);
        VT_CHECK(m.node2cell.Size() == m.coords.Size(), K + ":n2c-size", m.node2cell.Size(), " rows for ", m.coords.Size(), " nodes");
        auto toCell = [&](idx v) -> int
        {
            if (v >= 0 && v < m.cell2node.Size())
                return st.cell[v];
            int64_t g = -1 - v;
            return g >= 0 && g < int64_t(st.cellTab.size()) ? int(st.cellTab[g]) : -1;
        };
        for (idx i = 0; i < m.node2cell.Size() && i < m.coords.Size(); i++)
        {
            std::set<int> a, b;
            for (auto v : m.node2cell[i])
                a.insert(toCell(v));
            VT_CHECK(a == R.node2cell[st.nodeCls[i]] && int(a.size()) == m.node2cell.RowSize(i), K + ":node2cell", "rank ", m.mpi.rank, " node ", i, i < m.NumNode() ? "" : " (ghost)", ": ", a.size(), " cells of ", m.node2cell.RowSize(i), ", expected ", R.node2cell[st.nodeCls[i]].size());
            for (auto v : m.node2bnd[i])
            {
                int64_t g = v >= 0 ? (v < m.NumBnd() ? gOf(m.bnd2cell, v) : -1) : -1 - v;
                b.insert(g >= 0 && g < int64_t(bndTab.size()) ? int(bndTab[g]) : -1);
            }
            VT_CHECK(b == R.node2bnd[st.nodeCls[i]] && int(b.size()) == m.node2bnd.RowSize(i), K + ":node2bnd", "rank ", m.mpi.rank, " node ", i, i < m.NumNode() ? "" : " (ghost)", ": ", b.size(), " boundary elements, expected ", R.node2bnd[st.nodeCls[i]].size());
        }
    }

    template <class TPair>
    inline void dumpAdj(std::vector<int64_t> &o, TPair &p)
    {
        o.push_back(p.Size());
        for (idx i = 0; i < p.Size(); i++)
        {
            o.push_back(p.RowSize(i));
            for (int j = 0; j < p.RowSize(i); j++)
                o.push_back(p(i, j));
        }
    }
    // local <-> global conversion of every adjacency is its own inverse, and the global form is right
    inline void checkRoundTrip(Mesh &m, const Ref &R, const State &st, const std::string &K, bool faces, bool n2)
    {
        auto dump = [&]()
        {
            std::vector<int64_t> o;
            dumpAdj(o, m.cell2node);
            dumpAdj(o, m.cell2cell);
            dumpAdj(o, m.bnd2node);
            dumpAdj(o, m.bnd2cell);
            if (faces)
                dumpAdj(o, m.cell2face), dumpAdj(o, m.face2cell), dumpAdj(o, m.face2node);
            if (n2)
                dumpAdj(o, m.node2cell), dumpAdj(o, m.node2bnd);
            return o;
        };
        auto a = dump();
        if (faces)
            m.AdjLocal2GlobalC2F(), m.AdjLocal2GlobalFacial();
        if (n2)
            m.AdjLocal2GlobalN2CB();
        m.AdjLocal2GlobalPrimary();
        for (idx i = 0; i < m.cell2node.Size(); i++)
            for (int j = 0; j < m.cell2node.RowSize(i); j++)
            {
                int64_t g = m.cell2node(i, j);
                VT_CHECK(g >= 0 && g < int64_t(st.nodeTab.size()) && st.nodeTab[g] == R.s->cls[R.s->cells[st.cell[i]].n[j]], K + ":global-cell2node", "rank ", m.mpi.rank, " cell ", i, " node ", j, " global ", g);
            }
        for (idx i = 0; i < m.NumBnd(); i++)
        {
            int64_t g = m.bnd2cell(i, 0);
            if (st.bnd[i] >= 0)
                VT_CHECK(g >= 0 && g < int64_t(st.cellTab.size()) && st.cellTab[g] == R.s->bnds[st.bnd[i]].cell, K + ":global-bnd2cell", "rank ", m.mpi.rank, " bnd ", i, " global cell ", g);
        }
        m.AdjGlobal2LocalPrimary();
        if (n2)
            m.AdjGlobal2LocalN2CB();
        if (faces)
            m.AdjGlobal2LocalFacial(), m.AdjGlobal2LocalC2F();
        auto b = dump();
        VT_CHECK(a == b, K + ":roundtrip", "rank ", m.mpi.rank, ": adjacency changed by local->global->local");
    }

    inline void checkBndMesh(Mesh &m, const Ref &R, const State &st, const std::string &K)
    {
        Mesh b(m.mpi, m.dim - 1);
        m.ConstructBndMesh(b);
        auto &s = *R.s;
        std::vector<int64_t> mine, nodes;
        for (idx i = 0; i < b.coords.father->Size(); i++)
        {
            int n = R.loc.find(b.coords[i]);
            VT_CHECK(n >= 0, K + ":bmesh-node", "rank ", m.mpi.rank, " boundary-mesh node ", i, " is no node of the mesh");
            nodes.push_back(n < 0 ? -1 : s.cls[n]);
        }
        auto all = vt::allGather(nodes);
        std::sort(all.begin(), all.end());
        VT_CHECK(std::adjacent_find(all.begin(), all.end()) == all.end(), K + ":bmesh-node-dup", "a boundary-mesh node is owned twice");
        std::set<int> want;
        for (auto &e : s.bnds)
            for (int n : e.n)
                want.insert(s.cls[n]);
        VT_CHECK(all.size() == want.size(), K + ":bmesh-node-count", all.size(), " expected ", want.size());
        for (idx i = 0; i < b.cell2node.father->Size(); i++)
        {
            G::tSmallCoords cs;
            b.GetCoordsOnCell(i, cs);
            auto ids = R.ids(cs, int(cs.cols()));
            idx pb = b.cell2parentCell.at(i);
            VT_CHECK(pb >= 0 && pb < m.NumBnd(), K + ":bmesh-parent", pb);
            if (!(pb >= 0 && pb < m.NumBnd()) || st.bnd[pb] < 0)
                continue;
            auto &e = s.bnds[st.bnd[pb]];
            auto x = ids, y = e.n;
            std::sort(x.begin(), x.end());
            std::sort(y.begin(), y.end());
            VT_CHECK(x == y, K + ":bmesh-cell", "boundary-mesh cell of bnd ", st.bnd[pb], ": nodes ", vs(x), " expected ", vs(y));
            VT_CHECK(b.cellElemInfo(i, 0).zone == e.zone && b.cellElemInfo(i, 0).getElemType() == e.t, K + ":bmesh-info", "zone/type");
            mine.push_back(st.bnd[pb]);
        }
        for (idx i = 0; i < b.coords.Size(); i++)
            VT_CHECK(b.node2parentNode.at(i) >= 0 && b.node2parentNode[i] < m.coords.Size() && (b.coords[i] - m.coords[b.node2parentNode[i]]).norm() == 0, K + ":bmesh-n2p", "node ", i);
        for (idx i = 0; i < idx(m.node2bndNode.size()); i++)
            if (m.node2bndNode[i] >= 0)
                VT_CHECK(m.node2bndNode[i] < b.coords.Size() && b.node2parentNode[m.node2bndNode[i]] == i, K + ":bmesh-p2n", "node ", i);
        auto g = vt::allGather(mine);
        std::sort(g.begin(), g.end());
        size_t nn = 0;
        for (auto &e : s.bnds)
            nn += e.zone > 0;
        VT_CHECK(g.size() == nn && std::adjacent_find(g.begin(), g.end()) == g.end(), K + ":bmesh-cells", g.size(), " boundary-mesh cells, expected ", nn);
    }

    // face-neighbour graph among the owned cells
    inline void checkLocalGraph(Mesh &m, const Ref &R, const State &st, const std::string &K)
    {
        auto g = m.GetCell2CellFaceVLocal();
        VT_CHECK(idx(g.size()) == m.NumCell(), K + ":graph-size", g.size());
        std::vector<std::set<int>> want(m.NumCell());
        std::map<int, idx> loc;
        for (idx i = 0; i < m.NumCell(); i++)
            loc[st.cell[i]] = i;
        for (auto &f : R.faceCells)
            if (f.size() == 2 && loc.count(f[0]) && loc.count(f[1]) && f[0] != f[1])
                want[loc[f[0]]].insert(int(loc[f[1]])), want[loc[f[1]]].insert(int(loc[f[0]]));
        for (idx i = 0; i < m.NumCell() && i < idx(g.size()); i++)
        {
            std::set<int> have(g[i].begin(), g[i].end());
            VT_CHECK(have == want[i], K + ":graph", "rank ", m.mpi.rank, " cell ", i, ": ", have.size(), " face neighbours, expected ", want[i].size());
        }
    }

    // C10: what a rank uses to look across a face leads to the neighbour as it lies next to that face
    inline void checkAcross(Mesh &m, const Ref &R, const State &st, const std::string &K)
    {
        auto &s = *R.s;
        auto &pi = m.periodicInfo;
        double h = 0;
        for (auto &x : s.X)
            for (int d = 0; d < 3; d++)
                h = std::max(h, std::abs(x[d]));
        for (idx j = 0; j < m.face2cell.Size(); j++)
        {
            idx c[2] = {m.face2cell(j, 0), m.face2cell(j, 1)};
            if (c[0] < 0 || c[1] < 0 || c[0] >= m.cell2node.Size() || c[1] >= m.cell2node.Size())
                continue;
            G::tSmallCoords xf, xc;
            m.GetCoordsOnFace(j, xf);
            int z = m.GetFaceZone(j);
            for (int k = 0; k < 2; k++)
            {
                idx me = c[k], ot = c[1 - k];
                VT_CHECK(m.CellFaceOther(me, j) == ot || c[0] == c[1], K + ":face-other", "face ", j);
                VT_CHECK(m.CellIsFaceBack(me, j) == (k == 0) || c[0] == c[1], K + ":face-back", "face ", j);
                // the neighbour's face nodes, moved into my frame, are my face nodes
                G::tSmallCoords xm;
                m.GetCoordsOnCell(me, xm);
                m.GetCoordsOnCell(ot, xc);
                for (int i = 0; i < xc.cols(); i++)
                {
                    DNDS::Geom::tPoint q = xc.col(i);
                    Eigen::Vector3d v = q;
                    Eigen::Matrix3d M = v * v.transpose() + Eigen::Matrix3d::Identity();
                    if (m.isPeriodic)
                        m.CellOtherCellPeriodicHandle(
                            j, k, [&]()
                            { q = pi.TransCoord(q, z); v = pi.TransVector<3, 1>(v, z); M = pi.TransMat<3>(M, z); },
                            [&]()
                            { q = pi.TransCoordBack(q, z); v = pi.TransVectorBack<3, 1>(v, z); M = pi.TransMatBack<3>(M, z); });
                    xc.col(i) = q;
                    if ((M - (v * v.transpose() + Eigen::Matrix3d::Identity())).norm() > 1e-10 * (1 + h * h))
                        VT_CHECK(false, K + ":tensor-across", "face ", j, ": vectors and matrices are carried differently across a periodic side");
                }
                int hit = 0;
                for (int i = 0; i < xf.cols(); i++)
                {
                    bool inMe = false, inOt = false;
                    for (int a = 0; a < xm.cols(); a++)
                        inMe = inMe || (xm.col(a) - xf.col(i)).norm() < 1e-8 * h;
                    for (int a = 0; a < xc.cols(); a++)
                        for (int b = 0; b < xm.cols(); b++)
                            inOt = inOt || (k == 0 ? (xc.col(a) - xf.col(i)).norm() < 1e-8 * h : false);
                    hit += k == 0 ? inMe && inOt : 1;
                }
                // from either side: as many of the neighbour's nodes coincide with mine as the face has
                int common = 0;
                for (int a = 0; a < xc.cols(); a++)
                    for (int b = 0; b < xm.cols(); b++)
                        common += (xc.col(a) - xm.col(b)).norm() < 1e-8 * h;
                VT_CHECK(hit == xf.cols() && common >= xf.cols(), K + ":across", "rank ", m.mpi.rank, " face ", j, " zone ", z, " seen from side ", k, ": ", common, " nodes of the neighbour coincide, face has ", xf.cols());
            }
        }
        if (!m.isPeriodic)
            return;
        vt::Rng r(vt::mix(L().seed, 991));
        for (int z = -6; z <= -1; z++)
        {
            int d = z < -3 ? -z - 3 : -z;
            if (!s.opt.per[d - 1])
                continue;
            for (int t = 0; t < 5; t++)
            {
                Eigen::Vector3d p(r.u(-2, 2), r.u(-2, 2), r.u(-2, 2)), q(r.u(-2, 2), r.u(-2, 2), r.u(-2, 2));
                Eigen::Vector3d a = pi.TransCoord(p, z), b = pi.TransCoord(q, z);
                VT_CHECK((pi.TransCoordBack(a, z) - p).norm() < 1e-12 * (10 + h), K + ":trans-inverse", "coordinate");
                VT_CHECK((pi.TransVector<3, 1>(p - q, z) - (a - b)).norm() < 1e-12 * (10 + h), K + ":trans-vector", "vector");
                VT_CHECK((pi.TransVectorBack<3, 1>(a - b, z) - (p - q)).norm() < 1e-12 * (10 + h), K + ":trans-vector-back", "vector");
                if (s.dim == 2)
                {
                    Eigen::Matrix<double, 2, 1> v2 = (p - q).head<2>(), w2 = (a - b).head<2>();
                    VT_CHECK((pi.TransVector<2, 1>(v2, z) - w2).norm() < 1e-12 * (10 + h) && (pi.TransVectorBack<2, 1>(w2, z) - v2).norm() < 1e-12 * (10 + h), K + ":trans-vector2", "2-D vector");
                    Eigen::Matrix2d M2 = v2 * v2.transpose(), N2 = w2 * w2.transpose();
                    VT_CHECK((pi.TransMat<2>(M2, z) - N2).norm() < 1e-11 * (10 + h) && (pi.TransMatBack<2>(N2, z) - M2).norm() < 1e-11 * (10 + h), K + ":trans-mat2", "2-D matrix");
                }
                Eigen::Matrix3d Mp = (p - q) * (p - q).transpose(), Ma = (a - b) * (a - b).transpose();
                VT_CHECK((pi.TransMat<3>(Mp, z) - Ma).norm() < 1e-11 * (10 + h) && (pi.TransMatBack<3>(Ma, z) - Mp).norm() < 1e-11 * (10 + h), K + ":trans-mat", "matrix");
                for (int bits = 0; bits < 8; bits++)
                {
                    if (((bits & 1) && !s.opt.per[0]) || ((bits & 2) && !s.opt.per[1]) || ((bits & 4) && !s.opt.per[2]))
                        continue;
                    G::NodePeriodicBits nb{uint8_t(bits)};
                    Eigen::Vector3d c = pi.GetCoordByBits(p, nb), e = pi.GetCoordByBits(q, nb);
                    VT_CHECK((pi.GetCoordBackByBits(c, nb) - p).norm() < 1e-12 * (10 + h), K + ":bits-inverse", "bits ", bits);
                    VT_CHECK((pi.GetVectorByBits<3, 1>(p - q, nb) - (c - e)).norm() < 1e-12 * (10 + h), K + ":bits-vector", "bits ", bits);
                    VT_CHECK((pi.GetVectorBackByBits<3, 1>(c - e, nb) - (p - q)).norm() < 1e-12 * (10 + h), K + ":bits-vector-back", "bits ", bits);
                }
            }
        }
    }

    // everything that is checked on a complete mesh
    inline void checkAll(Mesh &m, const Ref &R, const std::string &K, bool build = true, bool exact = true)
    {
        auto st = checkPrimary(m, R, K, exact && !R.s->periodic);
        if (!st.ok)
            return;
        if (build)
        {
            m.InterpolateFace();
            m.AssertOnFaces();
        }
        checkFaces(m, R, st, K);
        if (build)
            n2cb(m);
        checkN2CB(m, R, st, K);
        checkAcross(m, R, st, K);
        checkRoundTrip(m, R, st, K, true, true);
        checkLocalGraph(m, R, st, K);
    }

    // volume enclosed by the sides (triangles, bilinear quadrilaterals)
    inline double volume(const Spec &s, const El &c)
    {
        auto X = [&](int n)
        { return Eigen::Vector3d(s.X[n][0], s.X[n][1], s.X[n][2]); };
        double v = 0;
        Eigen::Vector3d o = X(c.n[0]);
        for (auto &f : faceVerts(s, c))
        {
            std::vector<Eigen::Vector3d> p;
            for (int n : f)
                p.push_back(X(n) - o);
            if (p.size() == 2)
                v += 0.5 * (p[0][0] * p[1][1] - p[0][1] * p[1][0]);
            else if (p.size() == 3)
                v += p[0].dot(p[1].cross(p[2])) / 6;
            else // bilinear patch: mean over both triangulations
                v += (p[0].dot(p[1].cross(p[2])) + p[0].dot(p[2].cross(p[3])) + p[0].dot(p[1].cross(p[3])) + p[1].dot(p[2].cross(p[3]))) / 12;
        }
        return v;
    }

    // C11: the subdivision of second-order cells, seen as a whole; returns it as a reference mesh
    inline bool checkBisect(Mesh &m, const Spec &s2, const std::string &K, Spec &out)
    {
        Locator loc(s2);
        std::vector<int64_t> cd, bd; // per cell: type, nodes...
        bool ok = true;
        auto cellIds = [&](idx i)
        {
            G::tSmallCoords cs;
            m.GetCoordsOnCell(i, cs);
            std::vector<int> o;
            for (int k = 0; k < cs.cols(); k++)
                o.push_back(loc.find(cs.col(k)));
            return o;
        };
        for (idx i = 0; i < m.NumCell(); i++)
        {
            auto ids = cellIds(i);
            for (int v : ids)
                ok = ok && v >= 0;
            VT_CHECK(ok, K + ":bi-node", "rank ", m.mpi.rank, " cell ", i, " uses a point that is no node of the second-order mesh");
            cd.push_back(m.cellElemInfo(i, 0).type), cd.push_back(ids.size());
            cd.insert(cd.end(), ids.begin(), ids.end());
        }
        for (idx i = 0; i < m.NumBnd(); i++)
        {
            idx c = m.bnd2cell(i, 0);
            if (c < 0 || c >= m.NumCell())
            {
                VT_CHECK(false, K + ":bi-bnd-cell", "rank ", m.mpi.rank, " bnd ", i, " -> cell ", c);
                ok = false;
                continue;
            }
            auto ids = cellIds(c);
            std::vector<int64_t> bn;
            for (auto n : m.bnd2node[i])
            {
                int cl = loc.find(m.coords[n]), hit = -1;
                for (int v : ids)
                    if (cl >= 0 && v >= 0 && s2.cls[v] == s2.cls[cl])
                        hit = v;
                VT_CHECK(hit >= 0, K + ":bi-bnd-node", "rank ", m.mpi.rank, " bnd ", i, " has a node that its cell has not");
                ok = ok && hit >= 0;
                bn.push_back(hit);
            }
            int64_t gc = c + (m.cell2node.father->pLGlobalMapping ? m.cell2node.father->pLGlobalMapping->operator()(m.mpi.rank, 0) : 0);
            bd.push_back(m.bndElemInfo(i, 0).type), bd.push_back(m.bndElemInfo(i, 0).zone), bd.push_back(gc), bd.push_back(bn.size());
            bd.insert(bd.end(), bn.begin(), bn.end());
        }
        if (vt::anyRank(!ok))
            return false;
        auto gc = vt::allGather(cd), gb = vt::allGather(bd);
        out = s2;
        out.order = 1;
        out.cells.clear(), out.bnds.clear();
        for (size_t i = 0; i < gc.size();)
        {
            El e;
            e.t = ElemType(gc[i]);
            int n = int(gc[i + 1]);
            e.n.assign(gc.begin() + i + 2, gc.begin() + i + 2 + n);
            i += 2 + n;
            out.cells.push_back(e);
        }
        for (size_t i = 0; i < gb.size();)
        {
            El e;
            e.t = ElemType(gb[i]);
            e.zone = int(gb[i + 1]);
            e.cell = int(gb[i + 2]);
            int n = int(gb[i + 3]);
            e.n.assign(gb.begin() + i + 4, gb.begin() + i + 4 + n);
            i += 4 + n;
            out.bnds.push_back(e);
        }
        // parents: the cell that holds all nodes
        std::vector<std::vector<int>> n2c(s2.X.size());
        for (size_t c = 0; c < s2.cells.size(); c++)
            for (int v : s2.cells[c].n)
                n2c[v].push_back(int(c));
        std::vector<double> vol(s2.cells.size(), 0);
        std::vector<int> cnt(s2.cells.size(), 0), par(out.cells.size(), -1);
        for (size_t i = 0; i < out.cells.size(); i++)
        {
            auto &e = out.cells[i];
            if (linOf(e.t) != e.t || tab(e.t).dim != s2.dim || int(e.n.size()) != tab(e.t).nv)
            {
                VT_CHECK(false, K + ":bi-type", "sub-cell type ", int(e.t), " with ", e.n.size(), " nodes");
                return false;
            }
            for (int c : n2c[e.n[0]])
            {
                bool all = true;
                for (int v : e.n)
                    all = all && std::find(s2.cells[c].n.begin(), s2.cells[c].n.end(), v) != s2.cells[c].n.end();
                if (all)
                    par[i] = c;
            }
            VT_CHECK(par[i] >= 0, K + ":bi-parent", "sub-cell ", i, " spans several cells");
            if (par[i] < 0)
                return false;
            double v = volume(out, e);
            VT_CHECK(v > 0, K + ":bi-volume", "sub-cell ", i, " of a type-", int(s2.cells[par[i]].t), " cell has volume ", v);
            vol[par[i]] += v;
            cnt[par[i]]++;
        }
        for (size_t c = 0; c < s2.cells.size(); c++)
        {
            El e = s2.cells[c];
            e.t = linOf(e.t);
            e.n.resize(e.nv());
            double v = volume(s2, e);
            int want = e.t == E::Tri3 || e.t == E::Quad4 ? 4 : e.t == E::Pyramid5 ? cnt[c] : 8; // a pyramid has several regular subdivisions
            VT_CHECK(std::abs(v - vol[c]) < 1e-10 * std::abs(v), K + ":bi-fill", "cell ", c, " type ", int(e.t), " volume ", v, ", its parts ", vol[c]);
            VT_CHECK(cnt[c] == want, K + ":bi-count", "cell ", c, " type ", int(e.t), " in ", cnt[c], " parts");
        }
        // every side: two cells, or one cell and one boundary element
        std::map<std::vector<int>, std::vector<int>> sides;
        for (size_t i = 0; i < out.cells.size(); i++)
            for (auto v : faceVerts(out, out.cells[i]))
            {
                std::sort(v.begin(), v.end());
                sides[v].push_back(int(i));
            }
        for (size_t b = 0; b < out.bnds.size(); b++)
        {
            auto &e = out.bnds[b];
            auto it = sides.find(out.key(e));
            VT_CHECK(it != sides.end() && it->second.size() == 1 && it->second[0] == e.cell, K + ":bi-bnd-side", "boundary element ", b, " zone ", e.zone, " is not a free side of its cell");
            if (it == sides.end())
                return false;
            it->second.push_back(-2 - int(b));
            bool found = false;
            for (auto &q : s2.bnds)
                if (q.zone == e.zone && e.cell >= 0 && q.cell == par[e.cell])
                {
                    bool all = true;
                    for (int v : e.n)
                        all = all && std::find(q.n.begin(), q.n.end(), v) != q.n.end();
                    found = found || all;
                }
            VT_CHECK(found, K + ":bi-bnd-zone", "boundary element ", b, " zone ", e.zone, " does not lie on a boundary element of that zone");
        }
        for (auto &f : sides)
            VT_CHECK(f.second.size() == 2, K + ":bi-conform", "a side of sub-cell ", f.second[0], " (type ", int(out.cells[f.second[0]].t), ") has ", f.second.size(), " owners");
        L().count("bisect-cells", m.NumCell());
        return true;
    }
}
