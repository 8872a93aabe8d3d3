// C08-C12: the mesh pipeline against reference meshes.
#include "meshpipe.hpp"
using namespace mp;
using vt::L;

static Opt randOpt(vt::Rng &r, int per, int order, int dim, int big)
{
    Opt o;
    o.dim = dim;
    o.order = order;
    if (dim == 2)
    {
        o.n[0] = int(r.in(2, big ? 9 : 6));
        o.n[1] = int(r.in(2, big ? 9 : 6));
        o.pSplit = r.p(0.3) ? (r.p(0.5) ? 0 : 1) : r.u();
    }
    else
    {
        for (int d = 0; d < 3; d++)
            o.n[d] = int(r.in(2, big ? 4 : 3));
        int k = int(r.in(0, 4));
        o.pBody = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 0.5 : k == 3 ? 0.6 : 0;
        o.pPrism = k == 0 ? 0 : k == 4 ? 1 : k == 3 ? 0.3 : 0;
    }
    if (r.p(0.4))
        o.pHole = r.u(0, 0.3);
    o.curve = order == 2 && r.p(0.5) ? 0.04 : 0;
    for (int d = 0; d < 3; d++)
        o.axis[d] = r.p(0.5);
    if (per)
    {
        if (per == 2)
        {
            o.sector = true;
            o.per[1] = true;
            if (dim == 3 && r.p(0.5))
                o.per[2] = true;
        }
        else
        {
            int mask = int(r.in(1, dim == 2 ? 3 : 7));
            for (int d = 0; d < 3; d++)
                o.per[d] = mask >> d & 1;
        }
        for (int d = 0; d < dim; d++)
            if (o.per[d])
                o.n[d] = std::max(o.n[d], 3);
    }
    return o;
}
static PipeOpt randPipe(vt::Rng &r, const Opt &o, int np)
{
    PipeOpt p;
    p.file.style = int(r.in(0, 2));
    p.file.bcStyle = int(r.in(0, 1));
    p.file.nZone = r.p(0.5) ? 1 : int(r.in(2, 6));
    p.file.innerFaces = r.p(0.2);
    p.file.physDim = o.dim == 2 && r.p(0.5) ? 2 : 3;
    p.part.metisType = r.p(0.7) ? "KWAY" : "RB";
    p.part.metisSeed = int(r.in(0, 5));
    p.part.edgeWeightMethod = 0;
    if (o.dim == 3 && o.order == 1 && o.pBody == 0 && o.pPrism == 0 && !o.sector && r.p(0.4))
        p.openFoam = true;
    return p;
}

// C12: written and read back, the mesh is the same and just as usable
static void serialModes(const DNDS::MPIInfo &mpi, MeshP m, const Ref &R, vt::Rng &r, const std::string &path, const std::string &K)
{
    int when = int(r.in(0, 2)); // 0 primary only, 1 reordered, 2 with faces and node adjacency
    if (when == 1)
        m->ReorderLocalCells();
    if (when == 2)
    {
        m->InterpolateFace();
        m->AssertOnFaces();
        n2cb(*m);
    }
    DNDS::Serializer::SerializerFactory f(r.p(0.5) ? "H5" : "JSON");
    f.hdfDeflateLevel = r.p(0.5) ? 5 : 0;
    f.hdfChunkSize = f.hdfDeflateLevel || r.p(0.5) ? int(r.in(4, 64)) : 0;
    f.hdfCollOnMeta = r.p(0.5);
    f.hdfCollOnData = f.hdfDeflateLevel ? true : r.p(0.5);
    f.jsonBinaryDeflateLevel = int(r.in(0, 9));
    f.jsonUseCodecOnUInt8 = r.p(0.5);
    std::string key = K + (f.type == "H5" ? "-h5" : "-json");
    std::string fn = path + (f.type == "H5" ? ".dnds.h5" : vt::str("_", mpi.rank, ".json"));
    auto dump = [&](Mesh &q)
    {
        std::vector<int64_t> o{q.isPeriodic, q.dim};
        dumpAdj(o, q.cell2node), dumpAdj(o, q.cell2cell), dumpAdj(o, q.bnd2node), dumpAdj(o, q.bnd2cell);
        for (idx i = 0; i < q.cellElemInfo.Size(); i++)
            o.push_back(q.cellElemInfo(i, 0).type), o.push_back(q.cellElemInfo(i, 0).zone);
        for (idx i = 0; i < q.bndElemInfo.Size(); i++)
            o.push_back(q.bndElemInfo(i, 0).type), o.push_back(q.bndElemInfo(i, 0).zone);
        for (idx i = 0; i < q.coords.Size(); i++)
            for (int d = 0; d < 3; d++)
            {
                int64_t b;
                double x = q.coords[i][d];
                memcpy(&b, &x, 8);
                o.push_back(b);
            }
        if (q.isPeriodic)
        {
            for (idx i = 0; i < q.cell2nodePbi.Size(); i++)
                for (int j = 0; j < q.cell2nodePbi.RowSize(i); j++)
                    o.push_back(uint8_t(q.cell2nodePbi(i, j)));
            for (int i = 1; i <= 3; i++)
                for (int d = 0; d < 3; d++)
                {
                    o.push_back(int64_t(1e12 * q.periodicInfo.translation[i][d])), o.push_back(int64_t(1e12 * q.periodicInfo.rotationCenter[i][d]));
                    for (int e = 0; e < 3; e++)
                        o.push_back(int64_t(1e12 * q.periodicInfo.rotation[i](d, e)));
                }
        }
        return o;
    };
    auto a = dump(*m);
    {
        auto w = f.BuildSerializer(mpi);
        w->OpenFile(fn, false);
        m->WriteSerialize(w, "meshPart");
        w->CloseFile();
    }
    VT_CHECK(dump(*m) == a, key + ":writer", "rank ", mpi.rank, ": writing changed the mesh");
    auto q = std::make_shared<Mesh>(mpi, R.s->dim);
    {
        auto w = f.BuildSerializer(mpi);
        w->OpenFile(fn, true);
        q->ReadSerialize(w, "meshPart");
        w->CloseFile();
    }
    VT_CHECK(dump(*q) == a, key + ":same", "rank ", mpi.rank, ": the mesh read back differs");
    // ghost exchange still works
    for (idx i = q->coords.father->Size(); i < q->coords.Size(); i++)
        q->coords[i].setConstant(-777);
    q->coords.trans.pullOnce();
    VT_CHECK(dump(*q) == a, key + ":pull", "rank ", mpi.rank, ": ghost exchange on the mesh read back is wrong");
    checkAll(*q, R, key);
    MPI_Barrier(MPI_COMM_WORLD);
    if (mpi.rank == 0 || f.type != "H5")
        std::filesystem::remove(fn);
}
static void elevModes(const DNDS::MPIInfo &mpi, MeshP m, const Spec &s0, vt::Rng &r, const std::string &K, int levels)
{
    Spec s = s0;
    bool two = false;
    if (r.p(0.4) && levels > 1)
        two = true;
    // elevation
    Spec s2 = s;
    promote(s2, r, 0, true);
    buildClasses(s2);
    Ref R2(s2);
    auto up = [&](MeshP src)
    {
        auto o = std::make_shared<Mesh>(mpi, s.dim);
        o->BuildO2FromO1Elevation(*src);
        o->BuildGhostPrimary();
        return o;
    };
    {
        auto o2 = up(m);
        o2->AdjGlobal2LocalPrimary();
        checkAll(*o2, R2, K + "-o2", true, false);
        bool is2 = o2->IsO2(), is1 = o2->IsO1(); // collective
        VT_CHECK(is2 && !is1, K + "-o2:order", "rank ", mpi.rank, " with ", o2->NumCell(), " cells: elevated mesh says first order ", is1, ", second order ", is2);
    }
    MeshP cur = m;
    for (int l = 0; l < (two ? 2 : 1); l++)
    {
        auto o2 = up(cur);
        auto b = std::make_shared<Mesh>(mpi, s.dim);
        b->BuildBisectO1FormO2(*o2);
        b->RecoverNode2CellAndNode2Bnd();
        b->RecoverCell2CellAndBnd2Cell();
        b->BuildGhostPrimary();
        b->AdjGlobal2LocalPrimary();
        b->AdjGlobal2LocalN2CB();
        Spec sb;
        if (vt::anyRank(!checkBisect(*b, s2, K + "-bi", sb)))
            return;
        Ref RB(sb);
        checkAll(*b, RB, K + "-bi", true, false);
        cur = b;
        if (l == 0 && two)
        { // the subdivided mesh is itself raised and subdivided
            s2 = sb;
            promote(s2, r, 0, true);
            buildClasses(s2);
        }
    }
}

int main(int argc, char **argv)
{
    vt::start(&argc, &argv);
    auto mpi = world();
    std::string mode = vt::sarg(argc, argv, "--mode", "base");
    int n = vt::arg(argc, argv, "--n", 10), per = vt::arg(argc, argv, "--per", 0), only = vt::arg(argc, argv, "--only", -1);
    int dimO = vt::arg(argc, argv, "--dim", 0), ordO = vt::arg(argc, argv, "--order", 0), big = vt::arg(argc, argv, "--big", 0);
    uint64_t base = vt::mix(L().seed, 7700 + per * 10 + vt::arg(argc, argv, "--base", 0));
    std::string scr = L().scratch;
    for (int it = 0; it < n; it++)
    {
        if (only >= 0 && it != only)
            continue;
        uint64_t seed = vt::mix(base, it);
        vt::Rng r(seed);
        int dim = dimO ? dimO : (it % 2 ? 3 : 2);
        int order = ordO ? ordO : (r.p(0.4) ? 2 : 1);
        int p = per == 3 ? int(r.in(0, 2)) : per;
        Opt o = randOpt(r, p, order, dim, big);
        PipeOpt po = randPipe(r, o, mpi.size);
        if (mode == "elev")
            o.order = 1;
        Spec s = make(o, seed);
        if (int(s.cells.size()) < mpi.size)
            continue;
        L().begin(vt::str(mode, ":", it, " np", mpi.size, " ", o.str(), " ", po.str()));
        Ref R(s);
        std::string path = scr + "/m" + std::to_string(it) + (po.openFoam ? "" : ".cgns");
        std::string K = mode;
        bool exact = !s.periodic;
        {
            Quiet q;
            auto m = readMesh(mpi, s, po, path, seed);
            m->BuildGhostPrimary();
            m->AdjGlobal2LocalPrimary();
            if (po.openFoam)
            { // the reader chooses the vertex order of a polyhedral cell: adopt it, but the cell has to be the same hexahedron
                std::vector<int64_t> mine;
                for (idx i = 0; i < m->NumCell(); i++)
                {
                    G::tSmallCoords cs;
                    m->GetCoordsOnCell(i, cs);
                    auto ids = R.ids(cs, int(cs.cols()));
                    mine.push_back(ids.size());
                    mine.insert(mine.end(), ids.begin(), ids.end());
                }
                auto all = vt::allGather(mine); // every rank adopts the same orders
                for (size_t q0 = 0; q0 < all.size(); q0 += 1 + all[q0])
                {
                    std::vector<int> ids(all.begin() + q0 + 1, all.begin() + q0 + 1 + all[q0]);
                    auto k = ids;
                    std::sort(k.begin(), k.end());
                    auto itc = R.cellOf.find(k);
                    if (itc == R.cellOf.end())
                        continue;
                    auto &c = s.cells[itc->second];
                    std::set<std::vector<int>> fa, fb;
                    auto canon = [](std::vector<int> v)
                    {
                        std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end());
                        return v;
                    };
                    for (auto v : faceVerts(s, c))
                        fa.insert(canon(v));
                    El e2 = c;
                    e2.n = ids;
                    for (auto v : faceVerts(s, e2))
                        fb.insert(canon(v));
                    VT_CHECK(fa == fb, K + ":openfoam-cell", "cell ", itc->second, " read as nodes ", vs(ids), " is not the hexahedron ", vs(c.n));
                    if (fa == fb)
                        c.n = ids;
                }
            }
            if (mode == "base")
            {
                auto st = checkPrimary(*m, R, K, exact);
                if (st.ok)
                    checkRoundTrip(*m, R, st, K, false, false);
            }
            else if (mode == "face" || mode == "per")
            {
                auto st = checkPrimary(*m, R, K, exact);
                if (st.ok)
                {
                    checkAll(*m, R, K);
                    checkBndMesh(*m, R, st, K);
                }
            }
            else if (mode == "reorder")
            {
                m->ReorderLocalCells();
                checkAll(*m, R, K + "-early");
                m->ReorderLocalCells(); // now with faces and node adjacency present
                auto st = checkPrimary(*m, R, K + "-late", exact);
                checkAll(*m, R, K + "-late", false);
                checkBndMesh(*m, R, st, K + "-late");
            }
            else if (mode == "ser")
                serialModes(mpi, m, R, r, scr + "/ser" + std::to_string(it), K);
            else if (mode == "elev")
                elevModes(mpi, m, s, r, K, o.dim == 2 ? 2 : 1);
        }
        L().endCase();
    }
    return vt::finish();
}
