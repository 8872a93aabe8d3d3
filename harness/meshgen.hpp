// Reference meshes: built from scratch here (element tables from the CGNS SIDS, not from the code under test)
// and written as CGNS or OpenFOAM files for the real readers.
#pragma once
#include "vt.hpp"
#include "Geom/Mesh.hpp"
#include <cgnslib.h>
#include <filesystem>

namespace mg
{
    using DNDS::Geom::Elem::ElemType;
    namespace E = DNDS::Geom::Elem;
    using P3 = std::array<double, 3>;

    // ---- element tables (CGNS SIDS), by linear type
    struct Tab
    {
        int nv, dim;
        std::vector<std::vector<int>> faces; // outward
        std::vector<std::vector<int>> edges; // order of the mid-edge nodes
        std::vector<std::vector<int>> quads; // order of the mid-face nodes (vertex sets)
        bool centre;
        ElemType o2;
        ElementType_t cg1, cg2;
        std::vector<std::vector<int>> rot; // orientation preserving renumberings
    };
    inline const Tab &tab(ElemType t)
    {
        static std::map<int, Tab> m;
        if (m.empty())
        {
            m[E::Line2] = {2, 1, {{0}, {1}}, {{0, 1}}, {}, false, E::Line3, BAR_2, BAR_3, {}};
            m[E::Tri3] = {3, 2, {{0, 1}, {1, 2}, {2, 0}}, {{0, 1}, {1, 2}, {2, 0}}, {}, false, E::Tri6, TRI_3, TRI_6, {{1, 2, 0}}};
            m[E::Quad4] = {4, 2, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}, {{0, 1, 2, 3}}, false, E::Quad9, QUAD_4, QUAD_9, {{1, 2, 3, 0}}};
            m[E::Tet4] = {4, 3, {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}, {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}}, {}, false, E::Tet10, TETRA_4, TETRA_10, {{1, 2, 0, 3}, {0, 2, 3, 1}}};
            m[E::Hex8] = {8, 3, {{0, 3, 2, 1}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {0, 4, 7, 3}, {4, 5, 6, 7}},
                          {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 5}, {2, 6}, {3, 7}, {4, 5}, {5, 6}, {6, 7}, {7, 4}},
                          {{0, 1, 2, 3}, {0, 1, 4, 5}, {1, 2, 5, 6}, {2, 3, 6, 7}, {0, 3, 4, 7}, {4, 5, 6, 7}},
                          true, E::Hex27, HEXA_8, HEXA_27, {{1, 2, 3, 0, 5, 6, 7, 4}, {4, 5, 1, 0, 7, 6, 2, 3}}};
            m[E::Prism6] = {6, 3, {{0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}, {0, 2, 1}, {3, 4, 5}},
                            {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 4}, {2, 5}, {3, 4}, {4, 5}, {5, 3}},
                            {{0, 1, 3, 4}, {1, 2, 4, 5}, {0, 2, 3, 5}},
                            false, E::Prism18, PENTA_6, PENTA_18, {{1, 2, 0, 4, 5, 3}, {3, 5, 4, 0, 2, 1}}};
            m[E::Pyramid5] = {5, 3, {{0, 3, 2, 1}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}},
                              {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 4}, {2, 4}, {3, 4}},
                              {{0, 1, 2, 3}}, false, E::Pyramid14, PYRA_5, PYRA_14, {{1, 2, 3, 0, 4}}};
        }
        return m.at(t);
    }
    inline ElemType linOf(ElemType t)
    {
        for (ElemType l : {E::Line2, E::Tri3, E::Quad4, E::Tet4, E::Hex8, E::Prism6, E::Pyramid5})
            if (l == t || tab(l).o2 == t)
                return l;
        return t;
    }
    inline ElemType faceLin(int dim, int nv) { return dim == 2 ? E::Line2 : nv == 3 ? E::Tri3
                                                                                      : E::Quad4; }

    struct El
    {
        ElemType t;
        std::vector<int> n;
        int zone = 0;
        int cell = -1; // bnd: owning cell
        int nv() const { return tab(linOf(t)).nv; }
    };

    struct Opt
    {
        int dim = 2, n[3] = {4, 4, 1}, order = 1;
        bool per[3] = {false, false, false};
        bool sector = false;  // direction 1 (theta) periodic by rotation about z
        double pSplit = 0.5;  // 2D: quads cut into triangles
        double pBody = 0.0;   // 3D: hexes cut into pyramids/tets
        double pPrism = 0.0;  // 3D: columns cut into prisms
        double pHole = 0.0;
        double pert = 0.15, curve = 0.0;
        double stretch = 0; // tensor-product spacing varies by 1 +- stretch
        bool reorient = true;
        bool cartesian = false; // unit scales, axis aligned
        bool axis[3] = {true, true, true};
        std::string str() const
        {
            return vt::str("d", dim, " ", n[0], "x", n[1], "x", n[2], " o", order, " per", per[0], per[1], per[2], " sec", sector, " sp", pSplit, " bo", pBody, " pr", pPrism, " ho", pHole, " cu", curve);
        }
    };

    struct Spec
    {
        int dim = 2, order = 1;
        Opt opt;
        std::vector<P3> X, P; // physical, parametric
        std::vector<El> cells, bnds;
        std::vector<int> cls; // node -> class under periodicity (min node id)
        bool periodic = false;
        Eigen::Matrix3d A; // parametric -> physical (affine part)
        P3 rotC{0, 0, 0};
        double theta = 0;
        int nVert = 0;

        std::vector<int> verts(const El &e) const { return std::vector<int>(e.n.begin(), e.n.begin() + e.nv()); }
        std::vector<int> key(const El &e) const
        {
            auto v = verts(e);
            std::sort(v.begin(), v.end());
            return v;
        }
        P3 mapX(const P3 &p) const
        {
            P3 q = p;
            if (opt.sector)
            {
                double r = 1 + p[0], th = theta * p[1];
                q = {r * std::cos(th), r * std::sin(th), p[2]};
            }
            P3 o;
            for (int i = 0; i < 3; i++)
            {
                o[i] = rotC[i];
                for (int j = 0; j < 3; j++)
                    o[i] += A(i, j) * q[j];
            }
            if (dim == 2)
                o[2] = 0;
            return o;
        }
    };

    inline std::vector<std::vector<int>> faceVerts(const Spec &s, const El &c)
    {
        std::vector<std::vector<int>> o;
        for (auto &f : tab(linOf(c.t)).faces)
        {
            std::vector<int> v;
            for (int i : f)
                v.push_back(c.n[i]);
            o.push_back(v);
        }
        return o;
    }

    // second-order version of a linear mesh; mid nodes at the mean of their vertices plus f(vertices)
    inline void promote(Spec &s, vt::Rng &r, double amp, bool mean = false)
    {
        std::map<std::vector<int>, int> mid;
        std::map<std::vector<int>, P3> pertOf;
        auto wrapKey = [&](std::vector<int> v)
        {
            for (auto &i : v)
                i = s.cls[i];
            std::sort(v.begin(), v.end());
            return v;
        };
        auto get = [&](const El &e, const std::vector<int> &loc)
        {
            std::vector<int> v;
            for (int i : loc)
                v.push_back(e.n[i]);
            std::sort(v.begin(), v.end());
            auto it = mid.find(v);
            if (it != mid.end())
                return it->second;
            P3 p{0, 0, 0};
            for (int i : v)
                for (int d = 0; d < 3; d++)
                    p[d] += s.P[i][d] / v.size();
            auto wk = wrapKey(v);
            if (!pertOf.count(wk))
                pertOf[wk] = {r.u(-amp, amp), r.u(-amp, amp), s.dim == 3 ? r.u(-amp, amp) : 0.};
            for (int d = 0; d < 3; d++)
                p[d] += pertOf[wk][d] / s.opt.n[d];
            int id = int(s.P.size());
            s.P.push_back(p);
            P3 x;
            if (mean || (amp == 0 && !s.opt.sector))
            { // straight: exactly the mean of the vertices
                x = {0, 0, 0};
                for (int i : v)
                    for (int d = 0; d < 3; d++)
                        x[d] += s.X[i][d];
                for (int d = 0; d < 3; d++)
                    x[d] /= v.size();
            }
            else
                x = s.mapX(p);
            s.X.push_back(x);
            mid[v] = id;
            return id;
        };
        auto up = [&](El &e)
        {
            const Tab &t = tab(e.t);
            El o = e;
            o.t = t.o2;
            for (auto &g : t.edges)
                o.n.push_back(get(e, g));
            for (auto &q : t.quads)
                o.n.push_back(get(e, q));
            if (t.centre)
                o.n.push_back(get(e, {0, 1, 2, 3, 4, 5, 6, 7}));
            e = o;
        };
        for (auto &c : s.cells)
            up(c);
        for (auto &b : s.bnds)
            up(b);
        s.order = 2;
    }

    inline void buildClasses(Spec &s)
    {
        s.cls.resize(s.P.size());
        std::map<std::array<long long, 3>, int> m;
        const double q = 1e-6;
        for (size_t i = 0; i < s.P.size(); i++)
        {
            std::array<long long, 3> k;
            for (int d = 0; d < 3; d++)
            {
                double v = s.P[i][d];
                long long kk = llround(v / q);
                if (s.opt.per[d])
                {
                    long long W = llround(1. / q);
                    kk = ((kk % W) + W) % W;
                }
                k[d] = kk;
            }
            int found = -1;
            for (int a = -1; a <= 1 && found < 0; a++)
                for (int b = -1; b <= 1 && found < 0; b++)
                    for (int c = -1; c <= 1 && found < 0; c++)
                    {
                        auto kk = k;
                        kk[0] += a, kk[1] += b, kk[2] += c;
                        long long W = llround(1. / q);
                        for (int d = 0; d < 3; d++)
                            if (s.opt.per[d])
                                kk[d] = ((kk[d] % W) + W) % W;
                        auto it = m.find(kk);
                        if (it != m.end())
                            found = it->second;
                    }
            if (found < 0)
                found = int(i), m[k] = found;
            s.cls[i] = found;
        }
    }

    inline uint64_t hk(uint64_t seed, int a, int b, int c, int d) { return vt::mix(vt::mix(vt::mix(vt::mix(seed, a + 77), b + 7), c + 3), d + 1); }

    inline Spec make(const Opt &oIn, uint64_t seed)
    {
        vt::Rng r(seed);
        Spec s;
        s.opt = oIn;
        Opt &o = s.opt;
        s.dim = o.dim;
        if (o.dim == 2)
            o.n[2] = 1, o.per[2] = false;
        if (o.sector)
            o.per[1] = true;
        s.periodic = o.per[0] || o.per[1] || o.per[2];
        int nx = o.n[0], ny = o.n[1], nz = o.dim == 3 ? o.n[2] : 0;
        s.A.setZero();
        if (o.sector)
        {
            double sc = r.u(0.5, 2);
            s.A << sc, 0, 0, 0, sc, 0, 0, 0, r.u(0.5, 2);
            s.theta = 2 * M_PI / r.in(5, 12);
            s.rotC = {r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)};
        }
        else if (o.cartesian)
        {
            s.A.setIdentity();
        }
        else
        {
            for (int i = 0; i < 3; i++)
                for (int j = 0; j < 3; j++)
                    s.A(i, j) = (i == j ? r.u(0.5, 3) : 0) + (o.axis[j] ? 0. : r.u(-0.2, 0.2));
            if (o.dim == 2)
                s.A(2, 0) = s.A(2, 1) = s.A(0, 2) = s.A(1, 2) = 0;
        }
        if (o.dim == 2)
            s.rotC[2] = 0;
        // parametric grid points
        std::vector<std::array<int, 3>> gid;
        auto node = [&](int i, int j, int k)
        { return (k * (ny + 1) + j) * (nx + 1) + i; };
        std::vector<P3> pw;
        for (int k = 0; k <= nz; k++)
            for (int j = 0; j <= ny; j++)
                for (int i = 0; i <= nx; i++)
                {
                    int w[3] = {o.per[0] ? i % nx : i, o.per[1] ? j % ny : j, o.per[2] ? k % nz : k};
                    vt::Rng q(hk(seed, w[0], w[1], w[2], 99));
                    double a = o.pert;
                    P3 p{(i + q.u(-a, a)) / nx, (j + q.u(-a, a)) / ny, o.dim == 3 ? (k + q.u(-a, a)) / nz : 0.};
                    if (o.stretch != 0)
                        for (int d = 0; d < o.dim; d++)
                            p[d] += o.stretch * std::sin(2 * M_PI * p[d]) / (2 * M_PI);
                    s.P.push_back(p);
                    gid.push_back({i, j, k});
                }
        // cells kept
        int nzc = o.dim == 3 ? nz : 1;
        auto cid = [&](int i, int j, int k)
        { return (k * ny + j) * nx + i; };
        std::vector<char> keep(size_t(nx) * ny * nzc, 1);
        if (o.pHole > 0)
        {
            for (int tries = 0; tries < int(o.pHole * keep.size()) + 1; tries++)
            {
                int i = r.in(0, nx - 1), j = r.in(0, ny - 1), k = r.in(0, nzc - 1);
                bool ok = true;
                for (int d = 0; d < 3; d++)
                {
                    int v[3] = {i, j, k};
                    if (o.per[d] && (v[d] == 0 || v[d] == o.n[d] - 1))
                        ok = false;
                }
                if (!ok || !keep[cid(i, j, k)])
                    continue;
                keep[cid(i, j, k)] = 0;
                // face-connected?
                std::vector<char> seen(keep.size(), 0);
                std::vector<int> st;
                size_t nk = 0;
                for (size_t c = 0; c < keep.size(); c++)
                    nk += keep[c];
                for (size_t c = 0; c < keep.size(); c++)
                    if (keep[c])
                    {
                        st.push_back(int(c));
                        seen[c] = 1;
                        break;
                    }
                size_t ns = 0;
                while (!st.empty())
                {
                    int c = st.back();
                    st.pop_back();
                    ns++;
                    int ci = c % nx, cj = (c / nx) % ny, ck = c / nx / ny;
                    const int D[6][3] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
                    for (auto &d : D)
                    {
                        int a = ci + d[0], b = cj + d[1], e = ck + d[2];
                        if (a < 0 || b < 0 || e < 0 || a >= nx || b >= ny || e >= nzc)
                            continue;
                        if (keep[cid(a, b, e)] && !seen[cid(a, b, e)])
                            seen[cid(a, b, e)] = 1, st.push_back(cid(a, b, e));
                    }
                }
                if (ns != nk || nk < 2)
                    keep[cid(i, j, k)] = 1;
            }
        }
        if (o.dim == 2)
        {
            for (int j = 0; j < ny; j++)
                for (int i = 0; i < nx; i++)
                {
                    if (!keep[cid(i, j, 0)])
                        continue;
                    int a = node(i, j, 0), b = node(i + 1, j, 0), c = node(i + 1, j + 1, 0), d = node(i, j + 1, 0);
                    if (r.p(o.pSplit))
                    {
                        if (r.p(0.5))
                            s.cells.push_back({E::Tri3, {a, b, c}}), s.cells.push_back({E::Tri3, {a, c, d}});
                        else
                            s.cells.push_back({E::Tri3, {a, b, d}}), s.cells.push_back({E::Tri3, {b, c, d}});
                    }
                    else
                        s.cells.push_back({E::Quad4, {a, b, c, d}});
                }
        }
        else
        {
            std::vector<int> col(nx * ny, -1);
            for (auto &c : col)
                if (r.p(o.pPrism))
                    c = int(r.in(0, 1));
            std::vector<char> body(keep.size(), 0);
            for (size_t c = 0; c < keep.size(); c++)
                body[c] = keep[c] && col[c % (nx * ny)] < 0 && r.p(o.pBody);
            // split state of a face of cell (i,j,k) in direction d, side sd: -1 none, else parity
            auto split = [&](int i, int j, int k, int d, int sd) -> int
            {
                if (d == 2 && col[j * nx + i] >= 0)
                    return col[j * nx + i];
                if (!body[cid(i, j, k)])
                    return -1;
                int v[3] = {i, j, k};
                v[d] += sd ? 1 : -1;
                int nn[3] = {nx, ny, nz};
                bool absent = false;
                if (v[d] < 0 || v[d] >= nn[d])
                {
                    if (o.per[d])
                        v[d] = (v[d] + nn[d]) % nn[d];
                    else
                        absent = true;
                }
                if (!absent && !keep[cid(v[0], v[1], v[2])])
                    absent = true;
                if (!absent && !body[cid(v[0], v[1], v[2])])
                    return -1;
                int f[3] = {i, j, k};
                if (sd)
                    f[d]++;
                if (o.per[d])
                    f[d] %= nn[d];
                uint64_t h = hk(seed ^ 0x5555, f[0], f[1], f[2], d);
                int m = int(h % 3);
                return m == 2 ? -1 : m;
            };
            for (int k = 0; k < nz; k++)
                for (int j = 0; j < ny; j++)
                    for (int i = 0; i < nx; i++)
                    {
                        if (!keep[cid(i, j, k)])
                            continue;
                        int h[8] = {node(i, j, k), node(i + 1, j, k), node(i + 1, j + 1, k), node(i, j + 1, k),
                                    node(i, j, k + 1), node(i + 1, j, k + 1), node(i + 1, j + 1, k + 1), node(i, j + 1, k + 1)};
                        int pc = col[j * nx + i];
                        if (pc == 0)
                        {
                            s.cells.push_back({E::Prism6, {h[0], h[1], h[2], h[4], h[5], h[6]}});
                            s.cells.push_back({E::Prism6, {h[0], h[2], h[3], h[4], h[6], h[7]}});
                        }
                        else if (pc == 1)
                        {
                            s.cells.push_back({E::Prism6, {h[0], h[1], h[3], h[4], h[5], h[7]}});
                            s.cells.push_back({E::Prism6, {h[1], h[2], h[3], h[5], h[6], h[7]}});
                        }
                        else if (!body[cid(i, j, k)])
                            s.cells.push_back({E::Hex8, std::vector<int>(h, h + 8)});
                        else
                        {
                            P3 p{0, 0, 0};
                            for (int q : h)
                                for (int d = 0; d < 3; d++)
                                    p[d] += s.P[q][d] / 8;
                            int ctr = int(s.P.size());
                            s.P.push_back(p);
                            gid.push_back({-1, -1, -1});
                            const int fd[6][2] = {{2, 0}, {1, 0}, {0, 1}, {1, 1}, {0, 0}, {2, 1}};
                            for (int f = 0; f < 6; f++)
                            {
                                auto &fv = tab(E::Hex8).faces[f];
                                int q[4] = {h[fv[0]], h[fv[1]], h[fv[2]], h[fv[3]]};
                                int sp = split(i, j, k, fd[f][0], fd[f][1]);
                                if (sp < 0)
                                    s.cells.push_back({E::Pyramid5, {q[3], q[2], q[1], q[0], ctr}});
                                else
                                {
                                    int d = fd[f][0], a0 = (d + 1) % 3, a1 = (d + 2) % 3;
                                    auto par = [&](int nd)
                                    {
                                        int w[3] = {gid[nd][0] - i, gid[nd][1] - j, gid[nd][2] - k};
                                        return (w[a0] + w[a1]) % 2;
                                    };
                                    int st = par(q[0]) == sp ? 0 : 1; // diagonal from q[st] to q[st+2]
                                    int q0 = q[st], q1 = q[(st + 1) % 4], q2 = q[(st + 2) % 4], q3 = q[(st + 3) % 4];
                                    s.cells.push_back({E::Tet4, {q0, q2, q1, ctr}});
                                    s.cells.push_back({E::Tet4, {q0, q3, q2, ctr}});
                                }
                            }
                        }
                    }
        }
        // drop unused nodes
        {
            std::vector<int> m(s.P.size(), -1);
            std::vector<P3> P2;
            std::vector<std::array<int, 3>> g2;
            for (auto &c : s.cells)
                for (auto &n : c.n)
                {
                    if (m[n] < 0)
                        m[n] = int(P2.size()), P2.push_back(s.P[n]), g2.push_back(gid[n]);
                    n = m[n];
                }
            s.P = P2;
            gid = g2;
        }
        s.nVert = int(s.P.size());
        for (auto &p : s.P)
            s.X.push_back(s.mapX(p));
        if (o.reorient)
            for (auto &c : s.cells)
                for (int t = 0; t < 4; t++)
                {
                    auto &g = tab(c.t).rot;
                    if (r.p(0.5))
                    {
                        auto &q = g[r.in(0, int(g.size()) - 1)];
                        auto n = c.n;
                        for (size_t i = 0; i < n.size(); i++)
                            c.n[i] = n[q[i]];
                    }
                }
        r.shuffle(s.cells);
        // boundary
        int zs[7];
        const int pool[] = {2, 3, 4, 11, 13, 21, 22, 25};
        for (auto &z : zs)
            z = pool[r.in(0, 7)];
        std::map<std::vector<int>, std::vector<std::pair<int, int>>> fm;
        for (size_t c = 0; c < s.cells.size(); c++)
        {
            auto fv = faceVerts(s, s.cells[c]);
            for (size_t f = 0; f < fv.size(); f++)
            {
                auto k = fv[f];
                std::sort(k.begin(), k.end());
                fm[k].push_back({int(c), int(f)});
            }
        }
        for (auto &kv : fm)
            if (kv.second.size() == 1)
            {
                auto v = faceVerts(s, s.cells[kv.second[0].first])[kv.second[0].second];
                int side = 6;
                int nn[3] = {nx, ny, nz};
                for (int d = 0; d < o.dim; d++)
                    for (int e = 0; e < 2; e++)
                    {
                        bool all = true;
                        for (int n : v)
                            if (gid[n][d] != (e ? nn[d] : 0))
                                all = false;
                        if (all)
                            side = 2 * d + e;
                    }
                El b;
                b.t = faceLin(o.dim, int(v.size()));
                b.zone = zs[side];
                if (side < 6 && o.per[side / 2])
                    b.zone = side % 2 ? -4 - side / 2 : -1 - side / 2; // main at the low end
                b.cell = kv.second[0].first;
                if (o.dim == 2 ? r.p(0.5) : r.p(0.3))
                    std::reverse(v.begin(), v.end());
                std::rotate(v.begin(), v.begin() + (o.dim == 3 ? r.in(0, int(v.size()) - 1) : 0), v.end());
                b.n = v;
                s.bnds.push_back(b);
            }
            else if (kv.second.size() > 2)
                fprintf(stderr, "meshgen: face shared by %zu cells\n", kv.second.size()), abort();
        r.shuffle(s.bnds);
        s.order = 1;
        buildClasses(s);
        if (o.order == 2)
        {
            promote(s, r, o.curve);
            buildClasses(s);
        }
        return s;
    }

    inline std::string zoneName(int z)
    {
        if (z < 0)
            return z >= -3 ? vt::str("PERIODIC_", -z) : vt::str("PERIODIC_", -z - 3, "_DONOR");
        return vt::str("Zone", z);
    }
    inline DNDS::Geom::t_index zoneID(const std::string &n)
    {
        if (n.rfind("PERIODIC_", 0) == 0)
        {
            int d = n[9] - '0';
            return n.size() > 10 ? -3 - d : -d;
        }
        if (n.rfind("Zone", 0) == 0)
            return atoi(n.c_str() + 4);
        return DNDS::Geom::BC_ID_NULL;
    }

    inline void setPeriodicity(const Spec &s, DNDS::Geom::Periodicity &p)
    {
        for (int d = 0; d < 3; d++)
        {
            if (!s.opt.per[d])
                continue;
            p.rotation[d + 1].setIdentity();
            p.rotationCenter[d + 1].setZero();
            if (s.opt.sector && d == 1)
            {
                double t = s.theta;
                p.rotation[d + 1] << std::cos(t), -std::sin(t), 0, std::sin(t), std::cos(t), 0, 0, 0, 1;
                for (int i = 0; i < 3; i++)
                    p.rotationCenter[d + 1][i] = s.rotC[i];
                p.translation[d + 1].setZero();
            }
            else
                for (int i = 0; i < 3; i++)
                    p.translation[d + 1][i] = s.A(i, d);
        }
    }

    struct FileOpt
    {
        int nZone = 1;
        int style = 0; // 0: one section per type; 1: MIXED; 2: several small sections per type, numbering not in file order
        int bcStyle = 0; // 0 PointRange, 1 PointList, 2 one BC per element range chunk
        bool innerFaces = false; // an extra section of internal faces without a boundary condition
        int physDim = 3;
    };
#define MG_CG(x) \
    do           \
    {            \
        if (x)   \
            cg_error_exit(); \
    } while (0)
    // cell -> file zone; order of nodes in the file is random
    inline void writeCGNS(const Spec &s, const std::string &fn, const FileOpt &fo, uint64_t seed, std::vector<int> cellZone = {})
    {
        vt::Rng r(seed);
        int nC = int(s.cells.size());
        if (cellZone.empty())
            cellZone.assign(nC, 0);
        int nZ = *std::max_element(cellZone.begin(), cellZone.end()) + 1;
        int f, B;
        MG_CG(cg_set_file_type(CG_FILE_HDF5));
        MG_CG(cg_open(fn.c_str(), CG_MODE_WRITE, &f));
        MG_CG(cg_base_write(f, "Base", s.dim, fo.physDim < s.dim ? s.dim : fo.physDim, &B));
        std::vector<std::vector<int>> zn(nZ);                       // zone-local -> node
        std::vector<std::map<int, int>> zl(nZ);                     // node -> zone-local (1-based)
        for (int z = 0; z < nZ; z++)
        {
            std::set<int> st;
            for (int c = 0; c < nC; c++)
                if (cellZone[c] == z)
                    for (int n : s.cells[c].n)
                        st.insert(n);
            zn[z].assign(st.begin(), st.end());
            r.shuffle(zn[z]);
            for (size_t i = 0; i < zn[z].size(); i++)
                zl[z][zn[z][i]] = int(i) + 1;
        }
        auto cgType = [&](ElemType t)
        {
            auto &tb = tab(linOf(t));
            return linOf(t) == t ? tb.cg1 : tb.cg2;
        };
        // interfaces: nodes of the faces two zones share, plus what is needed to link every copy of a node
        std::vector<std::vector<std::set<int>>> conn(nZ, std::vector<std::set<int>>(nZ));
        {
            std::map<std::vector<int>, int> seen;
            for (int c = 0; c < nC; c++)
                for (auto v : faceVerts(s, s.cells[c]))
                {
                    std::sort(v.begin(), v.end());
                    auto it = seen.find(v);
                    if (it == seen.end())
                        seen[v] = c;
                    else if (cellZone[it->second] != cellZone[c])
                        for (int a : s.cells[it->second].n)
                            if (std::find(s.cells[c].n.begin(), s.cells[c].n.end(), a) != s.cells[c].n.end())
                                conn[cellZone[c]][cellZone[it->second]].insert(a), conn[cellZone[it->second]][cellZone[c]].insert(a);
                }
            std::map<int, std::set<int>> zonesOf;
            for (int c = 0; c < nC; c++)
                for (int a : s.cells[c].n)
                    zonesOf[a].insert(cellZone[c]);
            for (auto &q : zonesOf)
            {
                if (q.second.size() < 2)
                    continue;
                std::set<int> reach{*q.second.begin()};
                for (bool ch = true; ch;)
                {
                    ch = false;
                    for (int z : q.second)
                        if (!reach.count(z))
                            for (int y : reach)
                                if (conn[z][y].count(q.first))
                                {
                                    reach.insert(z), ch = true;
                                    break;
                                }
                }
                if (reach.size() < q.second.size())
                    for (int z : q.second)
                        for (int y : q.second)
                            if (z != y)
                                conn[z][y].insert(q.first);
            }
        }
        for (int z = 0; z < nZ; z++)
        {
            std::vector<int> cz, bz;
            for (int c = 0; c < nC; c++)
                if (cellZone[c] == z)
                    cz.push_back(c);
            for (size_t b = 0; b < s.bnds.size(); b++)
                if (cellZone[s.bnds[b].cell] == z)
                    bz.push_back(int(b));
            cgsize_t sz[3] = {cgsize_t(zn[z].size()), cgsize_t(cz.size()), 0};
            int Z;
            MG_CG(cg_zone_write(f, B, vt::str("Blk", z + 1).c_str(), sz, Unstructured, &Z));
            const char *cn[3] = {"CoordinateX", "CoordinateY", "CoordinateZ"};
            for (int d = 0; d < std::max(s.dim, fo.physDim); d++)
            {
                std::vector<double> v;
                for (int n : zn[z])
                    v.push_back(s.X[n][d]);
                int ci;
                MG_CG(cg_coord_write(f, B, Z, RealDouble, cn[d], v.data(), &ci));
            }
            // element groups
            struct Grp
            {
                ElementType_t t;
                std::vector<std::pair<ElemType, std::vector<int>>> e;
                std::vector<int> bndId; // index in s.bnds or -1
            };
            std::vector<Grp> gs;
            auto local = [&](const std::vector<int> &n)
            {
                std::vector<int> o;
                for (int i : n)
                    o.push_back(zl[z].at(i));
                return o;
            };
            std::map<int, Grp> byT;
            for (int c : cz)
            {
                auto &g = byT[fo.style == 1 ? -1 : int(s.cells[c].t)];
                g.t = fo.style == 1 ? MIXED : cgType(s.cells[c].t);
                g.e.push_back({s.cells[c].t, local(s.cells[c].n)});
                g.bndId.push_back(-1);
            }
            for (auto &g : byT)
                gs.push_back(g.second);
            std::map<std::pair<int, int>, Grp> byB;
            for (int b : bz)
            {
                auto &e = s.bnds[b];
                auto &g = byB[{fo.style == 1 ? -1 : int(e.t), fo.bcStyle == 1 ? 0 : e.zone}];
                g.t = fo.style == 1 ? MIXED : cgType(e.t);
                g.e.push_back({e.t, local(e.n)});
                g.bndId.push_back(b);
            }
            for (auto &g : byB)
                gs.push_back(g.second);
            if (fo.innerFaces)
            {
                Grp g;
                std::map<std::vector<int>, int> cnt;
                for (int c : cz)
                    for (auto v : faceVerts(s, s.cells[c]))
                    {
                        auto k = v;
                        std::sort(k.begin(), k.end());
                        if (++cnt[k] == 2 && s.order == 1 && int(g.e.size()) < 5 && (g.e.empty() || g.e[0].second.size() == v.size()))
                        {
                            ElemType t = faceLin(s.dim, int(v.size()));
                            g.t = cgType(t);
                            g.e.push_back({t, local(v)});
                            g.bndId.push_back(-1);
                        }
                    }
                if (!g.e.empty())
                    gs.push_back(g);
            }
            if (fo.style == 2)
            { // cut into pieces
                std::vector<Grp> g2;
                for (auto &g : gs)
                {
                    size_t at = 0;
                    while (at < g.e.size())
                    {
                        size_t m = std::min(g.e.size() - at, size_t(r.in(1, int(g.e.size()))));
                        Grp q;
                        q.t = g.t;
                        q.e.assign(g.e.begin() + at, g.e.begin() + at + m);
                        q.bndId.assign(g.bndId.begin() + at, g.bndId.begin() + at + m);
                        g2.push_back(q);
                        at += m;
                    }
                }
                gs = g2;
            }
            r.shuffle(gs);
            std::vector<cgsize_t> startOf(gs.size());
            cgsize_t top = 1;
            for (size_t i = 0; i < gs.size(); i++)
                startOf[i] = top, top += cgsize_t(gs[i].e.size());
            std::vector<int> fileOrder(gs.size());
            for (size_t i = 0; i < gs.size(); i++)
                fileOrder[i] = int(i);
            if (fo.style == 2)
                r.shuffle(fileOrder);
            std::map<int, std::vector<cgsize_t>> bcPts;
            for (int gi : fileOrder)
            {
                auto &g = gs[gi];
                std::vector<cgsize_t> data, offs{0};
                for (auto &e : g.e)
                {
                    if (g.t == MIXED)
                        data.push_back(cgType(e.first));
                    for (int n : e.second)
                        data.push_back(n);
                    offs.push_back(cgsize_t(data.size()));
                }
                int S;
                cgsize_t st = startOf[gi], en = st + cgsize_t(g.e.size()) - 1;
                if (g.t == MIXED)
                    MG_CG(cg_poly_section_write(f, B, Z, vt::str("Sec", gi).c_str(), MIXED, st, en, 0, data.data(), offs.data(), &S));
                else
                    MG_CG(cg_section_write(f, B, Z, vt::str("Sec", gi).c_str(), g.t, st, en, 0, data.data(), &S));
                for (size_t i = 0; i < g.e.size(); i++)
                    if (g.bndId[i] >= 0)
                        bcPts[s.bnds[g.bndId[i]].zone].push_back(st + cgsize_t(i));
            }
            GridLocation_t loc = s.dim == 2 ? EdgeCenter : FaceCenter;
            int nbc = 0;
            for (auto &b : bcPts)
            {
                auto pts = b.second;
                std::sort(pts.begin(), pts.end());
                // contiguous runs
                std::vector<std::pair<cgsize_t, cgsize_t>> runs;
                for (auto p : pts)
                    if (!runs.empty() && runs.back().second + 1 == p)
                        runs.back().second = p;
                    else
                        runs.push_back({p, p});
                int I;
                if (fo.bcStyle == 1)
                {
                    r.shuffle(pts);
                    MG_CG(cg_boco_write(f, B, Z, zoneName(b.first).c_str(), BCGeneral, PointList, cgsize_t(pts.size()), pts.data(), &I));
                    MG_CG(cg_boco_gridlocation_write(f, B, Z, I, loc));
                }
                else if (runs.size() == 1)
                {
                    cgsize_t pr[2] = {runs[0].first, runs[0].second};
                    MG_CG(cg_boco_write(f, B, Z, zoneName(b.first).c_str(), BCGeneral, PointRange, 2, pr, &I));
                    MG_CG(cg_boco_gridlocation_write(f, B, Z, I, loc));
                }
                else if (pts.size() >= 2)
                {
                    MG_CG(cg_boco_write(f, B, Z, zoneName(b.first).c_str(), BCGeneral, PointList, cgsize_t(pts.size()), pts.data(), &I));
                    MG_CG(cg_boco_gridlocation_write(f, B, Z, I, loc));
                }
                nbc++;
            }
            // 1-to-1 interfaces
            for (int z2 = 0; z2 < nZ; z2++)
            {
                if (z2 == z)
                    continue;
                auto &shared = conn[z][z2];
                if (shared.empty())
                    continue;
                std::vector<int> sh(shared.begin(), shared.end());
                r.shuffle(sh);
                std::vector<cgsize_t> a, b;
                for (int n : sh)
                    a.push_back(zl[z].at(n)), b.push_back(zl[z2].at(n));
                int I;
                MG_CG(cg_conn_write(f, B, Z, vt::str("Conn", z + 1, "_", z2 + 1).c_str(), Vertex, Abutting1to1, PointList, cgsize_t(a.size()), a.data(),
                                    vt::str("Blk", z2 + 1).c_str(), Unstructured, PointListDonor, LongInteger, cgsize_t(b.size()), b.data(), &I));
            }
        }
        MG_CG(cg_close(f));
    }
    // random face-connected blocks
    inline std::vector<int> randomZones(const Spec &s, int nz, uint64_t seed)
    {
        vt::Rng r(seed);
        int n = int(s.cells.size());
        std::vector<int> z(n, -1);
        std::map<std::vector<int>, std::vector<int>> fm;
        for (int c = 0; c < n; c++)
            for (auto v : faceVerts(s, s.cells[c]))
            {
                std::sort(v.begin(), v.end());
                fm[v].push_back(c);
            }
        std::vector<std::vector<int>> adj(n);
        for (auto &f : fm)
            if (f.second.size() == 2)
                adj[f.second[0]].push_back(f.second[1]), adj[f.second[1]].push_back(f.second[0]);
        std::vector<std::pair<int, int>> front;
        for (int i = 0; i < nz; i++)
            front.push_back({int(r.in(0, n - 1)), i});
        while (!front.empty())
        {
            size_t k = r.next() % front.size();
            auto [c, zz] = front[k];
            front[k] = front.back();
            front.pop_back();
            if (z[c] >= 0)
                continue;
            z[c] = zz;
            for (int a : adj[c])
                if (z[a] < 0)
                    front.push_back({a, zz});
        }
        // compact ids
        std::map<int, int> m;
        for (auto &v : z)
        {
            if (!m.count(v))
            {
                int k = int(m.size());
                m[v] = k;
            }
            v = m[v];
        }
        return z;
    }

    inline void writeOpenFOAM(const Spec &s, const std::string &dir, uint64_t seed)
    {
        vt::Rng r(seed);
        std::filesystem::create_directories(dir);
        auto head = [&](std::ofstream &o, const char *cls, const char *obj)
        {
            o.precision(17);
            o << "/*--------------------------------*- C++ -*----------------------------------*\\\n| banner |\n\\*---------------------------------------------------------------------------*/\n"
              << "FoamFile\n{\n    version     2.0;\n    format      ascii;\n    class       " << cls << ";\n    location    \"constant/polyMesh\";\n    object      " << obj << ";\n}\n"
              << "// * * * * * * //\n\n";
        };
        struct F
        {
            std::vector<int> v;
            int own, nei, zone;
        };
        std::map<std::vector<int>, F> fm;
        for (int c = 0; c < int(s.cells.size()); c++)
            for (auto v : faceVerts(s, s.cells[c]))
            {
                auto k = v;
                std::sort(k.begin(), k.end());
                if (!fm.count(k))
                    fm[k] = {v, c, -1, 0};
                else
                    fm[k].nei = c;
            }
        for (auto &b : s.bnds)
            fm[s.key(b)].zone = b.zone;
        std::vector<F> in, bd;
        for (auto &f : fm)
            (f.second.nei >= 0 ? in : bd).push_back(f.second);
        for (auto &f : in)
            std::rotate(f.v.begin(), f.v.begin() + r.in(0, int(f.v.size()) - 1), f.v.end());
        std::sort(in.begin(), in.end(), [](auto &a, auto &b)
                  { return std::make_pair(a.own, a.nei) < std::make_pair(b.own, b.nei); });
        r.shuffle(bd);
        std::stable_sort(bd.begin(), bd.end(), [](auto &a, auto &b)
                         { return a.zone < b.zone; });
        std::ofstream pf(dir + "/points"), ff(dir + "/faces"), of(dir + "/owner"), nf(dir + "/neighbour"), bf(dir + "/boundary");
        head(pf, "vectorField", "points");
        pf << s.X.size() << "\n(\n";
        for (auto &x : s.X)
            pf << "(" << x[0] << " " << x[1] << " " << x[2] << ")\n";
        pf << ")\n\n// ***** //\n";
        head(ff, "faceList", "faces");
        ff << in.size() + bd.size() << "\n(\n";
        head(of, "labelList", "owner");
        of << in.size() + bd.size() << "\n(\n";
        head(nf, "labelList", "neighbour");
        nf << in.size() << "\n(\n";
        auto put = [&](const F &f)
        {
            ff << f.v.size() << "(";
            for (size_t i = 0; i < f.v.size(); i++)
                ff << (i ? " " : "") << f.v[i];
            ff << ")\n";
            of << f.own << "\n";
            if (f.nei >= 0)
                nf << f.nei << "\n";
        };
        for (auto &f : in)
            put(f);
        for (auto &f : bd)
            put(f);
        for (auto *o : {&ff, &of, &nf})
            *o << ")\n\n// ***** //\n";
        head(bf, "polyBoundaryMesh", "boundary");
        std::map<int, std::pair<int, int>> z; // zone -> start,count
        for (size_t i = 0; i < bd.size(); i++)
        {
            if (!z.count(bd[i].zone))
                z[bd[i].zone] = {int(in.size() + i), 0};
            z[bd[i].zone].second++;
        }
        bf << z.size() << "\n(\n";
        for (auto &q : z)
            bf << "    of_" << zoneName(q.first) << "\n    {\n        type            patch;\n        nFaces          " << q.second.second << ";\n        startFace       " << q.second.first << ";\n    }\n";
        bf << ")\n\n// ***** //\n";
    }

    // ---- identification of nodes by position
    struct Locator
    {
        const Spec *s;
        double q;
        std::map<std::array<long long, 3>, std::vector<int>> m;
        explicit Locator(const Spec &sp, double tol = 1e-7) : s(&sp), q(tol * 10)
        {
            for (size_t i = 0; i < sp.X.size(); i++)
                m[k(sp.X[i][0], sp.X[i][1], sp.X[i][2])].push_back(int(i));
        }
        std::array<long long, 3> k(double a, double b, double c) const { return {llround(a / q), llround(b / q), llround(c / q)}; }
        template <class V>
        int find(const V &x, double tol = 1e-7) const
        {
            if (!(std::abs(x[0]) < 1e6 && std::abs(x[1]) < 1e6 && std::abs(x[2]) < 1e6))
                return -1;
            auto k0 = k(x[0], x[1], x[2]);
            for (int a = -1; a <= 1; a++)
                for (int b = -1; b <= 1; b++)
                    for (int c = -1; c <= 1; c++)
                    {
                        auto it = m.find({k0[0] + a, k0[1] + b, k0[2] + c});
                        if (it != m.end())
                            for (int i : it->second)
                                if (std::abs(s->X[i][0] - x[0]) < tol && std::abs(s->X[i][1] - x[1]) < tol && std::abs(s->X[i][2] - x[2]) < tol)
                                    return i;
                    }
            return -1;
        }
    };
}
