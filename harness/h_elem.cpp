// C06 (element library) and C07 (derivative algebra): oracles over every element type and random points/maps.
#include "vt.hpp"
#include "Geom/Elements.hpp"
#include "Geom/Quadrature.hpp"
#include "Geom/DiffTensors.hpp"
using vt::L;
using vt::Rng;
using vt::str;

namespace vh
{
    using namespace DNDS;
    using DNDS::index;
    using namespace DNDS::Geom;
    using namespace DNDS::Geom::Elem;
    typedef Eigen::Matrix<double, 3, Eigen::Dynamic> M3X;
    typedef Eigen::Vector3d V3;

    static const char *names[] = {"?", "Line2", "Tri3", "Quad4", "Tet4", "Hex8", "Prism6", "Pyramid5", "Line3", "Tri6", "Quad9", "Tet10", "Hex27", "Prism18", "Pyramid14"};
    static const std::vector<ElemType> all = {Line2, Tri3, Quad4, Tet4, Hex8, Prism6, Pyramid5, Line3, Tri6, Quad9, Tet10, Hex27, Prism18, Pyramid14};
    std::string nm(ElemType t)
    {
        for (size_t i = 0; i < all.size(); i++)
            if (all[i] == t)
                return names[i + 1];
        return "?";
    }

    // ---- the reference element, independent of the library ----
    // vertices of the standard elements (CGNS numbering)
    M3X verts(ElemType t)
    {
        std::vector<V3> v;
        switch (Element{t}.GetParamSpace())
        {
        case LineSpace:
            v = {{-1, 0, 0}, {1, 0, 0}};
            break;
        case TriSpace:
            v = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}};
            break;
        case QuadSpace:
            v = {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}};
            break;
        case TetSpace:
            v = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
            break;
        case HexSpace:
            v = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
            break;
        case PrismSpace:
            v = {{0, 0, -1}, {1, 0, -1}, {0, 1, -1}, {0, 0, 1}, {1, 0, 1}, {0, 1, 1}};
            break;
        case PyramidSpace:
            v = {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}, {0, 0, 1}};
            break;
        default:
            break;
        }
        M3X m(3, v.size());
        for (size_t i = 0; i < v.size(); i++)
            m.col(i) = v[i];
        return m;
    }
    double distIn(ParamSpace ps, const V3 &p) // >= 0 inside
    {
        double x = p[0], y = p[1], z = p[2];
        switch (ps)
        {
        case LineSpace:
            return 1 - std::abs(x);
        case TriSpace:
            return std::min({x, y, 1 - x - y});
        case QuadSpace:
            return std::min(1 - std::abs(x), 1 - std::abs(y));
        case TetSpace:
            return std::min({x, y, z, 1 - x - y - z});
        case HexSpace:
            return std::min({1 - std::abs(x), 1 - std::abs(y), 1 - std::abs(z)});
        case PrismSpace:
            return std::min({x, y, 1 - x - y, 1 - std::abs(z)});
        case PyramidSpace:
            return std::min({z, 1 - z - std::abs(x), 1 - z - std::abs(y)});
        default:
            return -1;
        }
    }
    V3 randIn(ParamSpace ps, Rng &r, double margin)
    {
        int d = ps == LineSpace ? 1 : (ps == TriSpace || ps == QuadSpace) ? 2
                                                                           : 3;
        while (true)
        {
            V3 p{r.u(-1, 1), d > 1 ? r.u(-1, 1) : 0., d > 2 ? r.u(-1, 1) : 0.};
            if (distIn(ps, p) >= margin)
                return p;
        }
    }
    double fac(int n) { return n <= 1 ? 1. : n * fac(n - 1); }
    double sym(int a) { return a % 2 ? 0. : 2. / (a + 1); } // int_{-1}^1 x^a
    double monoInt(ParamSpace ps, int a, int b, int c)
    {
        switch (ps)
        {
        case LineSpace:
            return sym(a);
        case TriSpace:
            return fac(a) * fac(b) / fac(a + b + 2);
        case QuadSpace:
            return sym(a) * sym(b);
        case TetSpace:
            return fac(a) * fac(b) * fac(c) / fac(a + b + c + 3);
        case HexSpace:
            return sym(a) * sym(b) * sym(c);
        case PrismSpace:
            return fac(a) * fac(b) / fac(a + b + 2) * sym(c);
        case PyramidSpace: // int z^c (1-z)^{a+b+2} * sym(a) sym(b)
            return sym(a) * sym(b) * fac(c) * fac(a + b + 2) / fac(a + b + c + 3);
        default:
            return 0;
        }
    }

    Eigen::RowVectorXd N(ElemType t, const V3 &p)
    {
        tNj n;
        Element{t}.GetNj(p, n);
        return n;
    }

    void shapes(ElemType t, Rng &r, int nPts)
    {
        Element e{t};
        auto ps = e.GetParamSpace();
        int d = e.GetDim();
        L().begin("shape:" + nm(t));
        M3X sc = GetStandardCoord(t), v = verts(t);
        VT_CHECK(sc.cols() == e.GetNumNodes(), "elem:nodes", nm(t));
        VT_CHECK(v.cols() == e.GetNumVertices(), "elem:vertices", nm(t));
        VT_CHECK((sc.leftCols(v.cols()) - v).norm() < 1e-14, "elem:stdverts", nm(t), " standard vertices differ from the CGNS reference element");
        VT_CHECK(std::abs(ParamSpaceVol(ps) - monoInt(ps, 0, 0, 0)) < 1e-14, "elem:vol", nm(t));
        // nodes: all distinct and inside; second-order nodes at the mean of a set of vertices
        for (int i = 0; i < sc.cols(); i++)
        {
            VT_CHECK(distIn(ps, sc.col(i)) > -1e-14, "elem:nodeinside", nm(t), " node ", i);
            for (int j = 0; j < i; j++)
                VT_CHECK((sc.col(i) - sc.col(j)).norm() > 0.1, "elem:distinct", nm(t), " nodes ", i, " ", j);
            // the Pyramid shape functions are rational: the apex itself is a removable singularity
            V3 p = sc.col(i);
            if (ps == PyramidSpace && p[2] > 1 - 1e-10)
                p[2] = 1 - 1e-8;
            auto n = N(t, p);
            for (int j = 0; j < sc.cols(); j++)
                VT_CHECK(std::abs(n[j] - (i == j)) < (ps == PyramidSpace ? 1e-6 : 1e-12), "elem:delta", nm(t), " N", j, " at node ", i, " = ", n[j]);
        }
        for (int k = 0; k < nPts; k++)
        {
            V3 p = randIn(ps, r, ps == PyramidSpace ? 0.05 : 0.);
            auto n = N(t, p);
            VT_CHECK(std::abs(n.sum() - 1) < 1e-12, "elem:unity", nm(t), " sum ", n.sum());
            V3 x = sc * n.transpose();
            VT_CHECK((x - p).norm() < 1e-12, "elem:linear", nm(t), " coordinates not reproduced at ", p.transpose());
            if (e.GetOrder() == 2)
                for (int a = 0; a < 3; a++)
                    for (int b = 0; b <= a; b++)
                    {
                        double q = 0;
                        for (int j = 0; j < sc.cols(); j++)
                            q += n[j] * sc(a, j) * sc(b, j);
                        VT_CHECK(std::abs(q - p[a] * p[b]) < 1e-12, "elem:quadratic", nm(t), " ", a, b, " at ", p.transpose(), " got ", q, " expected ", p[a] * p[b]);
                    }
            // derivatives: every order from the one below by central differences
            tD01Nj d01;
            e.GetD01Nj(p, d01);
            tD1Nj d1;
            e.GetD1Nj(p, d1);
            VT_CHECK((d01.row(0) - n).norm() == 0 && (d01.bottomRows(3) - d1).norm() == 0, "elem:d01", nm(t));
            for (int a = d; a < 3; a++)
                VT_CHECK(d1.row(a).norm() == 0, "elem:d1unused", nm(t));
            tDiNj di;
            auto mi = [&](int row)
            { return d == 3 ? Base::diffOperatorOrderList[row] : d == 2 ? Base::diffOperatorOrderList2D[row]
                                                                        : std::array<int, 3>{row, 0, 0}; };
            auto nd = [&](int o)
            { return d == 3 ? Base::ndiffSizC[o] : d == 2 ? Base::ndiffSizC2D[o]
                                                          : o + 1; };
            for (int o = 0; o <= 3; o++)
            {
                tDiNj dd;
                e.GetDiNj(p, dd, o);
                VT_CHECK(dd.rows() == nd(o) && dd.cols() == e.GetNumNodes(), "elem:dishape", nm(t), " order ", o);
                if (o > 0)
                    VT_CHECK((dd.topRows(di.rows()) - di).norm() == 0, "elem:diprefix", nm(t), " order ", o);
                di = dd;
            }
            VT_CHECK((di.row(0) - n).norm() == 0, "elem:di0", nm(t));
            VT_CHECK((di.middleRows(1, d) - d1.topRows(d)).norm() == 0, "elem:di1", nm(t));
            const double h = 2e-3;
            for (int a = 0; a < d; a++)
            {
                auto at = [&](double s)
                {
                    V3 q = p;
                    q[a] += s * h;
                    tDiNj m;
                    e.GetDiNj(q, m, 3);
                    return m;
                };
                tDiNj f = (at(-2) - 8 * at(-1) + 8 * at(1) - at(2)) / (12 * h);
                for (int row = 0; row < nd(2); row++) // d/da of row
                {
                    auto m = mi(row);
                    m[a]++;
                    int tgt = -1;
                    for (int q = 0; q < nd(3); q++)
                        if (mi(q) == m)
                            tgt = q;
                    VT_CHECK(tgt >= 0, "elem:dilist", nm(t));
                    double sc1 = 1 + di.row(tgt).norm() + f.row(row).norm();
                    double tol = ps == PyramidSpace ? 3e-5 * sc1 / std::pow(std::max(1e-3, 1 - p[2]), 2) : 1e-7 * sc1;
                    VT_CHECK((f.row(row) - di.row(tgt)).norm() < tol, "elem:deriv",
                             nm(t), " derivative ", m[0], m[1], m[2], " at ", p.transpose(), ": differs from the difference quotient by ", (f.row(row) - di.row(tgt)).norm());
                }
            }
        }
        L().endCase();
    }

    void faces(ElemType t, Rng &r, int nPts)
    {
        Element e{t};
        int d = e.GetDim();
        if (d == 1)
            return;
        L().begin("faces:" + nm(t));
        M3X sc = GetStandardCoord(t);
        std::vector<int> ids(e.GetNumNodes());
        for (size_t i = 0; i < ids.size(); i++)
            ids[i] = int(i);
        std::map<std::vector<int>, std::vector<std::vector<int>>> edges;
        double vol = 0;
        V3 cen = sc.leftCols(e.GetNumVertices()).rowwise().mean(), closed{0, 0, 0};
        std::set<std::vector<int>> seen;
        std::set<int> covered;
        for (int f = 0; f < e.GetNumFaces(); f++)
        {
            Element ef = e.ObtainFace(f);
            VT_CHECK(ef.GetDim() == d - 1 && ef.GetOrder() == e.GetOrder(), "face:type", nm(t), " face ", f);
            std::vector<int> fn(ef.GetNumNodes(), -1);
            e.ExtractFaceNodes(f, ids, fn);
            auto key = fn;
            std::sort(key.begin(), key.end());
            VT_CHECK(std::unique(key.begin(), key.end()) == key.end() && seen.insert(key).second, "face:nodes", nm(t), " face ", f, " repeats nodes");
            for (int q : fn)
                covered.insert(q);
            M3X fc(3, fn.size());
            for (size_t i = 0; i < fn.size(); i++)
            {
                VT_CHECK(fn[i] >= 0 && fn[i] < e.GetNumNodes(), "face:node", nm(t));
                fc.col(i) = sc.col(fn[i]);
            }
            // vertices of the face are vertices of the element
            for (int i = 0; i < ef.GetNumVertices(); i++)
                VT_CHECK(fn[i] < e.GetNumVertices(), "face:vertex", nm(t), " face ", f);
            // outward normal, closed surface, volume by the divergence theorem
            V3 a = fc.leftCols(ef.GetNumVertices()).rowwise().mean(), S{0, 0, 0};
            if (d == 2)
            {
                V3 tg = fc.col(1) - fc.col(0);
                S = V3{tg[1], -tg[0], 0};
                vol += S.dot(a) / 2;
            }
            else
            {
                int nv = ef.GetNumVertices();
                for (int i = 1; i + 1 < nv; i++)
                    S += 0.5 * (fc.col(i) - fc.col(0)).cross(fc.col(i + 1) - fc.col(0));
                // flat faces of the standard elements
                V3 c = V3::Zero();
                double A = 0;
                for (int i = 1; i + 1 < nv; i++)
                {
                    double ar = 0.5 * (fc.col(i) - fc.col(0)).cross(fc.col(i + 1) - fc.col(0)).norm();
                    c += ar * (fc.col(0) + fc.col(i) + fc.col(i + 1)) / 3.;
                    A += ar;
                }
                vol += S.dot(c / A) / 3;
                for (int i = 0; i < nv; i++)
                {
                    std::vector<int> ed{fn[i], fn[(i + 1) % nv]};
                    auto k2 = ed;
                    std::sort(k2.begin(), k2.end());
                    edges[k2].push_back(ed);
                }
            }
            closed += S;
            VT_CHECK(S.dot(a - cen) > 0, "face:outward", nm(t), " face ", f, " does not point outwards");
            // conformity: the element's shape functions restricted to the face are the face's shape functions
            for (int k = 0; k < nPts; k++)
            {
                V3 fp = randIn(ef.GetParamSpace(), r, 0.02);
                auto fN = N(ef.type, fp);
                V3 x = fc * fN.transpose();
                if (e.GetParamSpace() == PyramidSpace && x[2] > 0.95)
                    continue;
                auto n = N(t, x);
                Eigen::RowVectorXd ex = Eigen::RowVectorXd::Zero(e.GetNumNodes());
                for (size_t i = 0; i < fn.size(); i++)
                    ex[fn[i]] = fN[i];
                VT_CHECK((n - ex).norm() < 1e-10, "face:conform", nm(t), " face ", f, " at ", x.transpose(), " differs by ", (n - ex).norm());
            }
        }
        VT_CHECK(closed.norm() < 1e-13, "face:closed", nm(t));
        VT_CHECK(std::abs(vol - ParamSpaceVol(e.GetParamSpace())) < 1e-13, "face:volume", nm(t), " ", vol);
        int bodyNodes = t == Quad9 ? 1 : t == Hex27 ? 1
                                                    : 0;
        VT_CHECK(int(covered.size()) == e.GetNumNodes() - bodyNodes, "face:covers", nm(t), " ", covered.size());
        for (auto &k : edges)
            VT_CHECK(k.second.size() == 2 && k.second[0][0] == k.second[1][1] && k.second[0][1] == k.second[1][0], "face:edges", nm(t), " edge ", k.first[0], "-", k.first[1]);
        L().endCase();
    }

    void connect(Rng &r, int n) // cellsAreFaceConnected on random pairs
    {
        L().begin("connect");
        for (int k = 0; k < n; k++)
        {
            ElemType A = all[r.in(0, 13)], B = all[r.in(0, 13)];
            Element ea{A}, eb{B};
            if (ea.GetDim() != eb.GetDim() || ea.GetDim() == 1)
                continue;
            int pool = int(r.in(30, 80));
            std::vector<index> all_ids(pool);
            for (int i = 0; i < pool; i++)
                all_ids[i] = i * 7 + 3;
            r.shuffle(all_ids);
            std::vector<index> na(all_ids.begin(), all_ids.begin() + ea.GetNumNodes()), nb;
            std::vector<index> rest(all_ids.begin() + ea.GetNumNodes(), all_ids.end());
            while ((int)rest.size() < eb.GetNumNodes())
                rest.push_back(10000 + (index)rest.size());
            // share m vertices of A with B at random B vertex places
            int m = int(r.in(0, std::min(ea.GetNumVertices(), eb.GetNumVertices())));
            nb.assign(rest.begin(), rest.begin() + eb.GetNumNodes());
            std::vector<int> pa(ea.GetNumVertices()), pb(eb.GetNumVertices());
            for (size_t i = 0; i < pa.size(); i++)
                pa[i] = int(i);
            for (size_t i = 0; i < pb.size(); i++)
                pb[i] = int(i);
            if (r.p(0.5)) // an entire face of A
            {
                int f = int(r.in(0, ea.GetNumFaces() - 1));
                std::vector<int> fn(ea.ObtainFace(f).GetNumNodes());
                ea.ExtractFaceNodes(f, pa.size() ? [&]
                                    { std::vector<int> q(ea.GetNumNodes()); for (size_t i = 0; i < q.size(); i++) q[i] = int(i); return q; }()
                                                 : std::vector<int>{},
                                    fn);
                pa.assign(fn.begin(), fn.begin() + ea.ObtainFace(f).GetNumVertices());
                m = std::min<int>(int(pa.size()) - int(r.p(0.3)), eb.GetNumVertices());
            }
            r.shuffle(pa), r.shuffle(pb);
            for (int i = 0; i < m; i++)
                nb[pb[i]] = na[pa[i]];
            std::set<index> vb(nb.begin(), nb.begin() + eb.GetNumVertices());
            bool ref = false;
            for (int f = 0; f < ea.GetNumFaces(); f++)
            {
                Element ef = ea.ObtainFace(f);
                std::vector<index> fn(ef.GetNumNodes());
                ea.ExtractFaceNodes(f, na, fn);
                bool allIn = true;
                for (int i = 0; i < ef.GetNumVertices(); i++)
                    allIn = allIn && vb.count(fn[i]);
                ref = ref || allIn;
            }
            VT_CHECK(cellsAreFaceConnected(na, nb, ea, eb) == ref, "face:connected", nm(A), " ", nm(B), " expected ", ref);
        }
        L().endCase();
    }

    void quads(ElemType t, Rng &r)
    {
        Element e{t};
        auto ps = e.GetParamSpace();
        int d = e.GetDim();
        L().begin("quad:" + nm(t));
        for (int order = 0; order <= INT_ORDER_MAX; order++)
        {
            Quadrature q(e, order);
            VT_CHECK(q.GetNumPoints() > 0, "quad:points", nm(t));
            double ws = 0;
            for (int iG = 0; iG < q.GetNumPoints(); iG++)
            {
                auto [p, w] = q.GetQuadraturePointInfo(iG);
                VT_CHECK(w > 0, "quad:weight", nm(t), " order ", order, " point ", iG, " w=", w);
                VT_CHECK(distIn(ps, p) > -1e-12, "quad:inside", nm(t), " order ", order, " point ", iG, " at ", V3(p).transpose());
                for (int a = d; a < 3; a++)
                    VT_CHECK(p[a] == 0, "quad:dim", nm(t));
                ws += w;
            }
            VT_CHECK(std::abs(ws - ParamSpaceVol(ps)) < 1e-9, "quad:sum", nm(t), " order ", order, " weights sum to ", ws);
            for (int a = 0; a <= order; a++)
                for (int b = 0; b <= (d > 1 ? order - a : 0); b++)
                    for (int c = 0; c <= (d > 2 ? order - a - b : 0); c++)
                    {
                        double v = 0, v2 = 0, v3 = 0;
                        int nCall = 0;
                        q.Integration(v, [&](double &inc, int iG, const tPoint &p, const tD01Nj &D)
                                      {
                                          tD01Nj ref;
                                          e.GetD01Nj(p, ref);
                                          VT_CHECK(D.cols() == ref.cols() && (D - ref).norm() == 0, "quad:shape", nm(t), " order ", order, " point ", iG);
                                          VT_CHECK(iG == nCall, "quad:sequence", nm(t));
                                          nCall++;
                                          inc = std::pow(p[0], a) * std::pow(p[1], b) * std::pow(p[2], c); });
                        VT_CHECK(nCall == q.GetNumPoints(), "quad:calls", nm(t));
                        q.IntegrationSimple(v2, [&](double &inc, int iG)
                                            {auto [p, w] = q.GetQuadraturePointInfo(iG); inc = std::pow(p[0], a) * std::pow(p[1], b) * std::pow(p[2], c); });
                        q.IntegrationSimple(v3, [&](double &inc, int iG, real w)
                                            {auto [p, w1] = q.GetQuadraturePointInfo(iG);
                                             VT_CHECK(w == w1, "quad:w", nm(t));
                                             inc = std::pow(p[0], a) * std::pow(p[1], b) * std::pow(p[2], c); });
                        double ref = monoInt(ps, a, b, c);
                        VT_CHECK(std::abs(v - ref) < 1e-9, "quad:exact", nm(t), " order ", order, " x^", a, " y^", b, " z^", c, " gives ", v, " expected ", ref);
                        VT_CHECK(v == v2 && v == v3, "quad:same", nm(t), " order ", order);
                    }
        }
        L().endCase();
        // curved elements: the integral of the Jacobian determinant is the volume enclosed, in any orientation of the numbering
        if (d < 3)
        {
            L().begin("patch:" + nm(t));
            M3X sc = GetStandardCoord(t);
            for (int order = 1; order <= INT_ORDER_MAX; order++)
            {
                Quadrature q(e, order);
                auto pt = [&](int k) -> V3
                {
                    if (k > 0)
                        return sc.col(k - 1);
                    auto [p, w] = q.GetQuadraturePointInfo(-k - 1);
                    return p;
                };
                auto P = GetQuadPatches(q);
                double A = 0, mn = 1e300;
                for (auto &tr : P)
                {
                    double s = d == 1 ? (pt(tr[1]) - pt(tr[0]))[0] : 0.5 * (pt(tr[1]) - pt(tr[0])).cross(pt(tr[2]) - pt(tr[0]))[2];
                    A += s, mn = std::min(mn, s);
                }
                VT_CHECK(std::abs(A - ParamSpaceVol(ps)) < 1e-12, "patch:area", nm(t), " order ", order, " patches cover ", A);
                VT_CHECK(mn > -1e-12, "patch:positive", nm(t), " order ", order, " smallest patch ", mn);
            }
            L().endCase();
        }
    }

    double cellVol(ElemType t, const M3X &x, int order = 6)
    {
        Quadrature q(Element{t}, order);
        double v = 0;
        int d = Element{t}.GetDim();
        q.Integration(v, [&](double &inc, int, const tPoint &, const tD01Nj &D)
                      {
                          tJacobi J = ShapeJacobianCoordD01Nj(x, D);
                          if (d == 3)
                              inc = J.determinant();
                          else if (d == 2)
                              inc = J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0);
                          else
                              inc = J(0, 0); });
        return v;
    }
    double minDet(ElemType t, const M3X &x)
    {
        Quadrature q(Element{t}, 2);
        double mn = 1e300, v = 0;
        int d = Element{t}.GetDim();
        q.Integration(v, [&](double &inc, int, const tPoint &, const tD01Nj &D)
                      {
                          inc = 0;
                          tJacobi J = ShapeJacobianCoordD01Nj(x, D);
                          mn = std::min(mn, d == 3 ? J.determinant() : d == 2 ? J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0)
                                                                              : J(0, 0)); });
        return mn;
    }

    void refine(ElemType t, Rng &r, int nRand)
    {
        Element e{t};
        if (e.GetOrder() == 1)
        {
            L().begin("elevate:" + nm(t));
            Element e2 = e.ObtainElevatedElem();
            VT_CHECK(e2.GetOrder() == 2 && e2.GetParamSpace() == e.GetParamSpace(), "elev:type", nm(t));
            VT_CHECK(e2.ObtainO1Elem().type == t && e.ObtainO1Elem().type == t, "elev:inverse", nm(t));
            VT_CHECK(e.GetNumElev_O1O2() == e2.GetNumNodes() - e.GetNumNodes(), "elev:number", nm(t));
            M3X s1 = GetStandardCoord(t), s2 = GetStandardCoord(e2.type);
            std::vector<int> ids(e.GetNumNodes());
            for (size_t i = 0; i < ids.size(); i++)
                ids[i] = int(i);
            for (int k = 0; k < e.GetNumElev_O1O2(); k++)
            {
                Element sp = e.ObtainElevNodeSpan(k);
                std::vector<int> sn(sp.GetNumNodes(), -1);
                e.ExtractElevNodeSpanNodes(k, ids, sn);
                V3 c{0, 0, 0};
                std::set<int> u;
                for (int q : sn)
                    c += s1.col(q) / double(sn.size()), u.insert(q);
                VT_CHECK(u.size() == sn.size(), "elev:span", nm(t), " new node ", k);
                VT_CHECK((c - s2.col(e.GetNumNodes() + k)).norm() < 1e-14, "elev:place", nm(t), " new node ", k, " is spanned at ", c.transpose(), " expected ", s2.col(e.GetNumNodes() + k).transpose());
                // the span is itself a valid element: shape of a quad in ring order has positive area
                if (sp.type == Quad4)
                {
                    V3 a0 = s1.col(sn[0]), a1 = s1.col(sn[1]), a2 = s1.col(sn[2]), a3 = s1.col(sn[3]);
                    VT_CHECK((0.5 * (a2 - a0).cross(a3 - a1)).norm() > 0.5, "elev:ring", nm(t), " new node ", k);
                }
            }
            L().endCase();
            return;
        }
        int nv = t == Tet10 ? 3 : t == Pyramid14 ? 2
                                                 : 1;
        for (int var = 0; var < nv; var++)
        {
            L().begin(str("bisect:", nm(t), ":v", var));
            for (int k = 0; k <= nRand; k++)
            {
                M3X x = GetStandardCoord(t);
                if (k)
                {
                    // a random affine image of the standard element: sub-elements stay flat, so they tile it exactly
                    tJacobi A = tJacobi::Identity();
                    int d = e.GetDim();
                    for (int a = 0; a < d; a++)
                        for (int b = 0; b < d; b++)
                            A(a, b) += r.u(-0.4, 0.4);
                    if (A.determinant() < 0.1)
                        continue;
                    x = (A * x).eval();
                    for (int a = 0; a < d; a++)
                        x.row(a).array() += r.u(-3, 3);
                }
                double tot = 0;
                std::set<int> used;
                std::map<std::vector<int>, int> fc;
                int dup = 0;
                for (int s = 0; s < e.GetO2NumBisect(); s++)
                {
                    Element es = e.ObtainO2BisectElem(s);
                    VT_CHECK(es.GetOrder() == 1 && es.GetDim() == e.GetDim(), "bis:type", nm(t));
                    std::vector<int> ids(e.GetNumNodes()), sn(es.GetNumNodes(), -1);
                    for (size_t i = 0; i < ids.size(); i++)
                        ids[i] = int(i);
                    e.ExtractO2BisectElemNodes(s, var, ids, sn);
                    M3X y(3, sn.size());
                    for (size_t i = 0; i < sn.size(); i++)
                        y.col(i) = x.col(sn[i]), used.insert(sn[i]);
                    VT_CHECK(minDet(es.type, y) > 0, "bis:positive", nm(t), " variant ", var, " sub-element ", s, " is inverted: ", minDet(es.type, y));
                    tot += cellVol(es.type, y, 4);
                    // faces of the sub-elements pair up inside; the others lie on the parent's boundary
                    if (e.GetDim() > 1)
                        for (int f = 0; f < es.GetNumFaces(); f++)
                        {
                            std::vector<int> fn(es.ObtainFace(f).GetNumNodes());
                            es.ExtractFaceNodes(f, sn, fn);
                            std::sort(fn.begin(), fn.end());
                            fc[fn]++;
                        }
                }
                double vp = cellVol(t, x, 4);
                VT_CHECK(std::abs(tot - vp) < 1e-10 * std::abs(vp), "bis:volume", nm(t), " variant ", var, " parts sum to ", tot, " the whole is ", vp);
                VT_CHECK((int)used.size() == e.GetNumNodes(), "bis:nodes", nm(t), " variant ", var, " uses ", used.size(), " nodes");
                M3X sc = GetStandardCoord(t);
                for (auto &f : fc)
                {
                    V3 c{0, 0, 0};
                    for (int q : f.first)
                        c += sc.col(q) / double(f.first.size());
                    bool onB = distIn(e.GetParamSpace(), c) < 1e-10;
                    VT_CHECK(f.second == (onB ? 1 : 2), "bis:faces", nm(t), " variant ", var, " a sub-face ", onB ? "on the boundary" : "inside", " occurs ", f.second, " times");
                }
                int v2 = GetO2ElemBisectVariant(e, x);
                VT_CHECK(v2 >= 0 && v2 < nv, "bis:variant", nm(t));
                // the chosen variant has the shortest inner diagonal (chosen consistently: scaling and moving do not change it)
                VT_CHECK(GetO2ElemBisectVariant(e, (x * 3.).colwise() + V3{1, 2, 3}) == v2 || k == 0, "bis:variantstable", nm(t));
            }
            L().endCase();
        }
        // conformity across a shared face: a parent face is cut the same way from both sides, whatever the variant
        if (e.GetDim() == 3)
        {
            L().begin("bisectface:" + nm(t));
            std::vector<int> ids(e.GetNumNodes());
            for (size_t i = 0; i < ids.size(); i++)
                ids[i] = int(i);
            for (int f = 0; f < e.GetNumFaces(); f++)
            {
                Element ef = e.ObtainFace(f);
                std::vector<int> fn(ef.GetNumNodes());
                e.ExtractFaceNodes(f, ids, fn);
                std::set<std::vector<int>> exp;
                for (int s = 0; s < ef.GetO2NumBisect(); s++)
                {
                    std::vector<int> sn(ef.ObtainO2BisectElem(s).GetNumNodes());
                    ef.ExtractO2BisectElemNodes(s, 0, fn, sn);
                    std::sort(sn.begin(), sn.end());
                    exp.insert(sn);
                }
                std::set<int> fset(fn.begin(), fn.end());
                for (int var = 0; var < nv; var++)
                {
                    std::set<std::vector<int>> got;
                    for (int s = 0; s < e.GetO2NumBisect(); s++)
                    {
                        Element es = e.ObtainO2BisectElem(s);
                        std::vector<int> sn(es.GetNumNodes());
                        e.ExtractO2BisectElemNodes(s, var, ids, sn);
                        for (int g = 0; g < es.GetNumFaces(); g++)
                        {
                            std::vector<int> gn(es.ObtainFace(g).GetNumNodes());
                            es.ExtractFaceNodes(g, sn, gn);
                            bool in = true;
                            for (int q : gn)
                                in = in && fset.count(q);
                            std::sort(gn.begin(), gn.end());
                            if (in)
                                got.insert(gn);
                        }
                    }
                    VT_CHECK(got == exp, "bis:conform", nm(t), " face ", f, " variant ", var);
                }
            }
            L().endCase();
        }
    }

    void vtk(ElemType t)
    {
        // VTK's own numbering of the same cells: each VTK mid-edge node lies between its two VTK corner nodes
        L().begin("vtk:" + nm(t));
        Element e{t};
        M3X sc = GetStandardCoord(t);
        std::vector<index> ids(e.GetNumNodes());
        for (size_t i = 0; i < ids.size(); i++)
            ids[i] = index(i);
        auto [code, nodes] = ToVTKVertsAndData(e, ids);
        static const std::map<ElemType, std::pair<int, int>> ref = {{Line2, {3, 2}}, {Tri3, {5, 3}}, {Tri6, {22, 6}}, {Quad4, {9, 4}}, {Quad9, {23, 8}}, {Tet4, {10, 4}}, {Tet10, {24, 10}}, {Hex8, {12, 8}}, {Hex27, {25, 20}}, {Prism6, {13, 6}}, {Prism18, {26, 15}}, {Pyramid5, {14, 5}}, {Pyramid14, {27, 13}}};
        auto it = ref.find(t);
        if (it != ref.end())
        {
            VT_CHECK(code == it->second.first && (int)nodes.size() == it->second.second, "vtk:type", nm(t), " code ", code, " nodes ", nodes.size());
            for (int i = 0; i < e.GetNumVertices(); i++)
                VT_CHECK(nodes[i] == i, "vtk:corner", nm(t), " corner ", i);
            static const std::map<int, std::vector<std::array<int, 2>>> mids = {
                {22, {{0, 1}, {1, 2}, {2, 0}}}, {23, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}}, {24, {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}}}, {25, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}}, {26, {{0, 1}, {1, 2}, {2, 0}, {3, 4}, {4, 5}, {5, 3}, {0, 3}, {1, 4}, {2, 5}}}, {27, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 4}, {2, 4}, {3, 4}}}};
            auto m = mids.find(code);
            if (m != mids.end())
                for (size_t k = 0; k < m->second.size(); k++)
                {
                    V3 c = 0.5 * (sc.col(m->second[k][0]) + sc.col(m->second[k][1]));
                    VT_CHECK((sc.col(nodes.at(e.GetNumVertices() + k)) - c).norm() < 1e-14, "vtk:mid", nm(t), " VTK mid node ", k);
                }
        }
        L().endCase();
    }

    // ------------------------------------------------------------------ C07
    // truncated power series in 3 variables, |a| <= 3: the independent calculus
    struct Ser
    {
        std::map<std::array<int, 3>, double> c;
        double get(const std::array<int, 3> &a) const
        {
            auto i = c.find(a);
            return i == c.end() ? 0 : i->second;
        }
        static Ser konst(double v)
        {
            Ser s;
            s.c[{0, 0, 0}] = v;
            return s;
        }
        Ser operator+(const Ser &o) const
        {
            Ser s = *this;
            for (auto &k : o.c)
                s.c[k.first] += k.second;
            return s;
        }
        Ser operator*(double f) const
        {
            Ser s = *this;
            for (auto &k : s.c)
                k.second *= f;
            return s;
        }
        Ser operator*(const Ser &o) const
        {
            Ser s;
            for (auto &k : c)
                for (auto &l : o.c)
                {
                    std::array<int, 3> a{k.first[0] + l.first[0], k.first[1] + l.first[1], k.first[2] + l.first[2]};
                    if (a[0] + a[1] + a[2] <= 3)
                        s.c[a] += k.second * l.second;
                }
            return s;
        }
        Ser compose(const std::array<Ser, 3> &g) const
        {
            Ser s;
            for (auto &k : c)
            {
                Ser m = konst(k.second);
                for (int d = 0; d < 3; d++)
                    for (int i = 0; i < k.first[d]; i++)
                        m = m * g[d];
                s = s + m;
            }
            return s;
        }
    };
    template <int dim>
    std::array<int, 3> MI(int row) { return dim == 2 ? Base::diffOperatorOrderList2D[row] : Base::diffOperatorOrderList[row]; }
    double mfac(const std::array<int, 3> &a) { return fac(a[0]) * fac(a[1]) * fac(a[2]); }

    template <int dim>
    void diffs(Rng &r, int n)
    {
        constexpr int nd = dim == 2 ? 10 : 20;
        L().begin(str("diff:", dim, "d"));
        // the list of derivatives holds every multi-index once, ordered by total order
        std::set<std::array<int, 3>> s;
        int last = 0;
        for (int i = 0; i < nd; i++)
        {
            auto a = MI<dim>(i);
            int o = a[0] + a[1] + a[2];
            VT_CHECK(o >= last && o <= 3 && (dim == 3 || a[2] == 0), "diff:list", "row ", i);
            last = o;
            s.insert(a);
            int comb = int(fac(o) / mfac(a) + 0.5);
            VT_CHECK((dim == 2 ? Base::diffNCombs2D[i] : Base::diffNCombs[i]) == comb, "diff:combs", "row ", i);
        }
        VT_CHECK(s.size() == nd, "diff:list", "distinct ", s.size());
        for (int o = 0; o <= 3; o++)
        {
            int k = 0;
            for (int i = 0; i < nd; i++)
            {
                auto a = MI<dim>(i);
                k += a[0] + a[1] + a[2] <= o;
            }
            VT_CHECK(Base::ndiffSizS<dim>(o) == k && Base::GetNDof<dim>(o) == k && Base::ndiff2order<dim>(k) == o, "diff:sizes", "order ", o);
        }
        for (int k = 0; k < n; k++)
        {
            // polynomial basis and its derivatives
            static const std::vector<int> sz = dim == 2 ? std::vector<int>{1, 3, 6, 10} : std::vector<int>{1, 4, 10, 20};
            int rows = sz[r.in(0, 3)], cols = sz[r.in(0, 3)];
            V3 x{r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)}, l{r.u(0.2, 3), r.u(0.2, 3), r.u(0.2, 3)};
            if (r.p(0.1))
                x.setZero();
            if (dim == 2)
                x[2] = 0;
            Eigen::MatrixXd T(rows, cols);
            T.setConstant(777);
            if constexpr (dim == 2)
                Base::FPolynomialFill2D(T, x[0], x[1], x[2], l[0], l[1], l[2], rows, cols);
            else
                Base::FPolynomialFill3D(T, x[0], x[1], x[2], l[0], l[1], l[2], rows, cols);
            for (int i = 0; i < rows; i++)
                for (int j = 0; j < cols; j++)
                {
                    auto a = MI<dim>(i), b = MI<dim>(j);
                    double ref = 1;
                    for (int d = 0; d < 3; d++)
                    {
                        double f = 1;
                        for (int q = 0; q < a[d]; q++)
                            f *= (b[d] - q);
                        ref *= b[d] >= a[d] ? f * std::pow(x[d], b[d] - a[d]) : 0.;
                        ref /= std::pow(dim == 2 && d == 2 ? 1. : l[d], a[d]);
                    }
                    VT_CHECK(vt::close(T(i, j), ref, 1e-12, 1e-13), "diff:poly", "dim ", dim, " rows ", rows, " cols ", cols, " derivative ", i, " of base ", j, " is ", T(i, j), " expected ", ref);
                }
            // a nonlinear map x(xi), a function u(xi): derivatives of xi(x) and of u(xi(x)) by series inversion
            std::array<Ser, 3> X; // x - x0 as a series in xi - xi0
            double amp = r.p(0.2) ? 0 : r.u(0, 0.6);
            for (int d = 0; d < 3; d++)
            {
                for (int i = 1; i < nd; i++)
                {
                    auto a = MI<dim>(i);
                    int o = a[0] + a[1] + a[2];
                    X[d].c[a] = o == 1 ? (a[d] ? 1. : 0.) + r.u(-0.35, 0.35) : amp * r.u(-1, 1);
                }
            }
            if (dim == 2)
            {
                X[2].c.clear();
                X[2].c[{0, 0, 1}] = 1;
                for (int i = 0; i < 2; i++)
                    for (auto it = X[i].c.begin(); it != X[i].c.end();)
                        it = it->first[2] ? X[i].c.erase(it) : std::next(it);
            }
            tJacobi J; // J(i,j) = d x_j / d xi_i
            for (int i = 0; i < 3; i++)
                for (int j = 0; j < 3; j++)
                {
                    std::array<int, 3> a{0, 0, 0};
                    a[i]++;
                    J(i, j) = X[j].get(a);
                }
            if (std::abs(J.determinant()) < 0.2)
                continue;
            tJacobi Ji = J.inverse();
            std::array<Ser, 3> Xi; // fixed point: xi = Jinv (x - nonlinear(xi))
            for (int d = 0; d < 3; d++)
                for (int i = 0; i < 3; i++)
                {
                    std::array<int, 3> a{0, 0, 0};
                    a[i]++;
                    Xi[d].c[a] = Ji(i, d);
                }
            for (int it = 0; it < 4; it++)
            {
                std::array<Ser, 3> res; // x(xi(x)) - x
                for (int d = 0; d < 3; d++)
                {
                    res[d] = X[d].compose(Xi);
                    std::array<int, 3> a{0, 0, 0};
                    a[d]++;
                    res[d].c[a] -= 1;
                }
                std::array<Ser, 3> nw = Xi;
                for (int d = 0; d < 3; d++)
                    for (int j = 0; j < 3; j++)
                        nw[d] = nw[d] + res[j] * (-Ji(j, d));
                Xi = nw;
            }
            auto cmp = [&](const Eigen::MatrixXd &got, int rws, const std::string &key, std::function<double(int, int)> ref)
            {
                double sc = 1;
                for (int i = 1; i < rws; i++)
                    for (int j = 0; j < got.cols(); j++)
                        sc = std::max(sc, std::abs(ref(i, j)));
                for (int i = 1; i < rws; i++)
                    for (int j = 0; j < got.cols(); j++)
                        VT_CHECK(std::abs(got(i, j) - ref(i, j)) < 1e-9 * sc, key, "dim ", dim, " rows ", rws, " derivative ", i, " column ", j, " is ", got(i, j), " expected ", ref(i, j));
            };
            auto fill = [&](const std::array<Ser, 3> &S, int rws)
            {
                Eigen::MatrixXd M(rws, 3);
                for (int i = 0; i < rws; i++)
                    for (int j = 0; j < 3; j++)
                        M(i, j) = S[j].get(MI<dim>(i)) * mfac(MI<dim>(i));
                return M;
            };
            auto inv = [&](auto md)
            {
                constexpr int maxDiff = decltype(md)::value;
                int rws = Base::ndiffSizS<dim>(maxDiff);
                Eigen::MatrixXd A = fill(X, rws), B = Eigen::MatrixXd::Zero(rws, 3);
                Base::DxDxi2DxiDx<dim, maxDiff>(A, B);
                Eigen::MatrixXd Bc = B.leftCols(dim);
                cmp(Bc, rws, "diff:inverse", [&](int i, int j)
                    { return Xi[j].get(MI<dim>(i)) * mfac(MI<dim>(i)); });
            };
            inv(std::integral_constant<int, 1>());
            inv(std::integral_constant<int, 2>());
            inv(std::integral_constant<int, 3>());
            int nc = int(r.in(1, 4)), ord = int(r.in(0, 3));
            int rws = Base::ndiffSizS<dim>(ord);
            std::vector<Ser> U(nc), UX(nc);
            Eigen::MatrixXd M(rws, nc);
            for (int q = 0; q < nc; q++)
            {
                for (int i = 0; i < nd; i++)
                    U[q].c[MI<dim>(i)] = r.u(-1, 1);
                UX[q] = U[q].compose(Xi);
                for (int i = 0; i < rws; i++)
                    M(i, q) = U[q].get(MI<dim>(i)) * mfac(MI<dim>(i));
            }
            Eigen::MatrixXd M2 = M;
            Eigen::MatrixXd D = fill(Xi, nd);
            Base::ConvertDiffsFullMap<dim>(M2, D);
            cmp(M2, rws, "diff:fullmap", [&](int i, int j)
                { return UX[j].get(MI<dim>(i)) * mfac(MI<dim>(i)); });
            // linear map: X = A^{-T}..., derivative rows transform as tensors
            std::array<Ser, 3> Lx;
            tJacobi A = tJacobi::Identity();
            for (int i = 0; i < dim; i++)
                for (int j = 0; j < dim; j++)
                    A(i, j) = r.u(-1, 1);
            for (int j = 0; j < 3; j++)
                for (int i = 0; i < 3; i++)
                {
                    std::array<int, 3> a{0, 0, 0};
                    a[i]++;
                    Lx[j].c[a] = A(i, j); // x_j = sum_i A(i,j) X_i  =>  d/dX_i = sum_j A(i,j) d/dx_j
                }
            Eigen::MatrixXd M3 = M;
            tGPoint A3 = A;
            Base::ConvertDiffsLinMap<dim>(M3, A3);
            for (int q = 0; q < nc; q++)
                UX[q] = U[q].compose(Lx);
            cmp(M3, rws, "diff:linmap", [&](int i, int j)
                { return UX[j].get(MI<dim>(i)) * mfac(MI<dim>(i)); });
            VT_CHECK((M3.row(0) - M.row(0)).norm() == 0 && (M2.row(0) - M.row(0)).norm() == 0, "diff:value", "the value itself changed");
            // symmetric tensor inner products against the full contraction
            Eigen::VectorXd a = Eigen::VectorXd::NullaryExpr(10, [&]
                                                             { return r.u(-1, 1); }),
                            b = Eigen::VectorXd::NullaryExpr(10, [&]
                                                             { return r.u(-1, 1); });
            auto contr = [&](int rank)
            {
                int o0 = rank == 0 ? 0 : Base::ndiffSizS<dim>(rank - 1);
                auto find = [&](std::array<int, 3> m)
                {
                    for (int i = 0; i < nd; i++)
                        if (MI<dim>(i) == m)
                            return i - o0;
                    return -1;
                };
                double sum = 0;
                int tot = int(std::pow(dim, rank) + 0.5);
                for (int q = 0; q < tot; q++)
                {
                    std::array<int, 3> m{0, 0, 0};
                    for (int z = 0, qq = q; z < rank; z++, qq /= dim)
                        m[qq % dim]++;
                    int f = find(m);
                    sum += a[f] * b[f];
                }
                return sum;
            };
            VT_CHECK(vt::close((Base::NormSymDiffOrderTensorV<dim, 0>(a, b)), contr(0), 1e-12, 1e-12), "diff:norm", "rank 0");
            VT_CHECK(vt::close((Base::NormSymDiffOrderTensorV<dim, 1>(a, b)), contr(1), 1e-12, 1e-12), "diff:norm", "rank 1");
            VT_CHECK(vt::close((Base::NormSymDiffOrderTensorV<dim, 2>(a, b)), contr(2), 1e-12, 1e-12), "diff:norm", "rank 2");
            VT_CHECK(vt::close((Base::NormSymDiffOrderTensorV<dim, 3>(a, b)), contr(3), 1e-12, 1e-12), "diff:norm", "rank 3");
        }
        L().endCase(str(dim, "d x", n));
    }

    void run(int argc, char **argv)
    {
        std::string mode = vt::sarg(argc, argv, "--mode", "elem");
        int n = vt::arg(argc, argv, "--n", 40);
        Rng r(vt::mix(L().seed, 77));
        if (mode == "elem")
        {
            for (auto t : all)
            {
                shapes(t, r, n);
                faces(t, r, n);
                quads(t, r);
                refine(t, r, std::max(3, n / 8));
                if (t != Line3) // written as a poly-line, which has no VTK mid-node order
                    vtk(t);
            }
            connect(r, 20 * n);
        }
        else
            for (int k = 0; k < 10; k++)
            {
                diffs<2>(r, n);
                diffs<3>(r, n);
            }
    }
}
int main(int argc, char **argv)
{
    vt::start(&argc, &argv);
    vh::run(argc, argv);
    return vt::finish();
}
