// Monitors of the compact finite volume layer (src/CFV): metrics, base functions, variational reconstruction, limiters.
#include "vt.hpp"
#include "meshgen.hpp"
#include "meshpipe.hpp"
#include "CFV/VariationalReconstruction.hpp"
using namespace mg;
using namespace mp;
using vt::L;
namespace G = DNDS::Geom;
using DNDS::real;
using idx = DNDS::index;
using Pt = G::tPoint;
using Mat = Eigen::MatrixXd;

// ---- polynomials in three variables
struct Poly
{
    std::map<std::array<int, 3>, double> c;
    double d(const Pt &x, int a, int b, int e) const // derivative of order (a,b,e)
    {
        double s = 0;
        for (auto &t : c)
        {
            double v = t.second;
            int o[3] = {a, b, e};
            for (int k = 0; k < 3 && v != 0; k++)
            {
                int p = t.first[k];
                if (p < o[k])
                    v = 0;
                else
                {
                    for (int q = 0; q < o[k]; q++)
                        v *= p - q;
                    for (int q = 0; q < p - o[k]; q++)
                        v *= x[k];
                }
            }
            s += v;
        }
        return s;
    }
    double operator()(const Pt &x) const { return d(x, 0, 0, 0); }
    void add(const Poly &q, double f = 1)
    {
        for (auto &t : q.c)
            c[t.first] += f * t.second;
    }
    static Poly lin(const Eigen::Vector3d &g, double k)
    {
        Poly p;
        p.c[{1, 0, 0}] = g[0], p.c[{0, 1, 0}] = g[1], p.c[{0, 0, 1}] = g[2], p.c[{0, 0, 0}] = k;
        return p;
    }
    static Poly konst(double k)
    {
        Poly p;
        p.c[{0, 0, 0}] = k;
        return p;
    }
    Poly operator*(const Poly &q) const
    {
        Poly o;
        for (auto &a : c)
            for (auto &b : q.c)
                o.c[{a.first[0] + b.first[0], a.first[1] + b.first[1], a.first[2] + b.first[2]}] += a.second * b.second;
        return o;
    }
};

// polynomial fields of degree <= deg compatible with the periodicity of the mesh
static std::vector<Poly> fields(const Spec &s, int nv, int deg, vt::Rng &r)
{
    std::vector<Poly> o(nv);
    if (s.opt.sector)
    {
        bool zOk = s.dim == 3 && !s.opt.per[2];
        Poly X = Poly::lin({1, 0, 0}, -s.rotC[0]), Y = Poly::lin({0, 1, 0}, -s.rotC[1]), Z = zOk ? Poly::lin({0, 0, 1}, r.u(-1, 1)) : Poly::konst(1);
        Poly R2 = X * X;
        R2.add(Y * Y);
        auto scal = [&](int dg)
        {
            Poly p = Poly::konst(r.u(-1, 1));
            Poly zp = Poly::konst(1);
            for (int a = 0; a <= dg; a++)
            {
                p.add(zp, r.u(-1, 1));
                if (a + 2 <= dg)
                    p.add(zp * R2, r.u(-1, 1));
                zp = zp * Z;
            }
            return p;
        };
        for (int v = 0; v < nv; v++)
            if (v != 1 && v != 2)
                o[v] = scal(deg);
        Poly a = scal(deg - 1), b = scal(deg - 1);
        o[1] = X * a;
        o[1].add(Y * b, -1);
        o[2] = Y * a;
        o[2].add(X * b);
        return o;
    }
    // directions in which the field may vary: orthogonal to every period
    std::vector<Eigen::Vector3d> dir;
    Eigen::MatrixXd T(3, 0);
    for (int d = 0; d < 3; d++)
        if (s.opt.per[d])
            T.conservativeResize(3, T.cols() + 1), T.col(T.cols() - 1) = s.A.col(d);
    auto proj = [&](Eigen::Vector3d g) -> Eigen::Vector3d
    {
        if (s.dim == 2)
            g[2] = 0;
        if (T.cols())
            g -= T * T.colPivHouseholderQr().solve(g);
        if (s.dim == 2)
            g[2] = 0;
        return g;
    };
    for (int v = 0; v < nv; v++)
    {
        o[v] = Poly::konst(r.u(-2, 2));
        for (int m = 0; m < 2 * deg; m++)
        {
            Poly p = Poly::konst(r.u(-1, 1));
            for (int k = 0; k <= m % deg; k++)
                p = p * Poly::lin(proj({r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)}), r.u(-1, 1));
            o[v].add(p);
        }
    }
    return o;
}

template <int dim>
constexpr int NV = dim == 2 ? 4 : 5;
template <int dim>
using VR = DNDS::CFV::VariationalReconstruction<dim>;
template <int dim>
using Vec = Eigen::Vector<real, NV<dim>>;
template <int dim>
using URec = DNDS::CFV::tURec<NV<dim>>;
template <int dim>
using UDof = DNDS::CFV::tUDof<NV<dim>>;

static const std::array<int, 3> &dOp(int dim, int i) { return dim == 2 ? G::Base::diffOperatorOrderList2D[i] : G::Base::diffOperatorOrderList[i]; }

template <int dim>
struct Case
{
    Spec spec;
    std::unique_ptr<Ref> ref;
    MeshP m;
    State st;
    bool curved = false, hasPyr = false, pyr14 = false;
    std::string what;
    Case(const DNDS::MPIInfo &mpi, const Opt &o, vt::Rng &r, const std::string &w) : what(w)
    {
        spec = make(o, r.next());
        curved = o.order == 2;
        for (auto &c : spec.cells)
            hasPyr = hasPyr || linOf(c.t) == E::Pyramid5;
        pyr14 = hasPyr && curved;
        ref = std::make_unique<Ref>(spec);
        PipeOpt po;
        po.part.metisSeed = int(r.in(0, 5));
        m = readMesh(mpi, spec, po, L().scratch + "/vr.cgns", r.next());
        m->BuildGhostPrimary();
        m->AdjGlobal2LocalPrimary();
        st = checkPrimary(*m, *ref, "mesh", false);
        m->InterpolateFace();
        m->AssertOnFaces();
    }
    std::shared_ptr<VR<dim>> vr(const DNDS::MPIInfo &mpi, const std::function<void(DNDS::CFV::VRSettings &)> &f, const std::function<real(G::t_index, int)> &w = nullptr, bool coeff = true)
    {
        auto v = std::make_shared<VR<dim>>(mpi, m);
        f(v->settings);
        if (m->isPeriodic)
        {
            auto *me = m.get();
            v->SetPeriodicTransformations(
                [me](Eigen::Ref<DNDS::MatrixXR> u, G::t_index id)
                {
                    Eigen::Matrix<real, dim, Eigen::Dynamic> t = u(Eigen::all, Eigen::seq(1, dim)).transpose();
                    u(Eigen::all, Eigen::seq(1, dim)) = me->periodicInfo.template TransVector<dim, Eigen::Dynamic>(t, id).transpose();
                },
                [me](Eigen::Ref<DNDS::MatrixXR> u, G::t_index id)
                {
                    Eigen::Matrix<real, dim, Eigen::Dynamic> t = u(Eigen::all, Eigen::seq(1, dim)).transpose();
                    u(Eigen::all, Eigen::seq(1, dim)) = me->periodicInfo.template TransVectorBack<dim, Eigen::Dynamic>(t, id).transpose();
                });
        }
        v->ConstructMetrics();
        if (w)
            v->ConstructBaseAndWeight(w);
        else
            v->ConstructBaseAndWeight();
        if (coeff)
            v->ConstructRecCoeff();
        return v;
    }
};

static Opt randomOpt(vt::Rng &r, int dim, bool periodicOK, bool curvedOK, int big = 0)
{
    Opt o;
    o.dim = dim;
    bool per = periodicOK && r.p(0.4);
    int lo = per ? 3 : 2;
    for (int d = 0; d < 3; d++)
        o.n[d] = int(r.in(lo, dim == 2 ? 5 + big : 3));
    if (per)
    {
        if (r.p(0.4))
            o.sector = true, o.n[1] = std::max(3, o.n[1]), o.per[2] = dim == 3 && r.p(0.3);
        else
        {
            o.per[r.in(0, dim - 1)] = true;
            if (dim == 3 && r.p(0.3))
                o.per[r.in(0, 1)] = true;
        }
        for (int d = 0; d < dim; d++)
            if (o.per[d])
                o.n[d] = std::max(o.n[d], 3);
        o.axis[0] = o.axis[1] = o.axis[2] = r.p(0.5);
    }
    else
    {
        if (r.p(0.3))
            o.pHole = 0.1;
        for (int d = 0; d < 3; d++)
            o.axis[d] = r.p(0.5);
    }
    o.pSplit = r.p(0.3) ? 0 : r.u();
    if (dim == 3)
    {
        int k = int(r.in(0, 3));
        if (k == 1)
            o.pBody = r.u(0.2, 1);
        if (k == 2)
            o.pPrism = r.u(0.2, 1);
    }
    o.pert = r.p(0.2) ? 0 : r.u(0.05, 0.2);
    if (curvedOK && r.p(0.35))
    {
        o.order = 2;
        o.curve = r.p(0.7) ? r.u(0.02, 0.06) : 0;
        o.pert = std::min(o.pert, 0.1);
        if (o.pBody > 0)
            o.pBody = 0;
    }
    return o;
}

template <int dim>
static void randomSettings(DNDS::CFV::VRSettings &s, vt::Rng &r, bool curved, bool gg, std::string &desc)
{
    using F = DNDS::CFV::VRSettings::FunctionalSettings;
    s.maxOrder = int(r.in(1, 3));
    s.intOrder = curved ? 5 : (r.p(0.4) ? 3 : 5);
    s.intOrderVR = r.p(0.5) ? -1 : int(r.in(1, 5));
    s.cacheDiffBase = r.p(0.5);
    s.cacheDiffBaseSize = r.p(0.5) ? uint8_t(dim + 1) : uint8_t(r.p(0.5) ? 255 : 1);
    s.jacobiRelax = r.p(0.5) ? 1.0 : r.u(0.3, 1.2);
    s.SORInstead = r.p(0.5);
    s.bcWeight = r.p(0.5) ? 1 : r.u(0.3, 2);
    s.baseSettings.localOrientation = r.p(0.4);
    s.baseSettings.anisotropicLengths = r.p(0.4);
    auto &f = s.functionalSettings;
    f.scaleType = r.p(0.5) ? F::MeanAACBB : F::BaryDiff;
    f.scaleMultiplier = r.p(0.5) ? 1 : r.u(0.5, 2);
    int k = int(r.in(0, 3));
    f.dirWeightScheme = k == 0 ? F::Factorial : k == 1 ? F::HQM_OPT
                                            : k == 2   ? F::ManualDirWeight
                                                       : F::TEST_OPT;
    f.geomWeightScheme = F::GeomWeightScheme(r.in(0, 2));
    f.geomWeightPower1 = r.u(-0.5, 0.5), f.geomWeightPower2 = r.u(-0.5, 0.5);
    f.geomWeightBias = r.p(0.5) ? 0 : 0.5;
    f.useAnisotropicFunctional = r.p(0.35);
    f.tanWeightScale = r.p(0.5) ? 1 : r.u(0.5, 1.5);
    f.anisotropicType = r.p(0.5) ? F::InertiaCoord : F::InertiaCoordBB;
    f.inertiaWeightPower = r.p(0.5) ? 1 : 0;
    if (gg)
    {
        f.greenGauss1Weight = r.u(0.1, 1);
        f.greenGauss1Bias = r.p(0.5) ? 0.5 : r.u(0.2, 0.8);
        f.greenGauss1Penalty = r.p(0.5) ? 0 : r.u(0, 0.2);
        f.greenGaussSpacial = int(r.in(0, 1));
    }
    desc = vt::str("O", s.maxOrder, " i", s.intOrder, "/", s.intOrderVR, " c", s.cacheDiffBase ? int(s.cacheDiffBaseSize) : 0, " rel", s.jacobiRelax, " sor", s.SORInstead, " lo", s.baseSettings.localOrientation, " al", s.baseSettings.anisotropicLengths,
                   " st", int(f.scaleType), " dw", int(f.dirWeightScheme), " gw", int(f.geomWeightScheme), " an", f.useAnisotropicFunctional, int(f.anisotropicType), " gg", gg, f.greenGaussSpacial);
}

template <int dim>
static Mat diffs(VR<dim> &v, idx iCell, const Pt &x, int flag = 0)
{
    int n = G::Base::GetNDof<dim>(v.settings.maxOrder);
    DNDS::MatrixXR d;
    d.resize(n, n);
    v.FDiffBaseValue(d, x, iCell, -1, -2, flag);
    return Mat(d);
}

// a point well inside or around the cell
template <int dim>
static Pt somePoint(VR<dim> &v, idx iCell, vt::Rng &r)
{
    Pt x = v.GetCellBary(iCell);
    double h = 0.5 * v.GetCellMaxLenScale(iCell);
    for (int d = 0; d < dim; d++)
        x[d] += r.u(-h, h);
    return x;
}

// exact coefficients and mean value of polynomial fields in the base of one cell
template <int dim>
static double exactRec(VR<dim> &v, idx iCell, const std::vector<Poly> &q, Mat &c, Eigen::VectorXd &u)
{
    Pt x0 = v.GetCellBary(iCell);
    Mat D = diffs<dim>(v, iCell, x0);
    int n = int(D.rows());
    Mat R(n, q.size());
    for (int i = 0; i < n; i++)
        for (size_t k = 0; k < q.size(); k++)
            R(i, k) = q[k].d(x0, dOp(dim, i)[0], dOp(dim, i)[1], dOp(dim, i)[2]);
    // base functions are scaled to the cell: equilibrate the rows by the derivative order
    Mat A = D.block(1, 1, n - 1, n - 1), B = R.bottomRows(n - 1);
    for (int i = 0; i < n - 1; i++)
    {
        double s = A.row(i).cwiseAbs().maxCoeff();
        if (s > 0)
            A.row(i) /= s, B.row(i) /= s;
    }
    auto lu = A.fullPivLu();
    c = lu.solve(B);
    u = (R.row(0) - D.row(0).tail(n - 1) * c).transpose();
    return lu.rcond();
}

// =============================================================== C17
template <int dim>
static void metricsCase(const DNDS::MPIInfo &mpi, vt::Rng &r, int id)
{
    Opt o = randomOpt(r, dim, true, true);
    std::string w0 = vt::str("metrics ", o.str(), " np", mpi.size, " #", id);
    L().begin(w0);
    Case<dim> C(mpi, o, r, w0);
    if (!C.st.ok)
        return;
    std::string desc;
    uint64_t ss = r.next();
    DNDS::CFV::VRSettings set0(dim);
    auto v = C.vr(
        mpi, [&](auto &s)
        { vt::Rng q(ss); randomSettings<dim>(s, q, C.curved, false, desc); s.nIterCellSmoothScale = int(q.in(0, 15)); set0 = s; },
        nullptr, false);
    auto w2 = C.vr(
        mpi, [&](auto &s)
        { s = set0; s.cacheDiffBase = !s.cacheDiffBase; },
        nullptr, false);
    auto &m = *C.m;
    auto &V = *v;
    idx nC = m.NumCell(), nA = m.NumCellProc();
    double scale = 0;
    for (idx i = 0; i < nA; i++)
        scale = std::max(scale, V.GetCellMaxLenScale(i));
    // ---- volumes and closure
    double vol = 0;
    for (idx i = 0; i < nA; i++)
    {
        double h = V.GetCellMaxLenScale(i), Vi = V.GetCellVol(i), hV = std::pow(h, dim), hA = std::pow(h, dim - 1);
        bool pyr = linOf(C.spec.cells[C.st.cell[i]].t) == E::Pyramid5;
        if (!C.curved)
        {
            double vr = mp::volume(C.spec, C.spec.cells[C.st.cell[i]]);
            VT_CHECK(std::abs(Vi - vr) <= 1e-11 * hV, "cell-volume", C.what, ": cell ", C.st.cell[i], " volume ", Vi, " expected ", vr);
        }
        VT_CHECK(Vi > 0, "cell-volume-positive", C.what, ": volume ", Vi);
        if (i < nC)
            vol += Vi;
        // quadrature weights and points
        auto q = V.GetCellQuad(i);
        double s = 0;
        Pt b{0, 0, 0};
        DNDS::Geom::Elem::SummationNoOp noOp;
        q.IntegrationSimple(s, [&](auto &inc, int iG)
                            { inc = V.GetCellJacobiDet(i, iG); });
        q.IntegrationSimple(b, [&](auto &inc, int iG)
                            { inc = V.GetCellQuadraturePPhys(i, iG) * V.GetCellJacobiDet(i, iG); });
        VT_CHECK(std::abs(s - Vi) <= 1e-12 * hV, "cell-jacobian", C.what, ": the quadrature weights of a cell sum to ", s, ", its volume is ", Vi);
        VT_CHECK((b / s - V.GetCellBary(i)).norm() <= 1e-11 * h, "cell-bary", C.what, ": barycentre off by ", (b / s - V.GetCellBary(i)).norm());
        if (i >= nC)
            continue;
        Pt cl{0, 0, 0}, mom{0, 0, 0};
        double xn = 0, aSum = 0;
        Pt x0 = V.GetCellBary(i);
        for (auto f : m.cell2face[i])
        {
            int side = V.CellIsFaceBack(i, f) ? 0 : 1;
            double sg = side ? -1 : 1;
            VT_CHECK(m.face2cell(f, side) == i, "face-side", C.what, ": face ", f, " does not list cell ", i, " on side ", side);
            auto qf = V.GetFaceQuad(f);
            double A = 0, xnf = 0;
            Pt nf{0, 0, 0}, mf{0, 0, 0};
            qf.IntegrationSimple(A, [&](auto &inc, int iG)
                                 { inc = V.GetFaceJacobiDet(f, iG); });
            qf.IntegrationSimple(nf, [&](auto &inc, int iG)
                                 {
                Pt n = V.GetFaceNormFromCell(f, i, side, iG);
                VT_CHECK(std::abs(n.norm() - 1) < 1e-12, "face-norm-unit", C.what, ": |n|=", n.norm());
                inc = n * V.GetFaceJacobiDet(f, iG); });
            qf.IntegrationSimple(xnf, [&](auto &inc, int iG)
                                 { inc = (V.GetFaceQuadraturePPhysFromCell(f, i, side, iG) - x0).dot(V.GetFaceNormFromCell(f, i, side, iG)) * V.GetFaceJacobiDet(f, iG); });
            qf.IntegrationSimple(mf, [&](auto &inc, int iG)
                                 { 
                Pt x = V.GetFaceQuadraturePPhysFromCell(f, i, side, iG) - x0, n = V.GetFaceNormFromCell(f, i, side, iG);
                inc = (x.array() * x.array() * n.array()).matrix() * V.GetFaceJacobiDet(f, iG); });
            VT_CHECK(std::abs(A - V.GetFaceArea(f)) <= 1e-12 * hA, "face-jacobian", C.what, ": the quadrature weights of a face sum to ", A, ", its area is ", V.GetFaceArea(f));
            Pt mn = V.GetFaceNormFromCell(f, i, side, -1) * V.GetFaceArea(f);
            VT_CHECK((mn - nf).norm() <= 1e-11 * hA, "face-mean-norm", C.what, ": mean normal off by ", (mn - nf).norm());
            VT_CHECK(sg * (V.GetFaceQuadraturePPhysFromCell(f, i, side, -1) - x0).dot(nf) > 0, "face-outward", C.what, ": the normal of face ", f, " does not point away from its first cell");
            cl += sg * nf, xn += sg * xnf, mom += sg * mf;
            aSum += A;
            L().count("faces-of-cells");
        }
        VT_CHECK(cl.norm() <= 1e-11 * aSum, "cell-closure", C.what, ": the sides of cell ", C.st.cell[i], " do not close: ", cl.norm() / aSum);
        if (!C.pyr14)
            VT_CHECK(std::abs(xn - dim * Vi) <= 1e-11 * hV, "cell-divergence", C.what, ": the sides of cell ", C.st.cell[i], " enclose ", xn / dim, ", its volume is ", Vi);
        if (!C.curved && !pyr && V.settings.intOrder >= 5)
            for (int d = 0; d < dim; d++)
                VT_CHECK(std::abs(mom[d]) <= 1e-11 * hV * h, "cell-bary-divergence", C.what, ": the barycentre of cell ", C.st.cell[i], " is off its sides' by ", mom[d] / Vi, " in direction ", d);
        double ss = V.GetCellSmoothScaleRatio(i);
        VT_CHECK(ss > 0 && ss <= 1 + 1e-12, "smooth-scale", C.what, ": smoothed length scale ratio ", ss);
    }
    // ---- second moments of the neighbours, as seen across the faces
    for (idx i = 0; i < nC; i++)
        for (idx f : m.cell2face[i])
        {
            idx j = V.CellFaceOther(i, f);
            if (j == DNDS::UnInitIndex || j == i)
                continue;
            Pt bo = V.GetOtherCellBaryFromCell(i, j, f);
            auto q = V.GetCellQuad(j);
            Eigen::Matrix3d I2 = Eigen::Matrix3d::Zero();
            G::Elem::SummationNoOp no;
            q.IntegrationSimple(no, [&](auto &, int iG, real w)
                                {
                Pt d = V.GetOtherCellPointFromCell(i, j, f, V.GetCellQuadraturePPhys(j, iG)) - bo;
                I2 += d * d.transpose() * (w * V.GetCellJacobiDet(j, iG)); });
            I2 /= V.GetCellVol(j);
            Eigen::Matrix3d got = V.GetOtherCellInertiaFromCell(i, j, f);
            double tol = V.settings.intOrder >= 5 && !C.curved && linOf(C.spec.cells[C.st.cell[j]].t) != E::Pyramid5 ? 1e-8 : 2e-2;
            if (V.settings.intOrder >= 3)
            {
                VT_CHECK((got - I2).norm() <= tol * I2.norm(), "cell-inertia", C.what, ": the second moments of cell ", C.st.cell[j], " about its barycentre, seen from ", C.st.cell[i], ", are off by ", (got - I2).norm() / I2.norm());
                L().count("inertias");
            }
        }
    double volAll = vt::sumAll(vol);
    VT_CHECK(vt::close(volAll, V.GetGlobalVol(), 1e-12), "global-volume", C.what, ": ", V.GetGlobalVol(), " is not the sum of the cells ", volAll);
    // ---- copies on several ranks agree
    {
        constexpr int W = 12;
        std::vector<double> own;
        auto rec = [&](idx i, double *t)
        {
            Pt b = V.GetCellBary(i), c = V.GetCellQuadraturePPhys(i, -1);
            double x[W] = {double(C.st.cell[i]), V.GetCellVol(i), b[0], b[1], b[2], c[0], c[1], c[2], V.GetCellSmoothScaleRatio(i), V.GetCellMaxLenScale(i), double(V.GetCellOrder(i)), V.GetCellAR(i)};
            std::copy(x, x + W, t);
        };
        for (idx i = 0; i < nC; i++)
        {
            double t[W];
            rec(i, t);
            own.insert(own.end(), t, t + W);
        }
        auto all = vt::allGather(own);
        std::map<int, const double *> by;
        for (size_t k = 0; k < all.size(); k += W)
            by[int(all[k])] = &all[k];
        for (idx i = nC; i < nA; i++)
        {
            double t[W];
            rec(i, t);
            auto *q = by.at(C.st.cell[i]);
            for (int k = 1; k < W; k++)
                VT_CHECK(std::abs(t[k] - q[k]) <= 1e-9 * (std::abs(q[k]) + (k < 8 ? scale : 0)), "ghost-metric", C.what, ": item ", k, " of ghost cell ", C.st.cell[i], " is ", t[k], ", at its owner ", q[k]);
            L().count("ghost-cells");
        }
        // per cell, over the whole mesh, to be compared between partitions
        std::vector<double> sig(4, 0);
        for (idx i = 0; i < nC; i++)
        {
            vt::Rng q(vt::mix(77, C.st.cell[i]));
            sig[0] += q.u(-1, 1) * V.GetCellVol(i), sig[1] += q.u(-1, 1) * V.GetCellSmoothScaleRatio(i), sig[2] += q.u(-1, 1) * V.GetCellMaxLenScale(i);
            for (auto f : m.cell2face[i])
                sig[3] += q.u(0, 1) * 0 + V.GetFaceArea(f);
        }
        std::string js = "[";
        for (size_t k = 0; k < sig.size(); k++)
            js += vt::str(k ? "," : "", vt::sumAll(sig[k]));
        if (mpi.rank == 0)
            L().res(vt::str("metrics#", id), js + "]");
    }
    {
        // faces: (cell, cell) -> area, centre and normal seen from the lower cell
        constexpr int W = 9;
        std::vector<double> own;
        std::set<std::pair<int, int>> mine;
        auto rec = [&](idx f, double *t) -> bool
        {
            idx a = m.face2cell(f, 0), b = m.face2cell(f, 1);
            if (b == DNDS::UnInitIndex)
                return false;
            int ca = C.st.cell[a], cb = C.st.cell[b];
            int side = ca < cb ? 0 : 1;
            idx me = side ? b : a;
            Pt n = V.GetFaceNormFromCell(f, me, side, -1) * (side ? -1 : 1), x = V.GetFaceQuadraturePPhysFromCell(f, me, side, -1);
            double y[W] = {double(std::min(ca, cb)), double(std::max(ca, cb)), V.GetFaceArea(f), n[0], n[1], n[2], x[0], x[1], x[2]};
            std::copy(y, y + W, t);
            return true;
        };
        std::map<std::pair<int, int>, int> mult;
        for (idx f = 0; f < m.NumFace(); f++)
        {
            double t[W];
            if (rec(f, t))
                own.insert(own.end(), t, t + W);
        }
        auto all = vt::allGather(own);
        std::map<std::pair<int, int>, const double *> by;
        for (size_t k = 0; k < all.size(); k += W)
            by[{int(all[k]), int(all[k + 1])}] = &all[k], mult[{int(all[k]), int(all[k + 1])}]++;
        for (idx f = m.NumFace(); f < m.NumFaceProc(); f++)
        {
            double t[W];
            if (!rec(f, t))
                continue;
            std::pair<int, int> key{int(t[0]), int(t[1])};
            if (key.first == key.second || !by.count(key) || mult[key] != 1)
                continue;
            auto *q = by.at(key);
            for (int k = 2; k < W; k++)
                VT_CHECK(std::abs(t[k] - q[k]) <= 1e-9 * (1 + scale), "ghost-face-metric", C.what, ": item ", k, " of face ", key.first, "|", key.second, " is ", t[k], ", at its owner ", q[k]);
            L().count("ghost-faces");
        }
    }
    // ---- base functions
    int n = G::Base::GetNDof<dim>(V.settings.maxOrder);
    for (idx i = 0; i < nA; i++)
    {
        vt::Rng q(vt::mix(ss, C.st.cell[i]));
        // zero mean
        DNDS::Geom::Elem::Quadrature qm{m.GetCellElement(i), DNDS::Geom::Elem::INT_ORDER_MAX};
        G::tSmallCoords cs;
        m.GetCoordsOnCell(i, cs);
        Mat mean = Mat::Zero(1, n), mag = Mat::Zero(1, n);
        double vv = 0;
        DNDS::Geom::Elem::SummationNoOp noOp;
        std::vector<Pt> pts;
        std::vector<double> wts;
        qm.Integration(vv, [&](auto &inc, int iG, const Pt &pp, const DNDS::Geom::Elem::tD01Nj &N)
                       {
            Pt x = DNDS::Geom::Elem::PPhysicsCoordD01Nj(cs, N);
            G::tJacobi J = DNDS::Geom::Elem::ShapeJacobianCoordD01Nj(cs, N);
            double j = dim == 2 ? J.col(0).cross(J.col(1)).norm() : J.determinant();
            inc = j;
            pts.push_back(x); wts.push_back(j * std::get<1>(qm.GetQuadraturePointInfo(iG))); });
        for (size_t k = 0; k < pts.size(); k++)
        {
            Mat D = diffs<dim>(V, i, pts[k]);
            mean += wts[k] * D.row(0), mag += std::abs(wts[k]) * D.row(0).cwiseAbs();
        }
        if (!C.pyr14)
            for (int j = 1; j < n; j++)
                VT_CHECK(std::abs(mean(0, j)) <= 1e-10 * (mag(0, j) + vv), "base-zero-mean", C.what, " ", desc, ": the mean of base function ", j, " of cell ", C.st.cell[i], " is ", mean(0, j) / vv);
        // derivatives: Taylor expansion between two points is exact
        Pt x = somePoint<dim>(V, i, q), y = somePoint<dim>(V, i, q), h = y - x;
        Mat Dx = diffs<dim>(V, i, x), Dy = diffs<dim>(V, i, y);
        for (int a = 0; a < n; a++)
        {
            Mat t = Mat::Zero(1, n), tm = Mat::Zero(1, n);
            for (int b = 0; b < n; b++)
            {
                int e[3];
                double f = 1;
                bool ok = true;
                for (int d = 0; d < 3; d++)
                {
                    e[d] = dOp(dim, b)[d] - dOp(dim, a)[d];
                    if (e[d] < 0)
                        ok = false;
                    for (int k = 1; k <= e[d]; k++)
                        f *= h[d] / k;
                }
                if (ok)
                    t += f * Dx.row(b), tm += std::abs(f) * Dx.row(b).cwiseAbs();
            }
            for (int j = 1; j < n; j++)
                VT_CHECK(std::abs(t(0, j) - Dy(a, j)) <= 1e-10 * (tm(0, j) + std::abs(Dy(a, j)) + 1e-8), "base-derivative", C.what, " ", desc, ": derivative ", a, " of base function ", j, " is ", Dy(a, j), " but its Taylor expansion gives ", t(0, j));
        }
        std::vector<Poly> none(1, Poly::konst(1));
        Mat c;
        Eigen::VectorXd u;
        double rc = exactRec<dim>(V, i, none, c, u);
        VT_CHECK(rc > 1e-9, "base-independent", C.what, " ", desc, ": the base of cell ", C.st.cell[i], " is degenerate, rcond ", rc);
        L().count("cell-bases");
    }
    // ---- values at quadrature points, cached or not
    for (idx i = 0; i < nC; i++)
    {
        auto cmp = [&](idx f, int side, int iG, const Pt &x)
        {
            Mat D = diffs<dim>(V, i, x).rightCols(n - 1);
            // the ways the solver asks for them: all rows, only values, values and gradients
            Mat a = V.GetIntPointDiffBaseValue(i, f, side, iG, Eigen::all);
            Mat b = V.GetIntPointDiffBaseValue(i, f, side, iG, std::array<int, 1>{0}, 1);
            Mat g = V.GetIntPointDiffBaseValue(i, f, side, iG, Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>), dim + 1);
            Mat a2 = w2->GetIntPointDiffBaseValue(i, f, side, iG, Eigen::all);
            double t = 1e-11;
            auto dif = [&](const Mat &A, const Mat &B)
            { return (A - B).cwiseAbs().maxCoeff() <= t * (1 + B.cwiseAbs().maxCoeff()); };
            bool shape = a.rows() == std::min(n, f >= 0 || true ? n : n) && a.cols() == n - 1;
            // "all" rows of a cache may hold fewer derivatives than the full set
            VT_CHECK(a.rows() >= 1 && a.cols() == n - 1 && dif(a, D.topRows(a.rows())), "point-values", C.what, " ", desc, ": face ", f, " point ", iG, ": base values differ from the base functions there");
            VT_CHECK(b.rows() == 1 && dif(b, D.topRows(1)), "point-values-0", C.what, " ", desc, ": face ", f, " point ", iG, ": base values differ from the base functions there");
            VT_CHECK(g.rows() == dim && dif(g, D.middleRows(1, dim)), "point-gradients", C.what, " ", desc, ": face ", f, " point ", iG, ": base gradients differ from the base functions there");
            VT_CHECK(a2.rows() >= 1 && dif(a2, D.topRows(a2.rows())), "point-values-cache", C.what, " ", desc, ": face ", f, " point ", iG, ": cached and computed base values differ");
            (void)shape;
            L().count("base-points");
        };
        auto q = V.GetCellQuad(i);
        for (int g = -1; g < q.GetNumPoints(); g++)
            cmp(-1, -1, g, V.GetCellQuadraturePPhys(i, g));
        for (auto f : m.cell2face[i])
        {
            int side = V.CellIsFaceBack(i, f) ? 0 : 1;
            auto qf = V.GetFaceQuad(f);
            for (int g = -1; g < qf.GetNumPoints(); g++)
                cmp(f, L().counts["x"]++ % 2 ? -1 : side, g, V.GetFaceQuadraturePPhysFromCell(f, i, side, g));
        }
    }
    L().endCase(vt::str(o.str(), " np", mpi.size, " ", desc), nA > 1);
}

// =============================================================== C18
template <int dim>
struct BCMon // watches what the boundary callback is given
{
    Case<dim> &C;
    VR<dim> &V;
    UDof<dim> &u;
    std::string d;
    void operator()(const Vec<dim> &uBL, const Vec<dim> &uMean, idx iCell, idx iFace, int iG, const Pt &n, const Pt &x, G::t_index id) const
    {
        auto &m = *C.m;
        L().count("boundary-calls");
        VT_CHECK(iCell >= 0 && iCell < m.NumCell() && m.face2cell(iFace, 0) == iCell && m.face2cell(iFace, 1) == DNDS::UnInitIndex, "bc-args-cell", C.what, " ", d, ": boundary value asked for face ", iFace, " of cell ", iCell);
        VT_CHECK(m.GetFaceZone(iFace) == id && G::FaceIDIsExternalBC(id), "bc-args-zone", C.what, " ", d, ": boundary value asked with zone ", id);
        VT_CHECK(iG >= -2, "bc-args-point", "iG ", iG);
        double tol = C.curved ? 0.5 : 1e-9;
        bool mean = iG == -1;
        VT_CHECK(mean || std::abs(n.norm() - 1) <= 1e-9, "bc-args-norm-unit", C.what, " ", d, ": the boundary callback was given a normal of length ", n.norm(), " (point ", iG, ")");
        Pt nm = V.GetFaceNorm(iFace, -1).normalized();
        if (dim == 2 || !C.curved)
        {
            bool planar = dim == 2 || V.GetFaceNorm(iFace, -1).norm() > 1 - 1e-12;
            if (planar)
                VT_CHECK(n.normalized().dot(nm) >= 1 - tol, "bc-args-norm", C.what, " ", d, ": the boundary callback was given a normal off the face normal, cos ", n.normalized().dot(nm));
        }
        Pt t = x - V.GetFaceQuadraturePPhys(iFace, -1);
        double h = V.GetCellMaxLenScale(iCell);
        VT_CHECK(t.norm() <= 1.01 * h && std::abs(t.dot(nm)) <= (C.curved || dim == 3 ? 0.5 : 1e-9) * h, "bc-args-point-on-face", C.what, " ", d, ": the boundary callback was given a point off the face");
        if (iG >= -1)
        {
            VT_CHECK((x - V.GetFaceQuadraturePPhysFromCell(iFace, iCell, -1, iG)).norm() <= 1e-9 * h, "bc-args-point-own", C.what, " ", d, ": asked at point ", iG, " but given the position of another, off by ", (x - V.GetFaceQuadraturePPhysFromCell(iFace, iCell, -1, iG)).norm() / h);
            VT_CHECK((n - V.GetFaceNorm(iFace, iG)).norm() <= 1e-9, "bc-args-norm-own", C.what, " ", d, ": asked at point ", iG, " but given the normal of another");
        }
        VT_CHECK((uMean - u[iCell]).norm() <= 1e-12 * (1 + uMean.norm()), "bc-args-mean", C.what, " ", d, ": the mean value given is not the cell's");
    }
};

template <int dim>
static void pull(URec<dim> &a)
{
    a.trans.startPersistentPull();
    a.trans.waitPersistentPull();
}
template <int dim>
static void pull(UDof<dim> &a)
{
    a.trans.startPersistentPull();
    a.trans.waitPersistentPull();
}
template <class TP>
static void copyAll(TP &to, TP &from)
{
    for (idx i = 0; i < from.Size(); i++)
        to[i] = from[i];
}

template <int dim>
static void recCase(const DNDS::MPIInfo &mpi, vt::Rng &r, int id)
{
    constexpr int nv = NV<dim>;
    Opt o = randomOpt(r, dim, true, true);
    std::string desc, w0 = vt::str("rec ", o.str(), " np", mpi.size, " #", id);
    L().begin(w0);
    Case<dim> C(mpi, o, r, w0);
    if (!C.st.ok)
        return;
    // the Green-Gauss functional relies on the exactness of the quadrature: straight simplices
    bool simplex = dim == 2 && !C.curved && o.order == 1;
    bool gg = simplex && r.p(0.25) && !C.m->isPeriodic;
    bool higherBC = r.p(0.25);
    uint64_t ss = r.next();
    auto v = C.vr(
        mpi, [&](auto &s)
        { vt::Rng q(ss); randomSettings<dim>(s, q, C.curved, gg, desc); if (gg) s.intOrder = 5; },
        [higherBC](G::t_index idf, int ord) -> real
        {
            if (G::FaceIDIsPeriodic(idf))
                return 1;
            return ord == 0 ? 1. : (higherBC ? 0.3 : 0.);
        });
    auto &V = *v;
    auto &m = *C.m;
    idx nC = m.NumCell(), nA = m.NumCellProc();
    int deg = V.settings.maxOrder;
    auto q = fields(C.spec, nv, deg, r);
    UDof<dim> u;
    URec<dim> c, x, y, z, inc;
    V.BuildUDof(u, nv);
    for (auto *p : {&c, &x, &y, &z, &inc})
        V.BuildURec(*p, nv);
    Eigen::VectorXd sc = Eigen::VectorXd::Constant(nv, 1e-12);
    for (idx i = 0; i < nC; i++)
    {
        Mat ci;
        Eigen::VectorXd ui;
        exactRec<dim>(V, i, q, ci, ui);
        c[i] = ci, u[i] = ui;
        for (int k = 0; k < nv; k++)
            sc[k] = std::max({sc[k], ci.col(k).cwiseAbs().maxCoeff(), std::abs(ui[k])});
        // u is the mean of the polynomial over the cell
        if (!C.pyr14)
        {
            DNDS::Geom::Elem::Quadrature qm{m.GetCellElement(i), DNDS::Geom::Elem::INT_ORDER_MAX};
            G::tSmallCoords cs;
            m.GetCoordsOnCell(i, cs);
            double vv = 0;
            Eigen::VectorXd mean = Eigen::VectorXd::Zero(nv);
            qm.Integration(vv, [&](auto &ic, int iG, const Pt &pp, const DNDS::Geom::Elem::tD01Nj &N)
                           {
                Pt xx = DNDS::Geom::Elem::PPhysicsCoordD01Nj(cs, N);
                G::tJacobi J = DNDS::Geom::Elem::ShapeJacobianCoordD01Nj(cs, N);
                double j = dim == 2 ? J.col(0).cross(J.col(1)).norm() : J.determinant();
                ic = j;
                double wt = j * std::get<1>(qm.GetQuadraturePointInfo(iG));
                for (int k = 0; k < nv; k++) mean[k] += wt * q[k](xx); });
            VT_CHECK((mean / vv - ui).cwiseAbs().maxCoeff() <= 1e-9 * (1 + ui.cwiseAbs().maxCoeff()), "mean-value", C.what, " ", desc, ": the reconstruction of a polynomial has mean ", ui.transpose(), " the polynomial ", (mean / vv).transpose());
        }
    }
    for (int k = 0; k < nv; k++)
        sc[k] = vt::maxAll(sc[k]);
    double S = sc.maxCoeff();
    pull<dim>(c);
    pull<dim>(u);
    double beta = r.p(0.4) ? 0 : r.u(-0.5, 0.9); // share of the inner value in the boundary value
    BCMon<dim> mon{C, V, u, desc};
    bool hasBC = false;
    typename VR<dim>::template TFBoundary<nv> FB = [&](const Vec<dim> &uBL, const Vec<dim> &uM, idx ic, idx jf, int iG, const Pt &n, const Pt &xx, G::t_index idf) -> Vec<dim>
    {
        mon(uBL, uM, ic, jf, iG, n, xx, idf);
        hasBC = true;
        Vec<dim> b;
        for (int k = 0; k < nv; k++)
            b[k] = q[k](xx);
        return beta * uBL + (1 - beta) * b;
    };
    typename VR<dim>::template TFBoundaryDiff<nv> FD = [&](const Vec<dim> &uBL, const Vec<dim> &dU, const Vec<dim> &uM, idx ic, idx jf, int iG, const Pt &n, const Pt &xx, G::t_index idf) -> Vec<dim>
    {
        mon(uBL, uM, ic, jf, iG, n, xx, idf);
        return beta * dU;
    };
    auto rnd = [&](URec<dim> &a, uint64_t seed, double f)
    {
        for (idx i = 0; i < nC; i++)
        {
            vt::Rng g(vt::mix(seed, C.st.cell[i]));
            for (int j = 0; j < a[i].rows(); j++)
                for (int k = 0; k < nv; k++)
                    a[i](j, k) = f * g.u(-1, 1);
        }
        pull<dim>(a);
    };
    auto dist = [&](URec<dim> &a, URec<dim> &b)
    {
        double d = 0;
        for (idx i = 0; i < nC; i++)
            d = std::max(d, (a[i] - b[i]).cwiseAbs().maxCoeff());
        return vt::maxAll(d);
    };
    auto norm = [&](URec<dim> &a)
    {
        double d = 0;
        for (idx i = 0; i < nC; i++)
            d = std::max(d, a[i].cwiseAbs().maxCoeff());
        return vt::maxAll(d);
    };
    bool exact = !higherBC || !vt::anyRank([&]
                                           { for (idx f=0; f<m.NumFace(); f++) if (m.face2cell(f,1)==DNDS::UnInitIndex) return true; return false; }());
    double tol = 2e-8;
    if (exact)
    {
        V.template DoReconstructionIter<nv>(c, y, u, FB, true, true);
        VT_CHECK(norm(y) <= tol * S, "poly-residual", C.what, " ", desc, " b", beta, ": the residual of the exact polynomial is ", norm(y), " of ", S);
        for (int sor = 0; sor < 2; sor++)
            for (int into = 0; into < 2; into++)
            {
                V.settings.SORInstead = sor;
                copyAll(x, c);
                rnd(y, ss + 3, S); // scratch content must not matter
                V.template DoReconstructionIter<nv>(x, y, u, FB, into, false);
                auto &out = into ? y : x;
                VT_CHECK(dist(out, c) <= tol * S, sor ? "poly-kept-sor" : "poly-kept-jacobi", C.what, " ", desc, " b", beta, " into", into, ": one iteration moves the exact polynomial by ", dist(out, c), " of ", S);
            }
        L().count("poly-cases");
    }
    // ---- on arbitrary data
    UDof<dim> uSave;
    V.BuildUDof(uSave, nv);
    copyAll(uSave, u);
    for (idx i = 0; i < nC; i++)
    {
        vt::Rng g(vt::mix(ss + 11, C.st.cell[i]));
        for (int k = 0; k < nv; k++)
            u[i](k) += S * g.u(-1, 1);
    }
    pull<dim>(u);
    rnd(x, ss + 1, S);
    rnd(z, ss + 2, S);
    URec<dim> r0, r1;
    V.BuildURec(r0, nv), V.BuildURec(r1, nv);
    V.template DoReconstructionIter<nv>(x, r0, u, FB, true, true); // residual at x
    for (idx i = 0; i < nA; i++)
        y[i] = x[i] + z[i];
    V.template DoReconstructionIter<nv>(y, r1, u, FB, true, true); // residual at x + z
    V.template DoReconstructionIterDiff<nv>(x, z, inc, u, FD);
    for (idx i = 0; i < nC; i++)
        r1[i] -= r0[i];
    double sD = std::max(1e-30, std::max(norm(r1), norm(inc)));
    VT_CHECK(dist(r1, inc) <= 1e-8 * std::max(sD, S), "diff", C.what, " ", desc, " b", beta, ": the linearisation differs from the difference of two residuals by ", dist(r1, inc), " of ", sD);
    // a zero start asked for as such
    // one relaxed step in both schedules against the residual
    for (int sor = 0; sor < 2; sor++)
    {
        V.settings.SORInstead = sor;
        copyAll(y, x);
        rnd(r1, ss + 4, S);
        V.template DoReconstructionIter<nv>(y, r1, u, FB, true, false);
        if (!sor)
        {
            double d = 0;
            for (idx i = 0; i < nC; i++)
                d = std::max(d, (r1[i] - (x[i] - V.settings.jacobiRelax * r0[i])).cwiseAbs().maxCoeff());
            d = vt::maxAll(d);
            VT_CHECK(d <= 1e-8 * (S + sD), "jacobi-step", C.what, " ", desc, " b", beta, ": a Jacobi step is not x - relax*residual, off by ", d);
        }
        else
        {
            // sequential sweep: each cell relaxed with the residual at the values then current
            double d = 0;
            copyAll(y, x);
            copyAll(z, x);
            URec<dim> t;
            V.BuildURec(t, nv);
            for (idx i = 0; i < std::min<idx>(nC, 12); i++)
            {
                V.template DoReconstructionIter<nv>(z, t, u, FB, true, true);
                z[i] -= V.settings.jacobiRelax * t[i];
                d = std::max(d, (r1[i] - z[i]).cwiseAbs().maxCoeff());
            }
            VT_CHECK(d <= 1e-8 * (S + sD), "sor-step", C.what, " ", desc, " b", beta, ": a Gauss-Seidel sweep does not relax each cell with its current residual, off by ", d);
        }
    }
    // ---- the sweep for the linearised system
    rnd(z, ss + 5, S);
    V.template DoReconstructionIterDiff<nv>(x, z, inc, u, FD);
    for (int rev = 0; rev < 2; rev++)
    {
        copyAll(y, z);
        V.template DoReconstructionIterSOR<nv>(x, inc, y, u, FD, rev);
        VT_CHECK(dist(y, z) <= 1e-8 * (S + norm(inc)), "linear-sor-fixed-point", C.what, " ", desc, " b", beta, " rev", rev, ": the sweep moves the solution of the linearised system by ", dist(y, z), " of ", S);
    }
    // ---- symmetry of the unpreconditioned operator, and its energy
    if (!gg)
    {
        auto op = [&](URec<dim> &a, URec<dim> &out)
        {
            URec<dim> t;
            V.BuildURec(t, nv);
            V.template DoReconstructionIterDiff<nv>(x, a, t, u, FD);
            pull<dim>(t);
            V.template MatrixAMult<nv>(t, out);
        };
        auto dot = [&](URec<dim> &a, URec<dim> &b)
        {
            double s = 0;
            for (idx i = 0; i < nC; i++)
                s += (a[i].array() * b[i].array()).sum();
            return vt::sumAll(s);
        };
        rnd(y, ss + 6, 1);
        rnd(z, ss + 7, 1);
        op(y, r0);
        op(z, r1);
        double a = dot(z, r0), b = dot(y, r1), e = dot(y, r0), mg = std::sqrt(std::abs(dot(r0, r0) * dot(z, z))) + std::sqrt(std::abs(dot(r1, r1) * dot(y, y)));
        VT_CHECK(std::abs(a - b) <= 1e-9 * mg, "symmetry", C.what, " ", desc, " b", beta, ": the operator is not symmetric: ", a, " vs ", b, " of ", mg);
        if (beta <= 0.9)
            VT_CHECK(e >= -1e-9 * mg, "energy", C.what, " ", desc, " b", beta, ": the functional is negative: ", e, " of ", mg);
        L().count("symmetry-cases");
    }
    L().endCase(vt::str(o.str(), " np", mpi.size, " ", desc, " b", beta != 0, " h", higherBC), hasBC || nA > nC);
}

// second-order reconstructions
template <int dim>
static void rec2Case(const DNDS::MPIInfo &mpi, vt::Rng &r, int id)
{
    constexpr int nv = NV<dim>;
    int method = r.p(0.35) ? 2 : r.p(0.5) ? 1
                                          : 11;
    Opt o = randomOpt(r, dim, method != 2, false);
    bool regular = false;
    if (method == 1)
    { // the plain Gauss rule is only consistent on regular grids
        regular = r.p(0.7);
        if (regular)
            o.pert = 0, o.pSplit = 0, o.pBody = 0, o.pPrism = 0, o.axis[0] = o.axis[1] = o.axis[2] = true, o.sector = false, o.stretch = r.p(0.5) ? r.u(-0.7, 0.7) : 0.;
    }
    if (method == 11 && dim == 3)
        o.pert = 0, o.pBody = 0, o.sector = false, o.axis[0] = o.axis[1] = o.axis[2] = r.p(0.5);
    std::string w0 = vt::str("rec2 m", method, " ", o.str(), " np", mpi.size, " #", id);
    L().begin(w0);
    Case<dim> C(mpi, o, r, w0);
    if (!C.st.ok)
        return;
    std::string desc;
    uint64_t ss = r.next();
    auto v = C.vr(mpi, [&](auto &s)
                  { vt::Rng g(ss); randomSettings<dim>(s, g, false, false, desc); s.subs2ndOrder = method; s.subs2ndOrderGGScheme = o.stretch != 0 ? 1 : int(g.in(0, 1)); });
    auto &V = *v;
    auto &m = *C.m;
    idx nC = m.NumCell();
    bool constOnly = method == 1 && !regular;
    auto q = constOnly && !o.sector ? fields(C.spec, nv, 1, r) : fields(C.spec, nv, 1, r);
    if (constOnly)
        for (auto &p : q)
        {
            double k = p.c[{0, 0, 0}];
            p = Poly::konst(k);
        }
    if (constOnly && o.sector)
        q[1] = q[2] = Poly::konst(0); // a constant in-plane vector is not equivariant
    UDof<dim> u;
    V.BuildUDof(u, nv);
    double S = 1e-12;
    for (idx i = 0; i < nC; i++)
        for (int k = 0; k < nv; k++)
            u[i](k) = q[k](V.GetCellBary(i)), S = std::max(S, std::abs(u[i](k)));
    S = vt::maxAll(S) + 10;
    pull<dim>(u);
    BCMon<dim> mon{C, V, u, desc};
    typename VR<dim>::template TFBoundary<nv> FB = [&](const Vec<dim> &uBL, const Vec<dim> &uM, idx ic, idx jf, int iG, const Pt &n, const Pt &xx, G::t_index idf) -> Vec<dim>
    {
        mon(uBL, uM, ic, jf, iG, n, xx, idf);
        // the value beyond the wall: 11 at the point mirrored in the face centre, 1 and 2 along the normal
        Pt b = V.GetCellBary(ic), mir = 2 * xx - b;
        if (method != 11)
            mir = b + 2 * (xx - b).dot(n) * n;
        Vec<dim> o;
        for (int k = 0; k < nv; k++)
            o[k] = q[k](mir);
        return o;
    };
    DNDS::CFV::tUGrad<nv, dim> gr;
    V.BuildUGrad(gr, nv);
    V.template DoReconstruction2ndGrad<nv>(gr, u, FB, method);
    URec<dim> a, b;
    V.BuildURec(a, nv), V.BuildURec(b, nv);
    V.template DoReconstruction2nd<nv>(a, u, FB, method, std::vector<int>());
    for (idx i = 0; i < nC; i++)
        b[i].setConstant(7.);
    std::vector<int> mask;
    for (int k = 0; k < nv; k++)
        if (r.p(0.5))
            mask.push_back(k);
    if (mask.empty())
        mask.push_back(int(r.in(0, nv - 1)));
    V.template DoReconstruction2nd<nv>(b, u, FB, method, mask);
    for (idx i = 0; i < nC; i++)
    {
        double h = V.GetCellMaxLenScale(i);
        Pt x0 = V.GetCellBary(i);
        Mat D = diffs<dim>(V, i, V.GetCellQuadraturePPhys(i, -1));
        int n = int(D.rows());
        for (int k = 0; k < nv; k++)
        {
            double e = 0, scl = S / h;
            for (int d = 0; d < dim; d++)
                e = std::max(e, std::abs(gr[i](d, k) - q[k].d(x0, d == 0, d == 1, d == 2)));
            VT_CHECK(e <= 1e-9 * scl, constOnly ? "grad-constant" : "grad-linear", C.what, " s", V.settings.subs2ndOrderGGScheme, ": the gradient of a linear field is off by ", e, " (variable ", k, ")");
            // the coefficients represent that gradient (and nothing else) at the cell centre
            Eigen::VectorXd g = D.block(1, 1, dim, n - 1) * a[i].col(k);
            for (int d = 0; d < dim; d++)
                VT_CHECK(std::abs(g[d] - gr[i](d, k)) <= 1e-9 * scl, "grad-coefficients", C.what, " ", desc, ": the coefficients do not have the gradient computed");
            bool hi = true;
            for (int j = dim; j < a[i].rows(); j++)
                hi = hi && a[i](j, k) == 0;
            VT_CHECK(hi, "grad-higher", C.what, " ", desc, ": higher coefficients left in a linear reconstruction");
            bool in = std::count(mask.begin(), mask.end(), k) > 0;
            double dm = in ? (b[i].col(k) - a[i].col(k)).cwiseAbs().maxCoeff() : (b[i].col(k).array() - 7.).abs().maxCoeff();
            VT_CHECK(dm <= 1e-9 * (S + 1), "grad-mask", C.what, " ", desc, ": variable ", k, in ? " not updated" : " changed", " under a mask");
            L().count("gradients");
        }
    }
    if (V.settings.maxOrder == 1)
    { // the substitute takes the place of the iteration
        for (int into = 0; into < 2; into++)
        {
            for (idx i = 0; i < nC; i++)
                b[i].setConstant(3.);
            URec<dim> t;
            V.BuildURec(t, nv);
            V.template DoReconstructionIter<nv>(b, t, u, FB, into, false);
            for (idx i = 0; i < nC; i++)
                VT_CHECK(((into ? t[i] : b[i]) - a[i]).cwiseAbs().maxCoeff() <= 1e-12 * (1 + S), "substitute", C.what, ": the iteration does not return the second-order substitute");
        }
        L().count("substitutes");
    }
    L().endCase(vt::str(o.str(), " np", mpi.size, " m", method, " r", regular, " ", desc));
}

// Jacobi iterates, indicators and limited polynomials of the same case on any number of ranks
template <int dim>
static void projCase(const DNDS::MPIInfo &mpi, vt::Rng &r, int id)
{
    constexpr int nv = NV<dim>;
    Opt o = randomOpt(r, dim, true, true, 2);
    bool limit = !o.sector;
    std::string w0 = vt::str("proj ", o.str(), " np", mpi.size, " #", id), desc;
    L().begin(w0);
    Case<dim> C(mpi, o, r, w0);
    if (!C.st.ok)
        return;
    bool gg = r.p(0.3);
    uint64_t ss = r.next();
    auto v = C.vr(mpi, [&](auto &s)
                  { vt::Rng g(ss); randomSettings<dim>(s, g, C.curved, gg, desc); s.SORInstead = false; s.limiterBiwayAlter = int(g.in(0, 2)); if (s.limiterBiwayAlter == 1) s.limiterBiwayAlter = 4; s.smoothThreshold = 0; });
    auto &V = *v;
    idx nC = C.m->NumCell();
    UDof<dim> u;
    URec<dim> x, y, b;
    V.BuildUDof(u, nv), V.BuildURec(x, nv), V.BuildURec(y, nv), V.BuildURec(b, nv);
    for (idx i = 0; i < nC; i++)
    {
        vt::Rng g(vt::mix(ss, C.st.cell[i]));
        for (int k = 0; k < nv; k++)
            u[i](k) = g.u(1, 2);
    }
    pull<dim>(u);
    typename VR<dim>::template TFBoundary<nv> FB = [&](const Vec<dim> &uBL, const Vec<dim> &uM, idx ic, idx jf, int iG, const Pt &n, const Pt &xx, G::t_index idf) -> Vec<dim>
    {
        Vec<dim> o = 0.5 * uBL + 0.3 * uM;
        for (int k = 0; k < nv; k++)
            o[k] += 0.1 * std::sin(xx[0] + k) + 0.05 * n[k % dim] + 0.01 * idf;
        return o;
    };
    std::vector<double> sig;
    auto emit = [&](URec<dim> &a)
    {
        // sampled as a field, at points fixed in the cell's geometry
        double s[3] = {0, 0, 0};
        for (idx i = 0; i < nC; i++)
        {
            vt::Rng g(vt::mix(ss + 1, C.st.cell[i]));
            double h = V.GetCellMaxLenScale(i);
            Pt p = V.GetCellBary(i);
            for (int d = 0; d < dim; d++)
                p[d] += g.u(-0.3, 0.3) * h;
            Mat D = diffs<dim>(V, i, p);
            Mat val = D.row(0).tail(D.cols() - 1) * a[i];
            Mat gd = D.block(1, 1, dim, D.cols() - 1) * a[i] * h;
            for (int k = 0; k < nv; k++)
            {
                s[0] += g.u(-1, 1) * val(0, k), s[1] += std::abs(val(0, k));
                for (int d = 0; d < dim; d++)
                    s[2] += g.u(-1, 1) * gd(d, k);
            }
        }
        for (double t : s)
            sig.push_back(vt::sumAll(t));
    };
    for (int it = 0; it < 4; it++)
    {
        V.template DoReconstructionIter<nv>(x, y, u, FB, false, false);
        pull<dim>(x);
        emit(x);
    }
    if (limit)
    {
        DNDS::CFV::tScalarPair si;
        V.BuildScalar(si);
        auto emitS = [&]()
        {
            double s = 0, t = 0;
            for (idx i = 0; i < nC; i++)
            {
                vt::Rng g(vt::mix(ss + 2, C.st.cell[i]));
                s += g.u(-1, 1) * si(i, 0), t += std::abs(si(i, 0));
            }
            sig.push_back(vt::sumAll(s)), sig.push_back(vt::sumAll(t));
        };
        V.template DoCalculateSmoothIndicator<nv, 2>(si, x, u, std::array<int, 2>{0, nv - 1});
        emitS();
        V.template DoCalculateSmoothIndicatorV1<nv>(si, x, u, Vec<dim>::Ones(), [](Eigen::Matrix<real, 1, nv> &) {});
        emitS();
        typename VR<dim>::template tFMEig<nv> FM = [](const Vec<dim> &uL, const Vec<dim> &uR, const Pt &n, const Eigen::Ref<typename VR<dim>::template tLimitBatch<nv>> &d) ->
            typename VR<dim>::template tLimitBatch<nv>
        { return d; };
        V.template DoLimiterWBAP_C<nv>(u, x, y, b, si, true, FM, FM, true);
        emit(y);
        V.template DoLimiterWBAP_3<nv>(u, x, y, b, si, true, FM, FM, true);
        emit(y);
    }
    std::string js = "[";
    for (size_t k = 0; k < sig.size(); k++)
        js += vt::str(k ? "," : "", sig[k]);
    if (mpi.rank == 0)
        L().res(vt::str("proj#", id), js + "]");
    L().count("projections", sig.size());
    L().endCase(vt::str(o.str(), " np", mpi.size, " ", desc, " l", limit));
}

// =============================================================== C19
template <int dim>
static void limCase(const DNDS::MPIInfo &mpi, vt::Rng &r, int id)
{
    constexpr int nv = NV<dim>;
    Opt o = randomOpt(r, dim, true, true);
    if (o.sector) // limiting across rotated periodic sides is not supported
        o.sector = false, o.per[0] = true, o.per[1] = false;
    std::string w0 = vt::str("lim ", o.str(), " np", mpi.size, " #", id), desc;
    L().begin(w0);
    Case<dim> C(mpi, o, r, w0);
    if (!C.st.ok)
        return;
    uint64_t ss = r.next();
    auto v = C.vr(mpi, [&](auto &s)
                  { vt::Rng g(ss); randomSettings<dim>(s, g, C.curved, false, desc); s.limiterBiwayAlter = int(g.in(0, 4)); s.normWBAP = dim == 2 && g.p(0.3); s.WBAP_nStd = g.p(0.5) ? 10 : g.u(1, 20); s.smoothThreshold = g.u(0.001, 0.1); });
    auto &V = *v;
    auto &m = *C.m;
    desc += vt::str(" alt", V.settings.limiterBiwayAlter, " nW", V.settings.normWBAP);
    idx nC = m.NumCell(), nA = m.NumCellProc();
    int deg = int(r.in(1, V.settings.maxOrder));
    auto q = fields(C.spec, nv, deg, r);
    UDof<dim> u;
    URec<dim> c, x, y, b;
    V.BuildUDof(u, nv);
    for (auto *p : {&c, &x, &y, &b})
        V.BuildURec(*p, nv);
    double S = 1e-12;
    for (idx i = 0; i < nC; i++)
    {
        Mat ci;
        Eigen::VectorXd ui;
        exactRec<dim>(V, i, q, ci, ui);
        c[i] = ci, u[i] = ui;
        S = std::max({S, ci.cwiseAbs().maxCoeff(), ui.cwiseAbs().maxCoeff()});
    }
    S = vt::maxAll(S);
    pull<dim>(c);
    pull<dim>(u);
    DNDS::CFV::tScalarPair si;
    V.BuildScalar(si);
    auto pullS = [&]()
    { si.trans.startPersistentPull(); si.trans.waitPersistentPull(); };
    // ---- indicator: zero on exact data (interior faces only carry jumps), invariant under scaling
    V.template DoCalculateSmoothIndicator<nv, 2>(si, c, u, std::array<int, 2>{0, nv - 1});
    for (idx i = 0; i < nC; i++)
        VT_CHECK(si(i, 0) >= 0 && si(i, 0) <= 1e-5, "indicator-exact", C.what, " ", desc, ": the indicator of exact polynomial data is ", si(i, 0));
    V.template DoCalculateSmoothIndicatorV1<nv>(si, c, u, Vec<dim>::Ones(), [](Eigen::Matrix<real, 1, nv> &) {});
    for (idx i = 0; i < nC; i++)
        VT_CHECK(si(i, 0) >= 0 && si(i, 0) <= 1e-5, "indicator1-exact", C.what, " ", desc, ": the indicator of exact polynomial data is ", si(i, 0));
    { // the second indicator sees only the variables it is told to, through the conversion it is given
        URec<dim> z;
        V.BuildURec(z, nv);
        int keep = int(r.in(0, nv - 1));
        for (idx i = 0; i < nC; i++)
        {
            z[i] = c[i];
            for (int k = 0; k < nv; k++)
                if (k != keep)
                    for (int j = 0; j < z[i].rows(); j++)
                        z[i](j, k) += 5 * (S + 1) * std::sin(1. + i * 7 + 3 * j + k);
        }
        pull<dim>(z);
        Vec<dim> see = Vec<dim>::Zero();
        see[keep] = 1;
        V.template DoCalculateSmoothIndicatorV1<nv>(si, z, u, see, [](Eigen::Matrix<real, 1, nv> &) {});
        for (idx i = 0; i < nC; i++)
            VT_CHECK(si(i, 0) >= 0 && si(i, 0) <= 1e-5, "indicator1-mask", C.what, " ", desc, ": the indicator of an exact variable is ", si(i, 0), " when only others jump");
        int from = (keep + 1) % nv;
        see.setZero(), see[from] = 1;
        V.template DoCalculateSmoothIndicatorV1<nv>(si, z, u, see, [&](Eigen::Matrix<real, 1, nv> &p)
                                                    { p[from] = p[keep]; });
        for (idx i = 0; i < nC; i++)
            VT_CHECK(si(i, 0) >= 0 && si(i, 0) <= 1e-5, "indicator1-post", C.what, " ", desc, ": the conversion is not applied to both sides: ", si(i, 0));
        DNDS::CFV::tScalarPair s2;
        V.BuildScalar(s2);
        V.template DoCalculateSmoothIndicatorV1<nv>(si, z, u, Vec<dim>::Ones(), [](Eigen::Matrix<real, 1, nv> &) {});
        Eigen::VectorXd mx = Eigen::VectorXd::Zero(nC);
        for (int k = 0; k < nv; k++)
        {
            see.setZero(), see[k] = 1;
            V.template DoCalculateSmoothIndicatorV1<nv>(s2, z, u, see, [](Eigen::Matrix<real, 1, nv> &) {});
            for (idx i = 0; i < nC; i++)
                mx[i] = std::max(mx[i], s2(i, 0));
        }
        for (idx i = 0; i < nC; i++)
            VT_CHECK(vt::close(mx[i], si(i, 0), 1e-9), "indicator1-max", C.what, " ", desc, ": the indicator of all variables is ", si(i, 0), ", the largest of them is ", mx[i]);
        L().count("indicators");
    }
    // ---- limiting exact polynomials, with any change of variables on the faces
    Mat M = Mat::Identity(nv, nv);
    bool eig = r.p(0.6);
    if (eig)
        for (int i = 0; i < nv; i++)
            for (int j = 0; j < nv; j++)
                M(i, j) += r.u(-0.4, 0.4);
    long calls = 0;
    auto mat = [&](const Vec<dim> &uL, const Vec<dim> &uR, const Pt &n) -> Mat
    {
        calls++;
        if (!eig)
            return M;
        Mat A = M;
        A(0, nv - 1) += 0.1 * std::sin(uL[0] + 2 * uR[1]);
        A(1, 2) += 0.2 * n[0];
        return A;
    };
    using Batch = typename VR<dim>::template tLimitBatch<nv>;
    std::set<std::pair<std::vector<long>, int>> seen;
    auto monF = [&](const Vec<dim> &uL, const Vec<dim> &uR, const Pt &n)
    {
        // must be the two states of some face, first cell first, with its normal
        VT_CHECK(n.norm() <= 1 + 1e-9 && n.norm() > 0.3, "limiter-norm", C.what, " ", desc, ": normal of length ", n.norm());
    };
    typename VR<dim>::template tFMEig<nv> FM = [&](const Vec<dim> &uL, const Vec<dim> &uR, const Pt &n, const Eigen::Ref<Batch> &d) -> Batch
    { monF(uL, uR, n); return Batch(d * mat(uL, uR, n)); };
    typename VR<dim>::template tFMEig<nv> FMI = [&](const Vec<dim> &uL, const Vec<dim> &uR, const Pt &n, const Eigen::Ref<Batch> &d) -> Batch
    { monF(uL, uR, n); return Batch(d * mat(uL, uR, n).inverse()); };
    // the two states and the normal belong to one face, seen from its first cell
    std::map<std::array<long long, 3>, int> faces;
    auto q3 = [&](const Pt &n) -> std::array<long long, 3>
    { return {llround(n[0] * 1e7), llround(n[1] * 1e7), llround(n[2] * 1e7)}; };
    for (int alg = 0; alg < 2; alg++)
        for (int into = 0; into < 2; into++)
        {
            copyAll(x, c);
            for (idx i = 0; i < nA; i++)
                y[i].setConstant(5.), b[i].setConstant(-5.), si(i, 0) = 1e3;
            if (alg == 0)
                V.template DoLimiterWBAP_C<nv>(u, x, y, b, si, true, FM, FMI, into);
            else
                V.template DoLimiterWBAP_3<nv>(u, x, y, b, si, true, FM, FMI, into);
            auto &out = into ? y : x;
            double d = 0;
            for (idx i = 0; i < nA; i++)
                d = std::max(d, (out[i] - c[i]).cwiseAbs().maxCoeff());
            // minmod-like and WBAP kernels multiply round-off in vanishing coefficients at most by O(1)
            VT_CHECK(d <= 1e-6 * S, alg ? "limiter3-exact" : "limiterC-exact", C.what, " ", desc, " deg", deg, " eig", eig, " into", into, ": limiting moves an exact polynomial by ", d, " of ", S);
            L().count("limited-exact");
        }
    // ---- arbitrary data: only troubled cells change; own range; homogeneous
    for (idx i = 0; i < nC; i++)
    {
        vt::Rng g(vt::mix(ss + 5, C.st.cell[i]));
        for (int k = 0; k < nv; k++)
        {
            u[i](k) = g.u(-1, 1);
            for (int j = 0; j < c[i].rows(); j++)
                c[i](j, k) = g.u(-1, 1);
        }
        si(i, 0) = V.settings.smoothThreshold * (g.p(0.5) ? g.u(0, 0.99) : g.u(1.01, 3));
    }
    pull<dim>(c);
    pull<dim>(u);
    pullS();
    typename VR<dim>::template tFMEig<nv> ID = [&](const Vec<dim> &uL, const Vec<dim> &uR, const Pt &n, const Eigen::Ref<Batch> &d) -> Batch
    { return Batch(d); };
    int top0 = V.settings.maxOrder == 3 ? (dim == 2 ? 5 : 9) : V.settings.maxOrder == 2 ? (dim == 2 ? 2 : 3)
                                                                                      : 0;
    for (int alg = 0; alg < 2; alg++)
    {
        auto lim = [&](URec<dim> &in, URec<dim> &out, bool all)
        {
            if (alg == 0)
                V.template DoLimiterWBAP_C<nv>(u, in, out, b, si, all, ID, ID, true);
            else
                V.template DoLimiterWBAP_3<nv>(u, in, out, b, si, all, ID, ID, true);
        };
        copyAll(x, c);
        lim(x, y, false);
        double moved = 0;
        for (idx i = 0; i < nC; i++)
        {
            VT_CHECK((x[i] - c[i]).cwiseAbs().maxCoeff() == 0, "limiter-input", C.what, " ", desc, ": the input is changed although the result goes elsewhere");
            if (si(i, 0) < V.settings.smoothThreshold)
                VT_CHECK((y[i] - c[i]).cwiseAbs().maxCoeff() == 0, "limiter-smooth-kept", C.what, " ", desc, " alg", alg, ": a cell below the threshold is changed");
            else
                moved += (y[i] - c[i]).cwiseAbs().maxCoeff() > 0;
        }
        L().count("limited-cells", (long long)moved);
        { // in place: the same values, ghosts included
            URec<dim> t, z;
            V.BuildURec(t, nv), V.BuildURec(z, nv);
            copyAll(t, c), copyAll(z, c);
            if (alg == 0)
                V.template DoLimiterWBAP_C<nv>(u, t, z, b, si, false, ID, ID, false);
            else
                V.template DoLimiterWBAP_3<nv>(u, t, z, b, si, false, ID, ID, false);
            double d = 0;
            for (idx i = 0; i < nA; i++)
                d = std::max(d, (t[i] - y[i]).cwiseAbs().maxCoeff());
            VT_CHECK(d == 0, "limiter-in-place", C.what, " ", desc, " alg", alg, ": limiting in place differs from limiting elsewhere, or leaves old ghosts, by ", d);
        }
        // ghosts of the result are up to date
        {
            URec<dim> t;
            V.BuildURec(t, nv);
            copyAll(t, y);
            pull<dim>(t);
            double d = 0;
            for (idx i = 0; i < nA; i++)
                d = std::max(d, (t[i] - y[i]).cwiseAbs().maxCoeff());
            VT_CHECK(d == 0, "limiter-ghosts", C.what, " ", desc, " alg", alg, ": ghost values of the result are not their owners'");
        }
        // the highest-order coefficients stay within the range of the candidates
        URec<dim> full;
        V.BuildURec(full, nv);
        lim(x, full, true);
        for (idx i = 0; i < nC; i++)
        {
            if (si(i, 0) >= V.settings.smoothThreshold)
                if (alg == 0) // cell by cell: independent of what happens elsewhere
                    VT_CHECK((full[i] - y[i]).cwiseAbs().maxCoeff() <= 1e-12, "limiter-local", C.what, " ", desc, ": the limited cell depends on whether others are limited");
            int n = int(c[i].rows());
            Mat Di = diffs<dim>(V, i, V.GetCellBary(i));
            for (int k = 0; k < nv; k++)
                for (int j = top0; j < n; j++)
                {
                    double lo = c[i](j, k), hi = lo;
                    for (auto f : m.cell2face[i])
                    {
                        idx o2 = V.CellFaceOther(i, f);
                        if (o2 == DNDS::UnInitIndex)
                            continue;
                        // the neighbour's polynomial in this cell's base
                        Mat A = Di.block(1, 1, n, n), B = diffs<dim>(V, o2, V.GetCellBary(o2)).block(1, 1, n, n) * c[o2];
                        // highest derivatives are constant, the others play no part in the highest coefficients
                        double w = (A.block(top0, top0, n - top0, n - top0).fullPivLu().solve(B.bottomRows(n - top0)))(j - top0, k);
                        lo = std::min(lo, w), hi = std::max(hi, w);
                    }
                    double t = 1e-7 * (1 + std::abs(lo) + std::abs(hi));
                    bool opp = lo < 0 && hi > 0;
                    (void)opp;
                    VT_CHECK(full[i](j, k) >= std::min(lo, 0.) - t && full[i](j, k) <= std::max(hi, 0.) + t, "limiter-range", C.what, " ", desc, " alg", alg, ": limited coefficient ", full[i](j, k), " outside [", lo, ",", hi, "]");
                }
        }
        // scaling all data scales the result
        if (true)
        {
            double f = std::pow(2., int(r.in(-4, 4)));
            for (idx i = 0; i < nA; i++)
                x[i] = f * c[i];
            URec<dim> t;
            V.BuildURec(t, nv);
            lim(x, t, true);
            double d = 0;
            for (idx i = 0; i < nC; i++)
                d = std::max(d, (t[i] - f * full[i]).cwiseAbs().maxCoeff());
            VT_CHECK(d <= 1e-6 * f, "limiter-homogeneous", C.what, " ", desc, " alg", alg, ": scaling the data by ", f, " does not scale the result, off by ", d / f);
        }
        // reduction to a lower order drops exactly the higher coefficients
        for (idx i = 0; i < nC; i++)
            for (int ord = 0; ord <= V.settings.maxOrder; ord++)
            {
                Mat t = V.template DownCastURecOrder<nv>(ord, i, c, 0);
                int keep = ord == 0 ? int(c[i].rows()) : ord == 1 ? 0
                                                      : ord == 2   ? dim
                                                                   : (dim == 2 ? 5 : 9);
                Mat e = c[i];
                e.bottomRows(e.rows() - std::min<int>(keep, int(e.rows()))).setZero();
                VT_CHECK((t - e).cwiseAbs().maxCoeff() == 0, "downcast", C.what, ": order reduction to ", ord);
            }
    }
    L().endCase(vt::str(o.str(), " np", mpi.size, " ", desc, " e", eig));
}

// limiting by norms commutes with turning the axes: D dimensions, homogeneous polynomials of degree deg
template <int D>
static void limRotations(vt::Rng &r, int deg)
{
    constexpr int nv = 3;
    using A = Eigen::Array<real, Eigen::Dynamic, nv, 0, 10>;
    std::vector<std::array<int, 3>> mono;
    if (D == 2)
        for (int i = deg; i >= 0; i--)
            mono.push_back({i, deg - i, 0});
    else
    { // pure powers first
        for (int d = 0; d < 3; d++)
        {
            std::array<int, 3> e{0, 0, 0};
            e[d] = deg;
            mono.push_back(e);
        }
        for (int top = deg - 1; top >= 1; top--)
            for (int i = 0; i <= deg; i++)
                for (int j = 0; i + j <= deg; j++)
                    if (std::max({i, j, deg - i - j}) == top)
                        mono.push_back({i, j, deg - i - j});
    }
    int n = int(mono.size());
    Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
    if (D == 2)
    {
        double t = r.u(0, 6.3);
        R.topLeftCorner(2, 2) << std::cos(t), -std::sin(t), std::sin(t), std::cos(t);
    }
    else
        R = Eigen::Quaterniond(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)).normalized().toRotationMatrix();
    Mat P0(3 * n, n), P1(3 * n, n);
    for (int k = 0; k < 3 * n; k++)
    {
        Eigen::Vector3d x(r.u(-1, 1), r.u(-1, 1), D == 3 ? r.u(-1, 1) : 0), y = R * x;
        for (int j = 0; j < n; j++)
            P0(k, j) = std::pow(x[0], mono[j][0]) * std::pow(x[1], mono[j][1]) * std::pow(x[2], mono[j][2]), P1(k, j) = std::pow(y[0], mono[j][0]) * std::pow(y[1], mono[j][1]) * std::pow(y[2], mono[j][2]);
    }
    Mat T = P0.colPivHouseholderQr().solve(P1); // coefficients after turning
    auto gen = [&]()
    {
        A a(n, nv);
        double s = std::pow(10., r.u(-1, 1));
        for (int i = 0; i < n; i++)
            for (int j = 0; j < nv; j++)
                a(i, j) = s * r.u(-1, 1);
        return a;
    };
    auto turn = [&](const A &a)
    { return A((T * a.matrix()).array()); };
    for (int t = 0; t < 10; t++)
    {
        A a = gen(), b = gen();
        if (r.p(0.5))
            b = a + 0.3 * b;
        A c[4] = {a, b, gen(), gen()};
        for (int k = 0; k < (D == 2 ? 4 : 2); k++)
        {
            A o1, o2;
            auto f = [&](auto &&tr, A &o)
            {
                std::vector<A> us;
                for (auto &q : c)
                    us.push_back(tr(q));
                A p = us[0], q = us[1];
                if (k == 0)
                    DNDS::CFV::FWBAP_L2_Biway_PolynomialNorm<D, nv>(p, q, o, 1);
                else if (k == 1)
                    DNDS::CFV::FMEMM_Biway_PolynomialNorm<D, nv>(p, q, o, 1);
                else if (k == 2)
                    DNDS::CFV::FWBAP_L2_Multiway_Polynomial2D(us, 4, o, 10.);
                else
                    DNDS::CFV::FMEMM_Multiway_Polynomial2D(us[0], us, 4, o, 1.);
            };
            f([](const A &q)
              { return q; }, o1);
            f(turn, o2);
            A e = turn(o1) - o2;
            double sc = 0;
            for (auto &q : c)
                sc = std::max(sc, q.abs().maxCoeff());
            VT_CHECK(e.abs().maxCoeff() <= 1e-8 * sc, vt::str("kernel-turn-", k), "limiting degree ", deg, " in ", D, "D does not commute with turning the axes, off by ", e.abs().maxCoeff() / sc);
            L().count("kernel-turns");
        }
    }
}

// the kernels themselves
template <int nRow>
static void limKernels(vt::Rng &r, int id)
{
    constexpr int nv = 3;
    constexpr int D = nRow == 2 || nRow == 4 ? 2 : 3;
    using A = Eigen::Array<real, Eigen::Dynamic, nv, 0, 10>;
    auto gen = [&]()
    {
        A a(nRow, nv);
        double s = std::pow(10., r.u(-3, 3));
        for (int i = 0; i < nRow; i++)
            for (int j = 0; j < nv; j++)
                a(i, j) = r.p(0.1) ? 0 : s * r.u(-1, 1);
        return a;
    };
    for (int t = 0; t < 200; t++)
    {
        A a = gen(), b = r.p(0.2) ? a : gen();
        if (r.p(0.2))
            b = -a;
        for (int k = 0; k < 6; k++)
        {
            auto f = [&](const A &p, const A &q, A &o)
            {
                switch (k)
                {
                case 0:
                    DNDS::CFV::FWBAP_L2_Biway(p, q, o, 1);
                    break;
                case 1:
                    DNDS::CFV::FMINMOD_Biway(p, q, o, 1);
                    break;
                case 2:
                    DNDS::CFV::FWBAP_L2_Biway_PolynomialNorm<D, nv>(p, q, o, 1);
                    break;
                case 3:
                    DNDS::CFV::FMEMM_Biway_PolynomialNorm<D, nv>(p, q, o, 1);
                    break;
                case 4:
                    DNDS::CFV::FWBAP_L2_Cut_Biway(p, q, o, 1);
                    break;
                case 5:
                    DNDS::CFV::FVanLeer_Biway(p, q, o, 1);
                    break;
                }
            };
            A o1, o2, o3;
            f(a, b, o1), f(a, a, o2), f(-a, -b, o3);
            double tol = 1e-9;
            std::string w = vt::str("kernel ", k, " rows ", nRow);
            VT_CHECK(o1.allFinite(), "kernel-finite", w);
            VT_CHECK(((o2 - a).abs() <= tol * a.abs() + 1e-25).all(), "kernel-consistent", w, ": f(a,a) != a");
            VT_CHECK(((o1 + o3).abs() <= tol * (a.abs() + b.abs()) + 1e-25).all(), "kernel-odd", w, ": f(-a,-b) != -f(a,b)");
            A lo = a.min(b).min(0.), hi = a.max(b).max(0.);
            if (k == 2 || k == 3)
                lo = a.min(b), hi = a.max(b);
            VT_CHECK((o1 >= lo - tol * (a.abs() + b.abs())).all() && (o1 <= hi + tol * (a.abs() + b.abs())).all(), "kernel-range", w, ": result outside the range of its arguments");
            if (k == 1 || k == 4 || k == 5)
                VT_CHECK((((a * b) < 0).select(o1, 0.).abs() <= 0).all(), "kernel-opposed", w, ": opposed slopes not cancelled");
            L().count("kernel-calls", 3);
        }
        // several ways
        int n = int(r.in(1, 6));
        std::vector<A> us, same, neg;
        A a0 = gen();
        A lo = a0, hi = a0;
        for (int i = 0; i < n; i++)
        {
            A p = i ? gen() : a0;
            us.push_back(p), same.push_back(a0), neg.push_back(-p);
            lo = lo.min(p), hi = hi.max(p);
        }
        double w = r.u(1, 10);
        for (int k = 0; k < (D == 2 ? 2 : 1); k++)
        {
            A o1, o2, o3;
            auto f = [&](std::vector<A> &p, A &o)
            {
                if (k == 0)
                    DNDS::CFV::FWBAP_L2_Multiway(p, n, o, w);
                else
                    DNDS::CFV::FWBAP_L2_Multiway_Polynomial2D(p, n, o, w);
            };
            f(us, o1), f(same, o2), f(neg, o3);
            double mx = std::max(lo.abs().maxCoeff(), hi.abs().maxCoeff());
            VT_CHECK(o1.allFinite(), "kernel-finite", "multiway ", k);
            VT_CHECK(((o2 - a0).abs() <= 1e-9 * a0.abs().maxCoeff() + 1e-25).all(), "kernel-consistent", "multiway ", k, ": f(a,...,a) != a");
            VT_CHECK(((o1 + o3).abs() <= 1e-9 * mx).all(), "kernel-odd", "multiway ", k);
            VT_CHECK((o1 >= lo - 1e-9 * mx).all() && (o1 <= hi + 1e-9 * mx).all(), "kernel-range", "multiway ", k, ": result outside the range of its arguments");
            L().count("kernel-calls", 3);
        }
    }
    (void)id;
}

int main(int argc, char **argv)
{
    vt::start(&argc, &argv);
    auto mpi = world();
    Quiet quiet;
    std::string mode = vt::sarg(argc, argv, "--mode", "metrics");
    int n = vt::arg(argc, argv, "--n", 10), base = vt::arg(argc, argv, "--base", 0), d = vt::arg(argc, argv, "--dim", 0), only = vt::arg(argc, argv, "--only", -1);
    for (int c = 0; c < n; c++)
    {
        int id = base + c;
        if (only >= 0 && id != only)
            continue;
        vt::Rng r(vt::mix(vt::mix(L().seed, id), std::hash<std::string>()(mode) % 1000));
        if (mode == "kernels")
        {
            L().begin(vt::str("kernels #", id));
            for (int deg = 1; deg <= 3; deg++)
                limRotations<2>(r, deg), limRotations<3>(r, deg);
            limKernels<2>(r, id), limKernels<3>(r, id), limKernels<4>(r, id), limKernels<6>(r, id), limKernels<10>(r, id);
            L().endCase(vt::str("kernels ", id));
            continue;
        }
        int dim = d ? d : (r.p(0.65) ? 2 : 3);
#define RUN(F) (dim == 2 ? F<2>(mpi, r, id) : F<3>(mpi, r, id))
        if (mode == "metrics")
            RUN(metricsCase);
        if (mode == "rec")
            RUN(recCase);
        if (mode == "rec2")
            RUN(rec2Case);
        if (mode == "proj")
            RUN(projCase);
        if (mode == "lim")
            RUN(limCase);
    }
    return vt::finish();
}
