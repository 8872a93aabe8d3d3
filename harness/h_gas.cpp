// C20: gas-dynamics kernels (thermodynamics, eigen-decompositions, Riemann solvers, viscous flux, positivity
// compression).  C21: turbulence closures.
#include "vt.hpp"
#include "Euler/Gas.hpp"
#include "Euler/RANS_ke.hpp"
using vt::L;
using DNDS::real;
namespace Gas = DNDS::Euler::Gas;
namespace RANS = DNDS::Euler::RANS;

template <int N>
using V = Eigen::Vector<real, N>;
template <int N, int M>
using M_ = Eigen::Matrix<real, N, M>;

template <int dim>
V<dim> dir(vt::Rng &r)
{
    V<dim> n;
    if (r.p(0.25)) // axis aligned
    {
        n.setZero();
        n(r.in(0, dim - 1)) = r.p(0.5) ? 1 : -1;
        return n;
    }
    do
        for (int i = 0; i < dim; i++)
            n(i) = r.u(-1, 1);
    while (n.norm() < 0.1);
    return n.normalized();
}
template <int dim>
M_<dim, dim> randRot(vt::Rng &r)
{
    M_<dim, dim> A;
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < dim; j++)
            A(i, j) = r.u(-1, 1);
    for (int i = 0; i < dim; i++)
    {
        for (int j = 0; j < i; j++)
            A.col(i) -= A.col(j) * A.col(j).dot(A.col(i));
        if (A.col(i).norm() < 0.05)
            return randRot<dim>(r);
        A.col(i).normalize();
    }
    if (A.determinant() < 0)
        A.col(0) *= -1;
    return A;
}
template <int dim>
V<dim + 2> primState(vt::Rng &r, real scaleRho, real scaleP, real mach, real gamma)
{
    V<dim + 2> w;
    w(0) = scaleRho * std::pow(10., r.u(-0.5, 0.5));
    w(dim + 1) = scaleP * std::pow(10., r.u(-0.5, 0.5));
    real a = std::sqrt(gamma * w(dim + 1) / w(0));
    w.template segment<dim>(1) = dir<dim>(r) * a * mach * r.u();
    return w;
}
// independent thermodynamics
template <int dim>
V<dim + 2> cons(const V<dim + 2> &w, real g)
{
    V<dim + 2> u;
    u(0) = w(0);
    real ke = 0;
    for (int i = 1; i <= dim; i++)
        u(i) = w(0) * w(i), ke += w(i) * w(i);
    u(dim + 1) = w(dim + 1) / (g - 1) + 0.5 * w(0) * ke;
    return u;
}
template <int dim>
V<dim + 2> fluxRef(const V<dim + 2> &w, const V<dim> &vg, const V<dim> &n, real g)
{
    V<dim + 2> u = cons<dim>(w, g), f;
    real vn = 0, rel = 0;
    for (int i = 0; i < dim; i++)
        vn += w(i + 1) * n(i), rel += (w(i + 1) - vg(i)) * n(i);
    f(0) = w(0) * rel;
    for (int i = 0; i < dim; i++)
        f(i + 1) = w(0) * w(i + 1) * rel + w(dim + 1) * n(i);
    f(dim + 1) = u(dim + 1) * rel + w(dim + 1) * vn;
    return f;
}
template <int dim>
V<dim + 2> fluxScale(const V<dim + 2> &wl, const V<dim + 2> &wr, const V<dim> &vg, real g) // component-wise magnitude
{
    V<dim + 2> s;
    s.setZero();
    for (auto &w : {wl, wr})
    {
        real sp = w.template segment<dim>(1).norm() + vg.norm() + std::sqrt(g * w(dim + 1) / w(0));
        V<dim + 2> u = cons<dim>(w, g);
        s(0) += w(0) * sp;
        for (int i = 1; i <= dim; i++)
            s(i) += w(0) * sp * sp;
        s(dim + 1) += (u(dim + 1) + w(dim + 1)) * sp + w(0) * sp * sp * sp;
    }
    return s;
}
template <int dim>
real relErr(const V<dim + 2> &a, const V<dim + 2> &b, const V<dim + 2> &s)
{
    real e = 0;
    for (int i = 0; i < dim + 2; i++)
    {
        real d = std::abs(a(i) - b(i)) / s(i);
        if (!(d <= e))
            e = d;
        if (std::isnan(d))
            return 1e300;
    }
    return e;
}
template <int dim>
V<dim + 2> rotU(const V<dim + 2> &u, const M_<dim, dim> &R)
{
    V<dim + 2> o = u;
    o.template segment<dim>(1) = R * u.template segment<dim>(1);
    return o;
}

static const std::vector<Gas::RiemannSolverType> RS = {Gas::Roe, Gas::Roe_M1, Gas::Roe_M2, Gas::Roe_M3, Gas::Roe_M4, Gas::Roe_M5,
                                                       Gas::HLLEP, Gas::HLLEP_V1, Gas::HLLC};
static std::string rsName(int t) { return nlohmann::json(Gas::RiemannSolverType(t)).get<std::string>(); }

template <int dim>
V<dim + 2> riemann(Gas::RiemannSolverType t, const V<dim + 2> &ul, const V<dim + 2> &ur, const V<dim + 2> &ulm, const V<dim + 2> &urm,
                   const V<dim> &vg, const V<dim> &n, real g, real dLam, std::array<real, 3> *lams = nullptr)
{
    V<dim + 2> F;
    F.setConstant(1e100); // every component has to be written
    real l0 = 0, l1 = 0, l4 = 0;
    Gas::InviscidFlux_IdealGas_Dispatcher<dim>(
        t, ul, ur, ulm, urm, vg, n, g, F, dLam, [] {}, l0, l1, l4);
    if (lams)
        *lams = {l0, l1, l4};
    return F;
}

template <int dim>
static void fluxCase(vt::Rng &r, const std::string &id)
{
    constexpr int N = dim + 2;
    L().begin(id);
    real g = r.p(0.6) ? 1.4 : (r.p(0.5) ? 5. / 3 : r.u(1.05, 2.));
    real sr = std::pow(10., r.u(-3, 3)), sp = std::pow(10., r.u(-3, 5));
    real mach = std::pow(10., r.u(-2, 1));
    V<N> wl = primState<dim>(r, sr, sp, mach, g), wr = primState<dim>(r, sr, sp, mach, g);
    int kind = int(r.in(0, 3)); // 0: arbitrary jump, 1: close states, 2: shear/contact only, 3: strong pressure jump
    if (kind == 1)
        wr = wl + 1e-3 * (wr - wl);
    if (kind == 2)
        wr(dim + 1) = wl(dim + 1);
    if (kind == 3)
        wr(dim + 1) *= 50;
    V<dim> n = dir<dim>(r);
    real aL = std::sqrt(g * wl(dim + 1) / wl(0)), aR = std::sqrt(g * wr(dim + 1) / wr(0));
    V<dim> vg = r.p(0.4) ? V<dim>(V<dim>::Zero()) : V<dim>(dir<dim>(r) * r.u(0, 2) * aL);
    V<N> ul = cons<dim>(wl, g), ur = cons<dim>(wr, g);
    V<N> s = fluxScale<dim>(wl, wr, vg, g);
    M_<dim, dim> R = randRot<dim>(r);
    // near the vacuum limit a difference of large numbers is all that remains of the pressure: tolerate its rounding
    real M2 = 1 + std::pow(std::max(wl.template segment<dim>(1).norm() / aL, wr.template segment<dim>(1).norm() / aR), 2);
    real tol = 1e-12 * M2 * 10;

    // ---- thermodynamics
    {
        V<N> p2, u2;
        Gas::IdealGasThermalConservative2Primitive<dim>(ul, p2, g);
        VT_CHECK((p2 - wl).template head<dim + 1>().norm() <= 1e-13 * wl.template head<dim + 1>().norm() && vt::close(p2(dim + 1), wl(dim + 1), tol),
                 "gas.cons2prim", "got ", p2.transpose(), " want ", wl.transpose());
        Gas::IdealGasThermalPrimitive2Conservative<dim>(wl, u2, g);
        VT_CHECK(relErr<dim>(u2, ul, ul.cwiseAbs() + V<N>::Constant(1e-13 * ul.norm())) < 1e-12, "gas.prim2cons", "got ", u2.transpose(), " want ", ul.transpose());
        real p, a2, H;
        Gas::IdealGasThermal(ul(dim + 1), ul(0), wl.template segment<dim>(1).squaredNorm(), g, p, a2, H);
        VT_CHECK(vt::close(p, wl(dim + 1), tol) && vt::close(a2, aL * aL, tol) && vt::close(H, (ul(dim + 1) + wl(dim + 1)) / wl(0), tol),
                 "gas.thermal", p, " ", a2, " ", H);
        // stagnation values: bringing the gas to rest isentropically
        real rg = r.u(0.1, 300);
        auto [p0, T0] = Gas::IdealGasThermalPrimitiveGetP0T0<dim>(wl, g, rg);
        real T = wl(dim + 1) / (wl(0) * rg);
        real cp = g * rg / (g - 1);
        real T0r = T + wl.template segment<dim>(1).squaredNorm() / (2 * cp);
        real p0r = wl(dim + 1) * std::pow(T0r / T, g / (g - 1));
        VT_CHECK(vt::close(T0, T0r, 1e-11) && vt::close(p0, p0r, 1e-9), "gas.p0T0", p0, " ", p0r, " ", T0, " ", T0r);
    }
    // ---- flux
    V<N> fl = fluxRef<dim>(wl, vg, n, g), fr = fluxRef<dim>(wr, vg, n, g);
    {
        V<dim> vl = wl.template segment<dim>(1);
        V<N> F;
        F.setConstant(1e100);
        Gas::GasInviscidFlux_XY<dim>(ul, vl, vg, n, wl(dim + 1), F);
        VT_CHECK(relErr<dim>(F, fl, s) < 1e-13, "gas.flux", "got ", F.transpose(), " want ", fl.transpose());
        V<dim> ex = V<dim>::Unit(0);
        V<N> Fx;
        Fx.setConstant(1e100);
        Gas::GasInviscidFlux<dim>(ul, vl, vg, wl(dim + 1), Fx);
        VT_CHECK(relErr<dim>(Fx, fluxRef<dim>(wl, vg, ex, g), s) < 1e-13, "gas.fluxX", "got ", Fx.transpose());
        // directional derivative of the flux
        V<N> dw = primState<dim>(r, sr, sp, mach, g) - wl;
        real h = 1e-5;
        // keep densities and pressures positive along the segment
        V<N> dU = (cons<dim>(V<N>(wl + h * dw), g) - cons<dim>(V<N>(wl - h * dw), g)) / (2 * h);
        V<N> dFr = (fluxRef<dim>(V<N>(wl + h * dw), vg, n, g) - fluxRef<dim>(V<N>(wl - h * dw), vg, n, g)) / (2 * h);
        V<dim> dv;
        real dp;
        Gas::IdealGasUIncrement<dim>(ul, dU, vl, g, dv, dp);
        V<N> dF;
        dF.setConstant(1e100);
        Gas::GasInviscidFluxFacialIncrement<dim>(ul, dU, n, vl, dv, vg, dp, wl(dim + 1), dF);
        V<N> s2 = fluxScale<dim>(wl, V<N>(wl + dw), vg, g);
        VT_CHECK(relErr<dim>(dF, dFr, s2) < 1e-6 * M2, "gas.fluxIncrement", "got ", dF.transpose(), " want ", dFr.transpose());
    }
    // ---- eigenvectors (first coordinate direction)
    {
        auto Rm = Gas::IdealGas_EulerGasRightEigenVector<dim>(ul, g);
        auto Lm = Gas::IdealGas_EulerGasLeftEigenVector<dim>(ul, g);
        // scale rows/columns to unit variables so that the tolerance means something
        V<N> d;
        d(0) = wl(0);
        for (int i = 1; i <= dim; i++)
            d(i) = wl(0) * aL;
        d(dim + 1) = wl(0) * aL * aL;
        M_<N, N> Rs = d.cwiseInverse().asDiagonal() * Rm, Ls = Lm * d.asDiagonal();
        real e = (Ls * Rs - M_<N, N>::Identity()).cwiseAbs().maxCoeff();
        VT_CHECK(e < 1e-12 * Ls.norm() * Rs.norm(), "gas.eigInverse", "L*R differs from 1 by ", e);
        V<N> lam = V<N>::Constant(wl(1));
        lam(0) -= aL, lam(dim + 1) += aL;
        M_<N, N> A = Rm * lam.asDiagonal() * Lm;
        V<N> dU = V<N>(cons<dim>(primState<dim>(r, sr, sp, mach, g), g) - ul);
        V<dim> dv, vl = wl.template segment<dim>(1), zero = V<dim>::Zero(), ex = V<dim>::Unit(0);
        real dp;
        // exact derivative of the x-flux, by hand
        real drho = dU(0);
        V<N> dw;
        dw(0) = drho;
        for (int i = 1; i <= dim; i++)
            dw(i) = (dU(i) - wl(i) * drho) / wl(0);
        real ke = 0;
        for (int i = 1; i <= dim; i++)
            ke += wl(i) * dU(i) - 0.5 * wl(i) * wl(i) * drho;
        dw(dim + 1) = (g - 1) * (dU(dim + 1) - ke);
        V<N> dF;
        dF(0) = dU(1);
        for (int i = 1; i <= dim; i++)
            dF(i) = dU(i) * wl(1) + wl(0) * wl(i) * dw(1) + (i == 1 ? dw(dim + 1) : 0);
        dF(dim + 1) = (dU(dim + 1) + dw(dim + 1)) * wl(1) + (ul(dim + 1) + wl(dim + 1)) * dw(1);
        real e2 = (d.cwiseInverse().asDiagonal() * (A * dU - dF)).norm() / (aL + vl.norm()) / (Ls.norm() * Rs.norm() * (d.cwiseInverse().asDiagonal() * dU).norm());
        VT_CHECK(e2 < 1e-12, "gas.eigJacobian", "R*diag(lambda)*L applied to an increment is off by ", e2);
    }
    // ---- Roe average and linearisation
    {
        V<dim> vR;
        real v2, a, a2, H;
        Gas::GetRoeAverage<dim>(ul, ur, g, vR, v2, a, a2, H);
        VT_CHECK(a > 0 && vt::close(a * a, a2, 1e-12) && vt::close(v2, vR.squaredNorm(), 1e-12), "gas.roeAverage", a, " ", a2);
        real un = vR.dot(n);
        V<N> inc = ur - ul, dF = V<N>::Zero();
        V<dim> z = V<dim>::Zero();
        Gas::RoeFluxIncFDiff<dim>(inc, n, vR, v2, a, a2, H, un - a, un, un + a, g, dF);
        V<N> want = fluxRef<dim>(wr, z, n, g) - fluxRef<dim>(wl, z, n, g);
        VT_CHECK(relErr<dim>(dF, want, s) < tol, "gas.roeProperty", "A(UR-UL) ", dF.transpose(), " F(UR)-F(UL) ", want.transpose());
        // it adds onto the given flux, is linear, and equal speeds give a plain scaling
        V<N> acc = fl;
        real c = r.u(0.1, 3) * (a + std::abs(un));
        Gas::RoeFluxIncFDiff<dim>(inc, n, vR, v2, a, a2, H, c, c, c, g, acc);
        VT_CHECK(relErr<dim>(acc, V<N>(fl + c * inc), V<N>(s * 3)) < tol, "gas.roeScaling", "got ", acc.transpose(), " want ", (fl + c * inc).transpose());
    }
    // ---- Riemann solvers
    V<dim> nz = -n;
    real dLam = r.p(0.5) ? 0 : r.u(0, 0.3) * aL;
    bool meanDiffers = r.p(0.4); // wave speeds from other (cell mean) states
    V<N> wlm = wl, wrm = wr;
    if (meanDiffers)
    {
        wlm = wl + 0.1 * (primState<dim>(r, sr, sp, mach, g) - wl);
        wrm = wr + 0.1 * (primState<dim>(r, sr, sp, mach, g) - wr);
    }
    V<N> ulm = cons<dim>(wlm, g), urm = cons<dim>(wrm, g);
    for (auto t : RS)
    {
        std::string nm = rsName(t);
        // consistency
        V<N> F = riemann<dim>(t, ul, ul, ul, ul, vg, n, g, dLam);
        VT_CHECK(relErr<dim>(F, fl, s) < tol, "gas.consistent." + nm, "F(U,U) ", F.transpose(), " physical flux ", fl.transpose(), " vg ", vg.transpose());
        // the same face seen from the other side
        std::array<real, 3> la, lb;
        V<N> Fa = riemann<dim>(t, ul, ur, ulm, urm, vg, n, g, dLam, &la);
        V<N> Fb = riemann<dim>(t, ur, ul, urm, ulm, vg, nz, g, dLam, &lb);
        V<N> Fbm = -Fb;
        // HLLC with wave speeds from other states picks a side by the sign of the contact speed: no comparison at a contact at rest
        if (t == Gas::HLLC && meanDiffers && std::abs(Fa(0)) < 1e-9 * s(0))
            continue;
        VT_CHECK(relErr<dim>(Fa, Fbm, s) < 10 * tol, "gas.antisymmetric." + nm, "F(UL,UR,n) ", Fa.transpose(), " -F(UR,UL,-n) ", Fbm.transpose());
        bool lamOut = !(t == Gas::HLLC);
        if (lamOut)
            VT_CHECK(vt::close(la[0], lb[2], 1e-9, 1e-9 * aL) && vt::close(la[1], lb[1], 1e-9, 1e-9 * aL) && la[0] >= -1e-9 * aL && la[1] >= -1e-9 * aL && la[2] >= -1e-9 * aL,
                     "gas.waveSpeeds." + nm, la[0], " ", la[1], " ", la[2], " reversed ", lb[0], " ", lb[1], " ", lb[2]);
        // rotated frame
        V<N> Fr = riemann<dim>(t, rotU<dim>(ul, R), rotU<dim>(ur, R), rotU<dim>(ulm, R), rotU<dim>(urm, R), V<dim>(R * vg), V<dim>(R * n), g, dLam);
        VT_CHECK(relErr<dim>(Fr, rotU<dim>(Fa, R), s) < 10 * tol, "gas.rotation." + nm, "got ", Fr.transpose(), " want ", rotU<dim>(Fa, R).transpose());
        // everything moves to one side: the flux of the side it comes from
        for (int sg : {1, -1})
        {
            V<N> wl2 = wl, wr2 = wr;
            real m = (std::max(aL, aR) * (kind == 3 ? 12 : 6) + vg.norm() + std::max(wl.template segment<dim>(1).norm(), wr.template segment<dim>(1).norm())) * sg;
            wl2.template segment<dim>(1) += n * m * r.u(1, 1.02);
            wr2.template segment<dim>(1) += n * m * r.u(1, 1.02);
            V<N> u1 = cons<dim>(wl2, g), u2 = cons<dim>(wr2, g);
            V<N> Fs = riemann<dim>(t, u1, u2, u1, u2, vg, n, g, 0);
            V<N> want = fluxRef<dim>(sg > 0 ? wl2 : wr2, vg, n, g);
            V<N> s3 = fluxScale<dim>(wl2, wr2, vg, g);
            real M3 = 1 + std::pow(2 * std::abs(m) / std::min(aL, aR), 2);
            bool upw = t == Gas::Roe || t == Gas::Roe_M3 || t == Gas::Roe_M4 || t == Gas::HLLC || t == Gas::HLLEP || t == Gas::HLLEP_V1;
            if (upw) // the others bound wave speeds from above by design
                VT_CHECK(relErr<dim>(Fs, want, s3) < 1e-11 * M3, "gas.upwind." + nm, "supersonic, direction ", sg, ": got ", Fs.transpose(), " want ", want.transpose());
            else // still between: dissipation not smaller than upwinding needs, flux finite
                VT_CHECK(Fs.allFinite(), "gas.finite." + nm, Fs.transpose());
        }
        // a frame moving with the face: mass flux depends on relative velocities only
        {
            V<N> wlS = wl, wrS = wr, wlmS = wlm, wrmS = wrm;
            for (auto *w : {&wlS, &wrS, &wlmS, &wrmS})
                w->template segment<dim>(1) -= vg;
            V<dim> z = V<dim>::Zero();
            V<N> G = riemann<dim>(t, cons<dim>(wlS, g), cons<dim>(wrS, g), cons<dim>(wlmS, g), cons<dim>(wrmS, g), z, n, g, dLam);
            // transform back: momentum += vg*mass, energy += vg.mom + vg^2/2 mass
            V<N> W = G;
            W.template segment<dim>(1) += vg * G(0);
            W(dim + 1) += vg.dot(G.template segment<dim>(1)) + 0.5 * vg.squaredNorm() * G(0);
            bool frameFree = t != Gas::Roe; // the entropy fix of Roe uses the absolute speed
            if (frameFree)
                VT_CHECK(relErr<dim>(Fa, W, s) < 10 * tol, "gas.movingFrame." + nm, "got ", Fa.transpose(), " want ", W.transpose(), " vg ", vg.transpose());
        }
        L().count("riemann:" + nm);
    }
    // ---- batch versions
    {
        int nB = int(r.in(1, Gas::MaxBatch));
        using UB = Eigen::Matrix<real, dim + 2, -1, Eigen::ColMajor, dim + 2, Gas::MaxBatch>;
        using VB = Eigen::Matrix<real, dim, -1, Eigen::ColMajor, dim, Gas::MaxBatch>;
        using RB = Eigen::Matrix<real, 1, -1, Eigen::RowMajor, 1, Gas::MaxBatch>;
        UB UL(dim + 2, nB), UR(dim + 2, nB), F(dim + 2, nB);
        VB VG(dim, nB), NN(dim, nB), VEL(dim, nB);
        RB P(1, nB);
        std::vector<V<N>> wls, wrs;
        for (int i = 0; i < nB; i++)
        {
            wls.push_back(V<N>(wl + 0.05 * r.u() * (primState<dim>(r, sr, sp, mach, g) - wl)));
            wrs.push_back(V<N>(wr + 0.05 * r.u() * (primState<dim>(r, sr, sp, mach, g) - wr)));
            UL.col(i) = cons<dim>(wls[i], g), UR.col(i) = cons<dim>(wrs[i], g);
            VG.col(i) = vg, NN.col(i) = n;
            VEL.col(i) = wls[i].template segment<dim>(1);
            P(i) = wls[i](dim + 1);
        }
        // plain flux may differ in every column
        {
            VB VG2 = VG, NN2 = NN;
            for (int i = 0; i < nB; i++)
                VG2.col(i) = dir<dim>(r) * aL, NN2.col(i) = dir<dim>(r);
            F.setConstant(1e100);
            Gas::GasInviscidFlux_XY_Batch<dim>(UL, VEL, VG2, NN2, P, F);
            real e = 0, ex = 0;
            UB F2 = F;
            F2.setConstant(1e100);
            Gas::GasInviscidFlux_Batch<dim>(UL, VEL, VG2, P, F2);
            for (int i = 0; i < nB; i++)
            {
                e = std::max(e, relErr<dim>(F.col(i), fluxRef<dim>(wls[i], VG2.col(i), NN2.col(i), g), V<N>(3 * s)));
                ex = std::max(ex, relErr<dim>(F2.col(i), fluxRef<dim>(wls[i], VG2.col(i), V<dim>::Unit(0), g), V<N>(3 * s)));
            }
            VT_CHECK(e < 1e-12, "gas.fluxBatch", e);
            VT_CHECK(ex < 1e-12, "gas.fluxXBatch", ex);
        }
        for (auto t : {Gas::Roe, Gas::Roe_M1, Gas::Roe_M2, Gas::Roe_M3, Gas::Roe_M4, Gas::Roe_M5})
        {
            real l0, l1, l4;
            auto dump = [] {};
            F.setConstant(1e100);
            Gas::InviscidFlux_IdealGas_Batch_Dispatcher<dim>(t, UL, UR, ulm, urm, VG, vg, NN, n, g, F, dLam, dump, l0, l1, l4);
            real e = 0, ec = 0;
            int bad = -1;
            std::array<real, 3> la{};
            for (int i = 0; i < nB; i++)
            {
                V<N> a = F.col(i), b = riemann<dim>(t, UL.col(i), UR.col(i), ulm, urm, vg, n, g, dLam, &la);
                real ei = relErr<dim>(a, b, V<N>(2 * s));
                if (ei > e)
                    e = ei, bad = i;
            }
            UB Fc(dim + 2, nB);
            Fc.setConstant(1e100);
            real k0, k1, k4;
            Gas::InviscidFlux_IdealGas_Batch_Dispatcher<dim>(t, UL, UL, ulm, urm, VG, vg, NN, n, g, Fc, dLam, dump, k0, k1, k4);
            for (int i = 0; i < nB; i++)
                ec = std::max(ec, relErr<dim>(Fc.col(i), fluxRef<dim>(wls[i], vg, n, g), V<N>(2 * s)));
            if (t != Gas::Roe_M1) // whose batch version has no lower bound of the speeds
            {
                VT_CHECK(e < 10 * tol, "gas.batchEqualsSingle." + rsName(t), "column ", bad, " of ", nB, " differs by ", e);
                VT_CHECK(vt::close(l0, la[0], 1e-11) && vt::close(l1, la[1], 1e-11, 1e-11 * aL) && vt::close(l4, la[2], 1e-11, 1e-11 * aL), "gas.batchSpeeds." + rsName(t), l0, " ", la[0]);
            }
            VT_CHECK(ec < 10 * tol, "gas.batchConsistent." + rsName(t), ec);
        }
    }
    L().endCase(vt::str("flux", dim, " kind", kind, " mach ", int(std::log10(mach) * 3), " g", int(g * 10), meanDiffers ? " mean" : "", vg.norm() > 0 ? " vg" : ""));
}

template <int dim>
static void viscCase(vt::Rng &r, const std::string &id)
{
    constexpr int NX = dim + 4; // two extra scalars
    L().begin(id);
    real g = r.p(0.6) ? 1.4 : r.u(1.05, 2.);
    V<dim + 2> wl = primState<dim>(r, std::pow(10., r.u(-1, 1)), std::pow(10., r.u(-1, 1)), 3, g);
    V<NX> w;
    w.template head<dim + 2>() = wl;
    for (int i = dim + 2; i < NX; i++)
        w(i) = r.u(-1, 2);
    M_<dim, NX> gw; // gradient of the primitives (rho, v, p, scalars)
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < NX; j++)
            gw(i, j) = r.u(-2, 2);
    V<NX> u;
    u.template head<dim + 2>() = cons<dim>(wl, g);
    for (int i = dim + 2; i < NX; i++)
        u(i) = w(0) * w(i);
    M_<dim, NX> gu;
    for (int i = 0; i < dim; i++)
    {
        gu(i, 0) = gw(i, 0);
        real gke = 0;
        for (int j = 1; j <= dim; j++)
            gu(i, j) = gw(i, 0) * w(j) + w(0) * gw(i, j), gke += 0.5 * gw(i, 0) * w(j) * w(j) + w(0) * w(j) * gw(i, j);
        gu(i, dim + 1) = gw(i, dim + 1) / (g - 1) + gke;
        for (int j = dim + 2; j < NX; j++)
            gu(i, j) = gw(i, 0) * w(j) + w(0) * gw(i, j);
    }
    M_<dim, NX> got;
    Gas::GradientCons2Prim_IdealGas<dim>(u, gu, got, g);
    real e = (got - gw).cwiseAbs().maxCoeff();
    VT_CHECK(e < 1e-10 * (1 + gu.cwiseAbs().maxCoeff()), "visc.gradCons2Prim", e);
    M_<dim, dim> gv = Gas::GetGradVelo<dim>(u, gu);
    M_<dim, dim> gvw = gw.template block<dim, dim>(0, 1);
    VT_CHECK((gv - gvw).cwiseAbs().maxCoeff() < 1e-10 * (1 + gu.cwiseAbs().maxCoeff()), "visc.gradVelo", (gv - gvw).cwiseAbs().maxCoeff());

    V<dim> n = dir<dim>(r);
    real mu = std::pow(10., r.u(-4, 1)), k = std::pow(10., r.u(-4, 1)), Cp = r.u(0.5, 1000), mr = r.u(0, 1);
    bool adi = r.p(0.3), qcr = r.p(0.5);
    auto call = [&](const V<NX> &uu, const M_<dim, NX> &gg, const V<dim> &nn)
    {
        V<NX> F;
        F.setZero();
        F.template head<dim + 2>().setConstant(1e100);
        Gas::ViscousFlux_IdealGas<dim>(uu, gg, nn, adi, g, mu, mr, qcr, k, Cp, F);
        return F;
    };
    V<NX> F = call(u, gw, n);
    // independent
    real tau[3][3] = {}, D[3][3] = {}, div = 0;
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < dim; j++)
            D[i][j] = gw(j, i + 1); // dv_i/dx_j
    for (int i = 0; i < dim; i++)
        div += D[i][i];
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < dim; j++)
            tau[i][j] = mu * (D[i][j] + D[j][i] - (i == j ? 2. / 3 * div : 0));
    if (qcr)
    {
        real b = 0, t2[3][3] = {};
        for (int i = 0; i < dim; i++)
            for (int j = 0; j < dim; j++)
                b += D[i][j] * D[i][j];
        b = std::sqrt(b);
        for (int i = 0; i < dim; i++)
            for (int j = 0; j < dim; j++)
            {
                real c = 0;
                for (int m = 0; m < dim; m++)
                    c += (D[i][m] - D[m][i]) / b * tau[j][m] + (D[j][m] - D[m][j]) / b * tau[i][m];
                t2[i][j] = tau[i][j] - 0.3 * mr * c;
            }
        for (int i = 0; i < dim; i++)
            for (int j = 0; j < dim; j++)
                tau[i][j] = t2[i][j];
    }
    real R = (g - 1) / g * Cp, q = 0;
    for (int i = 0; i < dim; i++)
        q += k / R * (gw(i, dim + 1) / w(0) - w(dim + 1) * gw(i, 0) / (w(0) * w(0))) * n(i);
    if (adi)
        q = 0;
    V<dim + 2> W;
    W(0) = 0;
    W(dim + 1) = q;
    for (int i = 0; i < dim; i++)
    {
        W(i + 1) = 0;
        for (int j = 0; j < dim; j++)
            W(i + 1) += tau[i][j] * n(j);
        W(dim + 1) += W(i + 1) * w(i + 1);
    }
    real sc = (mu * 20 + k * 20) * (1 + w.norm()) * (1 + 1 / w(0)) * (1 + w(dim + 1) / w(0));
    VT_CHECK((F.template head<dim + 2>() - W).norm() < 1e-11 * sc, "visc.flux", "got ", F.template head<dim + 2>().transpose(), " want ", W.transpose(), " qcr ", qcr, " adiabatic ", adi);
    // rigid rotation of everything
    M_<dim, dim> Q = randRot<dim>(r);
    V<NX> u2 = u;
    u2.template segment<dim>(1) = Q * u.template segment<dim>(1);
    M_<dim, NX> g2 = Q * gw;
    g2.template block<dim, dim>(0, 1) = g2.template block<dim, dim>(0, 1) * Q.transpose();
    V<NX> F2 = call(u2, g2, V<dim>(Q * n)), F3 = F;
    F3.template segment<dim>(1) = Q * F.template segment<dim>(1);
    VT_CHECK((F2 - F3).template head<dim + 2>().norm() < 1e-11 * sc, "visc.rotation", "got ", F2.transpose(), " want ", F3.transpose());
    // a uniform or rigidly rotating flow at uniform temperature feels no friction
    M_<dim, NX> g0 = M_<dim, NX>::Zero();
    real om = r.u(-2, 2);
    g0(0, 2) = om, g0(1, 1) = -om; // v = om x r about the third axis
    V<NX> F0 = call(u, g0, n);
    VT_CHECK(F0.template head<dim + 2>().norm() < 1e-12 * sc, "visc.rigid", F0.transpose());
    // the dissipation is not negative: with gradients only, tau : grad v >= 0
    if (!qcr)
    {
        real diss = 0;
        for (int j = 0; j < dim; j++)
        {
            V<NX> ur = u;
            V<NX> Fj = call(ur, gw, V<dim>::Unit(j));
            for (int i = 0; i < dim; i++)
                diss += Fj(i + 1) * D[i][j];
        }
        VT_CHECK(diss >= -1e-12 * sc, "visc.dissipation", diss);
    }
    L().endCase(vt::str("visc", dim, adi ? " adiabatic" : "", qcr ? " qcr" : ""));
}

template <int dim>
static void compressCase(vt::Rng &r, const std::string &id)
{
    constexpr int N = dim + 3;
    L().begin(id);
    real sc = std::pow(10., r.u(-3, 3));
    real g = 1.4, mach = std::pow(10., r.u(-1, 1.3));
    V<dim + 2> w = primState<dim>(r, sc, std::pow(10., r.u(-3, 3)), mach, g);
    V<N> u, inc;
    u.template head<dim + 2>() = cons<dim>(w, g);
    u(N - 1) = r.u(0, 1);
    auto ei = [&](const V<N> &x)
    { 
        long double q = 0;
        for (int i = 1; i <= dim; i++) q += (long double)x(i) * x(i);
        return (long double)x(dim + 1) - 0.5L * q / x(0); };
    real e0 = w(dim + 1) / (g - 1);
    real target = e0 * std::pow(10., r.u(-6, -0.05));
    int kind = int(r.in(0, 4));
    int tries = 0;
    do
    {
        if (++tries > 200)
        {
            L().endCase("rejected", false);
            return;
        }
        inc.setZero();
        real amp = std::pow(10., r.u(-1.5, 1.5));
        switch (kind)
        {
        case 0: // energy only
            inc(dim + 1) = -u(dim + 1) * amp;
            break;
        case 1: // momentum only
            inc.template segment<dim>(1) = dir<dim>(r) * amp * (u.template segment<dim>(1).norm() + std::sqrt(2 * u(0) * e0));
            break;
        case 2: // density only (kinetic energy grows)
            inc(0) = -u(0) * r.u(0, 0.999);
            break;
        case 3:
            inc(0) = u(0) * r.u(-0.99, 3);
            inc.template segment<dim>(1) = dir<dim>(r) * amp * (u.template segment<dim>(1).norm() + std::sqrt(2 * u(0) * e0));
            inc(dim + 1) = u(dim + 1) * r.u(-1, 1) * amp;
            break;
        default: // towards another admissible or nearly admissible state
        {
            V<dim + 2> w2 = primState<dim>(r, sc, 1e-6, mach * 3, g);
            inc.template head<dim + 2>() = cons<dim>(w2, g) - u.template head<dim + 2>();
            inc(dim + 1) -= r.u(0, 1) * e0;
        }
        }
        inc(N - 1) = r.u(-5, 5);
    } while (!(ei(u + inc) < target && u(0) + inc(0) > 1e-6 * u(0)));
    real a0 = Gas::IdealGasGetCompressionRatioPressure<dim, 0, N>(u, inc, target);
    real a1 = Gas::IdealGasGetCompressionRatioPressure<dim, 1, N>(u, inc, target);
    real M2 = u(dim + 1) / e0 + (inc.template segment<dim>(1).squaredNorm() / u(0) + std::abs(inc(dim + 1))) / e0;
    for (real a : {a0, a1})
    {
        VT_CHECK(a >= 0 && a <= 1, "compress.range", a);
        VT_CHECK(ei(V<N>(u + a * inc)) >= target - 1e-13 * M2 * e0, "compress.admissible", "alpha ", a, " internal energy ", (double)ei(V<N>(u + a * inc)), " target ", target);
    }
    // the exact largest admissible fraction, by bisection (the admissible set is convex, so an interval)
    long double lo = 0, hi = 1;
    for (int i = 0; i < 200; i++)
    {
        long double m = (lo + hi) / 2;
        V<N> x = u + double(m) * inc;
        (ei(x) >= target ? lo : hi) = m;
    }
    VT_CHECK(a0 <= lo * (1 + 1e-6) + 1e-12 * M2, "compress.notAbove", a0, " largest ", (double)lo);
    if (M2 < 1e4 && lo > 1e-5)
        VT_CHECK(a0 >= 0.97 * lo, "compress.notTimid", "kind ", kind, " alpha ", a0, " although ", (double)lo, " is admissible");
    VT_CHECK(a1 <= lo * (1 + 1e-6) + 1e-12 * M2, "compress.estimateBelow", a1, " ", (double)lo);
    L().endCase(vt::str("compress", dim, " kind", kind));
}

// ------------------------------------------------------------------ turbulence
namespace ref // written from the models' published definitions, index by index, always in three dimensions
{
    struct In
    {
        real rho, k, w;                 // w: omega or epsilon (per mass)
        real D[3][3], gr[3], gk[3], gw[3]; // D[i][j] = du_i/dx_j
        real nu, d;
        int dim;
    };
    struct Tens
    {
        real S2 = 0, W2 = 0, div = 0; // S_ij S_ij, W_ij W_ij
        real PS = 0;                  // (2 S_ij - 2/3 div delta_ij) du_i/dx_j
    };
    Tens tens(const In &a)
    {
        Tens t;
        for (int i = 0; i < 3; i++)
            t.div += a.D[i][i];
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
            {
                real S = 0.5 * (a.D[i][j] + a.D[j][i]), W = 0.5 * (a.D[i][j] - a.D[j][i]);
                t.S2 += S * S, t.W2 += W * W;
                t.PS += (2 * S - (i == j ? 2. / 3 * t.div : 0)) * a.D[i][j];
            }
        return t;
    }
    real gkgw(const In &a) { return a.gk[0] * a.gw[0] + a.gk[1] * a.gw[1] + a.gk[2] * a.gw[2]; }
    // Menter SST 1994, vorticity form of the eddy viscosity, Kato-free production limited to 20 times destruction
    struct SST
    {
        real mut, sK, sO, dK, dO, sigK, sigO, F1;
    };
    SST sst(const In &a)
    {
        auto t = tens(a);
        SST o;
        real Om = std::sqrt(2 * t.W2);
        real arg2 = std::max(2 * std::sqrt(a.k) / (0.09 * a.w * a.d), 500 * a.nu / (a.d * a.d * a.w));
        real F2 = std::tanh(arg2 * arg2);
        real nut = 0.31 * a.k / std::max(0.31 * a.w, Om * F2);
        nut = std::min(nut, 1e5 * a.nu);
        o.mut = a.rho * nut;
        real CD = std::max(2 * a.rho * 0.856 / a.w * gkgw(a), 1e-10);
        real arg1 = std::min(std::max(std::sqrt(a.k) / (0.09 * a.w * a.d), 500 * a.nu / (a.d * a.d * a.w)), 4 * a.rho * 0.856 * a.k / (CD * a.d * a.d));
        real F1 = std::tanh(std::pow(arg1, 4));
        auto bl = [&](real x1, real x2)
        { return F1 * x1 + (1 - F1) * x2; };
        real kap = 0.41;
        real g1 = 0.075 / 0.09 - 0.5 * kap * kap / 0.3, g2 = 0.0828 / 0.09 - 0.856 * kap * kap / 0.3;
        real P = o.mut * t.PS - 2. / 3 * a.rho * a.k * t.div;
        real Pk = std::min(std::max(P, 0.), 20 * 0.09 * a.rho * a.k * a.w);
        o.sK = Pk - 0.09 * a.rho * a.k * a.w;
        o.sO = bl(g1, g2) * a.rho * t.PS - bl(0.075, 0.0828) * a.rho * a.w * a.w + 2 * (1 - F1) * a.rho * 0.856 / a.w * gkgw(a);
        o.dK = 0.09 * a.w, o.dO = 2 * bl(0.075, 0.0828) * a.w;
        o.sigK = bl(0.85, 1.), o.sigO = bl(0.5, 0.856);
        o.F1 = F1;
        return o;
    }
    struct KW
    {
        real mut, sK, sO, dK, dO;
    };
    KW wilcox(const In &a) // Wilcox 2006
    {
        auto t = tens(a);
        KW o;
        real wt = std::max(a.w, 7. / 8 * std::sqrt(2 * t.S2 / 0.09));
        o.mut = a.rho * std::min(a.k / wt, 1e5 * a.nu);
        real P = o.mut * t.PS - 2. / 3 * a.rho * a.k * t.div;
        real chi = 0;
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
                for (int m = 0; m < 3; m++)
                    chi += 0.5 * (a.D[i][j] - a.D[j][i]) * 0.5 * (a.D[j][m] - a.D[m][j]) * 0.5 * (a.D[m][i] + a.D[i][m]);
        chi = std::abs(chi / std::pow(0.09 * a.w, 3));
        real beta = 0.0708 * (1 + 85 * chi) / (1 + 100 * chi);
        real cd = gkgw(a);
        real Pk = std::min(std::max(P, 0.), 20 * 0.09 * a.rho * a.k * a.w);
        o.sK = Pk - 0.09 * a.rho * a.k * a.w;
        o.sO = 13. / 25 * a.w / a.k * P - beta * a.rho * a.w * a.w + (cd > 0 ? 0.125 * a.rho / a.w * cd : 0);
        o.dK = 0.09 * a.w, o.dO = 2 * beta * a.w;
        return o;
    }
    KW ke(const In &a) // Goldberg's realizable k-epsilon; w is epsilon
    {
        auto t = tens(a);
        KW o;
        real Ret = a.k * a.k / (a.nu * a.w);
        real Ss = 0; // |2S - 2/3 div|/sqrt2
        for (int i = 0; i < a.dim; i++) // the code takes the norm over the components of the plane in two dimensions
            for (int j = 0; j < a.dim; j++)
            {
                real s = a.D[i][j] + a.D[j][i] - (i == j ? 2. / 3 * t.div : 0);
                Ss += 0.5 * s * s;
            }
        Ss = std::sqrt(Ss);
        real fmu = (1 - std::exp(-0.01 * Ret)) / (1 - std::exp(-std::sqrt(Ret))) * std::max(1., std::sqrt(2 / Ret));
        real nut = std::min(0.09 * fmu * a.k * a.k / a.w, 2. / 3 * a.k / (Ss + 1e-300));
        o.mut = a.rho * nut; // caller applies the cap of 1e5 times the molecular viscosity
        real P = o.mut * t.PS - 2. / 3 * a.rho * a.k * t.div;
        P = std::min(P, 1.065 * 0.09 * a.rho * a.k * a.rho * a.k / o.mut);
        real T = a.k / a.w * std::max(1., std::sqrt(2 / Ret));
        real psi = 0;
        for (int i = 0; i < 3; i++)
            psi += a.gk[i] * (a.gk[i] / a.w - a.k / (a.w * a.w) * a.gw[i]);
        psi = std::max(0., psi);
        real E = 0.3 * a.rho * std::max(std::sqrt(a.k), std::pow(a.nu * a.w, 0.25)) * std::sqrt(a.w * T) * psi;
        o.sK = P - a.rho * a.w;
        o.sO = (1.44 * P - 1.92 * a.rho * a.w + E) / T;
        o.dK = 0, o.dO = 1.92 / T;
        return o;
    }
    struct SAo
    {
        real s, d, scale;
    };
    SAo sa(const In &a, bool rot) // k is nu-tilde; Spalart-Allmaras 2012 negative model, conservative form
    {
        auto t = tens(a);
        real nt = a.k, kap2 = 0.41 * 0.41, cb1 = 0.1355, cb2 = 0.622, sg = 2. / 3, cw1 = cb1 / kap2 + (1 + cb2) / sg;
        real chi = nt / a.nu;
        real Om = std::sqrt(2 * t.W2), SS = 2 * std::sqrt(t.S2); // the code's measure of the strain
        real P, D, fn = 1;
        if (nt < 0)
        {
            fn = (16 + chi * chi * chi) / (16 - chi * chi * chi);
            D = -cw1 * nt * nt / (a.d * a.d);
            P = cb1 * (1 - 1.2) * Om * nt;
            if (rot)
                P = cb1 * (1 - 1.2) * std::abs(Om + std::min(0., SS - Om)) * nt;
        }
        else
        {
            real f1 = chi * chi * chi / (chi * chi * chi + 7.1 * 7.1 * 7.1), f2 = 1 - chi / (1 + chi * f1);
            real Sb = nt / (kap2 * a.d * a.d) * f2, Sh = Om + Sb;
            if (Sb < -0.7 * Om)
                Sh = Om + Om * (0.49 * Om + 0.9 * Sb) / ((0.9 - 1.4) * Om - Sb);
            real r = std::min(nt / (Sh * kap2 * a.d * a.d), 10.);
            real gg = r + 0.3 * (std::pow(r, 6) - r), fw = gg * std::pow((1 + 64.) / (std::pow(gg, 6) + 64.), 1. / 6);
            real ft2 = 1.2 * std::exp(-0.5 * chi * chi);
            P = cb1 * (1 - ft2) * (Sh + (rot ? std::min(0., SS - Om) : 0)) * nt;
            D = (cw1 * fw - cb1 / kap2 * ft2) * nt * nt / (a.d * a.d);
        }
        real gg2 = 0, grgn = 0;
        for (int i = 0; i < 3; i++)
            gg2 += a.gk[i] * a.gk[i], grgn += a.gr[i] * a.gk[i];
        SAo o;
        o.s = a.rho * (P - D + cb2 / sg * gg2) - (a.nu + nt * fn) / sg * grgn;
        o.d = a.rho * D * 2 / (a.rho * nt);
        o.scale = a.rho * (std::abs(P) + std::abs(D) + gg2) + (a.nu + std::abs(nt)) * std::abs(grgn);
        return o;
    }
}

template <int dim>
struct TurbIn
{
    Eigen::Vector<real, dim + 4> U;
    Eigen::Matrix<real, dim, dim + 4> G;  // gradient of conservatives
    Eigen::Matrix<real, dim, dim + 4> GP; // gradient of primitives
};
template <int dim>
TurbIn<dim> pack(const ref::In &a, const real *vel, const real *ge)
{
    TurbIn<dim> t;
    t.U(0) = a.rho;
    for (int i = 0; i < dim; i++)
        t.U(i + 1) = a.rho * vel[i];
    t.U(dim + 1) = 1e5;
    t.U(dim + 2) = a.rho * a.k;
    t.U(dim + 3) = a.rho * a.w;
    for (int j = 0; j < dim; j++)
    {
        t.G(j, 0) = t.GP(j, 0) = a.gr[j];
        for (int i = 0; i < dim; i++)
            t.G(j, i + 1) = a.gr[j] * vel[i] + a.rho * a.D[i][j], t.GP(j, i + 1) = a.D[i][j];
        t.G(j, dim + 1) = t.GP(j, dim + 1) = ge[j];
        t.G(j, dim + 2) = a.gr[j] * a.k + a.rho * a.gk[j], t.GP(j, dim + 2) = a.gk[j];
        t.G(j, dim + 3) = a.gr[j] * a.w + a.rho * a.gw[j], t.GP(j, dim + 3) = a.gw[j];
    }
    return t;
}
template <int dim>
static void ransCase(vt::Rng &r, const std::string &id)
{
    L().begin(id);
    ref::In a{};
    a.dim = dim;
    a.rho = std::pow(10., r.u(-1, 1));
    a.k = std::pow(10., r.u(-3, 1));
    a.w = std::pow(10., r.u(-1, 3));
    a.nu = std::pow(10., r.u(-5, -1));
    a.d = std::pow(10., r.u(-4, 2));
    real strain = std::pow(10., r.u(-1, 3)) * (r.p(0.1) ? 0 : 1);
    bool incompressible = r.p(0.3);
    for (int i = 0; i < dim; i++)
    {
        for (int j = 0; j < dim; j++)
            a.D[i][j] = strain * r.u(-1, 1);
        a.gr[i] = r.u(-2, 2) * a.rho;
        a.gk[i] = r.u(-3, 3) * a.k;
        a.gw[i] = r.u(-3, 3) * a.w;
    }
    if (incompressible)
    {
        real d = 0;
        for (int i = 0; i < dim; i++)
            d += a.D[i][i] / dim;
        for (int i = 0; i < dim; i++)
            a.D[i][i] -= d;
    }
    real vel[3] = {r.u(-10, 10), r.u(-10, 10), r.u(-10, 10)}, ge[3] = {r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)};
    constexpr int I4 = dim + 1;
    using SV = Eigen::Vector<real, dim + 4>;
    V<dim> n = dir<dim>(r);
    struct Out
    {
        real v[20];
    };
    static const char *names[] = {"sst.mut", "sst.srcK", "sst.srcOmega", "sst.dK", "sst.dOmega", "sst.fluxK", "sst.fluxOmega",
                                  "kw.mut", "kw.srcK", "kw.srcOmega", "kw.dK", "kw.dOmega", "kw.fluxK", "kw.fluxOmega",
                                  "ke.mut", "ke.srcK", "ke.srcEps", "ke.dEps", "ke.fluxK", "ke.fluxEps"};
    auto code = [&](const ref::In &x, const real *v, const V<dim> &nn)
    {
        auto t = pack<dim>(x, v, ge);
        Out o;
        SV s;
        real muf = x.rho * x.nu;
        o.v[0] = RANS::GetMut_SST<dim>(t.U, t.G, muf, x.d);
        s.setZero(), RANS::GetSource_SST<dim>(t.U, t.G, muf, x.d, s, 0), o.v[1] = s(I4 + 1), o.v[2] = s(I4 + 2);
        s.setZero(), RANS::GetSource_SST<dim>(t.U, t.G, muf, x.d, s, 1), o.v[3] = s(I4 + 1), o.v[4] = s(I4 + 2);
        s.setZero(), RANS::GetVisFlux_SST<dim>(t.U, t.GP, nn, o.v[0], x.d, muf, s), o.v[5] = s(I4 + 1), o.v[6] = s(I4 + 2);
        o.v[7] = RANS::GetMut_KOWilcox<dim>(t.U, t.G, muf, x.d);
        s.setZero(), RANS::GetSource_KOWilcox<dim>(t.U, t.G, muf, x.d, s, 0), o.v[8] = s(I4 + 1), o.v[9] = s(I4 + 2);
        s.setZero(), RANS::GetSource_KOWilcox<dim>(t.U, t.G, muf, x.d, s, 1), o.v[10] = s(I4 + 1), o.v[11] = s(I4 + 2);
        s.setZero(), RANS::GetVisFlux_KOWilcox<dim>(t.U, t.GP, nn, o.v[7], x.d, muf, s), o.v[12] = s(I4 + 1), o.v[13] = s(I4 + 2);
        o.v[14] = RANS::GetMut_RealizableKe<dim>(t.U, t.G, muf, x.d);
        s.setZero(), RANS::GetSource_RealizableKe<dim>(t.U, t.G, muf, x.d, s, 0), o.v[15] = s(I4 + 1), o.v[16] = s(I4 + 2);
        s.setZero(), RANS::GetSource_RealizableKe<dim>(t.U, t.G, muf, x.d, s, 1), o.v[17] = s(I4 + 2);
        s.setZero(), RANS::GetVisFlux_RealizableKe<dim>(t.U, t.GP, nn, o.v[14], x.d, muf, s), o.v[18] = s(I4 + 1), o.v[19] = s(I4 + 2);
        return o;
    };
    auto refs = [&](const ref::In &x, const V<dim> &nn, Out &sc)
    {
        Out o;
        auto s = ref::sst(x);
        auto k = ref::wilcox(x);
        auto e = ref::ke(x);
        real muf = x.rho * x.nu, gkn = 0, gwn = 0, gks = 0, gws = 0;
        for (int i = 0; i < dim; i++)
            gkn += x.gk[i] * nn(i), gwn += x.gw[i] * nn(i), gks += std::abs(x.gk[i]), gws += std::abs(x.gw[i]);
        real em = std::min(e.mut, 1e5 * muf);
        real v[] = {s.mut, s.sK, s.sO, s.dK, s.dO, gkn * (muf + s.mut * s.sigK), gwn * (muf + s.mut * s.sigO),
                    k.mut, k.sK, k.sO, k.dK, k.dO, gkn * (muf + k.mut * 0.5), gwn * (muf + k.mut * 0.5),
                    em, e.sK, e.sO, e.dO, gkn * (muf + em), gwn * (muf + em / 1.3)};
        auto t = ref::tens(x);
        real S2 = t.S2 + t.W2, cg = std::abs(ref::gkgw(x));
        real c[] = {s.mut, x.rho * x.k * x.w + s.mut * S2 + x.rho * x.k * std::abs(t.div), x.rho * (x.w * x.w + S2) + x.rho / x.w * gks * gws, x.w, x.w, gks * (muf + s.mut), gws * (muf + s.mut),
                    k.mut, x.rho * x.k * x.w + k.mut * S2 + x.rho * x.k * std::abs(t.div), x.w / x.k * k.mut * S2 + x.rho * x.w * (x.w + std::abs(t.div)) + x.rho / x.w * gks * gws, x.w, x.w, gks * (muf + k.mut), gws * (muf + k.mut),
                    em, x.rho * x.w + e.mut * S2 + x.rho * x.k * std::abs(t.div), 0, e.dO, gks * (muf + em), gws * (muf + em)};
        c[16] = std::abs(e.sO) + e.dO * c[15] * 2 + e.dO * x.rho * std::sqrt(std::max(x.k, std::sqrt(x.nu * x.w))) * std::sqrt(x.k + std::sqrt(x.w * x.nu)) * (gks * gks / x.w + x.k / (x.w * x.w) * gks * gws);
        // the vortex-stretching measure is a difference of cubes: its rounding, amplified
        real chiNoise = std::min(1., 1e-10 * std::pow(S2, 1.5) / std::pow(0.09 * x.w, 3)) * 1e6;
        c[11] += chiNoise * x.w, c[9] += chiNoise * x.rho * x.w * x.w;
        for (int i = 0; i < 20; i++)
            o.v[i] = v[i], sc.v[i] = c[i] + 1e-300;
        return o;
    };
    Out sc, o = code(a, vel, n), w = refs(a, n, sc);
    for (int i = 0; i < 20; i++)
        VT_CHECK(std::abs(o.v[i] - w.v[i]) <= 1e-6 * sc.v[i], std::string("rans.") + names[i], "got ", o.v[i], " want ", w.v[i],
                 " (rho ", a.rho, " k ", a.k, " w ", a.w, " nu ", a.nu, " d ", a.d, " strain ", strain, ")");
    // eddy viscosity never negative, bounded
    for (int i : {0, 7, 14})
        VT_CHECK(o.v[i] >= 0 && o.v[i] <= 1e5 * a.rho * a.nu * (1 + 1e-12), "rans.mutRange", names[i], " ", o.v[i]);
    for (int i : {3, 4, 10, 11, 17})
        VT_CHECK(o.v[i] >= 0, "rans.implicitSign", names[i], " ", o.v[i]);
    // another inertial frame
    {
        real v2[3] = {vel[0] + r.u(-50, 50), vel[1] + r.u(-50, 50), vel[2] + r.u(-50, 50)};
        Out q = code(a, v2, n);
        for (int i = 0; i < 20; i++)
            VT_CHECK(std::abs(o.v[i] - q.v[i]) <= 1e-6 * sc.v[i], std::string("rans.galilean.") + names[i], o.v[i], " ", q.v[i]);
    }
    // rotated axes
    {
        M_<dim, dim> Q = randRot<dim>(r);
        ref::In b = a;
        M_<dim, dim> D;
        V<dim> gr, gk, gw, v;
        for (int i = 0; i < dim; i++)
        {
            gr(i) = a.gr[i], gk(i) = a.gk[i], gw(i) = a.gw[i], v(i) = vel[i];
            for (int j = 0; j < dim; j++)
                D(i, j) = a.D[i][j];
        }
        D = (Q * D * Q.transpose()).eval(), gr = (Q * gr).eval(), gk = (Q * gk).eval(), gw = (Q * gw).eval(), v = (Q * v).eval();
        real v2[3] = {0, 0, 0};
        for (int i = 0; i < dim; i++)
        {
            b.gr[i] = gr(i), b.gk[i] = gk(i), b.gw[i] = gw(i), v2[i] = v(i);
            for (int j = 0; j < dim; j++)
                b.D[i][j] = D(i, j);
        }
        Out q = code(b, v2, V<dim>(Q * n));
        for (int i = 0; i < 20; i++)
            VT_CHECK(std::abs(o.v[i] - q.v[i]) <= 1e-6 * sc.v[i], std::string("rans.rotation.") + names[i], o.v[i], " ", q.v[i]);
    }
    // Spalart-Allmaras, positive and negative branch
    for (int neg = 0; neg < 2; neg++)
        for (int rot = 0; rot < 2; rot++)
        {
            ref::In b = a;
            b.k = (neg ? -1 : 1) * a.nu * std::pow(10., r.u(-2, 3));
            for (int i = 0; i < dim; i++)
                b.gk[i] = std::abs(b.k) * r.u(-3, 3);
            real muRef = std::pow(10., r.u(-3, 0));
            // the model variable is carried in units of muRef
            auto t = pack<dim>(b, vel, ge);
            t.U(dim + 2) /= muRef;
            t.G.col(dim + 2) /= muRef;
            SV s;
            auto q = ref::sa(b, rot);
            s.setZero();
            RANS::GetSource_SA<dim>(t.U, t.G, muRef, b.rho * b.nu, 1.4, b.d, s, rot, 0);
            VT_CHECK(std::abs(s(I4 + 1) * muRef - q.s) <= 1e-7 * q.scale, vt::str("rans.sa.source", neg ? "Neg" : ""), "got ", s(I4 + 1) * muRef, " want ", q.s, " rot ", rot, " chi ", b.k / b.nu, " d ", b.d);
            s.setZero();
            RANS::GetSource_SA<dim>(t.U, t.G, muRef, b.rho * b.nu, 1.4, b.d, s, rot, 1);
            VT_CHECK(s(I4 + 1) >= 0, "rans.implicitSign", "sa ", s(I4 + 1));
            if (q.d > 1e-100)
                VT_CHECK(vt::close(s(I4 + 1), q.d, 1e-4, 1e-8 * std::abs(b.k) / (b.d * b.d)), "rans.sa.implicit", s(I4 + 1), " ", q.d);
        }
    L().endCase(vt::str(dim, " F1:", int(ref::sst(a).F1 * 4), incompressible ? " div0" : "", strain == 0 ? " still" : ""));
}

int main(int argc, char **argv)
{
    vt::start(&argc, &argv);
    int n = vt::arg(argc, argv, "--n", 100), base = vt::arg(argc, argv, "--base", 0);
    std::string mode = vt::sarg(argc, argv, "--mode", "gas");
    for (int i = 0; i < n; i++)
    {
        vt::Rng r(vt::mix(L().seed * 1000003 + base, i * 131 + L().rank));
        std::string id = vt::str(mode, " ", base, ".", i);
        bool d3 = i % 2;
        if (mode == "gas")
        {
            d3 ? fluxCase<3>(r, id + " flux3") : fluxCase<2>(r, id + " flux2");
            d3 ? viscCase<3>(r, id + " visc3") : viscCase<2>(r, id + " visc2");
            d3 ? compressCase<3>(r, id + " cmp3") : compressCase<2>(r, id + " cmp2");
        }
        else
            d3 ? ransCase<3>(r, id + " d3") : ransCase<2>(r, id + " d2");
    }
    return vt::finish();
}
