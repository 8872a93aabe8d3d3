// Monitors of the compressible flow evaluator (src/Euler/EulerEvaluator*): spatial residual, boundary states,
// time steps, wall distance, implicit operators and positivity.  Instantiated per model by h_euler_*.cpp.
#pragma once
#include "evalcase.hpp"

namespace eh
{
    using namespace ec;

    inline const char *modelName(EU::EulerModel m)
    {
        switch (m)
        {
        case EU::NS_2D: return "NS_2D";
        case EU::NS_3D: return "NS_3D";
        case EU::NS_SA: return "NS_SA";
        case EU::NS_2EQ: return "NS_2EQ";
        default: return "NS_other";
        }
    }

    inline Opt randomOpt(vt::Rng &r, int dim, bool periodicOK, bool curvedOK, int big = 0)
    {
        Opt o;
        o.dim = dim;
        bool per = periodicOK && r.p(0.45);
        int lo = per ? 3 : 2;
        for (int d = 0; d < 3; d++)
            o.n[d] = int(r.in(lo, dim == 2 ? 4 + big : 3));
        if (per)
        {
            if (r.p(0.5))
                o.sector = true, o.n[1] = std::max(3, o.n[1]), o.per[2] = dim == 3 && r.p(0.3);
            else
            {
                o.per[r.in(0, dim - 1)] = true;
                if (r.p(0.3))
                    o.per[r.in(0, 1)] = true;
            }
            for (int d = 0; d < dim; d++)
                if (o.per[d])
                    o.n[d] = std::max(o.n[d], 3);
            o.axis[0] = o.axis[1] = o.axis[2] = r.p(0.5);
        }
        else
        {
            if (r.p(0.3))
                o.pHole = 0.1;
            for (int d = 0; d < 3; d++)
                o.axis[d] = r.p(0.5);
        }
        o.pSplit = r.p(0.3) ? 0 : r.u();
        if (dim == 3)
        {
            int k = int(r.in(0, 3));
            if (k == 1)
                o.pBody = r.u(0.2, 1);
            if (k == 2)
                o.pPrism = r.u(0.2, 1);
        }
        o.pert = r.p(0.2) ? 0 : r.u(0.05, 0.2);
        if (curvedOK && r.p(0.3))
        {
            o.order = 2;
            o.curve = r.p(0.7) ? r.u(0.02, 0.06) : 0;
            o.pert = std::min(o.pert, 0.1);
            o.pBody = 0;
        }
        return o;
    }

    template <EU::EulerModel M>
    struct Run : Case<M>
    {
        using B = Case<M>;
        using B::dim;
        using B::gDim;
        using B::I4;
        using B::NV;
        using typename B::Dof;
        using typename B::Eval;
        using typename B::Rec;
        using typename B::TU;
        using typename B::VR;
        using B::bc, B::bcOf, B::e, B::far, B::gamma, B::m, B::mpi, B::omega, B::ref, B::rot, B::rotC, B::set, B::spec, B::st, B::v, B::what;
        using TVec = typename Eval::TVec;
        using TDiffU = typename Eval::TDiffU;
        static constexpr bool SA = M == EU::NS_SA || M == EU::NS_SA_3D, KE = M == EU::NS_2EQ || M == EU::NS_2EQ_3D;
        std::string desc;
        double t = 0;

        Run(const DNDS::MPIInfo &mp_, const Opt &o, vt::Rng &r, const std::string &w) : B(mp_, o, r, w) {}

        // mesh + reconstruction; false when the mesh could not be used
        bool base(vt::Rng &r, const std::vector<std::string> &kinds, int maxOrd = 3, bool anyFrame = false)
        {
            this->boundaries(r, kinds);
            (void)anyFrame;
            if (!this->mesh(r))
                return false;
            int ord = int(r.in(1, maxOrd));
            uint64_t s0 = r.next();
            this->reconstruction(
                [&](DNDS::CFV::VRSettings &s)
                {
                    vt::Rng q(s0);
                    s.maxOrder = ord;
                    s.intOrder = spec.opt.order == 2 ? 5 : (q.p(0.4) ? 3 : 5);
                    s.cacheDiffBase = q.p(0.5);
                    s.cacheDiffBaseSize = q.p(0.5) ? uint8_t(gDim + 1) : uint8_t(q.p(0.5) ? 255 : 1);
                    s.baseSettings.localOrientation = q.p(0.4);
                    s.baseSettings.anisotropicLengths = q.p(0.4);
                },
                false);
            desc = vt::str("O", ord);
            return true;
        }
        // a random frame of reference: only where the mesh allows it
        void frameOf(vt::Rng &r, double prob)
        {
            bool trans = false;
            for (int d = 0; d < (spec.opt.sector ? 2 : 3); d++)
                trans = trans || (spec.opt.per[d] && d < spec.dim);
            if (trans || !r.p(prob))
                return;
            rot = true;
            Eigen::Vector3d ax(0, 0, 1);
            if (!spec.opt.sector && spec.dim == 3)
                ax = Eigen::Vector3d(r.u(-1, 1), r.u(-1, 1), r.u(0.2, 1)).normalized();
            if (spec.opt.sector)
                rotC = Eigen::Vector3d(spec.rotC[0], spec.rotC[1], spec.rotC[2]);
            else
                rotC = Eigen::Vector3d(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
            double rpm = r.u(-20, 20);
            omega = ax * rpm * 2 * M_PI / 60;
            double sc = r.u(0.5, 2);
            set["frameConstRotation"]["enabled"] = true;
            set["frameConstRotation"]["axis"] = std::vector<double>{ax[0] * sc, ax[1] * sc, ax[2] * sc};
            set["frameConstRotation"]["center"] = std::vector<double>{rotC[0], rotC[1], rotC[2]};
            set["frameConstRotation"]["rpm"] = rpm;
        }
        struct GasP
        {
            double mu = 0, pr = 0.7, R = 1, TRef = 1, CS = 0.4;
            int model = 0;
        } gas;
        void gasOf(vt::Rng &r, bool viscous)
        {
            gamma = r.p(0.5) ? 1.4 : r.u(1.2, 1.7);
            gas.R = r.p(0.5) ? 1 : r.u(0.5, 2);
            gas.mu = viscous ? r.u(0.01, 0.3) : 0;
            gas.pr = r.u(0.5, 1.2), gas.TRef = r.u(0.5, 2), gas.CS = r.u(0.1, 1);
            gas.model = int(r.in(0, 2));
            auto &j = set["idealGasProperty"];
            j["gamma"] = gamma, j["Rgas"] = gas.R, j["muGas"] = gas.mu, j["prGas"] = gas.pr, j["TRef"] = gas.TRef, j["CSutherland"] = gas.CS, j["muModel"] = gas.model;
        }
        double press(const TU &u) const
        {
            double k = 0;
            for (int d = 0; d < dim; d++)
                k += u(1 + d) * u(1 + d);
            return (gamma - 1) * (u(I4) - 0.5 * k / u(0));
        }
        double Cp() const { return gas.R * gamma / (gamma - 1); }
        double muOf(const TU &u) const
        {
            double T = press(u) / (gas.R * u(0));
            if (gas.model == 0)
                return gas.mu;
            if (gas.model == 2)
                return gas.mu * u(0);
            return gas.mu * std::pow(T / gas.TRef, 1.5) * (gas.TRef + gas.CS) / (T + gas.CS);
        }
        TVec vGrid(const Pt &x) const
        {
            TVec o = TVec::Zero();
            if (rot)
            {
                Eigen::Vector3d q = omega.cross(x - rotC);
                for (int d = 0; d < dim; d++)
                    o[d] = q[d];
            }
            return o;
        }
        TU withVelo(const TU &u, const TVec &vel) const // same density and internal energy, other velocity
        {
            TU o = u;
            double k0 = 0, k1 = 0;
            for (int d = 0; d < dim; d++)
                k0 += u(1 + d) * u(1 + d) / u(0), k1 += vel[d] * vel[d] * u(0), o(1 + d) = u(0) * vel[d];
            o(I4) = u(I4) - 0.5 * k0 + 0.5 * k1;
            return o;
        }
        static TVec velo(const TU &u)
        {
            TVec o;
            for (int d = 0; d < dim; d++)
                o[d] = u(1 + d) / u(0);
            return o;
        }
        // conservative state of primitive (rho, v, p, scalars per mass)
        TU cons(double rho, const TVec &vel, double p, const TU &like) const
        {
            TU o = like;
            o(0) = rho;
            double k = 0;
            for (int d = 0; d < dim; d++)
                o(1 + d) = rho * vel[d], k += vel[d] * vel[d];
            o(I4) = p / (gamma - 1) + 0.5 * rho * k;
            for (int i = I4 + 1; i < NV; i++)
                o(i) = like(i) / like(0) * rho;
            return o;
        }
        // the state outside boundary `id`, written from the meaning of each condition
        TU ghost(int id, TU &UL, const TU &ULm, idx iCell, const TVec &n, const Pt &x, bool fixUL)
        {
            std::string k = id == G::BC_ID_DEFAULT_WALL ? "BCWall" : id == G::BC_ID_DEFAULT_FAR      ? "BCFar"
                                                                 : id == G::BC_ID_DEFAULT_WALL_INVIS ? "BCWallInvis"
                                                                                                     : bcOf.at(id)["type"].template get<std::string>();
            TU val = far;
            int frameOpt = 0;
            if (bcOf.count(id))
            {
                auto &j = bcOf.at(id);
                if (j.count("value"))
                    for (int i = 0; i < NV; i++)
                        val(i) = j["value"][i].template get<double>();
                if (j.count("frameOption"))
                    frameOpt = j["frameOption"];
            }
            L().count("ghost:" + k);
            TVec vl = velo(UL), vg = vGrid(x);
            double pl = press(UL), a = std::sqrt(gamma * pl / UL(0)), un = (vl - vg).dot(n);
            if (k == "BCFar" && rot && frameOpt)
            { // a wind fixed in the resting frame, seen in rotating axes
                Eigen::Vector3d w(0, 0, 0);
                for (int d = 0; d < dim; d++)
                    w[d] = val(1 + d);
                double an = -omega.norm() * t;
                Eigen::Vector3d ax = omega.norm() > 0 ? Eigen::Vector3d(omega.normalized()) : Eigen::Vector3d(0, 0, 1);
                w = Eigen::AngleAxisd(an, ax) * w;
                for (int d = 0; d < dim; d++)
                    val(1 + d) = w[d];
            }
            if (k == "BCFar" || k == "BCOutP")
            {
                L().count(un > a ? "far:out-supersonic" : un > 0 ? "far:out-subsonic"
                                                      : un > -a  ? "far:in-subsonic"
                                                                 : "far:in-supersonic");
                if (un > a)
                    return UL;
                if (un > 0)
                    return cons(UL(0), vl, press(val), UL);
                if (un > -a)
                    return cons(val(0), velo(val), pl, val);
                return val;
            }
            if (k == "BCWallInvis" || k == "BCSym")
            { // mirrored in the frame of the wall (the mean normal of a curved face may be shorter than one)
                TU w = withVelo(UL, vl - vg);
                for (int d = 0; d < dim; d++)
                    w(1 + d) -= 2 * UL(0) * un * n[d];
                return withVelo(w, velo(w) + vg);
            }
            if (k == "BCWall")
            {
                TU o = withVelo(UL, frameOpt ? TVec(-vl) : TVec(2 * vg - vl));
                if constexpr (SA)
                {
                    o(I4 + 1) = -UL(I4 + 1);
                    if (fixUL)
                        UL(I4 + 1) = o(I4 + 1) = 0;
                }
                if constexpr (KE)
                {
                    o(I4 + 1) = -UL(I4 + 1);
                    double d1 = e->dWall[iCell].mean(), mu = muOf(ULm);
                    if (e->settings.ransModel == EU::RANS_RKE)
                        o(I4 + 2) = 2 * (2 * mu / ULm(0) * ULm(I4 + 1) / ULm(0) / (d1 * d1)) * UL(0) - UL(I4 + 2);
                    else
                        o(I4 + 2) = 2 * (800 * mu / (d1 * d1)) - UL(I4 + 2);
                }
                return o;
            }
            if (k == "BCOut")
                return UL;
            if (k == "BCIn")
                return val;
            if (k == "BCInPsTs")
            {
                double p0 = val(0), T0 = val(1), q2 = std::min(vl.squaredNorm(), 0.95 * 2 * Cp() * T0);
                double T = T0 - 0.5 * q2 / Cp(), p = p0 * std::pow(T / T0, gamma / (gamma - 1)), rho = p / (gas.R * T);
                TVec dir;
                for (int d = 0; d < dim; d++)
                    dir[d] = val(2 + d);
                dir *= std::sqrt(q2) / dir.norm();
                TU like = val;
                like(0) = 1; // the scalars of this condition are given per mass
                return cons(rho, dir, p, like);
            }
            VT_CHECK(false, "harness", "unknown boundary ", k);
            return UL;
        }
        EU::EulerBCType typeOf(int id) { return bc->GetTypeFromID(id); }

        // ---- fields
        void randomFields(Dof &u, Rec &rec, uint64_t s, double amp, double mach = 1.0, double spread = 1)
        {
            v->BuildUDof(u, NV), v->BuildURec(rec, NV);
            vt::Rng q0(s + 31);
            TU x0 = B::randState(q0, gamma, mach);
            if (spec.opt.sector)
                x0(1) = x0(2) = 0;
            for (idx i = 0; i < m->NumCell(); i++)
            {
                vt::Rng q(vt::mix(s, st.cell[i]));
                TU x = B::randState(q, gamma, mach);
                u[i] = x0 + (x - x0) * spread;
            }
            randomRec(u, rec, s + 1, amp);
            pull(u);
        }
        void randomRec(Dof &u, Rec &rec, uint64_t s, double amp)
        {
            for (idx i = 0; i < m->NumCell(); i++)
            {
                vt::Rng q(vt::mix(s, st.cell[i]));
                auto R = rec[i];
                for (int a = 0; a < R.rows(); a++)
                    for (int b = 0; b < R.cols(); b++)
                        R(a, b) = q.u(-1, 1);
                // keep the reconstructed states physical
                double mx = 1e-30;
                auto up = [&](const Mat &w)
                {
                    mx = std::max(mx, w.cwiseAbs().maxCoeff());
                };
                for (auto f : m->cell2face[i])
                    for (int g = -1; g < v->GetFaceQuad(f).GetNumPoints(); g++)
                        up(v->GetIntPointDiffBaseValue(i, f, v->CellIsFaceBack(i, f) ? 0 : 1, g, std::array<int, 1>{0}, 1) * R);
                for (int g = 0; g < v->GetCellQuad(i).GetNumPoints(); g++)
                    up(v->GetIntPointDiffBaseValue(i, -1, -1, g, std::array<int, 1>{0}, 1) * R);
                TU x = u[i];
                double p = press(x);
                for (int b = 0; b < NV; b++)
                {
                    double sc = b == 0 ? x(0) : b <= dim ? std::sqrt(p * x(0)) : b == I4 ? p
                                                                                    : std::abs(x(b));
                    R.col(b) *= amp * sc / mx;
                }
            }
            pull(rec);
        }
        template <class A>
        static void pull(A &a)
        {
            a.trans.startPersistentPull();
            a.trans.waitPersistentPull();
        }

        // ---- reference flux through a face, seen from its first cell (positive along the face normal)
        struct FF
        {
            Mat F, n, lam;
            Vx w;
            Vx total;
            double tol = 1e-9;
        };
        struct How
        {
            bool ignoreVis = false, o1 = false, first = false;
        };
        Gas::RiemannSolverType rs(const char *key)
        {
            return set[key].template get<Gas::RiemannSolverType>();
        }
        FF faceFlux(idx f, Dof &u, Rec &recU, Rec &rec, const How &h)
        {
            FF o;
            auto c2 = m->face2cell[f];
            idx i = c2[0], j = c2[1];
            auto q = h.o1 ? v->GetFaceQuadO1(f) : v->GetFaceQuad(f);
            int nq = q.GetNumPoints(), id = m->GetFaceZone(f);
            auto T = j == DNDS::UnInitIndex ? typeOf(id) : EU::BCUnknown;
            o.F.setZero(NV, nq), o.n.setZero(dim, nq), o.lam.setZero(3, nq), o.w.setZero(nq);
            Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
            if (j != DNDS::UnInitIndex)
                R = this->frame(f, i, 0, j);
            auto normal = [&](int g)
            {
                Pt p = v->GetFaceNorm(f, g);
                TVec n;
                for (int d = 0; d < dim; d++)
                    n[d] = p[d];
                return n;
            };
            auto value = [&](idx c, int side, int g, Rec &a) -> TU
            {
                TU x = u[c];
                if (h.o1 && !h.first)
                {
                    Pt dx = v->GetFaceQuadraturePPhysFromCell(f, c, side, -1) - v->GetCellQuadraturePPhys(c, -1);
                    Mat gr = e->uGradBuf[c];
                    for (int d = 0; d < gDim; d++)
                        x += dx[d] * gr.row(d).transpose();
                }
                else if (!h.first)
                    x += (v->GetIntPointDiffBaseValue(c, f, side, g, std::array<int, 1>{0}, 1) * a[c]).transpose();
                if (side)
                    B::turn(x, R);
                return x;
            };
            auto grad = [&](idx c, int side, int g) -> TDiffU
            {
                TDiffU D;
                D.setZero();
                if (h.first)
                    return D;
                Mat gr;
                if (h.o1)
                    gr = e->uGradBuf[c];
                else if constexpr (gDim == 2)
                    gr = v->GetIntPointDiffBaseValue(c, f, side, g, std::array<int, 2>{1, 2}, 3) * recU[c];
                else
                    gr = v->GetIntPointDiffBaseValue(c, f, side, g, std::array<int, 3>{1, 2, 3}, 4) * recU[c];
                D.topRows(gDim) = gr;
                if (side)
                {
                    Mat Rd = R.topLeftCorner(dim, dim);
                    D = (Rd * D).eval();
                    for (int a = 0; a < dim; a++)
                    {
                        Vx x = Rd * D.row(a).segment(1, dim).transpose();
                        D.row(a).segment(1, dim) = x.transpose();
                    }
                }
                return D;
            };
            TU mL = u[i], mR;
            TVec nC = normal(-1);
            Pt xC = v->GetFaceQuadraturePPhys(f, -1);
            if (j != DNDS::UnInitIndex)
            {
                mR = u[j];
                B::turn(mR, R);
            }
            else
            {
                TU tmp = mL;
                mR = ghost(id, tmp, mL, i, nC, xC, false);
            }
            double vol = v->GetCellVol(i), dB = 0;
            if (j != DNDS::UnInitIndex)
            {
                vol = std::min(vol, v->GetCellVol(j));
                Pt bj = v->GetCellBary(j), d;
                // the neighbour's barycentre in this cell's copy of the domain
                Pt xi = v->GetFaceQuadraturePPhysFromCell(f, i, 0, -1), xj = v->GetFaceQuadraturePPhysFromCell(f, j, 1, -1);
                d = R * (bj - xj) + xi - v->GetCellBary(i);
                dB = d.norm();
            }
            else
                dB = 2 * (v->GetFaceQuadraturePPhysFromCell(f, i, 0, -1) - v->GetCellBary(i)).norm();
            double dist = h.first ? dB : 2 * vol / v->GetFaceArea(f);
            bool noPen = T == EU::BCWallInvis || T == EU::BCSym || (T == EU::BCWall && set["noGRPOnWall"].template get<bool>() && !h.first);
            bool noVis = T == EU::BCWallInvis || T == EU::BCOut || T == EU::BCFar || T == EU::BCSpecial || T == EU::BCSym;
            Mat UL(NV, nq), UR(NV, nq), vg(dim, nq), Fv = Mat::Zero(NV, nq);
            DNDS::Geom::Elem::SummationNoOp noOp;
            q.IntegrationSimple(
                noOp,
                [&](auto &, int k, real w)
                {
                    int g = h.o1 ? -1 : k;
                    o.w[k] = w * (h.o1 ? v->GetFaceArea(f) / v->GetFaceParamArea(f) : v->GetFaceJacobiDet(f, k));
                    TVec n = normal(g);
                    o.n.col(k) = n;
                    Pt x = v->GetFaceQuadraturePPhys(f, g);
                    vg.col(k) = vGrid(x);
                    TU a = value(i, 0, g, rec), b, aU = h.o1 ? a : value(i, 0, g, recU), bU;
                    TDiffU ga = grad(i, 0, g), gb = ga;
                    if (j != DNDS::UnInitIndex)
                        b = value(j, 1, g, rec), bU = h.o1 ? b : value(j, 1, g, recU), gb = grad(j, 1, g);
                    else
                    {
                        if (&recU == &rec)
                            aU = a;
                        TU a0 = a;
                        b = ghost(id, a, mL, i, n, x, true), bU = b;
                        (void)a0;
                    }
                    TU um = 0.5 * (a + b);
                    TDiffU D = 0.5 * (ga + gb), P;
                    if (!noPen)
                        D += n * (bU - aU).transpose() / dist;
                    if (set["usePrimGradInVisFlux"].template get<int>())
                    {
                        TDiffU pa, pb;
                        Gas::GradientCons2Prim_IdealGas<dim>(a, ga, pa, gamma), Gas::GradientCons2Prim_IdealGas<dim>(b, gb, pb, gamma);
                        P = 0.5 * (pa + pb);
                        TU wa = a, wb = b;
                        prim(wa), prim(wb);
                        if (!noPen)
                            P += n * (wb - wa).transpose() / dist;
                    }
                    else
                        Gas::GradientCons2Prim_IdealGas<dim>(um, D, P, gamma);
                    if (noVis || h.ignoreVis)
                        D.setZero(), P.setZero();
                    if (!h.ignoreVis)
                    {
                        TU um2 = um;
                        if (T == EU::BCWall && set["noRsOnWall"].template get<bool>())
                            um2 = withVelo(a, TVec::Zero());
                        double mu = muOf(um2), mut = e->getMuTur(um2, D, gas.mu, mu, f), tot = mu + mut;
                        TU vf = TU::Zero();
                        Gas::ViscousFlux_IdealGas<dim>(um2, P, n, T == EU::BCWall, gamma, tot, mut / (tot + 1e-200), set["ransUseQCR"].template get<int>(), Cp() * (mut / 0.9 + mu / gas.pr), Cp(), vf);
                        e->visFluxTurVariable(um2, P, gas.mu, mu, mut, n, f, vf);
                        Fv.col(k) = vf;
                    }
                    if (T == EU::BCWall && set["noRsOnWall"].template get<bool>())
                        a = b = withVelo(a, TVec::Zero());
                    UL.col(k) = a, UR.col(k) = b;
                });
            auto type = rs("riemannSolverType");
            if (T == EU::BCWall && rs("riemannSolverTypeWall") != Gas::UnknownRS)
                type = rs("riemannSolverTypeWall");
            auto dump = []() {};
            double dl = e->deltaLambdaFace[f];
            bool meanEig = set["rsMeanValueEig"].template get<int>() != 0;
            TVec vgC = vGrid(xC);
            auto solve = [&](Gas::RiemannSolverType ty, const Mat &N, const TVec &Nc, Mat &F, Mat &lam)
            {
                F.setZero(NV, nq), lam.setZero(3, nq);
                if (meanEig && ty >= Gas::Roe_M1 && ty <= Gas::Roe_M5)
                {
                    typename Eval::TU_Batch a = UL, b = UR, Fo;
                    Fo.resizeLike(a);
                    typename Eval::TVec_Batch g = vg, nn = N;
                    double l0 = 0, l1 = 0, l4 = 0;
                    Gas::InviscidFlux_IdealGas_Batch_Dispatcher<dim>(ty, a, b, mL, mR, g, vgC, nn, Nc, gamma, Fo, dl, dump, l0, l1, l4);
                    F.topRows(I4 + 1) = Fo.topRows(I4 + 1);
                    lam.row(0).setConstant(l0), lam.row(1).setConstant(l1), lam.row(2).setConstant(l4);
                }
                else
                    for (int k = 0; k < nq; k++)
                    {
                        TU a = UL.col(k), b = UR.col(k), Fo = TU::Zero();
                        TVec g = vg.col(k), nn = N.col(k);
                        double l0 = 0, l1 = 0, l4 = 0;
                        Gas::InviscidFlux_IdealGas_Dispatcher<dim>(ty, a, b, mL, mR, g, nn, gamma, Fo, dl, dump, l0, l1, l4);
                        F.col(k) = Fo;
                        lam(0, k) = l0, lam(1, k) = l1, lam(2, k) = l4;
                    }
            };
            Mat F, lam;
            TVec dv = velo(mR) - velo(mL);
            if (set["rsRotateScheme"].template get<int>() == 0 || dv.norm() < 1e-9)
                solve(type, o.n, nC, F, lam);
            else
            {
                TVec N1 = dv / dv.norm();
                if (N1.dot(nC) < 0)
                    N1 = -N1;
                auto aux = rs("riemannSolverTypeAux") == Gas::UnknownRS ? type : rs("riemannSolverTypeAux");
                Mat N1B = N1.replicate(1, nq), N2 = o.n, F1, F2, lam1, lam2;
                Vx p1(nq), p2(nq);
                int nDeg = 0;
                for (int k = 0; k < nq; k++)
                {
                    p1[k] = N1.dot(o.n.col(k));
                    N2.col(k) -= N1 * p1[k];
                    p2[k] = N2.col(k).norm();
                    nDeg += p2[k] < 1e-6;
                }
                TVec N2C = nC - N1 * N1.dot(nC);
                solve(aux, N1B, N1, F1, lam1);
                if (nDeg == 0 && N2C.norm() > 1e-6)
                {
                    for (int k = 0; k < nq; k++)
                        N2.col(k) /= p2[k];
                    N2C /= N2C.norm();
                    solve(type, N2, N2C, F2, lam2);
                }
                else if (nDeg == nq) // the second direction is undefined and has no weight
                    o.tol = 1e-4, p2.setZero(), F2.setZero(NV, nq), lam2.setZero(3, nq);
                else
                    o.tol = 1e300, F2.setZero(NV, nq), lam2.setZero(3, nq);
                F.setZero(NV, nq), lam.setZero(3, nq);
                for (int k = 0; k < nq; k++)
                {
                    F.col(k) = p1[k] * F1.col(k) + p2[k] * F2.col(k);
                    lam.col(k) = (p1[k] * lam1.col(k) + p2[k] * lam2.col(k)) / (p1[k] + p2[k]);
                }
                // a contact at rest on the face: the side HLLC takes is a matter of rounding
                if ((aux == Gas::HLLC) && (T == EU::BCWall || T == EU::BCWallInvis || T == EU::BCSym))
                    o.tol = 1e300;
                L().count("rotated-faces");
            }
            // a contact at rest on the face: the side HLLC takes is a matter of rounding
            if (type == Gas::HLLC && (T == EU::BCWall || T == EU::BCWallInvis || T == EU::BCSym))
                o.tol = 1e300;
            if constexpr (SA || KE)
                for (int k = 0; k < nq; k++)
                {
                    double l = lam(1, k);
                    if (set["ransEigScheme"].template get<int>() == 1)
                        l = std::max({l, lam(0, k), lam(2, k)});
                    TU a = UL.col(k), b = UR.col(k);
                    TVec g = vg.col(k), n = o.n.col(k);
                    double va = (velo(a) - g).dot(n), vb = (velo(b) - g).dot(n);
                    for (int s = I4 + 1; s < NV; s++)
                        F(s, k) = 0.5 * (va * a(s) + vb * b(s)) - 0.5 * l * (b(s) - a(s));
                    if constexpr (KE)
                    { // the isotropic part of the Reynolds stress acts as a pressure
                        TU um = 0.5 * (a + b);
                        double pk = 2. / 3. * um(I4 + 1);
                        F.col(k).segment(1, dim) += pk * n;
                        F(I4, k) += pk * velo(um).dot(n);
                    }
                }
            o.lam = lam;
            o.F = F - Fv;
            o.total = o.F * o.w;
            return o;
        }
        void prim(TU &w) const
        {
            double p = press(w), r0 = w(0);
            for (int d = 0; d < dim; d++)
                w(1 + d) /= r0;
            w(I4) = p;
            for (int i = I4 + 1; i < NV; i++)
                w(i) /= r0;
        }
        TU sourceOf(idx i, Dof &u, Rec &recU, Rec &rec, const How &h)
        {
            TU s = TU::Zero();
            auto q = h.o1 ? v->GetCellQuadO1(i) : v->GetCellQuad(i);
            Eigen::Vector3d fm(0, 0, 0);
            for (int d = 0; d < 3; d++)
                fm[d] = set["constMassForce"][d].template get<double>();
            q.IntegrationSimple(
                s,
                [&](TU &inc, int k)
                {
                    int g = h.o1 ? -1 : k;
                    TU x = u[i];
                    if (!h.o1)
                        x += (v->GetIntPointDiffBaseValue(i, -1, -1, g, std::array<int, 1>{0}, 1) * rec[i]).transpose();
                    inc.setZero();
                    Eigen::Vector3d mom(0, 0, 0);
                    for (int d = 0; d < dim; d++)
                        inc(1 + d) += fm[d] * x(0), inc(I4) += fm[d] * x(1 + d), mom[d] = x(1 + d);
                    if (rot)
                    {
                        Eigen::Vector3d c = -omega.cross(mom);
                        for (int d = 0; d < dim; d++)
                            inc(1 + d) += c[d];
                    }
                    if constexpr (SA || KE)
                    {
                        TDiffU D;
                        D.setZero();
                        if (h.o1)
                            D.topRows(gDim) = e->uGradBufNoLim[i];
                        else if constexpr (gDim == 2)
                            D.topRows(gDim) = v->GetIntPointDiffBaseValue(i, -1, -1, g, std::array<int, 2>{1, 2}, 3) * recU[i];
                        else
                            D.topRows(gDim) = v->GetIntPointDiffBaseValue(i, -1, -1, g, std::array<int, 3>{1, 2, 3}, 4) * recU[i];
                        double dw = g < 0 ? e->dWall[i].mean() : e->dWall[i][g], mu = muOf(x);
                        TU src = TU::Zero();
                        if constexpr (SA)
                        {
                            double dd = std::min(std::min(dw, std::pow(DNDS::veryLargeReal, 1. / 6.)), v->GetCellMaxLenScale(i) * set["SADESScale"].template get<double>());
                            EU::RANS::GetSource_SA<dim>(x, D, gas.mu, mu, gamma, dd, src, set["ransSARotCorrection"].template get<int>(), 0);
                        }
                        if constexpr (KE)
                        {
                            if (e->settings.ransModel == EU::RANS_KOSST)
                                EU::RANS::GetSource_SST<dim>(x, D, mu, dw, src, 0);
                            else if (e->settings.ransModel == EU::RANS_KOWilcox)
                                EU::RANS::GetSource_KOWilcox<dim>(x, D, mu, dw, src, 0);
                            else
                                EU::RANS::GetSource_RealizableKe<dim>(x, D, mu, dw, src, 0);
                        }
                        inc += src;
                    }
                    inc *= h.o1 ? v->GetCellVol(i) / v->GetCellParamVol(i) : v->GetCellJacobiDet(i, k);
                });
            return s / v->GetCellVol(i);
        }

        void randomFlow(vt::Rng &r, bool viscousOK = true)
        {
            this->settings(r);
            gasOf(r, viscousOK && r.p(0.6));
            if (SA || KE)
                gas.mu = std::max(gas.mu, 0.01), set["idealGasProperty"]["muGas"] = gas.mu;
            frameOf(r, 0.4);
            TU f = B::randState(r, gamma, 1.0);
            if (spec.opt.sector)
                f(1) = f(2) = 0;
            this->setFar(f);
            static const char *names[] = {"Roe", "HLLC", "HLLEP", "HLLEP_V1", "Roe_M1", "Roe_M2", "Roe_M3", "Roe_M4", "Roe_M5"};
            set["riemannSolverType"] = names[r.in(0, 8)];
            if (r.p(0.3))
                set["riemannSolverTypeAux"] = names[r.in(0, 8)];
            if (r.p(0.3))
                set["riemannSolverTypeWall"] = names[r.in(0, 8)];
            set["rsMeanValueEig"] = int(r.p(0.5));
            set["rsRotateScheme"] = int(r.p(0.35));
            set["noGRPOnWall"] = r.p(0.3);
            set["noRsOnWall"] = !rot && !SA && !KE && r.p(0.2);
            set["usePrimGradInVisFlux"] = int(r.p(0.4));
            set["useRoeJacobian"] = r.p(0.4);
            set["wallDistScheme"] = int(r.in(0, 2));
            if (r.p(0.3))
                set["ransUseQCR"] = 1;
            if (SA)
                set["ransSARotCorrection"] = int(r.in(0, 1)), set["ransEigScheme"] = int(r.in(0, 1));
            if (KE)
                set["ransModel"] = r.p(0.34) ? "RANS_KOSST" : r.p(0.5) ? "RANS_KOWilcox"
                                                                       : "RANS_RKE",
                set["ransEigScheme"] = int(r.in(0, 1));
            if (r.p(0.4))
            {
                std::vector<double> f3{r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)};
                if (spec.opt.sector)
                    f3[0] = f3[1] = 0;
                if (gDim == 2)
                    f3[2] = 0;
                set["constMassForce"] = f3;
            }
            desc += vt::str(" ", set["riemannSolverType"].template get<std::string>(), set["rsMeanValueEig"].template get<int>() ? "m" : "", set["rsRotateScheme"].template get<int>() ? "r" : "", " mu", gas.model, "/", gas.mu > 0, " rot", rot, " pg", set["usePrimGradInVisFlux"].template get<int>());
        }
        void giveFrameOptions(vt::Rng &r)
        { // custom walls and far fields: fixed in the rotating or the resting frame
            bool any = false;
            for (auto &j : this->bcJson)
            {
                std::string k = j["type"];
                if (k == "BCWall" || k == "BCFar")
                    if (r.p(0.4))
                        j["frameOption"] = 1, any = true;
            }
            if (!any)
                return;
            int id = G::BC_ID_DEFAULT_MAX;
            for (auto &j : this->bcJson)
                bcOf[id++] = j;
            this->bc = std::make_shared<EU::BoundaryHandler<M>>(NV);
            from_json(this->bcJson, *this->bc);
        }
    };

    static const std::vector<std::string> ALL{"WALL", "FAR", "WALL_INVIS", "BCFar", "BCOutP", "BCWall", "BCWallInvis", "BCOut", "BCIn", "BCInPsTs", "BCSym"};

    // ---------------------------------------------------------------- residual
    template <EU::EulerModel M>
    void rhsCase(const DNDS::MPIInfo &mpi, vt::Rng &r, int id, bool proj)
    {
        using C = Run<M>;
        constexpr int NV = C::NV, dim = C::dim, I4 = C::I4;
        using TU = typename C::TU;
        Opt o = randomOpt(r, C::gDim, true, true);
        L().begin(vt::str(proj ? "residual (projections) " : "residual ", modelName(M), " ", o.str(), " np", mpi.size, " #", id));
        C R(mpi, o, r, L().curCase);
        int fk = int(r.in(0, 5));
        // gradients taken from the means: boundaries that keep the flow near the inner state
        static const std::vector<std::string> mild{"WALL_INVIS", "BCWallInvis", "BCOut", "BCSym", "WALL", "BCWall"}, mildKE{"WALL_INVIS", "BCWallInvis", "BCOut", "BCSym"};
        if (!R.base(r, fk == 2 ? (C::KE || C::SA ? mildKE : mild) : ALL))
            return;
        R.randomFlow(r);
        if (R.rot)
            R.giveFrameOptions(r);
        R.t = r.u(0, 3);
        R.evaluator();
        auto &V = *R.v;
        auto &E = *R.e;
        auto &m = *R.m;
        typename C::Dof u, rhs;
        typename C::Rec recL, recU;
        DNDS::Euler::ArrayDOFV<1> beta, alpha, dt;
        V.BuildUDof(rhs, NV), V.BuildUDof(beta, 1), V.BuildUDof(alpha, 1), V.BuildUDof(dt, 1);
        beta.setConstant(1.0), alpha.setConstant(1.0);
        uint64_t s0 = r.next();
        typename C::How h;
        uint64_t flags = 0;
        if (fk == 1)
            flags |= C::Eval::RHS_Ignore_Viscosity, h.ignoreVis = true;
        if (fk == 2)
            flags |= C::Eval::RHS_Direct_2nd_Rec, h.o1 = true;
        if (fk == 3)
            flags |= C::Eval::RHS_Direct_2nd_Rec | C::Eval::RHS_Direct_2nd_Rec_1st_Conv, h.o1 = h.first = true;
        if (h.o1 && o.sector)
            flags = 0, h = typename C::How(); // the second-order gradient is not exercised across rotational periodicity here
        double mach = r.p(0.3) ? 2.5 : r.p(0.3) ? 0.1
                                                : 1.0;
        if (fk == 2)
            mach = 0.2;
        R.randomFields(u, recL, s0, 0.05, mach, h.o1 && !h.first ? 0.03 : 1); // gradients taken from the means stay physical
        bool two = r.p(0.4);
        if (two)
        {
            V.BuildURec(recU, NV);
            R.randomRec(u, recU, s0 + 9, 0.05);
        }
        auto &rU = two ? recU : recL;
        if (r.p(0.4))
            for (idx i = 0; i < m.NumCell(); i++)
            {
                vt::Rng q(vt::mix(s0 + 5, R.st.cell[i]));
                alpha[i](0) = q.p(0.5) ? 1 : q.u(0.2, 1);
            }
        C::pull(alpha);
        EU::JacobianDiagBlock<NV> J;
        J.SetModeAndInit(int(r.in(0, 1)), NV, u);
        double dtMin = 0;
        E.EvaluateDt(dt, u, rU, 0.5, dtMin, 1e10, true);
        if (h.first)
        {
            for (idx i = 0; i < m.NumCellProc(); i++)
                recL[i].setZero(), two ? (void)recU[i].setZero() : (void)0;
        }
        std::string sig = vt::str(L().curCase, " ", R.desc, " flags", flags, two ? " unlim" : "", J.isBlock() ? " blk" : "");
        E.EvaluateRHS(rhs, J, u, rU, recL, beta, alpha, false, R.t, flags);
        L().count("rhs-calls");
        // ---- per cell balance
        std::map<idx, typename C::FF> ff;
        Vx wallSum = Vx::Zero(NV);
        std::map<int, Vx> integ;
        std::map<int, double> area;
        double scaleR = 1e-300;
        std::vector<TU> expect(m.NumCell()), src(m.NumCell());
        std::vector<double> tol(m.NumCell(), 1e-9);
        double tolA = 1e-9;
        Vx vsum = Vx::Zero(NV), bsum = Vx::Zero(NV), ssum = Vx::Zero(NV);
        double absum = 0;
        for (idx i = 0; i < m.NumCell(); i++)
        {
            TU acc = TU::Zero();
            double mag = 0;
            for (auto f : m.cell2face[i])
            {
                if (!ff.count(f))
                    ff[f] = R.faceFlux(f, u, rU, recL, h);
                tol[i] = std::max(tol[i], ff[f].tol), tolA = std::max(tolA, tol[i]);
                int side = V.CellIsFaceBack(i, f) ? 0 : 1;
                TU x = ff[f].total;
                mag += ff[f].F.cwiseAbs().maxCoeff() * V.GetFaceArea(f);
                if (side)
                {
                    x = -x;
                    C::turn(x, R.frame(f, m.face2cell(f, 0), 0, i).transpose());
                }
                acc -= x / V.GetCellVol(i);
            }
            src[i] = R.sourceOf(i, u, rU, recL, h) * alpha[i](0);
            expect[i] = acc + src[i];
            double sc = mag / V.GetCellVol(i) + src[i].cwiseAbs().maxCoeff() + 1e-300;
            TU got = rhs[i];
            double err = (got - expect[i]).cwiseAbs().maxCoeff() / sc;
            VT_CHECK(err < tol[i], "residual-balance", sig, ": cell ", R.st.cell[i], " residual ", got.transpose(), " expected ", expect[i].transpose());
            scaleR = std::max(scaleR, sc);
            vsum += V.GetCellVol(i) * got, ssum += V.GetCellVol(i) * src[i];
            absum += (std::isfinite(mag) ? mag : 0) + V.GetCellVol(i) * got.cwiseAbs().sum();
            // the source Jacobian: finite and, for the rotation terms, exact
            Mat jv = J.getValue(i);
            VT_CHECK(jv.allFinite(), "source-jacobian-finite", sig, ": source Jacobian not finite in cell ", R.st.cell[i]);
        }
        // ---- boundary records
        for (idx b = 0; b < m.NumBnd(); b++)
        {
            idx f = m.bnd2face[b];
            if (f < 0 || m.face2cell(f, 1) != DNDS::UnInitIndex)
                continue;
            auto F = ff.count(f) ? ff[f] : R.faceFlux(f, u, rU, recL, h);
            double A = V.GetFaceArea(f), sc = F.F.cwiseAbs().maxCoeff() + 1e-300;
            TU got = E.fluxBnd.at(b);
            bsum += A * got;
            VT_CHECK((got + F.total / A).cwiseAbs().maxCoeff() < F.tol * sc, "boundary-flux", sig, ": recorded flux of a boundary face ", got.transpose(), " expected ", -F.total.transpose() / A);
            Vx tang = Vx::Zero(dim);
            for (int k = 0; k < F.w.size(); k++)
            {
                Vx fm = F.F.col(k).segment(1, dim), n = F.n.col(k);
                tang -= (fm - n * n.dot(fm)) * F.w[k];
            }
            Vx gt = E.fluxBndForceT.at(b);
            VT_CHECK((gt - tang / A).cwiseAbs().maxCoeff() < F.tol * sc, "boundary-shear", sig, ": recorded tangential force ", gt.transpose(), " expected ", tang.transpose() / A);
        }
        for (auto &q : ff)
        {
            idx f = q.first;
            if (m.face2cell(f, 1) != DNDS::UnInitIndex)
                continue;
            int z = m.GetFaceZone(f);
            auto T = R.typeOf(z);
            if (T == EU::BCWall || (T == EU::BCWallInvis && R.gas.mu < 1e-99))
                wallSum += q.second.total;
            if (!integ.count(z))
                integ[z] = Vx::Zero(NV + 2), area[z] = 0;
            int io = R.bcOf.count(z) ? R.bcOf[z]["integrationOption"].template get<int>() : 0;
            if (io == 1)
                integ[z].head(NV) += q.second.total, area[z] += V.GetFaceArea(f);
            if (io == 2)
            {
                TU uL = u[m.face2cell(f, 0)];
                double mf = -q.second.total[0], p = R.press(uL), a2 = R.gamma * p / uL(0), M2 = C::velo(uL).squaredNorm() / a2, T = p / (R.gas.R * uL(0));
                double k = 1 + 0.5 * (R.gamma - 1) * M2;
                Vx x(NV + 2);
                x.head(NV) = uL;
                x(0) = 1, x(NV) = p * std::pow(k, R.gamma / (R.gamma - 1)), x(NV + 1) = T * k;
                integ[z] += x * mf, area[z] += mf;
            }
        }
        for (int k = 0; k < NV; k++)
            wallSum[k] = vt::sumAll(wallSum[k]), vsum[k] = vt::sumAll(vsum[k]), ssum[k] = vt::sumAll(ssum[k]), bsum[k] = vt::sumAll(bsum[k]);
        absum = vt::sumAll(absum);
        tolA = vt::maxAll(tolA);
        VT_CHECK((E.fluxWallSum - wallSum).cwiseAbs().maxCoeff() < tolA * absum, "wall-force", sig, ": integrated wall flux ", E.fluxWallSum.transpose(), " expected ", wallSum.transpose());
        for (int z = G::BC_ID_DEFAULT_MAX; z < int(R.bc->size()); z++)
        {
            int io = R.bcOf.count(z) ? R.bcOf[z]["integrationOption"].template get<int>() : 0;
            VT_CHECK((io != 0) == (E.bndIntegrations.count(z) == 1), "integration-present", sig, ": boundary ", z, " with integration option ", io, E.bndIntegrations.count(z) ? " has" : " has no", " integral");
            if (!io || !E.bndIntegrations.count(z))
                continue;
            Vx x = integ.count(z) ? integ[z] : Vx::Zero(NV + 2);
            double a = area.count(z) ? area[z] : 0, sc = 1e-300;
            for (int k = 0; k < NV + 2; k++)
                x[k] = vt::sumAll(x[k]), sc = std::max(sc, std::abs(x[k]));
            a = vt::sumAll(a);
            auto &rec = E.bndIntegrations.at(z);
            int n = io == 1 ? NV : NV + 2;
            VT_CHECK(rec.v.size() == n && (rec.v - x.head(n)).cwiseAbs().maxCoeff() < 10 * tolA * (sc + absum) && std::abs(rec.div - a) < 10 * tolA * (std::abs(a) + absum), "boundary-integral", sig, ": integral over boundary ", z, " option ", io, " is ", rec.v.transpose(), " / ", rec.div, " expected ", x.head(n).transpose(), " / ", a);
            L().count(vt::str("integration-option:", io));
        }
        // ---- conservation: what the cells gain is what enters through the boundary plus the sources
        for (int k = 0; k < NV; k++)
        {
            if (o.sector && k >= 1 && k <= 2)
                continue;
            VT_CHECK(std::abs(vsum[k] - ssum[k] - bsum[k]) < 1e-10 * absum, "conservation", sig, ": variable ", k, " changes by ", vsum[k], " in total, boundary ", bsum[k], " source ", ssum[k]);
        }
        if (R.set["useRoeJacobian"].template get<bool>())
            for (auto &q : ff)
            {
                Vx l = q.second.lam * q.second.w / V.GetFaceArea(q.first);
                if (!q.second.lam.allFinite() || l.cwiseAbs().maxCoeff() > 1e6)
                    continue;
                double e0 = std::abs(E.lambdaFace0[q.first] - l[0]) + std::abs(E.lambdaFace123[q.first] - l[1]) + std::abs(E.lambdaFace4[q.first] - l[2]);
                TU uc = u[m.face2cell(q.first, 0)]; // at rest, low-speed scaled wave speeds are zero up to rounding
                double ref = C::velo(uc).norm() + std::sqrt(R.gamma * std::abs(R.press(uc)) / uc(0));
                VT_CHECK(e0 < 10 * q.second.tol * l.cwiseAbs().sum() + 1e-7 * ref + 1e-12, "wave-speeds", sig, ": face wave speeds ", E.lambdaFace0[q.first], " ", E.lambdaFace123[q.first], " ", E.lambdaFace4[q.first], " expected ", l.transpose());
            }
        // ---- a second evaluation gives the same; flags keep what they promise
        {
            typename C::Dof r2;
            V.BuildUDof(r2, NV);
            auto fb = E.fluxBnd;
            Vx ws = E.fluxWallSum;
            typename C::Dof u2;
            V.BuildUDof(u2, NV);
            for (idx i = 0; i < m.NumCellProc(); i++)
                u2[i] = u[i] * 1.1;
            E.EvaluateRHS(r2, J, u2, rU, recL, beta, alpha, false, R.t, flags | C::Eval::RHS_Dont_Update_Integration | C::Eval::RHS_Dont_Record_Bud_Flux);
            bool same = ws == E.fluxWallSum;
            for (size_t k = 0; k < fb.size(); k++)
                if (m.bnd2face[k] >= 0 && m.face2cell(m.bnd2face[k], 1) == DNDS::UnInitIndex)
                    same = same && fb[k] == E.fluxBnd[k];
            VT_CHECK(same, "flags-keep-records", sig, ": an evaluation asked not to record changed the recorded boundary fluxes");
            E.EvaluateRHS(r2, J, u, rU, recL, beta, alpha, false, R.t, flags);
            double d = 0;
            for (idx i = 0; i < m.NumCell(); i++)
                d = std::max(d, (r2[i] - rhs[i]).cwiseAbs().maxCoeff());
            VT_CHECK(d == 0, "residual-repeatable", sig, ": the same state gives a residual that differs by ", d);
        }
        if (proj)
        {
            // cells whose flux is decided by rounding (see faceFlux) are left out, and how many is part of the name
            std::vector<double> s(4, 0);
            double left = 0;
            for (idx i = 0; i < m.NumCell(); i++)
            {
                vt::Rng q(vt::mix(s0 + 77, R.st.cell[i]));
                left += tol[i] > 1e-8;
                for (int k = 0; k < NV && tol[i] <= 1e-8; k++)
                    s[0] += q.u(-1, 1) * rhs[i](k) * V.GetCellVol(i), s[1] += std::abs(rhs[i](k)) * V.GetCellVol(i);
                s[2] += q.u(-1, 1) * dt[i](0);
                s[3] += q.u(-1, 1) * std::min(E.dWall[i].mean(), 1e3);
            }
            std::string js = "[";
            for (double x : s)
                js += vt::str(js.size() > 1 ? "," : "", vt::sumAll(x));
            js += vt::str(",", dtMin);
            for (int k = 0; k < NV; k++)
                js += vt::str(",", tolA > 1e-8 ? 0. : E.fluxWallSum[k]);
            js += "]";
            left = vt::sumAll(left);
            if (mpi.rank == 0)
                L().res(vt::str("residual ", modelName(M), " ", id, " without ", left), js);
        }
        L().endCase(sig, m.NumCell() > 0);
    }

    // ---------------------------------------------------------------- uniform flow
    template <EU::EulerModel M>
    void uniformCase(const DNDS::MPIInfo &mpi, vt::Rng &r, int id)
    {
        using C = Run<M>;
        constexpr int NV = C::NV, dim = C::dim, I4 = C::I4;
        using TU = typename C::TU;
        Opt o = randomOpt(r, C::gDim, true, true);
        L().begin(vt::str("uniform ", modelName(M), " ", o.str(), " np", mpi.size, " #", id));
        C R(mpi, o, r, L().curCase);
        if (!R.base(r, {"FAR", "BCOut", "FAR"}))
            return;
        R.randomFlow(r);
        std::string sig = vt::str(L().curCase, " ", R.desc);
        R.evaluator();
        auto &V = *R.v;
        auto &m = *R.m;
        typename C::Dof u, rhs;
        typename C::Rec rec;
        DNDS::Euler::ArrayDOFV<1> beta, alpha, dt;
        V.BuildUDof(u, NV), V.BuildUDof(rhs, NV), V.BuildURec(rec, NV), V.BuildUDof(beta, 1), V.BuildUDof(alpha, 1), V.BuildUDof(dt, 1);
        beta.setConstant(1.0), alpha.setConstant(1.0);
        for (idx i = 0; i < m.NumCellProc(); i++)
        {
            u[i] = R.far;
            rec[i].setZero();
        }
        EU::JacobianDiagBlock<NV> J;
        J.SetModeAndInit(0, NV, u);
        double dtMin;
        R.e->EvaluateDt(dt, u, rec, 0.5, dtMin, 1e10, true);
        R.e->EvaluateRHS(rhs, J, u, rec, rec, beta, alpha, false, 0.0, 0);
        // in a rotating frame the velocity of a uniform stream turns, and nothing else happens
        double a = std::sqrt(R.gamma * R.press(R.far) / R.far(0)) + C::velo(R.far).norm();
        typename C::How h;
        for (idx i = 0; i < m.NumCell(); i++)
        {
            TU s = R.sourceOf(i, u, rec, rec, h);
            double surf = 0;
            for (auto f : m.cell2face[i])
                surf += V.GetFaceArea(f) * (a + R.vGrid(V.GetFaceQuadraturePPhys(f, -1)).norm());
            double sc = R.far.cwiseAbs().maxCoeff() * surf / V.GetCellVol(i) * (1 + a);
            VT_CHECK((rhs[i] - s).cwiseAbs().maxCoeff() < 1e-9 * sc + 1e-11 * s.cwiseAbs().maxCoeff(), "uniform-flow", sig, ": a uniform stream changes at rate ", rhs[i].transpose(), ", the sources give ", s.transpose());
        }
        L().endCase(sig, m.NumCell() > 0);
    }

    // ---------------------------------------------------------------- boundary states
    template <EU::EulerModel M>
    void bndCase(const DNDS::MPIInfo &mpi, vt::Rng &r, int id)
    {
        using C = Run<M>;
        constexpr int NV = C::NV, dim = C::dim, I4 = C::I4;
        using TU = typename C::TU;
        using TVec = typename C::TVec;
        Opt o = randomOpt(r, C::gDim, false, true);
        if (r.p(0.3))
            o.sector = true, o.n[1] = 3;
        L().begin(vt::str("boundary ", modelName(M), " ", o.str(), " np", mpi.size, " #", id));
        C R(mpi, o, r, L().curCase);
        if (!R.base(r, ALL))
            return;
        R.randomFlow(r);
        if (R.rot)
            R.giveFrameOptions(r);
        R.t = r.u(0, 5);
        std::string sig = vt::str(L().curCase, " ", R.desc);
        R.evaluator();
        auto &V = *R.v;
        auto &m = *R.m;
        uint64_t s0 = r.next();
        for (idx f = 0; f < m.NumFaceProc(); f++)
        {
            if (m.face2cell(f, 1) != DNDS::UnInitIndex)
                continue;
            idx i = m.face2cell(f, 0);
            int z = m.GetFaceZone(f), nq = V.GetFaceQuad(f).GetNumPoints();
            vt::Rng q(vt::mix(s0, f * 131 + mpi.rank));
            for (int k = 0; k < 6; k++)
            {
                int g = int(q.in(-1, nq - 1));
                Pt n3 = V.GetFaceNorm(f, g), x = V.GetFaceQuadraturePPhys(f, g);
                TVec n;
                for (int d = 0; d < dim; d++)
                    n[d] = n3[d];
                TU UL = C::randState(q, R.gamma, q.p(0.3) ? 3 : q.p(0.4) ? 0.2
                                                                        : 1),
                   Um = C::randState(q, R.gamma);
                if (q.p(0.3)) // through the normal direction
                {
                    TVec w = n * q.u(-3, 3) + R.vGrid(x);
                    UL = R.withVelo(UL, w);
                }
                TU a = UL, b = UL;
                bool fix = q.p(0.5);
                TU want = R.ghost(z, a, Um, i, n, x, fix);
                TU got = R.e->generateBoundaryValue(b, Um, i, f, g, n, G::NormBuildLocalBaseV<dim>(n), x, R.t, z, fix, 0);
                double sc = want.cwiseAbs().maxCoeff() + UL.cwiseAbs().maxCoeff();
                VT_CHECK((got - want).cwiseAbs().maxCoeff() < 1e-9 * sc, "boundary-state", sig, ": boundary type ", int(R.typeOf(z)), " id ", z, " inside ", UL.transpose(), " normal ", n.transpose(), " gives ", got.transpose(), " expected ", want.transpose());
                VT_CHECK((a - b).cwiseAbs().maxCoeff() == 0, "boundary-inside", sig, ": the inner state became ", b.transpose(), " expected ", a.transpose());
                VT_CHECK(got(0) > 0 && R.press(got) > 0, "boundary-physical", sig, ": unphysical outside state ", got.transpose());
                // a wall lets nothing through: the mean of both states has no normal velocity relative to the wall
                auto T = R.typeOf(z);
                if ((T == EU::BCWallInvis || T == EU::BCSym || T == EU::BCWall) && std::abs(n.norm() - 1) < 1e-13)
                {
                    TVec vn = 0.5 * (C::velo(got) + C::velo(b));
                    int fo = R.bcOf.count(z) && R.bcOf[z].count("frameOption") ? R.bcOf[z]["frameOption"].template get<int>() : 0;
                    TVec wall = fo && T == EU::BCWall ? TVec(TVec::Zero()) : R.vGrid(x);
                    double un = (vn - wall).dot(n), vs = C::velo(UL).norm() + R.vGrid(x).norm() + 1e-3;
                    VT_CHECK(std::abs(un) < 1e-11 * vs, "wall-normal-velocity", sig, ": wall type ", int(T), " has normal velocity ", un);
                    if (T == EU::BCWall)
                        VT_CHECK((vn - wall).norm() < 1e-11 * vs, "wall-slip", sig, ": no-slip wall slips by ", (vn - wall).norm());
                    VT_CHECK(std::abs(R.press(got) - R.press(UL)) < 1e-9 * (R.press(UL) + UL(0) * vs * vs) && std::abs(got(0) - UL(0)) < 1e-12 * UL(0), "wall-pressure", sig, ": wall pressure ", R.press(got), " inside ", R.press(UL));
                }
            }
        }
        L().endCase(sig, m.NumCell() > 0);
    }

}
#include "h_euler_more.hpp"
#include "h_euler_pos.hpp"
namespace eh
{
    template <EU::EulerModel M>
    int mainOf(int argc, char **argv)
    {
        vt::start(&argc, &argv);
        auto mpi = world();
        Quiet quiet;
        std::string mode = vt::sarg(argc, argv, "--mode", "rhs");
        int n = vt::arg(argc, argv, "--n", 10), base = vt::arg(argc, argv, "--base", 0), only = vt::arg(argc, argv, "--only", -1);
        for (int c = 0; c < n; c++)
        {
            int id = base + c;
            if (only >= 0 && id != only)
                continue;
            vt::Rng r(vt::mix(vt::mix(L().seed, id), std::hash<std::string>()(mode) % 1000));
            if (mode == "rhs" || mode == "proj")
                rhsCase<M>(mpi, r, id, mode == "proj");
            if (mode == "uniform")
                uniformCase<M>(mpi, r, id);
            if (mode == "bnd")
                bndCase<M>(mpi, r, id);
            if (mode == "dt")
                dtCase<M>(mpi, r, id);
            if (mode == "wall")
                wallCase<M>(mpi, r, id);
            if (mode == "imp")
                impCase<M>(mpi, r, id);
            if (mode == "pos")
                posCase<M>(mpi, r, id);
            if (mode == "fld")
                fldCase<M>(mpi, r, id);
        }
        return vt::finish();
    }
}
