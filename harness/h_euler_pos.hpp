// Positivity of reconstructions, increments and residual scaling; initial fields, norms, averages and output picks
// (included by h_euler.hpp).
#pragma once

namespace eh
{
    inline double minAll(double v) { return -vt::maxAll(-v); }

    // ---------------------------------------------------------------- positivity
    template <EU::EulerModel M>
    void posCase(const DNDS::MPIInfo &mpi, vt::Rng &r, int id)
    {
        using C = Run<M>;
        constexpr int NV = C::NV, dim = C::dim, I4 = C::I4;
        constexpr bool SA = C::SA, KE = C::KE;
        using TU = typename C::TU;
        Opt o = randomOpt(r, C::gDim, true, true);
        L().begin(vt::str("positivity ", modelName(M), " ", o.str(), " np", mpi.size, " #", id));
        C R(mpi, o, r, L().curCase);
        if (!R.base(r, ALL))
            return;
        R.randomFlow(r);
        bool relaxed = r.p(0.3);
        R.set["ppEpsIsRelaxed"] = relaxed;
        R.set["forceVolURecBeta"] = r.p(0.6);
        R.set["uRecBetaCompressPower"] = r.p(0.5) ? 11 : int(r.in(0, 3));
        int aPow = int(r.in(1, 3));
        R.set["uRecAlphaCompressPower"] = aPow;
        R.set["RANSBottomLimit"] = r.u(0, 0.5);
        R.evaluator();
        auto &V = *R.v;
        auto &E = *R.e;
        auto &m = *R.m;
        double g1 = R.gamma - 1;
        auto eInt = [&](const TU &x)
        { return x(I4) - 0.5 * x.template segment<dim>(1).squaredNorm() / x(0); };
        auto str = [](const auto &x)
        { return vt::str(x.transpose()); };
        double rhoEps = 1e-11 * E.settings.refUPrim(0), pEps = 1e-11 * E.settings.refUPrim(I4);
        typename C::Dof u;
        typename C::Rec rec;
        double amp = std::pow(10., r.u(-2, 1.3));
        R.randomFields(u, rec, r.next(), amp, r.p(0.3) ? 4 : 1);
        uint64_t s1 = r.next();
        double pThin = r.p(0.4) ? 0.3 : 0, pScalar = r.p(0.5) ? 0.4 : 0, pOne = r.p(0.5) ? 0.4 : 0, pHigh = r.p(0.5) ? 0.7 : 0, pBend = r.p(0.4) ? 0.5 : 0;
        for (idx i = 0; i < m.NumCell(); i++)
        {
            vt::Rng q(vt::mix(s1, R.st.cell[i]));
            if (q.p(pThin))
            { // thin or cold gas
                TU x = u[i];
                // with the relaxed floor, also gas thinner than the fixed one
                double e = eInt(x), f = std::pow(10., q.u(relaxed ? -14 : -4, 0)), fe = std::pow(10., q.u(-4, 0));
                x *= f;
                if (relaxed && q.p(0.7))
                    rec[i] *= f;
                x(I4) += e * f * (fe - 1);
                u[i] = x;
            }
            if (q.p(pOne))
            { // only one variable varies strongly
                int k = int(q.in(0, NV - 1));
                for (int c = 0; c < NV; c++)
                    if (c != k)
                        rec[i].col(c) *= 1e-3;
            }
            if (q.p(pScalar))
                for (int c = I4 + 1; c < NV; c++)
                    rec[i].col(c) *= 10;
            if (q.p(pHigh) && rec[i].rows() > C::gDim)
            { // a tame linear part under strong curvature
                rec[i].topRows(C::gDim) *= q.u(0.3, 1.5) / amp;
                rec[i].bottomRows(rec[i].rows() - C::gDim) *= q.u(1, 8) / amp;
                if (q.p(0.5))
                    rec[i].leftCols(I4 + 1) *= 0.05;
            }
            if (KE && q.p(pBend) && rec[i].rows() > C::gDim)
            { // a turbulence variable that rises to one side and would drop there
                std::vector<Mat> ws;
                for (int g = 0; g < V.GetCellQuad(i).GetNumPoints(); g++)
                    ws.push_back(V.GetIntPointDiffBaseValue(i, -1, -1, g, std::array<int, 1>{0}, 1));
                for (auto f : m.cell2face[i])
                    for (int g = 0; g < V.GetFaceQuad(f).GetNumPoints(); g++)
                        ws.push_back(V.GetIntPointDiffBaseValue(i, f, V.CellIsFaceBack(i, f) ? 0 : 1, g, std::array<int, 1>{0}, 1));
                Mat Phi(int(ws.size()), int(rec[i].rows()));
                for (size_t k = 0; k < ws.size(); k++)
                    Phi.row(int(k)) = ws[k];
                rec[i].leftCols(I4 + 1) *= 0.02 / amp;
                for (int c = I4 + 1; c < NV; c++)
                {
                    Vx lin = Vx::Zero(Phi.cols());
                    for (int a = 0; a < C::gDim; a++)
                        lin[a] = q.u(-1, 1);
                    Vx B = Phi * lin;
                    double sc = 0.9 / B.cwiseAbs().maxCoeff();
                    lin *= sc, B *= sc;
                    Vx T = B.unaryExpr([&](double b)
                                       { return b > 0 ? -b * b : 0.; }) *
                           q.u(2, 8);
                    Mat H = Phi.rightCols(Phi.cols() - C::gDim);
                    lin.tail(H.cols()) = H.colPivHouseholderQr().solve(T);
                    rec[i].col(c) = lin * u[i](c);
                }
            }
            if (q.p(0.1))
                rec[i] *= 0;
        }
        R.pull(u), R.pull(rec);
        bool vol = !R.set.value("ignoreSourceTerm", false) || R.set["forceVolURecBeta"].template get<bool>();
        auto at = [&](idx i, const Mat &c)
        {
            std::vector<TU> ret;
            auto add = [&](const Mat &w)
            { ret.push_back(TU(u[i] + (w * c).transpose())); };
            if (vol)
                for (int g = 0; g < V.GetCellQuad(i).GetNumPoints(); g++)
                    add(V.GetIntPointDiffBaseValue(i, -1, -1, g, std::array<int, 1>{0}, 1));
            for (auto f : m.cell2face[i])
                for (int g = 0; g < V.GetFaceQuad(f).GetNumPoints(); g++)
                    add(V.GetIntPointDiffBaseValue(i, f, V.CellIsFaceBack(i, f) ? 0 : 1, g, std::array<int, 1>{0}, 1));
            return ret;
        };
        // ---- reconstruction
        {
            double rE = rhoEps, pE = pEps;
            if (relaxed)
            {
                double a = 1e300, b = 1e300;
                for (idx i = 0; i < m.NumCell(); i++)
                    a = std::min(a, double(u[i](0))), b = std::min(b, g1 * eInt(u[i]));
                rE = std::min(rE, 0.5 * minAll(a)), pE = std::min(pE, 0.5 * minAll(b));
            }
            int flag = int(r.p(0.5));
            std::vector<Mat> rec0(m.NumCell());
            for (idx i = 0; i < m.NumCell(); i++)
                rec0[i] = rec[i];
            DNDS::Euler::ArrayDOFV<1> beta;
            V.BuildUDof(beta, 1);
            DNDS::index nLim = -1;
            double bMin = -1;
            std::string sig = vt::str(L().curCase, " ", R.desc, " flag", flag, relaxed ? " relaxed" : "", " amp", amp);
            E.EvaluateURecBeta(u, rec, beta, nLim, bMin, flag);
            L().count("rec-limit-calls");
            double n = 0, mn = 1;
            for (idx i = 0; i < m.NumCell(); i++)
            {
                double b = beta[i](0);
                n += b < 1, mn = std::min(mn, b);
                VT_CHECK(b >= 0 && b <= 1, "beta-range", sig, ": cell ", i, " beta ", b);
                auto p0 = at(i, rec0[i]), p1 = at(i, Mat(rec[i]));
                bool good = true, poor = false;
                for (auto &x : p0)
                {
                    good = good && x(0) > rE * (1 + 1e-6) && eInt(x) > pE * (1 + 1e-6);
                    poor = poor || x(0) < rE * (1 - 1e-6) || (x(0) > 0 && eInt(x) < pE * (1 - 1e-6) / std::max(1., g1));
                    for (int c = I4 + 1; c < NV; c++)
                        good = good && x(c) > rE * (1 + 1e-6);
                }
                if (good)
                    VT_CHECK(b == 1 && Mat(rec[i]) == rec0[i], "rec-untouched", sig, ": cell ", i, " is positive everywhere, beta ", b);
                L().count(good ? "rec-good" : poor ? "rec-poor" : "rec-other");
                for (size_t k = 0; k < p1.size(); k++)
                {
                    auto &x = p1[k];
                    VT_CHECK(x(0) > 0 && eInt(x) > 0, "rec-positive", sig, ": cell ", i, " point ", k, " beta ", b, " state ", str(x), " e ", eInt(x), " mean ", str(TU(u[i])), " was ", str(p0[k]));
                    if constexpr (KE)
                        if (u[i](I4 + 1) > 1e-8 * E.settings.refUPrim(I4 + 1) && u[i](I4 + 2) > 1e-8 * E.settings.refUPrim(I4 + 2))
                            VT_CHECK(x(I4 + 1) >= -1e-12 * std::abs(p0[k](I4 + 1)) && x(I4 + 2) >= -1e-12 * std::abs(p0[k](I4 + 2)), "rec-scalars", sig, ": cell ", i, " point ", k, " beta ", b, " state ", str(x), " mean ", str(TU(u[i])), " was ", str(p0[k]));
                }
                if (flag == 1)
                {
                    Mat a = rec[i], ex = b * rec0[i];
                    int nc = SA || KE ? I4 + 1 : NV;
                    bool mean = true;
                    for (int c = I4 + 1; c < NV; c++)
                        mean = mean && u[i](c) >= rE;
                    if (mean)
                        VT_CHECK((a - ex).leftCols(nc).cwiseAbs().maxCoeff() <= 1e-12 * rec0[i].cwiseAbs().maxCoeff(), "rec-compressed-to-mean", sig, ": cell ", i, " beta ", b);
                }
            }
            n = vt::sumAll(n), mn = minAll(mn);
            VT_CHECK(double(nLim) == n, "beta-count", sig, ": ", nLim, " limited cells reported, ", n, " found");
            VT_CHECK(mn >= 1e-3 || n == 0 ? bMin == mn : bMin < 1e-3 && bMin >= 0, "beta-min", sig, ": minimum ", bMin, " reported, ", mn, " found");
            if (n > 0)
                L().count("rec-limited-cases");
        }
        // ---- states at a point
        vt::Rng lr(vt::mix(r.next(), mpi.rank)); // choices of this rank only
        for (int k = 0; k < 60 && m.NumCell(); k++)
        {
            idx i = lr.in(0, m.NumCell() - 1);
            TU x = u[i], inc = TU::Zero();
            double a = std::pow(10., lr.u(-3, 2));
            double sc0 = lr.p(0.3) ? 1e-3 : 1;
            for (int c = 0; c < NV; c++)
                inc(c) = a * lr.u(-1, 1) * (c == 0 ? sc0 * x(0) : c <= dim ? std::sqrt(std::max(g1 * eInt(x), 1e-30) * x(0)) : c == I4 ? eInt(x)
                                                                                                                         : std::abs(x(c)));
            if (lr.p(0.1))
                inc.template head<I4>().setZero();
            if (lr.p(0.1))
                inc.template segment<I4>(1).setZero();
            std::string sig = vt::str(L().curCase, " mean ", str(x), " inc ", str(inc));
            TU y = x + inc;
            {
                bool comp = false;
                TU z = E.CompressRecPart(x, inc, comp);
                bool ok = y(0) >= 0 && eInt(y) >= 0 && y(0) > 0;
                VT_CHECK(z(0) > 0 && eInt(z) >= 0, "point-state-positive", sig, ": ", str(z));
                if (ok)
                    VT_CHECK(z.template head<I4 + 1>() == y.template head<I4 + 1>(), "point-state-untouched", sig, ": ", str(z));
                if (z != y)
                    VT_CHECK(comp, "point-state-reported", sig, ": ", str(z));
                if constexpr (KE)
                    VT_CHECK(z(I4 + 1) >= 0 && z(I4 + 2) >= 0, "point-state-positive", sig, ": ", str(z));
                L().count(ok ? "point-ok" : "point-bad");
            }
            double rE = rhoEps, pE = pEps;
            if (relaxed)
                rE = pE = 0;
            if (x(0) <= 2 * rE || eInt(x) <= 4 * std::max(pE, pE / g1))
                continue;
            TU z = E.CompressInc(x, inc), w = x + z;
            bool ok = y(0) > rE * (1 + 1e-6) && y(0) > 1e-12 * x(0) && eInt(y) > std::max(pE * (1 + 1e-6), 1e-10 * std::abs(x(I4) + inc(I4)));
            VT_CHECK(w(0) > 0 && (eInt(w) > 0 || (relaxed && eInt(w) > -1e-12 * std::abs(w(I4)))), "increment-positive", sig, ": becomes ", str(z), " new state ", str(w), " e ", eInt(w));
            if (ok)
                VT_CHECK(z.template head<I4 + 1>() == inc.template head<I4 + 1>(), "increment-untouched", sig, ": becomes ", str(z));
            double s = 0, ii = inc.template head<I4 + 1>().squaredNorm();
            if (ii > 0)
                s = z.template head<I4 + 1>().dot(inc.template head<I4 + 1>()) / ii;
            VT_CHECK(s >= -1e-12 && s <= 1 + 1e-12 && (z - s * inc).template head<I4 + 1>().norm() <= 1e-9 * std::sqrt(ii), "increment-direction", sig, ": becomes ", str(z), " factor ", s);
            for (int c = I4 + 1; c < NV; c++)
            {
                VT_CHECK(w(c) >= -1e-13 * std::abs(x(c)), "increment-scalars", sig, ": becomes ", str(z), " new state ", str(w));
                if (s == 1 && y(c) >= 0)
                    VT_CHECK(z(c) == inc(c), "increment-untouched", sig, ": becomes ", str(z));
            }
            L().count(ok ? "increment-ok" : "increment-bad");
        }
        // ---- increments of the whole field, and the scaling of residuals
        {
            typename C::Dof inc, u1, inc1;
            V.BuildUDof(inc, NV), V.BuildUDof(u1, NV), V.BuildUDof(inc1, NV);
            double a = std::pow(10., r.u(-2, 1)), al = r.p(0.5) ? 1 : r.u(0.1, 1.5);
            uint64_t s2 = r.next();
            for (idx i = 0; i < m.NumCell(); i++)
            {
                vt::Rng q(vt::mix(s2, R.st.cell[i]));
                TU x = u[i];
                for (int c = 0; c < NV; c++)
                    inc[i](c) = q.p(0.1) ? 0 : a * q.u(-1, 1) * (c == 0 ? x(0) : c <= dim ? std::sqrt(g1 * eInt(x) * x(0)) : c == I4 ? eInt(x)
                                                                                                                 : std::abs(x(c)));
            }
            R.pull(inc);
            bool usable = true;
            for (idx i = 0; i < m.NumCell(); i++)
                usable = usable && u[i](0) > 2 * rhoEps && eInt(u[i]) > 4 * std::max(pEps, pEps / g1);
            usable = minAll(usable ? 1. : 0.) > 0;
            std::string sig = vt::str(L().curCase, " ", R.desc, relaxed ? " relaxed" : "", " size ", a);
            if (usable)
            {
                u1 = u, inc1 = inc;
                E.FixIncrement(u, inc1, al);
                E.AddFixedIncrement(u1, inc, al);
                double far2 = 0;
                bool ko = KE && R.set.value("ransModel", std::string()) != "RANS_RKE";
                if (ko)
                    far2 = E.settings.RANSBottomLimit * E.settings.farFieldStaticValue(NV - 1);
                for (idx i = 0; i < m.NumCell(); i++)
                {
                    TU z = E.CompressInc(u[i], inc[i] * al), ex = u[i] + z;
                    if (ko)
                        ex(NV - 1) = std::max(ex(NV - 1), far2);
                    VT_CHECK((inc1[i] - z).norm() <= 1e-14 * z.norm(), "fix-increment", sig, ": cell ", i, " ", str(TU(inc1[i])), " expected ", str(z));
                    VT_CHECK((u1[i] - ex).norm() <= 1e-14 * ex.norm(), "add-increment", sig, ": cell ", i, " ", str(TU(u1[i])), " expected ", str(ex));
                    VT_CHECK(u1[i](0) > 0 && eInt(u1[i]) > -1e-12 * u1[i](I4), "add-increment-positive", sig, ": cell ", i, " ", str(TU(u1[i])));
                }
                VT_CHECK(E.AssertMeanValuePP(u, false), "mean-positive-verdict", sig, ": refused");
                L().count("increments-added");
                // scaling of residuals
                DNDS::Euler::ArrayDOFV<1> alpha, beta;
                V.BuildUDof(alpha, 1), V.BuildUDof(beta, 1);
                double relax = !relaxed && r.p(0.4) ? 1 : r.u(0.3, 0.99), aMin = -1, rE = relaxed ? 0 : rhoEps, pE = relaxed ? 0 : pEps;
                int comp = int(r.in(1, 2)), flag = int(r.in(0, 2));
                DNDS::index nLim = -1;
                E.EvaluateCellRHSAlpha(u, rec, beta, inc, alpha, nLim, aMin, relax, comp, flag);
                L().count("residual-scale-calls");
                sig += vt::str(" relax ", relax, " compress ", comp, "x", aPow, " flag ", flag);
                double n = 0, mn = 1;
                for (idx i = 0; i < m.NumCell(); i++)
                {
                    double al = alpha[i](0);
                    TU x = u[i], y = x + inc[i], z = x + al * inc[i];
                    double loR = rE * relax + x(0) * (1 - relax), p0 = g1 * eInt(x), loP = pE + (p0 - pE) * (1 - relax);
                    VT_CHECK(al >= 0 && al <= 1, "alpha-range", sig, ": cell ", i, " alpha ", al);
                    double noise = 1e-9 * (x(I4) + std::abs(inc[i](I4)) + z(I4)) * g1;
                    VT_CHECK(z(0) > 0 && z(0) >= loR - 1e-9 * x(0) && g1 * eInt(z) >= loP - noise, "alpha-positive", sig, ": cell ", i, " alpha ", al, " state ", str(x), " residual ", str(TU(inc[i])), " p ", g1 * eInt(z), " least ", loP);
                    bool fine = y(0) > loR * (1 + 1e-6) && g1 * eInt(y) > loP * (1 + 1e-6) + 1e-6 * noise;
                    bool bad = y(0) < loR * (1 - 1e-6) || (y(0) > 0 && g1 * eInt(y) < loP * (1 - 1e-6) - noise);
                    if (fine && flag != 2)
                        VT_CHECK(al == 1, "alpha-untouched", sig, ": cell ", i, " alpha ", al, " though nothing needs limiting");
                    if (bad)
                        VT_CHECK(al < 1, "alpha-positive", sig, ": cell ", i, " not limited");
                    if (flag == 2)
                        VT_CHECK(al == aMin, "alpha-min-all", sig, ": cell ", i, " alpha ", al, " minimum ", aMin);
                    if (flag == 1)
                        VT_CHECK(al == 1 || al == aMin, "alpha-min-limited", sig, ": cell ", i, " alpha ", al, " minimum ", aMin);
                    n += flag == 2 ? (bad ? 1 : 0) : al < 1, mn = std::min(mn, al);
                    L().count(fine ? "alpha-fine" : "alpha-limited");
                }
                n = vt::sumAll(n), mn = minAll(mn);
                VT_CHECK(flag == 2 ? double(nLim) >= n : double(nLim) == n, "alpha-count", sig, ": ", nLim, " limited cells reported, ", n, " found");
                if (mpi.size > 0 && vt::sumAll(double(m.NumCell())) > 0)
                    VT_CHECK(aMin == mn, "alpha-min", sig, ": minimum ", aMin, " reported, ", mn, " found");
                // cells whose scaled residual is still too large fall back to the minimum
                typename C::Dof res;
                V.BuildUDof(res, NV);
                double f = r.u(0.5, 1.5);
                std::vector<double> before(m.NumCell());
                for (idx i = 0; i < m.NumCell(); i++)
                    res[i] = inc[i] * (alpha[i](0) * f), before[i] = alpha[i](0);
                DNDS::index nL = 7;
                E.EvaluateCellRHSAlphaExpansion(u, rec, beta, res, alpha, nL, aMin * 0.5);
                for (idx i = 0; i < m.NumCell(); i++)
                {
                    TU y = u[i] + res[i];
                    double noise = 1e-9 * (std::abs(u[i](I4)) + std::abs(y(I4)));
                    if (y(0) > rhoEps * (1 + 1e-6) && g1 * eInt(y) > pEps + noise)
                        VT_CHECK(alpha[i](0) == before[i], "alpha-expansion", sig, ": cell ", i, " changed without need");
                    else if (y(0) < rhoEps * (1 - 1e-6) || g1 * eInt(y) < pEps - noise)
                        VT_CHECK(alpha[i](0) == aMin * 0.5, "alpha-expansion", sig, ": cell ", i, " keeps ", alpha[i](0));
                }
                VT_CHECK(nL == 7, "alpha-expansion", sig, ": count changed to ", nL);
            }
            // a field with one bad cell is refused where that cell is
            if (m.NumCell())
            {
                u1 = u;
                idx i = lr.in(0, m.NumCell() - 1);
                if (lr.p(0.5))
                    u1[i](0) = -u1[i](0);
                else
                    u1[i](I4) -= 2 * eInt(u1[i]);
                VT_CHECK(!E.AssertMeanValuePP(u1, false), "mean-positive-verdict", sig, ": accepted");
            }
        }
        // ---- second-order gradients
        {
            DNDS::Euler::ArrayGRADV<NV, C::gDim> g, g2;
            V.BuildUGrad(g, NV), V.BuildUGrad(g2, NV);
            double a = std::pow(10., r.u(-1, 1.5));
            for (idx i = 0; i < m.NumCell(); i++)
            {
                TU x = u[i];
                double h = std::pow(V.GetCellVol(i), 1. / C::gDim);
                for (int d = 0; d < C::gDim; d++)
                    for (int c = 0; c < NV; c++)
                        g[i](d, c) = a / h * lr.u(-1, 1) * (c == 0 ? 0.1 * x(0) / std::max(1., a) : c <= dim ? std::sqrt(g1 * eInt(x) * x(0)) : c == I4 ? eInt(x)
                                                                                                                                  : std::abs(x(c)));
            }
            E.LimiterUGrad(u, g, g2);
            L().count("gradient-limits");
            for (idx i = 0; i < m.NumCell(); i++)
            {
                double worst = 1e300, worst2 = 1e300, rhoMin = 1e300;
                for (auto f : m.cell2face[i])
                {
                    Pt dx = V.GetFaceQuadraturePPhysFromCell(f, i, -1, -1) - V.GetCellQuadraturePPhys(i, -1);
                    TU a1 = u[i] + g[i].transpose() * dx.head(C::gDim), a2 = u[i] + g2[i].transpose() * dx.head(C::gDim);
                    rhoMin = std::min(rhoMin, a1(0)), worst = std::min(worst, eInt(a1)), worst2 = std::min(worst2, eInt(a2));
                }
                Mat A = g[i], Bm = g2[i];
                double s = (A.leftCols(I4 + 1).array() * Bm.leftCols(I4 + 1).array()).sum() / (A.leftCols(I4 + 1).squaredNorm() + 1e-300);
                std::string sig = vt::str(L().curCase, " gradient of cell ", i, " size ", a);
                VT_CHECK(s >= 0 && s <= 1 + 1e-12 && (Bm - s * A).leftCols(I4 + 1).norm() <= 1e-10 * A.norm(), "gradient-scaling", sig, ": factor ", s);
                for (int c = I4 + 1; c < NV; c++)
                    VT_CHECK(A.col(c) == Bm.col(c), "gradient-scaling", sig, ": column ", c, " changed");
                if (rhoMin <= 0)
                    continue;
                double e = eInt(TU(u[i]));
                if (worst > e * 1e-6)
                    VT_CHECK(A == Bm, "gradient-untouched", sig, ": face energies at least ", worst, " of ", e, " but scaled by ", s);
                VT_CHECK(worst2 > 0 || worst2 > -1e-9 * std::abs(u[i](I4)), "gradient-positive", sig, ": face energy ", worst2, " mean ", e, " factor ", s, " before ", worst);
                L().count(worst > 0 ? "gradient-fine" : "gradient-bad");
            }
        }
        L().endCase(vt::str("pos|", L().curCase, R.desc, relaxed, amp), m.NumCell() > 0);
    }

    // ---------------------------------------------------------------- initial fields, norms, averages, outputs
    template <EU::EulerModel M>
    void fldCase(const DNDS::MPIInfo &mpi, vt::Rng &r, int id)
    {
        using C = Run<M>;
        constexpr int NV = C::NV, dim = C::dim, I4 = C::I4;
        using TU = typename C::TU;
        Opt o = randomOpt(r, C::gDim, true, true);
        L().begin(vt::str("fields ", modelName(M), " ", o.str(), " np", mpi.size, " #", id));
        C R(mpi, o, r, L().curCase);
        if (!R.base(r, ALL))
            return;
        R.randomFlow(r);
        // initial field: later boxes and planes cover earlier ones
        struct Reg
        {
            bool box;
            double c[6];
            TU v;
        };
        std::vector<Reg> regs;
        nlohmann::ordered_json jb = nlohmann::ordered_json::array(), jp = jb;
        auto state = [&]()
        {
            TU x = C::randState(r, R.gamma, 1.0);
            return x;
        };
        auto vec = [](const TU &x)
        { return std::vector<double>(x.data(), x.data() + x.size()); };
        int nb = int(r.in(0, 3)), np = int(r.in(0, 2));
        for (int k = 0; k < nb; k++)
        {
            Reg q;
            q.box = true, q.v = state();
            for (int d = 0; d < 3; d++)
            {
                double a = r.u(-1, 3), b = r.u(-1, 3);
                q.c[2 * d] = std::min(a, b), q.c[2 * d + 1] = std::max(a, b);
                if (d == 2 && (C::gDim == 2 || r.p(0.5)))
                    q.c[4] = -100, q.c[5] = 100;
            }
            jb.push_back({{"x0", q.c[0]}, {"x1", q.c[1]}, {"y0", q.c[2]}, {"y1", q.c[3]}, {"z0", q.c[4]}, {"z1", q.c[5]}, {"v", vec(q.v)}});
            regs.push_back(q);
        }
        for (int k = 0; k < np; k++)
        {
            Reg q;
            q.box = false, q.v = state();
            for (int d = 0; d < 4; d++)
                q.c[d] = r.u(-1, 1);
            jp.push_back({{"a", q.c[0]}, {"b", q.c[1]}, {"c", q.c[2]}, {"h", q.c[3]}, {"v", vec(q.v)}});
            regs.push_back(q);
        }
        R.set["boxInitializers"] = jb, R.set["planeInitializers"] = jp;
        int special = 0;
        if constexpr (M == EU::NS_2D)
            special = r.p(0.4) ? std::vector<int>{1, 2, 203, 202, 201}[size_t(r.in(0, 4))] : 0;
        if constexpr (M == EU::NS_3D)
            special = r.p(0.4) ? std::vector<int>{1, 3}[size_t(r.in(0, 1))] : 0;
        R.set["specialBuiltinInitializer"] = special;
        R.evaluator();
        auto &V = *R.v;
        auto &E = *R.e;
        auto &m = *R.m;
        auto str = [](const auto &x)
        { return vt::str(x.transpose()); };
        std::string sig = vt::str(L().curCase, " ", R.desc, " init", special, "+", nb, "+", np);
        typename C::Dof u;
        V.BuildUDof(u, NV);
        E.InitializeUDOF(u);
        auto exact = [&](const Pt &x) -> TU
        {
            double g = R.gamma, rho = 1, p = 1;
            typename C::TVec vel = C::TVec::Zero();
            if (special == 1)
            {
                rho = x[1] >= 0.5 ? 1 : 2, p = x[1] >= 0.5 ? 1.5 + x[1] : 1 + 2 * x[1];
                vel[1] = -0.025 * std::sqrt(g * p / rho) * std::cos(8 * M_PI * x[0]) * (dim == 3 ? std::cos(8 * M_PI * x[2]) : 1);
            }
            else if (special == 3)
            {
                vel[0] = std::sin(x[0]) * std::cos(x[1]) * std::cos(x[2]), vel[1] = -std::cos(x[0]) * std::sin(x[1]) * std::cos(x[2]);
                p = 100 / g + (std::cos(2 * x[0]) + std::cos(2 * x[1])) * (2 + std::cos(2 * x[2])) / 16;
                rho = g * 0.01 * p;
            }
            else
            {
                double cx = special == 201 ? 0 : 5, chi = special == 203 ? 10.0828 : 5, X = x[0], Y = x[1], b = special == 201 ? 0 : 1;
                double per = special == 202 ? 30 : 10, off = special == 202 ? 10 : 0;
                if (special != 201)
                    X -= per * std::floor((X + off) / per), Y -= per * std::floor((Y + off) / per);
                double r2 = (X - cx) * (X - cx) + (Y - cx) * (Y - cx), w = chi / (2 * M_PI) * std::exp(0.5 * (1 - r2));
                double T = 1 - (g - 1) / (2 * g) * w * w;
                vel[0] = b - w * (Y - cx), vel[1] = b + w * (X - cx);
                rho = std::pow(T, 1 / (g - 1)), p = rho * T;
            }
            TU y = TU::Zero();
            y(0) = rho;
            y.template segment<dim>(1) = rho * vel;
            y(I4) = p / (g - 1) + 0.5 * rho * vel.squaredNorm();
            return y;
        };
        for (idx i = 0; i < m.NumCell(); i++)
        {
            TU ex = R.far;
            double tol = 1e-12;
            if (special == 1)
                ex = exact(V.GetCellBary(i));
            else if (special)
            {
                ex.setZero();
                double w = 0;
                auto q = V.GetCellQuad(i);
                TU acc = TU::Zero();
                q.IntegrationSimple(
                    acc, [&](TU &inc, int ig)
                    {
                        inc = exact(V.GetCellQuadraturePPhys(i, ig)) * V.GetCellJacobiDet(i, ig); });
                w = V.GetCellVol(i);
                ex = acc / w;
                tol = 1e-10;
            }
            Pt c = V.GetCellBary(i);
            bool edge = special == 1 && (std::abs(c[1] - 0.5) < 1e-9 || c[1] < -0.49);
            for (auto &q : regs)
            {
                bool in;
                if (q.box)
                {
                    in = true;
                    for (int d = 0; d < 3; d++)
                        in = in && c[d] > q.c[2 * d] && c[d] < q.c[2 * d + 1], edge = edge || std::abs(c[d] - q.c[2 * d]) < 1e-9 || std::abs(c[d] - q.c[2 * d + 1]) < 1e-9;
                }
                else
                {
                    double z = q.c[0] * c[0] + q.c[1] * c[1] + q.c[2] * c[2] + q.c[3];
                    in = z > 0, edge = edge || std::abs(z) < 1e-9;
                }
                if (in)
                    ex = q.v, tol = 0;
            }
            if (edge)
                continue;
            VT_CHECK((u[i] - ex).norm() <= tol * (1 + ex.norm()), "initial-field", sig, ": cell ", i, " at ", str(c), " is ", str(TU(u[i])), " expected ", str(ex));
            L().count("initial-cells");
        }
        // ---- norms
        typename C::Rec rec;
        R.randomFields(u, rec, r.next(), r.u(0, 0.3));
        double volAll = 0;
        for (idx i = 0; i < m.NumCell(); i++)
            volAll += V.GetCellVol(i);
        volAll = vt::sumAll(volAll);
        for (int P : {1, 2, 3, 4})
        {
            bool vw = r.p(0.5), avg = P == 1 && r.p(0.5);
            Vx a, ex = Vx::Zero(NV), mx = Vx::Zero(NV);
            E.EvaluateNorm(a, u, P, vw, avg);
            double base = 0;
            for (idx i = 0; i < m.NumCell(); i++)
            {
                double w = vw ? V.GetCellVol(i) : 1;
                base += w;
                for (int c = 0; c < NV; c++)
                    ex[c] += std::pow(std::abs(u[i](c)), P) * w, mx[c] = std::max(mx[c], std::abs(u[i](c)));
            }
            base = vt::sumAll(base);
            for (int c = 0; c < NV; c++)
            {
                double e = P >= 3 ? vt::maxAll(mx[c]) : std::pow(vt::sumAll(ex[c]), 1. / P) / (avg ? base : 1);
                VT_CHECK(std::abs(a[c] - e) <= 1e-11 * e, "norm", sig, ": norm ", P, " of variable ", c, vw ? " volume-weighted" : "", avg ? " averaged" : "", " is ", a[c], " expected ", e);
            }
            bool cmp = r.p(0.5);
            TU k0 = C::randState(r, R.gamma, 1.0);
            double kx = r.u(-1, 1), tt = r.u(0, 2);
            auto ff = [&](const Pt &x, double t)
            { return TU(k0 * (1 + kx * x[0] + t)); };
            auto wf = [&](const Pt &x, double t)
            { return x[1] > 1 ? 0. : 1. + t * x[0] * x[0]; };
            E.EvaluateRecNorm(a, u, rec, P, cmp, ff, wf, tt);
            ex.setZero(), mx.setZero();
            for (idx i = 0; i < m.NumCell(); i++)
            {
                auto q = V.GetCellQuad(i);
                TU acc = TU::Zero();
                q.IntegrationSimple(
                    acc, [&](TU &inc, int ig)
                    {
                        TU y = u[i] + (V.GetIntPointDiffBaseValue(i, -1, -1, ig, std::array<int, 1>{0}, 1) * rec[i]).transpose();
                        Pt x = V.GetCellQuadraturePPhys(i, ig);
                        if (cmp)
                            y = ((y - ff(x, tt)) * wf(x, tt)).eval();
                        for (int c = 0; c < NV; c++)
                            mx[c] = std::max(mx[c], std::abs(y(c)));
                        inc = y.array().abs().pow(P) * V.GetCellJacobiDet(i, ig); });
                ex += acc;
            }
            for (int c = 0; c < NV; c++)
            {
                double e = P >= 3 ? vt::maxAll(mx[c]) : std::pow(vt::sumAll(ex[c]), 1. / P);
                VT_CHECK(std::abs(a[c] - e) <= 1e-10 * (e + 1e-3), "field-norm", sig, ": norm ", P, " of the reconstructed variable ", c, cmp ? " against a field" : "", " is ", a[c], " expected ", e);
            }
            L().count("norms");
        }
        vt::Rng lr(vt::mix(r.next(), mpi.rank)); // choices of this rank only
        // ---- conversions and averages
        {
            typename C::Dof w, w2, av;
            V.BuildUDof(w, NV), V.BuildUDof(w2, NV), V.BuildUDof(av, NV);
            E.MeanValueCons2Prim(u, w);
            E.MeanValuePrim2Cons(w, w2);
            for (idx i = 0; i < m.NumCell(); i++)
            {
                TU p = w[i], x = u[i];
                double ek = 0.5 * x.template segment<dim>(1).squaredNorm() / x(0);
                bool ok = std::abs(p(0) - x(0)) < 1e-12 * x(0) && std::abs(p(I4) - (R.gamma - 1) * (x(I4) - ek)) < 1e-11 * x(I4) && (p.template segment<dim>(1) * x(0) - x.template segment<dim>(1)).norm() < 1e-12 * x.norm();
                for (int c = I4 + 1; c < NV; c++)
                    ok = ok && std::abs(p(c) * x(0) - x(c)) < 1e-12 * (1 + std::abs(x(c)));
                VT_CHECK(ok, "primitive", sig, ": cell ", i, " ", str(x), " gives ", str(p));
                VT_CHECK((w2[i] - u[i]).norm() < 1e-11 * x.norm(), "primitive", sig, ": cell ", i, " ", str(x), " returns as ", str(TU(w2[i])));
            }
            av.setConstant(0.0);
            double tc = 0, T = 0;
            std::vector<TU> sum(m.NumCell(), TU::Zero());
            int n = int(r.in(1, 6));
            for (int k = 0; k < n; k++)
            {
                double dt = std::pow(10., r.u(-3, 1));
                for (idx i = 0; i < m.NumCell(); i++)
                {
                    w[i] = C::randState(lr, R.gamma, 1.0);
                    sum[i] += dt * w[i];
                }
                R.pull(w);
                E.TimeAverageAddition(w, av, dt, tc);
                T += dt;
            }
            VT_CHECK(std::abs(tc - T) < 1e-12 * T, "time-average", sig, ": averaging time ", tc, " expected ", T);
            for (idx i = 0; i < m.NumCell(); i++)
                VT_CHECK((av[i] - sum[i] / T).norm() < 1e-11 * (sum[i] / T).norm() + 1e-13, "time-average", sig, ": cell ", i, " ", str(TU(av[i])), " expected ", str(TU(sum[i] / T)));
            L().count("averages");
        }
        // ---- smoothing of pseudo time steps
        {
            DNDS::Euler::ArrayDOFV<1> a, b;
            V.BuildUDof(a, 1), V.BuildUDof(b, 1);
            for (idx i = 0; i < m.NumCell(); i++)
                a[i](0) = std::pow(10., lr.u(-3, 3));
            R.pull(a);
            E.MinSmoothDTau(a, b);
            for (idx i = 0; i < m.NumCell(); i++)
            {
                double s = 0;
                int n = 0;
                for (auto f : m.cell2face[i])
                {
                    idx j = m.face2cell(f, 0) == i ? m.face2cell(f, 1) : m.face2cell(f, 0);
                    if (j != DNDS::UnInitIndex)
                        s += a[j](0), n++;
                }
                double ex = n ? std::min(a[i](0), 0.5 * (a[i](0) + s / n)) : a[i](0);
                VT_CHECK(std::abs(b[i](0) - ex) < 1e-12 * ex, "smoothed-step", sig, ": cell ", i, " ", b[i](0), " expected ", ex);
            }
        }
        // ---- what the output fields name
        {
            DNDS::Euler::ArrayDOFV<1> be, al;
            V.BuildUDof(be, 1), V.BuildUDof(al, 1);
            for (idx i = 0; i < m.NumCell(); i++)
                be[i](0) = lr.u(), al[i](0) = lr.u();
            EU::OutputPicker op;
            E.InitializeOutputPicker(op, {u, rec, be, al});
            std::vector<std::string> names{"RU", "RV", "RE", "R_REC_1", "RU_REC_1", "betaPP", "alphaPP", "dWall", "cellVolume"};
            if (dim == 3)
                names.push_back("RW");
            r.shuffle(names);
            auto list = op.getSubsetList(names);
            VT_CHECK(list.size() == names.size(), "output-field", sig, ": ", list.size(), " fields for ", names.size(), " names");
            for (size_t k = 0; k < list.size(); k++)
            {
                std::string nm = std::get<0>(list[k]);
                VT_CHECK(nm == names[k], "output-field", sig, ": field ", k, " is ", nm, " asked for ", names[k]);
                for (idx i = 0; i < m.NumCell(); i++)
                {
                    double got = std::get<1>(list[k])(i), ex = got;
                    if (nm == "RU")
                        ex = u[i](1);
                    else if (nm == "RV")
                        ex = u[i](2);
                    else if (nm == "RW")
                        ex = u[i](3);
                    else if (nm == "RE")
                        ex = u[i](I4);
                    else if (nm == "R_REC_1")
                        ex = rec[i](0, 0);
                    else if (nm == "RU_REC_1")
                        ex = rec[i](0, 1);
                    else if (nm == "betaPP")
                        ex = be[i](0);
                    else if (nm == "alphaPP")
                        ex = al[i](0);
                    else if (nm == "dWall")
                        ex = E.dWall.at(i).mean();
                    else if (nm == "cellVolume")
                        ex = V.GetCellVol(i);
                    VT_CHECK(got == ex, "output-field", sig, ": ", nm, " of cell ", i, " is ", got, " expected ", ex);
                }
                L().count("output-fields");
            }
        }
        L().endCase(sig, m.NumCell() > 0);
    }
}
