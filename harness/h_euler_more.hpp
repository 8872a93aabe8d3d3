// Time steps, wall distance, implicit operators and positivity (included by h_euler.hpp).
#pragma once

namespace eh
{
    // ---------------------------------------------------------------- wave speeds and time steps
    template <EU::EulerModel M>
    void dtCase(const DNDS::MPIInfo &mpi, vt::Rng &r, int id)
    {
        using C = Run<M>;
        constexpr int NV = C::NV, dim = C::dim, I4 = C::I4;
        using TU = typename C::TU;
        using TVec = typename C::TVec;
        Opt o = randomOpt(r, C::gDim, true, true);
        L().begin(vt::str("time step ", modelName(M), " ", o.str(), " np", mpi.size, " #", id));
        C R(mpi, o, r, L().curCase);
        if (!R.base(r, ALL))
            return;
        R.randomFlow(r);
        R.evaluator();
        auto &V = *R.v;
        auto &E = *R.e;
        auto &m = *R.m;
        typename C::Dof u;
        typename C::Rec rec;
        DNDS::Euler::ArrayDOFV<1> dt;
        V.BuildUDof(dt, 1);
        R.randomFields(u, rec, r.next(), 0.05, r.p(0.3) ? 3 : r.p(0.3) ? 0.1
                                                                     : 1);
        double cfl = std::pow(10., r.u(-2, 3)), maxDt = r.p(0.3) ? std::pow(10., r.u(-5, 0)) : 1e100, dtMin = -1;
        bool local = r.p(0.6);
        std::string sig = vt::str(L().curCase, " ", R.desc, local ? " local" : " global", maxDt < 1 ? " capped" : "");
        E.EvaluateDt(dt, u, rec, cfl, dtMin, maxDt, local);
        L().count("dt-calls");
        std::vector<double> lam(m.NumFaceProc());
        auto near = [](double a, double b, double s = 0)
        { return std::abs(a - b) <= 1e-9 * (std::abs(a) + std::abs(b) + s) + 1e-290; };
        for (idx f = 0; f < m.NumFaceProc(); f++)
        {
            idx i = m.face2cell(f, 0), j = m.face2cell(f, 1);
            Pt n3 = V.GetFaceNorm(f, -1);
            TVec n;
            for (int d = 0; d < dim; d++)
                n[d] = n3[d];
            TU a = u[i], b = u[i];
            Eigen::Matrix3d Q = Eigen::Matrix3d::Identity();
            if (j != DNDS::UnInitIndex)
            {
                Q = R.frame(f, i, 0, j);
                b = u[j];
                C::turn(b, Q);
            }
            auto grad = [&](idx c, int side)
            {
                typename C::TDiffU D;
                D.setZero();
                Mat gr;
                if constexpr (C::gDim == 2)
                    gr = V.GetIntPointDiffBaseValue(c, f, side, -1, std::array<int, 2>{1, 2}, 3) * rec[c];
                else
                    gr = V.GetIntPointDiffBaseValue(c, f, side, -1, std::array<int, 3>{1, 2, 3}, 4) * rec[c];
                D.topRows(C::gDim) = gr;
                if (side)
                {
                    Mat Rd = Q.topLeftCorner(dim, dim);
                    D = (Rd * D).eval();
                    for (int q = 0; q < dim; q++)
                    {
                        Vx x = Rd * D.row(q).segment(1, dim).transpose();
                        D.row(q).segment(1, dim) = x.transpose();
                    }
                }
                return D;
            };
            typename C::TDiffU D = grad(i, 0);
            if (j != DNDS::UnInitIndex)
                D = (0.5 * (D + grad(j, 1))).eval();
            double pa = R.press(a), pb = R.press(b), aa = std::sqrt(R.gamma * pa / a(0)), ab = std::sqrt(R.gamma * pb / b(0));
            TVec va = C::velo(a), vb = C::velo(b), vg = R.vGrid(V.GetFaceQuadraturePPhys(f, -1));
            double g = vg.dot(n), conv = std::max(aa + std::abs(va.dot(n) - g), ab + std::abs(vb.dot(n) - g));
            TU um = 0.5 * (a + b);
            double T = 0.5 * (pa + pb) / (R.gas.R * um(0)), mu = R.gas.mu;
            if (R.gas.model == 1)
                mu *= std::pow(T / R.gas.TRef, 1.5) * (R.gas.TRef + R.gas.CS) / (T + R.gas.CS);
            if (R.gas.model == 2)
                mu *= um(0);
            double mt = E.getMuTur(um, D, R.gas.mu, mu, f);
            double A = V.GetFaceArea(f), vi = V.GetCellVol(i), vj = j == DNDS::UnInitIndex ? vi : V.GetCellVol(j);
            double vis = (mu + mt) / um(0) * std::max(4. / 3., R.gamma / R.gas.pr) * A * (1 / vi + 1 / vj);
            lam[f] = conv + vis;
            double pas = std::abs(0.5 * (va + vb).dot(n) - g), dl = std::abs((vb - va).dot(n)) + std::sqrt(std::abs(ab * ab - aa * aa)) * 0.7071;
            double loss = 1e-6 * std::max(aa, ab); // the sound speeds' difference of near equal states
            VT_CHECK(near(E.lambdaFace[f], lam[f]) && near(E.lambdaFaceVis[f], vis, conv * 1e-3) && near(E.lambdaFaceC[f], pas + vis, conv) && near(E.lambdaFace0[f], conv) && near(E.lambdaFace123[f], conv) && near(E.lambdaFace4[f], conv) && std::abs(E.deltaLambdaFace[f] - dl) < 1e-9 * conv + loss,
                     "face-wave-speed", sig, ": face speeds ", E.lambdaFace[f], " (viscous ", E.lambdaFaceVis[f], ", convective ", E.lambdaFace0[f], " ", E.lambdaFace123[f], " ", E.lambdaFace4[f], ", passive ", E.lambdaFaceC[f], ", jump ", E.deltaLambdaFace[f], ") expected ", lam[f], " ", vis, " ", conv, " ", pas + vis, " ", dl);
        }
        double mn = 1e300;
        std::vector<double> want(m.NumCell());
        for (idx i = 0; i < m.NumCell(); i++)
        {
            double s = 0;
            for (auto f : m.cell2face[i])
                s += lam[f] * V.GetFaceArea(f);
            want[i] = std::min(maxDt, cfl * V.GetCellVol(i) * V.GetCellSmoothScaleRatio(i) / s);
            mn = std::min(mn, want[i]);
        }
        mn = -vt::maxAll(-mn);
        VT_CHECK(near(dtMin, mn), "dt-minimum", sig, ": the smallest time step is ", mn, ", reported ", dtMin);
        for (idx i = 0; i < m.NumCell(); i++)
        {
            double w = local ? want[i] : mn;
            VT_CHECK(near(dt[i](0), w), "dt-cell", sig, ": cell ", R.st.cell[i], " has time step ", dt[i](0), " expected ", w);
        }
        // smoothing of pseudo time steps never lengthens one and only averages with neighbours
        {
            DNDS::Euler::ArrayDOFV<1> a, b;
            V.BuildUDof(a, 1), V.BuildUDof(b, 1);
            uint64_t s0 = r.next();
            for (idx i = 0; i < m.NumCell(); i++)
                a[i](0) = std::pow(10., vt::Rng(vt::mix(s0, R.st.cell[i])).u(-3, 3));
            C::pull(a);
            E.MinSmoothDTau(a, b);
            for (idx i = 0; i < m.NumCell(); i++)
            {
                double s = 0, k = 0;
                for (auto f : m.cell2face[i])
                {
                    idx j = m.CellFaceOther(i, f);
                    if (j != DNDS::UnInitIndex)
                        s += a[j](0), k += 1;
                }
                double w = k ? std::min(a[i](0), 0.5 * (a[i](0) + s / k)) : a[i](0);
                VT_CHECK(near(b[i](0), w), "dtau-smooth", sig, ": smoothed pseudo time step ", b[i](0), " expected ", w);
            }
        }
        L().endCase(sig, m.NumCell() > 0);
    }

    // ---------------------------------------------------------------- wall distance
    inline double toSegment(const Pt &p, const Pt &a, const Pt &b)
    {
        Pt d = b - a;
        double t = std::clamp((p - a).dot(d) / d.squaredNorm(), 0., 1.);
        return (p - a - t * d).norm();
    }
    inline double toTriangle(const Pt &p, const Pt &a, const Pt &b, const Pt &c)
    {
        double best = std::min({toSegment(p, a, b), toSegment(p, b, c), toSegment(p, c, a)});
        Pt n = (b - a).cross(c - a);
        double n2 = n.squaredNorm();
        if (n2 <= 0)
            return best;
        double s = (p - a).dot(n) / n2;
        Pt q = p - s * n;
        double w0 = (b - q).cross(c - q).dot(n), w1 = (c - q).cross(a - q).dot(n), w2 = (a - q).cross(b - q).dot(n);
        if (w0 >= 0 && w1 >= 0 && w2 >= 0)
            best = std::min(best, std::abs(s) * std::sqrt(n2));
        return best;
    }
    template <EU::EulerModel M>
    void wallCase(const DNDS::MPIInfo &mpi, vt::Rng &r, int id)
    {
        using C = Run<M>;
        Opt o = randomOpt(r, C::gDim, true, true);
        if (r.p(0.3))
            o.order = 2, o.curve = r.u(0.02, 0.06), o.pert = std::min(o.pert, 0.1), o.pBody = 0;
        L().begin(vt::str("wall distance ", modelName(M), " ", o.str(), " np", mpi.size, " #", id));
        C R(mpi, o, r, L().curCase);
        if (!R.base(r, r.p(0.7) ? std::vector<std::string>{"WALL", "FAR", "BCWall", "BCWallInvis", "BCFar"} : r.p(0.8) ? ALL
                                                                                                                    : std::vector<std::string>{"FAR", "BCSym"}))
            return;
        R.randomFlow(r);
        static const int schemes[] = {0, 1, 2, 20};
        int sch = schemes[r.in(0, 3)], exe = int(r.in(0, 3)), load = r.p(0.5) ? int(r.in(1, 40)) : 32768;
        double ref = r.p(0.2) ? 1e9 : r.u(0, 0.4), lo = r.p(0.3) ? r.u(0.01, 0.2) : 1e-12;
        if (sch == 20 && r.p(0.6))
            load = int(r.in(1, 4)), ref = r.u(0.02, 0.2), lo = 1e-12;
        R.set["wallDistScheme"] = sch, R.set["wallDistExection"] = exe, R.set["wallDistCellLoadSize"] = load, R.set["wallDistRefineMax"] = ref, R.set["minWallDist"] = lo;
        std::string sig = vt::str(L().curCase, " ", R.desc, " scheme", sch, " exec", exe, " load", load, lo > 1e-3 ? " clamped" : "");
        R.evaluator();
        auto &V = *R.v;
        auto &E = *R.e;
        auto &m = *R.m;
        // all wall elements of all ranks
        std::vector<double> mine, all;
        double warp = 0;
        for (idx b = 0; b < m.NumBnd(); b++)
        {
            if (R.typeOf(m.GetBndZone(b)) != EU::BCWall)
                continue;
            idx f = m.bnd2face[b];
            G::tSmallCoords x;
            m.GetCoordsOnFace(f, x);
            int nv = m.GetFaceElement(f).GetNumVertices();
            for (int k = 0; k < 4; k++)
                for (int d = 0; d < 3; d++)
                    mine.push_back(x(d, std::min(k, nv - 1)));
            if (nv == 4)
            {
                Pt a = x.col(0), q = Pt(x.col(1) - x.col(0)).cross(Pt(x.col(2) - x.col(0))).normalized();
                warp = std::max(warp, std::abs((x.col(3) - a).dot(q)));
            }
            if (o.order == 2)
            { // midside nodes off the chords
                for (int k = nv; k < x.cols() && k < 2 * nv; k++)
                {
                    double best = 1e300;
                    for (int p = 0; p < nv; p++)
                        for (int q = p + 1; q < nv; q++)
                            best = std::min(best, (0.5 * (x.col(p) + x.col(q)) - x.col(k)).norm());
                    warp = std::max(warp, best);
                }
                if (x.cols() == 9)
                    warp = std::max(warp, (0.25 * (x.col(0) + x.col(1) + x.col(2) + x.col(3)) - x.col(8)).norm());
            }
        }
        warp = vt::maxAll(warp);
        int cnt = int(mine.size());
        std::vector<int> cs(mpi.size), ds(mpi.size, 0);
        MPI_Allgather(&cnt, 1, MPI_INT, cs.data(), 1, MPI_INT, mpi.comm);
        for (int k = 1; k < mpi.size; k++)
            ds[k] = ds[k - 1] + cs[k - 1];
        all.resize(ds.back() + cs.back() + 1);
        MPI_Allgatherv(mine.data(), cnt, MPI_DOUBLE, all.data(), cs.data(), ds.data(), MPI_DOUBLE, mpi.comm);
        int nw = (ds.back() + cs.back()) / 12;
        L().count("wall-elements", nw);
        auto dist = [&](const Pt &p)
        {
            double best = 1e300;
            for (int w = 0; w < nw; w++)
            {
                Pt x[4];
                for (int k = 0; k < 4; k++)
                    x[k] = Pt(all[w * 12 + k * 3], all[w * 12 + k * 3 + 1], all[w * 12 + k * 3 + 2]);
                if (C::gDim == 2)
                    best = std::min(best, toSegment(p, x[0], x[1]));
                else
                {
                    best = std::min(best, toTriangle(p, x[0], x[1], x[2]));
                    if ((x[3] - x[2]).norm() > 0)
                        best = std::min(best, toTriangle(p, x[0], x[2], x[3]));
                }
            }
            return best;
        };
        VT_CHECK(idx(E.dWall.size()) == m.NumCellProc(), "wall-distance-all-cells", sig, ": distances for ", E.dWall.size(), " of ", m.NumCellProc(), " cells");
        double nRef = 0;
        for (idx i = 0; i < m.NumCellProc(); i++)
        {
            int nq = V.GetCellQuad(i).GetNumPoints();
            VT_CHECK(E.dWall.at(i).size() == nq, "wall-distance-points", sig, ": ", E.dWall[i].size(), " distances for ", nq, " points");
            for (int g = 0; g < nq && g < E.dWall[i].size(); g++)
            {
                Pt p = V.GetCellQuadraturePPhys(i, g);
                double got = E.dWall[i][g];
                if (!nw)
                {
                    VT_CHECK(got > 1e20, "wall-distance-none", sig, ": no wall anywhere but a wall distance of ", got);
                    continue;
                }
                double d = dist(p), want = std::max(d, lo);
                bool exact = sch == 0 || (sch == 20 && d > ref * (1 + 1e-9)); // chords and split quadrilaterals, the others follow the face's points
                nRef += sch == 20 && d <= ref;
                double tol = 1e-9 * (1 + d) + (exact ? 0 : 2 * warp);
                if (sch == 20 && std::abs(want - ref) < 1e-9)
                    continue;
                VT_CHECK(std::abs(got - want) < tol, "wall-distance", sig, ": point (", p.transpose(), ") of cell ", R.st.cell[i], " is ", d, " from the nearest wall, the solver has ", got, " (deviation allowed ", tol, ")");
            }
        }
        L().count("refined-points", int64_t(nRef));
        if (sch == 20)
        { // near walls the refined distance is that of the distributed search, elsewhere the plain one
            auto keep = R.e;
            R.set["wallDistScheme"] = 2;
            R.evaluator();
            auto fine = R.e;
            R.set["wallDistScheme"] = 0;
            R.evaluator();
            auto plain = R.e;
            for (idx i = 0; i < m.NumCellProc(); i++)
                for (int g = 0; g < keep->dWall[i].size(); g++)
                {
                    double p = plain->dWall[i][g], f = fine->dWall[i][g], k = keep->dWall[i][g];
                    VT_CHECK(std::abs(k - (p <= ref ? f : p)) <= 1e-12 * k || !nw, "wall-distance-refined", sig, ": point ", g, " of cell ", R.st.cell[i], " has distance ", k, ", plain ", p, " refined ", f, " refinement below ", ref);
                }
            R.e = keep;
        }
        for (idx f = 0; f < m.NumFaceProc(); f++)
        {
            idx i = m.face2cell(f, 0), j = m.face2cell(f, 1);
            double w = E.dWall[i].mean();
            if (j != DNDS::UnInitIndex)
                w = 0.5 * (w + E.dWall[j].mean());
            VT_CHECK(E.dWallFace[f] == w || std::abs(E.dWallFace[f] - w) < 1e-12 * w, "wall-distance-face", sig, ": face distance ", E.dWallFace[f], " expected ", w);
        }
        L().endCase(sig, nw > 0);
    }

    // ---------------------------------------------------------------- implicit operators
    template <EU::EulerModel M>
    void impCase(const DNDS::MPIInfo &mpi, vt::Rng &r, int id)
    {
        using C = Run<M>;
        constexpr int NV = C::NV, dim = C::dim, I4 = C::I4;
        using TU = typename C::TU;
        using TVec = typename C::TVec;
        using TJ = Eigen::Matrix<double, NV, NV>;
        Opt o = randomOpt(r, C::gDim, true, true);
        L().begin(vt::str("implicit ", modelName(M), " ", o.str(), " np", mpi.size, " #", id));
        C R(mpi, o, r, L().curCase);
        if (!R.base(r, ALL, 2))
            return;
        R.randomFlow(r);
        auto &V = *R.v;
        auto &m = *R.m;
        double bend = 0;
        for (idx f = 0; f < m.NumFaceProc(); f++)
            bend = std::max(bend, std::abs(V.GetFaceNorm(f, -1).norm() - 1));
        bend = vt::maxAll(bend);
        bool roe = bend < 1e-13 && r.p(0.5);
        R.set["useRoeJacobian"] = roe;
        R.set["ignoreSourceTerm"] = !C::SA && !C::KE && !R.rot && !R.set.count("constMassForce") && r.p(0.4);
        R.evaluator();
        auto &E = *R.e;
        typename C::Dof u, rhs, x, y, z, ax;
        typename C::Rec rec, rinc;
        DNDS::Euler::ArrayDOFV<1> beta, alpha, dTau;
        V.BuildUDof(rhs, NV), V.BuildUDof(x, NV), V.BuildUDof(y, NV), V.BuildUDof(z, NV), V.BuildUDof(ax, NV), V.BuildUDof(beta, 1), V.BuildUDof(alpha, 1), V.BuildUDof(dTau, 1);
        V.BuildURec(rinc, NV);
        beta.setConstant(1.0), alpha.setConstant(1.0);
        uint64_t s0 = r.next();
        R.randomFields(u, rec, s0, 0.05, r.p(0.3) ? 2 : r.p(0.3) ? 0.1
                                                                : 1);
        double dtm, cfl = std::pow(10., r.u(-1, 1)), dtI = r.p(0.5) ? 1e100 : std::pow(10., r.u(-3, 1)), al = r.p(0.5) ? 1. : r.u(0.2, 1);
        E.EvaluateDt(dTau, u, rec, cfl, dtm, 1e100, true);
        EU::JacobianDiagBlock<NV> J, D;
        bool blk = roe || r.p(0.5);
        J.SetModeAndInit(blk, NV, u), D.SetModeAndInit(blk, NV, u);
        E.EvaluateRHS(rhs, J, u, rec, rec, beta, alpha, false, R.t, 0);
        std::string sig = vt::str(L().curCase, " ", R.desc, roe ? " roe" : "", blk ? " block" : " diag", " alpha", al < 1, " dt", dtI < 1e90);
        E.LUSGSMatrixInit(D, J, dTau, dtI, al, u, rec, 0, R.t);
        L().count("implicit-cases");
        for (idx i = 0; i < m.NumCell(); i++)
        {
            vt::Rng q(vt::mix(s0 + 3, R.st.cell[i]));
            TU a, b;
            for (int k = 0; k < NV; k++)
                a[k] = q.u(-1, 1) * 0.1 * (std::abs(u[i](k)) + 0.1 * u[i](0)), b[k] = q.u(-1, 1);
            x[i] = a, rhs[i] = b;
        }
        C::pull(x), C::pull(rhs);
        // ---- the matrix, written from the linearised flux
        auto jac = [&](double rho, const TVec &v, double H, const TVec &n, const TU &like) -> TJ
        { // d(normal flux)/d(conservative) at velocity v and total enthalpy H
            TJ A = TJ::Zero();
            double un = v.dot(n), g1 = R.gamma - 1;
            for (int c = 0; c < NV; c++)
            {
                TU d = TU::Unit(c);
                TVec mm;
                for (int k = 0; k < dim; k++)
                    mm[k] = d(1 + k);
                double mn = mm.dot(n), dr = d(0), dp = g1 * (d(I4) - v.dot(mm) + 0.5 * v.squaredNorm() * dr);
                A(0, c) = mn;
                for (int k = 0; k < dim; k++)
                    A(1 + k, c) = un * mm[k] + v[k] * mn - v[k] * un * dr + n[k] * dp;
                A(I4, c) = H * (mn - un * dr) + un * (d(I4) + dp);
                for (int k = I4 + 1; k < NV; k++)
                    A(k, c) = d(k) * un + like(k) * (mn - un * dr) / rho;
            }
            return A;
        };
        auto enth = [&](const TU &w)
        { return (w(I4) + R.press(w)) / w(0); };
        // dissipation acting on differences: |A| with the face's wave speeds (Roe) or the spectral radius
        auto diss = [&](idx f, int side, const TU &a, const TU &b, const TVec &n) -> TJ
        {
            TJ Q = TJ::Identity() * E.lambdaFace[f];
            if (!roe)
                return Q;
            double sa = std::sqrt(a(0)), sb = std::sqrt(b(0));
            TVec v = (sa * C::velo(a) + sb * C::velo(b)) / (sa + sb);
            double H = (sa * enth(a) + sb * enth(b)) / (sa + sb), c2 = (R.gamma - 1) * (H - 0.5 * v.squaredNorm()), c = std::sqrt(c2), un = v.dot(n);
            TJ A = jac(1, v, H, n, TU::Zero()), I = TJ::Identity();
            TJ Am = A - (un - c) * I, A0 = A - un * I, Ap = A - (un + c) * I;
            double l0 = side ? E.lambdaFace4[f] : E.lambdaFace0[f], l4 = side ? E.lambdaFace0[f] : E.lambdaFace4[f];
            TJ X = l0 * (A0 * Ap) / (2 * c2) - E.lambdaFace123[f] * (Am * Ap) / c2 + l4 * (Am * A0) / (2 * c2);
            constexpr int ne = I4 + 1;
            Q.topLeftCorner(ne, ne) = X.topLeftCorner(ne, ne);
            Q.topLeftCorner(ne, ne).diagonal().array() += E.lambdaFaceVis[f];
            return Q;
        };
        struct Off
        {
            idx j;
            TJ B;
        };
        std::vector<TJ> Dg(m.NumCell());
        std::vector<std::vector<Off>> off(m.NumCell());
        double lossMax = 0;
        for (idx i = 0; i < m.NumCell(); i++)
        {
            Dg[i] = TJ::Identity() * (1 / dTau[i](0) + 1 / dtI);
            for (auto f : m.cell2face[i])
            {
                idx j = m.CellFaceOther(i, f);
                int side = V.CellIsFaceBack(i, f) ? 0 : 1;
                Pt n3 = V.GetFaceNormFromCell(f, i, side, -1) * (side ? -1. : 1.);
                TVec n;
                for (int d = 0; d < dim; d++)
                    n[d] = n3[d];
                double w = 0.5 * al * V.GetFaceArea(f) / V.GetCellVol(i);
                TU uj = j == DNDS::UnInitIndex ? TU(u[i]) : TU(u[j]);
                Eigen::Matrix3d Q = Eigen::Matrix3d::Identity();
                if (j != DNDS::UnInitIndex)
                    Q = R.frame(f, i, side, j), C::turn(uj, Q);
                Dg[i] += w * diss(f, side, u[i], uj, n);
                if (j == DNDS::UnInitIndex)
                    continue;
                TVec vg = R.vGrid(V.GetFaceQuadraturePPhysFromCell(f, i, side, -1));
                TJ T = TJ::Identity();
                T.template block<dim, dim>(1, 1) = Q.topLeftCorner(dim, dim);
                TJ B = jac(uj(0), C::velo(uj), enth(uj), n, uj) - vg.dot(n) * TJ::Identity() - diss(f, side, uj, u[i], n);
                off[i].push_back({j, w * B * T});
            }
            if (!R.set["ignoreSourceTerm"].template get<bool>())
                Dg[i] += al * TJ(J.getValue(i));
            TJ got = D.getValue(i);
            double sc = Dg[i].cwiseAbs().maxCoeff();
            VT_CHECK((got - Dg[i]).cwiseAbs().maxCoeff() < 1e-8 * sc, "implicit-diagonal", sig, ": diagonal block of cell ", R.st.cell[i], " is\n", got, "\nexpected\n", Dg[i]);
        }
        auto row = [&](idx i, auto &&val) -> TU
        {
            TU s = TU::Zero();
            for (auto &q : off[i])
                s += q.B * TU(val(q.j));
            return s;
        };
        auto scaleOf = [&](idx i, typename C::Dof &w)
        {
            double s = Dg[i].cwiseAbs().maxCoeff() * w[i].cwiseAbs().maxCoeff();
            for (auto &q : off[i])
                s += q.B.cwiseAbs().maxCoeff() * w[q.j].cwiseAbs().maxCoeff();
            return s + 1e-300;
        };
        E.LUSGSMatrixVec(al, u, x, D, ax);
        for (idx i = 0; i < m.NumCell(); i++)
        {
            TU want = Dg[i] * x[i] + row(i, [&](idx j)
                                        { return x[j]; });
            VT_CHECK((ax[i] - want).cwiseAbs().maxCoeff() < 1e-9 * scaleOf(i, x), "implicit-product", sig, ": row of cell ", R.st.cell[i], " gives ", ax[i].transpose(), " expected ", want.transpose());
        }
        // ---- sweeps: each reproduces the splitting applied to the same data
        auto worst = [&](typename C::Dof &a, const std::vector<TU> &b)
        {
            double e = 0, s = 1e-300;
            for (idx i = 0; i < m.NumCell(); i++)
                e = std::max(e, (a[i] - b[i]).cwiseAbs().maxCoeff()), s = std::max(s, b[i].cwiseAbs().maxCoeff());
            return std::isfinite(e) ? e / s : 1e300;
        };
        std::vector<Eigen::PartialPivLU<TJ>> inv(m.NumCell());
        double cond = 1;
        for (idx i = 0; i < m.NumCell(); i++)
        {
            inv[i].compute(Dg[i]);
            cond = std::max(cond, 1 / std::max(inv[i].rcond(), 1e-16));
        }
        cond = vt::maxAll(cond);
        double tol = 1e-10 * std::max(10., cond);
        int N = m.NumCell();
        if (tol < 1e-4)
        {
            for (int fwd = 1; fwd >= 0; fwd--)
                for (int inPlace = 0; inPlace < 2; inPlace++)
                {
                    std::vector<TU> a(m.NumCellProc()), b(N), old(N);
                    for (idx i = 0; i < m.NumCellProc(); i++)
                    {
                        y[i] = x[i], z[i] = x[i] * 0.3, a[i] = x[i];
                        if (i < N)
                            b[i] = z[i], old[i] = inPlace ? TU(y[i]) : TU(z[i]);
                    }
                    TU sum, want = TU::Zero();
                    E.UpdateSGS(al, rhs, u, y, inPlace ? y : z, D, fwd, sum);
                    for (int k = 0; k < N; k++)
                    {
                        idx i = fwd ? k : N - 1 - k;
                        b[i] = inv[i].solve(TU(rhs[i] - row(i, [&](idx j)
                                                            { return a[j]; })));
                        if (inPlace)
                            a[i] = b[i];
                        want += (b[i] - old[i]).cwiseAbs();
                    }
                    VT_CHECK(worst(inPlace ? y : z, b) < tol, "implicit-sweep", sig, ": ", fwd ? "forward" : "backward", inPlace ? " Gauss-Seidel" : " Jacobi", " sweep is off by ", worst(inPlace ? y : z, b));
                    for (int k = 0; k < NV; k++)
                        want[k] = vt::sumAll(want[k]);
                    VT_CHECK((sum - want).cwiseAbs().maxCoeff() < tol * want.cwiseAbs().maxCoeff() * 10, "implicit-sweep-change", sig, ": reported change ", sum.transpose(), " actual ", want.transpose());
                }
            { // LU-SGS: lower sweep from zero, then upper
                for (idx i = 0; i < m.NumCellProc(); i++)
                    y[i].setZero();
                E.UpdateLUSGSForward(al, rhs, u, y, D, y);
                C::pull(y);
                std::vector<TU> a(m.NumCellProc(), TU(TU::Zero()));
                for (idx i = 0; i < N; i++)
                {
                    TU s = rhs[i];
                    for (auto &q : off[i])
                        if (q.j < i)
                            s -= q.B * a[q.j];
                    a[i] = inv[i].solve(s);
                }
                std::vector<TU> b(a.begin(), a.begin() + N);
                VT_CHECK(worst(y, b) < tol, "implicit-lusgs-forward", sig, ": forward LU-SGS is off by ", worst(y, b));
                for (idx i = N; i < m.NumCellProc(); i++)
                    a[i] = y[i]; // the neighbours' result of the forward pass
                E.UpdateLUSGSBackward(al, rhs, u, y, D, y);
                for (idx i = N - 1; i >= 0; i--)
                {
                    TU s = TU::Zero();
                    for (auto &q : off[i])
                        if (q.j > i)
                            s -= q.B * a[q.j];
                    a[i] += inv[i].solve(s);
                }
                b.assign(a.begin(), a.begin() + N);
                VT_CHECK(worst(y, b) < tol, "implicit-lusgs-backward", sig, ": backward LU-SGS is off by ", worst(y, b));
            }
            if (!o.sector)
            { // the sweep with a reconstruction increment: the same with none, and it reports its change
                for (idx i = 0; i < m.NumCellProc(); i++)
                    y[i] = x[i], rinc[i].setZero();
                TU sum, want = TU::Zero();
                std::vector<TU> a(m.NumCellProc()), b(N);
                for (idx i = 0; i < m.NumCellProc(); i++)
                    a[i] = x[i];
                bool fwd = r.p(0.5);
                E.UpdateSGSWithRec(al, rhs, u, rec, y, rinc, D, fwd, sum);
                for (int k = 0; k < N; k++)
                {
                    idx i = fwd ? k : N - 1 - k;
                    b[i] = inv[i].solve(TU(rhs[i] - row(i, [&](idx j)
                                                        { return a[j]; })));
                    want += (b[i] - a[i]).cwiseAbs();
                    a[i] = b[i];
                }
                VT_CHECK(worst(y, b) < tol, "implicit-rec-sweep", sig, ": sweep with reconstruction increment is off by ", worst(y, b));
                for (int k = 0; k < NV; k++)
                    want[k] = vt::sumAll(want[k]);
                VT_CHECK((sum - want).cwiseAbs().maxCoeff() < tol * want.cwiseAbs().maxCoeff() * 10, "implicit-rec-sweep-change", sig, ": reported change ", sum.transpose(), " actual ", want.transpose());
            }
        }
        // ---- the local direct factorisation
        {
            DNDS::Direct::DirectPrecControl ctl;
            ctl.useDirectPrec = true;
            ctl.iluCode = -1;
            ctl.orderingCode = int(r.in(0, 1)); // the minimum-degree ordering has a known finding on complete graphs (C13)
            m.ObtainLocalFactFillOrdering(*E.symLU, ctl);
            m.ObtainSymmetricSymbolicFactorization(*E.symLU, ctl);
            EU::JacobianLocalLU<NV> lu(E.symLU, NV);
            E.LUSGSMatrixToJacobianLU(al, u, D, lu);
            typename C::Dof bb;
            V.BuildUDof(bb, NV);
            for (idx i = 0; i < m.NumCellProc(); i++)
                y[i] = x[i], z[i].setZero();
            TU sum;
            E.LUSGSMatrixSolveJacobianLU(al, rhs, u, y, z, bb, D, lu, sum);
            double e = 0, sc = 1e-300;
            TU want = TU::Zero();
            for (idx i = 0; i < N; i++)
            {
                TU s = Dg[i] * z[i];
                double mag = Dg[i].cwiseAbs().maxCoeff() * z[i].cwiseAbs().maxCoeff();
                for (auto &q : off[i])
                    s += q.B * TU(q.j < N ? z[q.j] : x[q.j]), mag += q.B.cwiseAbs().maxCoeff() * (q.j < N ? z[q.j] : x[q.j]).cwiseAbs().maxCoeff();
                e = std::max(e, (s - rhs[i]).cwiseAbs().maxCoeff()), sc = std::max({sc, mag, rhs[i].cwiseAbs().maxCoeff()});
                want += (x[i] - z[i]).cwiseAbs();
            }
            VT_CHECK(std::isfinite(e) && e < 1e-9 * sc, "implicit-direct", sig, ": complete factorisation of the rank's block leaves a residual of ", e, " of ", sc);
            for (int k = 0; k < NV; k++)
                want[k] = vt::sumAll(want[k]);
            VT_CHECK((sum - want).cwiseAbs().maxCoeff() < 1e-9 * (want.cwiseAbs().maxCoeff() + 1e-300), "implicit-direct-change", sig, ": reported change ", sum.transpose(), " actual ", want.transpose());
        }
        L().endCase(sig, m.NumCell() > 0);
    }
}
