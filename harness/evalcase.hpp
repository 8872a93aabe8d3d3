// A mesh, its reconstruction and an Euler evaluator with random settings and boundary conditions.
#pragma once
#include "vt.hpp"
#include "meshgen.hpp"
#include "meshpipe.hpp"
#include "Euler/EulerEvaluator.hpp"

namespace ec
{
    using namespace mg;
    using namespace mp;
    using vt::L;
    namespace G = DNDS::Geom;
    namespace EU = DNDS::Euler;
    namespace Gas = DNDS::Euler::Gas;
    using DNDS::real;
    using idx = DNDS::index;
    using Pt = G::tPoint;
    using Mat = Eigen::MatrixXd;
    using Vx = Eigen::VectorXd;
    using json = nlohmann::ordered_json;

    template <EU::EulerModel M>
    struct Case
    {
        static constexpr int gDim = EU::getGeomDim_Fixed(M), dim = EU::getDim_Fixed(M), NV = EU::getnVarsFixed(M), I4 = dim + 1;
        using Eval = EU::EulerEvaluator<M>;
        using TU = typename Eval::TU;
        using VR = DNDS::CFV::VariationalReconstruction<gDim>;
        using Dof = EU::ArrayDOFV<NV>;
        using Rec = EU::ArrayRECV<NV>;
        Spec spec;
        std::unique_ptr<Ref> ref;
        MeshP m;
        State st;
        std::string what;
        DNDS::MPIInfo mpi;
        std::shared_ptr<EU::BoundaryHandler<M>> bc;
        std::shared_ptr<VR> v;
        std::shared_ptr<Eval> e;
        json bcJson = json::array(), set;
        std::map<int, json> bcOf; // id -> definition (custom ids)
        double gamma = 1.4;
        bool rot = false;
        Eigen::Vector3d omega{0, 0, 0}, rotC{0, 0, 0};
        TU far;

        static TU consOf(double rho, const Eigen::VectorXd &vel, double p, double gamma, vt::Rng &r)
        {
            TU u;
            u.setZero();
            u(0) = rho;
            double k = 0;
            for (int d = 0; d < dim; d++)
                u(1 + d) = rho * vel[d], k += vel[d] * vel[d];
            u(I4) = p / (gamma - 1) + 0.5 * rho * k;
            for (int i = I4 + 1; i < NV; i++)
                u(i) = rho * r.u(0.1, 2);
            return u;
        }
        static TU randState(vt::Rng &r, double gamma, double mach = 1.0)
        {
            Vx vel(dim);
            for (int d = 0; d < dim; d++)
                vel[d] = r.u(-1.5, 1.5) * mach;
            return consOf(r.u(0.5, 2), vel, r.u(0.5, 2), gamma, r);
        }

        Case(const DNDS::MPIInfo &mp_, const Opt &o, vt::Rng &r, const std::string &w) : what(w), mpi(mp_)
        {
            spec = make(o, r.next());
        }
        // gives every zone of the boundary a condition; kinds: names of the types to draw from
        void boundaries(vt::Rng &r, const std::vector<std::string> &kinds, int intOpt = -1)
        {
            bc = std::make_shared<EU::BoundaryHandler<M>>(NV);
            std::map<int, int> zmap;
            int next = G::BC_ID_DEFAULT_MAX;
            for (auto &b : spec.bnds)
                if (b.zone > 0 && !zmap.count(b.zone))
                {
                    std::string k = kinds[r.in(0, int(kinds.size()) - 1)];
                    if (k == "WALL" || k == "FAR" || k == "WALL_INVIS")
                    {
                        zmap[b.zone] = k == "WALL" ? G::BC_ID_DEFAULT_WALL : k == "FAR" ? G::BC_ID_DEFAULT_FAR
                                                                                        : G::BC_ID_DEFAULT_WALL_INVIS;
                        continue;
                    }
                    json j;
                    j["type"] = k;
                    j["name"] = vt::str("bc", next);
                    TU val = randState(r, gamma);
                    if (k == "BCInPsTs")
                    {
                        val(0) = r.u(1, 3), val(1) = r.u(1, 3);
                        for (int d = 0; d < dim; d++)
                            val(2 + d) = r.u(-1, 1);
                    }
                    std::vector<double> vv(val.data(), val.data() + NV);
                    if (k == "BCFar" || k == "BCOut" || k == "BCOutP" || k == "BCIn" || k == "BCInPsTs")
                        j["value"] = vv;
                    j["integrationOption"] = intOpt >= 0 ? intOpt : int(r.in(0, 2));
                    bcJson.push_back(j);
                    bcOf[next] = j;
                    zmap[b.zone] = next++;
                }
            for (auto &b : spec.bnds)
                if (b.zone > 0)
                    b.zone = zmap[b.zone];
            from_json(bcJson, *bc);
        }
        bool mesh(vt::Rng &r)
        {
            ref = std::make_unique<Ref>(spec);
            PipeOpt po;
            po.part.metisSeed = int(r.in(0, 5));
            m = readMesh(mpi, spec, po, L().scratch + "/ev.cgns", r.next());
            m->BuildGhostPrimary();
            m->AdjGlobal2LocalPrimary();
            st = checkPrimary(*m, *ref, "mesh", false);
            if (!st.ok)
                return false;
            m->InterpolateFace();
            m->AssertOnFaces();
            n2cb(*m);
            return true;
        }
        void reconstruction(const std::function<void(DNDS::CFV::VRSettings &)> &f, bool coeff = true)
        {
            v = std::make_shared<VR>(mpi, m);
            f(v->settings);
            if (m->isPeriodic)
            {
                auto *me = m.get();
                v->SetPeriodicTransformations(
                    [me](Eigen::Ref<DNDS::MatrixXR> u, G::t_index id)
                    {
                        Eigen::Matrix<real, dim, Eigen::Dynamic> t = u(Eigen::all, Eigen::seq(1, dim)).transpose();
                        u(Eigen::all, Eigen::seq(1, dim)) = me->periodicInfo.template TransVector<dim, Eigen::Dynamic>(t, id).transpose();
                    },
                    [me](Eigen::Ref<DNDS::MatrixXR> u, G::t_index id)
                    {
                        Eigen::Matrix<real, dim, Eigen::Dynamic> t = u(Eigen::all, Eigen::seq(1, dim)).transpose();
                        u(Eigen::all, Eigen::seq(1, dim)) = me->periodicInfo.template TransVectorBack<dim, Eigen::Dynamic>(t, id).transpose();
                    });
            }
            v->ConstructMetrics();
            v->ConstructBaseAndWeight(
                [this](G::t_index id, int o) -> real
                {
                    auto t = bc->GetTypeFromID(id);
                    if (t == EU::BCSpecial || t == EU::BCOut)
                        return 0;
                    if (G::FaceIDIsPeriodic(id))
                        return 1.;
                    return o ? 0. : 1.;
                });
            if (coeff)
                v->ConstructRecCoeff();
        }
        // settings start from what the solver writes as its defaults
        void settings(vt::Rng &r)
        {
            EU::EulerEvaluatorSettings<M> d;
            d.farFieldStaticValue = far;
            d.ReadWriteJSON(set, NV, false);
            set["idealGasProperty"]["gamma"] = gamma;
        }
        void setFar(const TU &f)
        {
            far = f;
        }
        void evaluator()
        {
            set["farFieldStaticValue"] = std::vector<double>(far.data(), far.data() + NV);
            e = std::make_shared<Eval>(m, v, bc, set);
        }
        // rotation about z that carries the frame of cell j into that of cell i across face f
        Eigen::Matrix3d frame(idx f, idx i, int side, idx j)
        {
            Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
            if (!spec.opt.sector || !G::FaceIDIsPeriodic(m->GetFaceZone(f)))
                return R;
            Pt xi = v->GetFaceQuadraturePPhysFromCell(f, i, side, -1), xj = v->GetFaceQuadraturePPhysFromCell(f, j, 1 - side, -1);
            Eigen::Vector3d c(spec.rotC[0], spec.rotC[1], spec.rotC[2]);
            if ((xi - xj).head<2>().norm() < 1e-9)
                return R; // a translational direction
            double best = 1e300;
            Eigen::Matrix3d B = R;
            for (int s = -1; s <= 1; s += 2)
            {
                double t = s * spec.theta;
                Eigen::Matrix3d Q;
                Q << std::cos(t), -std::sin(t), 0, std::sin(t), std::cos(t), 0, 0, 0, 1;
                double e = (Q * (xj - c) - (xi - c)).head<2>().norm();
                if (e < best)
                    best = e, B = Q;
            }
            return B;
        }
        template <class V>
        static void turn(V &&u, const Eigen::Matrix3d &R)
        {
            Eigen::Matrix<real, dim, 1> t = R.topLeftCorner(dim, dim) * u(Eigen::seq(1, dim));
            u(Eigen::seq(1, dim)) = t;
        }
        template <class F>
        void fill(Dof &u, F &&f)
        {
            for (idx i = 0; i < m->NumCellProc(); i++)
            {
                vt::Rng q(vt::mix(9781, st.cell[i]));
                u[i] = f(i, q);
            }
        }
    };
}
