// C22: configuration written, read, patched and logged.  C23: recorders, profiles and the lift driver.
#include "vt.hpp"
#include "Euler/EulerSolver.hpp"
#include <filesystem>
using vt::L;
using namespace DNDS;
using namespace DNDS::Euler;
using json = nlohmann::ordered_json;
namespace fs = std::filesystem;

static std::vector<std::string> enumOf(const std::string &key)
{
    static std::map<std::string, std::vector<std::string>> m{
        {"riemannSolverType", {"Roe", "HLLC", "HLLEP", "HLLEP_V1", "Roe_M1", "Roe_M2", "Roe_M3", "Roe_M4", "Roe_M5"}},
        {"ransModel", {"RANS_None", "RANS_SA", "RANS_KOWilcox", "RANS_KOSST", "RANS_RKE"}},
        {"scaleType", {"MeanAACBB", "BaryDiff"}},
        {"dirWeightScheme", {"Factorial", "HQM_OPT", "ManualDirWeight", "TEST_OPT"}},
        {"geomWeightScheme", {"GWNone", "HQM_SD", "SD_Power"}},
        {"anisotropicType", {"InertiaCoord", "InertiaCoordBB"}},
        {"meshElevationRBFKernel", {"Distance", "DistanceA1", "InversedDistanceA1", "InversedDistanceA1Compact", "Gaussian", "CPC2", "CPC0"}}};
    std::string k = key;
    if (k == "riemannSolverTypeAux" || k == "riemannSolverTypeWall")
        k = "riemannSolverType";
    auto it = m.find(k);
    return it == m.end() ? std::vector<std::string>{} : it->second;
}
static std::string randStr(vt::Rng &r)
{
    static const std::string c = "abcXYZ019_./-+ {}:\"\\";
    std::string s;
    int n = int(r.in(0, 12));
    for (int i = 0; i < n; i++)
        s += c[r.next() % c.size()];
    return s;
}
static real randReal(vt::Rng &r)
{
    switch (r.in(0, 4))
    {
    case 0:
        return double(r.in(-20, 20));
    case 1:
        return r.u(-1, 1);
    case 2:
        return std::pow(10., r.u(-30, 30));
    case 3:
        return -std::pow(10., r.u(-12, 12));
    default:
        return 0.1 * double(r.in(-50, 50));
    }
}
// gives every leaf another value of the same kind; the kind of a number is what the code itself wrote by default
static void mutate(json &j, vt::Rng &r, const std::string &key, double pr, const std::string &path)
{
    static const std::set<std::string> keepPath{"/dataIOControl/outPltName", "/dataIOControl/outLogName", "/dataIOControl/outRestartName"};
    if (keepPath.count(path))
        return;
    if (j.is_object())
    {
        for (auto it = j.begin(); it != j.end(); ++it)
            mutate(it.value(), r, it.key(), pr, path + "/" + it.key());
        return;
    }
    if (j.is_array())
    {
        if (j.empty() ? key.find("Names") != std::string::npos : j[0].is_string())
        {
            if (!r.p(pr))
                return;
            j = json::array();
            for (int n = int(r.in(0, 4)); n > 0; n--)
                j.push_back(randStr(r));
            return;
        }
        for (auto &e : j)
            mutate(e, r, key, pr, path);
        return;
    }
    if (!r.p(pr))
        return;
    if (j.is_boolean())
        j = !j.get<bool>();
    else if (key == "cacheDiffBaseSize")
        j = r.in(0, 255);
    else if (key == "CLconvergeLongThreshold") // a tolerance on the lift coefficient
        j = std::pow(10., r.u(-8, 0));
    else if (j.is_number_integer())
        j = r.in(-1000, 1000000);
    else if (j.is_number_float())
        j = randReal(r);
    else if (j.is_string())
    {
        auto e = enumOf(key);
        if (e.size())
            j = e[r.next() % e.size()];
        else
            j = randStr(r);
    }
}
// every value asked for is there, equal, in what came back (more keys may have come)
static void compare(const json &want, const json &got, const std::string &path, const std::string &key)
{
    if (want.is_object())
    {
        for (auto it = want.begin(); it != want.end(); ++it)
        {
            bool have = got.is_object() && got.count(it.key());
            VT_CHECK(have, key, path, "/", it.key(), " was lost");
            if (have)
                compare(it.value(), got.at(it.key()), path + "/" + it.key(), key);
        }
        return;
    }
    if (want.is_array())
    {
        VT_CHECK(got.is_array() && got.size() == want.size(), key, path, ": asked ", want.dump(), " got ", got.dump());
        if (got.is_array() && got.size() == want.size())
            for (size_t i = 0; i < want.size(); i++)
                compare(want[i], got[i], path + "/" + std::to_string(i), key);
        return;
    }
    bool ok;
    if (want.is_number() && got.is_number())
        ok = path.find("frameConstRotation/axis") != std::string::npos ? vt::close(want.get<double>(), got.get<double>(), 1e-14, 1e-15)
                                                                       : want.get<double>() == got.get<double>();
    else
        ok = want == got;
    VT_CHECK(ok, key, path, ": asked ", want.dump(), " got ", got.dump());
}

template <EulerModel model>
json genBCs(vt::Rng &r, int nVars)
{
    static const char *types[] = {"BCFar", "BCWall", "BCWallInvis", "BCOut", "BCOutP", "BCIn", "BCInPsTs", "BCSym", "BCSpecial"};
    json a = json::array();
    int n = int(r.in(0, 6));
    for (int i = 0; i < n; i++)
    {
        json b;
        std::string t = types[r.in(0, 8)];
        b["type"] = t;
        b["name"] = vt::str("bc_", i, "_", r.in(0, 9));
        bool valued = t == "BCFar" || t == "BCOut" || t == "BCOutP" || t == "BCIn" || t == "BCInPsTs";
        if (valued)
        {
            b["value"] = json::array();
            for (int k = 0; k < nVars; k++)
                b["value"].push_back(randReal(r));
        }
        auto opt = [&](const char *k)
        {
            if (r.p(0.6))
                b[k] = uint32_t(r.in(0, 5));
        };
        opt("integrationOption");
        if (t != "BCSym")
            opt("frameOption");
        if (valued)
            opt("anchorOption");
        else if (t == "BCSym")
            opt("rectifyOption");
        else
            opt("specialOption");
        if (r.p(0.5))
        {
            b["valueExtra"] = json::array();
            for (int k = int(r.in(0, 4)); k > 0; k--)
                b["valueExtra"].push_back(randReal(r));
        }
        a.push_back(b);
    }
    return a;
}
static json fullBCs(json a) // the documented defaults filled in
{
    for (auto &b : a)
    {
        std::string t = b["type"];
        bool valued = b.count("value");
        auto d = [&](const char *k)
        {
            if (!b.count(k))
                b[k] = 0;
        };
        d("integrationOption");
        if (t != "BCSym")
            d("frameOption");
        d(valued ? "anchorOption" : t == "BCSym" ? "rectifyOption"
                                                 : "specialOption");
        if (!b.count("valueExtra"))
            b["valueExtra"] = json::array();
    }
    return a;
}
template <EulerModel model>
void bcCase(vt::Rng &r, const std::string &id)
{
    L().begin(id + " bc");
    int nVars = getNVars(model);
    json a = genBCs<model>(r, nVars);
    L().sample(a.dump());
    BoundaryHandler<model> h(nVars);
    auto nDefault = h.size();
    from_json(a, h);
    json w = h;
    compare(fullBCs(a), w, "", "cfg.bc.roundtrip");
    BoundaryHandler<model> h2(nVars);
    from_json(w, h2);
    VT_CHECK(json(h2) == w, "cfg.bc.stable", json(h2).dump(), " vs ", w.dump());
    VT_CHECK(h.size() == nDefault + int(a.size()), "cfg.bc.size", h.size());
    json f = fullBCs(a);
    std::set<int> ids;
    for (auto &b : f)
    {
        auto id = h.GetIDFromName(b["name"]);
        VT_CHECK(id >= nDefault && id < h.size() && !ids.count(id), "cfg.bc.id", id, " for ", b["name"].dump());
        ids.insert(id);
        VT_CHECK(h.GetNameFormID(id) == b["name"].get<std::string>(), "cfg.bc.name", h.GetNameFormID(id), " ", b.dump());
        VT_CHECK(Euler::to_string(h.GetTypeFromID(id)) == b["type"].get<std::string>(), "cfg.bc.type", b.dump());
        static const std::pair<const char *, const char *> fl[] = {{"frameOption", "frameOpt"}, {"anchorOption", "anchorOpt"}, {"integrationOption", "integrationOpt"}, {"specialOption", "specialOpt"}, {"rectifyOption", "rectifyOpt"}};
        for (auto &x : fl)
            VT_CHECK(h.GetFlagFromIDSoft(id, x.second) == (b.count(x.first) ? b[x.first].get<uint32_t>() : 0u), "cfg.bc.flag", x.first, " ", h.GetFlagFromIDSoft(id, x.second), " of ", b.dump());
        if (b.count("value"))
        {
            auto v = h.GetValueFromID(id);
            for (int k = 0; k < nVars; k++)
                VT_CHECK(v(k) == b["value"][k].get<double>(), "cfg.bc.value", v(k), " ", b.dump());
        }
        auto e = h.GetValueExtraFromID(id);
        VT_CHECK(size_t(e.size()) == b["valueExtra"].size(), "cfg.bc.extra", e.size(), " ", b.dump());
        if (size_t(e.size()) == b["valueExtra"].size())
            for (int k = 0; k < e.size(); k++)
                VT_CHECK(e(k) == b["valueExtra"][k].get<double>(), "cfg.bc.extra", e(k), " ", b.dump());
    }
    for (auto &kv : Geom::GetFaceName2IDDefault())
        VT_CHECK(h.GetIDFromName(kv.first) == kv.second, "cfg.bc.defaults", kv.first);
    VT_CHECK(h.GetIDFromName("no such name") == Geom::BC_ID_NULL, "cfg.bc.unknown", h.GetIDFromName("no such name"));
    VT_CHECK(h.GetTypeFromID(Geom::BC_ID_DEFAULT_WALL) == BCWall && h.GetTypeFromID(Geom::BC_ID_DEFAULT_FAR) == BCFar &&
                 h.GetTypeFromID(Geom::BC_ID_DEFAULT_WALL_INVIS) == BCWallInvis && h.GetTypeFromID(Geom::BC_ID_INTERNAL) == BCUnknown &&
                 h.GetTypeFromID(Geom::BC_ID_PERIODIC_1) == BCUnknown,
             "cfg.bc.defaults", "default types");
    std::string sig;
    for (auto &b : a)
        sig += b["type"].get<std::string>().substr(2) + " ";
    L().endCase(vt::str("bc ", model, " ", sig));
}
// makes a freely mutated evaluator section one the code accepts
template <EulerModel model>
void legalEval(json &e, vt::Rng &r, int nVars)
{
    const int dim = getDim_Fixed(model);
    if (e["useScalarJacobian"].get<bool>())
        e["useRoeJacobian"] = false;
    real gamma = r.u(1.05, 2);
    e["idealGasProperty"]["gamma"] = gamma;
    json &f = e["farFieldStaticValue"];
    f = json::array();
    real rho = std::pow(10., r.u(-2, 2)), p = std::pow(10., r.u(-2, 5)), ke = 0;
    f.push_back(rho);
    for (int i = 0; i < dim; i++)
    {
        real v = r.u(-2, 2) * std::sqrt(gamma * p / rho);
        f.push_back(rho * v), ke += 0.5 * rho * v * v;
    }
    f.push_back(p / (gamma - 1) + ke);
    while (int(f.size()) < nVars)
        f.push_back(r.u(0.1, 2) * rho);
    auto vec = [&]
    {
        json v = json::array();
        for (int i = 0; i < nVars; i++)
            v.push_back(randReal(r));
        return v;
    };
    e["boxInitializers"] = json::array();
    for (int n = int(r.in(0, 2)); n > 0; n--)
    {
        json b;
        for (const char *k : {"x0", "x1", "y0", "y1", "z0", "z1"})
            b[k] = randReal(r);
        b["v"] = vec();
        e["boxInitializers"].push_back(b);
    }
    e["planeInitializers"] = json::array();
    for (int n = int(r.in(0, 2)); n > 0; n--)
    {
        json b;
        for (const char *k : {"a", "b", "c", "h"})
            b[k] = randReal(r);
        b["v"] = vec();
        e["planeInitializers"].push_back(b);
    }
    e["exprtkInitializers"] = json::array();
    for (int n = int(r.in(0, 2)); n > 0; n--)
    {
        json x;
        x["exprs"] = json::array();
        for (int m = int(r.in(0, 3)); m > 0; m--)
            x["exprs"].push_back(randStr(r));
        e["exprtkInitializers"].push_back(x);
    }
    Eigen::Vector3d ax(r.u(-1, 1), r.u(-1, 1), r.u(0.1, 1));
    ax.normalize();
    e["frameConstRotation"]["axis"] = json::array({ax(0), ax(1), ax(2)});
    e["ignoreSourceTerm"] = false;
}
template <EulerModel model>
void evalCase(vt::Rng &r, const std::string &id)
{
    L().begin(id + " eval");
    int nVars = getNVars(model);
    json def = json::object();
    EulerEvaluatorSettings<model>().ReadWriteJSON(def, nVars, false);
    json a = def;
    mutate(a, r, "", r.p(0.5) ? 1 : 0.2, "");
    legalEval<model>(a, r, nVars);
    json in = a;
    EulerEvaluatorSettings<model> s;
    s.ReadWriteJSON(in, nVars, true);
    json w = json::object();
    s.ReadWriteJSON(w, nVars, false);
    compare(a, w, "", "cfg.eval.roundtrip");
    json w2 = json::object(), w1 = w;
    EulerEvaluatorSettings<model> s2;
    s2.ReadWriteJSON(w1, nVars, true);
    s2.ReadWriteJSON(w2, nVars, false);
    compare(w, w2, "", "cfg.eval.stable");
    // what the numerics read from the settings
    auto &g = s.idealGasProperty;
    VT_CHECK(g.gamma == a["idealGasProperty"]["gamma"].get<double>() && vt::close(g.CpGas, g.Rgas * g.gamma / (g.gamma - 1), 1e-13), "cfg.eval.gas", "Cp ", g.CpGas);
    VT_CHECK(s.constMassForce(1) == a["constMassForce"][1].get<double>(), "cfg.eval.fields", "constMassForce");
    VT_CHECK(json(s.rsType) == a["riemannSolverType"] && json(s.rsTypeAux) == a["riemannSolverTypeAux"] && json(s.rsTypeWall) == a["riemannSolverTypeWall"], "cfg.eval.fields", "riemann solvers");
    VT_CHECK(json(s.ransModel) == a["ransModel"], "cfg.eval.fields", "ransModel");
    VT_CHECK(vt::close(s.frameConstRotation.Omega(), a["frameConstRotation"]["rpm"].get<double>() * 3.14159265358979323846 / 30, 1e-12), "cfg.eval.fields", "rpm");
    L().endCase(vt::str("eval ", model, " ", a["boxInitializers"].size(), a["planeInitializers"].size(), a["exprtkInitializers"].size(), a["riemannSolverType"].dump()));
}
static void vrCase(vt::Rng &r, const std::string &id)
{
    L().begin(id + " vr");
    int dim = int(r.in(2, 3));
    json a = CFV::VRSettings(dim);
    VT_CHECK(a["cacheDiffBaseSize"].get<int>() == dim + 1, "cfg.vr.default", a["cacheDiffBaseSize"].dump());
    mutate(a, r, "", r.p(0.5) ? 1 : 0.2, "");
    CFV::VRSettings s(dim);
    from_json(a, s);
    json w = s;
    compare(a, w, "", "cfg.vr.roundtrip");
    VT_CHECK(s.intOrderVRValue() == (s.intOrderVR < 0 ? s.intOrder : s.intOrderVR) && s.maxOrder == a["maxOrder"].get<int>(), "cfg.vr.fields", "orders");
    L().endCase(vt::str("vr ", dim, a["functionalSettings"]["dirWeightScheme"].dump(), a["functionalSettings"]["scaleType"].dump(), a["functionalSettings"]["geomWeightScheme"].dump()));
}
template <EulerModel model>
void fileCase(vt::Rng &r, const std::string &id)
{
    L().begin(id + " file");
    int nVars = getNVars(model);
    MPIInfo mpi;
    mpi.setWorld();
    std::string dir = L().scratch + "/cfg_" + std::to_string(r.in(0, 1000000000));
    auto put = [&](const std::string &f, const std::string &text)
    {
        if (mpi.rank == 0)
            fs::create_directories(dir), std::ofstream(f) << text;
        MPI_Barrier(MPI_COMM_WORLD);
    };
    auto get = [&](const std::string &f)
    {
        MPI_Barrier(MPI_COMM_WORLD);
        std::ifstream i(f);
        json j = i ? json::parse(i, nullptr, false, true) : json();
        VT_CHECK(i && !j.is_discarded(), "cfg.file.readable", f, " is not there or not JSON");
        return j;
    };
    // the defaults the program writes for a user to start from
    EulerSolver<model> s0(mpi);
    s0.ConfigureFromJson(dir + "/default.json", false);
    json def = get(dir + "/default.json");
    json a = def;
    mutate(a, r, "", r.p(0.5) ? 1 : 0.2, "");
    a["dataIOControl"]["outLogName"] = dir + "/log";
    legalEval<model>(a["eulerSettings"], r, nVars);
    json bcs = genBCs<model>(r, nVars);
    a["bcSettings"] = bcs;
    json map = json::object();
    for (int n = int(r.in(0, 3)); n > 0; n--)
        map[vt::str("zone", n)] = "bc_0";
    a["bcNameMapping"] = map;
    put(dir + "/in.json", "// a comment, as the documentation allows\n" + a.dump(2));
    // a patch file and command line overrides
    json patch = json::object();
    std::string mergeName;
    json want = a;
    if (r.p(0.5))
    {
        patch["timeMarchControl"]["nTimeStep"] = r.in(1, 1000);
        patch["timeMarchControl"]["tEnd"] = r.u();
        patch["vfvSettings"]["maxOrder"] = r.in(1, 3);
        patch["vfvSettings"]["functionalSettings"]["tanWeightScale"] = r.u();
        patch["outputControl"]["logfileOutputTitles"] = json::array({"step", "res"});
        mergeName = dir + "/patch.json";
        put(mergeName, patch.dump());
        want.merge_patch(patch);
    }
    std::vector<std::string> keys, vals;
    if (r.p(0.6))
    {
        auto set = [&](const std::string &k, const json &v)
        {
            keys.push_back(k), vals.push_back(v.dump());
            want[json::json_pointer(k)] = v;
        };
        set("/implicitCFLControl/CFL", r.u(0.1, 100));
        set("/linearSolverControl/coarseGridLinearSolverControlList/1/sgsIter", r.in(0, 50));
        set("/boundaryDefinition/PeriodicTranslation2/1", r.u(1, 5));
        set("/dataIOControl/meshFile", randStr(r));
        if (r.p(0.5))
            set("/timeMarchControl/nTimeStep", r.in(1, 1000)); // beats the patch
        if (r.p(0.5))
            set("/implicitCFLControl/CFL", r.u(0.1, 100)); // the last one counts
    }
    EulerSolver<model> s1(mpi);
    s1.output_stamp = "run";
    s1.ConfigureFromJson(dir + "/in.json", true, mergeName, keys, vals);
    want["bcSettings"] = fullBCs(bcs);
    json logged = get(dir + "/log_run.config.json");
    compare(want, logged, "", "cfg.file.logged");
    VT_CHECK(s1.config.implicitCFLControl.CFL == want["implicitCFLControl"]["CFL"].get<double>() &&
                 s1.config.timeMarchControl.nTimeStep == want["timeMarchControl"]["nTimeStep"].get<int>() &&
                 s1.config.linearSolverControl.coarseGridLinearSolverControlList.at("1").sgsIter == want["linearSolverControl"]["coarseGridLinearSolverControlList"]["1"]["sgsIter"].get<int>() &&
                 s1.config.dataIOControl.meshFile == want["dataIOControl"]["meshFile"].get<std::string>(),
             "cfg.file.used", "the configuration used is not the one asked for");
    // the logged configuration is itself a configuration of the same run
    EulerSolver<model> s2(mpi);
    s2.output_stamp = "again";
    s2.ConfigureFromJson(dir + "/log_run.config.json", true);
    json logged2 = get(dir + "/log_again.config.json");
    compare(logged, logged2, "", "cfg.file.relogged");
    // and so is the configuration a solver writes out when asked to
    s2.ConfigureFromJson(dir + "/sub/dir/out.json", false);
    compare(want, get(dir + "/sub/dir/out.json"), "", "cfg.file.written");
    MPI_Barrier(MPI_COMM_WORLD);
    if (mpi.rank == 0)
        fs::remove_all(dir);
    L().endCase(vt::str("file ", model, " patch:", !mergeName.empty(), " over:", keys.size(), " bcs:", bcs.size()));
}

// ------------------------------------------------------------------------------------------------ C23
template <int nV>
void recCase(vt::Rng &rs, const std::string &id) // rs: same on all ranks
{
    L().begin(id + " rec");
    MPIInfo mpi;
    mpi.setWorld();
    const int nv = nV > 0 ? nV : 6;
    vt::Rng r(vt::mix(rs.next(), mpi.rank)); // own data per rank
    int emptyRank = rs.p(0.5) ? int(rs.in(0, mpi.size - 1)) : -1;
    // boundary integration
    {
        int siz = int(rs.in(1, 9));
        IntegrationRecorder rec(mpi, siz);
        for (int round = 0; round < 2; round++)
        {
            rec.Reset();
            std::vector<double> mine(siz + 1, 0.), mag(siz + 1, 0.);
            int n = mpi.rank == emptyRank ? 0 : int(r.in(0, 30));
            for (int i = 0; i < n; i++)
            {
                Eigen::VectorXd a(siz);
                for (int k = 0; k < siz; k++)
                    a(k) = r.u(-3, 3), mine[k] += a(k), mag[k] += std::abs(a(k));
                double d = r.u(0, 2);
                mine[siz] += d, mag[siz] += d;
                rec.Add(a, d);
            }
            rec.Reduce();
            for (int k = 0; k <= siz; k++)
            {
                double s = vt::sumAll(mine[k]), m = vt::sumAll(mag[k]);
                double g = k < siz ? rec.v(k) : rec.div;
                VT_CHECK(std::abs(g - s) <= 1e-13 * m + 1e-150, "rec.integration", "round ", round, " component ", k, ": ", g, " want ", s);
                double mx = vt::maxAll(g), mn = -vt::maxAll(-g);
                VT_CHECK(mx == mn, "rec.integrationAgree", mx, " ", mn);
            }
        }
    }
    // anchors
    {
        AnchorPointRecorder<nV> rec(mpi);
        for (int round = 0; round < 3; round++)
        {
            rec.Reset();
            double best = 1e300;
            Eigen::Vector<real, nV> bv;
            bv.setZero(nv);
            int n = mpi.rank == emptyRank ? 0 : int(r.in(0, 12));
            bool any = vt::anyRank(n > 0);
            if (!any)
                n = 1;
            if (nV < 0 && n == 0)
                n = 1; // every rank holds a face then
            for (int i = 0; i < n; i++)
            {
                Eigen::Vector<real, nV> v(nv);
                for (int k = 0; k < nv; k++)
                    v(k) = r.u(-3, 3);
                double d = r.u(0, 10);
                if (d < best)
                    best = d, bv = v;
                rec.AddAnchor(v, d);
            }
            rec.ObtainAnchorMPI();
            double gb = -vt::maxAll(-best);
            for (int k = 0; k < nv; k++)
            {
                double w = vt::sumAll(best == gb ? bv(k) : 0.);
                VT_CHECK(rec.val(k) == w, "rec.anchor", "component ", k, ": ", rec.val(k), " want ", w, " round ", round, " nearest at ", gb);
            }
        }
    }
    // one-dimensional profiles
    {
        OneDimProfile<nV> prof(mpi);
        int n = int(rs.in(1, 25));
        real a = rs.u(-3, 1), b = a + std::pow(10., rs.u(-2, 1));
        bool tanh = rs.p(0.5);
        real d0 = (b - a) / n * rs.u(0.05, 1.5);
        tanh = tanh && n >= 3;
        if (tanh)
            prof.GenerateTanh(n, nv, a, b, d0);
        else
            prof.GenerateUniform(n, nv, a, b);
        VT_CHECK(prof.Size() == n && prof.nodes(0) == a && vt::close(prof.nodes(n), b, 1e-14, 1e-15), "prof.nodes", "n ", prof.Size(), " ends ", prof.nodes(0), " ", prof.nodes(n));
        real sumL = 0;
        for (int i = 0; i < n; i++)
        {
            VT_CHECK(prof.Len(i) > 0, "prof.nodes", "interval ", i, " of length ", prof.Len(i));
            sumL += prof.Len(i);
            VT_CHECK(std::abs(prof.Len(i) - prof.Len(n - 1 - i)) <= 1e-9 * (b - a), "prof.symmetric", i, ": ", prof.Len(i), " ", prof.Len(n - 1 - i));
        }
        VT_CHECK(vt::close(sumL, b - a, 1e-12), "prof.nodes", "total ", sumL);
        if (tanh && d0 < (b - a) / n)
            VT_CHECK(n < 3 || std::abs(prof.Len(0) - d0) <= 0.02 * d0 + 1e-6 * (b - a), "prof.firstInterval", prof.Len(0), " asked ", d0, " n ", n, " of ", b - a);
        prof.SetZero();
        std::vector<double> wd(n, 0.), wv(n * nv, 0.), wm(n * nv, 0.);
        int m = mpi.rank == emptyRank ? 0 : int(r.in(0, 40));
        for (int i = 0; i < m; i++)
        {
            Eigen::Vector<real, nV> v(nv);
            for (int k = 0; k < nv; k++)
                v(k) = r.u(-2, 3);
            real c = r.u(a - 0.3 * (b - a), b + 0.3 * (b - a)), len = (b - a) * std::pow(10., r.u(-3, 0.3));
            real l = c, rr = c + len;
            if (r.p(0.2))
                l = prof.nodes(r.in(0, n)), rr = l + len; // starts on a node
            if (r.p(0.2))
            {
                int j = int(r.in(0, n - 1));
                l = prof.nodes(j), rr = prof.nodes(r.in(j + 1, n));
            }
            real w = r.u(0.01, 2);
            prof.AddSimpleInterval(v, w, l, rr);
            for (int j = 0; j < n; j++)
            {
                real o = std::max(0., std::min(rr, prof.nodes(j + 1)) - std::max(l, prof.nodes(j))) / (rr - l) * w;
                wd[j] += o;
                for (int k = 0; k < nv; k++)
                    wv[j * nv + k] += o * v(k), wm[j * nv + k] += o * std::abs(v(k));
            }
        }
        prof.Reduce();
        bool covered = true;
        for (int j = 0; j < n; j++)
        {
            double sd = vt::sumAll(wd[j]);
            if (!(sd > 1e-6))
                covered = false;
            VT_CHECK(std::abs(prof.div(j) - sd) <= 1e-11 * sd + 1e-13, "prof.weight", "interval ", j, ": ", prof.div(j), " want ", sd);
            for (int k = 0; k < nv; k++)
            {
                double sv = vt::sumAll(wv[j * nv + k]), sm = vt::sumAll(wm[j * nv + k]);
                VT_CHECK(std::abs(prof.v(k, j) - sv) <= 1e-11 * sm + 1e-13, "prof.value", "interval ", j, ": ", prof.v(k, j), " want ", sv);
                if (sd > 1e-6)
                    VT_CHECK(std::abs(prof.Get(j)(k) - sv / sd) <= 1e-9 * (sm / sd) + 1e-9, "prof.mean", prof.Get(j)(k), " want ", sv / sd);
            }
        }
        if (covered)
        {
            // continuous, piecewise linear, through the averages at the nodes, within the range of the means
            auto node = [&](int j, int k)
            { return j == 0 ? prof.Get(0)(k) : j == n ? prof.Get(n - 1)(k)
                                                      : 0.5 * (prof.Get(j - 1)(k) + prof.Get(j)(k)); };
            for (int t = 0; t < 20; t++)
            {
                int j = int(r.in(0, n - 1)), k = int(r.in(0, nv - 1));
                real f = r.p(0.2) ? 0 : r.u();
                real x = prof.nodes(j) + f * prof.Len(j);
                real w = (1 - f) * node(j, k) + f * node(j + 1, k);
                VT_CHECK(std::abs(prof.GetPlain(x)(k) - w) <= 1e-8 * (1 + std::abs(w)), "prof.read", "x ", x, ": ", prof.GetPlain(x)(k), " want ", w, " n ", n);
            }
            VT_CHECK(prof.GetPlain(a - 1)(0) == prof.GetPlain(a)(0) && vt::close(prof.GetPlain(b + 1)(0), node(n, 0), 1e-9, 1e-9), "prof.clamp", "outside the range");
        }
    }
    // picking named outputs
    {
        OutputPicker pk;
        OutputPicker::tMap m;
        for (int i = 0; i < 6; i++)
            m[vt::str("f", i)] = [i](DNDS::index c)
            { return real(100 * i + c); };
        pk.setMap(m);
        std::vector<std::string> names;
        std::vector<int> ks;
        for (int n = int(rs.in(0, 6)); n > 0; n--)
            ks.push_back(int(rs.in(0, 5))), names.push_back(vt::str("f", ks.back()));
        auto lst = pk.getSubsetList(names);
        VT_CHECK(lst.size() == names.size(), "rec.pick", lst.size());
        for (size_t i = 0; i < lst.size() && i < names.size(); i++)
            VT_CHECK(std::get<0>(lst[i]) == names[i] && std::get<1>(lst[i])(7) == 100 * ks[i] + 7, "rec.pick", names[i], " gave ", std::get<0>(lst[i]), " ", std::get<1>(lst[i])(7));
    }
    L().endCase(vt::str("rec ", nV, " empty:", emptyRank >= 0));
}
static void clCase(vt::Rng &r, const std::string &id)
{
    L().begin(id + " cl");
    MPIInfo mpi;
    mpi.setWorld();
    CLDriverSettings s;
    const real std_ = 3.14159265358979323846 * 3.14159265358979323846 / 90;
    s.AOAInit = r.p(0.3) ? 0 : r.u(-5, 5);
    bool yaw = r.p(0.5);
    s.AOAAxis = yaw ? "y" : "z", s.CL0Axis = yaw ? "z" : "y";
    s.refArea = r.u(0.1, 10), s.refDynamicPressure = r.u(0.1, 10);
    s.targetCL = r.p(0.3) ? 0 : r.u(-1, 1);
    s.CLIncrementRelax = r.u(0.2, 1);
    s.thresholdTargetRatio = r.u(0.2, 0.9);
    s.nIterStartDrive = r.in(0, 60);
    s.nIterConvergeMin = r.in(1, 60);
    s.CLconvergeThreshold = std::pow(10., r.u(-5, -2));
    s.CLconvergeWindow = r.in(2, 20);
    s.CLconvergeLongWindow = r.in(5, 50);
    real longTol = std::pow(10., r.u(-5, -2));
    json j = s;
    j["CLconvergeLongThreshold"] = longTol;
    from_json(j, s);
    // lift response: affine with a transient; some start exactly on the target
    bool exact = r.p(0.25);
    real slope = std_ * r.u(0.95, 1.6), c0 = exact ? s.targetCL - slope * s.AOAInit : r.u(-0.5, 0.5), rate = exact && r.p(0.7) ? 1 : r.u(0.3, 1);
    if (exact && r.p(0.5))
        slope = 0.95 * std_, s.AOAInit = 0, s.targetCL = 0, c0 = 0;
    CLDriver d(s);
    VT_CHECK(d.GetAOA() == s.AOAInit, "cl.initial", d.GetAOA());
    VT_CHECK(vt::close(d.GetForce2CoeffRatio() * s.refArea * s.refDynamicPressure, 1, 1e-14), "cl.ratio", d.GetForce2CoeffRatio());
    real cl = exact ? s.targetCL : r.u(-1, 1);
    std::vector<real> hist;
    long long since = 0, at = 0, away = 0, nMove = 0; // away: samples off the target, so that an update is seen as a move
    bool conv = false;
    int iter = 0, nMax = 20000;
    for (; iter < nMax; iter++)
    {
        real aoa = d.GetAOA();
        cl += rate * (c0 + slope * aoa - cl);
        hist.push_back(cl), since++;
        at = std::abs(cl - s.targetCL) <= longTol ? at + 1 : 0;
        away = std::abs(cl - s.targetCL) > 1e-10 ? away + 1 : 0;
        d.Update(iter, cl, mpi);
        real aoaN = d.GetAOA();
        VT_CHECK(std::isfinite(aoaN), "cl.finite", "angle of attack ", aoaN, " after step ", iter, " at lift ", cl, " target ", s.targetCL);
        if (!std::isfinite(aoaN))
            break;
        if (aoaN != aoa)
        {
            nMove++;
            VT_CHECK(iter >= s.nIterStartDrive && since >= s.CLconvergeWindow && since >= s.nIterConvergeMin, "cl.early", "moved at ", iter, " after ", since, " samples");
            real mn = 1e300, mx = -1e300;
            for (int k = 0; k < s.CLconvergeWindow && k < int(hist.size()); k++)
                mn = std::min(mn, hist[hist.size() - 1 - k]), mx = std::max(mx, hist[hist.size() - 1 - k]);
            VT_CHECK(mx - mn <= 2 * s.CLconvergeThreshold * (1 + 1e-9), "cl.unconverged", "moved with a spread of ", mx - mn, " over the window, threshold ", s.CLconvergeThreshold);
            real e = s.targetCL - cl;
            VT_CHECK((aoaN - aoa) * e > 0, "cl.direction", "moved by ", aoaN - aoa, " for an error of ", e);
            VT_CHECK(std::abs(aoaN - aoa) <= s.CLIncrementRelax * std::abs(e) / (0.9 * std_) * (1 + 1e-9) + 1e-13 && std::abs(aoaN - aoa) >= s.CLIncrementRelax * std::abs(e) / (10 * std_) * (1 - 1e-9) - 1e-13, "cl.size", aoaN - aoa, " for ", e);
            since = 0, at = 0;
        }
        auto R = d.GetAOARotation();
        real al = aoaN * 3.14159265358979323846 / 180;
        Eigen::Vector3d f = R * d.GetCD0Direction(), w = std::cos(al) * d.GetCD0Direction() + std::sin(al) * d.GetCL0Direction();
        VT_CHECK((f - w).norm() < 1e-12 && (R * R.transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-12 && R.determinant() > 0, "cl.rotation", "at ", aoaN);
        if (d.ConvergedAtTarget())
        {
            conv = true;
            VT_CHECK(at >= s.CLconvergeLongWindow, "cl.falseConverged", "reported after ", at, " of ", s.CLconvergeLongWindow, " samples within ", longTol);
            break;
        }
        if (away >= at)
            VT_CHECK(at < s.CLconvergeLongWindow, "cl.lateConverged", "not reported after ", at, " of ", s.CLconvergeLongWindow, " samples within ", longTol, " at lift ", cl, " target ", s.targetCL);
        if (at >= s.CLconvergeLongWindow && away >= at)
            break;
        if (iter > 5000 && std::abs(cl - s.targetCL) < 1e-12)
            break;
    }
    VT_CHECK(conv || std::abs(cl - s.targetCL) <= 2 * longTol, "cl.converges", "lift ", cl, " target ", s.targetCL, " after ", iter, " steps and ", nMove, " moves, relaxation ", s.CLIncrementRelax, " slope ", slope / std_);
    L().count("cl.steps", iter);
    L().count("cl.moves", nMove);
    L().endCase(vt::str("cl exact:", exact, " axis:", s.AOAAxis, " moves:", std::min<long long>(nMove, 8), " win:", s.CLconvergeWindow / 5));
}

int main(int argc, char **argv)
{
    vt::start(&argc, &argv);
    int n = vt::arg(argc, argv, "--n", 100), base = vt::arg(argc, argv, "--base", 0);
    std::string mode = vt::sarg(argc, argv, "--mode", "cfg");
    for (int i = 0; i < n; i++)
    {
        vt::Rng r(vt::mix(L().seed * 1000003 + base, i * 131)), rr(vt::mix(L().seed * 1000003 + base, i * 131 + L().rank + 1));
        std::string id = vt::str(mode, " ", base, ".", i);
        if (mode == "cfg")
        {
            bcCase<NS>(rr, id), bcCase<NS_2D>(rr, id), bcCase<NS_SA>(rr, id), bcCase<NS_2EQ>(rr, id);
            evalCase<NS>(rr, id), evalCase<NS_2D>(rr, id), evalCase<NS_SA>(rr, id), evalCase<NS_2EQ>(rr, id);
            vrCase(rr, id);
            if (i % 5 == 0)
                fileCase<NS_2D>(r, id);
            if (i % 5 == 2)
                fileCase<NS_SA>(r, id);
        }
        else
        {
            recCase<4>(r, id), recCase<5>(r, id), recCase<-1>(r, id);
            clCase(rr, id);
        }
    }
    return vt::finish();
}
