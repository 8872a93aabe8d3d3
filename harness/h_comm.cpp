// C01 / C02: ghost exchange and index mappings against a global reference model.
#include "vt.hpp"
#include "pmpi_mon.hpp"
#include "DNDS/ArrayPair.hpp"
#include "DNDS/ArrayDerived/ArrayEigenVector.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatirx.hpp"
#include "DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp"
using namespace DNDS;
using vt::L;
using vt::Rng;
typedef DNDS::index idx;

static MPIInfo mpi;

template <class T>
T makeVal(uint64_t h)
{
    T v;
    if constexpr (std::is_same_v<T, double>)
        v = double(int64_t(h % 2000003) - 1000001) * 0.5;
    else if constexpr (std::is_integral_v<T>)
        v = T(h);
    else
    {
        double *p = (double *)&v;
        static_assert(sizeof(T) % 8 == 0);
        for (size_t i = 0; i < sizeof(T) / 8; i++)
            p[i] = double(int64_t(vt::mix(h, i) % 2000003) - 1000001) * 0.25;
    }
    return v;
}

struct Layout // the global picture of one case: identical on every rank
{
    std::vector<idx> len, off;
    idx N = 0;
    int rank(idx g) const { return int(std::upper_bound(off.begin(), off.end(), g) - off.begin()) - 1; }
    std::vector<std::vector<idx>> ghosts; // ghost global indices of every rank, in son order
    std::string sig;
};

static Layout makeLayout(Rng &r, bool disjoint, bool pushBuilt, std::vector<idx> &request, bool &sortedPush, int maxLen)
{
    Layout l;
    int np = mpi.size;
    l.len.resize(np);
    int pat = int(r.in(0, 5));
    int big = int(r.in(0, np - 1));
    for (int i = 0; i < np; i++)
        l.len[i] = pat == 0   ? r.in(0, maxLen)
                   : pat == 1 ? (r.p(0.5) ? 0 : r.in(1, maxLen))
                   : pat == 2 ? (i == big ? r.in(1, 2 * maxLen) : 0)
                   : pat == 3 ? r.in(1, 3)
                   : pat == 4 ? maxLen
                              : r.in(0, 1);
    l.off.assign(np + 1, 0);
    for (int i = 0; i < np; i++)
        l.off[i + 1] = l.off[i] + l.len[i];
    l.N = l.off[np];
    l.ghosts.assign(np, {});
    int gp = int(r.in(0, 6));
    std::vector<idx> owner(l.N, -1); // for disjoint
    for (int k = 0; k < np; k++)
    {
        std::set<idx> s;
        int want = 0;
        for (idx g = 0; g < l.N; g++)
        {
            int rk = l.rank(g);
            bool take = gp == 0   ? r.p(0.15)
                        : gp == 1 ? r.p(0.5)
                        : gp == 2 ? (rk == (k + 1) % np)
                        : gp == 3 ? (k == big)
                        : gp == 4 ? (rk != k && (std::abs(rk - k) == 1) && r.p(0.5))
                        : gp == 5 ? true
                                  : (rk > k && r.p(0.3));
            if (take && disjoint)
            {
                if (owner[g] >= 0)
                    take = false;
                else
                    owner[g] = k;
            }
            if (take)
                s.insert(g), want++;
        }
        l.ghosts[k].assign(s.begin(), s.end());
    }
    sortedPush = true;
    if (pushBuilt)
    {
        bool shuf = r.p(0.4);
        if (shuf)
            sortedPush = false;
        for (int k = 0; k < np; k++)
        {
            // son order: by owner rank, then the owner's list order
            std::vector<std::vector<idx>> by(np);
            for (auto g : l.ghosts[k])
                by[l.rank(g)].push_back(g);
            l.ghosts[k].clear();
            for (int o = 0; o < np; o++)
            {
                if (shuf)
                    r.shuffle(by[o]);
                l.ghosts[k].insert(l.ghosts[k].end(), by[o].begin(), by[o].end());
            }
        }
    }
    // the request of this rank as the caller states it: any order, duplicates allowed
    std::vector<std::vector<idx>> reqs(np);
    for (int k = 0; k < np; k++)
    {
        reqs[k] = l.ghosts[k];
        if (!reqs[k].empty())
            for (int q = int(r.in(0, 3)); q > 0; q--)
                reqs[k].push_back(reqs[k][r.in(0, int64_t(reqs[k].size()) - 1)]);
        r.shuffle(reqs[k]);
    }
    request = reqs[mpi.rank];
    l.sig = vt::str("len", pat, "_gh", gp, disjoint ? "_disj" : "_any", pushBuilt ? "_push" : "_pull", sortedPush ? "" : "_unsorted");
    return l;
}

// one distributed array under test plus its reference model
template <class TArr>
struct Subject
{
    using T = typename TArr::value_type;
    static constexpr DataLayout lay = TArr::_dataLayout;
    ssp<TArr> father, son;
    typename ArrayTransformerType<TArr>::Type trans;
    const Layout *l = nullptr;
    uint64_t id = 0;
    uint64_t caseSeed = 0;
    rowsize rsMax = 1; // fixed row size or maximum row size
    int rowPat = 0;
    std::vector<uint64_t> ver; // version of every global row (same on all ranks)

    rowsize rowSize(idx g) const
    {
        if (isTABLE_Fixed(lay))
            return rsMax;
        uint64_t h = vt::mix(caseSeed ^ id, uint64_t(g));
        if (rowPat == 0)
            return rowsize(h % uint64_t(rsMax + 1));
        if (rowPat == 1)
            return 0;
        if (rowPat == 2)
            return rsMax;
        return h % 3 ? 0 : rowsize(h % uint64_t(rsMax + 1));
    }
    T val(idx g, rowsize j, uint64_t v) const { return makeVal<T>(vt::mix(vt::mix(caseSeed ^ (id << 20), uint64_t(g) * 131 + j), v)); }
    void create(const Layout &lo, Rng &r, uint64_t id_, uint64_t cs, bool compress)
    {
        l = &lo, id = id_, caseSeed = cs;
        rsMax = lay == TABLE_StaticFixed ? TArr::rs : lay == TABLE_StaticMax ? TArr::rm
                                                                         : rowsize(r.in(1, 6));
        rowPat = int(r.in(0, 3));
        ver.assign(lo.N, 0);
        father = std::make_shared<TArr>(mpi);
        son = std::make_shared<TArr>(mpi);
        idx n = lo.len[mpi.rank];
        if constexpr (lay == CSR)
        {
            father->Resize(n);
            for (idx i = 0; i < n; i++)
                father->ResizeRow(i, rowSize(lo.off[mpi.rank] + i));
            if (compress)
                father->Compress();
        }
        else
        {
            father->Resize(n, rsMax);
            if constexpr (isTABLE_Max(lay))
                for (idx i = 0; i < n; i++)
                    father->ResizeRow(i, rowSize(lo.off[mpi.rank] + i));
        }
        fillFather();
        trans.setFatherSon(father, son);
    }
    void fillFather()
    {
        for (idx i = 0; i < l->len[mpi.rank]; i++)
        {
            idx g = l->off[mpi.rank] + i;
            for (rowsize j = 0; j < rowSize(g); j++)
                (*father)(i, j) = val(g, j, ver[g]);
        }
    }
    void bump(Rng &r, double p)
    {
        for (idx g = 0; g < l->N; g++)
            if (r.p(p))
                ver[g] = r.next();
        fillFather();
    }
    void scribbleSon()
    {
        for (idx i = 0; i < son->Size(); i++)
            for (rowsize j = 0; j < son->RowSize(i); j++)
                (*son)(i, j) = makeVal<T>(0xDEADBEEF + i * 7 + j);
    }
    template <class V>
    static bool same(const V &a, const V &b) { return std::memcmp(&a, &b, sizeof(V)) == 0; }
    void checkFather(const char *when)
    {
        VT_CHECK(father->Size() == l->len[mpi.rank], "owner-size", when, " owner rows ", father->Size(), " expected ", l->len[mpi.rank]);
        for (idx i = 0; i < father->Size(); i++)
        {
            idx g = l->off[mpi.rank] + i;
            if (father->RowSize(i) != rowSize(g))
            {
                VT_CHECK(false, "owner-rowsize", when, " global row ", g, " row size ", father->RowSize(i), " expected ", rowSize(g));
                continue;
            }
            for (rowsize j = 0; j < rowSize(g); j++)
                VT_CHECK(same<T>((*father)(i, j), val(g, j, ver[g])), "owner-value", when, " global row ", g, " col ", j, " differs from what was written or pushed");
        }
    }
    void checkSon(const char *when)
    {
        auto &gh = l->ghosts[mpi.rank];
        VT_CHECK(son->Size() == idx(gh.size()), "ghost-size", when, " ghost rows ", son->Size(), " expected ", gh.size());
        for (idx i = 0; i < son->Size() && i < idx(gh.size()); i++)
        {
            idx g = gh[i];
            if (son->RowSize(i) != rowSize(g))
            {
                VT_CHECK(false, "ghost-rowsize", when, " ghost ", i, " of global row ", g, " has row size ", son->RowSize(i), " owner ", rowSize(g));
                continue;
            }
            for (rowsize j = 0; j < rowSize(g); j++)
                VT_CHECK(same<T>((*son)(i, j), val(g, j, ver[g])), "ghost-value", when, " ghost ", i, " of global row ", g, " col ", j, " differs from the owner's value");
            vt::L().count("ghost_rows_compared");
        }
    }
    // write new versions into the ghost copies; ver changes for ghost-held rows only
    void newVersionsInGhost(Rng &r)
    {
        for (int k = 0; k < mpi.size; k++)
            for (size_t i = 0; i < l->ghosts[k].size(); i++)
                ver[l->ghosts[k][i]] = r.next();
        auto &gh = l->ghosts[mpi.rank];
        for (size_t i = 0; i < gh.size(); i++)
            for (rowsize j = 0; j < son->RowSize(i) && j < rowSize(gh[i]); j++)
                (*son)(i, j) = val(gh[i], j, ver[gh[i]]);
    }
};

static void checkMapping(const Layout &l, GlobalOffsetsMapping &gm, OffsetAscendIndexMapping &om, bool sorted)
{
    int me = mpi.rank;
    VT_CHECK(gm.globalSize() == l.N, "map-globalsize", gm.globalSize(), " vs ", l.N);
    for (int k = 0; k < mpi.size; k++)
    {
        VT_CHECK(gm.RLengths().at(k) == l.len[k] && gm.ROffsets().at(k) == l.off[k], "map-offsets", "rank ", k);
        for (idx i = 0; i < l.len[k]; i++)
            VT_CHECK(gm(k, i) == l.off[k] + i, "map-l2g", "rank ", k, " local ", i, " -> ", gm(k, i));
    }
    for (idx g = -2; g < l.N + 2; g++)
    {
        MPI_int rk = -7;
        idx loc = -7;
        bool f = gm.search(g, rk, loc);
        bool ex = g >= 0 && g < l.N;
        VT_CHECK(f == ex, "map-search-range", "global ", g, " of ", l.N, " found=", f);
        if (f && ex)
            VT_CHECK(rk == l.rank(g) && loc == g - l.off[rk], "map-search", "global ", g, " -> (", rk, ",", loc, ")");
        auto [tf, trk, tloc] = gm.search(g);
        VT_CHECK(tf == f && (!f || (trk == rk && tloc == loc)), "map-search", "tuple form differs at ", g);
    }
    auto &gh = l.ghosts[me];
    VT_CHECK(om.ghostIndex.size() == gh.size(), "ghostmap-size", om.ghostIndex.size(), " vs ", gh.size());
    if (om.ghostIndex.size() == gh.size())
        for (size_t i = 0; i < gh.size(); i++)
        {
            VT_CHECK(om.ghostIndex[i] == gh[i], "ghostmap-order", "slot ", i, " holds ", om.ghostIndex[i], " expected ", gh[i]);
            VT_CHECK(om(-1, l.len[me] + idx(i)) == gh[i], "ghostmap-l2g", "appended local ", i);
        }
    for (idx i = 0; i < l.len[me]; i++)
        VT_CHECK(om(-1, i) == l.off[me] + i, "ghostmap-main", "main local ", i);
    // per-rank segments
    idx at = 0;
    for (int k = 0; k < mpi.size; k++)
    {
        idx c = 0;
        for (auto g : gh)
            c += l.rank(g) == k;
        VT_CHECK(om.ghostSizes.at(k) == c && om.ghostStart.at(k) == at, "ghostmap-segments", "rank ", k, " size ", om.ghostSizes.at(k), " start ", om.ghostStart.at(k));
        for (idx i = 0; i < c; i++)
            VT_CHECK(om(k, i) == gh[at + i], "ghostmap-rank-l2g", "rank ", k, " slot ", i);
        at += c;
        // what others pull from me
        std::vector<idx> ps;
        for (auto g : l.ghosts[k])
            if (l.rank(g) == me)
                ps.push_back(g);
        VT_CHECK(om.pushIndexSizes.at(k) == idx(ps.size()), "ghostmap-push", "rank ", k, " pulls ", ps.size(), " rows, mapping says ", om.pushIndexSizes.at(k));
        if (om.pushIndexSizes.at(k) == idx(ps.size()))
            for (size_t i = 0; i < ps.size(); i++)
                VT_CHECK(om.pushingIndexGlobal.at(om.pushIndexStarts.at(k) + i) == ps[i], "ghostmap-push", "rank ", k, " entry ", i);
    }
    if (!sorted)
        return;
    std::map<idx, idx> slot;
    for (size_t i = 0; i < gh.size(); i++)
        slot[gh[i]] = i;
    for (idx g = -2; g < l.N + 2; g++)
    {
        bool main = g >= l.off[me] && g < l.off[me + 1];
        bool gst = slot.count(g);
        auto [f, rk, v] = om.search(g);
        VT_CHECK(f == (main || gst), "ghostsearch-found", "global ", g, " found=", f, " main=", main, " ghost=", gst);
        if (f && main)
            VT_CHECK(rk == -1 && v == g - l.off[me], "ghostsearch-main", "global ", g);
        else if (f && gst)
            VT_CHECK(rk == l.rank(g) && v == slot[g], "ghostsearch-ghost", "global ", g, " -> rank ", rk, " slot ", v, " expected rank ", l.rank(g), " slot ", slot[g]);
        auto [f2, rk2, v2] = om.search_indexAppend(g);
        VT_CHECK(f2 == f, "ghostsearch-append", "global ", g);
        if (f2 && f)
        {
            VT_CHECK(v2 == (main ? g - l.off[me] : l.len[me] + slot[g]), "ghostsearch-append", "global ", g, " -> ", v2);
            VT_CHECK(om(-1, v2) == g, "ghostsearch-inverse", "global ", g, " -> local ", v2, " -> global ", om(-1, v2));
        }
        auto [f3, rk3, v3] = om.search_indexRank(g);
        VT_CHECK(f3 == f, "ghostsearch-rank", "global ", g);
        if (f3 && f && !main)
            VT_CHECK(rk3 == l.rank(g) && om(rk3, v3) == g, "ghostsearch-rank", "global ", g);
        if (gst)
        {
            idx v4 = -1;
            bool f4 = om.searchInGhost(g, l.rank(g), v4);
            VT_CHECK(f4 && om(l.rank(g), v4) == g, "ghostsearch-inghost", "global ", g);
        }
        vt::L().count("index_queries");
    }
}

template <class TA, class TB>
void scenario(uint64_t cs, const char *name, int strategy, bool mapOnly)
{
    Rng r(cs);
    bool doPush = r.p(0.5);
    bool pushBuilt = r.p(0.3);
    bool compress = r.p(0.5);
    int maxLen = r.p(0.1) ? 120 : int(r.in(1, 16));
    std::vector<idx> req;
    bool sorted;
    Layout l = makeLayout(r, doPush, pushBuilt, req, sorted, maxLen);
    DNDS::MPI::CommStrategy::Instance().SetArrayStrategy(strategy ? DNDS::MPI::CommStrategy::InSituPack : DNDS::MPI::CommStrategy::HIndexed);
    std::string hist;
    L().begin(vt::str(mapOnly ? "map:" : "xchg:", name, ":s", strategy, ":", cs));
    vtmpi::M().rng = Rng(cs * 77 + mpi.rank);
    {
        Subject<TA> a;
        Subject<TB> b;
        a.create(l, r, 1, cs, compress);
        a.trans.createFatherGlobalMapping();
        auto buildMap = [&]()
        {
            if (!pushBuilt)
            {
                if (r.p(0.5))
                    a.trans.createGhostMapping(req);
                else
                {
                    std::vector<idx> q = req;
                    a.trans.createGhostMapping(std::move(q));
                }
            }
            else
            {
                std::vector<idx> pl;
                std::vector<idx> ps(mpi.size + 1, 0);
                for (int k = 0; k < mpi.size; k++)
                {
                    for (auto g : l.ghosts[k])
                        if (l.rank(g) == mpi.rank)
                            pl.push_back(g - l.off[mpi.rank]);
                    ps[k + 1] = idx(pl.size());
                }
                a.trans.createGhostMapping(pl, ps);
            }
        };
        buildMap();
        VT_CHECK(a.father->globalSize() == l.N, "map-globalsize", "array global size");
        checkMapping(l, *a.trans.pLGlobalMapping, *a.trans.pLGhostMapping, sorted);
        if (!mapOnly)
        {
            a.trans.createMPITypes();
            a.checkFather("after setup");
            // the second subject borrows the indexing of the first
            b.create(l, r, 2, cs, true);
            b.trans.BorrowGGIndexing(a.trans);
            b.trans.createMPITypes();
            int steps = int(r.in(2, 6));
            bool persA = false, persB = false;
            for (int s = 0; s < steps; s++)
            {
                int op = int(r.in(0, doPush ? 7 : 4));
                hist += char('0' + op);
                if (r.p(0.3))
                    a.scribbleSon();
                switch (op)
                {
                case 0: // one-shot pull
                    a.bump(r, 0.6);
                    a.trans.pullOnce();
                    persA = false;
                    a.checkSon("pullOnce");
                    a.checkFather("pullOnce");
                    break;
                case 1: // persistent pull, several rounds
                {
                    a.trans.initPersistentPull();
                    int rounds = int(r.in(1, 3));
                    for (int q = 0; q < rounds; q++)
                    {
                        a.bump(r, 0.5);
                        a.trans.startPersistentPull();
                        vtmpi::M().pause();
                        a.trans.waitPersistentPull();
                        a.checkSon("persistent pull");
                    }
                    a.checkFather("persistent pull");
                    if (r.p(0.5))
                        a.trans.clearPersistentPull();
                    break;
                }
                case 2: // borrowed indexing
                    b.bump(r, 0.6);
                    b.trans.pullOnce();
                    b.checkSon("borrowed pullOnce");
                    b.checkFather("borrowed pullOnce");
                    break;
                case 3: // two exchanges in flight
                    a.trans.initPersistentPull();
                    b.trans.initPersistentPull();
                    for (int q = 0; q < 2; q++)
                    {
                        a.bump(r, 0.5), b.bump(r, 0.5);
                        a.trans.startPersistentPull();
                        b.trans.startPersistentPull();
                        vtmpi::M().pause();
                        if (r.p(0.5))
                            a.trans.waitPersistentPull(), b.trans.waitPersistentPull();
                        else
                            b.trans.waitPersistentPull(), a.trans.waitPersistentPull();
                        a.checkSon("overlapped pull");
                        b.checkSon("overlapped pull 2");
                    }
                    a.trans.clearPersistentPull();
                    b.trans.clearPersistentPull();
                    break;
                case 4: // rebuild types (row sizes may be re-communicated)
                    a.bump(r, 0.5);
                    a.trans.createMPITypes();
                    a.trans.pullOnce();
                    a.checkSon("rebuilt types pull");
                    a.checkFather("rebuilt types pull");
                    break;
                case 5: // one-shot push
                    a.trans.pullOnce();
                    a.newVersionsInGhost(r);
                    a.trans.pushOnce();
                    a.checkFather("pushOnce");
                    a.checkSon("pushOnce (ghost side)");
                    break;
                case 6: // persistent push rounds
                    a.trans.initPersistentPush();
                    for (int q = 0; q < 2; q++)
                    {
                        a.newVersionsInGhost(r);
                        a.trans.startPersistentPush();
                        vtmpi::M().pause();
                        a.trans.waitPersistentPush();
                        a.checkFather("persistent push");
                    }
                    a.trans.clearPersistentPush();
                    break;
                case 7: // push then pull back
                    b.newVersionsInGhost(r);
                    b.trans.pushOnce();
                    b.scribbleSon();
                    b.trans.pullOnce();
                    b.checkFather("push+pull");
                    b.checkSon("push+pull");
                    break;
                }
            }
        }
    }
    MPI_Barrier(MPI_COMM_WORLD);
    VT_CHECK(vtmpi::M().persistent.empty(), "leaked-requests", vtmpi::M().persistent.size(), " persistent requests alive after the arrays were destroyed");
    VT_CHECK(vtmpi::M().types.empty(), "leaked-types", vtmpi::M().types.size(), " committed datatypes alive after the arrays were destroyed");
    vtmpi::M().persistent.clear();
    vtmpi::M().types.clear();
    idx ng = 0;
    for (auto &g : l.ghosts)
        ng += idx(g.size());
    L().endCase(vt::str(name, " s", strategy, " np", mpi.size, " ", l.sig, " hist=", hist, " N=", l.N, " ghosts=", ng), ng > 0);
}

// pairs as the solver uses them: swap while persistent exchanges are set up
static void pairScenario(uint64_t cs, int strategy)
{
    Rng r(cs);
    std::vector<idx> req;
    bool sorted;
    Layout l = makeLayout(r, false, false, req, sorted, int(r.in(1, 16)));
    DNDS::MPI::CommStrategy::Instance().SetArrayStrategy(strategy ? DNDS::MPI::CommStrategy::InSituPack : DNDS::MPI::CommStrategy::HIndexed);
    L().begin(vt::str("pair:s", strategy, ":", cs));
    vtmpi::M().rng = Rng(cs * 77 + mpi.rank);
    {
        using TP = ArrayPair<ArrayEigenMatrix<DynamicSize, DynamicSize>>;
        int nr = int(r.in(1, 4)), nc = int(r.in(1, 4));
        TP p[2];
        auto val = [&](int k, idx g, int i, int j, uint64_t v)
        { return makeVal<double>(vt::mix(vt::mix(cs + k, uint64_t(g) * 64 + i * 8 + j), v)); };
        idx n = l.len[mpi.rank];
        for (int k = 0; k < 2; k++)
        {
            p[k].father = std::make_shared<ArrayEigenMatrix<DynamicSize, DynamicSize>>(mpi);
            p[k].son = std::make_shared<ArrayEigenMatrix<DynamicSize, DynamicSize>>(mpi);
            p[k].father->Resize(n, nr, nc);
            p[k].son->Resize(0, nr, nc);
            p[k].TransAttach();
            if (k == 0)
            {
                p[k].trans.createFatherGlobalMapping();
                auto q = req;
                p[k].trans.createGhostMapping(q);
            }
            else
                p[k].trans.BorrowGGIndexing(p[0].trans);
            p[k].trans.createMPITypes();
            p[k].trans.initPersistentPull();
            p[k].trans.initPersistentPush();
        }
        int who[2] = {0, 1}; // which data set lives in pair k
        uint64_t v = 0;
        auto fill = [&]()
        {
            v++;
            for (int k = 0; k < 2; k++)
                for (idx i = 0; i < n; i++)
                    for (int a = 0; a < nr; a++)
                        for (int b = 0; b < nc; b++)
                            p[k][i](a, b) = val(who[k], l.off[mpi.rank] + i, a, b, v);
        };
        auto check = [&](const char *w)
        {
            for (int k = 0; k < 2; k++)
            {
                VT_CHECK(p[k].Size() == n + idx(l.ghosts[mpi.rank].size()), "pair-size", w);
                for (idx i = 0; i < p[k].Size(); i++)
                {
                    idx g = i < n ? l.off[mpi.rank] + i : l.ghosts[mpi.rank][i - n];
                    auto m = p[k][i];
                    VT_CHECK(m.rows() == nr && m.cols() == nc, "pair-shape", w, " row ", i);
                    if (m.rows() == nr && m.cols() == nc)
                        for (int a = 0; a < nr; a++)
                            for (int b = 0; b < nc; b++)
                                VT_CHECK(m(a, b) == val(who[k], g, a, b, v), "pair-value", w, " row ", i, " global ", g);
                }
            }
        };
        int steps = int(r.in(2, 5));
        for (int s = 0; s < steps; s++)
        {
            fill();
            if (r.p(0.5))
            {
                p[0].SwapDataFatherSon(p[1]);
                std::swap(who[0], who[1]);
                // ghosts are stale until pulled
            }
            for (int k = 0; k < 2; k++)
            {
                p[k].trans.startPersistentPull();
                p[k].trans.waitPersistentPull();
            }
            check("after swap/pull");
        }
        // copy semantics
        TP c;
        c.father = std::make_shared<ArrayEigenMatrix<DynamicSize, DynamicSize>>(mpi);
        c.son = std::make_shared<ArrayEigenMatrix<DynamicSize, DynamicSize>>(mpi);
        c.father->Resize(n, nr, nc);
        c.CopyFather(p[0]);
        auto vOld = v;
        fill();
        VT_CHECK(c.father->Size() == n, "copy-size", "");
        for (idx i = 0; i < std::min(n, c.father->Size()); i++)
            for (int a = 0; a < nr; a++)
                for (int b = 0; b < nc; b++)
                    VT_CHECK((*c.father)[i](a, b) == val(who[0], l.off[mpi.rank] + i, a, b, vOld), "copy-value", "copied owner row changed with the original");
    }
    MPI_Barrier(MPI_COMM_WORLD);
    VT_CHECK(vtmpi::M().persistent.empty(), "leaked-requests", "pair");
    VT_CHECK(vtmpi::M().types.empty(), "leaked-types", "pair");
    vtmpi::M().persistent.clear();
    vtmpi::M().types.clear();
    L().endCase(vt::str("pair s", strategy, " np", mpi.size, " ", l.sig, " N=", l.N), true);
}

using A3 = std::array<double, 3>;
using M3 = Eigen::Matrix<real, 3, 3>;
static void dispatch(int k, uint64_t cs, int st, bool mapOnly)
{
    const auto NU = NonUniformSize;
    const auto DY = DynamicSize;
    switch (k % 12)
    {
    case 0: return scenario<ParArray<real, 1>, ParArray<real, NU>>(cs, "static1/csr", st, mapOnly);
    case 1: return scenario<ParArray<real, 5>, ParArray<idx, NU, 6>>(cs, "static5/idxmax", st, mapOnly);
    case 2: return scenario<ParArray<real, DY>, ParArray<idx, 2>>(cs, "dyn/idx2", st, mapOnly);
    case 3: return scenario<ParArray<real, NU>, ParArray<real, DY>>(cs, "csr/dyn", st, mapOnly);
    case 4: return scenario<ParArray<idx, NU>, ParArray<real, 3>>(cs, "idxcsr/static3", st, mapOnly);
    case 5: return scenario<ParArray<real, NU, 4>, ParArray<real, 1>>(cs, "staticmax/static1", st, mapOnly);
    case 6: return scenario<ParArray<real, NU, DY>, ParArray<idx, NU>>(cs, "max/idxcsr", st, mapOnly);
    case 7: return scenario<ParArray<A3, NU>, ParArray<int32_t, NU, DY>>(cs, "arr3csr/i32max", st, mapOnly);
    case 8: return scenario<ParArray<M3, DY>, ParArray<uint8_t, NU>>(cs, "mat3dyn/u8csr", st, mapOnly);
    case 9: return scenario<ParArray<int32_t, NU>, ParArray<A3, 2>>(cs, "i32csr/arr3", st, mapOnly);
    case 10: return scenario<ParArray<idx, NU, DY>, ParArray<M3, NU, 3>>(cs, "idxmax/mat3max", st, mapOnly);
    case 11: return scenario<ParArray<uint8_t, DY>, ParArray<real, NU, DY>>(cs, "u8dyn/max", st, mapOnly);
    }
}

int main(int argc, char **argv)
{
    vt::start(&argc, &argv);
    mpi.setWorld();
    int n = vt::arg(argc, argv, "--n", 40);
    int base = vt::arg(argc, argv, "--base", 0);
    int mapOnly = vt::arg(argc, argv, "--map", 0);
    int only = vt::arg(argc, argv, "--only", -1);
    vtmpi::M().delays = vt::arg(argc, argv, "--delays", 1);
    vtmpi::M().sync = vt::arg(argc, argv, "--sync", 0);
    for (int c = 0; c < n; c++)
    {
        if (only >= 0 && c != only)
            continue;
        uint64_t cs = vt::mix(L().seed * 1000003 + base, c + 1) >> 16;
        int st = c % 2;
        if (!mapOnly && c % 13 == 12)
            pairScenario(cs, st);
        else
            dispatch(c / 2, cs, st, mapOnly);
    }
    vtmpi::M().flush();
    return vt::finish();
}
