// C04: what is written by a serializer is what is read back.
#include "vt.hpp"
#include "DNDS/Array.hpp"
#include "DNDS/ArrayTransformer.hpp"
#include "DNDS/ArrayPair.hpp"
#include "DNDS/ArrayDerived/ArrayAdjacency.hpp"
#include "DNDS/ArrayDerived/ArrayEigenVector.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatirx.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp"
#include "DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp"
#include "DNDS/SerializerFactory.hpp"
#include <filesystem>

namespace hh
{
    using namespace DNDS;
    using namespace vt;
    using DNDS::index;
    using namespace DNDS::Serializer;

    using Pod3 = std::array<int16_t, 3>;

    struct Cfg
    {
        SerializerFactory f;
        std::string name;
    };

    template <class T>
    T mk(Rng &r)
    {
        if constexpr (std::is_same_v<T, Pod3>)
            return Pod3{int16_t(r.next()), int16_t(r.next()), int16_t(r.next())};
        else if constexpr (std::is_same_v<T, real>)
        {
            switch (r.in(0, 7))
            {
            case 0:
                return 0.0;
            case 1:
                return -0.0;
            case 2:
                return r.u(-1, 1) * std::pow(10.0, double(r.in(-300, 300)));
            case 3:
                return double(r.in(-5, 5));
            case 4:
                return 5e-324 * double(r.in(1, 100)); // subnormal
            default:
                return r.u(-1e3, 1e3);
            }
        }
        else
            return T(r.next());
    }
    template <class T>
    bool same(const T &a, const T &b)
    {
        if constexpr (std::is_same_v<T, real>)
            return std::memcmp(&a, &b, sizeof(T)) == 0;
        else
            return a == b;
    }
    std::string mkStr(Rng &r, bool allowEmpty)
    {
        static const char *pieces[] = {"a", "Z", " ", "\"", "\\", "/", "\n", "\t", "0", "{", "\xC3\xA9", "\xE6\xB5\x81", "::", "ref"};
        std::string s;
        int n = int(r.in(allowEmpty ? 0 : 1, 12));
        for (int i = 0; i < n; i++)
            s += pieces[r.in(0, 13)];
        return s;
    }

    struct Doc
    {
        MPIInfo mpi;
        Cfg cfg;
        uint64_t seed;
        SerializerBaseSSP S;
        std::string file;
        std::vector<std::function<void()>> readers;
        int uniq = 0;
        std::string nm(const char *p) { return str(p, uniq++); }
        // per-rank stream / common stream
        Rng common;
        Rng mine;
        Doc(const MPIInfo &m, Cfg c, uint64_t s) : mpi(m), cfg(std::move(c)), seed(s), common(s), mine(mix(s, 977 + m.rank)) {}
        bool h5() const { return cfg.f.type == "H5"; }
        index rsize() // number of entries on this rank
        {
            int shape = int(common.in(0, 4));
            int who = int(common.in(0, mpi.size - 1));
            if (shape == 0)
                return 0;
            if (shape == 1)
                return mpi.rank == who ? mine.in(1, 12) : 0;
            if (shape == 2)
                return mpi.rank == who ? 0 : mine.in(0, 30);
            return mine.in(0, 20);
        }
        std::string path; // current absolute path

        void go(const std::string &p)
        {
            S->GoToPath(p);
        }

        template <class T, class FW, class FR>
        void scalar(const char *kind, T v, FW fw, FR fr)
        {
            auto n = nm(kind);
            auto p = path;
            fw(n, v);
            readers.push_back([=]()
                              {
                T got{};
                S->GoToPath(p.empty() ? "/" : p);
                fr(n, got);
                bool ok;
                if constexpr (std::is_same_v<T, std::string>) ok = got == v; else ok = same<T>(got, v);
                VT_CHECK(ok, str("serial:", kind), cfg.name, " ", p, "/", n, " wrote ", v, " read ", got); });
        }
        template <class T, class FW, class FR>
        void vec(const char *kind, FW fw, FR fr)
        {
            auto n = nm(kind);
            auto p = path;
            int mode = int(common.in(0, 2)); // parts, explicit distribution, one
            std::vector<T> v;
            ArrayGlobalOffset off = ArrayGlobalOffset_Parts;
            index gl = 0, st = 0;
            if (mode == 2)
            {
                v.resize(common.in(1, 20));
                for (auto &x : v)
                    x = mk<T>(common);
                off = ArrayGlobalOffset_One;
            }
            else
            {
                v.resize(rsize());
                for (auto &x : v)
                    x = mk<T>(mine);
                index me = index(v.size());
                MPI_Exscan(&me, &st, 1, MPI_INT64_T, MPI_SUM, mpi.comm);
                if (mpi.rank == 0)
                    st = 0;
                MPI_Allreduce(&me, &gl, 1, MPI_INT64_T, MPI_SUM, mpi.comm);
                if (mode == 1)
                    off = ArrayGlobalOffset{gl, st};
            }
            fw(n, v, off);
            readers.push_back([=]()
                              {
                S->GoToPath(p.empty() ? "/" : p);
                std::vector<T> got(3, T{});
                ArrayGlobalOffset o = mode == 2 ? ArrayGlobalOffset_One : ArrayGlobalOffset_Unknown;
                fr(n, got, o);
                bool ok = got.size() == v.size();
                for (size_t i = 0; ok && i < v.size(); i++) ok = same<T>(got[i], v[i]);
                VT_CHECK(ok, str("serial:", kind), cfg.name, " ", p, "/", n, " mode ", mode, ": ", v.size(), " values written, ", got.size(), " read, or values differ");
                if (h5() && mode != 2)
                    VT_CHECK(o.isDist() && o.size() == gl && o.offset() == st, str("serial:offset:", kind), cfg.name, " offset read back ", std::string(o), " expected ", gl, ",", st); });
        }
        void bytes()
        {
            auto n = nm("u8");
            auto p = path;
            std::vector<uint8_t> v(rsize());
            for (auto &x : v)
                x = uint8_t(mine.next() % (mine.p(0.5) ? 256 : 3));
            S->WriteUint8Array(n, v.data(), index(v.size()), ArrayGlobalOffset_Parts);
            readers.push_back([=]()
                              {
                S->GoToPath(p.empty() ? "/" : p);
                ArrayGlobalOffset o = ArrayGlobalOffset_Unknown;
                index sz = -1;
                S->ReadUint8Array(n, nullptr, sz, o);
                VT_CHECK(sz == index(v.size()), "serial:u8size", cfg.name, " ", sz, " vs ", v.size());
                std::vector<uint8_t> got(std::max<index>(sz, 1));
                S->ReadUint8Array(n, got.data(), sz, o);
                got.resize(sz);
                VT_CHECK(got == v, "serial:u8", cfg.name, " bytes differ"); });
        }
        // shared vectors: the same object under several names
        std::vector<ssp<std::vector<index>>> sharedI;
        std::vector<ssp<std::vector<rowsize>>> sharedR;
        struct SharedRead
        {
            std::map<void *, void *> w2r; // written object -> read object
            std::vector<ssp<void>> keep;
        };
        std::shared_ptr<SharedRead> sr = std::make_shared<SharedRead>();
        template <class T>
        void shared(std::vector<ssp<std::vector<T>>> &pool, const char *kind, bool mayReuse)
        {
            ssp<std::vector<T>> v;
            bool reuse = !pool.empty() && common.p(0.6);
            if (reuse)
                v = pool[common.in(0, pool.size() - 1)];
            else
            {
                v = std::make_shared<std::vector<T>>(rsize());
                for (auto &x : *v)
                    x = mk<T>(mine);
                pool.push_back(v);
            }
            auto n = nm(kind);
            auto p = path;
            if constexpr (std::is_same_v<T, index>)
                S->WriteSharedIndexVector(n, v, ArrayGlobalOffset_Parts);
            else
                S->WriteSharedRowsizeVector(n, v, ArrayGlobalOffset_Parts);
            auto SR = sr;
            auto keepAlive = v;
            readers.push_back([=]()
                              {
                S->GoToPath(p.empty() ? "/" : p);
                auto got = std::make_shared<ssp<std::vector<T>>>();
                ArrayGlobalOffset o = ArrayGlobalOffset_Unknown;
                if constexpr (std::is_same_v<T, index>)
                    S->ReadSharedIndexVector(n, *got, o);
                else
                    S->ReadSharedRowsizeVector(n, *got, o);
                SR->keep.push_back(got);
                VT_CHECK(*got && **got == *v, str("serial:", kind), cfg.name, " ", p, "/", n, " shared vector differs");
                if (*got)
                {
                    auto it = SR->w2r.find(v.get());
                    if (it == SR->w2r.end())
                        SR->w2r[v.get()] = got->get();
                    else
                        VT_CHECK(it->second == got->get(), str("serial:sharing:", kind), cfg.name, " ", p, "/", n, " no longer shares its storage");
                } });
        }
        template <class TA, class FBuild, class FCmp>
        void array(const char *kind, FBuild fb, FCmp fc)
        {
            auto n = nm(kind);
            auto p = path;
            auto a = std::make_shared<TA>(mpi);
            fb(*a);
            a->WriteSerializer(S, n, ArrayGlobalOffset_Parts);
            VT_CHECK(S->GetCurrentPath() == p, "serial:cwd", cfg.name, " path after array write ", S->GetCurrentPath(), " vs ", p);
            readers.push_back([=]()
                              {
                S->GoToPath(p.empty() ? "/" : p);
                auto b = std::make_shared<TA>(mpi);
                ArrayGlobalOffset o = ArrayGlobalOffset_Unknown;
                b->ReadSerializer(S, n, o);
                SR_keep.push_back(b);
                VT_CHECK(b->Size() == a->Size(), str("serial:", kind, ":size"), cfg.name, " ", b->Size(), " vs ", a->Size());
                bool ok = b->Size() == a->Size();
                for (index i = 0; ok && i < a->Size(); i++)
                    ok = fc(*a, *b, i);
                VT_CHECK(ok, str("serial:", kind), cfg.name, " ", p, "/", n, " array content differs"); });
        }
        static std::vector<ssp<void>> SR_keep;

        template <class T, rowsize RS, rowsize RM>
        void plainArray(const char *kind)
        {
            using TA = ParArray<T, RS, RM>;
            index n = rsize();
            rowsize w = rowsize(common.in(1, 6));
            array<TA>(kind, [&](TA &a)
                      {
                if constexpr (TA::_dataLayout == CSR)
                {
                    a.Resize(n);
                    for (index i = 0; i < n; i++)
                        a.ResizeRow(i, rowsize(mine.in(0, 5)));
                    if (common.p(0.5))
                        a.Compress();
                }
                else if constexpr (TA::_dataLayout == TABLE_StaticFixed) a.Resize(n);
                else if constexpr (TA::_dataLayout == TABLE_Fixed) a.Resize(n, w);
                else if constexpr (TA::_dataLayout == TABLE_StaticMax)
                {
                    a.Resize(n);
                    for (index i = 0; i < n; i++)
                        a.ResizeRow(i, rowsize(mine.in(0, RM)));
                }
                else
                {
                    a.Resize(n, w);
                    for (index i = 0; i < n; i++)
                        a.ResizeRow(i, rowsize(mine.in(0, w)));
                }
                for (index i = 0; i < n; i++)
                    for (rowsize j = 0; j < a.RowSize(i); j++)
                        a(i, j) = mk<T>(mine); },
                      [](TA &a, TA &b, index i)
                      {
                          if (a.RowSize(i) != b.RowSize(i))
                              return false;
                          for (rowsize j = 0; j < a.RowSize(i); j++)
                              if (!same<T>(a(i, j), b(i, j)))
                                  return false;
                          return true;
                      });
        }
        template <class TA>
        void matArray(const char *kind, int p, int q, bool vr, bool vc)
        {
            index n = rsize();
            array<TA>(kind, [&](TA &a)
                      {
                a.Resize(n, p, q);
                for (index i = 0; i < n; i++)
                {
                    int pp = vr ? int(mine.in(1, p)) : p, qq = vc ? int(mine.in(1, q)) : q;
                    if (vr || vc)
                        a.ResizeMat(i, pp, qq);
                    for (int x = 0; x < pp; x++)
                        for (int y = 0; y < qq; y++)
                            a[i](x, y) = mk<real>(mine);
                } },
                      [](TA &a, TA &b, index i)
                      { return a[i].rows() == b[i].rows() && a[i].cols() == b[i].cols() && a[i] == b[i] && a.MatRowSize(i) == b.MatRowSize(i); });
        }
        void pairArray()
        {
            // owned + ghost rows with the ghost index list
            using TA = ParArray<real, NonUniformSize>;
            using TP = ArrayPair<TA>;
            auto n = nm("pair");
            auto p = path;
            auto P = std::make_shared<TP>();
            P->father = std::make_shared<TA>(mpi);
            P->son = std::make_shared<TA>(mpi);
            index nn = rsize();
            if (sumAllI(nn) == 0)
                nn = 3;
            P->father->Resize(nn);
            for (index i = 0; i < nn; i++)
            {
                P->father->ResizeRow(i, rowsize(mine.in(0, 4)));
                for (rowsize j = 0; j < P->father->RowSize(i); j++)
                    (*P->father)(i, j) = mk<real>(mine);
            }
            P->father->Compress();
            P->TransAttach();
            P->trans.createFatherGlobalMapping();
            index gl = sumAllI(nn);
            std::vector<index> pull;
            index mystart = P->trans.pLGlobalMapping->operator()(mpi.rank, 0);
            for (int k = 0; k < 8; k++)
            {
                index g = mine.in(0, gl - 1);
                if (g < mystart || g >= mystart + nn)
                    pull.push_back(g);
            }
            P->trans.createGhostMapping(pull);
            P->trans.createMPITypes();
            P->trans.pullOnce();
            P->WriteSerialize(S, n, true);
            readers.push_back([=]()
                              {
                S->GoToPath(p.empty() ? "/" : p);
                TP Q;
                Q.father = std::make_shared<TA>(mpi);
                Q.son = std::make_shared<TA>(mpi);
                Q.ReadSerialize(S, n, true);
                bool ok = Q.father->Size() == P->father->Size() && Q.son->Size() == P->son->Size();
                ok = ok && Q.trans.pLGhostMapping->ghostIndex == P->trans.pLGhostMapping->ghostIndex;
                for (index i = 0; ok && i < P->Size(); i++)
                {
                    ok = Q.RowSize(i) == P->RowSize(i);
                    for (rowsize j = 0; ok && j < P->RowSize(i); j++)
                        ok = same<real>(Q(i, j), (*P)(i, j));
                }
                VT_CHECK(ok, "serial:pair", cfg.name, " owned/ghost pair differs");
                // and it can still be exchanged
                if (!anyRank(!ok))
                {
                    for (index i = 0; i < Q.son->Size(); i++)
                        for (rowsize j = 0; j < Q.son->RowSize(i); j++)
                            (*Q.son)(i, j) = -12345;
                    Q.trans.createMPITypes();
                    Q.trans.pullOnce();
                    bool ok2 = true;
                    for (index i = 0; i < P->Size(); i++)
                        for (rowsize j = 0; ok2 && j < P->RowSize(i); j++)
                            ok2 = same<real>(Q(i, j), (*P)(i, j));
                    VT_CHECK(ok2, "serial:pairExchange", cfg.name, " re-read pair exchanges wrong rows");
                } });
        }

        void entry(int k)
        {
            switch (k)
            {
            case 0:
                scalar<int>("int", int(common.next()), [&](auto &n, int v)
                            { S->WriteInt(n, v); }, [this](auto &n, int &v)
                            { S->ReadInt(n, v); });
                break;
            case 1:
                scalar<index>("index", index(common.next()), [&](auto &n, index v)
                              { S->WriteIndex(n, v); }, [this](auto &n, index &v)
                              { S->ReadIndex(n, v); });
                break;
            case 2:
                scalar<real>("real", mk<real>(common), [&](auto &n, real v)
                             { S->WriteReal(n, v); }, [this](auto &n, real &v)
                             { S->ReadReal(n, v); });
                break;
            case 3:
                scalar<std::string>("str", mkStr(common, true), [&](auto &n, const std::string &v)
                                    { S->WriteString(n, v); }, [this](auto &n, std::string &v)
                                    { S->ReadString(n, v); });
                break;
            case 4:
                vec<index>("ivec", [&](auto &n, auto &v, auto o)
                           { S->WriteIndexVector(n, v, o); }, [this](auto &n, auto &v, auto &o)
                           { S->ReadIndexVector(n, v, o); });
                break;
            case 5:
                vec<rowsize>("rvec", [&](auto &n, auto &v, auto o)
                             { S->WriteRowsizeVector(n, v, o); }, [this](auto &n, auto &v, auto &o)
                             { S->ReadRowsizeVector(n, v, o); });
                break;
            case 6:
                vec<real>("dvec", [&](auto &n, auto &v, auto o)
                          { S->WriteRealVector(n, v, o); }, [this](auto &n, auto &v, auto &o)
                          { S->ReadRealVector(n, v, o); });
                break;
            case 7:
                bytes();
                break;
            case 8:
            case 9:
                shared<index>(sharedI, "sharedI", true);
                break;
            case 10:
            case 11:
                shared<rowsize>(sharedR, "sharedR", true);
                break;
            case 12:
                plainArray<real, 3, 3>("arrStatic");
                break;
            case 13:
                plainArray<index, DynamicSize, DynamicSize>("arrDyn");
                break;
            case 14:
                plainArray<real, NonUniformSize, NonUniformSize>("arrCSR");
                break;
            case 15:
                plainArray<Pod3, NonUniformSize, NonUniformSize>("arrCSRpod");
                break;
            case 16:
                plainArray<index, NonUniformSize, 4>("arrSMax");
                break;
            case 17:
                plainArray<real, NonUniformSize, DynamicSize>("arrDMax");
                break;
            case 18:
                matArray<ArrayEigenMatrix<3, 2>>("matStatic", 3, 2, false, false);
                break;
            case 19:
                matArray<ArrayEigenMatrix<DynamicSize, 5>>("matDyn", int(common.in(1, 5)), 5, false, false);
                break;
            case 20:
                matArray<ArrayEigenMatrix<NonUniformSize, NonUniformSize>>("matCSR", 5, 4, true, true);
                break;
            case 21:
                matArray<ArrayEigenMatrix<NonUniformSize, 3>>("matCSRrows", 5, 3, true, false);
                break;
            case 22:
            {
                using TA = ArrayEigenUniMatrixBatch<2, Eigen::Dynamic>;
                index n = rsize();
                int q = int(common.in(1, 4));
                array<TA>("uniBatch", [&](TA &a)
                          {
                    a.Resize(n, 2, q);
                    for (index i = 0; i < n; i++)
                    {
                        a.ResizeBatch(i, rowsize(mine.in(0, 3)));
                        for (rowsize k = 0; k < a.BatchSize(i); k++)
                            for (int x = 0; x < 2; x++)
                                for (int y = 0; y < q; y++)
                                    a(i, k)(x, y) = mk<real>(mine);
                    }
                    a.Compress(); }, [](TA &a, TA &b, index i)
                          {
                    if (a.BatchSize(i) != b.BatchSize(i) || a.Rows() != b.Rows() || a.Cols() != b.Cols())
                        return false;
                    for (rowsize k = 0; k < a.BatchSize(i); k++)
                        if (!(a(i, k) == b(i, k)))
                            return false;
                    return true; });
                break;
            }
            case 23:
            {
                using TA = ArrayEigenMatrixBatch;
                index n = rsize();
                array<TA>("matBatch", [&](TA &a)
                          {
                    a.Resize(n);
                    for (index i = 0; i < n; i++)
                    {
                        std::vector<MatrixXR> m(mine.in(0, 3));
                        for (auto &x : m)
                            x.setRandom(mine.in(1, 4), mine.in(1, 4));
                        a.InitializeWriteRow(i, m);
                    }
                    a.Compress(); }, [](TA &a, TA &b, index i)
                          {
                    if (a[i].Size() != b[i].Size())
                        return false;
                    for (size_t k = 0; k < a[i].Size(); k++)
                        if (!(a(i, rowsize(k)) == b(i, rowsize(k))))
                            return false;
                    return true; });
                break;
            }
            case 24:
                pairArray();
                break;
            }
        }
        void open(bool read)
        {
            S = cfg.f.BuildSerializer(mpi);
            S->OpenFile(file, read);
        }
        void run(int nEntry)
        {
            file = L().scratch + "/doc" + std::to_string(seed % 1000000) + (h5() ? std::string(".h5") : "_" + std::to_string(mpi.rank) + ".json");
            open(false);
            S->CreatePath("/main");
            S->GoToPath("/main");
            path = "/main";
            for (int e = 0; e < nEntry; e++)
            {
                if (common.p(0.25))
                {
                    auto g = nm("grp");
                    if (common.p(0.5))
                    {
                        S->CreatePath(g), S->GoToPath(g);
                        path += "/" + g;
                    }
                    else
                    {
                        S->CreatePath("/" + g), S->GoToPath("/" + g);
                        path = "/" + g;
                    }
                    VT_CHECK(S->GetCurrentPath() == path, "serial:path", cfg.name, " at ", S->GetCurrentPath(), " expected ", path);
                }
                entry(int(common.in(0, 24)));
            }
            S->CloseFile();
            S.reset();
            MPI_Barrier(mpi.comm);
            // the same order on all ranks, not always that of writing
            if (common.p(0.5))
                common.shuffle(readers);
            open(true);
            for (auto &f : readers)
                f();
            if (common.p(0.3)) // reading again gives the same
                for (auto &f : readers)
                    f();
            S->CloseFile();
            S.reset();
            SR_keep.clear();
            MPI_Barrier(mpi.comm);
            if (mpi.rank == 0 || !h5())
                std::filesystem::remove(file);
        }
        // shared row information of arrays that live only while they are written / read
        void transient()
        {
            file = L().scratch + "/tr" + std::to_string(seed % 1000000) + (h5() ? std::string(".h5") : "_" + std::to_string(mpi.rank) + ".json");
            using TA = ParArray<index, NonUniformSize>;
            std::vector<std::vector<std::vector<index>>> doc(5);
            open(false);
            S->CreatePath("/m"), S->GoToPath("/m");
            for (size_t k = 0; k < doc.size(); k++)
            {
                TA a(mpi);
                index n = 6; // equal sizes: storage is likely to be handed out again at the same address
                a.Resize(n);
                doc[k].resize(n);
                for (index i = 0; i < n; i++)
                {
                    doc[k][i].resize(mine.in(0, 3));
                    a.ResizeRow(i, rowsize(doc[k][i].size()));
                    for (size_t j = 0; j < doc[k][i].size(); j++)
                        a(i, rowsize(j)) = doc[k][i][j] = index(mine.next() >> 3);
                }
                a.WriteSerializer(S, str("a", k), ArrayGlobalOffset_Parts);
            }
            S->CloseFile();
            MPI_Barrier(mpi.comm);
            open(true);
            S->GoToPath("/m");
            for (size_t k = 0; k < doc.size(); k++)
            {
                auto a = std::make_unique<TA>(mpi);
                ArrayGlobalOffset o = ArrayGlobalOffset_Unknown;
                a->ReadSerializer(S, str("a", k), o);
                bool ok = a->Size() == index(doc[k].size());
                for (index i = 0; ok && i < a->Size(); i++)
                {
                    ok = a->RowSize(i) == rowsize(doc[k][i].size());
                    for (rowsize j = 0; ok && j < a->RowSize(i); j++)
                        ok = (*a)(i, j) == doc[k][i][j];
                }
                VT_CHECK(ok, "serial:transientWrite", cfg.name, " array ", k, " written from a temporary reads back differently");
            }
            S->CloseFile();
            MPI_Barrier(mpi.comm);
            // two arrays sharing their row starts, read one after the other into temporaries
            {
                open(false);
                S->CreatePath("/m"), S->GoToPath("/m");
                auto rs = std::make_shared<std::vector<index>>(std::vector<index>{0, 2, 5, 7});
                for (int k = 0; k < 3; k++)
                    S->WriteSharedIndexVector(str("s", k), rs, ArrayGlobalOffset_Parts);
                S->CloseFile();
                MPI_Barrier(mpi.comm);
                open(true);
                S->GoToPath("/m");
                for (int k = 0; k < 3; k++)
                {
                    auto holder = std::make_unique<ssp<std::vector<index>>>();
                    ArrayGlobalOffset o = ArrayGlobalOffset_Unknown;
                    S->ReadSharedIndexVector(str("s", k), *holder, o);
                    VT_CHECK(*holder && **holder == *rs, "serial:transientRead", cfg.name, " shared vector read into a temporary differs");
                    if (k == 0)
                        holder.reset(), std::vector<std::unique_ptr<ssp<std::vector<index>>>>(4);
                    else
                        *holder = std::make_shared<std::vector<index>>(1, -1); // the reader does what it likes with its own pointer
                }
                S->CloseFile();
            }
            MPI_Barrier(mpi.comm);
            if (mpi.rank == 0 || !h5())
                std::filesystem::remove(file);
        }
    };
    std::vector<ssp<void>> Doc::SR_keep;
}
using namespace hh;

int main(int argc, char **argv)
{
    vt::start(&argc, &argv);
    DNDS::MPIInfo mpi;
    mpi.setWorld();
    int n = arg(argc, argv, "--n", 10), base = arg(argc, argv, "--base", 0), only = arg(argc, argv, "--only", -1);
    std::vector<Cfg> cfgs;
    {
        Cfg c;
        c.f.type = "JSON", c.f.jsonUseCodecOnUInt8 = true, c.name = "JSON/codec";
        cfgs.push_back(c);
        c.f.jsonUseCodecOnUInt8 = false, c.name = "JSON/plain";
        cfgs.push_back(c);
        c.f.jsonUseCodecOnUInt8 = true, c.f.jsonBinaryDeflateLevel = 0, c.name = "JSON/codec0";
        cfgs.push_back(c);
        Cfg h;
        h.f.type = "H5", h.name = "H5";
        cfgs.push_back(h);
        h.f.hdfCollOnMeta = false, h.name = "H5/indep-meta";
        cfgs.push_back(h);
        h.f.hdfCollOnMeta = true, h.f.hdfCollOnData = true, h.name = "H5/coll-data";
        cfgs.push_back(h);
        h.f.hdfCollOnData = false, h.f.hdfChunkSize = 7, h.name = "H5/chunk";
        cfgs.push_back(h);
        h.f.hdfChunkSize = 16, h.f.hdfDeflateLevel = 4, h.name = "H5/deflate";
        cfgs.push_back(h);
        h.f.hdfCollOnData = true, h.name = "H5/deflate-coll";
        cfgs.push_back(h);
    }
    for (int k = 0; k < n; k++)
        for (size_t ic = 0; ic < cfgs.size(); ic++)
        {
            if (only >= 0 && int(ic) != only)
                continue;
            uint64_t s = mix(L().seed * 131 + ic, base + k);
            L().begin(str("doc:", cfgs[ic].name, ":s", s));
            Doc d(mpi, cfgs[ic], s);
            d.run(int(d.common.in(3, 14)));
            L().endCase(str("doc:", cfgs[ic].name, ":np", mpi.size, ":", s), true);
            if (k % 4 == 0)
            {
                L().begin(str("transient:", cfgs[ic].name, ":s", s));
                Doc d2(mpi, cfgs[ic], s);
                d2.transient();
                L().endCase(str("transient:", cfgs[ic].name, ":np", mpi.size, ":", s), true);
            }
        }
    return vt::finish();
}
