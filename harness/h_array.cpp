// C03: array containers against a plain reference model, over random operation histories.
// C05: object pool: exactly-once hand-out.
#include "vt.hpp"
#include "DNDS/Array.hpp"
#include "DNDS/ArrayTransformer.hpp"
#include "DNDS/ArrayPair.hpp"
#include "DNDS/ArrayDerived/ArrayAdjacency.hpp"
#include "DNDS/ArrayDerived/ArrayEigenVector.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatirx.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp"
#include "DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp"
#include "DNDS/ObjectPool.hpp"
#include <thread>
#include <mutex>
namespace hh
{
    using namespace DNDS;
    using namespace vt;
    using DNDS::index;

struct Pod3
{
    int32_t a;
    float b;
    int16_t c;
    bool operator==(const Pod3 &o) const { return a == o.a && b == o.b && c == o.c; }
};
} // hh
namespace std
{
    template <>
    struct hash<hh::Pod3>
    {
        size_t operator()(const hh::Pod3 &p) const { return size_t(p.a) * 31 + size_t(p.c); }
    };
}
namespace hh
{
template <class T>
T mk(Rng &r)
{
    if constexpr (std::is_same_v<T, Pod3>)
        return Pod3{int32_t(r.in(-1000000, 1000000)), float(r.in(-1000, 1000)), int16_t(r.in(-30000, 30000))};
    else if constexpr (std::is_floating_point_v<T>)
        return T(r.u(-1e3, 1e3));
    else
        return T(r.next());
}
std::ostream &operator<<(std::ostream &o, const Pod3 &p) { return o << p.a << "," << p.b << "," << p.c; }

template <class T, rowsize RS, rowsize RM>
struct Tester
{
    using A = Array<T, RS, RM>;
    static constexpr bool csr = A::_dataLayout == CSR;
    static constexpr bool mx = A::_dataLayout == TABLE_Max || A::_dataLayout == TABLE_StaticMax;
    static constexpr bool fx = A::_dataLayout == TABLE_Fixed || A::_dataLayout == TABLE_StaticFixed;
    struct Item
    {
        std::shared_ptr<A> a;
        std::vector<std::vector<T>> m;
        rowsize width = 0; // dynamic row size / max
        bool compressed = false;
    };
    std::string name;
    Rng r;
    std::string hist;
    explicit Tester(std::string n, uint64_t s) : name(std::move(n)), r(s) {}

    void fillRow(Item &x, index i)
    {
        for (rowsize j = 0; j < rowsize(x.m[i].size()); j++)
        {
            T v = mk<T>(r);
            x.m[i][j] = v;
            switch (r.in(0, 1))
            {
            case 0:
                (*x.a)(i, j) = v;
                break;
            default:
                (*x.a)[i][j] = v;
            }
        }
    }
    void resize(Item &x)
    {
        index n = r.in(0, 9) == 0 ? 0 : r.in(0, 25);
        hist += str("R", n, ",");
        x.m.assign(n, {});
        if constexpr (csr)
        {
            if (r.p(0.5))
            {
                std::vector<rowsize> sz(n);
                for (auto &s : sz)
                    s = rowsize(r.p(0.25) ? 0 : r.in(0, 7));
                x.a->Resize(n, [&](index i) -> rowsize
                            { return sz[i]; });
                for (index i = 0; i < n; i++)
                    x.m[i].resize(sz[i]);
                x.compressed = true;
            }
            else
            {
                x.a->Decompress();
                x.a->Resize(n);
                x.compressed = false;
                for (index i = 0; i < n; i++)
                {
                    rowsize s = rowsize(r.p(0.25) ? 0 : r.in(0, 7));
                    x.a->ResizeRow(i, s);
                    x.m[i].resize(s);
                }
            }
        }
        else if constexpr (mx)
        {
            if constexpr (A::_dataLayout == TABLE_StaticMax)
            {
                x.width = RM;
                if (r.p(0.5))
                    x.a->Resize(n);
                else
                    x.a->Resize(n, RM);
            }
            else
                x.width = rowsize(r.in(0, 7)), x.a->Resize(n, x.width);
            for (index i = 0; i < n; i++)
            {
                rowsize s = rowsize(r.in(0, x.width));
                x.a->ResizeRow(i, s);
                x.m[i].resize(s);
            }
        }
        else
        {
            if constexpr (A::_dataLayout == TABLE_StaticFixed)
            {
                x.width = RS;
                if (r.p(0.5))
                    x.a->Resize(n);
                else
                    x.a->Resize(n, RS);
            }
            else
                x.width = rowsize(r.in(0, 7)), x.a->Resize(n, x.width);
            for (index i = 0; i < n; i++)
                x.m[i].resize(x.width);
        }
        for (index i = 0; i < n; i++)
            fillRow(x, i);
    }
    void verify(Item &x, const char *when)
    {
        A &a = *x.a;
        const A &ca = a;
        VT_CHECK(a.Size() == index(x.m.size()), "array:size", name, " ", when, " size ", a.Size(), " expected ", x.m.size(), " after ", hist);
        if (a.Size() != index(x.m.size()))
            return;
        size_t tot = 0;
        for (index i = 0; i < a.Size(); i++)
        {
            rowsize s = rowsize(x.m[i].size());
            tot += s;
            VT_CHECK(a.RowSize(i) == s, "array:rowsize", name, " ", when, " row ", i, " has ", a.RowSize(i), " expected ", s, " after ", hist);
            if (a.RowSize(i) != s)
                continue;
            if constexpr (fx)
                VT_CHECK(a.RowSize() == s && a.RowSizeField() == s, "array:rowsizeUniform", name, " ", when);
            if constexpr (mx)
                VT_CHECK(a.RowSizeMax() == x.width && a.RowSizeField() == x.width, "array:rowsizemax", name, " ", when, " ", a.RowSizeMax(), " vs ", x.width, " after ", hist);
            if constexpr (csr)
                VT_CHECK(a.RowSizeField(i) == s, "array:rowsizefield", name, " ", when);
            bool ok = true;
            for (rowsize j = 0; j < s; j++)
                ok = ok && ca.at(i, j) == x.m[i][j] && ca(i, j) == x.m[i][j] && a(i, j) == x.m[i][j] && a[i][j] == x.m[i][j] && ca[i][j] == x.m[i][j];
            VT_CHECK(ok, "array:value", name, " ", when, " row ", i, " differs from what was stored, after ", hist);
        }
        if constexpr (csr)
        {
            if (a.Size() > 0)
                VT_CHECK(a.IfCompressed() == x.compressed, "array:compressedState", name, " ", when, " after ", hist);
            if (a.Size() > 0 && a.IfCompressed())
            {
                VT_CHECK(a.DataSize() == tot, "array:datasize", name, " ", when, " ", a.DataSize(), " vs ", tot);
                VT_CHECK(a[a.Size()] - a[0] == std::ptrdiff_t(tot), "array:pastEnd", name, " ", when);
                bool ok = true;
                for (index i = 0; i < a.Size(); i++)
                    ok = ok && a[i + 1] - a[i] == std::ptrdiff_t(x.m[i].size());
                VT_CHECK(ok, "array:contiguous", name, " ", when);
                VT_CHECK(a.getRowStart() && index(a.getRowStart()->size()) == a.Size() + 1, "array:rowstart", name, " ", when);
            }
        }
        else
        {
            VT_CHECK(a.DataSize() == size_t(a.Size()) * size_t(x.width), "array:datasize", name, " ", when, " ", a.DataSize(), " vs ", a.Size() * x.width);
            if (a.Size() > 0)
                VT_CHECK(a[a.Size()] - a[0] == std::ptrdiff_t(a.Size() * x.width), "array:pastEnd", name, " ", when);
        }
    }
    void hashes(Item &x)
    {
        // two arrays with equal content built along different ways have equal hashes
        auto b = std::make_shared<A>();
        index n = index(x.m.size());
        if constexpr (csr)
            b->Resize(n, [&](index i) -> rowsize
                      { return rowsize(x.m[i].size()); });
        else
            b->Resize(n, x.width);
        if constexpr (mx)
            for (index i = 0; i < n; i++)
                b->ResizeRow(i, rowsize(x.m[i].size()));
        for (index i = 0; i < n; i++)
            for (rowsize j = 0; j < rowsize(x.m[i].size()); j++)
                (*b)(i, j) = x.m[i][j];
        if constexpr (csr)
            if (x.compressed && n > 0)
                VT_CHECK(b->hash() == x.a->hash(), "array:hash", name, " equal arrays hash differently after ", hist);
        if constexpr (fx)
            VT_CHECK(b->hash() == x.a->hash(), "array:hash", name, " equal arrays hash differently after ", hist);
    }
    void run(int steps)
    {
        std::vector<Item> v(3);
        for (auto &x : v)
        {
            x.a = std::make_shared<A>();
            resize(x);
            verify(x, "after creation");
        }
        for (int s = 0; s < steps; s++)
        {
            auto &x = v[r.in(0, 2)];
            int op = int(r.in(0, 8));
            const char *what = "";
            if (op == 0)
                resize(x), what = "after resize";
            else if (op == 1 && x.a->Size() > 0)
            {
                index i = r.in(0, x.a->Size() - 1);
                hist += str("w", i, ",");
                fillRow(x, i), what = "after row write";
            }
            else if (op == 2 && !fx && x.a->Size() > 0)
            {
                if constexpr (!fx)
                {
                    index i = r.in(0, x.a->Size() - 1);
                    rowsize n = rowsize(csr ? r.in(0, 9) : r.in(0, x.width));
                    if constexpr (csr)
                        if (x.compressed)
                        {
                            x.a->Decompress(), x.compressed = false;
                            hist += "D,";
                            verify(x, "after decompress");
                        }
                    if constexpr (csr)
                        if (r.p(0.3))
                            x.a->ReserveRow(i, n + 3);
                    hist += str("rr", i, ":", n, ",");
                    x.a->ResizeRow(i, n);
                    size_t keep = std::min(x.m[i].size(), size_t(n)); // values in the kept part stay
                    x.m[i].resize(n);
                    for (rowsize j = 0; j < rowsize(keep); j++)
                        VT_CHECK((*x.a)(i, j) == x.m[i][j], "array:resizeRowKeeps", name, " after ", hist);
                    fillRow(x, i);
                    what = "after row resize";
                }
            }
            else if (op == 3)
            {
                x.a->Compress(), x.compressed = true, what = "after compress", hist += "C,";
            }
            else if (op == 4)
            {
                x.a->Decompress(), x.compressed = false, what = "after decompress", hist += "D,";
            }
            else if (op == 5)
            {
                auto &y = v[r.in(0, 2)];
                hist += "copy,";
                if (&x != &y)
                {
                    if (r.p(0.5))
                        y.a->CopyData(*x.a);
                    else
                        y.a = std::make_shared<A>(*x.a);
                    y.m = x.m, y.width = x.width, y.compressed = x.compressed;
                }
                what = "after copy";
            }
            else if (op == 6)
            {
                // swap of two arrays of the same size (and storage) exchanges their contents
                Item y;
                y.a = std::make_shared<A>(*x.a);
                y.m = x.m, y.width = x.width, y.compressed = x.compressed;
                if constexpr (mx)
                    for (index i = 0; i < y.a->Size(); i++)
                    {
                        rowsize n = rowsize(r.in(0, y.width));
                        y.a->ResizeRow(i, n), y.m[i].resize(n);
                    }
                for (index i = 0; i < y.a->Size(); i++)
                    fillRow(y, i);
                verify(x, "original after its copy was changed");
                hist += "swap,";
                x.a->SwapData(*y.a);
                std::swap(x.m, y.m);
                verify(y, "after swap (other)");
                what = "after swap";
            }
            else if (op == 7)
                hashes(x), what = "after hashing";
            else if (op == 8)
            {
                std::ostringstream o;
                o << *x.a;
                index lines = 0;
                for (char c : o.str())
                    lines += c == '\n';
                if constexpr (sizeof(T) > 1)
                VT_CHECK(lines == x.a->Size(), "array:print", name, " ", lines, " lines");
            }
            for (auto &y : v)
                verify(y, what); // the other arrays must be untouched
            if (hist.size() > 400)
                hist = "..." + hist.substr(hist.size() - 300);
        }
    }
};

template <class T, rowsize RS, rowsize RM = RS>
void oneArray(const std::string &nm, uint64_t seed, int steps)
{
    L().begin(str("array:", nm, ":s", seed));
    Tester<T, RS, RM> t(nm, seed);
    t.run(steps);
    L().endCase(str("array:", nm, ":", seed), true);
}

// -------------------------------------------------------------- derived arrays
using Mats = std::vector<std::vector<Eigen::MatrixXd>>;
Eigen::MatrixXd rm(Rng &r, int a, int b)
{
    Eigen::MatrixXd m(a, b);
    for (int i = 0; i < a; i++)
        for (int j = 0; j < b; j++)
            m(i, j) = r.u(-10, 10);
    return m;
}

void adjacency(Rng &r, const MPIInfo &mpi)
{
    auto go = [&](auto &a, int mode)
    {
        index n = r.in(1, 20);
        std::vector<std::vector<index>> m(n);
        if (mode == 0)
            a.Resize(n);
        else if (mode == 1)
            a.Resize(n, 4);
        for (index i = 0; i < n; i++)
        {
            if (mode == 0)
                m[i].resize(r.in(0, 6)), a.ResizeRow(i, rowsize(m[i].size()));
            else
                m[i].resize(4);
            for (auto &x : m[i])
                x = index(r.next());
            a[i] = m[i];
        }
        auto ver = [&](const char *w)
        {
            for (index i = 0; i < n; i++)
            {
                std::vector<index> got = a[i];
                bool ok = got == m[i] && a[i].size() == rowsize(m[i].size()) && a[i].end() - a[i].begin() == std::ptrdiff_t(m[i].size());
                for (size_t j = 0; ok && j < m[i].size(); j++)
                    ok = a[i][rowsize(j)] == m[i][j] && a(i, rowsize(j)) == m[i][j] && a.rowPtr(i)[j] == m[i][j];
                VT_CHECK(ok, "adjacency:row", w, " row ", i);
            }
        };
        ver("filled");
        a.Compress();
        ver("compressed");
        for (int k = 0; k < 10; k++)
        {
            index i = r.in(0, n - 1), j = r.in(0, n - 1);
            if (m[i].size() == m[j].size())
            {
                a[i] = a[j], m[i] = m[j];
                ver("row assigned");
            }
        }
        a.Decompress();
        ver("decompressed");
    };
    ArrayAdjacency<NonUniformSize> a(mpi);
    go(a, 0);
    ArrayAdjacency<DynamicSize> b(mpi);
    go(b, 1);
    ArrayAdjacency<4> c(mpi);
    go(c, 1);
}

void eigenArrays(Rng &r, const MPIInfo &mpi)
{
    index n = r.in(1, 15);
    { // vectors
        auto go = [&](auto &a, int w)
        {
            a.Resize(n, w);
            std::vector<Eigen::VectorXd> m(n);
            for (index i = 0; i < n; i++)
                m[i] = rm(r, w, 1), a[i] = m[i];
            for (index i = 0; i < n; i++)
                VT_CHECK(a[i].size() == w && a[i] == m[i], "eigenvec:value", "row ", i);
        };
        ArrayEigenVector<3> a(mpi);
        go(a, 3);
        ArrayEigenVector<DynamicSize> b(mpi);
        go(b, int(r.in(1, 9)));
    }
    { // uniform matrices
        auto go = [&](auto &a, int p, int q)
        {
            a.Resize(n, p, q);
            std::vector<Eigen::MatrixXd> m(n);
            for (index i = 0; i < n; i++)
                m[i] = rm(r, p, q), a[i] = m[i];
            for (index i = 0; i < n; i++)
            {
                VT_CHECK(a[i].rows() == p && a[i].cols() == q && a[i] == m[i], "eigenmat:value", "row ", i, " ", p, "x", q);
                VT_CHECK(a.MatRowSize(i) == p && a.MatColSize(i) == q, "eigenmat:size", a.MatRowSize(i), "x", a.MatColSize(i), " vs ", p, "x", q);
            }
        };
        ArrayEigenMatrix<3, 4> a(mpi);
        go(a, 3, 4);
        ArrayEigenMatrix<DynamicSize, 5> b(mpi);
        go(b, int(r.in(1, 9)), 5);
        ArrayEigenMatrix<DynamicSize, DynamicSize> c(mpi);
        go(c, int(r.in(1, 9)), int(r.in(1, 9)));
    }
    { // matrices of varying height / shape
        auto go = [&](auto &a, int maxr, int q, bool varyCols, bool csr)
        {
            a.Resize(n, maxr, q);
            std::vector<Eigen::MatrixXd> m(n);
            for (index i = 0; i < n; i++)
            {
                int p = int(r.in(1, maxr)), qq = varyCols ? int(r.in(1, q)) : q;
                a.ResizeMat(i, p, qq);
                m[i] = rm(r, p, qq);
                a[i] = m[i];
            }
            auto ver = [&](const char *w)
            {
                for (index i = 0; i < n; i++)
                {
                    VT_CHECK(a[i].rows() == m[i].rows() && a[i].cols() == m[i].cols() && a[i] == m[i], "eigenmat:varying", w, " row ", i);
                    VT_CHECK(a.MatRowSize(i) == m[i].rows() && a.MatColSize(i) == m[i].cols(), "eigenmat:varyingSize", w, " row ", i);
                }
            };
            ver("filled");
            if (csr)
            {
                a.Compress();
                ver("compressed");
                a.Decompress();
                ver("decompressed");
            }
            // a copy is independent of its original
            auto b = a;
            for (index i = 0; i < n; i++)
            {
                int p = int(r.in(1, maxr)), qq = varyCols ? int(r.in(1, q)) : q;
                b.ResizeMat(i, p, qq);
                b[i].setConstant(-1);
            }
            ver("a copy was changed");
        };
        ArrayEigenMatrix<NonUniformSize, 3> a(mpi);
        go(a, 6, 3, false, true);
        ArrayEigenMatrix<NonUniformSize, NonUniformSize> b(mpi);
        go(b, 6, 5, true, true);
        ArrayEigenMatrix<NonUniformSize, 4, 7, 4> c(mpi);
        go(c, 7, 4, false, false);
    }
    { // batches of arbitrary matrices
        ArrayEigenMatrixBatch a(mpi);
        a.Resize(n);
        Mats m(n);
        for (index i = 0; i < n; i++)
        {
            m[i].resize(r.in(0, 5));
            for (auto &x : m[i])
                x = rm(r, int(r.in(1, 6)), int(r.in(1, 6)));
            std::vector<MatrixXR> mm(m[i].begin(), m[i].end());
            a.InitializeWriteRow(i, mm);
        }
        auto ver = [&](const char *w)
        {
            for (index i = 0; i < n; i++)
            {
                VT_CHECK(a[i].Size() == m[i].size(), "matbatch:size", w, " row ", i);
                for (size_t k = 0; k < m[i].size(); k++)
                    VT_CHECK(a(i, rowsize(k)).rows() == m[i][k].rows() && a(i, rowsize(k)).cols() == m[i][k].cols() && a(i, rowsize(k)) == m[i][k] && a[i][rowsize(k)] == m[i][k],
                             "matbatch:value", w, " row ", i, " matrix ", k);
            }
        };
        ver("filled");
        a.Compress();
        ver("compressed");
        for (int t = 0; t < 10; t++)
        {
            index i = r.in(0, n - 1);
            if (!m[i].empty())
            {
                size_t k = r.in(0, m[i].size() - 1);
                m[i][k] = rm(r, int(m[i][k].rows()), int(m[i][k].cols()));
                a(i, rowsize(k)) = m[i][k];
                ver("matrix written");
            }
        }
        a.Decompress();
        ver("decompressed");
    }
    { // batches of equal matrices
        auto go = [&](auto &a, int p, int q)
        {
            a.Resize(n, p, q);
            Mats m(n);
            for (index i = 0; i < n; i++)
            {
                m[i].resize(r.in(0, 6));
                a.ResizeBatch(i, rowsize(m[i].size()));
                for (size_t k = 0; k < m[i].size(); k++)
                    m[i][k] = rm(r, p, q), a(i, rowsize(k)) = m[i][k];
            }
            auto ver = [&](const char *w)
            {
                for (index i = 0; i < n; i++)
                {
                    VT_CHECK(a.BatchSize(i) == rowsize(m[i].size()) && a.RowSize(i) == rowsize(m[i].size()) && a[i].size() == m[i].size(), "unibatch:size", w, " row ", i);
                    for (size_t k = 0; k < m[i].size(); k++)
                        VT_CHECK(a(i, rowsize(k)) == m[i][k] && a[i][k] == m[i][k], "unibatch:value", w, " row ", i, " matrix ", k);
                }
            };
            ver("filled");
            a.Compress();
            ver("compressed");
            a.Decompress();
            ver("decompressed");
        };
        ArrayEigenUniMatrixBatch<2, 3> a(mpi);
        go(a, 2, 3);
        ArrayEigenUniMatrixBatch<Eigen::Dynamic, 2> b(mpi);
        go(b, int(r.in(1, 5)), 2);
        ArrayEigenUniMatrixBatch<Eigen::Dynamic, Eigen::Dynamic> c(mpi);
        go(c, int(r.in(1, 5)), int(r.in(1, 5)));
    }
    { // owned + ghost pair is one index space
        ArrayPair<ArrayEigenVector<2>> p;
        p.father = std::make_shared<ArrayEigenVector<2>>(mpi);
        p.son = std::make_shared<ArrayEigenVector<2>>(mpi);
        index n2 = r.in(0, 6);
        p.father->Resize(n), p.son->Resize(n2);
        for (index i = 0; i < n + n2; i++)
            p[i] = Eigen::Vector2d(double(i), -double(i));
        bool ok = p.Size() == n + n2;
        for (index i = 0; i < n; i++)
            ok = ok && (*p.father)[i](0) == double(i) && p(i, 1) == -double(i);
        for (index i = 0; i < n2; i++)
            ok = ok && (*p.son)[i](0) == double(n + i) && p(n + i, 1) == -double(n + i);
        VT_CHECK(ok, "pair:index", "owned/ghost index space");
    }
}

// -------------------------------------------------------------- object pool
struct Obj
{
    static long long live, made;
    int id;
    int64_t canary = 0x1234567;
    std::vector<int> payload;
    explicit Obj(int n = 3) : payload(n, 7) { live++, id = int(made++); }
    Obj(const Obj &) = delete;
    ~Obj() { live--, canary = 0; }
};
long long Obj::live = 0, Obj::made = 0;

void pool(uint64_t seed)
{
    L().begin(str("pool:s", seed));
    Rng r(seed);
    std::string hist;
    {
        using P = ObjectPool<Obj>;
        auto p = std::make_unique<P>();
        std::map<int, std::unique_ptr<P::ObjectPoolAllocated>> held; // id -> holder
        std::multiset<int> idle;                                     // ids known to be in the pool (order unknown)
        std::set<int> heldOld;                                       // holders whose pool died
        size_t poolSize = 0;
        Obj::live = 0;
        int inits = 0;
        auto check = [&](const char *w)
        {
            if (p)
                VT_CHECK(p->size() == poolSize, "pool:size", w, " ", p->size(), " expected ", poolSize, " after ", hist);
            VT_CHECK(Obj::live == (long long)(poolSize + held.size()), "pool:lost", w, " ", Obj::live, " objects alive, expected ", poolSize + held.size(), " after ", hist);
            std::set<const Obj *> ptrs;
            for (auto &h : held)
            {
                VT_CHECK(bool(*h.second) && (**h.second).canary == 0x1234567 && (**h.second).id == h.first, "pool:holder", w, " holder lost its object, after ", hist);
                VT_CHECK(ptrs.insert(&**h.second).second, "pool:exclusive", w, " the same object is held twice, after ", hist);
            }
        };
        for (int s = 0; s < 60; s++)
        {
            int op = int(r.in(0, 9));
            if (op == 0 && p)
            {
                size_t n = r.in(0, 5);
                hist += str("z", n, ",");
                int before = inits;
                if (r.p(0.5))
                    p->resize(n, int(r.in(1, 4)));
                else
                    {
                    p->resizeInit(n, [&](Obj &) { inits++; }, int(r.in(1, 4)));
                    VT_CHECK(inits - before == int(n), "pool:init", "initialiser ran ", inits - before, " times for ", n);
                }
                poolSize = n;
            }
            else if (op <= 5 && p)
            {
                bool hadIdle = poolSize > 0;
                int before = inits;
                auto madeBefore = Obj::made;
                std::unique_ptr<P::ObjectPoolAllocated> h;
                int how = int(r.in(0, 2));
                hist += str("g", how, ",");
                if (how == 0)
                    h = std::make_unique<P::ObjectPoolAllocated>(p->get());
                else if (how == 1)
                    h = std::make_unique<P::ObjectPoolAllocated>(p->getAlloc(2));
                else
                    h = std::make_unique<P::ObjectPoolAllocated>(p->getAllocInit([&](Obj &) { inits++; }, 2));
                if (how == 0 && !hadIdle)
                    VT_CHECK(!bool(*h), "pool:emptyGet", "an empty pool handed out an object after ", hist);
                else
                {
                    VT_CHECK(bool(*h), "pool:get", "no object handed out after ", hist);
                    VT_CHECK(Obj::made - madeBefore == (hadIdle ? 0 : 1), "pool:reuse", "allocation count ", Obj::made - madeBefore, " with ", poolSize, " idle, after ", hist);
                    if (how == 2)
                        VT_CHECK(inits - before == (hadIdle ? 0 : 1), "pool:initOnce", "initialiser ran ", inits - before);
                    if (bool(*h))
                    {
                        int id = (**h).id;
                        VT_CHECK(!held.count(id), "pool:double", "object ", id, " handed out while it is held, after ", hist);
                        held[id] = std::move(h);
                    }
                    if (hadIdle)
                        poolSize--;
                }
            }
            else if (op <= 7 && !held.empty())
            {
                auto it = held.begin();
                std::advance(it, r.in(0, held.size() - 1));
                hist += "d,";
                if (r.p(0.3))
                { // move into another holder first
                    P::ObjectPoolAllocated h2(std::move(*it->second));
                    VT_CHECK(!bool(*it->second) && bool(h2) && (*h2).id == it->first && h2->canary == 0x1234567, "pool:move", "moving a holder");
                    it->second.reset(); // a moved-from holder returns nothing
                    VT_CHECK(!p || p->size() == poolSize, "pool:moveReturn", "moved-from holder returned something");
                }
                else
                    it->second.reset();
                held.erase(it);
                if (p)
                    poolSize++;
            }
            else if (op == 8 && r.p(0.15) && p)
            {
                hist += "X,";
                p.reset(); // holders may outlive the pool
                poolSize = 0;
            }
            else if (op == 9 && !p)
            {
                // holders of the dead pool must not come back into a new one
                for (auto &h : held)
                    h.second.reset();
                held.clear();
                VT_CHECK(Obj::live == 0, "pool:leak", Obj::live, " objects alive after the pool and all holders are gone");
                p = std::make_unique<P>();
                poolSize = 0;
                hist += "N,";
            }
            check("step");
        }
        held.clear();
        p.reset();
        VT_CHECK(Obj::live == 0, "pool:leak", Obj::live, " objects alive at the end, after ", hist);
    }
    L().endCase("", true);
}

} // hh
using namespace hh;
int main(int argc, char **argv)
{
    vt::start(&argc, &argv);
    DNDS::MPIInfo mpi;
    mpi.setWorld();
    int n = arg(argc, argv, "--n", 20);
    int base = arg(argc, argv, "--base", 0);
    int steps = arg(argc, argv, "--steps", 60);
    std::string mode = sarg(argc, argv, "--mode", "array");
    for (int k = 0; k < n; k++)
    {
        uint64_t s = mix(L().seed, base + k);
        if (mode == "pool")
        {
            pool(s);
            continue;
        }
        oneArray<real, 1>("real/1", s, steps);
        oneArray<DNDS::index, 4>("index/4", s + 1, steps);
        oneArray<real, DynamicSize>("real/dyn", s + 2, steps);
        oneArray<Pod3, DynamicSize>("pod/dyn", s + 3, steps);
        oneArray<real, NonUniformSize, 5>("real/smax5", s + 4, steps);
        oneArray<int32_t, NonUniformSize, DynamicSize>("int/dmax", s + 5, steps);
        oneArray<DNDS::index, NonUniformSize>("index/csr", s + 6, steps);
        oneArray<Pod3, NonUniformSize>("pod/csr", s + 7, steps);
        oneArray<uint8_t, NonUniformSize>("byte/csr", s + 8, steps);
        oneArray<Pod3, 2>("pod/2", s + 9, steps);
        L().begin(str("derived:s", s));
        Rng r(s + 11);
        adjacency(r, mpi);
        eigenArrays(r, mpi);
        L().endCase("", true);
    }
    return vt::finish();
}
