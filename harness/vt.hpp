// Common part of the runtime monitors: event log, verdict reporting, random cases.
#pragma once
#include <mpi.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <unistd.h>

namespace vt
{
    struct Rng // splitmix64: the same sequence on every rank for the same seed
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) {}
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
            return z ^ (z >> 31);
        }
        int64_t in(int64_t lo, int64_t hi) { return lo + int64_t(next() % uint64_t(hi - lo + 1)); } // inclusive
        double u() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
        double u(double a, double b) { return a + (b - a) * u(); }
        bool p(double pr) { return u() < pr; }
        template <class T>
        void shuffle(std::vector<T> &v)
        {
            for (size_t i = v.size(); i > 1; i--)
                std::swap(v[i - 1], v[next() % i]);
        }
    };
    inline uint64_t mix(uint64_t a, uint64_t b)
    {
        Rng r(a ^ (b * 0xD6E8FEB86659FD93ULL));
        r.next();
        return r.next();
    }

    inline std::string esc(const std::string &s)
    {
        std::string o;
        for (char c : s)
        {
            if (c == '"' || c == '\\')
                o += '\\', o += c;
            else if (c == '\n')
                o += "\\n";
            else if ((unsigned char)c < 32 || (unsigned char)c > 126)
                o += '?';
            else
                o += c;
        }
        return o;
    }

    struct Log
    {
        FILE *f = nullptr;
        int rank = 0, size = 1;
        uint64_t seed = 1;
        bool thorough = false;
        std::string scratch;
        std::map<std::string, long long> counts;
        std::string curCase;
        std::map<std::string, int> nViolByKey;
        int nSample = 0;

        void line(const std::string &s)
        {
            fputs(s.c_str(), f);
            fputc('\n', f);
            fflush(f);
        }
        void begin(const std::string &id)
        {
            curCase = id;
            line("{\"t\":\"begin\",\"id\":\"" + esc(id) + "\"}");
        }
        void endCase(const std::string &sig = "", bool nontrivial = true)
        {
            line("{\"t\":\"case\",\"id\":\"" + esc(curCase) + "\",\"sig\":\"" + esc(sig.empty() ? curCase : sig) + "\",\"nt\":" + (nontrivial ? "true" : "false") + "}");
            if (rank == 0 && nSample < 4)
                nSample++, sample(curCase + (sig.empty() ? "" : " :: " + sig));
            curCase.clear();
        }
        void sample(const std::string &s) { line("{\"t\":\"sample\",\"v\":\"" + esc(s) + "\"}"); }
        void viol(const std::string &key, const std::string &msg)
        {
            if (nViolByKey[key]++ < 3)
                line("{\"t\":\"viol\",\"key\":\"" + esc(key) + "\",\"case\":\"" + esc(curCase) + "\",\"msg\":\"" + esc(msg) + "\"}");
        }
        void count(const std::string &n, long long k = 1) { counts[n] += k; }
        void res(const std::string &name, const std::string &json) { line("{\"t\":\"res\",\"name\":\"" + esc(name) + "\",\"v\":" + json + "}"); }
        void done()
        {
            for (auto &c : counts)
                line("{\"t\":\"count\",\"name\":\"" + esc(c.first) + "\",\"n\":" + std::to_string(c.second) + "}");
            line("{\"t\":\"done\"}");
        }
    };
    inline Log &L()
    {
        static Log l;
        return l;
    }

    template <class... A>
    std::string str(A &&...a)
    {
        std::ostringstream o;
        o.precision(17);
        ((o << a), ...);
        return o.str();
    }

// The monitor's assertion: records the observation, reports when it does not hold.
#define VT_CHECK(cond, key, ...)                      \
    do                                                \
    {                                                 \
        vt::L().count(std::string("chk:") + (key));   \
        if (!(cond))                                  \
            vt::L().viol((key), vt::str(__VA_ARGS__)); \
    } while (0)

    inline bool close(double a, double b, double rtol, double atol = 0)
    {
        return std::abs(a - b) <= atol + rtol * std::max(std::abs(a), std::abs(b)); // false on NaN
    }

    inline void start(int *argc, char ***argv)
    {
        int init = 0;
        MPI_Initialized(&init);
        if (!init)
        {
            int prov;
            MPI_Init_thread(argc, argv, MPI_THREAD_MULTIPLE, &prov);
        }
        auto &l = L();
        MPI_Comm_rank(MPI_COMM_WORLD, &l.rank);
        MPI_Comm_size(MPI_COMM_WORLD, &l.size);
        const char *od = getenv("VT_OUT");
        std::string p = std::string(od ? od : "/tmp") + "/r" + std::to_string(l.rank) + ".jsonl";
        l.f = fopen(p.c_str(), "w");
        if (const char *s = getenv("VT_SEED"))
            l.seed = strtoull(s, nullptr, 10);
        l.thorough = getenv("VT_TIER") && std::string(getenv("VT_TIER")) == "thorough";
        l.scratch = getenv("VT_SCRATCH") ? getenv("VT_SCRATCH") : "/tmp";
    }
    inline int finish()
    {
        MPI_Barrier(MPI_COMM_WORLD);
        L().done();
        fclose(L().f);
        MPI_Barrier(MPI_COMM_WORLD);
        MPI_Finalize();
        _exit(0); // static destructors of third-party libraries are not under test
        return 0;
    }
    // any rank true
    inline bool anyRank(bool b)
    {
        int x = b, y = 0;
        MPI_Allreduce(&x, &y, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        return y;
    }
    inline double sumAll(double v)
    {
        double y = 0;
        MPI_Allreduce(&v, &y, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
        return y;
    }
    inline int64_t sumAllI(int64_t v)
    {
        int64_t y = 0;
        MPI_Allreduce(&v, &y, 1, MPI_INT64_T, MPI_SUM, MPI_COMM_WORLD);
        return y;
    }
    inline double maxAll(double v)
    {
        double y = 0;
        MPI_Allreduce(&v, &y, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
        return y;
    }
    // gather variable-length byte/int64/double vectors on every rank, in rank order
    template <class T>
    std::vector<T> allGather(const std::vector<T> &v, std::vector<int64_t> *starts = nullptr)
    {
        int n = L().size;
        int c = int(v.size() * sizeof(T));
        std::vector<int> cs(n), ds(n + 1, 0);
        MPI_Allgather(&c, 1, MPI_INT, cs.data(), 1, MPI_INT, MPI_COMM_WORLD);
        for (int i = 0; i < n; i++)
            ds[i + 1] = ds[i] + cs[i];
        std::vector<T> o(ds[n] / sizeof(T));
        MPI_Allgatherv(v.data(), c, MPI_BYTE, o.data(), cs.data(), ds.data(), MPI_BYTE, MPI_COMM_WORLD);
        if (starts)
        {
            starts->resize(n + 1);
            for (int i = 0; i <= n; i++)
                (*starts)[i] = ds[i] / int64_t(sizeof(T));
        }
        return o;
    }
    inline int arg(int argc, char **argv, const std::string &name, int dflt)
    {
        for (int i = 1; i + 1 < argc; i++)
            if (name == argv[i])
                return atoi(argv[i + 1]);
        return dflt;
    }
    inline std::string sarg(int argc, char **argv, const std::string &name, const std::string &dflt)
    {
        for (int i = 1; i + 1 < argc; i++)
            if (name == argv[i])
                return argv[i + 1];
        return dflt;
    }
}
