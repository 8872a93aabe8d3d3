// PMPI-level monitor: watches the life cycle of MPI objects, perturbs timing, and
// (optionally) turns standard-mode sends into synchronous ones, which MPI allows
// any implementation to do, so that hidden reliance on buffering shows as a hang.
#pragma once
#include "vt.hpp"
#include <atomic>
#include <mutex>
namespace vtmpi
{
    struct Mon
    {
        std::mutex m;
        std::set<MPI_Request> persistent;
        std::set<MPI_Datatype> types;
        std::map<std::string, long long> n;
        bool delays = false, sync = false;
        vt::Rng rng{1};
        long long perturb = 0;
        void pause()
        {
            if (!delays)
                return;
            uint64_t r;
            {
                std::lock_guard<std::mutex> g(m);
                r = rng.next();
            }
            if (r % 4 == 0)
            {
                perturb++;
                usleep((r >> 8) % 700);
            }
        }
        void flush()
        {
            for (auto &i : n)
                vt::L().count("mpi:" + i.first, i.second);
            n.clear();
            vt::L().count("mpi:injected_delays", perturb);
            perturb = 0;
        }
    };
    inline Mon &M()
    {
        static Mon m;
        return m;
    }
}
extern "C"
{
    int MPI_Send_init(const void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm cm, MPI_Request *r)
    {
        int e = vtmpi::M().sync ? PMPI_Ssend_init(b, c, t, d, tag, cm, r) : PMPI_Send_init(b, c, t, d, tag, cm, r);
        vtmpi::M().persistent.insert(*r);
        vtmpi::M().n["send_init"]++;
        return e;
    }
    int MPI_Recv_init(void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm cm, MPI_Request *r)
    {
        int e = PMPI_Recv_init(b, c, t, d, tag, cm, r);
        vtmpi::M().persistent.insert(*r);
        vtmpi::M().n["recv_init"]++;
        return e;
    }
    int MPI_Request_free(MPI_Request *r)
    {
        vtmpi::M().persistent.erase(*r);
        vtmpi::M().n["request_free"]++;
        return PMPI_Request_free(r);
    }
    int MPI_Type_commit(MPI_Datatype *t)
    {
        int e = PMPI_Type_commit(t);
        vtmpi::M().types.insert(*t);
        vtmpi::M().n["type_commit"]++;
        return e;
    }
    int MPI_Type_free(MPI_Datatype *t)
    {
        vtmpi::M().types.erase(*t);
        return PMPI_Type_free(t);
    }
    int MPI_Start(MPI_Request *r)
    {
        vtmpi::M().pause();
        vtmpi::M().n["start"]++;
        return PMPI_Start(r);
    }
    int MPI_Startall(int c, MPI_Request *r)
    {
        vtmpi::M().pause();
        vtmpi::M().n["start"] += c;
        return PMPI_Startall(c, r);
    }
    int MPI_Waitall(int c, MPI_Request *r, MPI_Status *s)
    {
        vtmpi::M().pause();
        vtmpi::M().n["waitall"]++;
        return PMPI_Waitall(c, r, s);
    }
    int MPI_Irecv(void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm cm, MPI_Request *r)
    {
        vtmpi::M().pause();
        vtmpi::M().n["irecv"]++;
        return PMPI_Irecv(b, c, t, d, tag, cm, r);
    }
    int MPI_Issend(const void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm cm, MPI_Request *r)
    {
        vtmpi::M().pause();
        vtmpi::M().n["issend"]++;
        return PMPI_Issend(b, c, t, d, tag, cm, r);
    }
}
