#pragma once
// running a mesh case on all ranks of the simulated world, and the catalogue of meshes
#include "meshsnap.hpp"
#include <omp.h>
namespace DNDS::vf
{
    static std::string pstr(const IV &p)
    {
        std::string s;
        for (int x : p)
            s += char('0' + x);
        return s;
    }
    struct Env
    {
        vh::Ctx &ctx;
        std::string mode;
    };
    // run body on R ranks; body(rank, world) fills snapshots; each stage is compared by rank 0 after a barrier
    struct Stages
    {
        World w;
        bool stop = false;
        std::vector<SMesh> aux;             // models made along the way
        std::vector<std::vector<int>> zc, zb; // zone numbers to give to cells and boundary elements
    };
    static void sync() { MPI_Barrier(MPI_COMM_WORLD); }
    template <class F>
    static bool stage(Stages &st, int rank, Snap &&s, F &&check)
    {
        st.w[rank] = std::move(s);
        sync();
        if (rank == 0)
            st.stop = !check();
        sync();
        return !st.stop;
    }
    static uint64_t hashWorld(const World &w)
    {
        vh::Hash h;
        for (auto &s : w)
        {
            h.add(s.nCell).add(s.nNode).add(s.nBnd).add(s.nFace);
            for (auto &r : s.c2n)
                for (auto v : r)
                    h.add(v);
            for (auto &r : s.c2c)
                for (auto v : r)
                    h.add(v);
            for (auto &r : s.f2n)
                for (auto v : r)
                    h.add(v);
        }
        return h.h;
    }

    static Snap full(UnstructuredMesh &mesh, bool n2cb)
    {
        Snap s = snap(mesh, true);
        snapFaces(mesh, s);
        if (n2cb)
            snapN2CB(mesh, s, true);
        return s;
    }
    static bool checkFull(vh::Ctx &ctx, const SMesh &m, World &w, const IV &part, const char *name, bool recov)
    {
        Cmp c(ctx, m, w, name);
        ctx.state(hashWorld(w));
        return c.primary(part, false) && c.halo() && c.cell2cell() && c.bnd2cellPeriodic(recov) && (!w[0].has_n2cb || c.node2()) && (!w[0].has_face || c.faces());
    }
    using Body = void (*)(vh::Ctx &, const SMesh &, const IV &, int, Stages &, int);
    static void runCase(vh::Ctx &ctx, const SMesh &m, const IV &part, int R, Body body, int variant, const sim::Config &cfg)
    {
        Stages st;
        st.w.resize(R);
        auto s = sim::run(R, cfg, nullptr, [&](int r)
                          { body(ctx, m, part, r, st, variant); });
        addStats(ctx, s);
    }
    static void allParts(int n, int R, const std::function<void(const IV &)> &f)
    {
        IV p(n, 0);
        while (true)
        {
            f(p);
            int i = 0;
            while (i < n && ++p[i] == R)
                p[i++] = 0;
            if (i == n)
                break;
        }
    }
    struct Job
    {
        SMesh m;
        int R;
    };
    static std::vector<Job> catalogue(bool thorough, bool periodicOnly, bool withO2, double capIn)
    {
        std::vector<Job> j;
        double cap = capIn;
        auto add = [&](SMesh m)
        {
            for (int R = 1; R <= 4; R++)
                if (std::pow(R, m.c.size()) <= cap)
                    j.push_back({m, R});
        };
        auto perm = [](SMesh m, int k)
        { permuteCells(m, k); return m; };
        if (!periodicOnly)
        {
            add(grid2(1, 1, 'q'));
            add(grid2(2, 1, 'q'));
            add(grid2(1, 1, 't'));
            add(perm(grid2(3, 1, 'q'), 5));
            add(grid2(2, 2, 'q'));
            add(grid2(2, 1, 't'));
            add(perm(grid2(3, 1, 'm'), 7));
            add(grid2(2, 2, 'm'));
            add(perm(grid2(3, 2, 'q'), 5));
            add(fan(4));
            add(perm(fan(6), 5));
            add(loose());
            add(grid3(1, 1, 1, 'h'));
            add(grid3(2, 1, 1, 'h'));
            add(perm(grid3(2, 2, 1, 'h'), 5));
            add(grid3(1, 1, 1, 'p'));
            add(grid3(2, 1, 1, 'p'));
            add(perm(grid3(1, 1, 1, 'T'), 5));
            add(grid3(1, 1, 1, 'y'));
            add(grid3(2, 1, 1, 'm'));
            add(zoo3());
            if (withO2)
            {
                add(elevated(grid2(2, 2, 'q')));
                add(elevated(grid2(2, 1, 't')));
                add(elevated(grid3(2, 1, 1, 'h')));
                add(elevated(grid3(1, 1, 1, 'p')));
                add(elevated(zoo3()));
            }
        }
        add(grid2(2, 1, 'q', 1));
        add(perm(grid2(3, 1, 'q', 1), 5));
        add(grid2(2, 2, 'q', 3));
        add(perm(grid2(2, 2, 'q', 2), 5));
        add(grid2(3, 2, 'q', 3));
        add(perm(grid2(2, 1, 't', 1), 5));
        add(grid2(2, 2, 'm', 1));
        add(grid3(2, 1, 1, 'h', 1));
        add(perm(grid3(2, 2, 1, 'h', 3), 5));
        add(grid3(1, 1, 3, 'h', 4));
        add(grid3(2, 1, 1, 'p', 1));
        add(grid2(3, 3, 'q', 3));
        add(grid3(2, 2, 2, 'h', 7));
        add(sector(1, 3, M_PI / 2));
        add(sector(2, 2, M_PI / 3));
        add(perm(sector(2, 3, 1.1), 5));
        add(sector(1, 3, 0.9, 3));
        add(sector(1, 2, 0.9, 2));
        if (withO2)
        {
            add(elevated(grid2(2, 2, 'q', 3)));
            add(elevated(grid2(3, 1, 'q', 1)));
            add(elevated(grid3(2, 1, 1, 'h', 1)));
            add(elevated(sector(1, 3, M_PI / 2)));
        }
        if (thorough)
        {
            add(perm(grid2(3, 3, 'm'), 7));
            add(grid2(4, 3, 'q', 3));
            add(grid3(3, 1, 1, 'p', 1));
            add(grid3(1, 3, 1, 'T', 2));
            add(perm(grid3(2, 2, 2, 'h'), 5));
            add(grid3(1, 1, 3, 'y', 4));
        }
        return j;
    }
}
