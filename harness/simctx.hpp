#pragma once
#include "vh.hpp"
#include "simmpi.hpp"
// glue: fatal errors of the simulated world become violations of the running case
inline void simAttach(vh::Ctx &ctx)
{
    static vh::Ctx *c;
    c = &ctx;
    sim::fatal = [](const std::string &m)
    {
        snprintf(c->sh->msg, sizeof c->sh->msg, "%s", m.c_str());
        c->finish();
        _exit(86);
    };
}
inline void addStats(vh::Ctx &ctx, const sim::Stats &s)
{
    ctx.nTrans += s.mpiCalls;
    ctx.extra["messages"] += s.messages;
    ctx.extra["collectives"] += s.collectives;
    ctx.extra["context_switches"] += s.switches;
}
