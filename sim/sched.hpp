// Scheduler of simulated threads.  Real threads, of which exactly one holds the baton: it is handed over only where the
// seed says so - at instrumented memory accesses, at synchronisation calls, and when a thread ends or blocks.
#pragma once
#include "simcore.hpp"
namespace sim { namespace sched {
void start(const Plan& plan, Ctx& ctx);   // from here on the plan's schedule decides
void stop();                              // joins the pool; counters go to the context
bool on();
void par_for(size_t n, void (*f)(void*, size_t), void* ctx);
}}
