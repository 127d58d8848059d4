// Controlled threads: std::thread is replaced (link-time) by fibers whose interleaving is chosen by the explorer, and -
// in units compiled with -fsanitize=thread but linked against tsi_runtime.cpp instead of libtsan - every memory access
// made while workers are alive is checked for conflicts with accesses that are concurrent under fork/join order.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include <cstddef>
namespace sched
{
    enum Mode { eager,            // a new thread runs to its end at once
                fifo,             // threads run when first joined, in order of creation
                lifo,             // all threads run when the first is joined, the latest first
                explore };        // the choice callback decides at every point
    struct Control
    {
        Mode mode = fifo;
        int (*choose)( int n, bool free_switch ) = nullptr;   // explore: 0 = stay with the current thread (or the first runnable one when it cannot go on)
        // observations
        unsigned long created = 0, live = 0, regions = 0, races = 0, accesses = 0, points = 0; unsigned long max_live = 0;
        bool deadlock = false;
        char race[256] = { 0 };
    };
    extern Control control;
    void reset( Mode m );         // forget the threads of the run before (they must all be finished) and the observations
    void yield();                 // a point where another thread may be scheduled
    int quieter( int q );         // 1: what follows is the explorer's own access and not recorded; returns the previous value
    struct Quiet { int was; Quiet() : was( quieter( 1 ) ) {} ~Quiet() { quieter( was ); } };
    int self();                   // 0 = main, otherwise number of the worker (1..)
}
#endif
