// see sched.hpp.  Compiled without instrumentation.
#include "sched.hpp"
#include <thread>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <atomic>
#include <new>
#include <memory>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>

namespace sched
{
    Control control; static int quiet = 0; int quieter( int q ) { int const w = quiet; quiet = q; return w; }
    static std::size_t const stack_size = 1ul << 18;
    struct Task { ucontext_t ctx; void* state = nullptr; void (*run)( void* ) = nullptr; void (*drop)( void* ) = nullptr; char* stack = nullptr; bool done = false, joined = false; unsigned long created_at = 0; Task() {} };
    struct Tasks { Task* v[4096]; int n = 0; };
    static Tasks tasks;                  // tasks.v[0] = main
    static Task main_task;
    static int current = 0;
    static std::vector<char*>* free_stacks = nullptr;
    static std::uint32_t epoch = 1;
    static unsigned long now = 1;        // main's program order
    static std::vector<void*>* graveyard = nullptr; static bool in_runtime = false;
    static bool in_region() { return control.live > 0; }

    // ---------------------------------------------------------------- shadow memory
    struct Cell { std::uintptr_t a; std::uint32_t e; std::int32_t w, r1, r2; unsigned long mw, mr; };
    static std::size_t const N = 1ul << 18; static Cell* table = nullptr; static std::size_t used = 0;
    static Cell* cell( std::uintptr_t a )
    {
        if ( !table ) table = (Cell*)mmap( nullptr, N*sizeof(Cell), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0 );
        std::size_t i = ( a*0x9e3779b97f4a7c15ull ) >> 46; i &= N-1;
        for ( std::size_t k = 0; k < N; ++k, i = (i+1) & (N-1) )
        {
            Cell& c = table[i];
            if ( c.e != epoch ) { c = Cell{ a, epoch, 0, 0, 0, 0, 0 }; if ( ++used > N/2 ) { std::fprintf( stderr, "shadow memory exhausted\n" ); std::abort(); } return &c; }
            if ( c.a == a ) return &c;
        }
        std::abort();
    }
    static bool own_stack( std::uintptr_t a ) { if ( current == 0 ) return false; char* s = tasks.v[current]->stack; return (char*)a >= s && (char*)a < s+stack_size; }
    static void report( std::uintptr_t, int other, bool wr, bool owr )
    {
        if ( control.races++ == 0 ) std::snprintf( control.race, sizeof control.race, "thread %d %s what thread %d %s concurrently (0 = the calling thread)", current, wr ? "writes" : "reads", other, owr ? "writes" : "reads" );
    }
    static bool alive( int t ) { return t && t < tasks.n && !tasks.v[t]->joined; }
    static void touch( void const* p, std::size_t n, bool wr )
    {
        if ( !in_region() || in_runtime || quiet ) return;
        ++control.accesses; std::uintptr_t a = (std::uintptr_t)p;
        if ( own_stack( a ) ) return;
        for ( std::size_t i = 0; i < n; ++i )
        {
            Cell& c = *cell( a+i );
            if ( current == 0 )
            {
                if ( alive( c.w ) ) report( a+i, c.w, wr, true );
                if ( wr ) { if ( alive( c.r1 ) ) report( a+i, c.r1, true, false ); else if ( alive( c.r2 ) ) report( a+i, c.r2, true, false ); c.mw = now; } else c.mr = now;
            }
            else
            {
                unsigned long const born = tasks.v[current]->created_at;
                if ( alive( c.w ) && c.w != current ) report( a+i, c.w, wr, true );
                if ( c.mw > born ) report( a+i, 0, wr, true );
                if ( wr )
                {
                    if ( c.mr > born ) report( a+i, 0, true, false );
                    if ( alive( c.r1 ) && c.r1 != current ) report( a+i, c.r1, true, false ); else if ( alive( c.r2 ) && c.r2 != current ) report( a+i, c.r2, true, false );
                    c.w = current;
                }
                else if ( c.r1 != current && c.r2 != current ) { if ( !alive( c.r1 ) ) c.r1 = current; else c.r2 = current; }
            }
        }
    }

    // ---------------------------------------------------------------- fibers
    static void setup() { if ( tasks.n == 0 ) { tasks.v[0] = &main_task; tasks.n = 1; } if ( !free_stacks ) free_stacks = new std::vector<char*>; if ( !graveyard ) graveyard = new std::vector<void*>; }
    static void switch_to( int t )
    {
        if ( t == current ) return;
        int const from = current, q = quiet; current = t; quiet = 0; swapcontext( &tasks.v[from]->ctx, &tasks.v[t]->ctx ); quiet = q;
    }
    static void body( int t ) { tasks.v[t]->run( tasks.v[t]->state ); tasks.v[t]->drop( tasks.v[t]->state ); tasks.v[t]->done = true; extern void finished(); finished(); }
    static int blocked_on[4096];         // what a thread waits for (task number), 0 = nothing
    static bool runnable( int t ) { if ( t && tasks.v[t]->done ) return false; int const b = blocked_on[t]; return !b || tasks.v[b]->done; }
    static int pick( std::vector<int> const& c, bool free_switch ) { ++control.points; int const k = control.choose ? control.choose( (int)c.size(), free_switch ) : 0; return c[k]; }
    // the current thread may be pre-empted here (can_go) or cannot go on
    static void point( bool can_go )
    {
        in_runtime = true; int t = current;
        if ( control.mode == explore )
        {
            std::vector<int> c; if ( can_go ) c.push_back( current );
            for ( int i = 0; i < tasks.n; ++i ) if ( i != current && runnable( i ) ) c.push_back( i );
            if ( c.empty() ) { control.deadlock = true; std::fprintf( stderr, "all threads wait\n" ); std::abort(); }
            t = c.size() == 1 ? c[0] : pick( c, !can_go );
        }
        else if ( !can_go )
        {
            t = -1;
            if ( blocked_on[current] && control.mode != lifo && runnable( blocked_on[current] ) ) t = blocked_on[current];
            if ( t < 0 && control.mode == lifo ) { for ( int i = tasks.n-1; i >= 0 && t < 0; --i ) if ( i != current && runnable( i ) ) t = i; }
            for ( int i = 0; i < tasks.n && t < 0; ++i ) if ( i != current && runnable( i ) ) t = i;
            if ( t < 0 ) { control.deadlock = true; std::fprintf( stderr, "all threads wait\n" ); std::abort(); }
        }
        in_runtime = false; switch_to( t );
    }
    void finished() { for ( ;; ) point( false ); }
    int self() { return current; }
    void yield() { if ( in_region() && control.mode == explore ) point( true ); }
    void reset( Mode m )
    {
        setup(); in_runtime = true;
        for ( int i = 1; i < tasks.n; ++i ) { if ( tasks.v[i]->stack ) free_stacks->push_back( tasks.v[i]->stack ); delete tasks.v[i]; }
        tasks.n = 1; std::memset( blocked_on, 0, sizeof blocked_on ); current = 0; quiet = 0; auto ch = control.choose; control = Control{}; control.choose = ch; control.mode = m; ++epoch; used = 0; now = 1;
        in_runtime = false;
    }
    static void ended_region()
    {
        ++epoch; used = 0; ++control.regions; in_runtime = true;
        if ( graveyard ) { for ( void* p : *graveyard ) std::free( p ); graveyard->clear(); }
        in_runtime = false;
    }
    static int start( void* s, void (*run)( void* ), void (*drop)( void* ) )
    {
        setup(); in_runtime = true;
        if ( tasks.n >= 4095 || ( control.live == 0 && tasks.n > 2000 ) ) { for ( int i = 1; i < tasks.n; ++i ) { free_stacks->push_back( tasks.v[i]->stack ); delete tasks.v[i]; } tasks.n = 1; }
        Task* t = new Task; int const id = tasks.n++; tasks.v[id] = t; blocked_on[id] = 0; t->state = s; t->run = run; t->drop = drop; t->created_at = now++;
        if ( free_stacks->empty() ) t->stack = (char*)mmap( nullptr, stack_size, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_STACK, -1, 0 ); else { t->stack = free_stacks->back(); free_stacks->pop_back(); }
        getcontext( &t->ctx ); t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = stack_size; t->ctx.uc_link = nullptr; makecontext( &t->ctx, (void(*)())body, 1, id );
        ++control.created; ++control.live; if ( control.live > control.max_live ) control.max_live = control.live;
        in_runtime = false;
        if ( control.mode == eager ) switch_to( id ); else point( true );
        return id;
    }
    static void join_( int id )
    {
        Task* t = tasks.v[id];
        if ( !t->done ) { blocked_on[current] = id; while ( !t->done ) point( false ); blocked_on[current] = 0; }
        else if ( control.mode == explore ) point( true );
        t->joined = true; ++now; --control.live; if ( control.live == 0 ) ended_region();
    }
    static struct Init { Init() { __libc_single_threaded = 0; } } init;
}
void std::thread::_M_start_thread( _State_ptr s, void(*)() ) { _M_id._M_thread = (native_handle_type)( (long)sched::start( s.release(), []( void* p ){ static_cast<_State*>( p )->_M_run(); }, []( void* p ){ delete static_cast<_State*>( p ); } )+1 ); }
void std::thread::join() { sched::join_( (int)( (long)_M_id._M_thread-1 ) ); _M_id = id(); }
void std::thread::detach() { _M_id = id(); }       // stays alive: seen as a thread that outlives the call

// memory freed while threads are alive is not handed out again before they are joined
void* operator new( std::size_t n ) { if ( void* p = std::malloc( n ? n : 1 ) ) return p; throw std::bad_alloc{}; }
void* operator new[]( std::size_t n ) { return operator new( n ); }
static void del( void* p ) { if ( p && sched::in_region() && !sched::in_runtime ) { sched::in_runtime = true; sched::graveyard->push_back( p ); sched::in_runtime = false; } else std::free( p ); }
void operator delete( void* p ) noexcept { del( p ); }
void operator delete[]( void* p ) noexcept { del( p ); }
void operator delete( void* p, std::size_t ) noexcept { del( p ); }
void operator delete[]( void* p, std::size_t ) noexcept { del( p ); }

extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry( void* ) {}
    void __tsan_func_exit() {}
#define RW( n ) void __tsan_read##n( void* p ) { sched::touch( p, n, false ); } void __tsan_write##n( void* p ) { sched::touch( p, n, true ); } \
    void __tsan_unaligned_read##n( void* p ) { sched::touch( p, n, false ); } void __tsan_unaligned_write##n( void* p ) { sched::touch( p, n, true ); } \
    void __tsan_volatile_read##n( void* p ) { sched::touch( p, n, false ); } void __tsan_volatile_write##n( void* p ) { sched::touch( p, n, true ); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range( void* p, unsigned long n ) { sched::touch( p, n, false ); }
    void __tsan_write_range( void* p, unsigned long n ) { sched::touch( p, n, true ); }
    void __tsan_vptr_update( void** p, void* v ) { if ( *p != v ) sched::touch( p, 8, true ); }
    void __tsan_vptr_read( void** p ) { sched::touch( p, 8, false ); }
    void __tsan_atomic_thread_fence( int ) {} void __tsan_atomic_signal_fence( int ) {}
    // atomic accesses do not conflict with each other; they are points where another thread may go first
#define AT( n, T ) \
    T __tsan_atomic##n##_load( volatile T const* a, int ) { sched::yield(); return __atomic_load_n( a, 5 ); } \
    void __tsan_atomic##n##_store( volatile T* a, T v, int ) { sched::yield(); __atomic_store_n( a, v, 5 ); } \
    T __tsan_atomic##n##_exchange( volatile T* a, T v, int ) { sched::yield(); return __atomic_exchange_n( a, v, 5 ); } \
    T __tsan_atomic##n##_fetch_add( volatile T* a, T v, int ) { sched::yield(); return __atomic_fetch_add( a, v, 5 ); } \
    T __tsan_atomic##n##_fetch_sub( volatile T* a, T v, int ) { sched::yield(); return __atomic_fetch_sub( a, v, 5 ); } \
    T __tsan_atomic##n##_fetch_and( volatile T* a, T v, int ) { sched::yield(); return __atomic_fetch_and( a, v, 5 ); } \
    T __tsan_atomic##n##_fetch_or( volatile T* a, T v, int ) { sched::yield(); return __atomic_fetch_or( a, v, 5 ); } \
    T __tsan_atomic##n##_fetch_xor( volatile T* a, T v, int ) { sched::yield(); return __atomic_fetch_xor( a, v, 5 ); } \
    int __tsan_atomic##n##_compare_exchange_strong( volatile T* a, T* e, T v, int, int ) { sched::yield(); return __atomic_compare_exchange_n( a, e, v, 0, 5, 5 ); } \
    int __tsan_atomic##n##_compare_exchange_weak( volatile T* a, T* e, T v, int, int ) { sched::yield(); return __atomic_compare_exchange_n( a, e, v, 0, 5, 5 ); } \
    T __tsan_atomic##n##_compare_exchange_val( volatile T* a, T e, T v, int, int ) { sched::yield(); __atomic_compare_exchange_n( a, &e, v, 0, 5, 5 ); return e; }
    AT( 8, unsigned char ) AT( 16, unsigned short ) AT( 32, unsigned int ) AT( 64, unsigned long )
    // block operations of the instrumented code (linked with --wrap)
    void* __real_memcpy( void*, void const*, size_t ); void* __real_memmove( void*, void const*, size_t ); void* __real_memset( void*, int, size_t );
    void* __wrap_memcpy( void* d, void const* s, size_t n ) { sched::touch( s, n, false ); sched::touch( d, n, true ); return __real_memcpy( d, s, n ); }
    void* __wrap_memmove( void* d, void const* s, size_t n ) { sched::touch( s, n, false ); sched::touch( d, n, true ); return __real_memmove( d, s, n ); }
    void* __wrap_memset( void* d, int c, size_t n ) { sched::touch( d, n, true ); return __real_memset( d, c, n ); }
}
