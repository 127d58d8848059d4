// Binds the explorer to ceras: conversions, and ownership of the library's sources of nondeterminism
// (random generator, learning phase, hardware concurrency).
#ifndef VERIF_CERAS_MC_HPP
#define VERIF_CERAS_MC_HPP
#include "ceras.hpp"
#include "mc.hpp"
#include "ref.hpp"

// The library sizes its thread pools from std::thread::hardware_concurrency(); the harness decides the answer
// (link-time interposition).  1 = run loops in the calling thread.
namespace mc { inline unsigned int cores = 1; }
#ifndef VERIF_KEEP_HWC
unsigned int std::thread::hardware_concurrency() noexcept { return mc::cores; }
#endif

namespace mc
{
    template<typename V = double>
    inline ceras::tensor<V> to_c( ref::T const& t )
    {
        ceras::tensor<V> r{ t.shape };
        for ( unsigned long i = 0; i < t.size(); ++i ) r[i] = static_cast<V>( t.v[i] );
        return r;
    }
    template<typename Ts>
    inline ref::T to_r( Ts const& t )
    {
        ref::T r; r.shape = t.shape();
        r.v.resize( t.size() );
        for ( unsigned long i = 0; i < t.size(); ++i ) r.v[i] = static_cast<double>( t[i] );
        return r;
    }
    inline void reset_world()
    {
        ceras::learning_phase = 1;
        ceras::random_generator.seed( 12345 );
        cores = 1;
    }
    // forget everything earlier cases registered with the default session
    template<typename V = double> inline auto& fresh_session()
    {
        auto& s = ceras::get_default_session<ceras::tensor<V>>();
        for ( auto& p : s.place_holders_ ) p.reset();
        s.place_holders_.clear(); s.variables_.clear(); s.forward_cache_.clear();
        return s;
    }
    // compare a real result with a reference result
    inline bool same( Ctx& c, ref::T const& got, ref::T const& want, std::string const& tag, double tol = 1e-9, std::string const& where = "" )
    {
        return c.check( ref::close( got, want, tol ), tag, [&]{ return where + " got " + ref::str( got ) + " expected " + ref::str( want ); } );
    }
}
#include <setjmp.h>
namespace mc
{
    inline sigjmp_buf abort_jump; inline volatile sig_atomic_t abort_armed = 0;
    inline void on_abort( int ) { if ( abort_armed ) { abort_armed = 0; siglongjmp( abort_jump, 1 ); } }
    // runs f; true if it ended in an assertion failure (abort) or an exception, i.e. reported an error
    inline bool rejects( std::function<void()> const& f )
    {
        struct sigaction sa, old; std::memset( &sa, 0, sizeof sa ); sa.sa_handler = on_abort; sa.sa_flags = SA_NODEFER; sigaction( SIGABRT, &sa, &old );
        volatile bool r = false;
        int const fd0 = dup( 0 ); close( fd0 );          // files left open by an abandoned call are closed again below
        if ( sigsetjmp( abort_jump, 1 ) == 0 )
        {
            abort_armed = 1;
            try { f(); } catch ( ... ) { r = true; }
            abort_armed = 0;
        }
        else { r = true; for ( int fd = fd0; fd < fd0+16; ++fd ) close( fd ); }
        sigaction( SIGABRT, &old, nullptr );
        return r;
    }
}
#define MC_MAIN( fn ) int main( int argc, char** argv ) { return mc::run_main( argc, argv, fn, []{ mc::reset_world(); } ); }
#endif
