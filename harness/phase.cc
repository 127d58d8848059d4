// C19: all histories of training and inference evaluations with changing batches, for dropout, batch normalisation and random
// sliding; the random source is scripted, so every mask and every shift is enumerated.
#include "scripted.hpp"
#include "ops.hpp"
using namespace ref; using namespace mc;
#ifndef VT
#define VT double
#endif
typedef VT V; typedef ceras::tensor<V> TT; typedef Any<V> A; typedef ceras::variable<TT> Var;
static double const tol = sizeof( V ) == 4 ? 1e-4 : 1e-9;
static auto& sess() { return ceras::get_default_session<TT>(); }
static std::vector<std::uint32_t> bits( unsigned long pattern, unsigned long n, double lo = 0, double hi = 1 ) { std::vector<std::uint32_t> r; for ( unsigned long i = 0; i < n; ++i ) r.push_back( part( pattern>>i & 1 ? hi : lo ) ); return r; }

// ---------------------------------------------------------------- dropout
// the mask a training output shows (1 kept, 0 dropped), or a failure
static bool mask_of( Ctx& c, T const& in, T const& out, double rate, std::vector<int>& m, std::string const& where )
{
    if ( !c.check( in.shape == out.shape, "dropout:shape", where ) ) return false;
    m.clear();
    for ( unsigned long i = 0; i < in.size(); ++i )
    {
        double const kept = in[i]/( 1-rate ); bool const k = std::abs( out[i]-kept ) <= 1e-4*std::abs( kept );
        if ( !c.check( k || out[i] == 0, "dropout:neither-kept-nor-zero", [&]{ return where + " in " + str( in ) + " out " + str( out ); } ) ) return false;
        m.push_back( k );
    }
    return true;
}
static T nonzero( Shape const& s, unsigned long salt ) { T t = round_to<V>( fill( s, salt ) ); for ( auto& x : t.v ) if ( std::abs( x ) < 0.01 ) x = 0.5; return t; }
static A drop( A const& x, double rate, bool alias ) { return alias ? any<V>( ceras::dropout( (V)rate )( x ) ) : any<V>( ceras::drop_out( (V)rate )( x ) ); }

static void dropout_histories( Ctx& c )
{
    std::vector<Shape> const shapes{ { 2, 3 }, { 3, 3 }, { 1, 3 } }; int const modes = 6, al = shapes.size()*modes, depth = c.thorough ? 4 : 3;
    // modes: 0-2 train with everything dropped / everything kept / mixed, then differentiate (3 train only, mixed); 4 infer, 5 infer and differentiate
    for ( double rate : { 0.25, 0.5, 0.875 } ) for ( int first = 0; first < al; ++first )
        c.test( "dropout|" + std::to_string( rate ) + "|" + std::to_string( first ), [&]
        {
            int n = 1; for ( int i = 1; i < depth; ++i ) n *= al;
            for ( int m = 0; m < n; ++m )
            {
                fresh_session<V>(); Var v( to_c<V>( nonzero( shapes[0], 1 ) ) ); auto e = drop( any<V>( v ), rate, m&1 ); auto twice = any<V>( e + e ); std::string where = "history"; int q = m, s = first;
                for ( int i = 0; i < depth; ++i )
                {
                    if ( i ) { s = q%al; q /= al; }
                    int const k = s%shapes.size(), mode = s/shapes.size(); where += " " + std::to_string( mode ) + str( shapes[k] );
                    T const x = nonzero( shapes[k], i+k ); v.data() = to_c<V>( x ); ceras::learning_phase = mode < 4;
                    play( bits( mode == 0 ? 0 : mode == 1 ? ~0ul : 0x9b34u >> i, 64 ) );
                    bool const shared = i == depth-1 && ( m&2 );      // the same dropout twice in one run: both occurrences agree
                    auto out = to_r( shared ? sess().run( twice ) : sess().run( e ) ); c.trans(); if ( shared ) for ( auto& z : out.v ) z /= 2;
                    std::vector<int> mask( x.size(), 1 );
                    if ( mode >= 4 ) same( c, out, x, "dropout:not-the-identity-in-inference", 0, where );
                    else if ( !mask_of( c, x, out, rate, mask, where ) ) return;
                    if ( mode < 2 ) for ( int z : mask ) c.check( z == mode, mode ? "dropout:certain-element-dropped" : "dropout:certain-element-kept", where );
                    c.state( hash( out ) ); same( c, to_r( v.data() ), x, "dropout:input-modified", 0, where );
                    if ( mode == 3 || mode == 4 ) continue;
                    T const g = round_to<V>( fill( x.shape, 5+i ) ); v.gradient() = ceras::zeros_like( v.data() ); auto gc = to_c<V>( g ); ( shared ? twice : e ).backward( gc ); c.trans();
                    T want = g; for ( unsigned long j = 0; j < g.size(); ++j ) want[j] = g[j]*( shared ? 2 : 1 )*( mode >= 4 ? 1 : mask[j]/( 1-rate ) );
                    same( c, to_r( v.gradient() ), want, "dropout:gradient", tol, where ); same( c, to_r( gc ), g, "dropout:upstream-gradient-modified", 0, where );
                    if ( c.case_fails ) return;
                }
            }
        } );
    // every mask can occur, whatever the answers of the random source the output is a mask of the input, and the rate is the share dropped
    for ( double rate : { 0.25, 0.5, 0.875 } ) for ( Shape const& s : { Shape{ 1 }, Shape{ 2 }, Shape{ 1, 3 }, Shape{ 2, 2 } } )
        c.test( "dropout masks|" + std::to_string( rate ) + "|" + str( s ), [&]
        {
            fresh_session<V>(); T const x = nonzero( s, 2 ); Var v( to_c<V>( x ) ); auto e = drop( any<V>( v ), rate, false ); std::vector<int> seen( 1ul<<x.size() ); unsigned long const n = 2*x.size();
            for ( unsigned long p = 0; p < ( 1ul<<n ); ++p )
            {
                play( bits( p, n, rate*0.99, rate+( 1-rate )*0.01 ) ); std::vector<int> m; auto const out = to_r( sess().run( e ) ); c.trans(); c.state( hash( out ) ); if ( !mask_of( c, x, out, rate, m, "" ) ) return;
                unsigned long k = 0; for ( unsigned long i = 0; i < m.size(); ++i ) k |= (unsigned long)m[i]<<i; seen[k] = 1;
            }
            for ( unsigned long k = 0; k < seen.size(); ++k ) c.check( seen[k], "dropout:mask-never-occurs", [&]{ return std::to_string( k ); } );
        } );
    for ( double rate : { 0.1, 0.25, 0.5, 0.875 } )
        c.test( "dropout rate|" + std::to_string( rate ), [&]
        {
            fresh_session<V>(); unscripted(); ceras::random_generator.seed( 7 ); Shape const s{ 64, 256 }; T x( s, 1 ); Var v( to_c<V>( x ) ); auto e = drop( any<V>( v ), rate, false ); auto const out = to_r( sess().run( e ) ); c.trans();
            double kept = 0; for ( double z : out.v ) kept += z != 0; double const n = x.size(), sd = std::sqrt( n*rate*( 1-rate ) );
            c.check( std::abs( kept-n*( 1-rate ) ) < 6*sd, "dropout:rate", [&]{ return std::to_string( kept/n ); } );
        } );
}
// ---------------------------------------------------------------- normalisation
struct Norm
{
    double mom; bool any_training = false; std::vector<double> ga, gv, avg, var;
    T train( T const& x )
    {
        unsigned long const ch = x.shape.back(), n = x.size()/ch; avg.assign( ch, 0 ); var.assign( ch, 0 );
        for ( unsigned long i = 0; i < x.size(); ++i ) avg[i%ch] += x[i]/n;
        for ( unsigned long i = 0; i < x.size(); ++i ) var[i%ch] += ( x[i]-avg[i%ch] )*( x[i]-avg[i%ch] )/n;
        if ( !any_training ) { any_training = true; ga.assign( ch, 0 ); gv.assign( ch, 0 ); }
        for ( unsigned long k = 0; k < ch; ++k ) { ga[k] = ga[k]*mom+avg[k]*( 1-mom ); gv[k] = gv[k]*mom+var[k]*( 1-mom ); }
        T y = x; for ( unsigned long i = 0; i < x.size(); ++i ) y[i] = ( x[i]-avg[i%ch] )/std::sqrt( var[i%ch]+1e-8 ); return y;
    }
    T infer( T const& x ) const { T y = x; if ( any_training ) for ( unsigned long i = 0; i < x.size(); ++i ) y[i] = ( x[i]-ga[i%ga.size()] )/std::sqrt( gv[i%ga.size()]+1e-8 ); return y; }
    T gradient( T const& y, T const& g ) const
    {
        unsigned long const ch = y.shape.back(), n = y.size()/ch; T d = g;
        for ( unsigned long k = 0; k < ch; ++k ) { double a = 0, b = 0; for ( unsigned long i = k; i < y.size(); i += ch ) { a += g[i]/n; b += g[i]*y[i]/n; } for ( unsigned long i = k; i < y.size(); i += ch ) d[i] = ( g[i]-a-y[i]*b )/std::sqrt( var[k]+1e-8 ); }
        return d;
    }
};
static void normalization_histories( Ctx& c )
{
    struct Cfg { double mom; std::vector<Shape> shapes; Shape par; };     // par empty: normalization_batch alone; else gamma and beta of that shape
    std::vector<Cfg> const cfgs{ { 0.98, { { 2, 2 }, { 3, 2 }, { 1, 2 } }, {} }, { 0.5, { { 4, 2 }, { 2, 2 }, { 3, 2 } }, { 2 } }, { 0.75, { { 1, 2, 1, 3 }, { 2, 2, 1, 3 }, { 3, 2, 1, 3 } }, { 2, 1, 3 } }, { 0.9, { { 2, 1, 2, 2 }, { 1, 1, 2, 2 }, { 4, 1, 2, 2 } }, { 2 } }, { 0.98, { { 3, 2 }, { 2, 2 } }, { 2 } }, { 0.6, { { 2, 1, 2 }, { 3, 1, 2 }, { 5, 1, 2 } }, {} } };
    for ( unsigned long ci = 0; ci < cfgs.size(); ++ci )
    {
        auto const& f = cfgs[ci]; int const al = f.shapes.size()*4, depth = ( c.thorough ? 5 : 4 )-( sizeof( V ) == 4 );      // modes: train, train and differentiate, infer, train the other expression of the same maker
        for ( int first = 0; first < al; ++first ) for ( int second = 0; second < al; ++second )
            c.test( "normalization|" + std::to_string( ci ) + "|" + std::to_string( first ) + "," + std::to_string( second ), [&]
            {
                int n = 1; for ( int i = 2; i < depth; ++i ) n *= al;
                for ( int m = 0; m < n; ++m )
                {
                    fresh_session<V>(); Var v( to_c<V>( fill( f.shapes[0], 1 ) ) ), w( to_c<V>( fill( f.shapes[0], 2 ) ) ); std::vector<Var> par; T gamma, beta; std::string where = "history"; int q = m, s = first;
                    A e, e2;
                    if ( f.par.empty() ) { auto mk = ci ? ceras::normalization_batch( (V)f.mom ) : ceras::normalization_batch<V>(); e = any<V>( mk( any<V>( v ) ) ); e2 = any<V>( mk( any<V>( w ) ) ); }
                    else { gamma = round_to<V>( fill( f.par, 8 ) ); beta = round_to<V>( fill( f.par, 9 ) ); par.emplace_back( to_c<V>( gamma ) ); par.emplace_back( to_c<V>( beta ) ); auto mk = f.mom == 0.98 ? ceras::batch_normalization<V>() : ceras::batch_normalization( (V)f.mom ); e = any<V>( mk( any<V>( v ), par[0], par[1] ) ); e2 = any<V>( mk( any<V>( w ), par[0], par[1] ) ); }
                    Norm mod{ (double)(V)f.mom }, mod2{ (double)(V)f.mom };
                    for ( int i = 0; i < depth; ++i )
                    {
                        if ( i == 1 ) s = second; else if ( i ) { s = q%al; q /= al; }
                        int const k = s%f.shapes.size(), mode = s/f.shapes.size(); where += std::string( " " ) + "tbio"[mode] + str( f.shapes[k] );
                        T const x = round_to<V>( fill( f.shapes[k], 3*i+k+1, 2 ) ); auto& leaf = mode == 3 ? w : v; auto& ex = mode == 3 ? e2 : e; auto& md = mode == 3 ? mod2 : mod;
                        leaf.data() = to_c<V>( x ); ceras::learning_phase = mode != 2; auto out = sess().run( ex ); c.trans(); auto const got = to_r( out );
                        T const y = mode == 2 ? md.infer( x ) : md.train( x ); T want = y; if ( par.size() ) for ( unsigned long j = 0; j < want.size(); ++j ) want[j] = y[j]*gamma[j%gamma.size()]+beta[j%beta.size()];
                        same( c, got, want, mode == 2 ? "normalization:inference-value" : "normalization:training-value", tol, where ); c.state( hash( got, ci ) );
                        same( c, to_r( leaf.data() ), x, "normalization:input-modified", 0, where );
                        if ( mode == 1 )
                        {
                            T const g = round_to<V>( fill( x.shape, 5+i ) ); v.gradient() = ceras::zeros_like( v.data() ); for ( auto& p : par ) p.gradient() = ceras::zeros_like( p.data() ); auto gc = to_c<V>( g ); e.backward( gc ); c.trans();
                            T gy = g; if ( par.size() ) { T dg( f.par ), db( f.par ); for ( unsigned long j = 0; j < g.size(); ++j ) { gy[j] *= gamma[j%gamma.size()]; dg[j%dg.size()] += g[j]*y[j]; db[j%db.size()] += g[j]; } same( c, to_r( par[0].gradient() ), dg, "normalization:gamma-gradient", tol, where ); same( c, to_r( par[1].gradient() ), db, "normalization:beta-gradient", tol, where ); }
                            bool degenerate = false; for ( double z : md.var ) degenerate = degenerate || z < 1e-4;
                            if ( !degenerate ) same( c, to_r( v.gradient() ), md.gradient( y, gy ), "normalization:gradient", tol*10, where );
                            same( c, to_r( gc ), g, "normalization:upstream-gradient-modified", 0, where );
                        }
                        if ( c.case_fails ) return;
                    }
                }
            } );
    }
}
// ---------------------------------------------------------------- sliding
static double slid( T const& x, unsigned long b, long r, long cc, unsigned long ch, long dr, long dc ) { long const R = x.shape[1], C = x.shape[2]; r -= dr; cc -= dc; return r < 0 || cc < 0 || r >= R || cc >= C ? 0 : x[ravel( { b, (unsigned long)r, (unsigned long)cc, ch }, x.shape )]; }
static void sliding( Ctx& c )
{
    struct Cfg { unsigned long p; std::vector<Shape> shapes; };
    std::vector<Cfg> const cfgs{ { 1, { { 1, 3, 3, 1 } } }, { 1, { { 2, 3, 2, 2 }, { 1, 3, 2, 2 }, { 3, 3, 2, 2 } } }, { 2, { { 1, 2, 3, 1 }, { 2, 2, 3, 1 } } }, { 3, { { 1, 2, 2, 1 } } }, { 2, { { 2, 4, 3, 2 } } } };
    for ( unsigned long ci = 0; ci < cfgs.size(); ++ci )
    {
        auto const& f = cfgs[ci]; unsigned long const ch = f.shapes[0][3]; int const k = 2*f.p+1; unsigned long scripts = 1; for ( unsigned long i = 0; i < 2*ch; ++i ) scripts *= k;
        unsigned long const chunk = 64;
        for ( unsigned long from = 0; from < scripts; from += chunk )
            c.test( "sliding|" + std::to_string( ci ) + "|" + std::to_string( from ), [&]
            {
                fresh_session<V>(); Var v( to_c<V>( fill( f.shapes[0], 1 ) ) ); auto e = any<V>( ceras::sliding_2d( f.p )( any<V>( v ) ) );
                for ( unsigned long m = from; m < std::min( scripts, from+chunk ); ++m ) for ( unsigned long si = 0; si < f.shapes.size(); ++si ) for ( int mode = 0; mode < 3; ++mode )
                {
                    std::vector<std::uint32_t> a; unsigned long q = m; std::vector<long> shift; for ( unsigned long i = 0; i < 2*ch; ++i ) { a.push_back( part( ( q%k+0.5 )/k ) ); shift.push_back( (long)( q%k )-(long)f.p ); q /= k; } play( a );
                    T x = round_to<V>( fill( f.shapes[si], 2+si ) ); for ( auto& z : x.v ) if ( std::abs( z ) < 0.01 ) z = 0.375; std::string const where = "script " + std::to_string( m ) + " mode " + std::to_string( mode ) + " " + str( x.shape );
                    v.data() = to_c<V>( x ); ceras::learning_phase = mode != 2; auto const out = to_r( sess().run( e ) ); c.trans(); c.state( hash( out ) );
                    same( c, to_r( v.data() ), x, "sliding:input-modified", 0, where );
                    if ( mode == 2 ) { same( c, out, x, "sliding:not-the-identity-in-inference", 0, where ); }
                    T const g = round_to<V>( fill( x.shape, 7 ) ); T d( x.shape );
                    if ( mode != 0 ) { v.gradient() = ceras::zeros_like( v.data() ); e.backward( to_c<V>( g ) ); c.trans(); d = to_r( v.gradient() ); }
                    if ( mode == 2 ) { same( c, d, g, "sliding:inference-gradient", 0, where ); continue; }
                    if ( !c.check( out.shape == x.shape, "sliding:shape", where ) ) return;
                    unsigned long const B = x.shape[0], R = x.shape[1], C = x.shape[2];
                    for ( unsigned long h = 0; h < ch; ++h )
                    {
                        // some shift within the bound explains this channel in the whole batch, and the gradient is its adjoint
                        bool value = false, both = false;
                        for ( long dr = -(long)f.p; dr <= (long)f.p; ++dr ) for ( long dc = -(long)f.p; dc <= (long)f.p; ++dc )
                        {
                            bool ok = true, gk = true;
                            for ( unsigned long b = 0; b < B; ++b ) for ( unsigned long r = 0; r < R; ++r ) for ( unsigned long cc = 0; cc < C; ++cc ) { auto const at = ravel( { b, r, cc, h }, x.shape ); ok = ok && out[at] == slid( x, b, r, cc, h, dr, dc ); gk = gk && d[at] == slid( g, b, r, cc, h, -dr, -dc ); }
                            value = value || ok; both = both || ( ok && ( mode != 1 || gk ) );
                        }
                        c.check( value, "sliding:no-shift-explains-the-output", [&]{ return where + " " + str( x ) + " -> " + str( out ); } ); c.check( both, "sliding:gradient", [&]{ return where + " " + str( g ) + " -> " + str( d ); } );
                    }
                    if ( c.case_fails ) return;
                }
            } );
        // every shift of every channel can occur
        if ( f.shapes[0][1] > f.p && f.shapes[0][2] > f.p )
            c.test( "sliding shifts|" + std::to_string( ci ), [&]
            {
                fresh_session<V>(); T x = round_to<V>( fill( f.shapes[0], 2 ) ); for ( auto& z : x.v ) if ( std::abs( z ) < 0.01 ) z = 0.375; Var v( to_c<V>( x ) ); auto e = any<V>( ceras::sliding_2d( f.p )( any<V>( v ) ) ); std::vector<T> seen;
                for ( unsigned long m = 0; m < scripts; ++m )
                {
                    std::vector<std::uint32_t> a; unsigned long q = m; for ( unsigned long i = 0; i < 2*ch; ++i ) { a.push_back( part( ( q%k+0.5 )/k ) ); q /= k; } play( a );
                    auto const out = to_r( sess().run( e ) ); c.trans(); bool found = false; for ( auto const& t : seen ) found = found || close( t, out, 0 ); if ( !found ) seen.push_back( out );
                }
                c.check( seen.size() == scripts, "sliding:shift-never-occurs", [&]{ return std::to_string( seen.size() ) + " of " + std::to_string( scripts ); } );
            } );
    }
}
// ---------------------------------------------------------------- two inputs
// one functor applied to two inputs, or two functors made alike: every interleaving of training, inference and differentiation;
// what differentiation of one gives goes with its own last evaluation
static void two_inputs( Ctx& c )
{
    int const depth = c.thorough ? 6 : 5; double const rate = 0.5; unsigned long const p = 1;
    char const* const kinds[] = { "dropout", "normalization", "batch_normalization", "sliding" };
    for ( int kind = 0; kind < 4; ++kind ) for ( int apart = 0; apart < 2; ++apart ) for ( int first = 0; first < 4; ++first ) for ( int second = 0; second < 8; ++second )
        c.test( std::string( "two inputs|" ) + kinds[kind] + ( apart ? "|two functors|" : "|one functor|" ) + std::to_string( first ) + std::to_string( second ), [&]
        {
            std::vector<Shape> const shapes = kind == 3 ? std::vector<Shape>{ { 1, 3, 3, 1 }, { 2, 3, 3, 1 } } : std::vector<Shape>{ { 3, 2 }, { 4, 2 } };
            unsigned long n = 1; for ( int i = 2; i < depth; ++i ) n *= 8;
            for ( unsigned long m = 0; m < n; ++m )
            {
                fresh_session<V>(); Var v[2] = { Var( to_c<V>( T( shapes[0] ) ) ), Var( to_c<V>( T( shapes[0] ) ) ) }; A e[2], sum; std::vector<Var> par; T const gamma = round_to<V>( fill( { 2 }, 8 ) ), beta = round_to<V>( fill( { 2 }, 9 ) );
                auto make = [&]( auto f, auto apply ){ auto one = f(); auto other = f(); e[0] = any<V>( apply( one, v[0] ) ); e[1] = any<V>( apply( apart ? other : one, v[1] ) ); };
                auto plain = []( auto& f, Var& x ){ return f( any<V>( x ) ); };
                if ( kind == 0 ) make( [=]{ return ceras::drop_out( (V)rate ); }, plain );
                if ( kind == 1 ) make( []{ return ceras::normalization_batch( (V)0.5 ); }, plain );
                if ( kind == 2 ) { par.emplace_back( to_c<V>( gamma ) ); par.emplace_back( to_c<V>( beta ) ); make( []{ return ceras::batch_normalization( (V)0.5 ); }, [&]( auto& f, Var& x ){ return f( any<V>( x ), par[0], par[1] ); } ); }
                if ( kind == 3 ) make( [=]{ return ceras::sliding_2d( p ); }, plain );
                sum = any<V>( e[0] + e[1] );
                Norm mod[2]{ { 0.5 }, { 0.5 } }; T x[2], out[2]; int last[2] = { -1, -1 }; std::string where = "history "; unsigned long q = m; int s = first;
                for ( int i = 0; i < depth; ++i )
                {
                    if ( i == 1 ) s = second; else if ( i ) { s = q%8; q /= 8; }
                    int const k = s%2, mode = s/2; where += std::to_string( s );
                    if ( mode == 3 )        // both in one run: training with nothing dropped, or inference
                    {
                        bool const infer = k || kind == 3; T want( shapes[i%2] ); ceras::learning_phase = !infer; play( bits( ~0ul, 64 ) );
                        for ( int j = 0; j < 2; ++j )
                        {
                            x[j] = nonzero( shapes[i%2], 3*i+j+1 ); v[j].data() = to_c<V>( x[j] ); T y = x[j];
                            if ( kind == 1 || kind == 2 ) { y = infer ? mod[j].infer( x[j] ) : mod[j].train( x[j] ); if ( kind == 2 ) for ( unsigned long l = 0; l < y.size(); ++l ) y[l] = y[l]*gamma[l%2]+beta[l%2]; }
                            if ( kind == 0 && !infer ) for ( auto& l : y.v ) l /= 1-rate;
                            out[j] = y; last[j] = infer; for ( unsigned long l = 0; l < y.size(); ++l ) want[l] += y[l];
                        }
                        auto const got = to_r( sess().run( sum ) ); c.trans(); c.state( hash( got, s ) ); same( c, got, want, std::string( "two-inputs:sum:" ) + kinds[kind], tol*4, where );
                    }
                    else if ( mode < 2 )
                    {
                        x[k] = nonzero( shapes[( i+k )%2], 3*i+k+1 ); v[k].data() = to_c<V>( x[k] ); ceras::learning_phase = mode == 0;
                        if ( kind == 0 ) play( bits( 0x9b34u >> ( 2*i ), 64 ) ); else { std::vector<std::uint32_t> a; for ( int j = 0; j < 8; ++j ) a.push_back( part( ( ( i+j*2 )%3+0.5 )/3 ) ); play( a ); }
                        out[k] = to_r( sess().run( e[k] ) ); c.trans(); last[k] = mode; c.state( hash( out[k], s ) );
                        if ( !c.check( out[k].shape == x[k].shape, "two-inputs:shape", where ) ) return;
                        T want = x[k]; std::vector<int> mask;
                        if ( kind == 1 || kind == 2 ) { want = mode ? mod[k].infer( x[k] ) : mod[k].train( x[k] ); if ( kind == 2 ) for ( unsigned long j = 0; j < want.size(); ++j ) want[j] = want[j]*gamma[j%2]+beta[j%2]; }
                        if ( kind == 1 || kind == 2 || mode ) same( c, out[k], want, std::string( "two-inputs:" ) + kinds[kind], tol, where );
                        else if ( kind == 0 && !mask_of( c, x[k], out[k], rate, mask, where ) ) return;
                        for ( int j = 0; j < 2; ++j ) if ( last[j] >= 0 ) same( c, to_r( v[j].data() ), x[j], "two-inputs:input-modified", 0, where );
                    }
                    else
                    {
                        if ( last[k] < 0 || ( last[k] == 1 && ( kind == 1 || kind == 2 ) ) ) break;
                        T const g = round_to<V>( fill( x[k].shape, 5+i ) ); for ( int j = 0; j < 2; ++j ) v[j].gradient() = ceras::zeros_like( v[j].data() ); for ( auto& z : par ) z.gradient() = ceras::zeros_like( z.data() );
                        ceras::learning_phase = last[k] == 0; e[k].backward( to_c<V>( g ) ); c.trans(); T const d = to_r( v[k].gradient() ); T want = g, gy = g;
                        same( c, to_r( v[1-k].gradient() ), T( to_r( v[1-k].data() ).shape ), "two-inputs:other-gradient", 0, where );
                        if ( kind == 2 )
                        {
                            T dg( { 2 } ), db( { 2 } ); for ( unsigned long j = 0; j < g.size(); ++j ) { gy[j] *= gamma[j%2]; dg[j%2] += g[j]*( out[k][j]-beta[j%2] )/gamma[j%2]; db[j%2] += g[j]; }
                            same( c, to_r( par[0].gradient() ), dg, "two-inputs:gamma", tol*10, where ); same( c, to_r( par[1].gradient() ), db, "two-inputs:beta", tol*10, where );
                        }
                        if ( kind == 0 && last[k] == 0 ) for ( unsigned long j = 0; j < g.size(); ++j ) want[j] = out[k][j] == 0 ? 0 : g[j]/( 1-rate );
                        if ( kind == 1 || kind == 2 ) { T y = out[k]; if ( kind == 2 ) for ( unsigned long j = 0; j < y.size(); ++j ) y[j] = ( y[j]-beta[j%2] )/gamma[j%2]; want = mod[k].gradient( y, gy ); }
                        if ( kind == 3 && last[k] == 0 )
                        {
                            bool both = false;
                            for ( long dr = -1; dr <= 1; ++dr ) for ( long dc = -1; dc <= 1; ++dc )
                            {
                                bool ok = true; for ( unsigned long b = 0; b < x[k].shape[0]; ++b ) for ( unsigned long r = 0; r < 3; ++r ) for ( unsigned long cc = 0; cc < 3; ++cc ) { auto const at = ravel( { b, r, cc, 0 }, x[k].shape ); ok = ok && out[k][at] == slid( x[k], b, r, cc, 0, dr, dc ) && d[at] == slid( g, b, r, cc, 0, -dr, -dc ); }
                                both = both || ok;
                            }
                            c.check( both, "two-inputs:sliding-gradient", [&]{ return where + " " + str( g ) + " -> " + str( d ); } );
                        }
                        else same( c, d, want, std::string( "two-inputs:gradient:" ) + kinds[kind], tol*10, where );
                    }
                    if ( c.case_fails ) return;
                }
            }
        } );
}
static void explore( Ctx& c ) { dropout_histories( c ); normalization_histories( c ); sliding( c ); two_inputs( c ); }
int main( int argc, char** argv ) { return mc::run_main( argc, argv, explore, []{ mc::reset_world(); mc::unscripted(); } ); }
