// C25: the random tensors.  The random source is scripted: every sequence of answers over an alphabet of extreme and ordinary ones,
// and whole grids of answers (numeric integration of the distribution), are enumerated; plus fixed runs of the real engine.
#include "scripted.hpp"
#include "ops.hpp"
using namespace ref; using namespace mc;
#ifndef VT
#define VT float
#endif
typedef VT V; typedef ceras::tensor<V> TT;
static bool const single = sizeof( V ) == 4;
typedef std::uint32_t u32;
// one answer of the source, as many words as the element type consumes (an answer is a fraction of the range)
static void push( std::vector<u32>& s, u32 a ) { s.push_back( a ); if ( !single ) s.push_back( a ); }
static std::string text( Shape const& s ) { std::string r; for ( auto d : s ) r += ( r.empty() ? "" : "x" ) + std::to_string( d ); return r; }
static std::vector<Shape> shapes( Ctx& c )
{
    std::vector<Shape> r; unsigned long const m = c.thorough ? 4 : 3;
    for ( unsigned long a = 1; a <= m; ++a ) { r.push_back( { a } ); for ( unsigned long b = 1; b <= m; ++b ) { r.push_back( { a, b } ); for ( unsigned long d = 1; d <= m; ++d ) r.push_back( { a, b, d } ); } }
    r.push_back( { 7, 9 } ); r.push_back( { 2, 3, 2, 3 } ); r.push_back( { 101 } ); return r;
}
static unsigned long count( Shape const& s ) { unsigned long n = 1; for ( auto d : s ) n *= d; return n; }
static double frac( u32 a ) { return a/4294967296.0; }
static bool near( double a, double b, double t ) { return std::fabs( a-b ) <= t*( 1+std::fabs( b ) ); }
static std::vector<u32> const extreme{ 0u, 1u, 255u, 256u, 0x40000000u, 0x7fffffffu, 0x80000000u, 0xbfffffffu, 0xffffff00u, 0xffffff7fu, 0xffffff80u, 0xfffffffeu, 0xffffffffu };

// ---- uniform
static void judge_uniform( Ctx& c, TT const& t, Shape const& s, std::vector<u32> const& answers, double lo, double hi, std::string const& w )
{
    if ( !c.check( t.shape() == s && t.size() == count( s ), w+"shape", [&]{ return text( t.shape() ); } ) ) return;
    u64 h = hash_str( w+text( s ) );
    for ( unsigned long i = 0; i < t.size(); ++i )
    {
        double const v = t[i], want = lo + ( hi-lo )*frac( answers[i%answers.size()] );
        c.check( v >= lo && v <= hi, w+"outside the bounds", [&]{ return std::to_string( v ); } );
        c.check( std::fabs( v-want ) <= ( single ? 1e-6 : 1e-9 )*( std::fabs( lo )+std::fabs( hi )+( hi-lo ) ), w+"not uniform", [&]{ return "element " + std::to_string( i ) + " is " + std::to_string( v ) + " for answer " + std::to_string( want ); } );
        h = mix( h, hash_str( std::to_string( v ) ) );
    }
    c.trans( t.size() ); c.state( h );
}
static std::vector<u32> words( std::vector<u32> const& a ) { std::vector<u32> r; for ( u32 x : a ) push( r, x ); return r; }
static void uniform( Ctx& c )
{
    std::vector<std::pair<double, double>> const bounds{ { 0, 1 }, { -1, 1 }, { -0.25, 0.75 }, { 2, 3 }, { -1000, 1000 }, { -3, -2.5 }, { 1e-6, 2e-6 }, { -1e10, 1e10 }, { 0, 0.001 } };
    for ( auto const& s : shapes( c ) ) for ( unsigned long b = 0; b < bounds.size(); ++b ) c.test( "uniform|" + text( s ) + "|" + std::to_string( b ), [&]
    {
        V const lo = (V)bounds[b].first, hi = (V)bounds[b].second;
        std::vector<std::vector<u32>> scripts; for ( u32 x : extreme ) scripts.push_back( { x } ); for ( u32 x : extreme ) for ( u32 y : extreme ) scripts.push_back( { x, y } );
        { std::vector<u32> d; for ( unsigned long i = 0; i < 127; ++i ) d.push_back( (u32)( ( i*37+11 )%127 )*33818640u ); scripts.push_back( d ); }
        for ( auto const& a : scripts )
        {
            auto const w = words( a );
            play( w ); judge_uniform( c, ceras::random<V>( s, lo, hi ), s, a, lo, hi, "random " );
            play( w ); judge_uniform( c, ceras::rand<V>( s, lo, hi ), s, a, lo, hi, "rand " );
            play( w ); auto const like = ceras::ones<V>( s ); judge_uniform( c, ceras::random_like( like, lo, hi ), s, a, lo, hi, "random_like " );
            for ( auto v : like ) c.check( v == 1, "random_like changed its operand", "" );
            if ( b == 0 ) { play( w ); judge_uniform( c, ceras::random<V>( s ), s, a, 0, 1, "random " ); play( w ); judge_uniform( c, ceras::rand<V>( s ), s, a, 0, 1, "rand " ); play( w ); judge_uniform( c, ceras::random_like( like ), s, a, 0, 1, "random_like " ); }
        }
        unscripted();
    } );
    unsigned long const m = c.thorough ? 40 : 12;
    for ( unsigned long p = 1; p <= m; ++p ) for ( unsigned long q = 1; q <= m; ++q ) c.test( "glorot|" + std::to_string( p ) + "x" + std::to_string( q ), [&]
    {
        double const bound = (V)std::sqrt( 6.0/( p+q ) );
        std::vector<u32> a = extreme; a.push_back( 0x12345678u );
        for ( int k = 0; k < 2; ++k )
        {
            if ( k ) std::reverse( a.begin(), a.end() ); play( words( a ) ); auto const t = ceras::glorot_uniform<V>( { p, q } );
            if ( !c.check( t.shape() == ( Shape{ p, q } ), "glorot shape", text( t.shape() ) ) ) continue;
            for ( unsigned long i = 0; i < t.size(); ++i )
            {
                double const want = bound*( 2*frac( a[i%a.size()] )-1 );
                c.check( std::fabs( t[i] ) <= bound*( 1+1e-6 ) && std::fabs( t[i]-want ) <= 4e-6*bound, "glorot value", [&]{ return std::to_string( (double)t[i] ) + " instead of " + std::to_string( want ); } );
            }
            c.trans( t.size() );
        }
        c.state( mix( p, q ) );
        unscripted();
    } );
    // weights of convolutions: any rank, bound at most the widest Glorot bound of two of its extents, never outside it
    for ( unsigned long a = 1; a <= 3; ++a ) for ( unsigned long b = 1; b <= 3; ++b ) for ( unsigned long d = 1; d <= 3; ++d ) for ( unsigned long e = 1; e <= 3; ++e )
        c.test( "glorot|" + text( { a, b, d, e } ), [&]
        {
            double lo = 0, hi = 0;
            for ( u32 x : extreme ) { play( words( { x } ) ); auto const t = ceras::glorot_uniform<V>( { a, b, d, e } ); c.check( t.shape() == ( Shape{ a, b, d, e } ), "glorot shape", text( t.shape() ) ); for ( auto v : t ) { lo = std::min( lo, (double)v ); hi = std::max( hi, (double)v ); } c.trans( t.size() ); }
            c.check( near( lo, -hi, 1e-5 ) && hi <= std::sqrt( 3.0 )*( 1+1e-6 ) && hi > 0, "glorot bounds", [&]{ return std::to_string( lo ) + " " + std::to_string( hi ); } ); unscripted(); c.state( mix( mix( a, b ), mix( d, e ) ) );
        } );
}

// ---- normal
static double Phi( double x ) { return 0.5*std::erfc( -x/std::sqrt( 2.0 ) ); }
// the real engine from a position of its own, so that rejected pairs cannot go on for ever
static void normal( Ctx& c )
{
    // scale and shift: the same answers give mean + stddev*z
    std::vector<std::pair<double, double>> const ps{ { 0, 1 }, { 1, 1 }, { -3, 0.5 }, { 0, 4 }, { 10, 0.125 }, { -0.5, 100 } };
    for ( auto const& s : shapes( c ) ) for ( unsigned long b = 0; b < ps.size(); ++b ) c.test( "normal|" + text( s ) + "|" + std::to_string( b ), [&]
    {
        V const m = (V)ps[b].first, d = (V)ps[b].second;
        for ( unsigned long seed = 1; seed <= 8; ++seed )
        {
            ceras::random_generator.seed( seed ); TT const z = ceras::randn<V>( s );
            auto like = ceras::zeros<V>( s ); TT got[4];
            ceras::random_generator.seed( seed ); got[0] = ceras::randn<V>( s, m, d );
            ceras::random_generator.seed( seed ); got[1] = ceras::randn_like( like, m, d );
            ceras::random_generator.seed( seed ); { ceras::variable<TT> x{ like }; fresh_session<V>(); auto e = ceras::random_normal_like( m, d )( x ); auto e0 = ceras::random_normal_like<V>()( x ); { auto const z0 = ceras::get_default_session<TT>().run( e0 ); ceras::random_generator.seed( seed ); bool eq = z0.shape() == z.shape(); if ( eq ) for ( unsigned long i = 0; i < z.size(); ++i ) eq = eq && near( z0[i], z[i], 1e-5 ); c.check( eq, "random_normal_like without arguments is not the standard normal", text( s ) ); } got[2] = ceras::get_default_session<TT>().run( e ); }
            ceras::random_generator.seed( seed ); { ceras::place_holder<TT> x; auto& q = fresh_session<V>(); q.bind( x, z ); auto e = ceras::random_normal_like( m, d )( x ); got[3] = q.run( e ); }
            for ( int k = 0; k < 4; ++k )
            {
                if ( !c.check( got[k].shape() == s && z.shape() == s, "normal shape", text( got[k].shape() ) ) ) continue;
                for ( unsigned long i = 0; i < z.size(); ++i ) c.check( near( got[k][i], m + d*z[i], single ? 1e-4 : 1e-10 ), "normal is not mean + stddev*standard", [&]{ return "way " + std::to_string( k ) + ": " + std::to_string( (double)got[k][i] ) + " instead of " + std::to_string( (double)( m+d*z[i] ) ); } );
            }
            for ( auto v : like ) c.check( v == 0, "operand changed", "" );
            if ( z.size() > 1 ) { bool all = true; for ( auto v : z ) all = all && v == z[0]; c.check( !all, "all samples are the same", text( s ) ); }
            // moving on: the next tensor is another one
            TT const next = ceras::randn<V>( s ); bool eq = true; for ( unsigned long i = 0; i < z.size(); ++i ) eq = eq && next[i] == z[i]; c.check( !eq, "two samples are the same", text( s ) );
            c.trans( 4*z.size() ); c.state( mix( seed, hash_str( text( s ) ) ) );
        }
    } );
    // a grid over the source's answers integrates the distribution: moments and distribution function of the standard normal
    int const n = c.thorough ? 400 : 120;
    c.test( "normal|grid", [&]
    {
        std::vector<double> xs;
        for ( int i = 0; i < n; ++i ) for ( int j = 0; j < n; ++j )
        {
            std::vector<u32> a; push( a, part( ( i+0.5 )/n ) ); push( a, part( ( j+0.5 )/n ) ); unsigned long const own = a.size();
            for ( double f : { 0.6, 0.7, 0.3, 0.55 } ) push( a, part( f ) );                                     // if the pair is rejected
            play( a ); TT const t = ceras::randn<V>( { 2 } ); if ( script.used > own ) continue;
            xs.push_back( t[0] ); xs.push_back( t[1] ); c.trans( 2 );
        }
        unscripted(); std::sort( xs.begin(), xs.end() ); double m = 0, v = 0, ks = 0; for ( double x : xs ) m += x/xs.size(); for ( double x : xs ) v += ( x-m )*( x-m )/xs.size();
        for ( unsigned long i = 0; i < xs.size(); ++i ) ks = std::max( ks, std::fabs( Phi( xs[i] ) - ( i+0.5 )/xs.size() ) );
        c.check( xs.size() > 1000 && std::fabs( m ) < 1e-3 && std::fabs( v-1 ) < 0.02 && ks < 0.01, "distribution of randn", [&]{ return std::to_string( xs.size() ) + " samples, mean " + std::to_string( m ) + " variance " + std::to_string( v ) + " distance " + std::to_string( ks ); } ); c.state( xs.size() );
    } );
    // truncated: what the untruncated stream holds between the bounds, in order
    std::vector<std::array<double, 4>> ws; for ( double lo : { -2.0, -0.5, 0.0, 0.5, 1.0 } ) for ( double w : { 0.25, 1.0, 3.0 } ) for ( auto const& p : { std::pair<double, double>{ 0, 1 }, { 0.5, 1 }, { 0, 3 }, { -0.25, 0.5 } } ) ws.push_back( { p.first, p.second, lo, lo+w } );
    for ( auto const& s : shapes( c ) ) for ( unsigned long b = 0; b <= ws.size(); ++b ) c.test( "truncated|" + text( s ) + "|" + std::to_string( b ), [&]
    {
        bool const defaults = b == ws.size(); V const m = defaults ? 0 : (V)ws[b][0], d = defaults ? 1 : (V)ws[b][1], lo = defaults ? 0 : (V)ws[b][2], hi = defaults ? 1 : (V)ws[b][3];
        if ( ( lo-m )/d > 3.2 || ( hi-m )/d < -3.2 ) return;
        for ( unsigned long seed = 1; seed <= 3; ++seed )
        {
            ceras::random_generator.seed( seed ); TT const t = defaults ? ceras::truncated_normal<V>( s ) : ceras::truncated_normal<V>( s, m, d, lo, hi );
            if ( !c.check( t.shape() == s, "truncated shape", text( t.shape() ) ) ) continue;
            ceras::random_generator.seed( seed ); TT const z = ceras::randn<V>( { count( s )*2000+2000 }, m, d ); unsigned long i = 0;
            for ( auto v : t ) c.check( v >= lo && v <= hi, "truncated outside the bounds", [&]{ return std::to_string( (double)v ); } );
            for ( auto x : z ) if ( i < t.size() && x >= lo && x <= hi ) { c.check( near( t[i], x, 1e-6 ), "truncated is not the part of the normal samples between the bounds", [&]{ return std::to_string( (double)t[i] ) + " instead of " + std::to_string( (double)x ); } ); ++i; }
            c.trans( t.size() ); u64 h = 1; for ( auto v : t ) h = mix( h, hash_str( std::to_string( v ) ) ); c.state( h );
        }
    } );
}

// ---- Poisson
static void poisson( Ctx& c )
{
    std::vector<double> const rates{ 0.05, 0.3, 0.5, 0.9, 1, 1.25, 1.5, 1.99, 2, 2.75 };
    int const n = c.thorough ? 300 : 100;
    // grid over the first three answers; every following one is small, so that a sample ends
    for ( double rate : rates ) c.test( "poisson|grid|" + std::to_string( rate ), [&]
    {
        // P(0) and P(1) by numeric integration over two answers
        double p0 = 0, p1 = 0; V const r = (V)rate;
        for ( int i = 0; i < n; ++i ) for ( int j = 0; j < n; ++j )
        {
            std::vector<u32> a; for ( double f : { ( i+0.5 )/n, ( j+0.5 )/n, 1e-9, 1e-9 } ) { a.push_back( part( f ) ); a.push_back( part( f ) ); }
            play( a ); TT x( { 1 } ); x[0] = r; TT const t = ceras::poisson( x ); p0 += t[0] == 0; p1 += t[0] == 1; c.trans( 1 );
            c.check( t[0] >= 0 && t[0] == std::floor( t[0] ), "poisson value", [&]{ return std::to_string( (double)t[0] ); } );
        }
        unscripted(); p0 /= n*n; p1 /= n*n; double const e = 1.5/n+0.002;
        c.check( std::fabs( p0-std::exp( -rate ) ) <= e && std::fabs( p1-rate*std::exp( -rate ) ) <= 4*e, "distribution of poisson", [&]{ return "P(0) " + std::to_string( p0 ) + " instead of " + std::to_string( std::exp( -rate ) ) + ", P(1) " + std::to_string( p1 ) + " instead of " + std::to_string( rate*std::exp( -rate ) ); } );
        c.state( mix( (u64)( rate*100 ), 1 ) );
    } );
    // fixed runs of the real engine: mean and variance equal the rate
    for ( double rate : { 0.0, 0.25, 0.75, 1.5, 3.5, 10.5, 11.9, 12.0, 30.25, 100.5, 1000.0 } ) for ( int way = 0; way < 3; ++way ) c.test( "poisson|run|" + std::to_string( rate ) + "|" + std::to_string( way ), [&]
    {
        unsigned long const k = 20000; TT x( { k } ); for ( auto& v : x ) v = (V)rate; ceras::random_generator.seed( 7 ); TT t;
        if ( way == 0 ) t = ceras::poisson( x ); else if ( way == 1 ) { ceras::variable<TT> a{ x }; fresh_session<V>(); auto e = ceras::poisson( a ); t = ceras::get_default_session<TT>().run( e ); }
        else { ceras::place_holder<TT> a; auto& q = fresh_session<V>(); q.bind( a, x ); auto e = ceras::poisson( a ); t = q.run( e ); }
        if ( !c.check( t.shape() == ( Shape{ k } ), "poisson shape", text( t.shape() ) ) ) return;
        double m = 0, v = 0; for ( auto y : t ) m += y/(double)k; for ( auto y : t ) v += ( y-m )*( y-m )/k;
        c.check( std::fabs( m-rate ) <= 5*std::sqrt( rate/k )+1e-9 && std::fabs( v-rate ) <= 0.08*rate+1e-9, "moments of poisson", [&]{ return "mean " + std::to_string( m ) + " variance " + std::to_string( v ); } );
        for ( auto y : x ) c.check( y == (V)rate, "poisson changed its operand", "" );
        c.trans( k ); c.state( mix( (u64)( rate*100 ), 2 ) );
    } );
    // every element follows its own rate: all tuples over {0, 3, 40}
    for ( auto const& s : shapes( c ) ) if ( count( s ) <= 8 ) c.test( "poisson|own rates|" + text( s ), [&]
    {
        unsigned long const n = count( s ); unsigned long all = 1; for ( unsigned long i = 0; i < n; ++i ) all *= 3;
        for ( unsigned long p = 0; p < all; ++p )
        {
            TT x( s ); unsigned long q = p; for ( auto& v : x ) { v = (V)( q%3 == 0 ? 0 : q%3 == 1 ? 3.5 : 60 ); q /= 3; } ceras::random_generator.seed( 3+p%5 ); TT const t = ceras::poisson( x );
            if ( !c.check( t.shape() == s, "poisson shape", text( t.shape() ) ) ) break;
            for ( unsigned long i = 0; i < n; ++i ) c.check( x[i] == 0 ? t[i] == 0 : x[i] < 10 ? t[i] >= 0 && t[i] < 20 : t[i] > 20 && t[i] < 120, "poisson element ignores its own rate", [&]{ return std::to_string( (double)t[i] ) + " at rate " + std::to_string( (double)x[i] ); } );
        }
        c.trans( all*n ); c.state( hash_str( text( s ) ) );
    } );
}

// ---- the same state of the source gives the same tensor; so does the documented way of fixing the seed
static void repeat( Ctx& c )
{
    std::vector<std::pair<std::string, std::function<TT( Shape const& )>>> const makers{
        { "random", []( Shape const& s ){ return ceras::random<V>( s, -1, 2 ); } }, { "rand", []( Shape const& s ){ return ceras::rand<V>( s ); } }, { "random_like", []( Shape const& s ){ return ceras::random_like( ceras::ones<V>( s ) ); } },
        { "randn", []( Shape const& s ){ return ceras::randn<V>( s, 1, 2 ); } }, { "randn_like", []( Shape const& s ){ return ceras::randn_like( ceras::ones<V>( s ) ); } },
        { "truncated_normal", []( Shape const& s ){ return ceras::truncated_normal<V>( s, 0, 1, -1, 1 ); } }, { "poisson", []( Shape const& s ){ auto t = ceras::ones<V>( s ); for ( auto& v : t ) v = 100; return ceras::poisson( t ); } },
        { "glorot", []( Shape const& s ){ return ceras::glorot_uniform<V>( { s[0], s.size() > 1 ? s[1] : 2 } ); } } };
    for ( unsigned long a = 0; a < makers.size(); ++a ) for ( unsigned long b = 0; b < makers.size(); ++b ) c.test( "repeat|" + makers[a].first + "|" + makers[b].first, [&]
    {
        for ( auto const& s : { Shape{ 3 }, Shape{ 2, 3 }, Shape{ 5, 1, 3 }, Shape{ 33 } } ) for ( unsigned long seed : { 0UL, 1UL, 42UL, 4294967295UL } )
        {
            auto run = [&]{ TT x = makers[a].second( s ), y = makers[b].second( s ); return std::vector<TT>{ x.deep_copy(), y.deep_copy() }; };
            ceras::random_generator.seed( seed ); auto const p = run(); ceras::random_generator.seed( seed ); auto const q = run();
            auto const state = ceras::random_generator; auto const u = run(); ceras::random_generator = state; auto const v = run();
            ceras::random_seed = seed; auto const w = run();
            auto eq = []( std::vector<TT> const& m, std::vector<TT> const& n ){ for ( int k = 0; k < 2; ++k ) { if ( m[k].shape() != n[k].shape() ) return false; for ( unsigned long i = 0; i < m[k].size(); ++i ) if ( m[k][i] != n[k][i] ) return false; } return true; };
            c.check( eq( p, q ), "the same seed gives another tensor", "" ); c.check( eq( u, v ), "the same state gives another tensor", "" ); c.check( !eq( p, u ), "the source does not move on", "" );
            c.check( eq( p, w ), "assigning random_seed does not reproduce the tensor", [&]{ return "seed " + std::to_string( seed ); } );
            c.check( (unsigned long)ceras::random_seed == seed, "random_seed does not hold the seed", "" ); c.trans( 5 );
            ceras::random_generator.seed( seed+1 ); c.check( !eq( p, run() ), "another seed gives the same tensor", "" ); u64 h = seed; for ( auto x : p[0] ) h = mix( h, hash_str( std::to_string( x ) ) ); c.state( h );
        }
    } );
}
static void explore( Ctx& c ) { uniform( c ); normal( c ); poisson( c ); repeat( c ); }
MC_MAIN( explore )
