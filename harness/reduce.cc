// C05: reductions and statistics of tensors
#include "ceras_mc.hpp"
using namespace ref;

template<typename V> static void typed( mc::Ctx& c )
{
    std::string const tn = sizeof(V)==4 ? "float" : "double"; double const tol = sizeof(V)==4 ? 5e-5 : 1e-10;
    auto all = shapes( c.thorough ? 4 : 3, 3 ); for ( Shape s : { Shape{17}, Shape{2,9}, Shape{3,1,11}, Shape{2,2,2,2}, Shape{40}, Shape{257}, Shape{3,130}, Shape{65,5}, Shape{4,33,3}, Shape{2,1,3,2,2} } ) all.push_back( s );
    struct Pat { char const* n; std::function<ref::T(Shape const&)> f; };
    std::vector<Pat> pats{ {"mixed", []( Shape const& s ){ return fill( s, 1 ); }}, {"neg", []( Shape const& s ){ return fill_pos( s, 2 ).map( []( double x ){ return -x; } ); }},
        {"pos", []( Shape const& s ){ return fill_pos( s, 3 ); }}, {"const", []( Shape const& s ){ return ref::T( s, -1.5 ); }}, {"offset", []( Shape const& s ){ return fill( s, 5, 1.0, 100.0 ); }}, {"big", []( Shape const& s ){ return fill( s, 4, 300.0 ); }},
        {"ties", []( Shape const& s ){ ref::T r( s ); for ( unsigned long i = 0; i < r.size(); ++i ) r[i] = (double)(long)(i*7%3)-1; return r; }} };
    for ( auto const& s : all ) for ( auto const& pt : pats )
    {
        auto const v0 = pt.f( s );
        for ( unsigned long ax = 0; ax <= s.size(); ++ax ) for ( int keep = 0; keep < 2; ++keep )
            c.test( "axis|" + tn + "|" + str(s) + "|" + pt.n + "|ax" + std::to_string( ax == s.size() ? -1 : (long)ax ) + "|keep" + std::to_string(keep), [&]
            {
                auto x = mc::to_c<V>( v0 ); auto const v = mc::to_r( x ); unsigned long const a = ax == s.size() ? -1ul : ax, ra = ax == s.size() ? s.size()-1 : ax;
                Shape ks = s; ks[ra] = 1; Shape ns = s; ns.erase( ns.begin()+ra );
                auto fold = [&]( std::function<double(std::vector<double> const&)> f )
                {
                    ref::T r( ks );
                    for ( unsigned long i = 0; i < r.size(); ++i ) { auto ix = unravel( i, ks ); std::vector<double> q; for ( unsigned long k = 0; k < s[ra]; ++k ) { ix[ra] = k; q.push_back( v[ ravel(ix,s) ] ); } r[i] = f( q ); }
                    if ( !keep ) r.shape = ns;
                    return r;
                };
                auto sum = []( std::vector<double> const& q ){ double t = 0; for ( double x : q ) t += x; return t; };
                auto mean = [&]( std::vector<double> const& q ){ return sum(q)/q.size(); };
                auto var = [&]( std::vector<double> const& q ){ double m = mean(q), t = 0; for ( double x : q ) t += (x-m)*(x-m); return t/q.size(); };
                double const scale = 1;
                auto chk = [&]( char const* nm, auto const& got, std::function<double(std::vector<double> const&)> f )
                { c.trans(); auto w = fold( f ); auto g = mc::to_r( got ); c.state( hash( g, mc::hash_str(nm) ) ); mc::same( c, g, w, std::string("axis:") + nm, tol ); mc::same( c, mc::to_r(x), v, std::string("axis:source-modified:") + nm, 0 ); };
                chk( "sum", ceras::sum( x, a, keep ), sum );
                chk( "mean", ceras::mean( x, a, keep ), mean );
                chk( "variance", ceras::variance( x, a, keep ), var );
                chk( "standard_deviation", ceras::standard_deviation( x, a, keep ), [&]( auto const& q ){ return std::sqrt( var(q) ); } );
                chk( "max", ceras::max( x, a, keep ), []( auto const& q ){ return *std::max_element( q.begin(), q.end() ); } );
                chk( "min", ceras::min( x, a, keep ), []( auto const& q ){ return *std::min_element( q.begin(), q.end() ); } );
                if ( std::string( pt.n ) != "big" && std::string( pt.n ) != "offset" && s[ra] <= 64 ) chk( "reduce-product", ceras::reduce( x, a, V(1), []( auto p, auto q ){ return p*q; }, keep ), []( auto const& q ){ double t = 1; for ( double y : q ) t *= y; return t; } );
                (void)scale;
            } );
        c.test( "all|" + tn + "|" + str(s) + "|" + pt.n, [&]
        {
            auto x = mc::to_c<V>( v0 ); auto const v = mc::to_r( x ); double n = v.size(), sum = 0, sq = 0; for ( double q : v.v ) { sum += q; sq += q*q; }
            auto scalar = [&]( char const* nm, double got, double want ){ c.trans(); c.state( mc::mix( mc::hash_str(nm), hash( ref::T( Shape{1}, got ) ) ) ); c.check( ref::close( got, want, tol*10 ), std::string("all:") + nm, [&]{ return std::to_string(got) + " expected " + std::to_string(want); } ); mc::same( c, mc::to_r(x), v, std::string("all:source-modified:") + nm, 0 ); };
            scalar( "sum", ceras::sum( x ), sum ); scalar( "mean", ceras::mean( x ), sum/n );
            scalar( "max", ceras::max( x ), *std::max_element( v.v.begin(), v.v.end() ) ); scalar( "min", ceras::min( x ), *std::min_element( v.v.begin(), v.v.end() ) );
            scalar( "amax", ceras::amax( x ), *std::max_element( v.v.begin(), v.v.end() ) ); scalar( "amin", ceras::amin( x ), *std::min_element( v.v.begin(), v.v.end() ) );
            scalar( "norm", ceras::norm( x ), std::sqrt( sq )/n );
            double dev = 0; for ( double q : v.v ) dev += (q-sum/n)*(q-sum/n);
            scalar( "var", ceras::var( x ), dev ); scalar( "std", ceras::std( x ), std::sqrt( dev ) );
            auto rs = ceras::reduce_sum( x ); scalar( "reduce_sum", rs.as_scalar(), sum ); c.check( rs.shape() == Shape{1}, "all:reduce_sum:shape" );
            auto rm = ceras::reduce_mean( x ); scalar( "reduce_mean", rm.as_scalar(), sum/n );
            // softmax over the last dimension
            ref::T w = v; unsigned long L = s.back(); for ( unsigned long r = 0; r < w.size()/L; ++r ) { double mx = -1e300, ac = 0; for ( unsigned long k = 0; k < L; ++k ) mx = std::max( mx, w[r*L+k] ); for ( unsigned long k = 0; k < L; ++k ) ac += std::exp( w[r*L+k]-mx ); for ( unsigned long k = 0; k < L; ++k ) w[r*L+k] = std::exp( w[r*L+k]-mx )/ac; }
            auto sm = ceras::softmax( x ); c.trans(); mc::same( c, mc::to_r(sm), w, "softmax", 1e-7 < tol ? tol : 1e-7 ); mc::same( c, mc::to_r(x), v, "softmax:source-modified", 0 );
            // clip works in place
            for ( auto [lo,hi] : std::vector<std::pair<double,double>>{ {0,1}, {-1,-0.5}, {-0.25,0.25}, {2,2} } )
            {
                auto y = x.deep_copy(); auto z = ceras::clip( y, V(lo), V(hi) ); c.trans(); auto u = v.map( [&]( double q ){ return std::max( lo, std::min( hi, q ) ); } );
                mc::same( c, mc::to_r(y), u, "clip", tol ); mc::same( c, mc::to_r(z), u, "clip:returned", tol ); mc::same( c, mc::to_r(x), v, "clip:source-of-copy-modified", 0 );
            }
            c.check( !ceras::has_nan( x ) && !ceras::has_inf( x ) && ceras::is_valid( x ), "valid:finite" );
            // NaN / infinity at every position
            for ( unsigned long i = 0; i < x.size(); ++i )
            {
                auto y = x.deep_copy(); y[i] = std::numeric_limits<V>::quiet_NaN(); c.trans(); c.check( ceras::has_nan(y) && !ceras::has_inf(y) && !ceras::is_valid(y), "valid:nan" );
                y[i] = std::numeric_limits<V>::infinity(); c.check( !ceras::has_nan(y) && ceras::has_inf(y) && !ceras::is_valid(y), "valid:inf" );
                y[i] = -std::numeric_limits<V>::infinity(); c.check( ceras::has_inf(y) && !ceras::is_valid(y), "valid:-inf" );
            }
        } );
    }
    // every value combination on one row
    std::vector<double> al{ -2, -1, 0, 0.5 };
    for ( unsigned long n = 1; n <= 4; ++n )
    {
        unsigned long tot = 1; for ( unsigned long i = 0; i < n; ++i ) tot *= 4;
        for ( unsigned long k = 0; k < tot; ++k )
            c.test( "values|" + tn + "|" + std::to_string(n) + "|" + std::to_string(k), [&]
            {
                ref::T v( Shape{n} ); unsigned long q = k; for ( auto& x : v.v ) { x = al[q%4]; q /= 4; }
                auto x = mc::to_c<V>( v ); c.trans( 4 ); c.state( hash( v ) );
                double mx = *std::max_element( v.v.begin(), v.v.end() ), mn = *std::min_element( v.v.begin(), v.v.end() );
                c.check( ceras::max( x ) == mx, "values:max" ); c.check( ceras::min( x ) == mn, "values:min" );
                c.check( ceras::max( x, 0, true )[0] == mx, "values:axis-max" ); c.check( ceras::min( x, 0, true )[0] == mn, "values:axis-min" );
            } );
    }
    for ( unsigned long n = 2; n <= 12; ++n ) for ( int ep = 0; ep < 2; ++ep ) for ( auto [a,b] : std::vector<std::pair<double,double>>{ {0,1}, {-3,5}, {2,-2}, {1,1} } )
        c.test( "linspace|" + tn + "|" + std::to_string(n) + "|" + std::to_string(ep) + "|" + std::to_string(a) + "," + std::to_string(b), [&]
        {
            auto x = ceras::linspace<V>( a, b, n, ep ); c.trans(); ref::T w( Shape{n} ); for ( unsigned long i = 0; i < n; ++i ) w[i] = a + (b-a)*i/( ep ? n-1 : n );
            mc::same( c, mc::to_r(x), w, "linspace", tol ); c.state( hash( w ) );
            if ( ep ) { auto y = ceras::linspace<V>( a, b, n ); mc::same( c, mc::to_r(y), w, "linspace:default", tol ); }
        } );
}
static void explore( mc::Ctx& c ) { typed<double>( c ); typed<float>( c ); }
MC_MAIN( explore )
