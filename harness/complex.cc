// C23: complex-valued expressions against complex arithmetic on matrices (values) and its derivative.
#include "ops.hpp"
using namespace mc;
#ifndef VT
#define VT double
#endif
typedef VT V; typedef ceras::tensor<V> TT;

namespace def      // the definitions
{
    using ref::T;
    struct R { T t; }; struct C { T re, im; };
    typedef double D;
    inline T add( T const& a, T const& b ) { return ref::bop( a, b, []( D x, D y ){ return x+y; } ); }
    inline T sub( T const& a, T const& b ) { return ref::bop( a, b, []( D x, D y ){ return x-y; } ); }
    inline T had( T const& a, T const& b ) { return ref::bop( a, b, []( D x, D y ){ return x*y; } ); }
    inline T mul( T const& a, T const& b ) { T r( { a.shape[0], b.shape[1] } ); for ( unsigned long i = 0; i < a.shape[0]; ++i ) for ( unsigned long j = 0; j < b.shape[1]; ++j ) for ( unsigned long k = 0; k < a.shape[1]; ++k ) r[i*b.shape[1]+j] += a[i*a.shape[1]+k]*b[k*b.shape[1]+j]; return r; }
    inline R real( C const& c ) { return { c.re }; }
    inline R imag( C const& c ) { return { c.im }; }
    inline R abs( C const& c ) { return { ref::bop( c.re, c.im, []( D x, D y ){ return std::sqrt( x*x+y*y ); } ) }; }
    inline R norm( C const& c ) { return { ref::bop( c.re, c.im, []( D x, D y ){ return x*x+y*y; } ) }; }
    inline R arg( C const& c ) { return { ref::bop( c.im, c.re, []( D y, D x ){ return std::atan2( y, x ); } ) }; }
    inline C conj( C const& c ) { return { c.re, c.im.map( []( D x ){ return -x; } ) }; }
    inline C polar( R const& m, R const& p ) { return { had( m.t, p.t.map( []( D x ){ return std::cos( x ); } ) ), had( m.t, p.t.map( []( D x ){ return std::sin( x ); } ) ) }; }
    inline C operator+( C const& c ) { return c; }
    inline C operator-( C const& c ) { auto n = []( D x ){ return -x; }; return { c.re.map( n ), c.im.map( n ) }; }
    inline C operator+( C const& a, C const& b ) { return { add( a.re, b.re ), add( a.im, b.im ) }; }
    inline C operator-( C const& a, C const& b ) { return { sub( a.re, b.re ), sub( a.im, b.im ) }; }
    inline C operator*( C const& a, C const& b ) { return { sub( mul( a.re, b.re ), mul( a.im, b.im ) ), add( mul( a.re, b.im ), mul( a.im, b.re ) ) }; }
    inline C operator+( C const& c, R const& e ) { return { add( c.re, e.t ), c.im }; }
    inline C operator+( R const& e, C const& c ) { return { add( e.t, c.re ), c.im }; }
    inline C operator-( C const& c, R const& e ) { return { sub( c.re, e.t ), c.im }; }
    inline C operator-( R const& e, C const& c ) { return { sub( e.t, c.re ), c.im.map( []( D x ){ return -x; } ) }; }
    inline C operator*( C const& c, R const& e ) { return { mul( c.re, e.t ), mul( c.im, e.t ) }; }
    inline C operator*( R const& e, C const& c ) { return { mul( e.t, c.re ), mul( e.t, c.im ) }; }
    inline R operator+( R const& a, R const& b ) { return { add( a.t, b.t ) }; }
    inline R operator-( R const& a, R const& b ) { return { sub( a.t, b.t ) }; }
    inline R hadamard_product( R const& a, R const& b ) { return { had( a.t, b.t ) }; }
}
enum Need { same_shape, square, anyway };
// shapes of the operands (x, y, e) a program accepts: `ok` decides
struct Shapes3 { ref::Shape x, y, e; };
static bool mm( ref::Shape const& a, ref::Shape const& b ) { return a.size() == 2 && b.size() == 2 && a[1] == b[0]; }
static bool bc( ref::Shape const& a, ref::Shape const& b ) { ref::Shape o; return ref::bshape( a, b, o ); }
static bool eq( ref::Shape const& a, ref::Shape const& b ) { return a == b; }
typedef std::function<bool(Shapes3 const&)> Ok;
static std::vector<Shapes3> const& grid( Ctx& c )
{
    static std::vector<Shapes3> v; if ( !v.empty() ) return v;
    std::vector<ref::Shape> s = c.thorough ? ref::shapes( 2, 3 ) : std::vector<ref::Shape>{ { 3 }, { 2, 2 }, { 2, 3 }, { 3, 2 }, { 1, 3 }, { 1, 1 } };
    s.push_back( { 2, 1, 3 } ); if ( c.thorough ) s.push_back( { 2, 3, 1, 2 } );
    for ( auto const& x : s ) for ( auto const& y : s ) for ( auto const& e : s ) v.push_back( { x, y, e } ); return v;
}
static int const leafs = 5;
// builds `prog` with part `part` on the real library and on the definitions
template<typename P, typename Part> static void program( Ctx& c, std::string const& name, unsigned uses, P const& prog, std::string const& part_name, Part const& part, Ok const& ok, bool kinked )
{
    Op<V> op; op.name = part_name + "(" + name + ")"; op.tol = 1e-9;
    op.build = [=]( std::vector<Any<V>> const& v ){ auto z = prog( ceras::complex{ v[0], v[1] }, ceras::complex{ v[2], v[3] }, v[4] ); return any<V>( part( z ) ); };
    op.f = [=]( Ts const& t ){ return part( prog( def::C{ t[0], t[1] }, def::C{ t[2], t[3] }, def::R{ t[4] } ) ).t; };
    auto modulus = [=]( Ts const& t ){ return def::abs( prog( def::C{ t[0], t[1] }, def::C{ t[2], t[3] }, def::R{ t[4] } ) ).t; };
    std::vector<Shapes3> seen;
    for ( auto const& g : grid( c ) )
    {
        Shapes3 s = g; if ( !( uses & 2 ) ) s.y = { 1 }; if ( !( uses & 4 ) ) s.e = { 1 };
        bool dup = false; for ( auto const& q : seen ) dup = dup || ( q.x == s.x && q.y == s.y && q.e == s.e ); if ( dup || !ok( s ) ) continue; seen.push_back( s );
        for ( int signs = 0; signs < 4; ++signs )
            c.test( op.name + "|" + ref::str( s.x ) + "," + ref::str( s.y ) + "," + ref::str( s.e ) + "|signs " + std::to_string( signs ), [&]
            {
                fresh_session<V>(); ref::Shape const sh[leafs] = { s.x, s.x, s.y, s.y, s.e };
                std::vector<Operand<V>> in; std::vector<Any<V>> ex;
                for ( int k = 0; k < leafs; ++k )
                {
                    ref::T t = round_to<V>( ref::fill( sh[k], k*3+signs*5+1 ) ); if ( signs ) for ( unsigned long i = 0; i < t.size(); ++i ) t[i] = std::fabs( t[i] )*( k == 4 ? 1 : ( signs & ( 1 << ( k&1 ) ) ) ? -1 : 1 );
                    in.emplace_back( t, signs == 2 && k > 1 ? placeholder_leaf : signs == 3 && k == 4 ? constant_leaf : variable_leaf ); ex.push_back( in.back().ex );
                }
                auto e = op.build( ex ); double const ts = sizeof( V ) == 4 ? 3e4 : 1; int what = sizeof( V ) == 4 ? FWD : FWD|BWD;
                { Ts t; for ( auto& i : in ) t.push_back( i.value() ); for ( double z : modulus( t ).v ) if ( z < 1e-2 ) what = FWD; }      // abs and arg have no derivative at zero
                check_once( c, op, e, in, what, 3, ts );
                check_once( c, op, e, in, what, 8, ts, "second run", "again:" );
                // at the sign patterns with zeros the value is compared only
                if ( kinked ) return;
                for ( auto& i : in ) if ( i.kind != constant_leaf ) { ref::T t = i.value(); for ( unsigned long k = 0; k < t.size(); ++k ) if ( ( k+signs )%3 == 0 ) t[k] = 0; i.set( t ); }
                check_once( c, op, e, in, FWD, 3, ts, "with zeros", "zeros:" );
            } );
    }
}
template<typename P> static void parts( Ctx& c, std::string const& name, unsigned uses, P const& prog, Ok const& ok )
{
    program( c, name, uses, prog, "real", []( auto const& z ){ return real( z ); }, ok, false );
    program( c, name, uses, prog, "imag", []( auto const& z ){ return imag( z ); }, ok, false );
    program( c, name, uses, prog, "abs", []( auto const& z ){ return abs( z ); }, ok, false );
    program( c, name, uses, prog, "norm", []( auto const& z ){ return norm( z ); }, ok, false );
    program( c, name, uses, prog, "arg", []( auto const& z ){ return arg( z ); }, ok, true );
    program( c, name, uses, prog, "real*imag", []( auto const& z ){ return hadamard_product( real( z ), imag( z ) ); }, ok, false );
    program( c, name, uses, prog, "real+imag", []( auto const& z ){ return real( z ) + imag( z ); }, ok, false );
}
static void explore( Ctx& c )
{
    auto all = []( Shapes3 const& ){ return true; };
    auto xy = []( Shapes3 const& s ){ return bc( s.x, s.y ); }; auto xe = []( Shapes3 const& s ){ return eq( s.x, s.e ); };
    auto mxy = []( Shapes3 const& s ){ return mm( s.x, s.y ); }; auto mxe = []( Shapes3 const& s ){ return mm( s.x, s.e ); }; auto mex = []( Shapes3 const& s ){ return mm( s.e, s.x ); };
    auto sq = []( Shapes3 const& s ){ return mm( s.x, s.x ); }; auto sqy = []( Shapes3 const& s ){ return mm( s.x, s.x ) && s.x == s.y; }; auto sqe = []( Shapes3 const& s ){ return mm( s.x, s.x ) && s.x == s.e; };
    auto xyx = []( Shapes3 const& s ){ return mm( s.x, s.y ) && mm( s.y, s.x ); };
#define P( uses, ok, ... ) parts( c, #__VA_ARGS__, uses, []( auto const& x, auto const& y, auto const& e ){ return __VA_ARGS__; }, ok )
#if GROUP == 1
    P( 1, all, x ); P( 3, mxy, x*y ); P( 1, all, x-conj( x ) ); P( 3, mxy, conj( x*y ) ); P( 5, sqe, e*x*e ); P( 5, xe, conj( e+x )-e );
#elif GROUP == 2
    P( 1, all, +x ); P( 5, xe, x+e ); P( 1, sq, x*x ); P( 3, mxy, -(x*y) ); P( 5, sqe, x*e-e*x ); P( 5, xe, polar( e, arg( x ) )-x );
#elif GROUP == 3
    P( 1, all, -x ); P( 5, xe, e+x ); P( 1, sq, x*conj( x ) ); P( 3, mxy, (-x)*(+y) ); P( 5, sqe, e-x*x );
#elif GROUP == 4
    P( 1, all, conj( x ) ); P( 5, xe, x-e ); P( 3, xy, conj( x )+y ); P( 3, sqy, x*y+x ); P( 5, sqe, (e-x)*(x-e) );
#elif GROUP == 5
    P( 1, all, polar( real( x ), imag( x ) ) ); P( 5, xe, e-x ); P( 3, xy, x-(-y) ); P( 3, sqy, x*y-y*x ); P( 7, []( Shapes3 const& s ){ return mm( s.x, s.y ) && mm( s.e, s.x ); }, e*x*y );
#elif GROUP == 6
    P( 1, all, polar( abs( x ), arg( x ) ) ); P( 5, mxe, x*e ); P( 3, xy, conj( x-y ) ); P( 3, sqy, (x+y)*(x-y) ); P( 7, []( Shapes3 const& s ){ return mm( s.x, s.e ) && mm( s.e, s.y ); }, x*(e*y) );
#elif GROUP == 7
    P( 3, xy, x+y ); P( 5, mex, e*x ); P( 3, mxy, conj( x )*y ); P( 3, sqy, x*x-y*y ); P( 7, []( Shapes3 const& s ){ return s.x == s.e && bc( s.x, s.y ); }, (e-x)+y );
#elif GROUP == 8
    P( 3, xy, x-y ); P( 1, all, x+x ); P( 3, mxy, x*conj( y ) ); P( 3, xyx, x*y*x ); P( 5, xe, e-(e-x) );
#endif
}
MC_MAIN( explore )
