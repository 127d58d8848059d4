// Plain reference tensors and helpers shared by the harnesses.  Deliberately boring: index arithmetic spelled out,
// no code shared with ceras.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include "mc.hpp"
#include <vector>
#include <string>
#include <cmath>
#include <algorithm>
#include <limits>

namespace ref
{
    typedef std::vector<unsigned long> Shape;

    inline unsigned long prod( Shape const& s ) { unsigned long p = 1; for ( auto x : s ) p *= x; return p; }
    inline std::string str( Shape const& s ) { std::string o; for ( std::size_t i = 0; i < s.size(); ++i ) { if ( i ) o += "x"; o += std::to_string( s[i] ); } return s.empty() ? "scalar" : o; }

    struct T
    {
        Shape shape; std::vector<double> v;
        T() {}
        T( Shape const& s, double x = 0 ) : shape( s ), v( prod(s), x ) {}
        T( Shape const& s, std::vector<double> const& d ) : shape( s ), v( d ) {}
        unsigned long size() const { return v.size(); }
        double& operator[]( unsigned long i ) { return v[i]; }
        double operator[]( unsigned long i ) const { return v[i]; }
        template<typename F> T map( F f ) const { T r = *this; for ( auto& x : r.v ) x = f( x ); return r; }
    };

    inline std::string str( T const& t )
    {
        std::ostringstream o; o.precision( 12 ); o << "[" << str( t.shape ) << "]{"; for ( std::size_t i = 0; i < t.v.size() && i < 40; ++i ) o << (i?" ":"") << t.v[i]; if ( t.v.size() > 40 ) o << " ..."; o << "}"; return o.str();
    }

    // row-major unravel / ravel
    inline std::vector<unsigned long> unravel( unsigned long i, Shape const& s )
    {
        std::vector<unsigned long> r( s.size() );
        for ( long d = (long)s.size()-1; d >= 0; --d ) { r[d] = i % s[d]; i /= s[d]; }
        return r;
    }
    inline unsigned long ravel( std::vector<unsigned long> const& ix, Shape const& s )
    {
        unsigned long r = 0; for ( std::size_t d = 0; d < s.size(); ++d ) r = r*s[d] + ix[d]; return r;
    }

    // numpy broadcasting; returns false if incompatible
    inline bool bshape( Shape a, Shape b, Shape& out )
    {
        while ( a.size() < b.size() ) a.insert( a.begin(), 1 );
        while ( b.size() < a.size() ) b.insert( b.begin(), 1 );
        out.clear();
        for ( std::size_t i = 0; i < a.size(); ++i )
        {
            if ( a[i] != b[i] && a[i] != 1 && b[i] != 1 ) return false;
            out.push_back( std::max( a[i], b[i] ) );
        }
        return true;
    }
    inline double bget( T const& t, Shape const& out, std::vector<unsigned long> const& ix )
    {
        std::size_t off = out.size() - t.shape.size();
        std::vector<unsigned long> j( t.shape.size() );
        for ( std::size_t d = 0; d < t.shape.size(); ++d ) j[d] = t.shape[d] == 1 ? 0 : ix[d+off];
        return t.v[ ravel( j, t.shape ) ];
    }
    template<typename F> T bop( T const& a, T const& b, F f )
    {
        Shape s; bshape( a.shape, b.shape, s );
        T r( s );
        for ( unsigned long i = 0; i < r.size(); ++i ) { auto ix = unravel( i, s ); r[i] = f( bget( a, s, ix ), bget( b, s, ix ) ); }
        return r;
    }
    // sum a gradient of shape out down to the shape of an operand that was broadcast
    inline T unbroadcast( T const& g, Shape const& s )
    {
        T r( s );
        std::size_t off = g.shape.size() - s.size();
        for ( unsigned long i = 0; i < g.size(); ++i )
        {
            auto ix = unravel( i, g.shape );
            std::vector<unsigned long> j( s.size() );
            for ( std::size_t d = 0; d < s.size(); ++d ) j[d] = s[d] == 1 ? 0 : ix[d+off];
            r[ ravel( j, s ) ] += g[i];
        }
        return r;
    }

    inline bool close( double a, double b, double tol )
    {
        if ( std::isnan( a ) || std::isnan( b ) ) return std::isnan( a ) && std::isnan( b );
        if ( std::isinf( a ) || std::isinf( b ) ) return a == b;
        return std::fabs( a-b ) <= tol * std::max( { 1.0, std::fabs(a), std::fabs(b) } );
    }
    inline bool close( T const& a, T const& b, double tol )
    {
        if ( a.shape != b.shape || a.v.size() != b.v.size() ) return false;
        for ( std::size_t i = 0; i < a.v.size(); ++i ) if ( !close( a.v[i], b.v[i], tol ) ) return false;
        return true;
    }

    // deterministic value patterns: every entry distinct and "generic", so that a wrong index or sign is visible
    inline double generic( unsigned long i, unsigned long salt )
    {
        double x = std::fmod( std::sqrt( 2.0 + i*3.0 + salt*7.0 ) * 1.6180339887 + 0.37*i + 0.11*salt, 2.0 ) - 1.0;  // (-1,1)
        x *= 1.0 + 0.013*i;
        if ( std::fabs( x ) < 0.05 ) x += x < 0 ? -0.07 : 0.07;     // keep away from kinks at 0
        return x;
    }
    inline T fill( Shape const& s, unsigned long salt, double scale = 1.0, double shift = 0.0 )
    {
        T r( s ); for ( unsigned long i = 0; i < r.size(); ++i ) r[i] = generic( i, salt )*scale + shift; return r;
    }
    inline T fill_pos( Shape const& s, unsigned long salt, double lo = 0.3, double hi = 2.3 )
    {
        T r( s ); for ( unsigned long i = 0; i < r.size(); ++i ) { double x = std::fmod( std::fabs( generic( i, salt ) ), 1.0 ); r[i] = lo + (hi-lo)*x; } return r;
    }

    // all shapes of rank 1..max_rank with dims in [1..max_dim]
    inline std::vector<Shape> shapes( unsigned max_rank, unsigned long max_dim, unsigned min_rank = 1 )
    {
        std::vector<Shape> out, cur{ {} };
        for ( unsigned r = 1; r <= max_rank; ++r )
        {
            std::vector<Shape> nxt;
            for ( auto const& s : cur ) for ( unsigned long d = 1; d <= max_dim; ++d ) { auto t = s; t.push_back( d ); nxt.push_back( t ); }
            cur = nxt;
            if ( r >= min_rank ) for ( auto const& s : cur ) out.push_back( s );
        }
        return out;
    }

    inline mc::u64 hash( T const& t, mc::u64 h = 7 )
    {
        for ( auto d : t.shape ) h = mc::mix( h, d );
        h = mc::mix( h, 0xabcd );
        for ( auto x : t.v ) { if ( x == 0 ) x = 0; double r = std::round( x*1e6 )/1e6; mc::u64 b; std::memcpy( &b, &r, 8 ); h = mc::mix( h, b ); }
        return h;
    }
}
#endif
