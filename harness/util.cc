// C26: ranges, enumeration, reversal, strided iteration, views (GROUP 1); strings, numbers as text, formatted text (GROUP 2);
// file-name patterns (GROUP 3); small containers, cached contexts, ordering of place holders (GROUP 4).
#include "ops.hpp"
#include "utils/enumerate.hpp"
#include "utils/reverse.hpp"
#include "utils/stride_iterator.hpp"
#include "utils/view.hpp"
#include "utils/string.hpp"
#include "utils/float32.hpp"
#include "utils/lexical_cast.hpp"
#include "utils/overload.hpp"
#include "utils/context_cast.hpp"
#include "utils/type2string.hpp"
#include "utils/tqdm.hpp"
#include "utils/3rd_party/glob.hpp"
#include <deque>
#include <list>
#include <set>
#include <map>
#include <fstream>
#include <numeric>
using namespace mc;
template<typename I> static std::string str( std::vector<I> const& v ) { std::ostringstream o; for ( auto const& x : v ) o << x << " "; return o.str(); }
template<typename A> static void equal( Ctx& c, std::vector<A> const& got, std::vector<A> const& want, std::string const& tag, std::string const& w = "" ) { c.check( got == want, tag, [&]{ return w + " got " + str( got ) + "instead of " + str( want ); } ); c.trans( want.size()+1 ); c.state( hash_str( tag + w + str( want ) ) ); }

#if GROUP == 1
template<typename T> static void ranges( Ctx& c, char const* type, long lo, long hi )
{
    for ( long a = lo; a <= hi; ++a ) for ( long b = a; b <= hi; ++b ) c.test( std::string( "range|" ) + type + "|" + std::to_string( a ) + "|" + std::to_string( b ), [&]
    {
        T const f = (T)a, l = (T)b; std::vector<long> want; for ( long x = a; x < b; ++x ) want.push_back( x ); std::string const w = type; std::vector<long> got;
        for ( auto x : ceras::range( f, l ) ) got.push_back( (long)x ); equal( c, got, want, "range(first,last)", w );
        if ( a == 0 ) { got.clear(); for ( auto x : ceras::range( l ) ) got.push_back( (long)x ); equal( c, got, want, "range(last)", w ); }
        auto const r = ceras::range( f, l ); got.clear(); for ( auto i = r.cbegin(); i != r.cend(); i++ ) got.push_back( (long)*i ); equal( c, got, want, "cbegin, cend", w );
        c.check( ( r.begin() == r.end() ) == ( a == b ), "empty range", w );
        // moving an iterator by n is n increments; the postfix operator gives the old one
        for ( long n = 0; n <= b-a; ++n ) { auto i = r.begin()+n, j = n+r.begin(), k = r.begin(); k += n; c.check( (long)*i == a+n && (long)*j == a+n && (long)*k == a+n, "advanced iterator", w ); if ( n < b-a ) { auto old = i++; c.check( (long)*old == a+n && (long)*i == a+n+1, "postfix increment", w ); } c.check( ( i == r.end() ) == ( n >= b-a-1 ), "advanced iterator at the end", w ); }
        for ( long s = 1; s <= 4; ++s )
        {
            auto const next = [s]( T x ){ return (T)( x+s ); }; want.clear(); for ( long x = a; x < b; x += s ) want.push_back( x );
            if ( ( b-a )%s == 0 ) { got.clear(); for ( auto x : ceras::range( f, l, next ) ) got.push_back( (long)x ); equal( c, got, want, "range(first,last,step)", w ); }
            got.clear(); if ( (unsigned long)( b+s ) <= (unsigned long)std::numeric_limits<T>::max() || b < 0 ) { for ( auto x : ceras::range( f, l, next, []( T x, T y ){ return x >= y; } ) ) got.push_back( (long)x ); equal( c, got, want, "range(first,last,step,end)", w ); }
            // downwards
            if ( ( b-a )%s == 0 ) { want.clear(); for ( long x = b; x > a; x -= s ) want.push_back( x ); got.clear(); for ( auto x : ceras::range( l, f, [s]( T x ){ return (T)( x-s ); } ) ) got.push_back( (long)x ); equal( c, got, want, "range downwards", w ); }
        }
    } );
}
template<typename C> static void enumerations( Ctx& c, char const* type )
{
    for ( long n = 0; n <= 7; ++n ) for ( int salt = 0; salt < 3; ++salt ) c.test( std::string( "enumerate|" ) + type + "|" + std::to_string( n ) + "|" + std::to_string( salt ), [&]
    {
        C v; for ( long i = 0; i < n; ++i ) v.push_back( ( i*7+salt*3 )%5 ); C const k = v; std::vector<long> want, back;
        { long i = 0; for ( auto x : v ) { want.push_back( i++ ); want.push_back( x ); } } { std::vector<long> e( v.begin(), v.end() ); for ( long i = n; i-- > 0; ) back.push_back( e[i] ); }
        std::vector<long> got; for ( auto [i, x] : ceras::enumerate( v ) ) { got.push_back( i ); got.push_back( x ); } equal( c, got, want, "enumerate", type );
        got.clear(); for ( auto [i, x] : ceras::enumerate( k ) ) { got.push_back( i ); got.push_back( x ); } equal( c, got, want, "enumerate constant", type );
        got.clear(); for ( auto const& [i, x] : ceras::enumerate( C( k ) ) ) { got.push_back( i ); got.push_back( x ); } equal( c, got, want, "enumerate temporary", type );
        c.check( v == k, "enumerate changed the container", type );
        got.clear(); for ( auto x : ceras::reverse( v ) ) got.push_back( x ); equal( c, got, back, "reverse", type );
        got.clear(); for ( auto const& x : ceras::reverse( k ) ) got.push_back( x ); equal( c, got, back, "reverse constant", type ); c.check( v == k, "reverse changed the container", type );
        long m = 100; for ( auto& x : ceras::reverse( v ) ) x = m++; got.assign( v.begin(), v.end() ); std::vector<long> w; for ( long i = n; i-- > 0; ) w.push_back( 100+i ); equal( c, got, w, "written through reverse", type );
    } );
}
static void strides( Ctx& c )
{
    for ( long step : { 1, 2, 3, 5, -1, -2, -3 } ) for ( long n = 0; n <= 6; ++n ) c.test( "stride|" + std::to_string( step ) + "|" + std::to_string( n ), [&]
    {
        long const s = std::abs( step ), len = std::max( 1L, n*s+1 ); std::vector<long> data( len ); for ( long i = 0; i < len; ++i ) data[i] = i*11+3; std::vector<long> const before = data;
        typedef ceras::stride_iterator<long*> I; long* const first = step > 0 ? data.data() : data.data()+n*s; auto at = [&]( long k ){ return ( first-data.data()+k*step ); };
        I const b( first, step ), e = b+n; std::vector<long> want, got; for ( long k = 0; k < n; ++k ) want.push_back( before[at( k )] ); std::string const w = std::to_string( step )+","+std::to_string( n );
        for ( I i = b; i != e; ++i ) got.push_back( *i ); equal( c, got, want, "forwards", w ); got.clear(); for ( I i = b; i != e; i++ ) got.push_back( *i ); equal( c, got, want, "postfix", w );
        got.clear(); for ( I i = e; i != b; ) got.push_back( *--i ); std::reverse( got.begin(), got.end() ); equal( c, got, want, "backwards", w );
        c.check( e-b == n && b-e == -n, "difference", [&]{ return w + ": " + std::to_string( e-b ); } );
        for ( long p = 0; p <= n; ++p ) for ( long q = 0; q <= n; ++q )
        {
            I i = b+p, j = p+b, k = b; k += p; I l = e-( n-p ); I m = e; m -= n-p; c.check( i == j && i == k && i == l && i == m, "position", w ); I const x = b+q;
            c.check( ( i == x ) == ( p == q ) && ( i != x ) == ( p != q ) && x-i == q-p, "comparison", w ); if ( step > 0 ) c.check( ( i < x ) == ( p < q ) && ( i <= x ) == ( p <= q ) && ( i > x ) == ( p > q ) && ( i >= x ) == ( p >= q ), "order", w );
            if ( q < n ) { c.check( i[q-p] == before[at( q )] && *x == before[at( q )], "element", w ); auto const& ci = i; c.check( ci[q-p] == before[at( q )], "element of a constant", w ); }
            I y = x; I const old = y--; c.check( old == x && y+1 == x, "postfix decrement", w );
        }
        // algorithms see only the elements of the stride
        if ( step > 0 ) { c.check( std::accumulate( b, e, 0L ) == std::accumulate( want.begin(), want.end(), 0L ) && std::distance( b, e ) == n, "accumulate, distance", w ); for ( I i = b; i != e; ++i ) *i = -*i; std::sort( b, e ); std::vector<long> model = before; for ( long k = 0; k < n; ++k ) model[at( k )] = -before[at( n-1-k )]; equal( c, data, model, "sorted through the stride", w ); }
    } );
}
template<typename V> static void order2( Ctx& c, V& v, std::vector<long> const& d, long r, long k, std::string const& w )
{
    std::vector<long> got; for ( long i = 0; i < r; ++i ) for ( long j = 0; j < k; ++j ) got.push_back( v[i][j] ); equal( c, got, d, "elements of a 2-D view", w );
}
static void views( Ctx& c )
{
    auto filled = []( long n ){ std::vector<long> d( n ); for ( long i = 0; i < n; ++i ) d[i] = i*13+7; return d; };
    for ( long r = 1; r <= 4; ++r ) for ( long k = 1; k <= 4; ++k ) c.test( "view|" + std::to_string( r ) + "x" + std::to_string( k ), [&]
    {
        std::vector<long> d = filled( r*k ); std::vector<long> const before = d; std::string const w = std::to_string( r )+"x"+std::to_string( k ); std::vector<long> got;
        { ceras::view_1d<long> v{ d.data(), (unsigned long)( r*k ) }; auto const& cv = v; got.clear(); for ( long i = 0; i < r*k; ++i ) { got.push_back( v[i] ); c.check( cv[i] == v[i], "constant 1-D view", w ); } equal( c, got, d, "elements of a 1-D view", w ); v[r*k-1] = 5; c.check( d[r*k-1] == 5, "write through a 1-D view", w ); d = before; }
        ceras::view_2d<long> v{ d.data(), (unsigned long)r, (unsigned long)k }; ceras::view<long, 2> v2{ d.data(), (unsigned long)r, (unsigned long)k }; ceras::matrix_view<long> v3{ const_cast<long const*>( d.data() ), (unsigned long)r, (unsigned long)k }; ceras::tensor<long> t{ { (unsigned long)r, (unsigned long)k } }; std::copy( d.begin(), d.end(), t.data() ); ceras::view_2d<long> v4{ t, (unsigned long)r, (unsigned long)k };
        order2( c, v, d, r, k, w ); order2( c, v2, d, r, k, w ); order2( c, v3, d, r, k, w ); order2( c, v4, d, r, k, w ); { auto const& cv = v; order2( c, cv, d, r, k, w ); }
        // the transposed view of a matrix holds the matrix by columns: row i of the memory has as many elements as the matrix has rows
        ceras::view_2d<long> vt{ d.data(), (unsigned long)r, (unsigned long)k, true }; for ( long i = 0; i < r; ++i ) for ( long j = 0; j < k; ++j ) c.check( vt[j][i] == d[j*r+i], "transposed view", w );
        auto const sh = v.shape(); c.check( sh.first == (unsigned long)r && sh.second == (unsigned long)k && v.size() == (unsigned long)( r*k ) && v.row() == (unsigned long)r && v.col() == (unsigned long)k && v.data() == d.data(), "size of a 2-D view", w );
        got.clear(); for ( auto p = v.begin(); p != v.end(); ++p ) got.push_back( *p ); equal( c, got, d, "walk over a 2-D view", w );
        for ( long i = 0; i < r; ++i ) { got.assign( v.row_begin( i ), v.row_end( i ) ); equal( c, got, std::vector<long>( d.begin()+i*k, d.begin()+( i+1 )*k ), "row", w ); }
        for ( long j = 0; j < k; ++j ) { got.clear(); for ( auto p = v.col_begin( j ); p != v.col_end( j ); ++p ) got.push_back( *p ); std::vector<long> want; for ( long i = 0; i < r; ++i ) want.push_back( d[i*k+j] ); equal( c, got, want, "column", w ); c.check( v.col_end( j )-v.col_begin( j ) == r, "length of a column", w ); }
        { auto const& cv = v; c.check( cv.data() == d.data() && cv.size() == (unsigned long)( r*k ), "constant view", w );
          got.clear(); for ( auto p = cv.begin(); p != cv.end(); ++p ) got.push_back( *p ); equal( c, got, d, "walk over a constant view", w );
          for ( long i = 0; i < r; ++i ) { got.assign( cv.row_begin( i ), cv.row_end( i ) ); equal( c, got, std::vector<long>( d.begin()+i*k, d.begin()+( i+1 )*k ), "row of a constant view", w ); }
          for ( long j = 0; j < k; ++j ) { got.clear(); for ( auto p = cv.col_begin( j ); p != cv.col_end( j ); ++p ) got.push_back( *p ); std::vector<long> want; for ( long i = 0; i < r; ++i ) want.push_back( d[i*k+j] ); equal( c, got, want, "column of a constant view", w ); } }
        // every write reaches exactly its element
        for ( long i = 0; i < r; ++i ) for ( long j = 0; j < k; ++j ) { d = before; v[i][j] = -1; std::vector<long> m = before; m[i*k+j] = -1; equal( c, d, m, "write through a 2-D view", w ); d = before; *( v.col_begin( j )+i ) = -2; m[i*k+j] = -2; equal( c, d, m, "write through a column", w ); d = before; v.row_begin( i )[j] = -3; m[i*k+j] = -3; equal( c, d, m, "write through a row", w ); }
        d = before; for ( long j = 0; j < k; ++j ) std::sort( v.col_begin( j ), v.col_end( j ), []( long x, long y ){ return x > y; } ); std::vector<long> m; for ( long i = 0; i < r; ++i ) for ( long j = 0; j < k; ++j ) m.push_back( before[( r-1-i )*k+j] ); equal( c, d, m, "columns sorted", w );
        for ( long h = 1; h <= 3; ++h )
        {
            std::vector<long> e = filled( h*r*k ); ceras::view_3d<long> u{ e.data(), (unsigned long)h, (unsigned long)r, (unsigned long)k }; ceras::view<long, 3> u2{ e.data(), (unsigned long)h, (unsigned long)r, (unsigned long)k }; auto const& cu = u; got.clear();
            for ( long a = 0; a < h; ++a ) for ( long i = 0; i < r; ++i ) for ( long j = 0; j < k; ++j ) { got.push_back( u[a][i][j] ); c.check( u2[a][i][j] == u[a][i][j] && cu[a][i][j] == u[a][i][j], "3-D view", w ); } equal( c, got, e, "elements of a 3-D view", w ); u[h-1][0][k-1] = -9; c.check( e[( h-1 )*r*k+k-1] == -9, "write through a 3-D view", w );
            for ( long b = 1; b <= 2; ++b )
            {
                std::vector<long> f = filled( b*h*r*k ); std::array<unsigned long, 4> const s4{ (unsigned long)b, (unsigned long)h, (unsigned long)r, (unsigned long)k }; ceras::view_4d<long> x{ f.data(), s4[0], s4[1], s4[2], s4[3] }; ceras::view<long, 4> x2{ f.data(), s4 }; auto const& cx = x; got.clear();
                for ( long q = 0; q < b; ++q ) for ( long a = 0; a < h; ++a ) for ( long i = 0; i < r; ++i ) for ( long j = 0; j < k; ++j ) { got.push_back( x[q][a][i][j] ); c.check( x2[q][a][i][j] == got.back() && cx[q][a][i][j] == got.back(), "4-D view", w ); } equal( c, got, f, "elements of a 4-D view", w ); x[b-1][h-1][r-1][0] = -8; c.check( f[b*h*r*k-k] == -8, "write through a 4-D view", w );
                for ( unsigned long o = 1; o <= 2; ++o )
                {
                    std::vector<long> g = filled( 2*o*b*h*r*k ); ceras::view<long, 5> y{ g.data(), { o, s4[0], s4[1], s4[2], s4[3] } }; ceras::view<long, 6> z{ g.data(), { 2, o, s4[0], s4[1], s4[2], s4[3] } }; auto const& cz = z; long n = 0; bool ok = true;
                    for ( unsigned long p = 0; p < 2; ++p ) for ( unsigned long q = 0; q < o; ++q ) for ( unsigned long a = 0; a < s4[0]; ++a ) for ( unsigned long l = 0; l < s4[1]; ++l ) for ( unsigned long i = 0; i < s4[2]; ++i ) for ( unsigned long j = 0; j < s4[3]; ++j, ++n ) { ok = ok && z[p][q][a][l][i][j] == g[n] && cz[p][q][a][l][i][j] == g[n] && ( p || y[q][a][l][i][j] == g[n] ); }
                    c.check( ok, "elements of a view of many dimensions", w ); c.trans( n ); z[1][o-1][0][0][r-1][k-1] = -7; c.check( g[( ( ( 1*o+o-1 )*b*h )*r+r-1 )*k+k-1] == -7, "write through a view of many dimensions", w );
                    c.check( rejects( [&]{ (void)z[2]; } ) && rejects( [&]{ (void)y[o]; } ) && rejects( [&]{ (void)cz[7]; } ), "index past the end of a view is accepted", w );
                }
            }
        }
    } );
}
static void explore( Ctx& c )
{
    ranges<int>( c, "int", -5, 6 ); ranges<long>( c, "long", -3, 6 ); ranges<short>( c, "short", -3, 4 ); ranges<unsigned long>( c, "unsigned long", 0, 9 ); ranges<unsigned char>( c, "unsigned char", 0, 7 ); ranges<unsigned char>( c, "unsigned char", 250, 255 ); ranges<unsigned int>( c, "unsigned int", 4294967290, 4294967295 ); ranges<double>( c, "double", -2, 5 );
    if ( c.thorough ) { ranges<int>( c, "int", -20, 20 ); ranges<unsigned long>( c, "unsigned long", 0, 64 ); }
    enumerations<std::vector<long>>( c, "vector" ); enumerations<std::deque<long>>( c, "deque" ); enumerations<std::list<long>>( c, "list" ); strides( c ); views( c );
}
#elif GROUP == 2
template<unsigned N> struct named { };
template<ceras::string S> static std::string text_of() { return std::string( (char const*)S ); }
template<ceras::float32 F> static float number_of() { constexpr float f = F; return f; }
static void words( std::string const& alphabet, unsigned long len, std::vector<std::string>& out ) { out.push_back( "" ); for ( unsigned long b = 0, n = 1, l = 0; l < len; ++l ) { unsigned long const m = out.size(); (void)n; for ( unsigned long i = b; i < m; ++i ) for ( char ch : alphabet ) out.push_back( out[i]+ch ); b = m; } }
template<unsigned N> static void one_string( Ctx& c, std::string const& s ) { if ( s.size() != N ) return; ceras::string<N> const x( s.c_str() ); c.check( std::string( (char const*)x ) == s && std::strlen( (char const*)x ) == N, "string", s ); c.check( (std::string)x == s, "string as std::string", s ); c.trans( 1 ); c.state( hash_str( s ) ); }
template<unsigned N> static void one_number( Ctx& c, std::string const& s ) { if ( s.size() != N ) return; ceras::float32<N> const x( s.c_str() ); float const got = x, want = strtof( s.c_str(), nullptr ); c.check( std::fabs( got-want ) <= 1e-5*std::fabs( want )+1e-42, "float32", [&]{ return s + " is " + std::to_string( got ); } ); c.check( std::signbit( got ) == std::signbit( want ) || got == 0, "float32 sign", s ); c.trans( 1 ); c.state( hash_str( s ) ); }
template<unsigned... N> static void numbers( Ctx& c, std::string const& s, std::integer_sequence<unsigned, N...> ) { ( one_number<N>( c, s ), ... ); }
template<unsigned... N> static void strings( Ctx& c, std::string const& s, std::integer_sequence<unsigned, N...> ) { ( one_string<N>( c, s ), ... ); }
template<typename... A> static std::string formatted( std::string const& f, std::vector<std::string> const& args )
{
    bool const plain = f.find( "{}" ) != std::string::npos; std::string r; unsigned long next = 0;
    for ( unsigned long i = 0; i < f.size(); )
    {
        if ( plain && f.compare( i, 2, "{}" ) == 0 ) { r += next < args.size() ? args[next] : std::string( "{}" ); ++next; i += 2; continue; }
        if ( !plain && f[i] == '{' ) { auto const e = f.find( '}', i ); if ( e != std::string::npos && e > i+1 && f.find_first_not_of( "0123456789", i+1 ) == e ) { unsigned long const k = std::stoul( f.substr( i+1, e-i-1 ) ); if ( k < args.size() && std::to_string( k ) == f.substr( i+1, e-i-1 ) ) { r += args[k]; i = e+1; continue; } } }
        r += f[i++];
    }
    return r;
}
struct Pair { int x; double y; };
static void explore( Ctx& c )
{
    c.test( "string|pairs", [&]{ std::vector<std::string> w; words( "ab", c.thorough ? 6 : 4, w ); for ( auto const& a : w ) for ( auto const& b : w ) { c.check( ceras::string_equal( a.c_str(), b.c_str() ) == ( a == b ), "string_equal", a+","+b ); c.trans( 1 ); } c.state( w.size() ); } );
    c.test( "string|all", [&]{ std::vector<std::string> w; words( "aZ 0\t", 5, w ); for ( auto const& a : w ) strings( c, a, std::make_integer_sequence<unsigned, 6>{} ); } );
    c.test( "string|parameter", [&]{ c.check( text_of<"">() == "" && text_of<"a">() == "a" && text_of<"hello, world">() == "hello, world" && text_of<"Tensor">() == "Tensor", "string as a template parameter", "" ); constexpr ceras::string s{ "abc" }; static_assert( ceras::string_equal( s, "abc" ) && !ceras::string_equal( s, "abd" ) ); c.trans( 4 ); c.state( 1 ); } );
    {
        std::vector<std::string> const signs{ "", "-", "+" }, ints{ "0", "1", "7", "12", "305", "16777217", "007", "" }, fracs{ "", ".", ".0", ".5", ".25", ".001", ".333333", ".10203" }, exps{ "", "e0", "e1", "e-1", "E5", "e+7", "e-12", "e12", "E-30", "e30" }; std::vector<std::string> const lead{ "", " ", "   " };
        for ( auto const& s : signs ) for ( auto const& i : ints ) c.test( "float32|" + s + "|" + i, [&]{ for ( auto const& f : fracs ) for ( auto const& e : exps ) for ( auto const& l : lead ) if ( !( i.empty() && f.size() < 2 ) ) numbers( c, l+s+i+f+e, std::make_integer_sequence<unsigned, 24>{} ); } );
        c.test( "float32|long", [&]{ for ( auto const& s : { "3.141592653589793238462643383279502884197169399", "0.000000000000000000000000000000000000000000001e44", "100000000000000000000000000000000000000000000e-40", "-123456789012345678901234567890123456789012345e-44" } ) { float const got = ceras::details::string2float32( s ), want = strtof( s, nullptr ); c.check( std::fabs( got-want ) <= 1e-5*std::fabs( want ), "float32 of a long literal", [&]{ return std::string( s ) + " is " + std::to_string( got ); } ); c.trans( 1 ); } c.state( 2 ); } );
        c.test( "float32|parameter", [&]{ c.check( number_of<"1.0">() == 1 && number_of<"-0.25">() == -0.25f && std::fabs( number_of<"1.5e3">()-1500 ) < 1e-2 && number_of<"0">() == 0, "float32 as a template parameter", "" ); c.trans( 4 ); c.state( 1 ); } );
    }
    // lexical_cast
    c.test( "cast|integers", [&]{ for ( long i = -1200; i <= 1200; ++i ) { auto const t = ceras::lexical_cast<std::string>( i ); c.check( t == std::to_string( i ), "integer as text", t ); c.check( ceras::lexical_cast<long>( t ) == i && ceras::lexical_cast<int>( t ) == i && ceras::lexical_cast<long>( "  "+t ) == i, "text as integer", t ); c.trans( 4 ); } for ( long i : { LONG_MIN, LONG_MAX, (long)INT_MIN, (long)INT_MAX } ) { auto const t = ceras::lexical_cast<std::string>( i ); c.check( t == std::to_string( i ) && ceras::lexical_cast<long>( t ) == i, "extreme integer", t ); } c.check( ceras::lexical_cast<unsigned long>( std::string( "18446744073709551615" ) ) == ~0UL, "extreme integer", "" ); c.state( 1 ); } );
    c.test( "cast|numbers", [&]{ for ( double x : { 0.0, 1.0, -1.5, 0.1, 123456.0, 1e-7, 1e20, -2.5e-300, 1e300 } ) { auto const t = ceras::lexical_cast<std::string>( x ); c.check( std::fabs( strtod( t.c_str(), nullptr )-x ) <= 1e-5*std::fabs( x ), "number as text", t ); c.check( ceras::lexical_cast<double>( t ) == strtod( t.c_str(), nullptr ), "text as number", t ); c.check( ceras::lexical_cast<double>( 3 ) == 3 && ceras::lexical_cast<int>( 7.0 ) == 7, "number as number", "" ); c.trans( 3 ); } c.check( ceras::lexical_cast<char>( std::string( "x" ) ) == 'x' && ceras::lexical_cast<std::string>( 'y' ) == "y", "character", "" ); c.state( 2 ); } );
    c.test( "cast|texts", [&]{ std::vector<std::string> w; words( "ab \n", 4, w ); for ( auto const& s : w ) { c.check( ceras::lexical_cast<std::string>( s ) == s, "text as text", [&]{ return "'"+s+"' is '"+ceras::lexical_cast<std::string>( s )+"'"; } ); c.check( ceras::lexical_cast<std::string>( s.c_str() ) == s, "characters as text", s ); c.trans( 2 ); c.state( hash_str( s ) ); } } );
    // formatted text
    std::vector<std::string> const tok{ "{}", "{0}", "{1}", "{2}", "a", " ", "{", "}", "{a}" }; int const depth = c.thorough ? 5 : 4;
    std::vector<std::string> const texts{ "x", "", "{}", "{0}", "{1}", "a b", "{", "}" };
    for ( unsigned long first = 0; first < tok.size(); ++first ) for ( unsigned long second = 0; second < tok.size(); ++second ) c.test( "format|" + tok[first] + tok[second], [&]
    {
        unsigned long all = 1; for ( int i = 2; i < depth; ++i ) all *= tok.size()+1;
        for ( unsigned long m = 0; m < all; ++m )
        {
            std::string f = tok[first]+tok[second]; for ( unsigned long k = m, i = 2; (int)i < depth; ++i, k /= tok.size()+1 ) if ( k%( tok.size()+1 ) ) f += tok[k%( tok.size()+1 )-1];
            auto judge = [&]( std::string const& got, std::vector<std::string> const& args ){ auto const want = formatted( f, args ); c.check( got == want, "format", [&]{ return "\"" + f + "\" with " + str( args ) + "gives \"" + got + "\" instead of \"" + want + "\""; } ); c.trans( 1 ); c.state( hash_str( want ) ); };
            judge( fmt::format( f ), {} ); judge( fmt::format( f, 7 ), { "7" } ); judge( fmt::format( f, -1, std::string( "q r" ), true ), { "-1", "q r", "true" } ); judge( fmt::format( f, 'c', 2.5, 3UL ), { "c", "2.5", "3" } );
            for ( auto const& a : texts ) { judge( fmt::format( f, a ), { a } ); for ( auto const& b : texts ) judge( fmt::format( f, a, b ), { a, b } ); }
        }
    } );
    c.test( "format|values", [&]
    {
        auto f = []( auto const& x ){ return fmt::format( "{}", x ); }; auto digits = []( std::string const& s ){ std::string r; for ( char ch : s ) r += isdigit( (unsigned char)ch ) || ch == '-' || ch == '.' ? ch : ' '; std::istringstream i( r ); std::vector<std::string> v; std::string w; while ( i >> w ) v.push_back( w ); return v; };
        for ( int ch = 32; ch < 127; ++ch ) if ( ch != '{' && ch != '}' ) c.check( f( (char)ch ) == std::string( 1, (char)ch ), "character", [&]{ return f( (char)ch ); } );
        c.check( f( true ) == "true" && f( false ) == "false" && f( "text" ) == "text" && f( std::string( "te xt" ) ) == "te xt", "text", "" );
        int x = 5; int* null = nullptr; c.check( f( &x ) == "<5>" && f( null ).find( "ull" ) != std::string::npos, "pointer", f( &x ) ); c.check( f( std::make_shared<int>( 6 ) ) == "6" && f( std::make_unique<int>( 8 ) ) == "8" && f( std::shared_ptr<int>{} ).find( "NULL" ) != std::string::npos, "smart pointer", "" );
        c.check( f( std::optional<int>{ 4 } ) == "4" && f( std::optional<int>{} ).find( "EMPTY" ) != std::string::npos && f( std::any{} ).find( "EMPTY" ) != std::string::npos && f( std::any{ 1 } ).find( "ANY" ) != std::string::npos, "optional", "" );
        c.check( f( std::make_pair( 1, 2 ) ) == "(1, 2)", "pair", f( std::make_pair( 1, 2 ) ) ); c.check( digits( f( std::make_tuple( 1, 2.5, 3L ) ) ) == std::vector<std::string>{ "1", "2.5", "3" }, "tuple", f( std::make_tuple( 1, 2.5, 3L ) ) ); c.check( digits( f( Pair{ 3, 0.5 } ) ) == std::vector<std::string>{ "3", "0.5" }, "aggregate", f( Pair{ 3, 0.5 } ) );
        for ( int n = 0; n <= 12; ++n ) { std::vector<int> v; std::vector<std::string> want; for ( int i = 0; i < n; ++i ) { v.push_back( i*37-100 ); if ( i < 8 ) want.push_back( std::to_string( v.back() ) ); } std::string const s = f( v ); auto got = digits( s ); if ( n > 8 ) { c.check( s.find( "..." ) != std::string::npos, "long container is not marked", s ); if ( !got.empty() ) got.pop_back(); } else c.check( s.find( "..." ) == std::string::npos, "container is marked", s ); c.check( got == want, "container", s ); std::list<int> l( v.begin(), v.end() ); c.check( f( l ) == s, "list", f( l ) ); c.check( f( std::deque<int>( v.begin(), v.end() ) ) == s, "deque", s ); c.trans( 3 ); }
        c.state( 1 );
    } );
    c.test( "types", [&]
    {
        using ceras::type2string;
        c.check( type2string<signed char>() == "signed char" && type2string<char>() == "char" && type2string<unsigned char>() == "unsigned char" && type2string<wchar_t>() == "wchar_t" && type2string<char16_t>() == "char16_t" && type2string<char32_t>() == "char32_t", "character types", "" );
        auto norm = []( std::string s ){ std::string r; std::istringstream i( s ); std::string w; std::multiset<std::string> m; while ( i >> w ) if ( w != "int" ) m.insert( w ); for ( auto const& x : m ) r += x + " "; return r; };
        c.check( norm( type2string<short>() ) == "short " && norm( type2string<unsigned short>() ) == "short unsigned " && type2string<int>() == "int" && norm( type2string<unsigned>() ) == "unsigned " && norm( type2string<long>() ) == "long " && norm( type2string<unsigned long>() ) == "long unsigned " && norm( type2string<long long>() ) == "long long " && norm( type2string<unsigned long long>() ) == "long long unsigned ", "integer types", "" );
        c.check( type2string<float>() == "float" && type2string<double>() == "double" && type2string<long double>() == "long double", "floating types", "" ); c.trans( 17 ); c.state( 1 );
    } );
}
#elif GROUP == 3
// a pattern is a sequence of tokens with a definition of their own
struct Tok { std::string text; int kind; std::string set; };      // kinds: 0 literal, 1 any text, 2 any character, 3 one of a set, 4 none of a set
static bool match( std::vector<Tok> const& p, unsigned long i, std::string const& s, unsigned long j )
{
    if ( i == p.size() ) return j == s.size(); auto const& t = p[i];
    if ( t.kind == 1 ) { for ( unsigned long k = j; k <= s.size(); ++k ) if ( match( p, i+1, s, k ) ) return true; return false; }
    if ( j == s.size() ) return false; bool const in = t.set.find( s[j] ) != std::string::npos;
    return ( t.kind == 2 || ( t.kind == 4 ? !in : in ) ) && match( p, i+1, s, j+1 );
}
static std::string text( std::vector<Tok> const& p ) { std::string r; for ( auto const& t : p ) r += t.text; return r; }
static std::vector<Tok> const toks{ { "*", 1, "" }, { "?", 2, "" }, { "a", 0, "a" }, { "b", 0, "b" }, { ".", 0, "." }, { "+", 0, "+" }, { "(", 0, "(" }, { "$", 0, "$" }, { "[ab]", 3, "ab" }, { "[!ab]", 4, "ab" }, { "[a-c]", 3, "abc" }, { "[!a-c]", 4, "abc" }, { "[b-c.]", 3, "bc." } };
namespace fs = std::filesystem;
static void explore( Ctx& c )
{
    std::vector<std::string> names; { std::string const al = "abcd.+($"; names.push_back( "" ); for ( unsigned long b = 0, l = 0; l < 3; ++l ) { unsigned long const m = names.size(); for ( unsigned long i = b; i < m; ++i ) for ( char ch : al ) names.push_back( names[i]+ch ); b = m; } names.erase( names.begin() ); names.push_back( "abcabc" ); names.push_back( "a.b.c" ); names.push_back( "ab-cd" ); }
    // all names of the model live in one directory; a pattern must list exactly the matching ones
    int const depth = c.thorough ? 3 : 2; bool ready = false;
    auto prepare = [&]{ if ( ready ) return; ready = true; fs::create_directory( "g" ); for ( auto const& n : names ) if ( n != "." && n != ".." ) std::ofstream( "g/"+n ) << n; };
    std::vector<std::vector<Tok>> ps; for ( auto const& a : toks ) { ps.push_back( { a } ); for ( auto const& b : toks ) { ps.push_back( { a, b } ); for ( auto const& d : toks ) if ( depth > 2 || &a < &toks[4] || &d < &toks[2] ) ps.push_back( { a, b, d } ); } }
    for ( auto const& a : toks ) c.test( "pattern|" + a.text, [&]
    {
        // a small directory in quick, all names in thorough
        std::vector<std::string> some; for ( unsigned long i = 0; i < names.size(); ++i ) if ( names[i] != "." && names[i] != ".." && names[i][0] != '.' && ( c.thorough || i%7 == 0 || names[i].size() < 3 || names[i].size() > 3 ) ) some.push_back( names[i] );
        std::string const d = "d." + std::to_string( hash_str( a.text )%100000 ); fs::create_directory( d ); for ( auto const& n : some ) std::ofstream( d+"/"+n ) << n;
        for ( auto const& p : ps ) if ( p[0].text == a.text && text( p ) != "." && text( p ) != ".." )
        {
            std::set<std::string> want, got; bool const magic = text( p ).find_first_of( "*?[" ) != std::string::npos; for ( auto const& n : some ) if ( magic ? match( p, 0, n, 0 ) : n == text( p ) ) want.insert( d+"/"+n );
            unsigned long k = 0; for ( auto const& f : glob::glob( d+"/"+text( p ) ) ) { got.insert( f.string() ); ++k; }
            c.check( got == want && k == want.size(), "pattern", [&]{ return text( p ) + " lists " + str( std::vector<std::string>( got.begin(), got.end() ) ) + "instead of " + str( std::vector<std::string>( want.begin(), want.end() ) ); } ); c.trans( some.size() ); c.state( hash_str( text( p ) ) );
        }
        for ( auto const& n : some ) fs::remove( d+"/"+n ); fs::remove( d );
    } );
    // a tree of directories: patterns in every part of the path, recursion, hidden entries, relative and absolute names
    std::vector<std::string> const dirs{ "t", "t/a", "t/ab", "t/a/x", "t/a/x/y", "t/.h" }, files{ "t/f.txt", "t/a/f.txt", "t/a/g.cc", "t/ab/f.txt", "t/ab/h.txt", "t/a/x/f.txt", "t/a/x/y/k.txt", "t/.hid", "t/a/.hid.txt", "t/.h/f.txt" };
    std::vector<std::string> const parts{ "*", "a", "a*", "?", "f.txt", "*.txt", "[ab]*", "*.*", "nothing", "x", "[!a]", "*b" };
    auto hidden = []( std::string const& n ){ return n[0] == '.'; };
    auto simple = []( std::string const& pat, std::string const& n ){ std::function<bool( char const*, char const* )> go = [&]( char const* p, char const* s ) -> bool { if ( !*p ) return !*s; if ( *p == '*' ) { for ( ;; ++s ) { if ( go( p+1, s ) ) return true; if ( !*s ) return false; } } if ( !*s ) return false; if ( *p == '?' ) return go( p+1, s+1 ); if ( *p == '[' ) { char const* e = std::strchr( p, ']' ); std::string set( p+1, e ); bool const neg = set[0] == '!'; if ( neg ) set.erase( 0, 1 ); return ( set.find( *s ) != std::string::npos ) != neg && go( e+1, s+1 ); } return *p == *s && go( p+1, s+1 ); }; return go( pat.c_str(), n.c_str() ); };
    auto magic = []( std::string const& p ){ return p.find_first_of( "*?[" ) != std::string::npos; };
    for ( int absolute = 0; absolute < 3; ++absolute ) for ( auto const& first : parts ) c.test( std::string( absolute == 1 ? "absolute" : absolute ? "parent" : "relative" ) + "|" + first, [&]
    {
        std::string const root = "tree." + std::to_string( absolute ) + "." + std::to_string( hash_str( first )%100000 ); fs::create_directory( root ); for ( auto const& d : dirs ) fs::create_directory( root+"/"+d ); for ( auto const& f : files ) std::ofstream( root+"/"+f ) << f;
        std::string const base = absolute == 1 ? fs::absolute( root ).string() : absolute ? ".." : root; fs::path const here = fs::current_path(); if ( absolute == 2 ) { fs::create_directory( root+"/w" ); fs::current_path( root+"/w" ); } std::map<std::string, bool> all; for ( auto const& d : dirs ) all[d] = true; for ( auto const& f : files ) all[f] = false;
        auto step = [&]( std::set<std::string> const& from, std::string const& pat ){ std::set<std::string> r; for ( auto const& d : from ) { if ( magic( pat ) ) { for ( auto const& [n, isdir] : all ) { auto const s = n.find_last_of( '/' ); if ( s != std::string::npos && n.substr( 0, s ) == d && !hidden( n.substr( s+1 ) ) && simple( pat, n.substr( s+1 ) ) ) r.insert( n ); } } else if ( all.count( d+"/"+pat ) ) r.insert( d+"/"+pat ); } return r; };
        auto only_dirs = [&]( std::set<std::string> s ){ for ( auto i = s.begin(); i != s.end(); ) if ( all[*i] ) ++i; else i = s.erase( i ); return s; };
        auto judge = [&]( std::vector<fs::path> const& v, std::set<std::string> const& want, std::string const& pat ){ std::multiset<std::string> got, w; for ( auto const& p : v ) got.insert( p.string() ); for ( auto const& x : want ) w.insert( base+"/"+x ); c.check( got == w, "path pattern", [&]{ return pat + " lists " + str( std::vector<std::string>( got.begin(), got.end() ) ) + "instead of " + str( std::vector<std::string>( w.begin(), w.end() ) ); } ); c.trans( v.size()+1 ); c.state( hash_str( pat ) ); };
        auto const one = step( { "t" }, first ); judge( glob::glob( base+"/t/"+first ), one, first ); judge( glob::glob( std::vector<std::string>{ base+"/t/"+first, base+"/t/nothing*" } ), one, first );
        for ( auto const& second : parts ) { std::string const p2 = "t/"+first+"/"+second; auto const two = step( only_dirs( one ), second ); judge( glob::glob( base+"/"+p2 ), two, p2 ); judge( glob::rglob( base+"/"+p2 ), two, p2 ); if ( c.thorough || second == "*" || second == "x" || second == "a*" ) for ( auto const& third : parts ) { std::string const p3 = p2+"/"+third; judge( glob::glob( base+"/"+p3 ), step( only_dirs( two ), third ), p3 ); } }
        // ** lists everything below a directory that is not hidden
        std::set<std::string> below; for ( auto const& [n, isdir] : all ) { std::string path; bool ok = n.size() > 2; std::istringstream i( n ); std::string part; while ( std::getline( i, part, '/' ) ) ok = ok && !hidden( part ); if ( ok ) below.insert( n ); } judge( glob::rglob( base+"/t/**" ), below, "t/**" );
        std::error_code e; fs::current_path( here ); fs::remove( root+"/w", e ); for ( auto const& f : files ) fs::remove( root+"/"+f, e ); for ( auto i = dirs.rbegin(); i != dirs.rend(); ++i ) fs::remove( root+"/"+*i, e ); fs::remove( root, e );
    } );
}
#elif GROUP == 4
static long live = 0, live_bytes = 0; static bool wrong_free = false; static std::map<void*, unsigned long>& blocks() { static std::map<void*, unsigned long> b; return b; }
template<typename T> struct Counting
{
    typedef T value_type; Counting() = default;
    T* allocate( unsigned long n ) { T* p = (T*)malloc( n*sizeof( T )+1 ); blocks()[p] = n; ++live; return p; }
    void deallocate( T* p, unsigned long n ) { auto f = blocks().find( p ); if ( f == blocks().end() || f->second != n ) wrong_free = true; else { blocks().erase( f ); --live; } free( p ); }
};
template<typename A> static void vectors( Ctx& c, char const* type, bool counted )
{
    // histories over three vectors: sizes, contents and (with a counting allocator) memory
    int const actions = 17, depth = c.thorough ? 5 : 4;
    for ( int a0 = 0; a0 < actions; ++a0 ) for ( int a1 = 0; a1 < actions; ++a1 ) c.test( std::string( "vector|" ) + type + "|" + std::to_string( a0 ) + "," + std::to_string( a1 ), [&]
    {
        long all = 1; for ( int i = 2; i < depth; ++i ) all *= actions;
        for ( long h = 0; h < all; ++h )
        {
            live = 0; wrong_free = false; blocks().clear(); std::string trace; bool ok = true;
            {
                typedef ceras::vector<int, A> W; W v[2] = { W( 3, 7 ), W{ 1, 2 } }; std::vector<int> m[2] = { { 7, 7, 7 }, { 1, 2 } }; bool known[2] = { true, true }; int salt = 10;
                auto set = [&]( int k, unsigned long n ){ v[k].resize( n ); if ( n != m[k].size() ) { m[k].assign( n, 0 ); for ( unsigned long i = 0; i < n; ++i ) v[k].data()[i] = m[k][i] = ++salt; } };
                auto act = [&]( int a )
                {
                    trace += std::to_string( a ) + " ";
                    switch ( a )
                    {
                        case 0: set( 0, 0 ); break; case 1: set( 0, 2 ); break; case 2: set( 1, 5 ); break; case 3: set( 1, m[1].size() ); break;
                        case 4: v[0] = v[1]; m[0] = m[1]; break; case 5: v[1] = v[0]; m[1] = m[0]; break; case 6: { W& s = v[0]; v[0] = s; } break;
                        case 7: v[0] = std::move( v[1] ); m[0] = m[1]; v[1] = W( 1, 4 ); m[1] = { 4 }; break;
                        case 8: v[1] = W{ 5, 6, 7, 8 }; m[1] = { 5, 6, 7, 8 }; break;
                        case 9: { W t( v[0] ); ok = ok && t.size() == m[0].size() && std::equal( m[0].begin(), m[0].end(), t.data() ); if ( !t.empty() ) t.data()[0] = -99; } break;
                        case 10: { W t( std::move( v[0] ) ); ok = ok && t.size() == m[0].size() && std::equal( m[0].begin(), m[0].end(), t.data() ); v[0] = std::move( t ); } break;
                        case 11: v[0].clear(); m[0].clear(); break; case 12: if ( !m[1].empty() ) v[1].data()[m[1].size()-1] = m[1].back() = ++salt; break;
                        case 13: v[0] = W( 4, 9 ); m[0].assign( 4, 9 ); break; case 14: v[1] = W(); m[1].clear(); break;
                        case 15: std::swap( v[0], v[1] ); std::swap( m[0], m[1] ); break; case 16: { W t( 0 ); ok = ok && t.empty() && t.size() == 0; v[0] = t; m[0].clear(); } break;
                    }
                    (void)known; c.trans( 1 );
                    for ( int k = 0; k < 2; ++k ) { W const& x = v[k]; ok = ok && x.size() == m[k].size() && x.empty() == m[k].empty() && std::equal( m[k].begin(), m[k].end(), x.data() ); }
                    if ( counted ) { long want = !m[0].empty(); want += !m[1].empty(); c.check( live == want, "memory of a vector", [&]{ return trace + ": " + std::to_string( live ) + " blocks live instead of " + std::to_string( want ); } ); }
                };
                act( a0 ); act( a1 ); long k = h; for ( int i = 2; i < depth; ++i, k /= actions ) act( k%actions );
                u64 s = 1; for ( auto const& w : m ) { s = mix( s, w.size() ); for ( int x : w ) s = mix( s, x ); } c.state( s );
            }
            c.check( ok, "vector", trace ); if ( counted ) c.check( live == 0 && !wrong_free, "memory of a vector at the end", trace );
        }
    } );
}
// the small-buffer allocator of shapes, under the operations tensors perform on it
static void buffered( Ctx& c )
{
    typedef std::vector<unsigned long, ceras::buffered_allocator<unsigned long, 32>> B; int const actions = 14, depth = c.thorough ? 5 : 4;
    for ( int a0 = 0; a0 < actions; ++a0 ) for ( int a1 = 0; a1 < actions; ++a1 ) c.test( "buffered|" + std::to_string( a0 ) + "," + std::to_string( a1 ), [&]
    {
        long all = 1; for ( int i = 2; i < depth; ++i ) all *= actions;
        for ( long h = 0; h < all; ++h )
        {
            std::vector<unsigned long> const src{ 9, 8, 7, 6, 5, 4, 3, 2, 1 }; B v{ src.begin(), src.begin()+2 }, u{ src.begin(), src.begin()+6 }; std::vector<unsigned long> m( src.begin(), src.begin()+2 ), n( src.begin(), src.begin()+6 ); unsigned long salt = 20; std::string trace; bool ok = true;
            auto act = [&]( int a )
            {
                trace += std::to_string( a ) + " ";
                switch ( a )
                {
                    case 0: v.resize( 1 ); m.resize( 1 ); break; case 1: v.resize( 4 ); m.resize( 4 ); break; case 2: v.resize( 5 ); m.resize( 5 ); break; case 3: v.resize( 0 ); m.resize( 0 ); break;
                    case 4: v = u; m = n; break; case 5: u = v; n = m; break; case 6: { B w( v ); ok = ok && std::equal( m.begin(), m.end(), w.begin(), w.end() ); if ( !w.empty() ) w[0] = 1000; } break;
                    case 7: v.assign( src.begin(), src.begin()+3 ); m.assign( src.begin(), src.begin()+3 ); break; case 8: v.assign( src.begin(), src.end() ); m.assign( src.begin(), src.end() ); break;
                    case 9: v.push_back( ++salt ); m.push_back( salt ); break; case 10: u.push_back( ++salt ); n.push_back( salt ); break; case 11: if ( !m.empty() ) { v[m.size()-1] = m.back() = ++salt; } break;
                    case 12: if ( !n.empty() ) { u.pop_back(); n.pop_back(); } break; case 13: { B const& w = v; v = w; } break;
                }
                ok = ok && std::equal( m.begin(), m.end(), v.begin(), v.end() ) && std::equal( n.begin(), n.end(), u.begin(), u.end() ); c.trans( 1 );
            };
            act( a0 ); act( a1 ); long k = h; for ( int i = 2; i < depth; ++i, k /= actions ) act( k%actions );
            c.check( ok, "shape vector", trace ); u64 s = 1; for ( auto x : m ) s = mix( s, x ); for ( auto x : n ) s = mix( s, x ); c.state( s );
        }
    } );
    for ( unsigned long rank = 1; rank <= 70; ++rank ) c.test( "rank|" + std::to_string( rank ), [&]
    {
        std::vector<unsigned long> s( rank, 1 ); s[rank/2] = 3; s[rank-1] = std::max( s[rank-1], 2UL ); ceras::tensor<float> t( s ); unsigned long const size = t.size(); for ( unsigned long i = 0; i < size; ++i ) t[i] = (float)i;
        ceras::tensor<float> u = t, w; w = u; auto d = t.deep_copy(); c.check( t.shape() == s && u.shape() == s && w.shape() == s && d.shape() == s && w.size() == size && d[size-1] == size-1, "tensor of many dimensions", std::to_string( rank ) );
        u.reshape( { size } ); c.check( u.shape() == std::vector<unsigned long>{ size } && t.shape() == s, "reshape of many dimensions", "" ); u.reshape( s ); c.check( u.shape() == s, "reshape to many dimensions", "" ); c.trans( 6 ); c.state( rank );
    } );
}
static void explore( Ctx& c )
{
    vectors<Counting<int>>( c, "counting", true ); vectors<ceras::cached_allocator<int>>( c, "cached", false ); vectors<std::allocator<int>>( c, "std", false ); buffered( c );
    // place holders: a strict total order on identity
    c.test( "order", [&]
    {
        typedef ceras::place_holder<ceras::tensor<float>> P; std::vector<P> p( 5 ); for ( int i = 0; i < 5; ++i ) p[i] = P{}; std::vector<P> q = p; std::vector<int> id; for ( auto const& x : p ) id.push_back( x.id() );
        for ( int i = 0; i < 5; ++i ) for ( int j = 0; j < 5; ++j )
        {
            P const& a = p[i]; P const& b = q[j]; std::string const w = std::to_string( i )+","+std::to_string( j );
            c.check( ( a == b ) == ( i == j ) && ( a != b ) == ( i != j ), "place holder equality", w ); c.check( ( a < b ) == ( id[i] < id[j] ) && ( a > b ) == ( id[i] > id[j] ) && ( a <= b ) == ( id[i] <= id[j] ) && ( a >= b ) == ( id[i] >= id[j] ), "place holder order", w );
            c.check( ( a < b )+( a > b )+( a == b ) == 1, "exactly one of <, >, ==", w ); c.trans( 6 );
        }
        std::sort( q.begin(), q.end(), []( P const& a, P const& b ){ return a > b; } ); for ( int i = 1; i < 5; ++i ) c.check( q[i-1].id() > q[i].id(), "place holders sorted downwards", "" );
        typedef ceras::variable<ceras::tensor<float>> U; std::vector<U> v; for ( int i = 0; i < 4; ++i ) v.emplace_back( ceras::ones<float>( { 2 } ) ); auto u = v; for ( int i = 0; i < 4; ++i ) for ( int j = 0; j < 4; ++j ) c.check( ( v[i] == u[j] ) == ( i == j ), "variable equality", "" ); c.state( 1 );
    } );
    c.test( "context", [&]
    {
        auto cache = std::make_shared<std::any>(); c.check( rejects( [&]{ (void)ceras::context_extract<int>( cache ); } ), "empty context is accepted", "" );
        int& a = ceras::context_cast<int>( cache, 5 ); c.check( a == 5, "first value", "" ); int& b = ceras::context_cast<int>( cache, 9 ); c.check( &a == &b && b == 5, "second look", "" ); a = 7; c.check( ceras::context_extract<int>( cache ) == 7 && ceras::context_cast<int>( cache ) == 7, "written context", "" );
        c.check( rejects( [&]{ (void)ceras::context_cast<double>( cache ); } ) && rejects( [&]{ (void)ceras::context_extract<std::string>( cache ); } ), "context of another type is accepted", "" );
        auto t = std::make_shared<std::any>(); ceras::tensor<float>& x = ceras::context_cast<ceras::tensor<float>>( t ); c.check( x.empty(), "default context", "" ); x.resize( { 2, 3 } ); c.check( ceras::context_cast<ceras::tensor<float>>( t ).shape() == std::vector<unsigned long>{ 2, 3 } && ceras::context_extract<ceras::tensor<float>>( t ).data() == x.data(), "context is not kept", "" );
        auto copy = std::make_shared<std::any>( *cache ); ceras::context_cast<int>( copy ) = 1; c.check( ceras::context_cast<int>( cache ) == 7, "contexts are not independent", "" ); c.trans( 10 ); c.state( 1 );
    } );
    // loops with a progress bar visit what plain loops visit, and leave the stream as it was
    for ( int n = 0; n <= 20; ++n ) for ( int first = -3; first <= 3; ++first ) c.test( "progress|" + std::to_string( n ) + "|" + std::to_string( first ), [&]
    {
        std::vector<int> want, got; for ( int i = first; i < first+n; ++i ) want.push_back( i ); std::ostringstream os; std::string const w = std::to_string( first ) + "+" + std::to_string( n );
        { auto t = tq::trange( first, first+n ); t.set_ostream( os ); t.set_min_update_time( n%2 ? 0. : 0.15 ); t.set_bar_size( n*3%11 ); t.set_prefix( "p" ); for ( int i : t ) { got.push_back( i ); t << i; } equal( c, got, want, "progress loop over a range", w ); got.clear(); for ( int i : t ) got.push_back( i ); equal( c, got, want, "second progress loop over a range", w ); }
        if ( first == 0 ) { got.clear(); auto t = tq::trange( n ); t.set_ostream( os ); for ( auto i : t ) got.push_back( i ); equal( c, got, want, "progress loop to a number", w ); auto u = tq::trange( (unsigned long)n ); u.set_ostream( os ); got.clear(); for ( auto i : u ) got.push_back( (int)i ); equal( c, got, want, "progress loop to an unsigned number", w ); }
        { got.clear(); auto t = tq::dm( want ); t.set_ostream( os ); for ( int i : t ) got.push_back( i ); equal( c, got, want, "progress loop over a container", w ); std::list<int> const l( want.begin(), want.end() ); got.clear(); auto u = tq::dm( l ); u.set_ostream( os ); for ( int i : u ) got.push_back( i ); equal( c, got, want, "progress loop over a constant list", w ); }
        { got.clear(); auto t = tq::dm( std::vector<int>( want ) ); t.set_ostream( os ); for ( int i : t ) got.push_back( i ); equal( c, got, want, "progress loop over a temporary", w ); got.clear(); auto u = tq::dm( want.begin(), want.end() ); u.set_ostream( os ); for ( int i : u ) got.push_back( i ); equal( c, got, want, "progress loop over iterators", w ); }
        os.str( "" ); os << 0.5 << 1 << std::hex; c.check( os.str() == "0.51", "progress loop changed the stream", os.str() ); c.trans( 7 ); c.state( mix( n, first+3 ) );
    } );
    c.test( "overload", [&]
    {
        ceras::overload f{ []( int x ){ return std::string( "i" )+std::to_string( x ); }, []( std::string const& s ){ return "s"+s; }, []( double d ){ return std::string( "d" )+std::to_string( (int)d ); } };
        std::vector<std::variant<int, std::string, double>> const v{ 1, std::string( "x" ), 2.0 }; std::vector<std::string> got; for ( auto const& x : v ) got.push_back( std::visit( f, x ) ); equal( c, got, std::vector<std::string>{ "i1", "sx", "d2" }, "overload" );
        // distinct objects get distinct ids, copies keep theirs
        std::set<int> ids; std::vector<ceras::tensor<float>> ts; for ( int i = 0; i < 50; ++i ) { ts.emplace_back( std::vector<unsigned long>{ 2 } ); ids.insert( ts.back().id() ); } ceras::tensor<float> k = ts[7]; c.check( ids.size() == 50 && k.id() == ts[7].id(), "identities", "" );
    } );
}
#endif
MC_MAIN( explore )
