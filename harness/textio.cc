// C06: tensors written as text are read back with the same shape and values
#include "ceras_mc.hpp"
using namespace ref;

template<typename V> static T pattern( Shape const& s, int p )
{
    T r( s );
    for ( unsigned long i = 0; i < r.size(); ++i )
    {
        double g = generic( i, 3+p );
        switch ( p )
        {
            case 0: r[i] = g; break;
            case 1: r[i] = (double)(long)( i*7 ) - 5; break;
            case 2: r[i] = g*1e-30; break;
            case 3: r[i] = g*1e30; break;
            case 4: r[i] = ( i%2 ? -1 : 1 ) * std::pow( 10.0, (double)(long)(i%13) - 6 ) * 1.234567890123456789; break;
            case 5: r[i] = i%3 == 0 ? 0.0 : i%3 == 1 ? 123456789.0 : 1.0/3; break;
        }
        r[i] = (double)(V)r[i];
    }
    return r;
}
static bool rel( T const& got, T const& want, double eps )
{
    if ( got.shape != want.shape || got.v.size() != want.v.size() ) return false;
    for ( unsigned long i = 0; i < got.size(); ++i ) if ( !( std::fabs( got[i]-want[i] ) <= eps*std::fabs( want[i] ) ) ) return false;
    return true;
}
static void put( std::string const& f, std::string const& s ) { FILE* h = fopen( f.c_str(), "w" ); fwrite( s.data(), 1, s.size(), h ); fclose( h ); }
static std::string get( std::string const& f ) { std::ifstream i( f, std::ios::binary ); std::stringstream s; s << i.rdbuf(); return s.str(); }

template<typename V> static void typed( mc::Ctx& c, std::string const& tn, double file_eps, int digits )
{
    auto all = shapes( 4, c.thorough ? 4 : 3 ); for ( Shape s : { Shape{17}, Shape{40}, Shape{2,9}, Shape{11,1,2}, Shape{100} } ) all.push_back( s );
    for ( auto const& s : all ) for ( int p = 0; p < 6; ++p )
    {
        c.test( "file|" + tn + "|" + str(s) + "|" + std::to_string(p), [&]
        {
            T v = pattern<V>( s, p ); auto x = mc::to_c<V>( v );
            ceras::save_tensor( "t.txt", x ); c.trans();
            mc::same( c, mc::to_r(x), v, "save:source-modified", 0 );
            auto y = ceras::load_tensor<V>( "t.txt" ); c.trans();
            auto g = mc::to_r( y ); c.state( hash( g ) );
            c.check( rel( g, v, file_eps ), "file:round-trip", [&]{ return " got " + str( g ) + " expected " + str( v ); } );
            // save over a longer, older file
            put( "t.txt", std::string( 5000, '7' ) ); ceras::save_tensor( "t.txt", x ); auto z = ceras::load_tensor<V>( "t.txt" ); c.trans( 2 );
            c.check( rel( mc::to_r(z), v, file_eps ), "file:overwrite" );
        } );
        for ( int prec : { 0, 6, digits } )
            c.test( "stream|" + tn + "|" + str(s) + "|" + std::to_string(p) + "|" + std::to_string(prec), [&]
            {
                T v = pattern<V>( s, p ); auto x = mc::to_c<V>( v ); std::stringstream ss; if ( prec ) ss.precision( prec );
                ceras::write_tensor( ss, x ); c.trans(); double const eps = ( prec == digits ? 0 : 0.51*std::pow( 10.0, -(5) ) );
                for ( Shape old : { Shape{}, Shape{1}, s, Shape{7,5} } )
                {
                    ceras::tensor<V> y; if ( !old.empty() ) y = ceras::tensor<V>{ old, V(9) };
                    std::stringstream in( ss.str() ); ceras::read_tensor( in, y ); c.trans();
                    auto g = mc::to_r( y ); c.check( rel( g, v, eps + (sizeof(V)==4?1e-7:0) ), "stream:round-trip", [&]{ return " into " + str(old) + " got " + str( g ) + " expected " + str( v ); } );
                    if ( prec == digits ) c.check( rel( g, v, 0 ), "stream:exact", [&]{ return " got " + str( g ) + " expected " + str( v ); } );
                }
            } );
    }
    // several tensors in one stream
    std::vector<Shape> pool{ {1}, {3}, {2,2}, {1,3}, {3,1,2}, {2,1,1,2} };
    unsigned const L = c.thorough ? 4 : 3;
    for ( unsigned n = 2; n <= L; ++n )
    {
        unsigned long tot = 1; for ( unsigned i = 0; i < n; ++i ) tot *= pool.size();
        for ( unsigned long k = 0; k < tot; ++k )
            c.test( "sequence|" + tn + "|" + std::to_string(n) + "|" + std::to_string(k), [&]
            {
                std::stringstream ss; ss.precision( digits ); std::vector<T> vs; unsigned long q = k;
                for ( unsigned i = 0; i < n; ++i ) { vs.push_back( pattern<V>( pool[q%pool.size()], i%6 ) ); q /= pool.size(); ceras::write_tensor( ss, mc::to_c<V>( vs.back() ) ); c.trans(); }
                for ( unsigned i = 0; i < n; ++i ) { ceras::tensor<V> y; ceras::read_tensor( ss, y ); c.trans(); auto g = mc::to_r(y); c.check( rel( g, vs[i], 0 ), "sequence:round-trip", [&]{ return "tensor " + std::to_string(i) + " got " + str( g ) + " expected " + str( vs[i] ); } ); c.state( hash( g, i ) ); }
            } );
    }
    // every cut that loses at least one whole value (or part of the shape) must be rejected
    for ( auto const& s : shapes( 3, 3 ) ) for ( int p : { 0, 1, 4 } )
        c.test( "cut|" + tn + "|" + str(s) + "|" + std::to_string(p), [&]
        {
            T v = pattern<V>( s, p ); ceras::save_tensor( "t.txt", mc::to_c<V>( v ) ); std::string full = get( "t.txt" );
            // start of the last value
            std::size_t e = full.find_last_not_of( " \n\t" ), last = full.find_last_of( " \n\t", e ) + 1;
            for ( std::size_t n = 0; n <= last; ++n )
            {
                put( "t.txt", full.substr( 0, n ) ); c.trans();
                bool rej = mc::rejects( [&]{ auto y = ceras::load_tensor<V>( "t.txt" ); } );
                c.check( rej, "truncated:accepted", [&]{ return "cut to " + std::to_string(n) + " of " + std::to_string( full.size() ) + " bytes"; } );
            }
            // one value too many is not silently dropped either: count mismatch is an error
            { std::string more = full; auto q = more.find_last_not_of( " \n\t" ); more.insert( q+1, " 1" ); put( "t.txt", more ); c.trans(); c.check( mc::rejects( [&]{ auto y = ceras::load_tensor<V>( "t.txt" ); } ), "excess:accepted" ); }
            unlink( "t.txt" ); c.trans(); c.check( mc::rejects( [&]{ auto y = ceras::load_tensor<V>( "t.txt" ); } ), "missing:accepted" );
        } );
}
static void explore( mc::Ctx& c ) { typed<double>( c, "double", 1e-14, 17 ); typed<float>( c, "float", 1.2e-7, 9 ); }
MC_MAIN( explore )
