// C09 (WHAT=1: values), C10 (WHAT=2: gradients), C13 part (WHAT=4: declared shapes): element-wise operators
#include "ops_elem.hpp"
#include "ops_struct.hpp"
#ifndef WHAT
#define WHAT 7
#endif
#ifndef VT
#define VT double
#endif
#ifndef GROUP
#define GROUP 7     // 1: maths, 2: activations, 4: binary operators
#endif
using namespace ref; using namespace mc;
typedef VT V;

static void explore( Ctx& c )
{
    bool const flt = sizeof(V) == 4; double const ts = flt ? 3e4 : 1; std::string const tn = flt ? "float" : "double";
    int const what = WHAT;
    char const* leafs[3] = { "variable", "placeholder", "constant" };
    auto grid = value_grid( c.thorough );
    if ( flt ) { std::vector<double> g; for ( double x : grid ) if ( std::fabs(x) < 9 ) g.push_back( x ); grid = g; }
    std::vector<Shape> ss = shapes( c.thorough ? 3 : 2, c.thorough ? 3 : 3 ); for ( Shape s : { Shape{2,1,3}, Shape{1,2,2}, Shape{2,2,1,2}, Shape{1,3,2,1}, Shape{1,1,1,1,2}, Shape{2,1,1,1,1}, Shape{3,2,2}, Shape{13}, Shape{4,5} } ) ss.push_back( s );
    std::vector<Op<V>> un;
#if GROUP & 1
    for ( auto& o : maths<V>() ) un.push_back( o );
#endif
#if GROUP & 2
    for ( auto& o : activations<V>() ) un.push_back( o );
#endif
    for ( auto const& op : un )
    {
        std::vector<double> dom, smo; for ( double x : grid ) { double y = static_cast<double>( static_cast<V>( x ) ); if ( op.domain( y ) ) { dom.push_back( y ); if ( op.smooth( y ) ) smo.push_back( y ); } }
        auto const& vals = ( what & BWD ) ? smo : dom;
        // every value of the grid at once, and every value at every position of a short row
        std::vector<Leaf> kinds{ variable_leaf }; if ( !( what & BWD ) ) kinds = { variable_leaf, placeholder_leaf, constant_leaf };
        auto one = [&]( std::string const& key, T const& x, Leaf k, unsigned long gs )
        {
            c.test( op.name + "|" + tn + "|" + key + "|" + leafs[k], [&]
            {
                fresh_session<V>();
                std::vector<Operand<V>> in; in.emplace_back( x, k ); auto e = op.build( { in[0].ex } );
                check_once( c, op, e, in, what, gs, ts );
            } );
        };
        for ( auto k : kinds ) one( "grid", T( Shape{ vals.size() }, vals ), k, 3 );
        for ( unsigned long i = 0; i < vals.size(); ++i ) one( "value " + std::to_string( vals[i] ) + " #" + std::to_string( i ), T( Shape{1}, { vals[i] } ), variable_leaf, 5+i );
        for ( auto const& s : ss ) for ( unsigned long w = 0; w < ( c.thorough ? 6ul : 2ul ); ++w ) for ( auto k : kinds )
        {
            T x( s ); for ( unsigned long i = 0; i < x.size(); ++i ) x[i] = vals[ ( i*7 + w*11 + s.size() ) % vals.size() ];
            one( str( s ) + "|w" + std::to_string( w ), x, k, 7+w );
        }
    }
    // values of every magnitude: small results keep their relative precision, large ones neither overflow early nor turn into NaN
    if ( !( what & BWD ) && ( what & FWD ) ) for ( auto const& op : un )
    {
        bool relative = false; for ( auto const& o : maths<V>() ) relative = relative || o.name == op.name; // activations may lose small results to cancellation
        for ( int e = flt ? -30 : -290; e <= ( flt ? 30 : 290 ); e += std::abs( e ) > 12 || ( std::abs( e ) == 12 && e > 0 ) ? ( flt ? 3 : 20 ) : 1 ) c.test( "magnitude|" + op.name + "|" + tn + "|" + std::to_string( e ), [&]
        {
            std::vector<double> xs; for ( double m : { 1.0, 1.7, 3.1, 7.9 } ) for ( int sg : { 1, -1 } ) { double const x = static_cast<double>( static_cast<V>( sg*m*std::pow( 10.0, e ) ) ); if ( op.domain( x ) && op.domain( x*( 1+1e-6 ) ) && op.domain( x*( 1-1e-6 ) ) ) xs.push_back( x ); }
            for ( double x : xs )
            {
                T const in( Shape{ 1 }, { x } ), want = op.f( { in } ); fresh_session<V>(); Operand<V> o( in, variable_leaf ); auto ex = op.build( { o.ex } ); double const w = want[0];
                if ( std::isnan( w ) || std::fabs( w ) > ( flt ? 1e37 : 1e307 ) || ( w != 0 && std::fabs( w ) < ( flt ? 1e-36 : 1e-306 ) ) ) continue;
                double const got = to_r( ceras::get_default_session<ceras::tensor<V>>().run( ex ) )[0]; c.trans(); c.state( hash( want ) );
                c.check( std::fabs( got-w ) <= ( relative ? ( flt ? 2e-5 : 1e-10 )*std::fabs( w ) : ( flt ? 2e-5 : 1e-10 )*std::max( 1.0, std::fabs( w ) ) ), op.name + ":magnitude", [&]{ char b[120]; std::snprintf( b, 120, "f(%.17g) = %.17g, not %.17g", x, got, w ); return std::string( b ); } );
            }
        } );
    }
    // gradients of operands of every magnitude
    if ( what & BWD ) for ( auto const& op : un ) if ( op.vjp && !op.deviant )
        for ( int e = flt ? -15 : -140; e <= ( flt ? 15 : 140 ); e += std::abs( e ) > 12 || ( std::abs( e ) == 12 && e > 0 ) ? ( flt ? 3 : 16 ) : 1 ) c.test( "magnitude|" + op.name + "|" + tn + "|" + std::to_string( e ), [&]
        {
            for ( double m : { 1.0, 1.7, 3.1, 7.9 } ) for ( int sg : { 1, -1 } )
            {
                double const x = static_cast<double>( static_cast<V>( sg*m*std::pow( 10.0, e ) ) ); if ( !op.domain( x ) || !op.smooth( x ) || !op.domain( x*( 1+1e-6 ) ) || !op.domain( x*( 1-1e-6 ) ) ) continue;
                T const in( Shape{ 1 }, { x } ), y = op.f( { in } ), g( Shape{ 1 }, { m } ); double const w = op.vjp( { in }, g )[0][0]; if ( !std::isfinite( w ) || !std::isfinite( y[0] ) || std::fabs( w ) > ( flt ? 1e37 : 1e300 ) || std::fabs( y[0] ) > ( flt ? 1e37 : 1e300 ) ) continue;
                fresh_session<V>(); Operand<V> o( in, variable_leaf ); auto ex = op.build( { o.ex } ); ceras::get_default_session<ceras::tensor<V>>().run( ex ); ex.backward( to_c<V>( g ) ); c.trans( 2 ); double const got = o.gradient()[0]; c.state( hash( in ) );
                c.check( std::fabs( got-w ) <= ( flt ? 1e-4 : 1e-8 )*std::max( 1.0, std::fabs( w ) ), op.name + ":magnitude", [&]{ char b[120]; std::snprintf( b, 120, "f'(%.17g) = %.17g, not %.17g", x, got, w ); return std::string( b ); } );
            }
        } );
#if GROUP & 2
    // softmax over the last dimension: every row over an alphabet that reaches the limits of the exponential
    for ( auto const& op : structural1<V>( { 2, 2 } ) )
    {
        if ( op.name != "softmax" ) continue;
        double const big = flt ? 85 : 700; std::vector<double> al{ -2*big, -big, -1.5, 0, 2, big, 2*big }; if ( c.thorough ) for ( double x : { -0.5*big, 0.5*big, 15*big, -15*big } ) al.push_back( x );
        for ( auto const& s : { Shape{1}, Shape{2}, Shape{3}, Shape{2,1}, Shape{2,2}, Shape{1,3}, Shape{1,1,3}, Shape{2,1,2} } )
        {
            unsigned long tot = 1; for ( unsigned long i = 0; i < prod( s ); ++i ) tot *= al.size();
            for ( unsigned long first = 0; first < al.size(); ++first ) c.test( "softmax|" + tn + "|" + str( s ) + "|" + std::to_string( first ), [&]
            {
                for ( unsigned long k = first; k < tot && !c.case_fails; k += al.size() )
                {
                    fresh_session<V>(); T x( s ); unsigned long q = k; for ( auto& z : x.v ) { z = al[q%al.size()]; q /= al.size(); }
                    std::vector<Operand<V>> in; in.emplace_back( x, k%2 ? variable_leaf : ( what & BWD ) ? variable_leaf : placeholder_leaf ); auto e = op.build( { in[0].ex } );
                    check_once( c, op, e, in, what, 3+k%5, ts, "values " + str( x ) );
                }
            } );
        }
    }
#endif
#if GROUP & 4
    // binary operators: all broadcastable shape pairs
    auto bs = shapes( 3, c.thorough ? 3 : 2 ); for ( Shape s : { Shape{3}, Shape{1,3}, Shape{3,1}, Shape{2,3}, Shape{2,1,3}, Shape{2,2,1,2}, Shape{1,2,1,2} } ) if ( std::find( bs.begin(), bs.end(), s ) == bs.end() ) bs.push_back( s );
    auto two = [&]( Op<V> const& op, T const& a, T const& b, std::string const& key, Leaf ka, Leaf kb )
    {
        c.test( op.name + "|" + tn + "|" + key + "|" + leafs[ka] + "," + leafs[kb], [&]
        {
            fresh_session<V>();
            std::vector<Operand<V>> in; in.emplace_back( a, ka ); in.emplace_back( b, kb ); auto e = op.build( { in[0].ex, in[1].ex } );
            check_once( c, op, e, in, what, 3, ts );
        } );
    };
    std::vector<std::pair<Leaf,Leaf>> kk{ { variable_leaf, variable_leaf }, { placeholder_leaf, variable_leaf }, { variable_leaf, constant_leaf } };
    for ( auto const& op : binary_broadcast<V>() ) for ( auto const& a : bs ) for ( auto const& b : bs )
    {
        Shape o; if ( !bshape( a, b, o ) ) continue;
        bool const alias = op.name == "plus" || op.name == "minus" || op.name == "divide" || op.name == "elementwise_multiply" || op.name == "hadamard_product";
        if ( alias && a != b && !c.thorough ) continue;
        for ( auto [ka,kb] : kk ) two( op, fill( a, 1, 1.5 ), fill( b, 2, 1.5 ), str( a ) + "," + str( b ), ka, kb );
    }
    for ( auto const& op : binary_broadcast<V>() ) for ( auto const& ab : std::vector<std::pair<Shape,Shape>>{ { {7,33}, {33} }, { {33}, {7,33} }, { {7,1}, {1,33} }, { {1,33}, {7,1} }, { {65,3}, {1} }, { {1}, {3,65} }, { {2,9,17}, {9,1} }, { {9,17}, {2,1,17} }, { {2,2,3,2,2}, {3,1,2} }, { {33,2}, {33,1} } } )
        two( op, fill( ab.first, 1, 1.5 ), fill( ab.second, 2, 1.5 ), str( ab.first ) + "," + str( ab.second ), variable_leaf, variable_leaf );
    std::vector<double> pv{ -2.5, -1, -0.3, 0.2, 0.6, 1.7, 3 };
    for ( auto const& ops : { binary_same<V>(), binary_broadcast<V>() } ) for ( auto const& op : ops )
    {
        // all pairs of values (equal pairs are kinks of maximum/minimum and only evaluated)
        bool const eq = op.name == "equal 0.5" || op.name == "equal 0.1" || op.name == "equal default", mm = op.name == "maximum" || op.name == "minimum";
        std::vector<double> A, B; for ( double x : pv ) for ( double y : pv ) { if ( x == y && mm && ( what & BWD ) ) continue; A.push_back( x ); B.push_back( eq ? ( x == y ? y : x + (y > x ? 1 : -1)*( (y*y < 2) ? 0.3 : 0.05 ) ) : y ); }
        for ( auto [ka,kb] : kk ) two( op, T( Shape{ A.size() }, A ), T( Shape{ B.size() }, B ), "pairs", ka, kb );
        // operands of every magnitude, alike and far apart
        std::vector<int> const es = flt ? std::vector<int>{ -15, -8, -3, 0, 3, 8, 15 } : std::vector<int>{ -140, -60, -20, -5, 0, 5, 20, 60, 140 };
        if ( !( what & BWD ) && ( what & FWD ) ) for ( int ea : es ) for ( int eb : es ) c.test( "magnitude|" + op.name + "|" + tn + "|" + std::to_string( ea ) + "," + std::to_string( eb ), [&]
        {
            for ( double x : { 1.3, -2.9 } ) for ( double y : { 1.9, -4.7 } )
            {
                double const a = static_cast<double>( static_cast<V>( x*std::pow( 10.0, ea ) ) ), b = static_cast<double>( static_cast<V>( y*std::pow( 10.0, eb ) ) ), w = op.f( { T( Shape{ 1 }, { a } ), T( Shape{ 1 }, { b } ) } )[0];
                if ( op.name[0] == 'e' && op.name[1] == 'q' && ea == eb && ea == 0 ) continue;
                if ( ( op.name == "a/b" || op.name == "divide" ) && std::fabs( b ) < 1e-6 ) continue;       // a reciprocal is capped
                if ( !std::isfinite( w ) || std::fabs( w ) > ( flt ? 1e37 : 1e306 ) || ( w != 0 && std::fabs( w ) < ( flt ? 1e-36 : 1e-306 ) ) ) continue;
                fresh_session<V>(); Operand<V> o( T( Shape{ 1 }, { a } ), variable_leaf ), p( T( Shape{ 1 }, { b } ), variable_leaf ); auto ex = op.build( { o.ex, p.ex } );
                double const got = to_r( ceras::get_default_session<ceras::tensor<V>>().run( ex ) )[0]; c.trans(); c.state( mix( ea+200, eb+200 ) );
                c.check( std::fabs( got-w ) <= ( flt ? 2e-5 : 1e-10 )*std::fabs( w ), op.name + ":magnitude", [&]{ char t[160]; std::snprintf( t, 160, "f(%.17g,%.17g) = %.17g, not %.17g", a, b, got, w ); return std::string( t ); } );
            }
        } );
        // sizes far above those of the exhaustive part
        for ( Shape const& s : { Shape{65}, Shape{257}, Shape{9,33}, Shape{3,17,5}, Shape{1,129} } ) two( op, fill( s, 4, 2.0 ), fill( s, 9, 2.0 ), str( s ), variable_leaf, variable_leaf );
        for ( auto const& s : ss ) for ( auto [ka,kb] : kk ) two( op, fill( s, 4, 2.0 ), fill( s, 9, 2.0 ), str( s ), ka, kb );
    }
#endif
}
MC_MAIN( explore )
