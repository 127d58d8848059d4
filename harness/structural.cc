// C11: structural operators, forward and adjoint (WHAT=3); C13 part (WHAT=4): declared shapes
#include "ops_struct.hpp"
#ifndef WHAT
#define WHAT 3
#endif
#ifndef VT
#define VT double
#endif
using namespace ref; using namespace mc;
typedef VT V;

static void explore( Ctx& c )
{
    bool const flt = sizeof(V) == 4; double const ts = flt ? 3e4 : 1; std::string const tn = flt ? "float" : "double";
    char const* leafs[3] = { "variable", "placeholder", "constant" };
    auto ss = shapes( 3, c.thorough ? 4 : 3 ); for ( Shape s : { Shape{2,1,3,2}, Shape{1,2,2,1}, Shape{2,3,1,1}, Shape{1,1,1,1}, Shape{3,2,2,2}, Shape{1,1,2,1,2}, Shape{17}, Shape{5,4}, Shape{1,5}, Shape{4,4}, Shape{33,5}, Shape{2,65}, Shape{3,17,2}, Shape{129} } ) ss.push_back( s );
    if ( c.thorough ) for ( auto const& s : shapes( 4, 2, 4 ) ) ss.push_back( s );
    auto run = [&]( Op<V> const& op, std::vector<T> const& x, std::vector<Leaf> const& k, std::string const& key )
    {
        std::string ks; for ( auto l : k ) ks += std::string( leafs[l] ) + ",";
        c.test( op.name + "|" + tn + "|" + key + "|" + ks, [&]
        {
            fresh_session<V>();
            std::vector<Operand<V>> in; std::vector<Any<V>> ex; for ( unsigned long i = 0; i < x.size(); ++i ) { in.emplace_back( round_to<V>( x[i] ), k[i] ); ex.push_back( in.back().ex ); }
            auto e = op.build( ex );
            check_once( c, op, e, in, WHAT, 3, ts );
            // once more with the operators result used: a second run of the same expression agrees
            if ( WHAT & BWD ) check_once( c, op, e, in, WHAT, 8, ts, "second run", "again:" );
        } );
    };
    for ( auto const& s : ss )
    {
        for ( auto const& op : structural1<V>( s ) )
            for ( unsigned long salt : { 1ul, 6ul } )
            {
                run( op, { fill( s, salt ) }, { variable_leaf }, str( s ) + "|s" + std::to_string( salt ) );
                if ( salt == 1 ) for ( Leaf k : { placeholder_leaf, constant_leaf } ) run( op, { fill( s, salt ) }, { k }, str( s ) );
            }
        // ties and all-negative rows for the extremum operators: every tuple over a small alphabet on short rows
        if ( prod( s ) <= 4 && s.size() <= 2 )
        {
            std::vector<double> al{ -2, -1, 0, 1.5 }; unsigned long n = prod( s ), tot = 1; for ( unsigned long i = 0; i < n; ++i ) tot *= al.size();
            for ( auto const& op : structural1<V>( s ) )
            {
                if ( op.name.find( "reduce_m" ) && op.name.find( "arg" ) ) continue;
                if ( op.name == "reduce_mean" ) continue;
                for ( unsigned long k = 0; k < tot; ++k ) { T x( s ); unsigned long q = k; for ( auto& z : x.v ) { z = al[q%al.size()]; q /= al.size(); } run( op, { x }, { variable_leaf }, str( s ) + "|t" + std::to_string( k ) ); }
            }
        }
    }
    auto s2 = shapes( 3, 3 ); s2.push_back( { 2,2,1,3 } ); s2.push_back( { 2,2,2,3 } ); s2.push_back( { 5,4 } ); s2.push_back( { 4,7 } ); s2.push_back( { 1,9 } ); s2.push_back( { 33,5 } ); s2.push_back( { 2,65 } ); s2.push_back( { 5,17 } );
    std::vector<std::vector<Leaf>> kk{ { variable_leaf, variable_leaf }, { placeholder_leaf, variable_leaf }, { variable_leaf, constant_leaf } };
    for ( auto const& a : s2 ) for ( auto const& b : s2 ) for ( auto const& op : structural2<V>( a, b ) ) for ( auto const& k : kk )
        run( op, { fill( a, 2 ), fill( b, 5 ) }, k, str( a ) + "," + str( b ) );
    // assign: copies the value of its left operand into the variable, passes no gradient
    for ( auto const& s : ss ) for ( int lk = 0; lk < 2; ++lk )
        c.test( "assign|" + tn + "|" + str( s ) + "|" + leafs[lk], [&]
        {
            auto& sess = fresh_session<V>(); T const x = round_to<V>( fill( s, 3 ) ), y = round_to<V>( fill( s, 4 ) );
            Operand<V> l( x, (Leaf)lk ); ceras::variable<ceras::tensor<V>> w( to_c<V>( y ) );
            auto e = ceras::assign( l.ex, w );
            if ( WHAT & SHAPE ) { c.check( e.shape() == s, "assign:declared-shape", [&]{ return str( e.shape() ); } ); }
            auto out = sess.run( e ); c.trans();
            if ( WHAT & FWD ) { c.state( hash( to_r( out ) ) ); same( c, to_r( out ), x, "assign:value", 0 ); same( c, to_r( w.data() ), x, "assign:variable", 0 ); same( c, l.value(), x, "assign:input-modified", 0 ); }
            if ( WHAT & BWD )
            {
                w.gradient() = ceras::zeros_like( w.data() ); if ( lk == 0 ) l.var[0].gradient() = ceras::zeros_like( w.data() );
                e.backward( to_c<V>( fill( s, 7 ) ) );
                same( c, to_r( w.gradient() ), T( s ), "assign:gradient", 0 ); if ( lk == 0 ) same( c, l.gradient(), T( s ), "assign:gradient-left", 0 );
            }
            for ( auto& z : w.data() ) z = 9;
            if ( WHAT & FWD ) same( c, l.value(), x, "assign:shares-storage", 0 );
        } );
}
MC_MAIN( explore )
