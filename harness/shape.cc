// C13: declared shapes of expressions over placeholders, before binding, after binding and after evaluation, and of
// chains of two operators
#ifndef GROUP
#define GROUP 1
#endif
#include "ops_conv.hpp"
#include "ops_elem.hpp"
#ifndef VT
#define VT double
#endif
using namespace ref; using namespace mc;
typedef VT V; typedef ceras::tensor<V> TT;

static std::vector<Op<V>> all1( Shape const& s, bool elem )
{
    std::vector<Op<V>> v;
    if constexpr ( GROUP == 4 || GROUP == 5 ) { if ( elem ) return GROUP == 4 ? maths<V>() : activations<V>(); else return v; }
    else {
    v = structural1<V>( s );
    if ( s.size() == 4 ) for ( auto const& o : image1<V>( s, 1 ) ) if ( prod( o.f( { T( s ) } ).shape ) ) v.push_back( o );
    }
    return v;
}
static T safe( Op<V> const& op, Shape const& s, unsigned long salt ) { T x = fill( s, salt ); for ( auto& z : x.v ) if ( !op.domain( z ) ) z = op.domain( 0.6 ) ? 0.6 : 1.7; return x; }

static void explore( Ctx& c )
{
    // hints are without the batch dimension
    std::vector<Shape> hints = shapes( 2, 3 ); for ( Shape s : { Shape{2,1,3}, Shape{3,2,2}, Shape{4,4,1}, Shape{5,3,2}, Shape{1,1,1}, Shape{6,6,2} } ) hints.push_back( s );
    auto chk = [&]( Any<V>& e, Shape const& want, std::string const& tag, std::string const& where ) { c.check( e.shape() == want, tag, [&]{ return where + ": declared " + str( e.shape() ) + " expected " + str( want ); } ); };
#if GROUP == 1 || GROUP == 4 || GROUP == 5
    for ( auto const& h : hints )
    {
        Shape one = h; one.insert( one.begin(), 1 );
        for ( auto const& op : all1( one, h.size() < 3 ) )
            c.test( "unary|" + op.name + "|" + str( h ), [&]
            {
                auto& s = fresh_session<V>(); ceras::place_holder<TT> p( h ); auto e = op.build( { any<V>( p ) } );
                chk( e, op.f( { safe( op, one, 1 ) } ).shape, op.name + ":declared-unbound", "batch 1" );
                for ( unsigned long b : { 2ul, 1ul, 3ul } )
                {
                    Shape x = h; x.insert( x.begin(), b );
                    // parameters naming a batch extent only fit batch 1
                    if ( b > 1 && ( op.name.substr( 0, 9 ) == "broadcast" || op.name.substr( 0, 8 ) == "reshape!" || ( op.name.substr( 0, 8 ) == "squeeze " && op.name == "squeeze 0" ) ) ) continue;
                    if ( b > 1 && op.name.substr( 0, 7 ) == "reshape" && ( prod( x ) % prod( op.f( { T( one ) } ).shape ) ) ) continue;
                    T const v = safe( op, x, b ); Shape const want = op.f( { v } ).shape;
                    s.bind( p, to_c<V>( v ) );
                    chk( e, want, op.name + ":declared-bound", "batch " + std::to_string( b ) );
                    auto const got = to_r( s.run( e ) ); c.trans(); c.state( hash( got, hash_str( op.name ) ) );
                    c.check( got.shape == want, op.name + ":produced", [&]{ return "batch " + std::to_string( b ) + " got " + str( got.shape ) + " expected " + str( want ); } );
                    chk( e, got.shape, op.name + ":declared-after", "batch " + std::to_string( b ) );
                }
            } );
    }
#elif GROUP == 2
    // two operands, one a placeholder with a hint, the other a variable
    auto two = [&]( Op<V> const& op, Shape const& h, Shape const& w, std::vector<unsigned long> const& batches )
    {
        c.test( "binary|" + op.name + "|" + str( h ) + "," + str( w ), [&]
        {
            auto& s = fresh_session<V>(); ceras::place_holder<TT> p( h ); ceras::variable<TT> v( to_c<V>( fill( w, 7, 0.4, 1 ) ) ); auto e = op.build( { any<V>( p ), any<V>( v ) } );
            Shape one = h; one.insert( one.begin(), 1 ); T const wv = fill( w, 7, 0.4, 1 );
            chk( e, op.f( { fill( one, 1 ), wv } ).shape, op.name + ":declared-unbound", "batch 1" );
            for ( unsigned long b : batches )
            {
                Shape x = h; x.insert( x.begin(), b ); T const xv = fill( x, b, 0.4, 1 );
                s.bind( p, to_c<V>( xv ) ); Shape const want = op.f( { xv, wv } ).shape;
                chk( e, want, op.name + ":declared-bound", "batch " + std::to_string( b ) );
                auto const got = to_r( s.run( e ) ); c.trans(); c.state( hash( got, hash_str( op.name ) ) );
                c.check( got.shape == want, op.name + ":produced", [&]{ return "batch " + std::to_string( b ) + " got " + str( got.shape ) + " expected " + str( want ); } );
                chk( e, got.shape, op.name + ":declared-after", "batch " + std::to_string( b ) );
            }
        } );
    };
    auto s2 = shapes( 3, 3 );
    for ( auto const& h : shapes( 2, 3 ) ) for ( auto const& w : s2 )
    {
        Shape one = h, o; one.insert( one.begin(), 1 );
        for ( auto const& op : structural2<V>( one, w ) )
        {
            bool const cat = op.name.find( "conc" ) == 0, lead = !cat || op.name.find( " 0" ) != std::string::npos;     // the batch extents must agree unless concatenating along them
            two( op, h, w, lead ? std::vector<unsigned long>{ 2, 1, 3 } : std::vector<unsigned long>{ w[0] } );
        }
        if ( !bshape( one, w, o ) ) continue;
        for ( auto const& op : binary_broadcast<V>() )
        {
            std::vector<unsigned long> bs; for ( unsigned long b : { 2ul, 1ul, 3ul } ) { Shape x = one, q; x[0] = b; if ( bshape( x, w, q ) ) bs.push_back( b ); }
            two( op, h, w, bs );
        }
    }
    // convolutions over a placeholder image
    for ( unsigned long R = 3; R <= 5; ++R ) for ( unsigned long C = 3; C <= 5; ++C ) for ( unsigned long kr = 1; kr <= 3; ++kr ) for ( unsigned long kc = 1; kc <= 3; ++kc ) for ( unsigned long st = 0; st < 4; ++st ) for ( int same = 0; same < 2; ++same ) for ( int gen = 0; gen < 2; ++gen )
    {
        Axis const r{ R, kr, 1+st%2, 1 }, q{ C, kc, 1+st/2, 1 };
        if ( same && !gen && !( even_total( r ) && even_total( q ) ) ) continue;
        two( conv_op<V>( gen, R, C, r.s, q.s, 1, 1, same ), { R, C, 2 }, { 3, kr, kc, 2 }, { 2, 1, 3 } );
        if ( gen && ( !same || ( kr%2 && kc%2 ) ) ) two( tconv_op<V>( kr, kc, r.s, q.s, same ), { R, C, 2 }, { 3, kr, kc, 2 }, { 1 } );
    }
#else
    // chains: every operator after every structural operator
    std::vector<Shape> cs{ { 4 }, { 2, 3 }, { 3, 1, 2 }, { 1, 4 }, { 2, 4, 4, 1 } }; if ( c.thorough ) for ( auto const& s : shapes( 3, 3 ) ) cs.push_back( s );
    for ( auto const& s : cs )
        for ( auto const& f : all1( s, false ) )
        {
            Shape const m = f.f( { fill( s, 1 ) } ).shape; if ( m.empty() ) continue;
            c.test( "chain|" + f.name + "|" + str( s ), [&]
            {
                auto& se = fresh_session<V>(); ceras::variable<TT> x( to_c<V>( fill( s, 1 ) ) ); auto inner = f.build( { any<V>( x ) } ); T const mid = f.f( { round_to<V>( fill( s, 1 ) ) } );
                for ( auto const& g : all1( m, false ) )
                {
                    auto e = g.build( { inner } ); T const want = g.f( { mid } );
                    chk( e, want.shape, "chain:declared", g.name );
                    auto const got = to_r( se.run( e ) ); c.trans(); c.state( hash( got, hash_str( f.name+g.name ) ) );
                    c.check( got.shape == want.shape, "chain:produced", [&]{ return g.name + " got " + str( got.shape ) + " expected " + str( want.shape ); } );
                    chk( e, got.shape, "chain:declared-after", g.name );
                    if ( got.shape == want.shape ) same( c, got, want, "chain:value", sizeof(V) == 4 ? 1e-4 : 1e-9, g.name );
                }
            } );
        }
#endif
}
MC_MAIN( explore )
