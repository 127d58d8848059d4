// C22 (users of the loops): tensor operations, operators, activations, losses, optimizers and regularisation on tensors
// large enough to be worked on in parallel, for several numbers of cores and orders of execution.  Every memory access
// made while workers are alive is checked against all accesses concurrent with it under fork/join order: without such a
// conflict all interleavings are equivalent to the one executed.
#include "ops_elem.hpp"
#include "ops_struct.hpp"
#include "ops_conv.hpp"
#include "sched.hpp"
#ifndef GROUP
#define GROUP 0
#endif
using namespace ref; using namespace mc;
typedef float V; typedef ceras::tensor<V> TT; typedef ceras::variable<TT> Var;
static char const* modes[] = { "eager", "fifo", "lifo" };

// runs the body for every number of cores and order; `always`: the body must have started workers
template<typename F> static void all( Ctx& c, std::string const& key, F const& body )
{
    c.test( key, [&]
    {
        for ( unsigned int cores : c.thorough ? std::vector<unsigned int>{ 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 32, 64, 128 } : std::vector<unsigned int>{ 2, 3, 4, 5, 8, 16, 64 } ) for ( int m = 0; m < 3; ++m )
        {
            fresh_session<V>(); ceras::learning_phase = 1; ceras::random_generator.seed( 77 ); mc::cores = cores; sched::reset( (sched::Mode)m );
            body( cores, modes[m] );
            c.state( mix( hash_str( key ), sched::control.created*8+sched::control.regions ) );
            if ( sched::control.live ) { c.fail( "workers-left", key ); sched::control.live = 0; }
            c.check( sched::control.races == 0, "race", [&]{ return std::string( sched::control.race ) + ", " + std::to_string( cores ) + " cores"; } );
            if ( c.case_fails ) return;
        }
    } );
}
static void op_case( Ctx& c, Op<V> const& op, std::vector<T> const& x, std::string const& key, double ts = 3e4 )
{
    all( c, op.name + "|" + key, [&]( unsigned int cores, char const* mode )
    {
        std::vector<Operand<V>> in; std::vector<Any<V>> ex; for ( auto const& t : x ) { in.emplace_back( round_to<V>( t ), variable_leaf ); ex.push_back( in.back().ex ); }
        auto e = op.build( ex ); check_once( c, op, e, in, op.deviant ? FWD : FWD|BWD, 3, ts, std::to_string( cores ) + " cores " + mode );
    } );
}
static T in_domain( Op<V> const& op, Shape const& s )
{
    std::vector<double> d; for ( double x : value_grid( false ) ) { double const y = (V)x; if ( std::fabs( y ) < 9 && op.domain( y ) && op.smooth( y ) ) d.push_back( y ); }
    T t( s ); for ( unsigned long i = 0; i < t.size(); ++i ) t[i] = d[( i*7+3 )%d.size()]; return t;
}
static void explore( Ctx& c )
{
    using namespace ceras;
    std::vector<Shape> const big = c.thorough ? std::vector<Shape>{ { 9 }, { 10 }, { 11 }, { 12 }, { 16 }, { 17 }, { 18 }, { 31 }, { 32 }, { 64 }, { 65 }, { 129 }, { 3, 3 }, { 3, 5 }, { 2, 3, 2 }, { 33 }, { 5, 13 }, { 2, 3, 3, 2 } } : std::vector<Shape>{ { 9 }, { 10 }, { 17 }, { 3, 5 }, { 2, 3, 3, 2 }, { 33 }, { 5, 13 } };
    if ( GROUP == 0 || GROUP == 1 )
    {
        for ( auto const& ops : { maths<V>(), activations<V>() } ) for ( auto const& op : ops ) for ( auto const& s : big ) op_case( c, op, { in_domain( op, s ) }, str( s ) );
        std::vector<std::pair<Shape,Shape>> const pairs{ { { 3, 5 }, { 3, 5 } }, { { 3, 5 }, { 5 } }, { { 1, 5 }, { 4, 5 } }, { { 12 }, { 12 } }, { { 1 }, { 12 } }, { { 3, 3, 2 }, { 3, 2 } }, { { 3, 1, 4 }, { 3, 4, 1 } } };
        for ( auto const& p : pairs ) for ( auto const& op : binary_broadcast<V>() ) op_case( c, op, { fill( p.first, 1, 1.5 ), fill( p.second, 2, 1.5 ) }, str( p.first ) + str( p.second ) );
        for ( auto const& s : big ) for ( auto const& op : binary_same<V>() ) op_case( c, op, { fill( s, 4, 2.0 ), fill( s, 9, 2.0 ) }, str( s ) );
    }
    if ( GROUP == 0 || GROUP == 2 )
    {
        auto many = shapes( 3, c.thorough ? 5 : 4 ); for ( Shape s : { Shape{ 11 }, Shape{ 17 }, Shape{ 2, 2, 3, 2 }, Shape{ 2, 9 }, Shape{ 2, 1, 3, 4 } } ) many.push_back( s );
        for ( auto const& s : many ) if ( prod( s ) > 8 && prod( s ) <= ( c.thorough ? 36 : 24 ) ) for ( auto const& op : structural1<V>( s ) ) if ( op.name != "reduce_mean" ) op_case( c, op, { fill( s, 1 ) }, str( s ) );
        std::vector<std::pair<Shape,Shape>> const pairs{ { { 3, 4 }, { 3, 4 } }, { { 3, 4 }, { 4, 3 } }, { { 2, 3, 2 }, { 2, 3, 2 } }, { { 2, 2, 2, 3 }, { 2, 2, 2, 3 } }, { { 4, 9 }, { 9, 4 } } };
        for ( auto const& p : pairs ) for ( auto const& op : structural2<V>( p.first, p.second ) ) op_case( c, op, { fill( p.first, 2 ), fill( p.second, 5 ) }, str( p.first ) + str( p.second ) );
        for ( Shape s : { Shape{ 2, 4, 4, 2 }, Shape{ 1, 5, 3, 1 }, Shape{ 3, 2, 6, 1 }, Shape{ 1, 4, 6, 3 } } ) for ( auto const& op : image1<V>( s ) ) op_case( c, op, { fill( s, 1 ) }, str( s ) );
        for ( bool same : { true, false } ) for ( unsigned long st : { 1ul, 2ul } ) if ( !same || st == 1 ) { op_case( c, conv_op<V>( false, 3+2*st, 3+2*st, st, st, 1, 1, same ), { fill( { 2, 3+2*st, 3+2*st, 2 }, 1 ), fill( { 3, 3, 3, 2 }, 2 ) }, "conv" ); op_case( c, tconv_op<V>( 3, 3, st, st, same ), { fill( { 2, 3, 3, 2 }, 1 ), fill( { 2, 3, 3, 2 }, 2 ) }, "tconv" ); }
    }
    if ( GROUP == 0 || GROUP == 3 )
    {
        // the same values on one core, as the definition (their correctness is the subject of C02-C07 and C17-C19)
        auto alone = [&]( auto const& f ){ fresh_session<V>(); ceras::learning_phase = 1; ceras::random_generator.seed( 77 ); mc::cores = 1; return f(); };
        auto agree = [&]( std::string const& key, auto const& f )
        {
            all( c, key, [&]( unsigned int cores, char const* mode )
            {
                auto const got = f(); c.trans(); unsigned long const n = sched::control.created; mc::cores = 1; auto const want = alone( f );
                for ( unsigned long i = 0; i < got.size(); ++i ) same( c, got[i], want[i], "depends-on-cores", 0, std::to_string( cores ) + " cores " + mode + " #" + std::to_string( i ) ); (void)n;
            } );
        };
        for ( auto const& s : big )
        {
            T const a = round_to<V>( fill( s, 1, 1.5 ) ), b = round_to<V>( fill( s, 2, 1.5 ) ); auto num = str( s );
            auto tensor_op = [&]( std::string const& name, auto const& f ){ agree( "tensor " + name + "|" + num, [&]{ auto x = to_c<V>( a ), y = to_c<V>( b ); Ts r; r.push_back( to_r( f( x, y ) ) ); r.push_back( to_r( x ) ); r.push_back( to_r( y ) ); return r; } ); };
#define TO( name, expr ) tensor_op( name, []( auto& x, auto& y ){ return expr; } )
            TO( "x+y", x+y ); TO( "x-y", x-y ); TO( "hadamard", ceras::hadamard_product( x, y ) ); TO( "elementwise_product", ceras::elementwise_product( x, y ) ); TO( "elementwise_divide", ceras::elementwise_divide( x, y ) );
            TO( "x+1", x+V(1) ); TO( "2-x", V(2)-x ); TO( "x*3", x*V(3) ); TO( "x/3", x/V(3) ); TO( "-x", -x ); TO( "x+=y", x+=y ); TO( "x-=y", x-=y ); TO( "x*=y", x*=y ); TO( "x/=y", x/=y ); TO( "x+=1", x+=V(1) ); TO( "x-=1", x-=V(1) ); TO( "x*=2", x*=V(2) ); TO( "x/=2", x/=V(2) );
            TO( "x+=x", x+=x ); TO( "x-=x", x-=x ); TO( "x*=x", x*=x ); TO( "clip", ceras::clip( x, V(-0.5), V(0.5) ) ); TO( "softmax", ceras::softmax( x ) ); TO( "abs", ceras::abs( x ) ); TO( "standard_deviation", ceras::standard_deviation( x, 0ul, true ) ); TO( "variance", ceras::variance( x, 0ul, true ) );
            tensor_op( "map", []( auto& x, auto& ){ x.map( []( auto& v ){ v = v*v-1; } ); return x; } );
            tensor_op( "deep_copy", []( auto& x, auto& ){ return x.deep_copy(); } );
        }
        // losses and their gradients, softmax over rows
        auto loss = [&]( std::string const& name, auto const& f, Shape const& s, bool positive )
        {
            agree( "loss " + name + "|" + str( s ), [&]
            {
                T a = fill( s, 3, 0.4 ), b = fill( s, 5, 0.4 ); if ( positive ) { for ( auto& x : a.v ) x = 0.5+x/2; for ( auto& x : b.v ) x = 0.5+x/2; }
                place_holder<TT> gt; Var x{ to_c<V>( b ) }; auto& ses = get_default_session<TT>(); ses.bind( gt, to_c<V>( a ) ); auto e = f( gt, x ); x.gradient() = zeros_like( x.data() ); Ts r; r.push_back( to_r( ses.run( e ) ) ); TT one{ { 1 } }; one[0] = 1; e.backward( ones<V>( { 1 } ) ); r.push_back( to_r( x.gradient() ) ); return r;
            } );
        };
#define LO( name, pos ) loss( #name, []( auto const& a, auto const& b ){ return ceras::name( a, b ); }, s, pos )
        for ( Shape s : { Shape{ 3, 5 }, Shape{ 11, 1 }, Shape{ 2, 9 } } ) { LO( mean_squared_error, false ); LO( mean_absolute_error, false ); LO( squared_loss, false ); LO( mean_squared_logarithmic_error, true ); LO( abs_loss, false ); LO( binary_cross_entropy_loss, true ); LO( cross_entropy_loss, true ); LO( hinge_loss, false ); }
        // optimizers with regularised variables, several steps
        auto opt = [&]( std::string const& name, auto const& make )
        {
            for ( Shape s : { Shape{ 3, 5 }, Shape{ 18 } } ) agree( "optimizer " + name + "|" + str( s ), [&]
            {
                auto& ses = get_default_session<TT>(); Var x{ to_c<V>( fill( s, 3 ) ), 0.125f, 0.25f, true }; auto e = sum_reduce( square( x ) ); auto o = make( e ); Ts r; for ( int k = 0; k < 4; ++k ) { ses.run( e ); ses.run( o ); r.push_back( to_r( x.data() ) ); } return r;
            } );
        };
        opt( "sgd", []( auto& e ){ return SGD( 1ul, 0.1f, 0.5f )( e ); } ); opt( "sgd nesterov", []( auto& e ){ return SGD( 1ul, 0.1f, 0.5f, 0.1f, true )( e ); } ); opt( "adagrad", []( auto& e ){ return Adagrad( 1ul, 0.1f )( e ); } ); opt( "rmsprop", []( auto& e ){ return RMSprop( 1ul, 0.1f )( e ); } ); opt( "adadelta", []( auto& e ){ return Adadelta( 1ul, 0.9f )( e ); } ); opt( "adam", []( auto& e ){ return Adam( 1ul, 0.1f )( e ); } );
        // phases
        auto phase = [&]( std::string const& name, auto const& f, Shape const& s )
        {
            for ( int ph : { 1, 0 } ) agree( name + "|" + str( s ) + "|phase " + std::to_string( ph ), [&]
            {
                auto& ses = get_default_session<TT>(); learning_phase = 1; Var x{ to_c<V>( fill( s, 3 ) ) }; auto e = f( x ); Ts r; r.push_back( to_r( ses.run( e ) ) ); learning_phase = ph; r.push_back( to_r( ses.run( e ) ) ); x.gradient() = zeros_like( x.data() ); e.backward( to_c<V>( fill( e.forward().shape(), 5 ) ) ); r.push_back( to_r( x.gradient() ) ); return r;
            } );
        };
        for ( Shape s : { Shape{ 3, 5 }, Shape{ 4, 3, 2 } } )
        {
            phase( "dropout", []( auto& x ){ return ceras::dropout( 0.5f )( x ); }, s );
            phase( "normalization", [s]( auto& x ){ return ceras::normalization_batch( 0.9f )( x ); }, s );
        }
        phase( "random_normal_like", []( auto& x ){ return ceras::random_normal_like( 0.0f, 1.0f )( x ); }, { 3, 5 } );
        phase( "softmax", []( auto& x ){ return ceras::softmax( x ); }, { 3, 11 } );
        phase( "prelu", []( auto& x ){ return ceras::prelu( 0.2f )( x ); }, { 3, 11 } );
    }
}
MC_MAIN( explore )
