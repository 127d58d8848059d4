// C15: every history (run / run and differentiate, with changing bindings, batch sizes and shapes) of one expression gives
// what a freshly built expression gives; a shared sub-expression is evaluated once per run.
// GROUP 1 unary element-wise, 2 binary element-wise, 3 structural, 4 images, 5 convolutions, 6 sharing and rebinding
#include "ops_conv.hpp"
#include "ops_elem.hpp"
#ifndef GROUP
#define GROUP 1
#endif
using namespace ref; using namespace mc;
typedef double V; typedef ceras::tensor<V> TT; typedef Any<V> A;

// all histories of `op` over the given inputs; mode 0: run, 1: run and differentiate
static void histories( Ctx& c, Op<V> const& op, std::vector<Ts> const& inputs, Leaf kind, int depth, std::string const& key )
{
    int const n = inputs.size(), modes = kind == variable_leaf && !op.deviant ? 2 : 1, al = n*modes;
    unsigned long total = 1; for ( int i = 0; i < depth; ++i ) total *= al;
    for ( int first = 0; first < al; ++first )
        c.test( op.name + "|" + key + "|" + ( kind == variable_leaf ? "variable" : "placeholder" ) + "|" + std::to_string( first ), [&,first]
        {
            for ( unsigned long h = 0; h < total/al; ++h )
            {
                fresh_session<V>();
                std::vector<int> steps{ first }; unsigned long q = h; for ( int i = 1; i < depth; ++i ) { steps.push_back( q%al ); q /= al; }
                std::vector<Operand<V>> in; std::vector<A> ex;
                for ( auto const& x : inputs[ first%n ] ) { in.emplace_back( x, kind ); ex.push_back( in.back().ex ); }
                auto e = op.build( ex ); std::string where;
                for ( int i = 0; i < depth; ++i )
                {
                    int const s = steps[i]; where += ( i ? "," : "history " ) + std::to_string( s%n ) + ( s/n ? "b" : "f" );
                    if ( i ) for ( unsigned long k = 0; k < in.size(); ++k ) in[k].set( inputs[s%n][k] );
                    check_once( c, op, e, in, s/n ? FWD|BWD : FWD, 3+s+7*i, 1, where );
                }
                if ( c.case_fails ) return;
            }
        } );
}
// the same operator with the same parameters for every shape it may be asked to take: found by name
static void by_name( Ctx& c, std::vector<Ts> const& inputs, std::function<std::vector<Op<V>>(Ts const&)> registry, int depth, std::string const& key )
{
    auto first = registry( inputs[0] );
    for ( auto const& op : first )
    {
        bool everywhere = true;
        for ( auto const& x : inputs ) { bool found = false; for ( auto const& o : registry( x ) ) if ( o.name == op.name ) found = true; everywhere = everywhere && found; }
        if ( everywhere ) for ( Leaf k : { variable_leaf, placeholder_leaf } ) histories( c, op, inputs, k, depth, key );
    }
}
static std::string shapes_of( std::vector<Ts> const& in ) { std::string o; for ( auto const& x : in ) { o += o.empty() ? "" : ";"; for ( auto const& t : x ) o += str( t.shape ); } return o; }

#if GROUP == 6
struct Counting { A ex; std::shared_ptr<int> n; std::shared_ptr<T> last; };
static Counting counting( A const& x, bool random )
{
    Counting r; r.n = std::make_shared<int>( 0 ); r.last = std::make_shared<T>(); auto n = r.n; auto last = r.last;
    if ( random )
    {
        auto noisy = ceras::random_normal_like( 0.5, 2.0 )( x );
        r.ex = any<V>( ceras::make_unary_operator( [n,last]<ceras::Tensor Ts_>( Ts_ const& t ){ ++*n; *last = to_r( t ); return t; }, []<ceras::Tensor Ts_>( Ts_ const&, Ts_ const&, Ts_ const& g ){ return g; }, "counting" )( noisy ) );
    }
    else r.ex = any<V>( ceras::make_unary_operator( [n,last]<ceras::Tensor Ts_>( Ts_ const& t ){ ++*n; auto y = ceras::deep_copy( t ); for ( auto& z : y ) z = z*z - 1; *last = to_r( y ); return y; },
                                                []<ceras::Tensor Ts_>( Ts_ const& i, Ts_ const&, Ts_ const& g ){ auto y = ceras::deep_copy( g ); for ( unsigned long k = 0; k < y.size(); ++k ) y[k] *= 2*i[k]; return y; }, "counting" )( x ) );
    return r;
}
#endif

static void explore( Ctx& c )
{
    int const depth = c.thorough ? 4 : 3;
#if GROUP == 1
    std::vector<Op<V>> un = maths<V>(); for ( auto& o : activations<V>() ) un.push_back( o );
    for ( auto const& op : un )
    {
        std::vector<double> dom; for ( double x : value_grid( false ) ) if ( op.domain( x ) && op.smooth( x ) ) dom.push_back( x );
        auto in = [&]( Shape const& s, unsigned long salt ){ T x( s ); for ( unsigned long i = 0; i < x.size(); ++i ) x[i] = dom[ ( i*5 + salt*13 ) % dom.size() ]; return Ts{ x }; };
        for ( Leaf k : { variable_leaf, placeholder_leaf } ) histories( c, op, { in( { 2, 3 }, 1 ), in( { 33, 5 }, 2 ) }, k, depth, "[2,3],[33,5]" );
        for ( Leaf k : { variable_leaf, placeholder_leaf } ) histories( c, op, { in( { 2, 3 }, 1 ), in( { 2, 3 }, 2 ), in( { 1, 3 }, 3 ), in( { 3, 3 }, 4 ) }, k, depth, "[2,3],[2,3]',[1,3],[3,3]" );
    }
#elif GROUP == 2
    for ( auto const& ops : { binary_same<V>(), binary_broadcast<V>() } ) for ( auto const& op : ops )
    {
        auto in = [&]( Shape const& a, Shape const& b, unsigned long s ){ return Ts{ fill( a, s, 1.5 ), fill( b, s+3, 1.5 ) }; };
        std::vector<std::vector<Ts>> sets{ { in( { 2, 3 }, { 2, 3 }, 1 ), in( { 2, 3 }, { 2, 3 }, 2 ), in( { 1, 3 }, { 1, 3 }, 3 ), in( { 3, 3 }, { 3, 3 }, 4 ) } };
        sets.push_back( { in( { 2, 3 }, { 2, 3 }, 1 ), in( { 33, 5 }, { 33, 5 }, 2 ) } );
        bool const bc = ops.size() > 6;
        if ( bc ) { sets.push_back( { in( { 2, 3 }, { 3 }, 1 ), in( { 2, 3 }, { 2, 3 }, 2 ), in( { 1, 3 }, { 3 }, 3 ), in( { 3 }, { 2, 3 }, 4 ) } ); sets.push_back( { in( { 2, 2 }, { 1, 2 }, 1 ), in( { 2, 2 }, { 2, 1 }, 2 ), in( { 2, 1 }, { 1, 2 }, 3 ), in( { 1, 1 }, { 2, 2 }, 4 ) } ); }
        for ( auto const& s : sets ) for ( Leaf k : { variable_leaf, placeholder_leaf } ) histories( c, op, s, k, depth, shapes_of( s ) );
    }
#elif GROUP == 3
    auto one = []( Shape const& s, unsigned long salt ){ return Ts{ fill( s, salt ) }; };
    auto reg1 = []( Ts const& x ){ return structural1<V>( x[0].shape ); };
    for ( auto const& s : std::vector<std::vector<Ts>>{ { one( { 2, 3 }, 1 ), one( { 2, 3 }, 2 ), one( { 1, 3 }, 3 ), one( { 3, 3 }, 4 ) }, { one( { 2, 2, 2 }, 1 ), one( { 1, 2, 2 }, 2 ), one( { 3, 2, 2 }, 3 ) },
                                                       { one( { 2, 6 }, 1 ), one( { 3, 4 }, 2 ), one( { 4, 3 }, 3 ) }, { one( { 2, 1, 3 }, 1 ), one( { 3, 1, 2 }, 2 ), one( { 1, 1, 3 }, 3 ) }, { one( { 3 }, 1 ), one( { 2 }, 2 ), one( { 6 }, 3 ) } } )
        by_name( c, s, reg1, depth, shapes_of( s ) );
    { std::vector<Ts> const s{ one( { 2, 3 }, 1 ), one( { 33, 5 }, 2 ) }; by_name( c, s, reg1, depth, shapes_of( s ) ); }
    auto two = []( Shape const& a, Shape const& b, unsigned long s ){ return Ts{ fill( a, s ), fill( b, s+4 ) }; };
    auto reg2 = []( Ts const& x ){ return structural2<V>( x[0].shape, x[1].shape ); };
    for ( auto const& s : std::vector<std::vector<Ts>>{ { two( { 2, 3 }, { 3, 2 }, 1 ), two( { 1, 3 }, { 3, 2 }, 2 ), two( { 3, 3 }, { 3, 2 }, 3 ), two( { 2, 2 }, { 2, 3 }, 4 ) }, { two( { 2, 3 }, { 2, 1 }, 1 ), two( { 1, 3 }, { 1, 1 }, 2 ), two( { 3, 2 }, { 3, 2 }, 3 ) },
                                                       { two( { 2, 2 }, { 1, 2 }, 1 ), two( { 1, 2 }, { 3, 2 }, 2 ), two( { 2, 3 }, { 2, 3 }, 3 ) }, { two( { 2, 2, 2 }, { 2, 2, 2 }, 1 ), two( { 1, 2, 2 }, { 1, 2, 2 }, 2 ), two( { 3, 2, 1 }, { 3, 2, 1 }, 3 ) } } )
        by_name( c, s, reg2, depth, shapes_of( s ) );
#elif GROUP == 4
    auto one = []( Shape const& s, unsigned long salt ){ return Ts{ fill( s, salt ) }; };
    auto reg = []( Ts const& x ){ return image1<V>( x[0].shape, 1 ); };
    for ( auto const& s : std::vector<std::vector<Ts>>{ { one( { 2, 4, 4, 1 }, 1 ), one( { 2, 4, 4, 1 }, 2 ), one( { 1, 4, 4, 1 }, 3 ), one( { 3, 4, 4, 1 }, 4 ) }, { one( { 1, 4, 6, 1 }, 1 ), one( { 1, 6, 4, 1 }, 2 ), one( { 1, 5, 3, 2 }, 3 ) }, { one( { 2, 3, 3, 2 }, 1 ), one( { 1, 3, 3, 2 }, 2 ), one( { 2, 4, 4, 1 }, 3 ) } } )
        by_name( c, s, reg, depth, shapes_of( s ) );
#elif GROUP == 5
    auto in = []( Shape const& a, Shape const& b, unsigned long s ){ return Ts{ fill( a, s ), fill( b, s+4 ) }; };
    Shape const k{ 2, 3, 3, 2 };
    std::vector<Ts> batches{ in( { 2, 3, 3, 2 }, k, 1 ), in( { 2, 3, 3, 2 }, k, 2 ), in( { 1, 3, 3, 2 }, k, 3 ), in( { 3, 3, 3, 2 }, k, 4 ) };      // a convolution takes its spatial extents from the declared shapes; batch size and values change
    for ( int same = 0; same < 2; ++same ) for ( unsigned long s = 1; s <= 2; ++s )
    {
        std::vector<std::pair<Op<V>,std::vector<Ts>>> todo;
        if ( !( same && s == 2 ) ) todo.push_back( { conv_op<V>( false, 3, 3, s, s, 1, 1, same ), batches } );
        todo.push_back( { conv_op<V>( true, 0, 0, s, s, 1, 1, same ), batches } );
        todo.push_back( { tconv_op<V>( 3, 3, s, s, same ), batches } );
        for ( auto const& t : todo ) for ( Leaf l : { variable_leaf, placeholder_leaf } ) histories( c, t.first, t.second, l, 3, shapes_of( t.second ) );
    }
    auto one = []( Shape const& s, unsigned long salt ){ return Ts{ fill( s, salt ) }; };
    for ( unsigned long p = 0; p < 2; ++p ) for ( unsigned long s = 1; s <= 2; ++s )
        for ( auto const& t : std::vector<std::vector<Ts>>{ { one( { 2, 3, 3, 1 }, 1 ), one( { 1, 3, 3, 1 }, 2 ), one( { 3, 3, 3, 1 }, 3 ) }, { one( { 1, 3, 4, 1 }, 1 ), one( { 1, 4, 3, 1 }, 2 ), one( { 1, 3, 3, 2 }, 3 ) } } )
            for ( Leaf l : { variable_leaf, placeholder_leaf } ) histories( c, img2col_op<V>( 2, 2, p, p, s, s, 1, 1 ), t, l, depth, shapes_of( t ) );
#else
    // a counted (or random) node used any number of times: programs of up to 3 binary nodes over it and a variable
    for ( int random = 0; random < 2; ++random )
    {
        struct N { int op, l, r; }; char const* on[3] = { "+", "-", ".*" };
        std::function<void(std::vector<N> const&,int)> rec = [&]( std::vector<N> const& prog, int left )
        {
            if ( !prog.empty() )
            {
                std::string key = random ? "random|" : "counting|"; for ( auto const& n : prog ) key += std::to_string( n.l ) + on[n.op] + std::to_string( n.r ) + ";";
                c.test( "share|" + key, [&]
                {
                    auto& s = fresh_session<V>();
                    Operand<V> w( fill( { 2, 2 }, 1 ), variable_leaf ), p( fill( { 2, 2 }, 2 ), placeholder_leaf );
                    auto k = counting( random ? p.ex : w.ex, random );
                    std::vector<A> e{ k.ex, w.ex };
                    for ( auto const& n : prog ) e.push_back( n.op == 0 ? any<V>( e[n.l]+e[n.r] ) : n.op == 1 ? any<V>( e[n.l]-e[n.r] ) : any<V>( ceras::elementwise_product( e[n.l], e[n.r] ) ) );
                    std::vector<char> uses( e.size() ); uses[0] = 1; for ( unsigned long i = 0; i < prog.size(); ++i ) uses[i+2] = uses[prog[i].l] || uses[prog[i].r];
                    T previous;
                    for ( int step = 1; step <= 4; ++step )
                    {
                        // step 3 binds another batch, step 4 goes back
                        if ( step == 3 ) { p.set( fill( { 1, 2 }, 5 ) ); w.set( fill( { 1, 2 }, 6 ) ); } if ( step == 4 ) { p.set( fill( { 2, 2 }, 7 ) ); w.set( fill( { 2, 2 }, 8 ) ); }
                        *k.n = 0; auto const got = to_r( step%2 ? s.run( e.back() ) : ceras::run( e.back() ) ); c.trans();
                        std::vector<T> v{ *k.last, w.value() };
                        if ( uses.back() ) c.check( *k.n == 1, "evaluated-once", [&]{ return "run " + std::to_string( step ) + ": evaluated " + std::to_string( *k.n ) + " times"; } ); else v[0] = T( v[1].shape );
                        for ( auto const& n : prog ) { T y = v[n.l]; for ( unsigned long i = 0; i < y.size(); ++i ) y[i] = n.op == 0 ? v[n.l][i]+v[n.r][i] : n.op == 1 ? v[n.l][i]-v[n.r][i] : v[n.l][i]*v[n.r][i]; v.push_back( y ); }
                        same( c, got, v.back(), "occurrences-agree", 1e-9, "run " + std::to_string( step ) ); c.state( hash( got ) );
                        if ( random && uses.back() ) { c.check( !( v[0].shape == previous.shape && close( v[0], previous, 1e-12 ) ), "random-anew-each-run", "the same sample twice" ); previous = v[0]; }
                        if ( !random )
                        {
                            // derivative with respect to w
                            std::vector<T> d; for ( auto const& x : v ) d.emplace_back( x.shape ); T const g = fill( v.back().shape, step ); d.back() = g;
                            for ( int i = (int)prog.size()-1; i >= 0; --i ) { auto const& n = prog[i]; for ( unsigned long q = 0; q < g.size(); ++q ) { double const u = d[i+2][q]; if ( n.op == 0 ) { d[n.l][q] += u; d[n.r][q] += u; } else if ( n.op == 1 ) { d[n.l][q] += u; d[n.r][q] -= u; } else { double const a = v[n.l][q], b = v[n.r][q]; d[n.l][q] += u*b; d[n.r][q] += u*a; } } }
                            T want = d[1]; if ( uses.back() ) { auto const wv = w.value(); for ( unsigned long q = 0; q < want.size(); ++q ) want[q] += d[0][q]*2*wv[q]; }
                            w.var[0].gradient() = ceras::zeros_like( w.var[0].data() );
                            e.back().backward( to_c( g ) ); c.trans();
                            same( c, w.gradient(), want, "gradient", 1e-9, "run " + std::to_string( step ) );
                        }
                    }
                } );
            }
            if ( left == 0 ) return;
            int const n = prog.size()+2;
            for ( int o = 0; o < 3; ++o ) for ( int l = 0; l < n; ++l ) for ( int r = 0; r < n; ++r )
            {
                if ( prog.size() && l != n-1 && r != n-1 ) continue;        // every node feeds the next ones
                auto q = prog; q.push_back( { o, l, r } ); rec( q, left-1 );
            }
        };
        rec( {}, c.thorough ? 4 : 3 );
    }
    // histories over three expressions of two placeholders: bind either (three values of different batch sizes), rebind, run any
    {
        std::vector<T> const vals{ fill( { 2, 2 }, 1 ), fill( { 2, 2 }, 2 ), fill( { 1, 2 }, 3 ) };
        int const D = c.thorough ? 6 : 5, al = 3+3+3; std::vector<int> steps;
        std::function<void()> rec = [&]
        {
            if ( (int)steps.size() == D-2 )
            {
                std::string key; for ( int s : steps ) key += std::to_string( s );
                c.test( "rebind|" + key, [&]
                {
                    for ( int tail = 0; tail < al*al; ++tail )
                    {
                        auto all = steps; all.push_back( tail%al ); all.push_back( tail/al );
                        auto& s = fresh_session<V>(); ceras::place_holder<TT> p, q; ceras::variable<TT> w( to_c( vals[1] ) );
                        int bp = 0, bq = 1; s.bind( p, to_c( vals[0] ) ); s.bind( q, to_c( vals[1] ) );
                        auto e0 = ceras::relu( p ) - V(2)*ceras::sigmoid( p ); auto e1 = ceras::elementwise_product( ceras::square( p ), p ) + ceras::tanh( q ) ; auto e2 = ceras::sum_reduce( ceras::relu( w )+ceras::leaky_relu( V(0.5) )( q ) );
                        for ( int st : all )
                        {
                            if ( st < 3 ) { if ( st == 1 ) s.rebind( p, to_c( vals[st] ) ); else s.bind( p, to_c( vals[st] ) ); bp = st; }
                            else if ( st < 6 ) { if ( st == 4 ) s.rebind( q, to_c( vals[st-3] ) ); else ceras::bind( q, to_c( vals[st-3] ) ); bq = st-3; }
                            else
                            {
                                T const &x = vals[bp], &y = vals[bq]; T want;
                                if ( st == 6 ) { want = x; for ( auto& z : want.v ) z = std::max( z, 0.0 ) - 2/(1+std::exp(-z)); auto const g = to_r( s.run( e0 ) ); same( c, g, want, "value-0" ); }
                                else if ( st == 7 )
                                {
                                    T a = x; for ( auto& z : a.v ) z = z*z*z; T b = y; for ( auto& z : b.v ) z = std::tanh( z );
                                    if ( a.shape != b.shape && a.shape[0] != 1 && b.shape[0] != 1 ) continue;
                                    T big = a.size() >= b.size() ? a : b; for ( unsigned long i = 0; i < big.size(); ++i ) big[i] = a[i%a.size()] + b[i%b.size()];
                                    auto const g = to_r( s.run( e1 ) ); same( c, g, big, "value-1" );
                                }
                                else
                                {
                                    T a = vals[1]; double t = 0; T b = y; for ( auto& z : b.v ) z = z > 0 ? z : 0.5*z; for ( unsigned long i = 0; i < a.size(); ++i ) t += std::max( a[i], 0.0 ) + b[i%b.size()];
                                    auto const g = to_r( s.run( e2 ) ); same( c, g, T( Shape{ 1 }, { t } ), "value-2" );
                                }
                                c.trans();
                            }
                        }
                        if ( c.case_fails ) return;
                    }
                } );
                return;
            }
            for ( int s = 0; s < al; ++s ) { steps.push_back( s ); rec(); steps.pop_back(); }
        };
        rec();
    }
#endif
}
MC_MAIN( explore )
