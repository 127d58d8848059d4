// C14: every expression graph (straight-line program over the operators, with all sharing patterns) up to a number of
// operator nodes: value, gradients of all variables, and independence of two expressions sharing nodes.
// ALPHA 1: matrices, 2: images
#include "ops_conv.hpp"
#include "ops_elem.hpp"
#ifndef ALPHA
#define ALPHA 1
#endif
using namespace ref; using namespace mc;
typedef double V; typedef ceras::tensor<V> TT; typedef Any<V> A;

struct GOp { Op<V> op; std::function<bool(std::vector<Shape> const&)> fits; std::function<bool(Ts const&)> smooth; };
static bool any_shapes( std::vector<Shape> const& ) { return true; }
static bool always( Ts const& ) { return true; }
static bool away( T const& x, double k ) { for ( auto z : x.v ) if ( std::fabs( z-k ) < 1e-7 ) return false; return true; }

static std::vector<GOp> alphabet( bool small )
{
    std::vector<GOp> v; F1 one = []( double ){ return 1.0; };
    F2 o2 = []( double, double ){ return 1.0; }, m2 = []( double, double ){ return -1.0; };
    // makers are created once and used for every node, as user code does with layers
    if ( ALPHA == 1 )
    {
        auto two_d = []( std::vector<Shape> const& s ){ for ( auto const& x : s ) if ( x.size() != 2 ) return false; return true; };
        auto un = [&]( std::string const& n, std::function<A(A const&)> b, F1 f, F1 df, std::function<bool(Ts const&)> sm = always ){ v.push_back( { unary_op<V>( n, b, f, df ), any_shapes, sm } ); };
        auto bi = [&]( std::string const& n, std::function<A(A const&,A const&)> b, F2 f, F2 dl, F2 dr, std::function<bool(Ts const&)> sm = always ){ v.push_back( { binary_op<V>( n, b, f, dl, dr ), any_shapes, sm } ); };
        auto not0 = []( Ts const& x ){ return away( x[0], 0 ); };
        un( "neg", []( A const& e ){ return any<V>( -e ); }, []( double x ){ return -x; }, []( double ){ return -1.0; } );
        un( "relu", []( A const& e ){ return any<V>( ceras::relu( e ) ); }, []( double x ){ return std::max( x, 0.0 ); }, []( double x ){ return x > 0 ? 1.0 : 0.0; }, not0 );
        auto lr = ceras::leaky_relu( V( 0.3 ) ); un( "leaky", [lr]( A const& e ){ return any<V>( lr( e ) ); }, []( double x ){ return x > 0 ? x : 0.3*x; }, []( double x ){ return x > 0 ? 1.0 : 0.3; }, not0 );
        un( "tanh", []( A const& e ){ return any<V>( ceras::tanh( e ) ); }, []( double x ){ return std::tanh( x ); }, []( double x ){ return 1-std::pow( std::tanh( x ), 2 ); } );
        v.push_back( { gather1<V>( "tr", []( A const& e ){ return any<V>( ceras::transpose( e ) ); }, []( Shape const& s ){ return Shape{ s[1], s[0] }; }, []( Shape const& ix, Shape const& ){ return std::vector<Shape>{ { ix[1], ix[0] } }; } ), two_d, always } );
        v.push_back( { gather1<V>( "sum", []( A const& e ){ return any<V>( ceras::sum_reduce( e ) ); }, []( Shape const& ){ return Shape{ 1 }; }, []( Shape const&, Shape const& s ){ std::vector<Shape> o; for ( unsigned long i = 0; i < prod( s ); ++i ) o.push_back( unravel( i, s ) ); return o; } ), any_shapes, always } );
        if ( !small )
        {
            un( "square", []( A const& e ){ return any<V>( ceras::square( e ) ); }, []( double x ){ return x*x; }, []( double x ){ return 2*x; } );
            un( "2*", []( A const& e ){ return any<V>( V(2)*e ); }, []( double x ){ return 2*x; }, []( double ){ return 2.0; } );
            un( "+1", []( A const& e ){ return any<V>( e+1 ); }, []( double x ){ return x+1; }, one );
            auto cl = ceras::clip( V( -0.6 ), V( 0.8 ) ); un( "clip", [cl]( A const& e ){ return any<V>( cl( e ) ); }, []( double x ){ return std::max( -0.6, std::min( 0.8, x ) ); }, []( double x ){ return x > -0.6 && x < 0.8 ? 1.0 : 0.0; }, []( Ts const& x ){ return away( x[0], -0.6 ) && away( x[0], 0.8 ); } );
            un( "sigmoid", []( A const& e ){ return any<V>( ceras::sigmoid( e ) ); }, []( double x ){ return 1/(1+std::exp(-x)); }, []( double x ){ double s = 1/(1+std::exp(-x)); return s*(1-s); } );
            auto fl = ceras::flip( 0 ); v.push_back( { gather1<V>( "flip0", [fl]( A const& e ){ return any<V>( fl( e ) ); }, []( Shape const& s ){ return s; }, []( Shape ix, Shape const& s ){ ix[0] = s[0]-1-ix[0]; return std::vector<Shape>{ ix }; } ), any_shapes, always } );
            v.push_back( { relabel<V>( "id", []( A const& e ){ return any<V>( ceras::identity( e ) ); }, []( Shape const& s ){ return s; } ), any_shapes, always } );
            auto rs = ceras::reduce_sum( 0 ); v.push_back( { gather1<V>( "rsum0", [rs]( A const& e ){ return any<V>( rs( e ) ); }, []( Shape const& s ){ return without( s, 0 ); }, []( Shape const& ix, Shape const& s ){ std::vector<Shape> o; for ( unsigned long i = 0; i < s[0]; ++i ) o.push_back( with( ix, 0, i ) ); return o; } ), two_d, always } );
            { Op<V> o; o.name = "softmax"; o.build = []( auto const& e ){ return any<V>( ceras::softmax( e[0] ) ); }; for ( auto const& q : structural1<V>( { 2, 2 } ) ) if ( q.name == "softmax" ) { o.f = q.f; o.vjp = q.vjp; } v.push_back( { o, any_shapes, always } ); }
        }
        bi( "+", []( A const& a, A const& b ){ return any<V>( a+b ); }, []( double x, double y ){ return x+y; }, o2, o2 );
        bi( ".*", []( A const& a, A const& b ){ return any<V>( ceras::elementwise_product( a, b ) ); }, []( double x, double y ){ return x*y; }, []( double, double y ){ return y; }, []( double x, double ){ return x; } );
        if ( !small )
        {
            bi( "-", []( A const& a, A const& b ){ return any<V>( a-b ); }, []( double x, double y ){ return x-y; }, o2, m2 );
            v.push_back( { binary_op<V>( "max", []( A const& a, A const& b ){ return any<V>( ceras::maximum( a, b ) ); }, []( double x, double y ){ return std::max( x, y ); }, []( double x, double y ){ return x > y ? 1.0 : 0.0; }, []( double x, double y ){ return x > y ? 0.0 : 1.0; } ),
                []( std::vector<Shape> const& s ){ return s[0] == s[1]; }, []( Ts const& x ){ for ( unsigned long i = 0; i < x[0].size(); ++i ) if ( std::fabs( x[0][i]-x[1][i] ) < 1e-7 ) return false; return true; } } );
        }
        {
            Op<V> o; for ( auto const& q : structural2<V>( { 2, 2 }, { 2, 2 } ) ) if ( q.name == "a*b" ) o = q;
            o.name = "@"; v.push_back( { o, [two_d]( std::vector<Shape> const& s ){ return two_d( s ) && s[0][1] == s[1][0]; }, always } );
        }
    }
    else
    {
        auto d4 = []( std::vector<Shape> const& s ){ for ( auto const& x : s ) if ( x.size() != 4 || x[1] < 2 || x[2] < 2 || x[1] > 8 || x[3] > 4 ) return false; return true; };
        auto add = [&]( Op<V> o, std::function<bool(std::vector<Shape> const&)> fit, std::function<bool(Ts const&)> sm = always ){ v.push_back( { o, [=]( std::vector<Shape> const& s ){ return d4( s ) && fit( s ); }, sm } ); };
        auto img = image1<V>( { 1, 4, 4, 1 }, 1 ); auto by = [&]( std::string const& n ){ for ( auto const& o : img ) if ( o.name == n ) return o; abort(); };
        auto mp = ceras::max_pooling_2d( 2 ); auto om = by( "max_pooling_2d 2" ); om.build = [mp]( auto const& e ){ return any<V>( mp( e[0] ) ); };
        add( om, any_shapes, []( Ts const& x ){ Shape const& s = x[0].shape; for ( unsigned long b = 0; b < s[0]; ++b ) for ( unsigned long i = 0; i+1 < s[1]; i += 2 ) for ( unsigned long j = 0; j+1 < s[2]; j += 2 ) for ( unsigned long q = 0; q < s[3]; ++q ) { std::vector<double> w; for ( int k = 0; k < 4; ++k ) w.push_back( x[0][ ravel( { b, i+k/2, j+k%2, q }, s ) ] ); std::sort( w.begin(), w.end() ); if ( w[3]-w[2] < 1e-7 ) return false; } return true; } );
        auto ap = ceras::average_pooling_2d( 2 ); auto oa = by( "average_pooling_2d 2" ); oa.build = [ap]( auto const& e ){ return any<V>( ap( e[0] ) ); }; if ( !small ) add( oa, any_shapes );
        auto us = ceras::up_sampling_2d( 2 ); auto ou = by( "up_sampling_2d 2" ); ou.build = [us]( auto const& e ){ return any<V>( us( e[0] ) ); }; add( ou, []( auto const& s ){ return s[0][1] <= 4 && s[0][2] <= 4; } );
        auto zp = ceras::zero_padding_2d( { 1 } ); auto oz = by( "zero_padding_2d 1" ); oz.build = [zp]( auto const& e ){ return any<V>( zp( e[0] ) ); }; if ( !small ) add( oz, any_shapes );
        auto cr = ceras::cropping_2d( { 1 } ); auto oc = by( "cropping_2d 1" ); oc.build = [cr]( auto const& e ){ return any<V>( cr( e[0] ) ); }; if ( !small ) add( oc, []( auto const& s ){ return s[0][1] > 2 && s[0][2] > 2; } );
        auto lr = ceras::leaky_relu( V( 0.3 ) ); add( unary_op<V>( "leaky", [lr]( A const& e ){ return any<V>( lr( e ) ); }, []( double x ){ return x > 0 ? x : 0.3*x; }, []( double x ){ return x > 0 ? 1.0 : 0.3; } ), any_shapes, []( Ts const& x ){ return away( x[0], 0 ); } );
        auto fl = ceras::flip( 2 ); if ( !small ) add( gather1<V>( "flip2", [fl]( A const& e ){ return any<V>( fl( e ) ); }, []( Shape const& s ){ return s; }, []( Shape ix, Shape const& s ){ ix[2] = s[2]-1-ix[2]; return std::vector<Shape>{ ix }; } ), any_shapes );
        auto same_shape = []( auto const& s ){ return s[0] == s[1]; };
        add( binary_op<V>( "+", []( A const& a, A const& b ){ return any<V>( a+b ); }, []( double x, double y ){ return x+y; }, o2, o2 ), same_shape );
        if ( !small ) add( binary_op<V>( ".*", []( A const& a, A const& b ){ return any<V>( ceras::elementwise_product( a, b ) ); }, []( double x, double y ){ return x*y; }, []( double, double y ){ return y; }, []( double x, double ){ return x; } ), same_shape );
        auto ct = ceras::concatenate( 3 ); for ( auto o : structural2<V>( { 1, 2, 2, 1 }, { 1, 2, 2, 1 } ) ) if ( o.name == "concatenate(axe)(l,r) 3" ) { o.build = [ct]( auto const& e ){ return any<V>( ct( e[0], e[1] ) ); }; add( o, []( auto const& s ){ return s[0][1] == s[1][1] && s[0][2] == s[1][2]; } ); }
        auto gc = ceras::general_conv2d( 1, 1, 1, 1, "same" ); auto og = conv_op<V>( true, 0, 0, 1, 1, 1, 1, true ); og.name = "conv"; og.build = [gc]( auto const& e ){ return any<V>( gc( e[0], e[1] ) ); };
        v.push_back( { og, [d4]( auto const& s ){ return d4( { s[0] } ) && s[1].size() == 4 && s[1][1] == 3 && s[1][2] == 3 && s[1][0] == 2 && s[1][3] == s[0][3]; }, always } );
        auto gs = ceras::general_conv2d( 2, 1, 1, 1, "valid" ); auto oh = conv_op<V>( true, 0, 0, 2, 1, 1, 1, false ); oh.name = "convs2"; oh.build = [gs]( auto const& e ){ return any<V>( gs( e[0], e[1] ) ); };
        if ( !small ) v.push_back( { oh, [d4]( auto const& s ){ return d4( { s[0] } ) && s[1].size() == 4 && s[1][1] == 3 && s[1][2] == 3 && s[1][0] == 2 && s[1][3] == s[0][3] && s[0][1] >= 3 && s[0][2] >= 3; }, always } );
    }
    return v;
}

struct Node { int op; std::vector<int> in; };
struct World
{
    std::vector<T> leaf; std::vector<Leaf> kind; std::vector<Operand<V>> opd;
    std::vector<GOp> const& al; std::vector<Node> prog; std::vector<A> ex; std::vector<T> val; std::vector<bool> smooth;
    World( std::vector<GOp> const& a ) : al( a ) {}
    // total derivative of node `out` with upstream gradient g, at every leaf
    std::vector<T> grad( int out, T const& g ) const
    {
        std::vector<T> d; for ( auto const& x : val ) d.emplace_back( x.shape );
        d[out] = g;
        for ( int i = out; i >= (int)leaf.size(); --i )
        {
            auto const& n = prog[i-leaf.size()]; Ts x; for ( int j : n.in ) x.push_back( val[j] );
            auto v = al[n.op].op.vjp( x, d[i] );
            for ( unsigned long k = 0; k < v.size(); ++k ) for ( unsigned long q = 0; q < v[k].size(); ++q ) d[n.in[k]][q] += v[k][q];
        }
        return d;
    }
    bool smooth_below( int out ) const
    {
        std::vector<bool> need( out+1 ); need[out] = true; bool ok = true;
        for ( int i = out; i >= (int)leaf.size(); --i ) if ( need[i] ) { if ( !smooth[i] ) ok = false; for ( int j : prog[i-leaf.size()].in ) need[j] = true; }
        return ok;
    }
    bool uses_all() const    // every operator node feeds the last one
    {
        int const out = val.size()-1; std::vector<bool> need( out+1 ); need[out] = true;
        for ( int i = out; i >= (int)leaf.size(); --i ) { if ( !need[i] ) return false; for ( int j : prog[i-leaf.size()].in ) need[j] = true; }
        return true;
    }
    std::string str() const { std::string o; for ( auto const& n : prog ) { o += al[n.op].op.name + "("; for ( int j : n.in ) o += ( j < (int)leaf.size() ? std::string( 1, "abpk"[j] ) : "n" + std::to_string( j-leaf.size() ) ) + ","; o.back() = ')'; o += ";"; } return o; }
    bool fits( Node const& n ) const { std::vector<Shape> s; for ( int j : n.in ) s.push_back( val[j].shape ); return al[n.op].fits( s ); }
    void push( Node const& n, bool build )
    {
        Ts x; std::vector<A> e; for ( int j : n.in ) { x.push_back( val[j] ); if ( build ) e.push_back( ex[j] ); }
        val.push_back( al[n.op].op.f( x ) ); smooth.push_back( al[n.op].smooth( x ) ); prog.push_back( n ); if ( build ) ex.push_back( al[n.op].op.build( e ) );
    }
    void pop( bool build ) { val.pop_back(); smooth.pop_back(); prog.pop_back(); if ( build ) ex.pop_back(); }
    std::vector<Node> choices() const
    {
        std::vector<Node> r; int const n = val.size();
        for ( int o = 0; o < (int)al.size(); ++o )
            if ( al[o].op.arity == 1 ) { for ( int i = 0; i < n; ++i ) { Node q{ o, { i } }; if ( fits( q ) ) r.push_back( q ); } }
            else for ( int i = 0; i < n; ++i ) for ( int j = 0; j < n; ++j ) { Node q{ o, { i, j } }; if ( fits( q ) ) r.push_back( q ); }
        return r;
    }
};

static void explore( Ctx& c )
{
    auto const big = alphabet( false ), small = alphabet( true );
    auto setup = [&]( World& w, bool live )
    {
        std::vector<Shape> s; std::vector<Leaf> k;
        if ( ALPHA == 1 ) { s = { { 2, 2 }, { 2, 2 }, { 2, 2 } }; k = { variable_leaf, variable_leaf, placeholder_leaf }; }
        else { s = { { 2, 4, 4, 1 }, { 2, 3, 3, 2 }, { 2, 4, 4, 2 }, { 2, 3, 3, 1 } }; k = { variable_leaf, variable_leaf, placeholder_leaf, variable_leaf }; }
        for ( unsigned long i = 0; i < s.size(); ++i ) { w.leaf.push_back( fill( s[i], 3*i+1, 0.8 ) ); w.kind.push_back( k[i] ); }
        w.val = w.leaf; w.smooth.assign( w.leaf.size(), true );
        if ( live ) for ( unsigned long i = 0; i < s.size(); ++i ) { w.opd.emplace_back( w.leaf[i], k[i] ); }
        if ( live ) for ( auto& o : w.opd ) w.ex.push_back( o.ex );
    };
    auto close_enough = []( T const& a, T const& b ){ if ( a.shape != b.shape ) return false; double m = 1; for ( auto x : b.v ) m = std::max( m, std::fabs( x ) ); for ( unsigned long i = 0; i < a.size(); ++i ) if ( !( std::fabs( a[i]-b[i] ) <= 1e-9*m ) ) return false; return true; };
    auto zero = [&]( World& w ){ for ( auto& o : w.opd ) if ( o.kind == variable_leaf ) o.var[0].gradient() = ceras::zeros_like( o.var[0].data() ); };
    auto judge = [&]( World& w )
    {
        auto& s = ceras::get_default_session<TT>(); int const out = w.val.size()-1, L = w.leaf.size();
        for ( auto x : w.val[out].v ) if ( !( std::fabs( x ) < 1e8 ) ) return;
        auto const got = to_r( s.run( w.ex[out] ) ); c.trans(); c.state( hash( got, prod( got.shape ) ) );
        if ( !c.check( close_enough( got, w.val[out] ), "value", [&]{ return w.str() + " got " + str( got ) + " expected " + str( w.val[out] ); } ) ) return;
        bool const sm = w.smooth_below( out );
        T const g1 = fill( w.val[out].shape, 3 ); std::vector<T> d1;
        if ( sm )
        {
            d1 = w.grad( out, g1 );
            zero( w ); w.ex[out].backward( to_c( g1 ) ); c.trans();
            for ( int i = 0; i < L; ++i ) if ( w.kind[i] == variable_leaf )
                c.check( close_enough( w.opd[i].gradient(), d1[i] ), "gradient", [&]{ return w.str() + " d/d" + "abpk"[i] + " got " + str( w.opd[i].gradient() ) + " expected " + str( d1[i] ); } );
        }
        // another expression sharing nodes is evaluated in between
        int const other = out-1;
        if ( other >= L )
        {
            ceras::run( w.ex[out] ); auto const g = to_r( ceras::run( w.ex[other] ) ); c.trans( 2 );
            c.check( close_enough( g, w.val[other] ), "value-of-other", [&]{ return w.str() + " got " + str( g ) + " expected " + str( w.val[other] ); } );
            if ( sm )
            {
                zero( w ); w.ex[out].backward( to_c( g1 ) );
                for ( int i = 0; i < L; ++i ) if ( w.kind[i] == variable_leaf )
                    c.check( close_enough( w.opd[i].gradient(), d1[i] ), "gradient-after-other", [&]{ return w.str() + " d/d" + "abpk"[i] + " got " + str( w.opd[i].gradient() ) + " expected " + str( d1[i] ); } );
                if ( w.smooth_below( other ) )
                {
                    T const g2 = fill( w.val[other].shape, 9 ); auto d2 = w.grad( other, g2 );
                    w.ex[other].backward( to_c( g2 ) ); c.trans( 2 );
                    for ( int i = 0; i < L; ++i ) if ( w.kind[i] == variable_leaf )
                    {
                        T t = d1[i]; for ( unsigned long q = 0; q < t.size(); ++q ) t[q] += d2[i][q];
                        c.check( close_enough( w.opd[i].gradient(), t ), "gradient-of-both", [&]{ return w.str() + " d/d" + "abpk"[i] + " got " + str( w.opd[i].gradient() ) + " expected " + str( t ); } );
                    }
                }
            }
        }
        for ( int i = 0; i < L; ++i ) c.check( close( w.opd[i].value(), w.leaf[i], 0 ), "leaf-modified", [&]{ return w.str() + " leaf " + "abpk"[i]; } );
    };
    // programs of n operator nodes: one case per prefix of n-1 nodes, looping over the last node
    std::function<void(std::vector<GOp> const&, World&, int, std::string const&)> rec = [&]( std::vector<GOp> const& al, World& w, int left, std::string const& tag )
    {
        if ( left == 1 )
        {
            auto const prefix = w.prog;
            c.test( tag + "|" + w.str(), [&, prefix]
            {
                fresh_session<V>(); World x( al ); setup( x, true ); for ( auto const& n : prefix ) x.push( n, true );
                for ( auto const& n : x.choices() ) { x.push( n, true ); if ( x.uses_all() ) judge( x ); x.pop( true ); }
            } );
            return;
        }
        for ( auto const& n : w.choices() ) { w.push( n, false ); rec( al, w, left-1, tag ); w.pop( false ); }
    };
    for ( int n = 1; n <= ( ALPHA == 1 ? 2 : 3 ); ++n ) { World w( big ); setup( w, false ); rec( big, w, n, "full " + std::to_string( n ) ); }
    if ( ALPHA == 1 ) { World w( small ); setup( w, false ); rec( small, w, 3, "core 3" ); }
    if ( c.thorough ) { if ( ALPHA == 1 ) { World w( big ); setup( w, false ); rec( big, w, 3, "full 3" ); } { World w( small ); setup( w, false ); rec( small, w, 4, "core 4" ); } }
}
MC_MAIN( explore )
