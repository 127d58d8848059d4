// C20: every layer in every configuration of its options: the parameters it creates, its value, its gradients (regularisation
// included), and the same for every chain of two layers.
#include "ops_elem.hpp"
#include "ops_conv.hpp"
using namespace ref; using namespace mc;
#ifndef GROUP
#define GROUP 0
#endif
typedef float V; typedef ceras::tensor<V> TT; typedef Any<V> A; typedef ceras::variable<TT> Var;
static double const ts = 3e4;
static auto& sess() { return ceras::get_default_session<TT>(); }

enum Init { zero, one, spread };
struct P { Shape shape; Init init; double l1, l2; };
struct L
{
    std::string name;
    std::function<A(A const&)> build;
    std::function<std::vector<P>(Shape const&)> params;      // from the declared shape of the input
    Op<V> op;                                                // over { x, parameters... }
    int idle = 0;                                            // how many more parameters may exist that stay zero and untrained
};
// gradients of regularised parameters
static Ts with_reg( Ts d, Ts const& x, std::vector<P> const& p )
{
    for ( unsigned long i = 0; i < p.size(); ++i ) for ( unsigned long j = 0; j < d[i+1].size(); ++j ) d[i+1][j] += p[i].l1*( x[i+1][j] >= 0 ? 1 : -1 ) + 2*p[i].l2*x[i+1][j];
    return d;
}
struct Built { A e; std::vector<Var> par; std::vector<Var> idle; };
// finds the parameters a layer created and gives them their roles
static bool adopt( Ctx& c, L const& l, Shape const& in, std::vector<int> const& before, Built& b, unsigned long salt )
{
    std::vector<Var> fresh; for ( auto& [id, v] : sess().variables_ ) if ( std::find( before.begin(), before.end(), id ) == before.end() ) fresh.push_back( v );
    std::vector<int> used( fresh.size() ); auto const want = l.params( in );
    for ( unsigned long i = 0; i < want.size(); ++i )
    {
        bool found = false;
        for ( unsigned long j = 0; j < fresh.size() && !found; ++j )
        {
            if ( used[j] || !fresh[j].trainable() ) continue;
            T const v = to_r( fresh[j].data() ); if ( v.size() != prod( want[i].shape ) ) continue;
            if ( want[i].init == spread ? v.shape != want[i].shape : v.shape.back() != want[i].shape.back() ) continue;
            bool zeros = true, ones = true, finite = true; for ( double z : v.v ) { zeros = zeros && z == 0; ones = ones && z == 1; finite = finite && std::isfinite( z ); }
            if ( !( want[i].init == zero ? zeros : want[i].init == one ? ones : finite && !zeros && !( ones && v.size() > 1 ) ) ) continue;
            used[j] = 1; found = true; T const t = round_to<V>( fill( v.shape, salt+i ) ); fresh[j].data() = to_c<V>( t ); b.par.push_back( fresh[j] );
        }
        if ( !c.check( found, l.name + ":parameter-missing", [&]{ std::string s = "no trainable parameter of shape " + str( want[i].shape ) + " with initial value " + ( want[i].init == zero ? "0" : want[i].init == one ? "1" : "random" ) + ", created:"; for ( auto& f : fresh ) s += " " + str( to_r( f.data() ) ) + ( f.trainable() ? "" : "(frozen)" ); return s; } ) ) return false;
    }
    for ( unsigned long j = 0; j < fresh.size(); ++j ) if ( !used[j] )
    {
        bool zeros = true; for ( double z : to_r( fresh[j].data() ).v ) zeros = zeros && z == 0;
        c.check( zeros && !fresh[j].trainable(), l.name + ":parameter-too-many", [&]{ return str( to_r( fresh[j].data() ) ); } ); b.idle.push_back( fresh[j] );
    }
    c.check( b.idle.size() <= (unsigned long)l.idle, l.name + ":parameter-too-many", [&]{ return std::to_string( b.idle.size() ); } );
    return true;
}
static std::vector<int> ids() { std::vector<int> r; for ( auto& [id, v] : sess().variables_ ) r.push_back( id ); return r; }
static Shape tail( Shape s ) { s.erase( s.begin() ); return s; }

static void one_layer( Ctx& c, L const& l, Shape const& xs, bool input, std::string const& key )
{
    c.test( l.name + "|" + str( xs ) + "|" + ( input ? "Input" : "variable" ) + key, [&]
    {
        fresh_session<V>(); Operand<V> x( round_to<V>( fill( xs, 1 ) ), input ? placeholder_leaf : variable_leaf );
        if ( input ) { x.ph[0] = ceras::Input( tail( xs ) ); x.ex = any<V>( x.ph[0] ); }
        auto const before = ids(); Built b; Shape const declared = x.ex.shape();
        if ( input ) c.check( declared.size() == xs.size() && tail( declared ) == tail( xs ), "Input:declared-shape", [&]{ return str( declared ); } );
        b.e = l.build( x.ex ); c.trans();
        if ( !adopt( c, l, xs, before, b, 2 ) ) return;
        if ( input ) x.set( round_to<V>( fill( xs, 1 ) ) );
        std::vector<Operand<V>> in{ x }; for ( auto& v : b.par ) { Operand<V> o( T( Shape{ 1 } ), variable_leaf ); o.var[0] = v; o.ex = any<V>( v ); in.push_back( o ); }
        auto const ps = l.params( xs ); Op<V> op = l.op; auto vj = op.vjp; if ( !vj ) { auto f = op.f; vj = [f]( Ts const& q, T const& g ){ return numeric_vjp( f, q, g ); }; }
        op.name = l.name; op.vjp = [=]( Ts const& q, T const& g ){ return with_reg( vj( q, g ), q, ps ); }; if ( l.op.tol > op.tol ) op.tol = l.op.tol;
        check_once( c, op, b.e, in, FWD|BWD|SHAPE, 3, ts, "first" );
        check_once( c, op, b.e, in, FWD|BWD|SHAPE, 6, ts, "second", "again:" );
        // another batch size, other parameters
        if ( xs.size() > 1 )
        {
            Shape y = xs; y[0] = xs[0]%3+1; in[0].set( round_to<V>( fill( y, 5 ) ) ); for ( unsigned long i = 1; i < in.size(); ++i ) in[i].set( round_to<V>( fill( in[i].value().shape, 9+i ) ) );
            check_once( c, op, b.e, in, FWD|BWD|SHAPE, 4, ts, "other batch", "other-batch:" );
        }
        // training moves the parameters and nothing else
        if ( b.par.size() )
        {
            Ts q; for ( auto& o : in ) q.push_back( o.value() );
            auto loss = any<V>( ceras::reduce_sum( ceras::square( b.e ) ) ); auto opt = ceras::sgd{ loss, 1ul, 0.0625f }; sess().run( loss ); sess().run( opt ); c.trans( 2 );
            for ( auto& v : b.idle ) for ( double z : to_r( v.data() ).v ) c.check( z == 0, l.name + ":untrained-parameter-moved", "" );
            T const y = l.op.f( q ); T g = y; for ( auto& z : g.v ) z *= 2; auto const d = with_reg( vj( q, g ), q, ps );
            for ( unsigned long i = 0; i < b.par.size(); ++i ) { T w = q[i+1]; for ( unsigned long j = 0; j < w.size(); ++j ) w[j] -= 0.0625*d[i+1][j]; same( c, to_r( b.par[i].data() ), w, l.name + ":training-step", 1e-3 ); }
        }
    } );
}
// ---------------------------------------------------------------- reference functions
static Op<V> dense_f( bool bias )
{
    Op<V> o; o.f = [=]( Ts const& x ){ unsigned long const n = x[0].shape[0], k = x[0].shape[1], m = x[1].shape[1]; T y( Shape{ n, m } ); for ( unsigned long i = 0; i < n; ++i ) for ( unsigned long j = 0; j < m; ++j ) { y[i*m+j] = bias ? x[2][j] : 0; for ( unsigned long q = 0; q < k; ++q ) y[i*m+j] += x[0][i*k+q]*x[1][q*m+j]; } return y; };
    o.vjp = [=]( Ts const& x, T const& g ){ unsigned long const n = x[0].shape[0], k = x[0].shape[1], m = x[1].shape[1]; Ts d; for ( auto const& t : x ) d.push_back( T( t.shape ) ); for ( unsigned long i = 0; i < n; ++i ) for ( unsigned long j = 0; j < m; ++j ) { if ( bias ) d[2][j] += g[i*m+j]; for ( unsigned long q = 0; q < k; ++q ) { d[0][i*k+q] += g[i*m+j]*x[1][q*m+j]; d[1][q*m+j] += g[i*m+j]*x[0][i*k+q]; } } return d; };
    return o;
}
static Op<V> biased( Op<V> const& k, bool bias )           // kernel operator plus a bias per channel
{
    Op<V> o; auto f = k.f; auto v = k.vjp;
    o.f = [=]( Ts const& x ){ T y = f( { x[0], x[1] } ); if ( bias ) for ( unsigned long i = 0; i < y.size(); ++i ) y[i] += x[2][i%x[2].size()]; return y; };
    o.vjp = [=]( Ts const& x, T const& g ){ Ts d = v( { x[0], x[1] }, g ); if ( bias ) { d.push_back( T( x[2].shape ) ); for ( unsigned long i = 0; i < g.size(); ++i ) d[2][i%x[2].size()] += g[i]; } return d; };
    return o;
}
static T reshaped( T t, Shape const& s ) { t.shape = s; return t; }
struct Reg { double kl1, kl2, bl1, bl2; std::string str() const { return std::to_string( kl1 ) + "," + std::to_string( kl2 ) + "," + std::to_string( bl1 ) + "," + std::to_string( bl2 ); } };
static std::vector<P> kb( Shape const& k, unsigned long n, bool bias, Reg const& r ) { std::vector<P> p{ { k, spread, r.kl1, r.kl2 } }; if ( bias ) p.push_back( { { n }, zero, r.bl1, r.bl2 } ); return p; }
static L dense( unsigned long n, bool bias, Reg const& r )
{
    L l; l.name = "Dense " + std::to_string( n ) + ( bias ? "" : " no bias" ) + " " + r.str(); l.idle = !bias; l.op = dense_f( bias );
    l.build = [=]( A const& x ){ return any<V>( ceras::Dense( n, bias, r.kl1, r.kl2, r.bl1, r.bl2 )( x ) ); };
    l.params = [=]( Shape const& s ){ return kb( { s.back(), n }, n, bias, r ); };
    return l;
}
static std::string S( std::vector<unsigned long> const& v ) { return str( v ); }
enum Kind { conv_new, conv_old, conv_t };
static L conv( Kind kind, unsigned long n, Shape const& k, bool same, Shape const& st, Shape const& di, bool bias, Reg const& r, Shape const& image )
{
    unsigned long const kr = k[0], kc = k.size() == 2 ? k[1] : k[0], sr = st[0], sc = st.size() == 2 ? st[1] : st[0], dr = di[0], dc = di.size() == 2 ? di[1] : di[0];
    L l; l.name = std::string( kind == conv_new ? "Conv2D " : kind == conv_old ? "Conv2D(input_shape) " : "Conv2DTranspose " ) + std::to_string( n ) + " k" + S( k ) + ( same ? " same" : " valid" ) + " s" + S( st ) + " d" + S( di ) + ( bias ? "" : " no bias" ) + " " + r.str(); l.idle = !bias;
    std::string const p = same ? "same" : "valid";
    l.op = biased( kind == conv_t ? tconv_op<V>( kr, kc, sr, sc, same ) : conv_op<V>( true, image[1], image[2], sr, sc, dr, dc, same ), bias );
    l.build = [=]( A const& x )
    {
        if ( kind == conv_new ) return any<V>( ceras::Conv2D( n, k, p, st, di, bias, r.kl1, r.kl2, r.bl1, r.bl2 )( x ) );
        if ( kind == conv_t ) return any<V>( ceras::Conv2DTranspose( n, k, p, st, di, bias, r.kl1, r.kl2, r.bl1, r.bl2 )( x ) );
        return any<V>( ceras::Conv2D( n, k, Shape{ image[1], image[2], image[3] }, p, st, di, bias, r.kl1, r.kl2, r.bl1, r.bl2 )( x ) );
    };
    l.params = [=]( Shape const& s ){ return kb( { n, kr, kc, s.back() }, n, bias, r ); };
    return l;
}
static L conv1( unsigned long n, unsigned long k, unsigned long s, bool same, unsigned long d, bool bias, Reg const& r )
{
    L l; l.name = "Conv1D " + std::to_string( n ) + " k" + std::to_string( k ) + ( same ? " same" : " valid" ) + " s" + std::to_string( s ) + " d" + std::to_string( d ) + ( bias ? "" : " no bias" ) + " " + r.str(); l.idle = !bias;
    auto o = biased( conv_op<V>( true, 0, 0, s, 1, d, 1, same ), bias ); auto f = o.f; auto v = o.vjp;
    auto wide = []( Ts x ){ Shape q = x[0].shape; x[0].shape = { q[0], q[1], 1, q[2] }; return x; };
    o.f = [=]( Ts const& x ){ T y = f( wide( x ) ); return reshaped( y, { y.shape[0], y.shape[1], y.shape[3] } ); };
    o.vjp = [=]( Ts const& x, T const& g ){ Ts d = v( wide( x ), reshaped( g, { g.shape[0], g.shape[1], 1, g.shape[2] } ) ); d[0].shape = x[0].shape; return d; };
    l.op = o; l.build = [=]( A const& x ){ return any<V>( ceras::Conv1D( n, k, s, same ? "same" : "valid", d, bias, r.kl1, r.kl2, r.bl1, r.bl2 )( x ) ); };
    l.params = [=]( Shape const& q ){ return kb( { n, k, 1, q.back() }, n, bias, r ); };
    return l;
}
static T bn( Ts const& x )
{
    unsigned long const ch = x[0].shape.back(), n = x[0].size()/ch; std::vector<double> a( ch ), v( ch ); T y = x[0];
    for ( unsigned long i = 0; i < y.size(); ++i ) a[i%ch] += x[0][i]/n;
    for ( unsigned long i = 0; i < y.size(); ++i ) v[i%ch] += ( x[0][i]-a[i%ch] )*( x[0][i]-a[i%ch] )/n;
    for ( unsigned long i = 0; i < y.size(); ++i ) y[i] = ( x[0][i]-a[i%ch] )/std::sqrt( v[i%ch]+1e-8 )*x[1][i%ch]+x[2][i%ch];
    return y;
}
static L norm( double mom, bool dflt, Reg const& r )
{
    L l; l.name = "BatchNormalization " + ( dflt ? std::string( "default" ) : std::to_string( mom ) ) + " " + r.str(); l.op.f = bn; l.op.tol = 1e-8;
    l.build = [=]( A const& x ){ return dflt ? any<V>( ceras::BatchNormalization()( x ) ) : any<V>( ceras::BatchNormalization( mom, r.kl1, r.kl2, r.bl1, r.bl2 )( x ) ); };
    l.params = [=]( Shape const& s ){ return std::vector<P>{ { { s.back() }, one, r.kl1, r.kl2 }, { { s.back() }, zero, r.bl1, r.bl2 } }; };
    return l;
}
static L plain( std::string const& name, Op<V> const& op, std::function<A(A const&)> const& b ) { L l; l.name = name; l.op = op; l.build = b; l.params = []( Shape const& ){ return std::vector<P>{}; }; return l; }
static Op<V> rearranged( std::function<Shape(Shape const&)> const& to ) { Op<V> o; o.f = [to]( Ts const& x ){ return reshaped( x[0], to( x[0].shape ) ); }; o.vjp = []( Ts const& x, T const& g ){ return Ts{ reshaped( g, x[0].shape ) }; }; return o; }
static Op<V> pointwise( std::function<double(double)> const& f, std::function<double(double)> const& d ) { Op<V> o; o.f = [f]( Ts const& x ){ T y = x[0]; for ( auto& z : y.v ) z = f( z ); return y; }; o.vjp = [d]( Ts const& x, T const& g ){ T y = g; for ( unsigned long i = 0; i < y.size(); ++i ) y[i] *= d( x[0][i] ); return Ts{ y }; }; return o; }
static L leaky( double a, bool dflt ) { return plain( "LeakyReLU " + std::to_string( a ), pointwise( [a]( double x ){ return x > 0 ? x : a*x; }, [a]( double x ){ return x > 0 ? 1 : a; } ), [=]( A const& x ){ return dflt ? any<V>( ceras::LeakyReLU()( x ) ) : any<V>( ceras::LeakyReLU( (V)a )( x ) ); } ); }
static L elu( double a, bool dflt ) { return plain( "ELU " + std::to_string( a ), pointwise( [a]( double x ){ return x > 0 ? x : a*( std::exp( x )-1 ); }, [a]( double x ){ return x > 0 ? 1 : a*std::exp( x ); } ), [=]( A const& x ){ return dflt ? any<V>( ceras::ELU()( x ) ) : any<V>( ceras::ELU( (V)a )( x ) ); } ); }
static L relu() { return plain( "ReLU", pointwise( []( double x ){ return x > 0 ? x : 0; }, []( double x ){ return x > 0; } ), []( A const& x ){ return any<V>( ceras::ReLU( x ) ); } ); }
static L softmax() { static L r = []{ for ( auto const& o : structural1<V>( { 1, 1 } ) ) if ( o.name == "softmax" ) return plain( "Softmax", o, []( A const& x ){ return any<V>( ceras::Softmax()( x ) ); } ); std::abort(); }(); return r; }
static L flatten() { return plain( "Flatten", rearranged( []( Shape const& s ){ return Shape{ s[0], prod( s )/s[0] }; } ), []( A const& x ){ return any<V>( ceras::Flatten()( x ) ); } ); }
static L reshape( Shape const& t ) { return plain( "Reshape " + S( t ), rearranged( [t]( Shape const& s ){ Shape r = t; r.insert( r.begin(), s[0] ); return r; } ), [t]( A const& x ){ return any<V>( ceras::Reshape( t )( x ) ); } ); }
static L reshape_all( Shape const& t ) { return plain( "Reshape(all) " + S( t ), rearranged( [t]( Shape const& ){ return t; } ), [t]( A const& x ){ return any<V>( ceras::Reshape( t, false )( x ) ); } ); }
static L pool( int kind, unsigned long s )
{
    std::string const want = ( kind == 0 ? "max_pooling_2d " : kind == 1 ? "average_pooling_2d " : "up_sampling_2d " ) + std::to_string( s );
    static std::vector<Op<V>> const ops = image1<V>( { 1, 1, 1, 1 }, 0 );
    for ( auto const& o : ops ) if ( o.name == want )
        return plain( ( kind == 0 ? "MaxPooling2D " : kind == 1 ? "AveragePooling2D " : "UpSampling2D " ) + std::to_string( s ), o, [=]( A const& x ){ return kind == 0 ? any<V>( ceras::MaxPooling2D( s )( x ) ) : kind == 1 ? any<V>( ceras::AveragePooling2D( s )( x ) ) : any<V>( ceras::UpSampling2D( s )( x ) ); } );
    std::abort();
}
static std::vector<Reg> regs() { return { { 0, 0, 0, 0 }, { 0.25, 0, 0, 0 }, { 0, 0.125, 0, 0 }, { 0, 0, 0.5, 0 }, { 0, 0, 0, 0.0625 }, { 0.25, 0.125, 0.5, 0.0625 } }; }

static void single( Ctx& c )
{
    auto const rs = regs(); Reg const none = rs[0], all = rs[5];
    if ( GROUP == 0 || GROUP == 1 )
    {
        for ( unsigned long b = 1; b <= 3; ++b ) for ( unsigned long i = 1; i <= ( c.thorough ? 6 : 4 ); ++i ) for ( unsigned long o = 1; o <= ( c.thorough ? 6 : 4 ); ++o ) for ( int bias = 0; bias < 2; ++bias ) for ( unsigned long r = 0; r < rs.size(); ++r ) for ( int in = 0; in < 2; ++in )
            one_layer( c, dense( o, bias, rs[r] ), { b, i }, in, "" );
        for ( Shape const& s : { Shape{ 33, 5 }, Shape{ 2, 65 }, Shape{ 70, 3 } } ) for ( unsigned long o : { 2ul, 17ul, 33ul } ) for ( int bias = 0; bias < 2; ++bias ) one_layer( c, dense( o, bias, none ), s, true, "" );
        one_layer( c, [&]{ auto l = dense( 3, true, none ); l.build = []( A const& x ){ return any<V>( ceras::Dense( 3 )( x ) ); }; return l; }(), { 2, 2 }, true, "|defaults" );
        for ( Shape const& s : { Shape{ 2, 3 }, Shape{ 3, 2 }, Shape{ 2, 3, 2 }, Shape{ 2, 2, 2, 2 }, Shape{ 3, 1, 2, 3 }, Shape{ 1, 2, 2, 1 }, Shape{ 40, 3 }, Shape{ 2, 5, 7, 3 } } ) for ( int in = 0; in < 2; ++in )
        {
            for ( auto const& r : rs ) for ( double m : { 0.5, 0.95 } ) one_layer( c, norm( m, false, r ), s, in, "" );
            one_layer( c, norm( 0.95, true, none ), s, in, "" );
        }
    }
    if ( GROUP == 0 || GROUP == 2 )
    {
        std::vector<Shape> const ks{ { 1 }, { 2 }, { 3 }, { 1, 2 }, { 3, 1 }, { 2, 3 }, { 3, 2 }, { 3, 3 } }, sts{ { 1, 1 }, { 2 }, { 1, 2 }, { 3, 1 }, { 2, 2 } }, dis{ { 1, 1 }, { 2 }, { 2, 1 }, { 1, 2 } };
        std::vector<Shape> images{ { 2, 3, 3, 1 }, { 1, 4, 5, 2 }, { 2, 5, 4, 2 }, { 3, 5, 5, 1 } }; if ( c.thorough ) for ( Shape s : { Shape{ 1, 6, 4, 3 }, Shape{ 2, 3, 6, 2 }, Shape{ 1, 7, 7, 1 } } ) images.push_back( s );
        int at = 0;
        for ( auto const& im : images ) for ( int same = 0; same < 2; ++same ) for ( auto const& k : ks ) for ( auto const& st : sts ) for ( auto const& di : dis ) for ( int bias = 0; bias < 2; ++bias )
        {
            Axis const r{ im[1], k[0], st[0], di[0] }, q{ im[2], k.back(), st.back(), di.back() };
            ++at; Reg const rg = at%3 ? none : rs[1+at/3%5]; unsigned long const n = 1+at%3;
            if ( fits( r, same ) && fits( q, same ) )
            {
                one_layer( c, conv( conv_new, n, k, same, st, di, bias, rg, im ), im, at&1, "" );
                if ( !same || ( even_total( r ) && even_total( q ) ) ) { one_layer( c, conv( conv_old, n, k, same, st, di, bias, rg, im ), im, !( at&1 ), "" ); }
            }
            if ( di == Shape{ 1, 1 } && !( same && ( k[0]%2 == 0 || k.back()%2 == 0 ) ) ) one_layer( c, conv( conv_t, n, k, same, st, di, bias, rg, im ), im, at&1, "" );
        }
        for ( auto const& r : rs ) { one_layer( c, conv( conv_new, 2, { 2, 2 }, false, { 1, 1 }, { 1, 1 }, true, r, images[0] ), images[0], true, "|regs" ); one_layer( c, conv( conv_t, 2, { 3, 3 }, true, { 2, 2 }, { 1, 1 }, true, r, images[0] ), images[0], true, "|regs" ); one_layer( c, conv( conv_old, 2, { 2, 2 }, false, { 1, 1 }, { 1, 1 }, true, r, images[0] ), images[0], true, "|regs" ); one_layer( c, conv1( 2, 2, 1, false, 1, true, r ), { 2, 3, 2 }, true, "|regs" ); }
        for ( unsigned long n = 1; n <= 6; ++n ) for ( unsigned long k = 1; k <= 3; ++k ) for ( unsigned long s = 1; s <= 3; ++s ) for ( unsigned long d = 1; d <= 2; ++d ) for ( int same = 0; same < 2; ++same ) for ( int bias = 0; bias < 2; ++bias )
            if ( fits( Axis{ n, k, s, d }, same ) ) { ++at; one_layer( c, conv1( 1+at%3, k, s, same, d, bias, at%3 ? none : rs[1+at/3%5] ), { 1+n%2, n, 1+at/2%2 }, at&1, "" ); }
        one_layer( c, [&]{ auto l = conv( conv_new, 2, { 2, 2 }, false, { 1, 1 }, { 1, 1 }, true, none, images[0] ); l.build = []( A const& x ){ return any<V>( ceras::Conv2D( 2, { 2, 2 } )( x ) ); }; return l; }(), images[0], true, "|defaults" );
        one_layer( c, [&]{ auto l = conv( conv_t, 2, { 2, 2 }, false, { 1, 1 }, { 1, 1 }, true, none, images[0] ); l.build = []( A const& x ){ return any<V>( ceras::Conv2DTranspose( 2, { 2, 2 } )( x ) ); }; return l; }(), images[0], true, "|defaults" );
        one_layer( c, [&]{ auto l = conv1( 2, 2, 1, false, 1, true, none ); l.build = []( A const& x ){ return any<V>( ceras::Conv1D( 2, 2 )( x ) ); }; return l; }(), { 2, 3, 2 }, true, "|defaults" );
    }
    if ( GROUP == 0 || GROUP == 3 )
    {
        auto ss = shapes( 3, 3 ); for ( Shape s : { Shape{ 2, 2, 3, 2 }, Shape{ 1, 4, 4, 1 }, Shape{ 2, 3, 5, 2 }, Shape{ 3, 6, 4, 1 }, Shape{ 33, 5 }, Shape{ 2, 50 }, Shape{ 9, 5, 7, 2 } } ) ss.push_back( s );
        for ( auto const& s : ss ) for ( int in = 0; in < 2; ++in )
        {
            if ( in && s.size() < 2 ) continue;
            for ( double a : { 0.0625, 0.2, 0.75 } ) { one_layer( c, leaky( a, false ), s, in, "" ); one_layer( c, elu( a, false ), s, in, "" ); }
            one_layer( c, leaky( (double)0.2f, true ), s, in, "|default" ); one_layer( c, elu( (double)0.2f, true ), s, in, "|default" ); one_layer( c, relu(), s, in, "" ); one_layer( c, softmax(), s, in, "" );
            if ( s.size() > 1 )
            {
                one_layer( c, flatten(), s, in, "" ); unsigned long const n = prod( s )/s[0];
                for ( unsigned long a = 1; a <= n; ++a ) if ( n%a == 0 ) { one_layer( c, reshape( { a, n/a } ), s, in, "" ); for ( unsigned long b = 1; b <= n/a; ++b ) if ( n/a%b == 0 ) one_layer( c, reshape( { a, b, n/a/b } ), s, in, "" ); }
                one_layer( c, reshape( { n } ), s, in, "" );
            }
            if ( s.size() == 4 ) for ( unsigned long k = 2; k <= 4; ++k ) for ( int p = 0; p < 3; ++p ) if ( p == 2 || ( s[1] >= k && s[2] >= k ) ) one_layer( c, pool( p, k ), s, in, "" );
        }
        // whole-tensor reshape: the new shape names the batch, too, so the batch stays as it is
        for ( auto const& s : ss ) c.test( "Reshape(all)|" + str( s ), [&]
        {
            for ( auto const& t : shapes( 3, 6 ) ) if ( prod( t ) == prod( s ) )
            {
                fresh_session<V>(); std::vector<Operand<V>> in; in.emplace_back( round_to<V>( fill( s, 2 ) ), variable_leaf ); auto l = reshape_all( t ); auto e = l.build( in[0].ex ); Op<V> op = l.op; op.name = l.name; check_once( c, op, e, in, FWD|BWD|SHAPE, 3, ts );
            }
        } );
        // merging layers
        struct M { std::string name; std::function<A(A const&,A const&)> build; std::function<double(double,double)> f; std::function<double(double,double)> dl, dr; };
        std::vector<M> const ms{ { "Add", []( A const& a, A const& b ){ return any<V>( ceras::Add()( a, b ) ); }, []( double a, double b ){ return a+b; }, []( double, double ){ return 1; }, []( double, double ){ return 1; } },
            { "Subtract", []( A const& a, A const& b ){ return any<V>( ceras::Subtract()( a, b ) ); }, []( double a, double b ){ return a-b; }, []( double, double ){ return 1; }, []( double, double ){ return -1; } },
            { "Multiply", []( A const& a, A const& b ){ return any<V>( ceras::Multiply()( a, b ) ); }, []( double a, double b ){ return a*b; }, []( double, double b ){ return b; }, []( double a, double ){ return a; } } };
        for ( auto const& s : ss ) for ( auto const& m : ms ) for ( int k = 0; k < 3; ++k )
            c.test( m.name + "|" + str( s ) + "|" + std::to_string( k ), [&]
            {
                fresh_session<V>(); std::vector<Operand<V>> in; in.emplace_back( round_to<V>( fill( s, 2 ) ), k == 1 ? placeholder_leaf : variable_leaf ); in.emplace_back( round_to<V>( fill( s, 4 ) ), k == 2 ? placeholder_leaf : variable_leaf );
                Op<V> o; o.name = m.name; o.arity = 2; auto f = m.f, dl = m.dl, dr = m.dr;
                o.f = [f]( Ts const& x ){ T y = x[0]; for ( unsigned long i = 0; i < y.size(); ++i ) y[i] = f( x[0][i], x[1][i] ); return y; };
                o.vjp = [dl,dr]( Ts const& x, T const& g ){ Ts d{ g, g }; for ( unsigned long i = 0; i < g.size(); ++i ) { d[0][i] *= dl( x[0][i], x[1][i] ); d[1][i] *= dr( x[0][i], x[1][i] ); } return d; };
                auto e = m.build( in[0].ex, in[1].ex ); check_once( c, o, e, in, FWD|BWD|SHAPE, 3, ts ); check_once( c, o, e, in, FWD|BWD, 6, ts, "again", "again:" );
            } );
        for ( auto const& s : ss ) for ( unsigned long ax = 0; ax <= s.size(); ++ax ) for ( unsigned long n = 1; n <= 3; ++n )
        {
            unsigned long const a = ax == s.size() ? ax-1 : ax; Shape t = s; t[a] = n;
            for ( auto const& o : structural2<V>( s, t ) ) if ( o.name == "concatenate(l,r)(axe) " + std::to_string( a ) )
                c.test( "Concatenate " + std::to_string( ax ) + "|" + str( s ) + "|" + str( t ), [&]
                {
                    fresh_session<V>(); std::vector<Operand<V>> in; in.emplace_back( round_to<V>( fill( s, 2 ) ), variable_leaf ); in.emplace_back( round_to<V>( fill( t, 4 ) ), variable_leaf ); Op<V> op = o; op.name = "Concatenate";
                    auto e = ax == s.size() ? any<V>( ceras::Concatenate()( in[0].ex, in[1].ex ) ) : any<V>( ceras::Concatenate( ax )( in[0].ex, in[1].ex ) ); check_once( c, op, e, in, FWD|BWD|SHAPE, 3, ts ); check_once( c, op, e, in, FWD|BWD, 6, ts, "again", "again:" );
                } );
        }
        // dropout: every output element is dropped or scaled, and passes the gradient accordingly; inference is the identity
        for ( auto const& s : ss ) for ( double rate : { 0.125, 0.5, 0.75 } ) c.test( "Dropout|" + std::to_string( rate ) + "|" + str( s ), [&]
        {
            fresh_session<V>(); T x = round_to<V>( fill( s, 1 ) ); for ( auto& z : x.v ) if ( std::abs( z ) < 0.01 ) z = 0.5; Var v( to_c<V>( x ) ); auto e = any<V>( ceras::Dropout( (V)rate )( any<V>( v ) ) );
            c.check( e.shape() == s, "Dropout:declared-shape", "" );
            for ( int pass = 0; pass < 4; ++pass )
            {
                ceras::learning_phase = pass != 2; auto const y = to_r( sess().run( e ) ); T const g = round_to<V>( fill( s, 3 ) ); v.gradient() = ceras::zeros_like( v.data() ); e.backward( to_c<V>( g ) ); auto const d = to_r( v.gradient() ); c.trans( 2 ); c.state( hash( y ) );
                if ( !c.check( y.shape == s && d.shape == s, "Dropout:shape", "" ) ) return;
                for ( unsigned long i = 0; i < y.size(); ++i )
                {
                    double const f = pass == 2 ? 1 : y[i] == 0 ? 0 : 1/( 1-rate );
                    c.check( std::abs( y[i]-x[i]*f ) < 1e-4, "Dropout:value", [&]{ return str( x ) + " " + str( y ); } ); c.check( std::abs( d[i]-g[i]*f ) < 1e-4, "Dropout:gradient", [&]{ return str( y ) + str( d ); } );
                }
            }
        } );
    }
}
// ---------------------------------------------------------------- one layer object applied to two inputs
template<typename F> static void twice( Ctx& c, L const& l, F f, Shape const& xs, Shape const& ys )
{
    int const depth = c.thorough ? 5 : 4;
    for ( int first = 0; first < 2; ++first ) for ( int type = 0; type < 2; ++type ) c.test( "twice|" + l.name + "|" + str( xs ) + str( ys ) + "|" + std::to_string( first ) + ( type ? "|Input" : "|variable" ), [&]
    {
        unsigned long total = 1; for ( int i = 1; i < depth; ++i ) total *= 4;
        for ( unsigned long h = 0; h < total; ++h )
        {
            fresh_session<V>(); auto layer = f(); std::vector<Operand<V>> in[2]; A e[2]; T want[2], g[2]; Ts d[2]; bool ran[2] = { false, false };
            for ( int k = 0; k < 2; ++k )
            {
                Shape const& sh = k ? ys : xs; T const v = round_to<V>( fill( sh, 1+k ) ); Operand<V> x( v, type ? placeholder_leaf : variable_leaf ); if ( type ) { x.ph[0] = ceras::Input( tail( sh ) ); x.ex = any<V>( x.ph[0] ); }
                auto const before = ids(); Built b; b.e = any<V>( layer( x.ex ) ); c.trans(); if ( !adopt( c, l, sh, before, b, 2+7*k ) ) return;
                if ( type ) x.set( v );
                e[k] = b.e; in[k].push_back( x ); Ts q{ v }; for ( auto& p : b.par ) { Operand<V> o( T( Shape{ 1 } ), variable_leaf ); o.var[0] = p; o.ex = any<V>( p ); in[k].push_back( o ); q.push_back( to_r( p.data() ) ); }
                want[k] = l.op.f( q ); g[k] = round_to<V>( fill( want[k].shape, 3+k ) ); d[k] = with_reg( l.op.vjp ? l.op.vjp( q, g[k] ) : numeric_vjp( l.op.f, q, g[k] ), q, l.params( sh ) );
            }
            unsigned long q = h; int step = first; std::string where;
            for ( int i = 0; i < depth; ++i )
            {
                if ( i ) { step = q%4; q /= 4; } where += std::to_string( step ); int const k = step%2;
                if ( step < 2 ) { auto const y = to_r( sess().run( e[k] ) ); c.trans(); ran[k] = true; c.state( hash( y, step ) ); same( c, y, want[k], l.name + ":applied-twice:value", 1e-3, where ); continue; }
                if ( !ran[k] ) break;
                for ( auto& side : in ) for ( auto& o : side ) if ( o.var.size() ) o.var[0].gradient() = ceras::zeros_like( o.var[0].data() );
                e[k].backward( to_c<V>( g[k] ) ); c.trans();
                for ( auto const& p : l.params( xs ) ) if ( p.l1 != 0 || p.l2 != 0 ) ran[k] = false; // a regularisation term is added once per evaluation
                for ( int m = 0; m < 2; ++m ) for ( unsigned long j = 0; j < in[m].size(); ++j ) if ( in[m][j].var.size() ) same( c, to_r( in[m][j].var[0].gradient() ), m == k ? d[m][j] : T( in[m][j].value().shape ), l.name + ":applied-twice:gradient", 5e-3, where );
            }
            if ( c.case_fails ) return;
        }
    } );
}
static void twices( Ctx& c )
{
    auto const rs = regs(); Reg const none = rs[0], all = rs[5]; using namespace ceras;
    for ( Shape const& y : { Shape{ 2, 3 }, Shape{ 3, 5 }, Shape{ 1, 2 } } )
    {
        twice( c, dense( 3, true, none ), []{ return Dense( 3 ); }, { 2, 3 }, y ); twice( c, dense( 2, true, all ), [=]{ return Dense( 2, true, all.kl1, all.kl2, all.bl1, all.bl2 ); }, { 2, 3 }, y ); twice( c, dense( 4, false, none ), []{ return Dense( 4, false ); }, { 2, 3 }, y );
        twice( c, leaky( 0.75, false ), []{ return LeakyReLU( 0.75f ); }, { 2, 3 }, y ); twice( c, elu( 0.75, false ), []{ return ELU( 0.75f ); }, { 2, 3 }, y ); twice( c, softmax(), []{ return Softmax(); }, { 2, 3 }, y );
    }
    for ( Shape const& y : { Shape{ 2, 4, 4, 1 }, Shape{ 1, 5, 4, 3 } } )
    {
        Shape const x{ 2, 4, 4, 1 };
        for ( int same = 0; same < 2; ++same )
        {
            std::string const p = same ? "same" : "valid";
            twice( c, conv( conv_new, 2, { 3, 3 }, same, { 1, 1 }, { 1, 1 }, true, all, x ), [=]{ return Conv2D( 2, { 3, 3 }, p, { 1, 1 }, { 1, 1 }, true, all.kl1, all.kl2, all.bl1, all.bl2 ); }, x, y );
            twice( c, conv( conv_t, 2, { 3, 3 }, same, { 2, 2 }, { 1, 1 }, true, none, x ), [=]{ return Conv2DTranspose( 2, { 3, 3 }, p, { 2, 2 } ); }, x, y );
        }
        twice( c, flatten(), []{ return Flatten(); }, x, y ); twice( c, pool( 0, 2 ), []{ return MaxPooling2D( 2 ); }, x, { y[0], 4, 6, y[3] } ); twice( c, pool( 1, 2 ), []{ return AveragePooling2D( 2 ); }, x, { y[0], 4, 6, y[3] } ); twice( c, pool( 2, 2 ), []{ return UpSampling2D( 2 ); }, x, y );
        twice( c, norm( 0.5, false, all ), [=]{ return BatchNormalization( 0.5f, all.kl1, all.kl2, all.bl1, all.bl2 ); }, x, y );
    }
    twice( c, norm( 0.95, true, none ), []{ return BatchNormalization(); }, { 3, 2 }, { 4, 3 } ); twice( c, ::reshape( Shape{ 3, 2 } ), []{ return Reshape( { 3, 2 } ); }, { 2, 6 }, { 1, 2, 3 } );
    twice( c, conv1( 2, 2, 1, false, 1, true, all ), [=]{ return Conv1D( 2, 2, 1, "valid", 1, true, all.kl1, all.kl2, all.bl1, all.bl2 ); }, { 2, 4, 2 }, { 1, 5, 3 } ); twice( c, conv1( 3, 3, 2, true, 1, false, none ), []{ return Conv1D( 3, 3, 2, "same", 1, false ); }, { 2, 4, 2 }, { 1, 5, 3 } );
}
// ---------------------------------------------------------------- chains
static void chains( Ctx& c )
{
    auto const rs = regs(); Reg const none = rs[0], all = rs[5];
    auto menu = [&]( Shape const& s )
    {
        std::vector<L> v{ relu(), leaky( 0.2, false ), elu( 0.75, false ), softmax(), flatten() };
        if ( s[0]*prod( tail( s ) )/s.back() > 2 ) v.push_back( norm( 0.5, false, all ) );
        if ( s.size() == 2 ) { v.push_back( dense( 3, true, all ) ); v.push_back( dense( 4, false, none ) ); if ( s[1]%4 == 0 ) v.push_back( reshape( { 2, 2, s[1]/4 } ) ); if ( s[1]%2 == 0 ) v.push_back( reshape( { 2, s[1]/2 } ) ); }
        if ( s.size() == 3 ) { v.push_back( conv1( 2, s[1] < 2 ? 1 : 2, 1, false, 1, true, all ) ); v.push_back( conv1( 3, 3, 2, true, 1, false, none ) ); v.push_back( reshape( { s[1], 1, s[2] } ) ); }
        if ( s.size() == 4 )
        {
            v.push_back( conv( conv_new, 2, { 3, 3 }, true, { 1, 1 }, { 1, 1 }, true, all, s ) ); v.push_back( conv( conv_t, 2, { 3, 3 }, true, { 2, 2 }, { 1, 1 }, true, none, s ) ); v.push_back( pool( 2, 2 ) );
            if ( s[1] >= 2 && s[2] >= 2 ) { v.push_back( conv( conv_new, 3, { 2, 2 }, false, { 1, 1 }, { 1, 1 }, false, none, s ) ); v.push_back( pool( 0, 2 ) ); v.push_back( pool( 1, 2 ) ); }
        }
        return v;
    };
    int const depth = c.thorough ? 4 : 3;
    for ( Shape const& s : { Shape{ 2, 4 }, Shape{ 2, 3, 2 }, Shape{ 2, 4, 4, 1 }, Shape{ 2, 4, 2, 2 } } )
    {
        std::function<void(std::vector<L>,Shape)> grow = [&]( std::vector<L> net, Shape const& now )
        {
            if ( net.size() >= 2 )
            {
                std::string name; for ( auto const& l : net ) name += ( name.empty() ? "" : " > " ) + l.name.substr( 0, l.name.find( ',' ) );
                c.test( "chain|" + str( s ) + "|" + name, [&]
                {
                    fresh_session<V>(); auto x = ceras::Input( tail( s ) ); A e = any<V>( x ); std::vector<Built> bs; std::vector<Shape> shapes{ s }; std::vector<Ts> at; T cur = round_to<V>( fill( s, 1, 0.5 ) );
                    Shape in = s;
                    for ( unsigned long i = 0; i < net.size(); ++i )
                    {
                        auto const before = ids(); Built b; b.e = net[i].build( e ); e = b.e; c.trans(); if ( !adopt( c, net[i], in, before, b, 2+3*i ) ) return; bs.push_back( b );
                        Ts q{ cur }; for ( auto& p : b.par ) q.push_back( to_r( p.data() ) ); at.push_back( q ); cur = net[i].op.f( q ); in = cur.shape;
                    }
                    Shape decl = e.shape(); if ( decl.size() ) decl[0] = cur.shape[0]; c.check( decl == cur.shape, "chain:declared-shape", [&]{ return name + " " + str( e.shape() ) + " is " + str( cur.shape ); } );
                    bool kink = false, degenerate = false;       // kinks are left out of the derivative, nearly constant normalised channels altogether
                    for ( unsigned long i = 0; i+1 < net.size(); ++i ) { auto const& nm = net[i+1].name; if ( nm.find( "LU" ) != std::string::npos || nm.find( "Max" ) == 0 ) { auto const v = at[i+1][0]; for ( unsigned long a = 0; a < v.size(); ++a ) kink = kink || std::abs( v[a] ) < 1e-4; if ( nm.find( "Max" ) == 0 ) for ( unsigned long a = 0; a < v.size(); ++a ) for ( unsigned long b = 0; b < a; ++b ) kink = kink || std::abs( v[a]-v[b] ) < 1e-4; } if ( nm.find( "Batch" ) == 0 ) { auto const v = at[i+1][0]; unsigned long const ch = v.shape.back(), n = v.size()/ch; for ( unsigned long k = 0; k < ch; ++k ) { double m = 0, z = 0; for ( unsigned long a = k; a < v.size(); a += ch ) m += v[a]/n; for ( unsigned long a = k; a < v.size(); a += ch ) z += ( v[a]-m )*( v[a]-m )/n; degenerate = degenerate || z < 1e-3; } } }
                    sess().bind( x, to_c<V>( round_to<V>( fill( s, 1, 0.5 ) ) ) );
                    if ( degenerate ) return;
                    auto const y = to_r( sess().run( e ) ); c.trans(); c.state( hash( y ) ); if ( !same( c, y, cur, "chain:value", 1e-3, name ) ) return;
                    c.check( e.shape() == cur.shape, "chain:declared-shape", name );
                    T g = round_to<V>( fill( cur.shape, 3 ) ); e.backward( to_c<V>( g ) ); c.trans();
                    if ( kink ) return;
                    for ( int i = (int)net.size()-1; i >= 0; --i )
                    {
                        Ts d = net[i].op.vjp ? net[i].op.vjp( at[i], g ) : numeric_vjp( net[i].op.f, at[i], g ); g = d[0]; d = with_reg( d, at[i], net[i].params( at[i][0].shape ) );
                        for ( unsigned long p = 0; p < bs[i].par.size(); ++p ) same( c, to_r( bs[i].par[p].gradient() ), d[p+1], "chain:gradient", 5e-3, name + " parameter " + std::to_string( p ) + " of layer " + std::to_string( i ) );
                    }
                                    } );
            }
            if ( (int)net.size() < depth ) for ( auto const& l : menu( now ) )
            {
                Ts q{ fill( now, 1 ) }; unsigned long k = 0; for ( auto const& p : l.params( now ) ) q.push_back( fill( p.shape, 2+k++ ) );
                auto m = net; m.push_back( l ); Shape const next = l.op.f( q ).shape; if ( prod( next ) <= 128 ) grow( m, next );
            }
        };
        grow( {}, s );
    }
}
static void explore( Ctx& c )
{
    single( c );
    if ( GROUP == 0 || GROUP == 1 ) twices( c );
    if ( GROUP == 0 || GROUP == 4 ) chains( c );
}
MC_MAIN( explore )
