// C17: every history of training steps (gradients from an alphabet, accumulated gradients, frozen variables, plain evaluations,
// writes), for every optimizer and hyper-parameter setting, against the update rules applied to the whole history.
#include "ops.hpp"
using namespace ref; using namespace mc;
#ifndef VT
#define VT double
#endif
typedef VT V; typedef ceras::tensor<V> TT; typedef Any<V> A; typedef ceras::variable<TT> Var;

struct Hyper { int kind; unsigned long batch; double lr, p1, p2; bool nesterov; bool by_maker = false; };
enum { SGD_, ADAGRAD, RMSPROP, ADADELTA, ADAM, GD };
static char const* kinds[] = { "sgd", "adagrad", "rmsprop", "adadelta", "adam", "gradient_descent" };
static std::string str( Hyper const& h ) { std::ostringstream o; o << kinds[h.kind] << ( h.by_maker ? "'" : "" ) << "(batch " << h.batch << ",lr " << h.lr << "," << h.p1 << "," << h.p2 << "," << h.nesterov << ")"; return o.str(); }

// the update rules
struct State { T m, v; bool used = false; };
struct Rule
{
    Hyper h; double lr; unsigned long it = 0;
    Rule( Hyper const& x ) : h( x ), lr( x.kind == ADADELTA ? 1.0/x.batch : x.lr/x.batch ) {}
    void begin() { if ( h.kind == SGD_ || h.kind == ADAGRAD || h.kind == RMSPROP ) lr /= 1 + std::max( 0.0, h.p2 )*it; }
    void apply( T& x, T const& g, State& s ) const
    {
        double const eps = 1e-8, mom = std::max( 0.0, h.p1 );
        if ( !s.used ) { s.used = true; s.m = T( x.shape ); s.v = T( x.shape ); }
        for ( unsigned long i = 0; i < x.size(); ++i )
        {
            double &d = x[i], &m = s.m[i], &v = s.v[i]; double const k = g[i];
            if ( h.kind == SGD_ ) { m = mom*m - lr*k; d += h.nesterov ? mom*m - lr*k : m; }
            if ( h.kind == ADAGRAD ) { m += k*k; d -= lr*k/( eps + std::sqrt( m ) ); }
            if ( h.kind == RMSPROP ) { m = it == 0 ? k*k : h.p1*m + ( 1-h.p1 )*k*k; d -= lr*k/( eps + std::sqrt( m ) ); }
            if ( h.kind == ADADELTA ) { m = h.p1*m + ( 1-h.p1 )*k*k; double const u = lr*k*std::sqrt( ( v+eps )/( m+eps ) ); d -= u; v = h.p1*v + ( 1-h.p1 )*u*u; }
            if ( h.kind == ADAM )
            {
                m = h.p1*m + ( 1-h.p1 )*k; v = h.p2*v + ( 1-h.p2 )*k*k;
                if ( it < 2 ) d -= lr*k; else d -= lr*std::sqrt( 1-std::pow( h.p2, it+1 ) )/( 1-std::pow( h.p1, it+1 ) )*m/( eps + std::sqrt( v ) );
            }
            if ( h.kind == GD ) d -= lr*k;
        }
    }
    void end() { ++it; }
};

static std::function<void()> real( Hyper const& h, A& loss )
{
    auto& s = ceras::get_default_session<TT>();
    auto step = [&s]( auto o ){ auto p = std::make_shared<decltype(o)>( o ); return [&s,p]{ s.run( *p ); }; };
    V const lr = h.lr, p1 = h.p1, p2 = h.p2; unsigned long const b = h.batch;
    if ( h.by_maker ) switch ( h.kind )
    {
        case SGD_: return step( ceras::SGD( b, lr, p1, p2, h.nesterov )( loss ) );
        case ADAGRAD: return step( ceras::Adagrad( b, lr, p2 )( loss ) );
        case RMSPROP: return step( ceras::RMSprop( b, lr, p1, p2 )( loss ) );
        case ADADELTA: return step( ceras::Adadelta( b, p1 )( loss ) );
        case ADAM: return step( ceras::Adam( b, lr, p1, p2 )( loss ) );
    }
    switch ( h.kind )
    {
        case SGD_: return step( ceras::sgd<A,V>( loss, b, lr, p1, p2, h.nesterov ) );
        case ADAGRAD: return step( ceras::adagrad<A,V>( loss, b, lr, p2 ) );
        case RMSPROP: return step( ceras::rmsprop<A,V>( loss, b, lr, p1, p2 ) );
        case ADADELTA: return step( ceras::adadelta<A,V>( loss, b, p1 ) );
        case ADAM: return step( ceras::adam<A,V>( loss, b, lr, p1, p2 ) );
        default: return step( ceras::gradient_descent<A,V>( loss, b, lr, p1 ) );
    }
}
static std::vector<Hyper> hypers( bool thorough )
{
    std::vector<Hyper> r;
    for ( double mom : { 0.0, 0.9 } ) for ( double decay : { 0.0, 0.3 } ) for ( bool n : { false, true } ) r.push_back( { SGD_, mom > 0 ? 2u : 1u, 0.1, mom, decay, n } );
    r.push_back( { SGD_, 1, 0.1, -0.5, -0.5, false } );
    for ( double decay : { 0.0, 0.3 } ) r.push_back( { ADAGRAD, decay > 0 ? 3u : 1u, 0.1, 0, decay, false } );
    for ( double rho : { 0.9, 0.25 } ) for ( double decay : { 0.0, 0.3 } ) r.push_back( { RMSPROP, decay > 0 ? 2u : 1u, 0.05, rho, decay, false } );
    for ( double rho : { 0.9, 0.25 } ) r.push_back( { ADADELTA, rho > 0.5 ? 1u : 2u, 1, rho, 0, false } );
    for ( auto b : std::vector<std::pair<double,double>>{ { 0.9, 0.999 }, { 0.5, 0.75 } } ) r.push_back( { ADAM, b.first > 0.6 ? 1u : 2u, 0.1, b.first, b.second, false } );
    for ( double mom : { 0.0, 0.9 } ) r.push_back( { GD, mom > 0 ? 2u : 1u, 0.1, mom, 0, false } );
    return r;
}
static Hyper plain( int kind ) { for ( auto const& h : hypers( false ) ) if ( h.kind == kind && ( h.p1 > 0 || kind == ADAGRAD ) ) return h; return {}; }

struct World
{
    std::vector<Var> var; std::vector<T> x, g; std::vector<bool> on; TT gph; ceras::place_holder<TT> p, q;
    A loss, other;      // loss = sum( x0.*p + x1.*p.*q ), other = sum( x0.*q ); x2 takes part in neither; x3 frozen from the start
    World( Shape const& s )
    {
        for ( int i = 0; i < 4; ++i ) { x.push_back( round_to<V>( fill( s, i+1 ) ) ); g.push_back( T( s ) ); on.push_back( i != 3 ); var.emplace_back( to_c<V>( x[i] ), V{0}, V{0}, i != 3 ); }
        auto pp = any<V>( p ), qq = any<V>( q );
        auto el = []( A const& a, A const& b ){ return any<V>( ceras::elementwise_product( a, b ) ); };
        loss = any<V>( ceras::sum_reduce( el( any<V>( var[0] ), pp ) + el( any<V>( var[1] ), el( pp, qq ) ) + el( any<V>( var[3] ), pp ) ) );
        other = any<V>( ceras::sum_reduce( el( any<V>( var[0] ), qq ) + el( any<V>( var[1] ), qq ) ) );
    }
    void bind( T const& a, T const& b ) { auto& s = ceras::get_default_session<TT>(); s.bind( p, to_c<V>( a ) ); s.bind( q, to_c<V>( b ) ); }
    void add( int k, T const& d, T const* e = nullptr ) { if ( on[k] ) for ( unsigned long i = 0; i < d.size(); ++i ) g[k][i] += d[i]*( e ? (*e)[i] : 1 ); }
    void zero( int k ) { g[k] = T( x[k].shape ); }
    void agree( Ctx& c, std::string const& tag, std::string const& where ) const
    {
        double const tol = sizeof( V ) == 4 ? 3e-5 : 1e-10;
        for ( unsigned long k = 0; k < x.size(); ++k )
        {
            same( c, to_r( var[k].data() ), x[k], tag + ( on[k] ? ":variable" : ":frozen-variable" ), tol, where + " variable " + std::to_string( k ) );
            c.check( var[k].trainable() == on[k], tag + ":trainable", where );
            c.state( hash( x[k], mix( hash_str( tag ), k ) ) );
        }
    }
    void gradients( Ctx& c, std::string const& tag, std::string const& where ) const { for ( unsigned long k = 0; k < x.size(); ++k ) same( c, to_r( var[k].gradient() ), g[k], tag + ":gradient-not-consumed", 1e-4, where + " variable " + std::to_string( k ) ); }
};
enum { train0, train1, train2, train3, accumulate, again, evaluate, freeze0, freeze1, freeze3, write0, nsteps };
static char const* names[] = { "train g0", "train g1", "train g2", "train g3", "train g1 accumulated with another loss", "step without evaluating", "evaluate", "toggle x0", "toggle x1", "toggle x3", "write x0" };

static T gradient( int i, Shape const& s )
{
    T g( s ); static double const a[4][5] = { { 1, -1, 0.5, 2, -0.25 }, { 0, 0, 0, 0, 0 }, { -300, 1e-3, 20, -7, 0.1 }, { 0.5, 0.25, -1, 0, 3 } };
    for ( unsigned long k = 0; k < g.size(); ++k ) g[k] = a[i][k%5]; return round_to<V>( g );
}
static void history( Ctx& c, Hyper const& h, Shape const& sh, std::vector<int> const& steps, std::string const& tag )
{
    fresh_session<V>(); World w( sh ); Rule r( h ); std::vector<State> st( 4 ); auto step = real( h, w.loss ); auto& s = ceras::get_default_session<TT>();
    T const q = round_to<V>( fill( sh, 5 ) ); std::string where = str( h ) + ": "; T p( sh ); bool evaluated = false;
    for ( int a : steps )
    {
        if ( where.size() < 600 ) where += std::string( names[a] ) + "; ";
        auto run = [&]( T const& g ){ p = g; w.bind( p, q ); s.run( w.loss ); c.trans(); w.zero( 0 ); w.zero( 1 ); w.zero( 3 ); evaluated = true; };
        auto optimize = [&]
        {
            step(); c.trans(); w.add( 0, p ); w.add( 1, p, &q ); w.add( 3, p ); r.begin();
            for ( int k = 0; k < 4; ++k ) if ( w.on[k] ) { r.apply( w.x[k], w.g[k], st[k] ); w.zero( k ); }
            r.end(); w.gradients( c, tag, where );
        };
        if ( a <= train3 ) { run( gradient( a, sh ) ); optimize(); }
        else if ( a == accumulate ) { run( gradient( 1, sh ) ); s.run( w.other ); w.zero( 0 ); w.zero( 1 ); w.other.backward( ceras::ones<V>( { 1 } ) ); w.add( 0, q ); w.add( 1, q ); optimize(); }
        else if ( a == again ) { if ( !evaluated ) return; optimize(); }
        else if ( a == evaluate ) run( gradient( 2, sh ) );
        else if ( a == write0 ) { w.x[0] = round_to<V>( fill( sh, 9 ) ); w.var[0].data() = to_c<V>( w.x[0] ); evaluated = false; }
        else { int const k = a == freeze0 ? 0 : a == freeze1 ? 1 : 3; w.on[k] = !w.on[k]; w.var[k].trainable( w.on[k] ); }
        w.agree( c, tag, where );
        if ( c.case_fails ) return;
    }
}
static void explore( Ctx& c )
{
    int const depth = sizeof( V ) == 4 ? ( c.thorough ? 4 : 3 ) : ( c.thorough ? 5 : 4 );
    for ( auto const& h : hypers( c.thorough ) )
        for ( int i = 0; i < nsteps; ++i ) for ( int j = 0; j < nsteps; ++j )
            c.test( "history|" + str( h ) + "|" + std::to_string( i ) + "," + std::to_string( j ), [&]
            {
                unsigned long n = 1; for ( int k = 2; k < depth; ++k ) n *= nsteps;
                for ( unsigned long m = 0; m < n; ++m ) { std::vector<int> st{ i, j }; unsigned long q = m; for ( int k = 2; k < depth; ++k ) { st.push_back( q%nsteps ); q /= nsteps; } history( c, h, { 2, 2 }, st, kinds[h.kind] ); if ( c.case_fails ) return; }
            } );
    // long runs: every sequence of two gradients over several steps, in other shapes, directly and through the makers
    int const len = c.thorough ? 10 : 7;
    for ( auto h : hypers( c.thorough ) ) for ( bool maker : { false, true } ) for ( Shape const& sh : { Shape{ 1 }, Shape{ 5 }, Shape{ 2, 1, 3 } } )
    {
        if ( maker && h.kind == GD ) continue;
        h.by_maker = maker;
        c.test( "steps|" + str( h ) + "|" + ref::str( sh ), [&,h]
        {
            for ( int m = 0; m < ( 1 << len ); ++m ) { std::vector<int> st; for ( int k = 0; k < len; ++k ) st.push_back( ( m>>k ) & 1 ? train0 : ( m>>( k/2 ) ) & 1 ? train3 : train2 ); history( c, h, sh, st, kinds[h.kind] ); if ( c.case_fails ) return; }
        } );
    }
    // one long run: effects that only build up over many steps
    for ( auto h : hypers( c.thorough ) ) for ( bool maker : { false, true } ) for ( int pattern = 0; pattern < 3; ++pattern )
    {
        if ( maker && h.kind == GD ) continue;
        h.by_maker = maker;
        c.test( "long|" + str( h ) + "|" + std::to_string( pattern ), [&,h]
        {
            std::vector<int> st; for ( int k = 0; k < ( c.thorough ? 1500 : 400 ); ++k ) st.push_back( pattern == 0 ? train0 : pattern == 1 ? ( k%2 ? train3 : train0 ) : std::vector<int>{ train0, train1, train3, evaluate, freeze0, accumulate, train3, freeze0, train2, again }[k%10] );
            history( c, h, { 2, 2 }, st, kinds[h.kind] );
        } );
    }
    // two optimizers, each training its own variable while the other's is frozen: neither disturbs the other
    for ( int k0 = 0; k0 < 6; ++k0 ) for ( int k1 = 0; k1 < 6; ++k1 )
        c.test( std::string( "two optimizers|" ) + kinds[k0] + "," + kinds[k1], [&]
        {
            int const n = c.thorough ? 9 : 6;
            for ( int m = 0; m < ( 1 << n ); ++m )
            {
                fresh_session<V>(); Shape const sh{ 3 }; auto& s = ceras::get_default_session<TT>();
                std::vector<T> x{ round_to<V>( fill( sh, 1 ) ), round_to<V>( fill( sh, 2 ) ) }; std::vector<Var> v; for ( auto const& t : x ) v.emplace_back( to_c<V>( t ) );
                ceras::place_holder<TT> p; auto pp = any<V>( p ); std::vector<A> loss; for ( int k = 0; k < 2; ++k ) loss.push_back( any<V>( ceras::sum_reduce( ceras::elementwise_product( any<V>( v[0] ) + any<V>( v[1] ), pp ) ) ) );
                std::vector<Rule> rule{ Rule( plain( k0 ) ), Rule( plain( k1 ) ) }; std::vector<State> st( 2 ); std::vector<std::function<void()>> step{ real( rule[0].h, loss[0] ), real( rule[1].h, loss[1] ) };
                std::string where = str( rule[0].h ) + " and " + str( rule[1].h ) + ": ";
                for ( int i = 0; i < n; ++i )
                {
                    int const k = ( m>>i )&1; where += std::to_string( k ); auto const g = gradient( i%3 == 1 ? 3 : i%3, sh );
                    v[k].trainable( true ); v[1-k].trainable( false ); s.bind( p, to_c<V>( g ) ); s.run( loss[k] ); step[k](); c.trans( 2 );
                    rule[k].begin(); rule[k].apply( x[k], g, st[k] ); rule[k].end();
                    for ( int q = 0; q < 2; ++q ) { same( c, to_r( v[q].data() ), x[q], "two-optimizers", sizeof( V ) == 4 ? 3e-5 : 1e-10, where ); c.state( hash( x[q], k0*7+k1 ) ); }
                    if ( c.case_fails ) return;
                }
            }
        } );
}
MC_MAIN( explore )
