// C16: all histories of evaluations, back-propagations, writes, resets and trainable switches over two variables, their copies
// and four expressions sharing them, against a model of the shared variable state.
#include "ops.hpp"
using namespace ref; using namespace mc;
typedef double V; typedef ceras::tensor<V> TT; typedef Any<V> A; typedef ceras::variable<TT> Var;

struct MVar { T data, grad; double l1, l2; bool trainable, synced = true; int ctx = 0; };
enum { fwd0, fwd1, fwd2, fwd3, inf1, inf2, bwd0, bwd1, bwd2, bwd3, frozen_a, thawed_a, frozen_b, write_a, write_b, consume_a, reset_b, context_a, nsteps };
static char const* names[] = { "run(a)", "run(a+a')", "run(a.*b)", "run((a+a').*b)", "infer(a+a')", "infer(a.*b)", "back(a)", "back(a+a')", "back(a.*b)", "back((a+a').*b)", "a'.trainable(false)", "a.trainable()=true", "b.trainable(flip)", "a'.data()=", "b.data()[]=", "a.gradient().reset()", "b'.reset()", "a'.contexts().push" };

struct Live
{
    Var a, b, a2, b2; ceras::variable<TT>* av; A e[4]; Any<V> node;
    Live( T const& x, T const& y, double const* r, bool const* t ) : a( to_c( x ), r[0], r[1], t[0] ), b( to_c( y ), r[2], r[3], t[1] ), a2( a ), b2( b )
    {
        node = any<V>( a + a2 );
        e[0] = any<V>( a ); e[1] = node; e[2] = any<V>( ceras::elementwise_product( a, b2 ) ); e[3] = any<V>( ceras::elementwise_product( node, b ) );
    }
};
struct Model
{
    MVar v[2]; bool ready[4] = {}; T xa[4], xb[4];
    void touch( int k ) { v[k].grad = T( v[k].data.shape ); v[k].synced = false; }
    void contribute( int k, T const& g )
    {
        auto& m = v[k]; if ( !m.trainable ) return;
        for ( unsigned long i = 0; i < g.size(); ++i ) m.grad[i] += g[i];
        if ( m.synced ) return;
        for ( unsigned long i = 0; i < g.size(); ++i ) { double const d = m.data[i]; if ( m.l1 > 0 ) m.grad[i] += d >= 0 ? m.l1 : -m.l1; if ( m.l2 > 0 ) m.grad[i] += 2*d*m.l2; }
        m.synced = true;
    }
    T value( int e ) const { T y = v[0].data; for ( unsigned long i = 0; i < y.size(); ++i ) { double const a = v[0].data[i], b = v[1].data[i]; y[i] = e == 0 ? a : e == 1 ? a+a : e == 2 ? a*b : (a+a)*b; } return y; }
    void forward( int e, bool learning ) { if ( learning ) { touch( 0 ); if ( e >= 2 ) touch( 1 ); } ready[e] = true; xa[e] = v[0].data; xb[e] = v[1].data; if ( e == 3 ) { ready[1] = true; xa[1] = v[0].data; } }
    void backward( int e, T const& g )
    {
        T ga = g, gb = g;
        for ( unsigned long i = 0; i < g.size(); ++i ) { ga[i] = e < 2 ? g[i] : g[i]*xb[e][i]; gb[i] = e == 2 ? g[i]*xa[e][i] : g[i]*2*xa[e][i]; }
        contribute( 0, ga ); if ( e == 1 || e == 3 ) contribute( 0, ga ); if ( e >= 2 ) contribute( 1, gb );
    }
};

static void explore( Ctx& c )
{
    int const depth = c.thorough ? 5 : 4;
    struct Cfg { double r[4]; bool t[2]; };
    std::vector<Cfg> const cfgs{ { { 0.1, 0.05, 0, 0.2 }, { true, true } }, { { 0, 0, 0.3, 0 }, { true, false } } };
    for ( unsigned long ci = 0; ci < cfgs.size(); ++ci )
    {
        auto const& cfg = cfgs[ci];
        // model states reached, to enumerate only steps that are possible
        std::vector<int> steps;
        auto possible = []( std::vector<int> const& h, int s )
        {
            if ( s >= bwd0 && s <= bwd3 ) { bool ready = false; for ( int x : h ) { if ( x <= fwd3 && ( x-fwd0 == s-bwd0 || ( x == fwd3 && s == bwd1 ) ) ) ready = true; if ( x >= inf1 && x <= inf2 && x-inf1+1 == s-bwd0 ) ready = true; if ( x == write_a || x == write_b || x == reset_b ) ready = false; } return ready; }
            return true;
        };
        auto run = [&]( std::vector<int> const& h )
        {
            auto& s = fresh_session<V>(); ceras::learning_phase = 1;
            T const x( Shape{ 2 }, { 0.5, -1.5 } ), y( Shape{ 2 }, { -0.25, 2 } );
            Live l( x, y, cfg.r, cfg.t ); Model m; m.v[0] = { x, T( x.shape ), cfg.r[0], cfg.r[1], cfg.t[0] }; m.v[1] = { y, T( y.shape ), cfg.r[2], cfg.r[3], cfg.t[1] };
            std::string where; unsigned long salt = 0;
            for ( int st : h )
            {
                ++salt; where += std::string( names[st] ) + "; "; c.trans();
                T const g = fill( { 2 }, salt );
                if ( st <= fwd3 ) { m.forward( st-fwd0, true ); auto const got = to_r( s.run( l.e[st-fwd0] ) ); same( c, got, m.value( st-fwd0 ), "value", 1e-12, where ); }
                else if ( st <= inf2 ) { ceras::learning_phase = 0; m.forward( st-inf1+1, false ); auto const got = to_r( s.run( l.e[st-inf1+1] ) ); ceras::learning_phase = 1; same( c, got, m.value( st-inf1+1 ), "value", 1e-12, where ); }
                else if ( st <= bwd3 ) { m.backward( st-bwd0, g ); auto gc = to_c( g ); l.e[st-bwd0].backward( gc ); same( c, to_r( gc ), g, "upstream-gradient-modified", 0, where ); }
                else if ( st == frozen_a ) { m.v[0].trainable = false; l.a2.trainable( false ); }
                else if ( st == thawed_a ) { m.v[0].trainable = true; l.a.trainable() = true; }
                else if ( st == frozen_b ) { m.v[1].trainable = !m.v[1].trainable; l.b.trainable( !l.b2.trainable() ); }
                else if ( st == write_a ) { m.v[0].data = g; l.a2.data() = to_c( g ); for ( auto& r : m.ready ) r = false; }
                else if ( st == write_b ) { m.v[1].data = g; for ( unsigned long i = 0; i < 2; ++i ) l.b.data()[i] = g[i]; }
                else if ( st == consume_a ) { m.v[0].grad = T( x.shape ); l.a.gradient().reset(); }
                else if ( st == reset_b ) { m.v[1].grad = T( x.shape ); m.v[1].data = T( x.shape ); l.b2.reset(); }
                else { ++m.v[0].ctx; l.a2.contexts().push_back( to_c( g ) ); }
                Var const* vs[2][3] = { { &l.a, &l.a2, &s.variables_.at( l.a.id() ) }, { &l.b, &l.b2, &s.variables_.at( l.b.id() ) } };
                for ( int k = 0; k < 2; ++k ) for ( int q = 0; q < 3; ++q )
                {
                    std::string const who = std::string( 1, "ab"[k] ) + ( q == 1 ? " copy" : q == 2 ? " session's" : "" );
                    same( c, to_r( vs[k][q]->data() ), m.v[k].data, "data", 1e-12, where + who );
                    same( c, to_r( vs[k][q]->gradient() ), m.v[k].grad, "gradient", 1e-12, where + who );
                    c.check( vs[k][q]->trainable() == m.v[k].trainable, "trainable", [&]{ return where + who; } );
                    c.check( (int)vs[k][q]->contexts().size() == m.v[k].ctx, "optimizer-state", [&]{ return where + who; } );
                }
                c.state( hash( m.v[0].grad, hash( m.v[1].grad, hash( m.v[0].data, hash( m.v[1].data, m.v[0].trainable*2+m.v[1].trainable+ci*8+m.v[0].synced*16+m.v[1].synced*32+m.v[0].ctx*64 ) ) ) ) );
                if ( c.case_fails ) return;
            }
        };
        std::function<void()> rec = [&]
        {
            if ( (int)steps.size() == depth-2 )
            {
                std::string key = "cfg" + std::to_string( ci ) + "|"; for ( int s : steps ) key += std::to_string( s ) + ",";
                c.test( key, [&]{ for ( int i = 0; i < nsteps; ++i ) for ( int j = 0; j < nsteps; ++j ) { auto h = steps; if ( !possible( h, i ) ) continue; h.push_back( i ); if ( !possible( h, j ) ) continue; h.push_back( j ); run( h ); if ( c.case_fails ) return; } } );
                return;
            }
            for ( int s = 0; s < nsteps; ++s ) if ( possible( steps, s ) ) { steps.push_back( s ); rec(); steps.pop_back(); }
        };
        rec();
    }
    // shapes, identity and independence of distinct variables
    for ( auto const& s : shapes( 3, 2 ) )
        c.test( "distinct|" + str( s ), [&]
        {
            auto& sess = fresh_session<V>(); std::vector<Var> v; for ( int i = 0; i < 3; ++i ) v.emplace_back( to_c( fill( s, i ) ) );
            Var w = v[1];
            for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) c.check( ( v[i] == v[j] ) == ( i == j ) && ( v[i].id() == v[j].id() ) == ( i == j ), "identity" );
            c.check( w == v[1] && sess.variables_.size() == 3, "copy-identity" );
            w.data()[0] = 7; w.gradient()[0] = 3; w.contexts().push_back( to_c( fill( s, 9 ) ) ); c.trans( 3 );
            for ( int i = 0; i < 3; ++i )
            {
                T x = fill( s, i ), g( s ); if ( i == 1 ) { x[0] = 7; g[0] = 3; }
                same( c, to_r( v[i].data() ), x, "data", 0 ); same( c, to_r( v[i].gradient() ), g, "gradient", 0 ); c.check( v[i].shape() == s && v[i].contexts().size() == ( i == 1 ), "state" );
            }
        } );
}
MC_MAIN( explore )
