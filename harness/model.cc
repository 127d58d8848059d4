// C21: every history of predictions, training steps, fits, evaluations, freezes, saves and loads of a model, against a twin
// network driven by the primitive steps each call stands for (bind, run, optimise); compositions of models.
#include "ceras_mc.hpp"
using namespace ref; using namespace mc;
#ifndef NET
#define NET 0
#endif
typedef float V; typedef ceras::tensor<V> TT; typedef ceras::variable<TT> Var;
static double const tol = 2e-5;
static auto& sess() { return ceras::get_default_session<TT>(); }
template<typename V_> static T rounded( T t ) { for ( auto& x : t.v ) x = (double)(V_)x; return t; }
static std::vector<Var> weights() { std::vector<std::pair<int,Var>> r; for ( auto& [id, v] : sess().variables_ ) r.push_back( { id, v } ); std::sort( r.begin(), r.end(), []( auto const& a, auto const& b ){ return a.first < b.first; } ); std::vector<Var> o; for ( auto& p : r ) o.push_back( p.second ); return o; }
static void init() { unsigned long k = 0; for ( auto& v : weights() ) { T t = rounded<V>( fill( v.shape(), 3+k++, 0.4 ) ); bool idle = true; for ( V z : v.data() ) idle = idle && z == 0; if ( idle && !v.trainable() ) continue; v.data() = to_c<V>( t ); } ceras::random_generator.seed( 99 ); }
static T rows( T const& t, unsigned long from, unsigned long n ) { Shape s = t.shape; unsigned long const w = prod( s )/s[0]; s[0] = n; T r( s ); for ( unsigned long i = 0; i < r.size(); ++i ) r[i] = t[from*w+i]; return r; }

// what a history leaves behind, to be compared between the model and its twin
struct Log { std::vector<std::pair<std::string,T>> e; void add( std::string const& w, T const& t ) { e.push_back( { w, t } ); } void add( std::string const& w, double x ) { T t( Shape{ 1 } ); t[0] = x; e.push_back( { w, t } ); } void state() { unsigned long k = 0; for ( auto& v : weights() ) add( "weight " + std::to_string( k++ ), to_r( v.data() ) ); } };

struct Data { Shape in, out; T x( unsigned long n, unsigned long salt ) const { Shape s = in; s.insert( s.begin(), n ); return rounded<V>( fill( s, salt ) ); } T y( unsigned long n, unsigned long salt ) const { Shape s = out; s.insert( s.begin(), n ); return rounded<V>( fill( s, salt ) ); } };
struct Fit { unsigned long samples, batch, epochs; double split; };
enum { predict1, predict3, train2, train3, evaluate4, evaluate5, fit_plain, fit_split, freeze, thaw, save, load, actions };
static char const* const names[] = { "predict(1)", "predict(3)", "train(2)", "train(3)", "evaluate(4/2)", "evaluate(5/2)", "fit(4/2)", "fit(5/1,split)", "freeze", "thaw", "save", "load" };
static Fit const fits_[2] = { { 4, 2, 1, 0 }, { 5, 1, 2, 0.5 } };
static void keep( Ctx& c, TT const& t, T const& was ) { same( c, to_r( t ), was, "data-modified", 0 ); }

// the real thing
template<typename N, typename LM, typename OM> static Log real( Ctx& c, N const& net, LM const& loss, OM const& opt, Data const& d, std::vector<int> const& h, Fit const* fit = nullptr )
{
    fresh_session<V>(); auto in = ceras::Input( d.in ); auto ex = net( in ); auto m = ceras::model{ in, ex }; auto cm = m.compile( loss(), opt() ); init(); Log l; std::vector<std::pair<std::string,TT>> kept; unsigned long step = 0;
    for ( int a : h )
    {
        std::string const w = "#" + std::to_string( step ) + " " + ( fit ? "fit" : names[a] ); c.trans();
        if ( fit )
        {
            auto const x = d.x( fit->samples, 3 ), y = d.y( fit->samples, 4 ); auto xc = to_c<V>( x ), yc = to_c<V>( y ); auto [tr, va] = cm.fit( xc, yc, fit->batch, fit->epochs, (int)( step&1 ), fit->split ); keep( c, xc, x ); keep( c, yc, y );
            l.add( w + " epochs reported", tr.size() ); for ( V z : tr ) l.add( w + " training error", z ); for ( V z : va ) l.add( w + " validation error", z );
        }
        else if ( a == predict1 || a == predict3 ) { auto const x = d.x( a == predict1 ? 1 : 3, 7+step ); auto xc = to_c<V>( x ); TT r = step&1 ? cm.predict( xc ) : m.predict( xc ); keep( c, xc, x ); l.add( w + " result", to_r( r ) ); kept.push_back( { w, r } ); }
        else if ( a == train2 || a == train3 ) { auto const x = d.x( a == train2 ? 2 : 3, 5+step ), y = d.y( a == train2 ? 2 : 3, 6+step ); auto xc = to_c<V>( x ), yc = to_c<V>( y ); l.add( w + " loss", cm.train_on_batch( xc, yc ) ); keep( c, xc, x ); keep( c, yc, y ); }
        else if ( a == evaluate4 || a == evaluate5 ) { unsigned long const n = a == evaluate4 ? 4 : 5; auto const x = d.x( n, 2 ), y = d.y( n, 3 ); auto xc = to_c<V>( x ), yc = to_c<V>( y ); l.add( w + " loss", cm.evaluate( xc, yc, 2 ) ); keep( c, xc, x ); keep( c, yc, y ); }
        else if ( a == fit_plain || a == fit_split )
        {
            auto const& f = fits_[a == fit_split]; auto const x = d.x( f.samples, 8 ), y = d.y( f.samples, 9 ); auto xc = to_c<V>( x ), yc = to_c<V>( y ); auto [tr, va] = cm.fit( xc, yc, f.batch, f.epochs, 0, f.split ); keep( c, xc, x ); keep( c, yc, y );
            l.add( w + " epochs reported", tr.size() ); for ( V z : tr ) l.add( w + " training error", z ); if ( f.split > 0 ) for ( V z : va ) l.add( w + " validation error", z );
        }
        else if ( a == freeze || a == thaw ) { if ( step&1 ) cm.trainable( a == thaw ); else m.trainable( a == thaw ); }
        else if ( a == save ) m.save_weights( "weights" );
        else if ( a == load ) m.load_weights( "weights" );
        l.state(); ++step;
    }
    for ( auto& k : kept ) l.add( k.first + " result, read at the end", to_r( k.second ) );
    return l;
}
// the twin: the primitive steps
template<typename N, typename LM, typename OM> static Log twin( N const& net, LM const& loss, OM const& opt, Data const& d, std::vector<int> const& h, Fit const* fit = nullptr )
{
    fresh_session<V>(); auto in = ceras::Input( d.in ); auto ex = net( in ); auto gt = ceras::place_holder<TT>{}; auto le = loss()( ex )( gt ); auto o = opt()( le ); init(); Log l; std::vector<std::pair<std::string,T>> kept; std::vector<T> file; unsigned long step = 0;
    auto lossof = [&]( T const& x, T const& y, int phase ){ ceras::learning_phase = phase; sess().bind( in, to_c<V>( x ) ); sess().bind( gt, to_c<V>( y ) ); double const r = sess().run( le )[0]; return r; };
    auto train = [&]( T const& x, T const& y ){ double const r = lossof( x, y, 1 ); sess().run( o ); return r; };
    auto dofit = [&]( Fit const& f, T const& x, T const& y, std::string const& w, bool val )
    {
        l.add( w + " epochs reported", f.epochs ); unsigned long const loops = f.samples/f.batch, tl = (unsigned long)( ( 1-f.split )*loops ); std::vector<double> tr, va;
        for ( unsigned long e = 0; e < f.epochs; ++e )
        {
            double a = 0, b = 0;
            for ( unsigned long i = 0; i < loops; ++i ) { T const xi = rows( x, i*f.batch, f.batch ), yi = rows( y, i*f.batch, f.batch ); if ( i < tl ) a += train( xi, yi ); else b += lossof( xi, yi, 0 ); }
            tr.push_back( tl ? a/tl : NAN ); va.push_back( loops > tl ? b/( loops-tl ) : NAN );
        }
        for ( double z : tr ) l.add( w + " training error", z ); if ( val ) for ( double z : va ) l.add( w + " validation error", z );
    };
    for ( int a : h )
    {
        std::string const w = "#" + std::to_string( step ) + " " + ( fit ? "fit" : names[a] );
        if ( fit ) dofit( *fit, d.x( fit->samples, 3 ), d.y( fit->samples, 4 ), w, true );
        else if ( a == predict1 || a == predict3 )
        {
            T const x = d.x( a == predict1 ? 1 : 3, 7+step ); T r; ceras::learning_phase = 0;      // one sample at a time
            for ( unsigned long i = 0; i < x.shape[0]; ++i ) { sess().bind( in, to_c<V>( rows( x, i, 1 ) ) ); T const y = to_r( sess().run( ex ) ); if ( !i ) r = y; else { r.v.insert( r.v.end(), y.v.begin(), y.v.end() ); ++r.shape[0]; } }
            l.add( w + " result", r ); kept.push_back( { w, r } );
        }
        else if ( a == train2 || a == train3 ) l.add( w + " loss", train( d.x( a == train2 ? 2 : 3, 5+step ), d.y( a == train2 ? 2 : 3, 6+step ) ) );
        else if ( a == evaluate4 || a == evaluate5 ) { unsigned long const n = a == evaluate4 ? 4 : 5; T const x = d.x( n, 2 ), y = d.y( n, 3 ); double s = 0; for ( unsigned long i = 0; i < n/2; ++i ) s += lossof( rows( x, 2*i, 2 ), rows( y, 2*i, 2 ), 0 ); l.add( w + " loss", s/( n/2 ) ); }
        else if ( a == fit_plain || a == fit_split ) { auto const& f = fits_[a == fit_split]; dofit( f, d.x( f.samples, 8 ), d.y( f.samples, 9 ), w, f.split > 0 ); }
        else if ( a == freeze || a == thaw ) { for ( auto& v : weights() ) v.trainable( a == thaw ); }
        else if ( a == save ) { file.clear(); for ( auto& v : weights() ) file.push_back( to_r( v.data() ) ); }
        else if ( a == load ) { unsigned long k = 0; for ( auto& v : weights() ) v.data() = to_c<V>( file[k++] ); }
        l.state(); ++step;
    }
    for ( auto& k : kept ) l.add( k.first + " result, read at the end", k.second );
    return l;
}
static void compare( Ctx& c, Log const& a, Log const& b, std::string const& where )
{
    if ( !c.check( a.e.size() == b.e.size(), "history:number-of-results", [&]{ return where + " " + std::to_string( a.e.size() ) + " instead of " + std::to_string( b.e.size() ); } ) ) return;
    for ( unsigned long i = 0; i < a.e.size(); ++i )
    {
        if ( b.e[i].second.size() == 1 && std::isnan( b.e[i].second[0] ) ) continue;            // an average over no batch at all
        std::string what = b.e[i].first.substr( b.e[i].first.find( ' ' )+1 ); what = what.substr( 0, 6 ) == "weight" ? "weights" : what; for ( auto& ch : what ) if ( ch == ' ' ) ch = '-';
        if ( !c.check( a.e[i].first == b.e[i].first, "history:order", where ) || !same( c, a.e[i].second, b.e[i].second, "model:" + what, tol, where + " at " + b.e[i].first ) ) return;
        c.state( hash( a.e[i].second, i ) );
    }
}
template<typename N, typename LM, typename OM> static void histories( Ctx& c, std::string const& name, N const& net, LM const& loss, OM const& opt, Data const& d, int depth )
{
    for ( int first = 0; first < actions; ++first ) for ( int second = 0; second < actions; ++second )
        c.test( "history|" + name + "|" + names[first] + "," + names[second], [&]
        {
            int n = 1; for ( int i = 2; i < depth; ++i ) n *= actions;
            for ( int m = 0; m < n; ++m )
            {
                std::vector<int> h{ first, second }; for ( int i = 2, q = m; i < depth; ++i ) { h.push_back( q%actions ); q /= actions; }
                bool saved = false, fine = true; for ( int a : h ) { if ( a == save ) saved = true; if ( a == load && !saved ) fine = false; } if ( !fine ) continue;
                std::string w = name; for ( int a : h ) w += std::string( " " ) + names[a];
                auto const a = real( c, net, loss, opt, d, h ); auto const b = twin( net, loss, opt, d, h ); compare( c, a, b, w ); if ( c.case_fails ) return;
            }
        } );
}
template<typename N, typename LM, typename OM> static void fit_grid( Ctx& c, std::string const& name, N const& net, LM const& loss, OM const& opt, Data const& d )
{
    for ( unsigned long n = 1; n <= ( c.thorough ? 10 : 7 ); ++n ) for ( unsigned long b = 1; b <= ( c.thorough ? 4 : 3 ); ++b ) for ( unsigned long e = 0; e <= ( c.thorough ? 3 : 2 ); ++e ) for ( double s : { 0.0, 0.25, 0.5, 0.75, 1.0 } )
        if ( b <= n ) c.test( "fit|" + name + "|" + std::to_string( n ) + "/" + std::to_string( b ) + "," + std::to_string( e ) + "," + std::to_string( s ), [&]
        {
            Fit const f{ n, b, e, s }; std::vector<int> const h{ 0, 1 }; auto const x = real( c, net, loss, opt, d, h, &f ); auto const y = twin( net, loss, opt, d, h, &f ); compare( c, x, y, name );
        } );
}
template<typename N, typename LM, typename OM> static void fit_large( Ctx& c, std::string const& name, N const& net, LM const& loss, OM const& opt, Data const& d )
{
    for ( Fit const& f : { Fit{ 40, 8, 3, 0.25 }, Fit{ 33, 1, 2, 0.5 }, Fit{ 20, 20, 2, 0 }, Fit{ 67, 3, 2, 0.1 }, Fit{ 6, 2, 25, 0.34 } } )
        c.test( "fit large|" + name + "|" + std::to_string( f.samples ) + "/" + std::to_string( f.batch ) + "," + std::to_string( f.epochs ), [&]
        {
            std::vector<int> const h{ 0, 1 }; auto const x = real( c, net, loss, opt, d, h, &f ); auto const y = twin( net, loss, opt, d, h, &f ); compare( c, x, y, name );
        } );
}
// a model of a model
template<typename N1, typename N2, typename LM, typename OM> static void composed( Ctx& c, std::string const& name, N1 const& inner, N2 const& outer, LM const& loss, OM const& opt, Data const& d, Shape const& mid )
{
    c.test( "composed|" + name, [&]
    {
        Log a, b; int const steps = c.thorough ? 6 : 4;
        {
            fresh_session<V>(); auto u = ceras::Input( d.in ); auto m2 = ceras::model{ u, inner( u ) }; auto x = ceras::Input( mid ); auto m1 = ceras::model{ x, outer( x ) }; auto in = ceras::Input( d.in ); auto m = ceras::model{ in, m1( m2( in ) ) }; auto cm = m.compile( loss(), opt() ); init();
            for ( int k = 0; k < steps; ++k )
            {
                auto p = to_c<V>( d.x( 1+k%3, k ) ); auto whole = m.predict( p ); auto parts = m1.predict( m2.predict( p ) ); c.trans( 3 ); same( c, to_r( whole ), to_r( parts ), "composed:differs-from-its-parts", tol, name ); a.add( "s result", to_r( whole ) );
                a.add( "s loss", cm.train_on_batch( to_c<V>( d.x( 2, k+3 ) ), to_c<V>( d.y( 2, k+4 ) ) ) ); a.state(); if ( k == 2 ) m1.trainable( false );
            }
        }
        {
            fresh_session<V>(); auto in = ceras::Input( d.in ); auto h = inner( in ); auto n = weights().size(); auto ex = outer( h ); auto gt = ceras::place_holder<TT>{}; auto le = loss()( ex )( gt ); auto o = opt()( le ); init();
            for ( int k = 0; k < steps; ++k )
            {
                ceras::learning_phase = 0; sess().bind( in, to_c<V>( d.x( 1+k%3, k ) ) ); b.add( "s result", to_r( sess().run( ex ) ) ); ceras::learning_phase = 1; sess().bind( in, to_c<V>( d.x( 2, k+3 ) ) ); sess().bind( gt, to_c<V>( d.y( 2, k+4 ) ) ); b.add( "s loss", sess().run( le )[0] ); sess().run( o ); b.state();
                if ( k == 2 ) { auto w = weights(); for ( unsigned long i = n; i < w.size(); ++i ) w[i].trainable( false ); }
            }
        }
        compare( c, a, b, name );
    } );
    // applying a model makes no new weights
    c.test( "composed weights|" + name, [&]
    {
        fresh_session<V>(); auto u = ceras::Input( d.in ); auto m2 = ceras::model{ u, inner( u ) }; unsigned long const n = weights().size(); auto in = ceras::Input( d.in ); auto e = m2( in ); c.trans(); c.check( weights().size() == n, "composed:new-weights", name );
        // as declared as the model itself
        c.check( e.shape() == m2.output().shape(), "composed:declared-shape", name );
    } );
}
static void explore( Ctx& c )
{
    using namespace ceras; Data const flat{ { 3 }, { 2 } }; Data const image{ { 4, 4, 1 }, { 2 } };
    auto mse = []{ return MeanSquaredError(); }; auto mae = []{ return MeanAbsoluteError(); };
    auto sgd_ = []{ return SGD( 2ul, 0.0625f, 0.5f ); }; auto adam_ = []{ return Adam( 2ul, 0.03125f ); }; auto ada = []{ return Adagrad( 2ul, 0.0625f ); };
    auto dense = []( auto const& x ){ return Dense( 2 )( tanh( Dense( 3, true, 0.125f, 0.0f, 0.0f, 0.25f )( x ) ) ); };
    auto bare = []( auto const& x ){ return Dense( 2, false )( x ); };
    auto drop = []( auto const& x ){ return Dense( 2 )( Dropout( 0.5f )( sigmoid( Dense( 3 )( x ) ) ) ); };
    auto norm = []( auto const& x ){ return Dense( 2 )( BatchNormalization( 0.5f )( Dense( 2 )( x ) ) ); };
    auto conv = []( auto const& x ){ return Dense( 2 )( Flatten()( MaxPooling2D( 2 )( tanh( Conv2D( 2, { 3, 3 }, "same" )( x ) ) ) ) ); };
    auto slim = []( auto const& x ){ return LeakyReLU( 0.2f )( Dense( 3 )( x ) ); };
    int const deep = c.thorough ? 4 : 3;
    if ( NET == 0 || NET == 1 ) { histories( c, "dense mse sgd", dense, mse, sgd_, flat, deep ); histories( c, "bare mae adam", bare, mae, adam_, flat, deep ); fit_grid( c, "dense mse sgd", dense, mse, sgd_, flat ); fit_large( c, "dense mse sgd", dense, mse, sgd_, flat ); fit_grid( c, "bare mae adam", bare, mae, adam_, flat ); fit_large( c, "bare mae adam", bare, mae, adam_, flat ); }
    if ( NET == 0 || NET == 2 ) { histories( c, "dropout mse sgd", drop, mse, sgd_, flat, deep ); histories( c, "normalization mse adagrad", norm, mse, ada, flat, deep ); fit_grid( c, "dropout mse sgd", drop, mse, sgd_, flat ); fit_grid( c, "normalization mse adagrad", norm, mse, ada, flat ); }
    if ( NET == 0 || NET == 3 )
    {
        histories( c, "convolution mse sgd", conv, mse, sgd_, image, deep ); fit_grid( c, "convolution mse sgd", conv, mse, sgd_, image );
        composed( c, "dense of slim", slim, dense, mse, sgd_, flat, { 3 } ); composed( c, "bare of slim", slim, bare, mae, adam_, flat, { 3 } ); composed( c, "normalization of slim", slim, norm, mse, sgd_, flat, { 3 } ); composed( c, "dropout of slim", slim, drop, mse, sgd_, flat, { 3 } ); composed( c, "slim of convolution", conv, slim, mse, sgd_, Data{ { 4, 4, 1 }, { 3 } }, { 2 } );
    }
}
MC_MAIN( explore )
