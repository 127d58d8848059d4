// C18: every loss, called as a function and through its maker, over all small batches of ground truths and predictions, and every
// history of evaluations and differentiations with changing batches, against its definition and the derivative of that definition.
#include "ops.hpp"
using namespace ref; using namespace mc;
#ifndef WHAT
#define WHAT 3      // 3: values and gradients, 4: declared shapes (for C13)
#endif
#ifndef VT
#define VT double
#endif
typedef VT V; typedef ceras::tensor<V> TT; typedef Any<V> A; typedef ceras::place_holder<TT> Ph;

struct Loss
{
    std::string name;
    std::function<A(A const&, A const&)> fn; std::function<A(Ph const&, A const&)> maker;
    std::vector<double> gt, pr;
    std::function<double(T const&, T const&)> f; std::function<T(T const&, T const&)> d;      // value, derivative with respect to the prediction
    std::function<bool(double, double)> smooth = []( double, double ){ return true; };
    std::vector<double> wide = {};   // values at which the exponentials reach their limits
    int known = 0;          // 1: mean gradients divided by the batch only; 2: gradient not divided by the batch
    bool label_rows = false;
};
template<typename F> T each( T const& g, T const& p, F f ) { T r( p.shape ); for ( unsigned long i = 0; i < p.size(); ++i ) r[i] = f( g[i], p[i] ); return r; }
static double total( T const& t ) { double s = 0; for ( double x : t.v ) s += x; return s; }

static std::vector<Loss> losses()
{
    std::vector<Loss> r;
    // element-wise losses, summed (mean = false) or averaged
    auto elem = [&]( std::string name, bool mean, std::function<A(A const&,A const&)> fn, std::function<A(Ph const&,A const&)> maker, std::vector<double> gt, std::vector<double> pr, std::function<double(double,double)> f, std::function<double(double,double)> d, std::function<bool(double,double)> smooth )
    {
        Loss l; l.name = name; l.fn = fn; l.maker = maker; l.gt = gt; l.pr = pr; l.smooth = smooth; l.known = mean ? 1 : 0;
        l.f = [=]( T const& g, T const& p ){ return total( each( g, p, f ) )/( mean ? p.size() : 1 ); };
        l.d = [=]( T const& g, T const& p ){ auto t = each( g, p, d ); for ( auto& x : t.v ) x /= mean ? p.size() : 1; return t; };
        r.push_back( l );
    };
    auto always = []( double, double ){ return true; }; auto differ = []( double g, double p ){ return g != p; };
    auto sq = []( double g, double p ){ return ( g-p )*( g-p ); }; auto dsq = []( double g, double p ){ return -2*( g-p ); };
    auto ab = []( double g, double p ){ return std::abs( g-p ); }; auto dab = []( double g, double p ){ return g > p ? -1.0 : 1.0; };
    std::vector<double> const v{ -1.5, 0, 0.75, 2 };
#define FN( f ) []( A const& g, A const& p ){ return any<V>( ceras::f( g, p ) ); }
#define MK( ... ) []( Ph const& g, A const& p ){ return any<V>( ceras::__VA_ARGS__( p )( g ) ); }
    elem( "squared_loss", false, FN( squared_loss ), {}, v, v, sq, dsq, always );
    elem( "mean_squared_error", true, FN( mean_squared_error ), MK( MeanSquaredError() ), v, v, sq, dsq, always );
    elem( "mse", true, FN( mse ), MK( MSE() ), v, v, sq, dsq, always );
    elem( "abs_loss", false, FN( abs_loss ), {}, v, v, ab, dab, differ );
    elem( "mean_absolute_error", true, FN( mean_absolute_error ), MK( MeanAbsoluteError() ), v, v, ab, dab, differ );
    elem( "mae", true, FN( mae ), MK( MAE() ), v, v, ab, dab, differ );
    auto cl = []( double x ){ return std::max( x, 1e-8 ); };
    elem( "mean_squared_logarithmic_error", false, FN( mean_squared_logarithmic_error ), {}, { -1, 0.2, 1, 3 }, { -2, 0.5, 1.5, 4 },
          [cl]( double g, double p ){ double const e = std::log( 1+cl( g ) )-std::log( 1+cl( p ) ); return e*e; },
          [cl]( double g, double p ){ return p < 1e-8 ? 0.0 : -2*( std::log( 1+cl( g ) )-std::log( 1+p ) )/( 1+p ); }, always );
    elem( "cross_entropy", false, FN( cross_entropy ), {}, { 0, 1, 0.25 }, { 0.125, 0.5, 0.9 }, []( double g, double p ){ return -g*std::log( p ); }, []( double g, double p ){ return -g/p; }, always );
    auto bce = []( double g, double p ){ return -g*std::log( p )-( 1-g )*std::log( 1-p ); }; auto dbce = []( double g, double p ){ return -g/p+( 1-g )/( 1-p ); };
    elem( "binary_cross_entropy_loss", true, FN( binary_cross_entropy_loss ), MK( BinaryCrossentropy() ), { 0, 1, 0.3 }, { 0.125, 0.6, 0.95 }, bce, dbce, always );
    elem( "BinaryCrossEntropy", true, {}, MK( BinaryCrossEntropy() ), { 0, 1 }, { 0.125, 0.6 }, bce, dbce, always );
    elem( "hinge_loss", true, FN( hinge_loss ), MK( Hinge() ), { -1, 1 }, { -1.75, -0.3, 0.4, 1.6 }, []( double g, double p ){ return std::max( 0.0, 1-g*p ); }, []( double g, double p ){ return g*p < 1 ? -g : 0.0; }, []( double g, double p ){ return g*p != 1; } );
    // softmax and cross entropy in one, with label smoothing; the average over the batch
    for ( double ls : { 0.0, 0.25 } ) for ( int alias = 0; alias < 2; ++alias )
    {
        Loss l; l.known = 2; l.label_rows = true; l.gt = { 0, 1 }; l.pr = { -2.5, 0, 1.75 }; double const big = sizeof( V ) == 4 ? 90 : 720; l.wide = { -2*big, -big, -20, 0, 1.5, 30, big, 2*big };
        l.name = std::string( alias ? "CategoricalCrossEntropy" : "cross_entropy_loss" ) + ( ls > 0 ? "(0.25)" : "" );
        if ( !alias )
        {
            l.fn = [ls]( A const& g, A const& p ){ return ls > 0 ? any<V>( ceras::cross_entropy_loss( g, p, ls ) ) : any<V>( ceras::cross_entropy_loss( g, p ) ); };
            l.maker = [ls]( Ph const& g, A const& p ){ return ls > 0 ? any<V>( ceras::CategoricalCrossentropy( ls )( p )( g ) ) : any<V>( ceras::CategoricalCrossentropy()( p )( g ) ); };
        }
        else l.maker = [ls]( Ph const& g, A const& p ){ return any<V>( ceras::CategoricalCrossEntropy( ls )( p )( g ) ); };
        auto row = [ls]( T const& g, T const& p, T* d )
        {
            unsigned long const n = p.shape.back(), rows = p.size()/n; double s = 0; double const batch = p.shape[0];
            for ( unsigned long r = 0; r < rows; ++r )
            {
                double mx = p[r*n], z = 0; for ( unsigned long i = 0; i < n; ++i ) mx = std::max( mx, p[r*n+i] ); for ( unsigned long i = 0; i < n; ++i ) z += std::exp( p[r*n+i]-mx );
                double w = 0; for ( unsigned long i = 0; i < n; ++i ) w += g[r*n+i] > 1e-8 ? 1-ls : ls/( n-1 );
                for ( unsigned long i = 0; i < n; ++i )
                {
                    double const sm = std::exp( p[r*n+i]-mx )/z, y = g[r*n+i] > 1e-8 ? 1-ls : ls/( n-1 );
                    s -= y == 0 ? 0 : y*std::log( std::max( sm, 1e-8 ) ); if ( d ) (*d)[r*n+i] = ( w*sm-y )/batch;
                }
            }
            return s/batch;
        };
        l.f = [row]( T const& g, T const& p ){ return row( g, p, nullptr ); };
        l.d = [row]( T const& g, T const& p ){ T d( p.shape ); row( g, p, &d ); return d; };
        r.push_back( l );
    }
    return r;
}
// rows of label losses hold one hot entry each
static bool valid( Loss const& l, T const& g ) { if ( !l.label_rows ) return true; unsigned long const n = g.shape.back(); for ( unsigned long r = 0; r < g.size()/n; ++r ) { int hot = 0; for ( unsigned long i = 0; i < n; ++i ) hot += g[r*n+i] > 0; if ( hot != 1 ) return false; } return true; }

enum { by_placeholder, by_constant, by_maker, by_variable };
struct Live
{
    Ph ph; std::vector<ceras::constant<TT>> con; std::vector<ceras::variable<TT>> var; std::vector<ceras::variable<TT>> pred; A e; int how;
    Live( Loss const& l, int how_, T const& g, T const& p ) : how( how_ )
    {
        pred.emplace_back( to_c<V>( p ) ); auto pe = any<V>( pred[0] );
        if ( how == by_placeholder ) e = l.fn( any<V>( ph ), pe );
        if ( how == by_maker ) e = l.maker( ph, pe );
        if ( how == by_constant ) { con.emplace_back( to_c<V>( g ) ); e = l.fn( any<V>( con[0] ), pe ); }
        if ( how == by_variable ) { var.emplace_back( to_c<V>( g ) ); e = l.fn( any<V>( var[0] ), pe ); }
        set( g, p );
    }
    void set( T const& g, T const& p )
    {
        pred[0].data() = to_c<V>( p );
        if ( how == by_constant ) con[0].data() = to_c<V>( g ); else if ( how == by_variable ) var[0].data() = to_c<V>( g ); else ceras::get_default_session<TT>().bind( ph, to_c<V>( g ) );
    }
    T truth() { return how == by_constant ? to_r( con[0].forward() ) : how == by_variable ? to_r( var[0].data() ) : to_r( ph.forward() ); }
};
static void once( Ctx& c, Loss const& l, Live& x, T const& g, T const& p, double up, bool back, std::string const& where )
{
    double const tol = sizeof( V ) == 4 ? 3e-5 : l.label_rows ? 1e-7 : 1e-9; auto& s = ceras::get_default_session<TT>();
    auto out = s.run( x.e ); c.trans(); auto const got = to_r( out ); T const want( { 1 }, l.f( g, p ) );
    c.state( hash( got, hash_str( l.name ) ) );
    if ( WHAT == 4 )
    {
        c.check( got.shape == Shape{ 1 }, l.name + ":shape", where ); c.check( x.e.shape() == Shape{ 1 }, l.name + ":declared-shape", [&]{ return where + " declared " + str( x.e.shape() ); } );
        return;
    }
    same( c, got, want, l.name + ":value", tol, where );
    same( c, x.truth(), g, l.name + ":ground-truth-modified", 0, where ); same( c, to_r( x.pred[0].data() ), p, l.name + ":prediction-modified", 0, where );
    if ( !back ) return;
    x.pred[0].gradient() = ceras::zeros_like( x.pred[0].data() );
    auto const u = to_c<V>( T( { 1 }, up ) ); x.e.backward( u ); c.trans(); auto const d = to_r( x.pred[0].gradient() );
    auto want_d = l.d( g, p ); for ( auto& z : want_d.v ) z *= up;
    std::string tag = ":gradient";
    if ( l.known && !close( d, want_d, tol*10 ) )
    {
        auto dev = want_d; double const batch = l.known == 2 ? 1.0/p.shape[0] : p.size()/(double)( p.shape.size() == 1 ? 1 : p.shape[0] );
        for ( auto& z : dev.v ) z *= l.known == 2 ? p.shape[0] : batch;
        if ( close( d, dev, tol*10 ) ) tag = l.known == 1 ? ":mean-grad-batch" : ":xent-grad-batch";
    }
    bool smooth = true; for ( unsigned long i = 0; i < p.size(); ++i ) smooth = smooth && l.smooth( g[i], p[i] );
    if ( smooth && tag != ":gradient" ) c.note( l.name + tag, where + " got " + str( d ) + " expected " + str( want_d ) );
    else if ( smooth ) { same( c, d, want_d, l.name + tag, tol*10, where ); c.state( hash( d, hash_str( l.name, 5 ) ) ); }
    same( c, x.truth(), g, l.name + ":ground-truth-modified", 0, where ); same( c, to_r( x.pred[0].data() ), p, l.name + ":prediction-modified", 0, where );
    same( c, to_r( u ), T( { 1 }, up ), l.name + ":upstream-gradient-modified", 0, where ); same( c, to_r( out ), got, l.name + ":backward-modified-output", 0, where );
}
static bool possible( Loss const& l, int how ) { return how == by_maker ? (bool)l.maker : (bool)l.fn && !( l.label_rows && how == by_variable ); }
static T cycle( std::vector<double> const& al, Shape const& s, unsigned long salt ) { T t( s ); for ( unsigned long i = 0; i < t.size(); ++i ) t[i] = al[( i*3 + i/2 + salt*7 + i*salt ) % al.size()]; return round_to<V>( t ); }
static T label( Loss const& l, Shape const& s, unsigned long salt ) { if ( !l.label_rows ) return cycle( l.gt, s, salt ); T t( s ); unsigned long const n = s.back(); for ( unsigned long r = 0; r < t.size()/n; ++r ) t[r*n+( r*5+salt )%n] = 1; return t; }

static void explore( Ctx& c )
{
    char const* hows[] = { "placeholder", "constant", "maker", "variable" };
    for ( auto const& l : losses() ) for ( int how = 0; how < 4; ++how )
    {
        if ( !possible( l, how ) ) continue;
        std::string const base = l.name + "|" + hows[how] + "|";
        // all values on small batches
        std::vector<Shape> small{ { 1, 2 }, { 2, 1 }, { 1, 3 }, { 2 }, { 1, 1 }, { 2, 1, 1 } }; if ( c.thorough && how == by_placeholder ) { small.push_back( { 2, 2 } ); small.push_back( { 4 } ); }
        for ( auto const& s : small )
        {
            if ( l.label_rows && ( s.size() < 2 || s.back() < 2 ) ) continue;
            unsigned long const n = prod( s ); unsigned long ng = 1, np = 1; for ( unsigned long i = 0; i < n; ++i ) { ng *= l.gt.size(); np *= l.pr.size(); }
            for ( unsigned long gi = 0; gi < ng; ++gi )
            {
                T g( s ); unsigned long q = gi; for ( auto& z : g.v ) { z = l.gt[q%l.gt.size()]; q /= l.gt.size(); } g = round_to<V>( g );
                if ( !valid( l, g ) ) continue;
                c.test( base + str( s ) + "|g" + std::to_string( gi ), [&]
                {
                    fresh_session<V>(); std::unique_ptr<Live> x;
                    for ( unsigned long pi = 0; pi < np; ++pi )
                    {
                        T p( s ); unsigned long q = pi; for ( auto& z : p.v ) { z = l.pr[q%l.pr.size()]; q /= l.pr.size(); } p = round_to<V>( p );
                        if ( !x ) x.reset( new Live( l, how, g, p ) ); else x->set( g, p );
                        once( c, l, *x, g, p, pi%3 == 0 ? 1 : pi%3 == 1 ? -0.5 : 3, true, "values " + str( p ) ); if ( c.case_fails ) return;
                    }
                } );
            }
        }
        // rows that reach the limits of the exponential
        if ( l.wide.size() ) for ( Shape const& s : { Shape{ 1, 2 }, Shape{ 1, 3 }, Shape{ 2, 2 } } ) for ( unsigned long salt = 0; salt < s.back(); ++salt )
            c.test( base + "wide|" + str( s ) + "|" + std::to_string( salt ), [&]
            {
                fresh_session<V>(); std::unique_ptr<Live> x; T const g = label( l, s, salt ); unsigned long np = 1; for ( unsigned long i = 0; i < prod( s ); ++i ) np *= l.wide.size();
                for ( unsigned long pi = 0; pi < np && !c.case_fails; ++pi )
                {
                    T p( s ); unsigned long q = pi; for ( auto& z : p.v ) { z = l.wide[q%l.wide.size()]; q /= l.wide.size(); }
                    if ( !x ) x.reset( new Live( l, how, g, p ) ); else x->set( g, p );
                    once( c, l, *x, g, p, 1, true, "values " + str( p ) );
                }
            } );
        // all shapes
        auto every = shapes( 3, c.thorough ? 5 : 3 ); for ( Shape s : { Shape{33,5}, Shape{2,65}, Shape{100,2}, Shape{129,3}, Shape{3,4,9}, Shape{65} } ) every.push_back( s );
        for ( auto const& s : every )
        {
            if ( l.label_rows && ( s.size() < 2 || s.back() < 2 ) ) continue;
            c.test( base + str( s ), [&]{ for ( int k = 0; k < 3; ++k ) { fresh_session<V>(); T const g = label( l, s, k ), p = cycle( l.pr, s, k+2 ); Live x( l, how, g, p ); once( c, l, x, g, p, k == 1 ? 2 : 1, true, "" ); once( c, l, x, g, p, 1, true, "again" ); } } );
        }
        // all histories of evaluations and differentiations with changing values and batch sizes
        std::vector<Shape> const hs{ { 2, 3 }, { 2, 3 }, { 1, 3 }, { 4, 3 } }; int const depth = c.thorough ? 4 : 3, al = 2*hs.size();
        if ( how != by_constant ) for ( int first = 0; first < al; ++first )
            c.test( base + "history|" + std::to_string( first ), [&]
            {
                int n = 1; for ( int i = 1; i < depth; ++i ) n *= al;
                for ( int m = 0; m < n; ++m )
                {
                    fresh_session<V>(); std::unique_ptr<Live> x; int q = m, s = first; std::string where = "history";
                    for ( int i = 0; i < depth; ++i )
                    {
                        if ( i ) { s = q%al; q /= al; }
                        int const k = s/2; T const g = label( l, hs[k], k ), p = cycle( l.pr, hs[k], k+1 ); where += " " + std::to_string( k ) + ( s%2 ? "b" : "f" );
                        if ( !x ) x.reset( new Live( l, how, g, p ) ); else x->set( g, p );
                        once( c, l, *x, g, p, 1, s%2, where ); if ( c.case_fails ) return;
                    }
                }
            } );
    }
}
MC_MAIN( explore )
