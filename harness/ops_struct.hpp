// structural operators: given the shapes of the operands, every operator and parameter applicable to them
#ifndef VERIF_OPS_STRUCT_HPP
#define VERIF_OPS_STRUCT_HPP
#include "ops.hpp"
namespace mc
{
    using ref::Shape; using ref::T;
    // a linear operator given as: output shape, and per output element the (operand, element, weight) it sums
    struct Lin { Shape shape; struct C { unsigned long k, i; double w; }; std::vector<std::vector<C>> src; Lin( Shape const& s ) : shape( s ), src( ref::prod( s ) ) {} };
    template<typename V> Op<V> linear_op( std::string const& name, int arity, std::function<Any<V>(std::vector<Any<V>> const&)> b, std::function<Lin(std::vector<Shape> const&)> lin )
    {
        Op<V> o; o.name = name; o.arity = arity; o.build = b;
        auto shapes_of = []( Ts const& x ){ std::vector<Shape> s; for ( auto const& t : x ) s.push_back( t.shape ); return s; };
        o.f = [=]( Ts const& x ){ Lin l = lin( shapes_of( x ) ); T y( l.shape ); for ( unsigned long i = 0; i < y.size(); ++i ) for ( auto const& c : l.src[i] ) y[i] += c.w*x[c.k][c.i]; return y; };
        o.vjp = [=]( Ts const& x, T const& g ){ Lin l = lin( shapes_of( x ) ); Ts d; for ( auto const& t : x ) d.emplace_back( t.shape ); for ( unsigned long i = 0; i < g.size(); ++i ) for ( auto const& c : l.src[i] ) d[c.k][c.i] += c.w*g[i]; return d; };
        return o;
    }
    // one operand, output element at index ix comes from the operand elements returned by `from`
    template<typename V> Op<V> gather1( std::string const& name, std::function<Any<V>(Any<V> const&)> b, std::function<Shape(Shape const&)> os, std::function<std::vector<Shape>(Shape const&, Shape const&)> from )
    {
        return linear_op<V>( name, 1, [b]( auto const& v ){ return b( v[0] ); }, [=]( std::vector<Shape> const& s )
        {
            Lin l( os( s[0] ) );
            for ( unsigned long i = 0; i < l.src.size(); ++i ) for ( auto const& j : from( ref::unravel( i, l.shape ), s[0] ) ) l.src[i].push_back( { 0, ref::ravel( j, s[0] ), 1.0 } );
            return l;
        } );
    }
    template<typename V> Op<V> relabel( std::string const& name, std::function<Any<V>(Any<V> const&)> b, std::function<Shape(Shape const&)> os )
    {
        return gather1<V>( name, b, os, [os]( Shape const& ix, Shape const& s ){ return std::vector<Shape>{ ref::unravel( ref::ravel( ix, os( s ) ), s ) }; } );
    }
    inline Shape without( Shape s, unsigned long ax ) { s.erase( s.begin()+ax ); return s; }
    inline Shape with( Shape s, unsigned long ax, unsigned long v ) { s.insert( s.begin()+ax, v ); return s; }

    template<typename V> std::vector<Op<V>> structural1( Shape const& s )      // every operator x parameter applicable to one operand of shape s
    {
        std::vector<Op<V>> v; typedef Any<V> A;
        unsigned long const r = s.size(), n = ref::prod( s ); auto num = []( unsigned long x ){ return std::to_string( x ); };
        // reshape: every factorisation into at most 3 factors, with and without the batch dimension
        std::vector<Shape> fac; for ( unsigned long a = 1; a <= n; ++a ) if ( n%a == 0 ) { fac.push_back( { a } ); for ( unsigned long b = 1; b <= n; ++b ) if ( n%(a*b) == 0 ) { fac.push_back( { a, b } ); if ( a*b < 8 ) for ( unsigned long c = 1; c <= 3; ++c ) if ( n%(a*b*c) == 0 ) fac.push_back( { a, b, c } ); } }
        for ( auto const& t : fac )
        {
            v.push_back( relabel<V>( "reshape " + ref::str( t ), [t]( A const& e ){ return any<V>( ceras::reshape( t )( e ) ); }, [t]( Shape const& s ){ return with( t, 0, ref::prod( s )/ref::prod( t ) ); } ) );
            if ( ref::prod( t ) == n ) v.push_back( relabel<V>( "reshape! " + ref::str( t ), [t]( A const& e ){ return any<V>( ceras::reshape( t, false )( e ) ); }, [t]( Shape const& ){ return t; } ) );
        }
        if ( r > 1 ) v.push_back( relabel<V>( "flatten", []( A const& e ){ return any<V>( ceras::flatten( e ) ); }, []( Shape const& s ){ return Shape{ s[0], ref::prod( s )/s[0] }; } ) );
        v.push_back( relabel<V>( "identity", []( A const& e ){ return any<V>( ceras::identity( e ) ); }, []( Shape const& s ){ return s; } ) );
        v.push_back( relabel<V>( "expand_dims", []( A const& e ){ return any<V>( ceras::expand_dims()( e ) ); }, []( Shape const& s ){ return with( s, s.size(), 1 ); } ) );
        for ( unsigned long ax = 0; ax <= r; ++ax ) v.push_back( relabel<V>( "expand_dims " + num( ax ), [ax]( A const& e ){ return any<V>( ceras::expand_dims( ax )( e ) ); }, [ax]( Shape const& s ){ return with( s, ax, 1 ); } ) );
        v.push_back( relabel<V>( "squeeze", []( A const& e ){ return any<V>( ceras::squeeze()( e ) ); }, []( Shape const& s ){ Shape o; for ( auto d : s ) if ( d != 1 ) o.push_back( d ); if ( o.empty() ) o.push_back( 1 ); return o; } ) );
        if ( r > 1 ) for ( unsigned long ax = 0; ax < r; ++ax ) if ( s[ax] == 1 ) v.push_back( relabel<V>( "squeeze " + num( ax ), [ax]( A const& e ){ return any<V>( ceras::squeeze( ax )( e ) ); }, [ax]( Shape const& s ){ return without( s, ax ); } ) );
        for ( unsigned long ax = 0; ax < r; ++ax )
            if ( r <= 4 ) v.push_back( gather1<V>( "flip " + num( ax ), [ax]( A const& e ){ return any<V>( ceras::flip( ax )( e ) ); }, []( Shape const& s ){ return s; }, [ax]( Shape ix, Shape const& s ){ ix[ax] = s[ax]-1-ix[ax]; return std::vector<Shape>{ ix }; } ) );
        if ( r == 2 )
            v.push_back( gather1<V>( "transpose", []( A const& e ){ return any<V>( ceras::transpose( e ) ); }, []( Shape const& s ){ return Shape{ s[1], s[0] }; }, []( Shape const& ix, Shape const& ){ return std::vector<Shape>{ { ix[1], ix[0] } }; } ) );
        for ( unsigned long k : { 1ul, 2ul, 3ul } ) for ( unsigned long ax = 0; ax <= r; ++ax )
        {
            unsigned long const a = ax == r ? r-1 : ax; bool const dflt = ax == r;
            v.push_back( gather1<V>( "repeat " + num( k ) + ( dflt ? "" : " " + num( ax ) ), [k,ax,dflt]( A const& e ){ return dflt ? any<V>( ceras::repeat( k )( e ) ) : any<V>( ceras::repeat( k, ax )( e ) ); },
                [k,a]( Shape s ){ s[a] *= k; return s; }, [k,a]( Shape ix, Shape const& ){ ix[a] /= k; return std::vector<Shape>{ ix }; } ) );
        }
        auto all = []( Shape const& s ){ std::vector<Shape> o; for ( unsigned long i = 0; i < ref::prod( s ); ++i ) o.push_back( ref::unravel( i, s ) ); return o; };
        v.push_back( gather1<V>( "sum_reduce", []( A const& e ){ return any<V>( ceras::sum_reduce( e ) ); }, []( Shape const& ){ return Shape{ 1 }; }, [all]( Shape const&, Shape const& s ){ return all( s ); } ) );
        v.push_back( gather1<V>( "reduce_sum", []( A const& e ){ return any<V>( ceras::reduce_sum( e ) ); }, []( Shape const& ){ return Shape{ 1 }; }, [all]( Shape const&, Shape const& s ){ return all( s ); } ) );
        for ( char const* nm : { "mean_reduce", "reduce_mean", "mean" } )
        {
            std::string const m = nm; auto o = gather1<V>( m, [m]( A const& e ){ return m == "mean_reduce" ? any<V>( ceras::mean_reduce( e ) ) : m == "mean" ? any<V>( ceras::mean( e ) ) : any<V>( ceras::reduce_mean( e ) ); }, []( Shape const& ){ return Shape{ 1 }; }, [all]( Shape const&, Shape const& s ){ return all( s ); } );
            auto f = o.f; auto g = o.vjp; o.f = [f]( Ts const& x ){ auto y = f( x ); y[0] /= x[0].size(); return y; }; o.vjp = [g]( Ts const& x, T const& up ){ auto d = g( x, up ); for ( auto& z : d[0].v ) z /= x[0].size(); return d; };
            o.deviant_tag = "mean-grad-batch"; o.deviant = [g]( Ts const& x, T const& up ){ auto d = g( x, up ); for ( auto& z : d[0].v ) z /= x[0].shape.size() == 1 ? 1 : x[0].shape[0]; return d; };
            v.push_back( o );
        }
        for ( unsigned long ax = 0; ax <= r; ++ax )
        {
            bool const dflt = ax == r; unsigned long const a = dflt ? r-1 : ax; std::string const p = dflt ? "" : " " + num( ax );
            if ( !dflt || r >= 1 )
                v.push_back( gather1<V>( "reduce_sum" + ( dflt ? std::string( " -1" ) : p ), [=]( A const& e ){ return dflt ? any<V>( ceras::reduce_sum( -1UL )( e ) ) : any<V>( ceras::reduce_sum( ax )( e ) ); }, [a]( Shape const& s ){ return without( s, a ); },
                    [a]( Shape const& ix, Shape const& s ){ std::vector<Shape> o; for ( unsigned long i = 0; i < s[a]; ++i ) o.push_back( with( ix, a, i ) ); return o; } ) );
            for ( int mx = 0; mx < 2; ++mx )
            {
                auto pick = [a,mx]( T const& x, Shape const& ix ){ unsigned long best = ref::ravel( with( ix, a, 0 ), x.shape ); for ( unsigned long i = 1; i < x.shape[a]; ++i ) { unsigned long q = ref::ravel( with( ix, a, i ), x.shape ); if ( mx ? x[q] > x[best] : x[q] < x[best] ) best = q; } return best; };
                Op<V> o; o.name = std::string( mx ? "reduce_max" : "reduce_min" ) + p;
                o.build = [=]( auto const& e ){ return mx ? ( dflt ? any<V>( ceras::reduce_max()( e[0] ) ) : any<V>( ceras::reduce_max( ax )( e[0] ) ) ) : ( dflt ? any<V>( ceras::reduce_min()( e[0] ) ) : any<V>( ceras::reduce_min( ax )( e[0] ) ) ); };
                o.f = [=]( Ts const& x ){ T y( without( x[0].shape, a ) ); for ( unsigned long i = 0; i < y.size(); ++i ) y[i] = x[0][ pick( x[0], ref::unravel( i, y.shape ) ) ]; return y; };
                o.vjp = [=]( Ts const& x, T const& g ){ T d( x[0].shape ); for ( unsigned long i = 0; i < g.size(); ++i ) d[ pick( x[0], ref::unravel( i, g.shape ) ) ] += g[i]; return Ts{ d }; };
                v.push_back( o );
                Op<V> m; m.name = std::string( mx ? "argmax" : "argmin" ) + p;
                m.build = [=]( auto const& e ){ return mx ? ( dflt ? any<V>( ceras::argmax()( e[0] ) ) : any<V>( ceras::argmax( ax )( e[0] ) ) ) : ( dflt ? any<V>( ceras::argmin()( e[0] ) ) : any<V>( ceras::argmin( ax )( e[0] ) ) ); };
                unsigned long const b = dflt ? 0 : ax;
                auto pickb = [b,mx]( T const& x, Shape const& ix ){ unsigned long best = 0; for ( unsigned long i = 1; i < x.shape[b]; ++i ) { double q = x[ ref::ravel( with( ix, b, i ), x.shape ) ], w = x[ ref::ravel( with( ix, b, best ), x.shape ) ]; if ( mx ? q > w : q < w ) best = i; } return best; };
                m.f = [=]( Ts const& x ){ T y( without( x[0].shape, b ) ); for ( unsigned long i = 0; i < y.size(); ++i ) y[i] = pickb( x[0], ref::unravel( i, y.shape ) ); return y; };
                m.vjp = []( Ts const& x, T const& ){ return Ts{ T( x[0].shape ) }; };
                v.push_back( m );
            }
        }
        // broadcast to a larger shape of which the operand is the trailing part
        std::vector<Shape> bt{ s, with( s, 0, 2 ), with( s, 0, 3 ), with( with( s, 0, 2 ), 0, 3 ) }; if ( s[0] == 1 ) { Shape t = s; t[0] = 3; bt.push_back( t ); if ( r > 1 ) { Shape u = without( s, 0 ); u.insert( u.begin(), 4 ); u.insert( u.begin(), 2 ); bt.push_back( u ); } }
        for ( auto const& t : bt )
            v.push_back( gather1<V>( "broadcast " + ref::str( t ), [t]( A const& e ){ return any<V>( ceras::broadcast( t )( e ) ); }, [t]( Shape const& ){ return t; }, [t]( Shape const& ix, Shape const& s ){ return std::vector<Shape>{ ref::unravel( ref::ravel( ix, t ) % ref::prod( s ), s ) }; } ) );
        // constants of the same shape
        for ( int k = 0; k < 2; ++k )
        {
            Op<V> o; o.name = k ? "ones_like" : "zeros_like"; o.build = [k]( auto const& e ){ return k ? any<V>( ceras::ones_like( e[0] ) ) : any<V>( ceras::zeros_like( e[0] ) ); };
            o.f = [k]( Ts const& x ){ return T( x[0].shape, k ); }; o.vjp = []( Ts const& x, T const& ){ return Ts{ T( x[0].shape ) }; };
            v.push_back( o );
        }
        // softmax over the last dimension (an activation, but not element-wise)
        {
            Op<V> o; o.name = "softmax"; o.build = []( auto const& e ){ return any<V>( ceras::softmax( e[0] ) ); };
            o.f = []( Ts const& x ){ T y = x[0]; unsigned long const n = y.shape.back(); for ( unsigned long i = 0; i < y.size(); i += n ) { double z = 0, m = -1e300; for ( unsigned long j = 0; j < n; ++j ) m = std::max( m, y[i+j] ); for ( unsigned long j = 0; j < n; ++j ) z += std::exp( y[i+j]-m ); for ( unsigned long j = 0; j < n; ++j ) y[i+j] = std::exp( y[i+j]-m )/z; } return y; };
            auto f = o.f; o.vjp = [f]( Ts const& x, T const& g ){ T y = f( x ), d = y; unsigned long const n = y.shape.back(); for ( unsigned long i = 0; i < y.size(); i += n ) { double s = 0; for ( unsigned long j = 0; j < n; ++j ) s += g[i+j]*y[i+j]; for ( unsigned long j = 0; j < n; ++j ) d[i+j] = y[i+j]*( g[i+j]-s ); } return Ts{ d }; };
            v.push_back( o );
        }
        {
            Op<V> o; o.name = "crelu"; o.build = []( auto const& e ){ return any<V>( ceras::crelu( e[0] ) ); };
            o.f = []( Ts const& x ){ Shape s = x[0].shape; unsigned long const n = s.back(); s.back() *= 2; T y( s ); for ( unsigned long i = 0; i < x[0].size(); ++i ) { y[ i/n*2*n + i%n ] = std::max( x[0][i], 0.0 ); y[ i/n*2*n + n + i%n ] = std::max( -x[0][i], 0.0 ); } return y; };
            o.vjp = []( Ts const& x, T const& g ){ T d( x[0].shape ); unsigned long const n = d.shape.back(); for ( unsigned long i = 0; i < d.size(); ++i ) d[i] = x[0][i] > 0 ? g[ i/n*2*n + i%n ] : -g[ i/n*2*n + n + i%n ]; return Ts{ d }; };
            v.push_back( o );
        }
        return v;
    }
    template<typename V> std::vector<Op<V>> structural2( Shape const& a, Shape const& b )
    {
        std::vector<Op<V>> v;
        if ( a.size() == 2 && b.size() == 2 && a[1] == b[0] ) for ( int w = 0; w < 2; ++w )
        {
            Op<V> o; o.arity = 2; o.name = w ? "multiply" : "a*b"; o.build = [w]( auto const& e ){ return w ? any<V>( ceras::multiply( e[0], e[1] ) ) : any<V>( e[0]*e[1] ); };
            o.f = []( Ts const& x ){ unsigned long m = x[0].shape[0], k = x[0].shape[1], n = x[1].shape[1]; T y( Shape{ m, n } ); for ( unsigned long i = 0; i < m; ++i ) for ( unsigned long j = 0; j < n; ++j ) for ( unsigned long q = 0; q < k; ++q ) y[i*n+j] += x[0][i*k+q]*x[1][q*n+j]; return y; };
            o.vjp = []( Ts const& x, T const& g ){ unsigned long m = x[0].shape[0], k = x[0].shape[1], n = x[1].shape[1]; T l( x[0].shape ), r( x[1].shape ); for ( unsigned long i = 0; i < m; ++i ) for ( unsigned long j = 0; j < n; ++j ) for ( unsigned long q = 0; q < k; ++q ) { l[i*k+q] += g[i*n+j]*x[1][q*n+j]; r[q*n+j] += g[i*n+j]*x[0][i*k+q]; } return Ts{ l, r }; };
            v.push_back( o );
        }
        if ( a.size() == b.size() ) for ( unsigned long ax = 0; ax <= a.size(); ++ax )
        {
            bool const dflt = ax == a.size(); unsigned long const x = dflt ? a.size()-1 : ax;
            Shape p = a, q = b; p[x] = q[x] = 0; if ( p != q ) continue;
            for ( int form = 0; form < ( dflt ? 4 : 3 ); ++form )
            {
                if ( a != b && form > 0 && !dflt ) continue;
                v.push_back( linear_op<V>( std::string( form == 0 ? "concatenate(l,r)(axe)" : form == 1 ? "concatenate(axe)(l,r)" : form == 2 ? "concat(axe)(l,r)" : "concat(l,r)" ) + ( dflt ? "" : " " + std::to_string( ax ) ), 2, [=]( auto const& e )
                {
                    if ( form == 0 ) return dflt ? any<V>( ceras::concatenate( e[0], e[1] )() ) : any<V>( ceras::concatenate( e[0], e[1] )( ax ) );
                    if ( form == 1 ) return dflt ? any<V>( ceras::concatenate()( e[0], e[1] ) ) : any<V>( ceras::concatenate( ax )( e[0], e[1] ) );
                    if ( form == 2 ) return dflt ? any<V>( ceras::concat()( e[0], e[1] ) ) : any<V>( ceras::concat( ax )( e[0], e[1] ) );
                    return any<V>( ceras::concat( e[0], e[1] ) );
                }, [x]( std::vector<Shape> const& s )
                {
                    Shape o = s[0]; o[x] += s[1][x]; Lin l( o );
                    for ( unsigned long i = 0; i < l.src.size(); ++i ) { auto ix = ref::unravel( i, o ); unsigned long k = 0; if ( ix[x] >= s[0][x] ) { ix[x] -= s[0][x]; k = 1; } l.src[i].push_back( { k, ref::ravel( ix, s[k] ), 1.0 } ); }
                    return l;
                } ) );
            }
        }
        return v;
    }
}
#endif
