// sliding-window operators on [batch,row,column,channel] images, defined by index arithmetic
#ifndef VERIF_OPS_CONV_HPP
#define VERIF_OPS_CONV_HPP
#include "ops_struct.hpp"
namespace mc
{
    struct Axis { unsigned long in, k, s, d; };              // extent, kernel, stride, dilation along one spatial axis
    inline unsigned long reach( Axis a ) { return (a.k-1)*a.d + 1; }
    inline unsigned long pad_of( Axis a, bool same ) { if ( !same ) return 0; unsigned long const e = reach( a ), t = e > a.s ? e-a.s : 0; return ((a.k&1)+t)/2; }
    inline bool even_total( Axis a ) { unsigned long const e = reach( a ), t = e > a.s ? e-a.s : 0; return t%2 == 0; }
    inline bool fits( Axis a, bool same ) { return reach( a ) <= a.in + 2*pad_of( a, same ); }
    inline unsigned long out_of( Axis a, bool same ) { return ( a.in + 2*pad_of( a, same ) - reach( a ) )/a.s + 1; }

    // a bilinear operator as a list of terms  y[o] += x0[i]*x1[j]
    struct Bil { Shape shape; struct C { unsigned long o, i, j; }; std::vector<C> t; };
    template<typename V> Op<V> bilinear_op( std::string const& name, std::function<Any<V>(std::vector<Any<V>> const&)> b, std::function<Bil(std::vector<Shape> const&)> bil )
    {
        Op<V> o; o.name = name; o.arity = 2; o.build = b;
        o.f = [=]( Ts const& x ){ Bil l = bil( { x[0].shape, x[1].shape } ); T y( l.shape ); for ( auto const& c : l.t ) y[c.o] += x[0][c.i]*x[1][c.j]; return y; };
        o.vjp = [=]( Ts const& x, T const& g ){ Bil l = bil( { x[0].shape, x[1].shape } ); Ts d{ T( x[0].shape ), T( x[1].shape ) }; for ( auto const& c : l.t ) { d[0][c.i] += g[c.o]*x[1][c.j]; d[1][c.j] += g[c.o]*x[0][c.i]; } return d; };
        return o;
    }
    // y[b,i,j,n] = sum x[b, i*sr-pr+u*dr, j*sc-pc+v*dc, c] * k[n,u,v,c], out-of-image elements are zero
    inline Bil conv_terms( Shape const& x, Shape const& k, unsigned long sr, unsigned long sc, unsigned long dr, unsigned long dc, bool same )
    {
        Axis const r{ x[1], k[1], sr, dr }, c{ x[2], k[2], sc, dc }; long const pr = pad_of( r, same ), pc = pad_of( c, same );
        Bil l; l.shape = { x[0], out_of( r, same ), out_of( c, same ), k[0] };
        for ( unsigned long b = 0; b < x[0]; ++b ) for ( unsigned long i = 0; i < l.shape[1]; ++i ) for ( unsigned long j = 0; j < l.shape[2]; ++j ) for ( unsigned long n = 0; n < k[0]; ++n )
            for ( unsigned long u = 0; u < k[1]; ++u ) for ( unsigned long v = 0; v < k[2]; ++v )
            {
                long const a = (long)(i*sr+u*dr)-pr, e = (long)(j*sc+v*dc)-pc;
                if ( a < 0 || e < 0 || a >= (long)x[1] || e >= (long)x[2] ) continue;
                for ( unsigned long q = 0; q < x[3]; ++q )
                    l.t.push_back( { ref::ravel( { b, i, j, n }, l.shape ), ref::ravel( { b, (unsigned long)a, (unsigned long)e, q }, x ), ref::ravel( { n, u, v, q }, k ) } );
            }
        return l;
    }
    // transposed: x[b,i,j,c] spreads k[n,u,v,c] over y[b, i*s+u-p, j*s+v-p, n]; valid: extent in*s+k-1, same: in*s, centred kernel
    inline Bil tconv_terms( Shape const& x, Shape const& k, unsigned long sr, unsigned long sc, bool same )
    {
        Bil l; long const pr = same ? k[1]-1-k[1]/2 : 0, pc = same ? k[2]-1-k[2]/2 : 0;
        l.shape = { x[0], same ? x[1]*sr : x[1]*sr+k[1]-1, same ? x[2]*sc : x[2]*sc+k[2]-1, k[0] };
        for ( unsigned long b = 0; b < x[0]; ++b ) for ( unsigned long i = 0; i < x[1]; ++i ) for ( unsigned long j = 0; j < x[2]; ++j ) for ( unsigned long n = 0; n < k[0]; ++n )
            for ( unsigned long u = 0; u < k[1]; ++u ) for ( unsigned long v = 0; v < k[2]; ++v )
            {
                long const a = (long)(i*sr+u)-pr, e = (long)(j*sc+v)-pc;
                if ( a < 0 || e < 0 || a >= (long)l.shape[1] || e >= (long)l.shape[2] ) continue;
                for ( unsigned long q = 0; q < x[3]; ++q )
                    l.t.push_back( { ref::ravel( { b, (unsigned long)a, (unsigned long)e, n }, l.shape ), ref::ravel( { b, i, j, q }, x ), ref::ravel( { n, u, v, q }, k ) } );
            }
        return l;
    }
    template<typename V> Op<V> conv_op( bool general, unsigned long R, unsigned long C, unsigned long sr, unsigned long sc, unsigned long dr, unsigned long dc, bool same )
    {
        std::string const p = same ? "same" : "valid"; auto num = []( unsigned long x ){ return std::to_string( x ); };
        return bilinear_op<V>( std::string( general ? "general_conv2d " : "conv2d " ) + p + " s" + num( sr ) + "x" + num( sc ) + " d" + num( dr ) + "x" + num( dc ),
            [=]( auto const& e ){ return general ? any<V>( ceras::general_conv2d( sr, sc, dr, dc, p )( e[0], e[1] ) ) : any<V>( ceras::conv2d( R, C, sr, sc, dr, dc, p )( e[0], e[1] ) ); },
            [=]( std::vector<Shape> const& s ){ return conv_terms( s[0], s[1], sr, sc, dr, dc, same ); } );
    }
    template<typename V> Op<V> tconv_op( unsigned long kr, unsigned long kc, unsigned long sr, unsigned long sc, bool same )
    {
        std::string const p = same ? "same" : "valid"; auto num = []( unsigned long x ){ return std::to_string( x ); };
        return bilinear_op<V>( "conv2d_transpose " + p + " s" + num( sr ) + "x" + num( sc ), [=]( auto const& e ){ return any<V>( ceras::conv2d_transpose( kr, kc, sr, sc, 1, 1, p )( e[0], e[1] ) ); },
            [=]( std::vector<Shape> const& s ){ return tconv_terms( s[0], s[1], sr, sc, same ); } );
    }
    // the same convolutions with trailing arguments left to their defaults; explicit arguments are given as two
    template<typename V> std::vector<Op<V>> conv_defaults( unsigned long R, unsigned long C )
    {
        std::vector<Op<V>> v;
        auto op = [&]( std::string const& name, unsigned long sr, unsigned long sc, unsigned long dr, unsigned long dc, auto mk ) { v.push_back( bilinear_op<V>( name, [=]( auto const& e ){ return any<V>( mk( e[0], e[1] ) ); }, [=]( std::vector<Shape> const& s ){ return conv_terms( s[0], s[1], sr, sc, dr, dc, false ); } ) ); };
        op( "general_conv2d default0", 1, 1, 1, 1, ceras::general_conv2d() ); op( "general_conv2d default1", 2, 1, 1, 1, ceras::general_conv2d( 2 ) ); op( "general_conv2d default2", 2, 2, 1, 1, ceras::general_conv2d( 2, 2 ) );
        op( "general_conv2d default3", 2, 2, 2, 1, ceras::general_conv2d( 2, 2, 2 ) ); op( "general_conv2d default4", 2, 2, 2, 2, ceras::general_conv2d( 2, 2, 2, 2 ) );
        op( "conv2d default0", 1, 1, 1, 1, ceras::conv2d( R, C ) ); op( "conv2d default1", 2, 1, 1, 1, ceras::conv2d( R, C, 2 ) ); op( "conv2d default2", 2, 2, 1, 1, ceras::conv2d( R, C, 2, 2 ) );
        op( "conv2d default3", 2, 2, 2, 1, ceras::conv2d( R, C, 2, 2, 2 ) ); op( "conv2d default4", 2, 2, 2, 2, ceras::conv2d( R, C, 2, 2, 2, 2 ) );
        return v;
    }
    template<typename V> std::vector<Op<V>> tconv_defaults()
    {
        std::vector<Op<V>> v;
        auto op = [&]( std::string const& name, unsigned long sr, unsigned long sc, auto mk ) { v.push_back( bilinear_op<V>( name, [=]( auto const& e ){ return any<V>( mk( e[0], e[1] ) ); }, [=]( std::vector<Shape> const& s ){ return tconv_terms( s[0], s[1], sr, sc, false ); } ) ); };
        op( "conv2d_transpose default2", 1, 1, ceras::conv2d_transpose( 3, 2 ) ); op( "conv2d_transpose default3", 2, 1, ceras::conv2d_transpose( 3, 2, 2 ) ); op( "conv2d_transpose default4", 2, 2, ceras::conv2d_transpose( 3, 2, 2, 2 ) );
        return v;
    }
    // every one-operand image operator applicable to a 4-D shape
    template<typename V> std::vector<Op<V>> image1( Shape const& s, unsigned long maxp = 2 )
    {
        std::vector<Op<V>> v; typedef Any<V> A; auto num = []( unsigned long x ){ return std::to_string( x ); };
        for ( unsigned long k : { 2ul, 3ul, 4ul } )
        {
            auto os = [k]( Shape const& s ){ return Shape{ s[0], s[1]/k, s[2]/k, s[3] }; };
            auto win = [k]( Shape const& ix, Shape const& ){ std::vector<Shape> o; for ( unsigned long i = 0; i < k; ++i ) for ( unsigned long j = 0; j < k; ++j ) o.push_back( { ix[0], ix[1]*k+i, ix[2]*k+j, ix[3] } ); return o; };
            auto a = gather1<V>( "average_pooling_2d " + num( k ), [k]( A const& e ){ return any<V>( ceras::average_pooling_2d( k )( e ) ); }, os, win );
            auto f = a.f; auto g = a.vjp; a.f = [f,k]( Ts const& x ){ auto y = f( x ); for ( auto& z : y.v ) z /= k*k; return y; }; a.vjp = [g,k]( Ts const& x, T const& u ){ auto d = g( x, u ); for ( auto& z : d[0].v ) z /= k*k; return d; };
            v.push_back( a );
            Op<V> m; m.name = "max_pooling_2d " + num( k ); m.build = [k]( auto const& e ){ return any<V>( ceras::max_pooling_2d( k )( e[0] ) ); };
            auto pick = [win]( T const& x, Shape const& ix ){ unsigned long best = 0; bool first = true; for ( auto const& j : win( ix, x.shape ) ) { auto q = ref::ravel( j, x.shape ); if ( first || x[q] > x[best] ) best = q; first = false; } return best; };
            m.f = [=]( Ts const& x ){ T y( os( x[0].shape ) ); for ( unsigned long i = 0; i < y.size(); ++i ) y[i] = x[0][ pick( x[0], ref::unravel( i, y.shape ) ) ]; return y; };
            m.vjp = [=]( Ts const& x, T const& g ){ T d( x[0].shape ); for ( unsigned long i = 0; i < g.size(); ++i ) d[ pick( x[0], ref::unravel( i, g.shape ) ) ] += g[i]; return Ts{ d }; };
            v.push_back( m );
            for ( int w = 0; w < 2; ++w )
                v.push_back( gather1<V>( std::string( w ? "upsampling_2d " : "up_sampling_2d " ) + num( k ), [k,w]( A const& e ){ return w ? any<V>( ceras::upsampling_2d( k )( e ) ) : any<V>( ceras::up_sampling_2d( k )( e ) ); },
                    [k]( Shape const& s ){ return Shape{ s[0], s[1]*k, s[2]*k, s[3] }; }, [k]( Shape const& ix, Shape const& ){ return std::vector<Shape>{ { ix[0], ix[1]/k, ix[2]/k, ix[3] } }; } ) );
        }
        std::vector<Shape> ps; for ( unsigned long a = 1; a <= maxp; ++a ) { ps.push_back( { a } ); for ( unsigned long b = 1; b <= maxp; ++b ) { ps.push_back( { a, b } ); for ( unsigned long c = 1; c <= maxp; ++c ) for ( unsigned long d = 1; d <= maxp; ++d ) ps.push_back( { a, b, c, d } ); } }
        for ( auto const& p : ps )
        {
            unsigned long const t = p[0], b = p.size() == 4 ? p[1] : p[0], l = p.size() == 1 ? p[0] : p.size() == 2 ? p[1] : p[2], q = p.size() == 1 ? p[0] : p.size() == 2 ? p[1] : p[3];
            v.push_back( gather1<V>( "zero_padding_2d " + ref::str( p ), [p]( A const& e ){ return any<V>( ceras::zero_padding_2d( p )( e ) ); }, [=]( Shape const& s ){ return Shape{ s[0], s[1]+t+b, s[2]+l+q, s[3] }; },
                [=]( Shape const& ix, Shape const& s ){ std::vector<Shape> o; if ( ix[1] >= t && ix[1] < t+s[1] && ix[2] >= l && ix[2] < l+s[2] ) o.push_back( { ix[0], ix[1]-t, ix[2]-l, ix[3] } ); return o; } ) );
            if ( s[1] > t+b && s[2] > l+q )
                v.push_back( gather1<V>( "cropping_2d " + ref::str( p ), [p]( A const& e ){ return any<V>( ceras::cropping_2d( p )( e ) ); }, [=]( Shape const& s ){ return Shape{ s[0], s[1]-t-b, s[2]-l-q, s[3] }; },
                    [=]( Shape const& ix, Shape const& ){ return std::vector<Shape>{ { ix[0], ix[1]+t, ix[2]+l, ix[3] } }; } ) );
        }
        return v;
    }
    template<typename V> std::vector<Op<V>> img2col_defaults();
    // the column matrix of every window: row (u,v,c), column (b,i,j)
    template<typename V> Op<V> img2col_op( unsigned long kr, unsigned long kc, unsigned long pr, unsigned long pc, unsigned long sr, unsigned long sc, unsigned long dr, unsigned long dc )
    {
        auto num = []( unsigned long x ){ return std::to_string( x ); };
        return linear_op<V>( "img2col " + num(kr) + "x" + num(kc) + " p" + num(pr) + "x" + num(pc) + " s" + num(sr) + "x" + num(sc) + " d" + num(dr) + "x" + num(dc), 1,
            [=]( auto const& e ){ return any<V>( ceras::img2col( kr, kc, pr, pc, sr, sc, dr, dc )( e[0] ) ); },
            [=]( std::vector<Shape> const& ss )
            {
                auto const& s = ss[0]; unsigned long const oR = ( s[1]+2*pr-(kr-1)*dr-1 )/sr+1, oC = ( s[2]+2*pc-(kc-1)*dc-1 )/sc+1;
                Shape const rs{ kr, kc, s[3] }, cs{ s[0], oR, oC };
                Lin l( Shape{ ref::prod( rs ), ref::prod( cs ) } );
                for ( unsigned long i = 0; i < l.src.size(); ++i )
                {
                    auto a = ref::unravel( i/l.shape[1], rs ), b = ref::unravel( i%l.shape[1], cs );
                    long const r = (long)(b[1]*sr+a[0]*dr)-(long)pr, c = (long)(b[2]*sc+a[1]*dc)-(long)pc;
                    if ( r >= 0 && c >= 0 && r < (long)s[1] && c < (long)s[2] ) l.src[i].push_back( { 0, ref::ravel( { b[0], (unsigned long)r, (unsigned long)c, a[2] }, s ), 1.0 } );
                }
                return l;
            } );
    }
    template<typename V> std::vector<Op<V>> img2col_defaults()
    {
        std::vector<Op<V>> v;
        auto op = [&]( char const* name, Op<V> o, auto mk ){ o.name = name; o.build = [mk]( auto const& e ){ return any<V>( mk( e[0] ) ); }; v.push_back( o ); };
        op( "img2col default1", img2col_op<V>( 2, 2, 0, 0, 1, 1, 1, 1 ), ceras::img2col( 2 ) ); op( "img2col default2", img2col_op<V>( 2, 3, 0, 0, 1, 1, 1, 1 ), ceras::img2col( 2, 3 ) );
        op( "img2col default3", img2col_op<V>( 2, 3, 1, 0, 1, 1, 1, 1 ), ceras::img2col( 2, 3, 1 ) ); op( "img2col default4", img2col_op<V>( 2, 3, 1, 1, 1, 1, 1, 1 ), ceras::img2col( 2, 3, 1, 1 ) );
        op( "img2col default5", img2col_op<V>( 2, 3, 1, 1, 2, 1, 1, 1 ), ceras::img2col( 2, 3, 1, 1, 2 ) ); op( "img2col default6", img2col_op<V>( 2, 3, 1, 1, 2, 2, 1, 1 ), ceras::img2col( 2, 3, 1, 1, 2, 2 ) );
        op( "img2col default7", img2col_op<V>( 2, 3, 1, 1, 2, 2, 2, 1 ), ceras::img2col( 2, 3, 1, 1, 2, 2, 2 ) );
        return v;
    }
}
#endif
