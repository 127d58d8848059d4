// C04: reshape, squeeze, flip, repeat, repmat, concatenate, broadcasting
#include "ceras_mc.hpp"
using namespace ref;
typedef double V;

static void pure( mc::Ctx& c, ceras::tensor<V> const& x, ref::T const& before, std::string const& tag )
{
    mc::same( c, mc::to_r( x ), before, tag + ":source-modified", 0 );
}

static void explore( mc::Ctx& c )
{
    auto all = shapes( 4, c.thorough ? 4 : 3 );
    for ( Shape s : { Shape{17}, Shape{2,9}, Shape{1,1,5}, Shape{5,1}, Shape{1,12}, Shape{2,1,1,7}, Shape{33,3}, Shape{2,65}, Shape{3,5,7}, Shape{257}, Shape{16,4,2,5} } ) all.push_back( s );
    for ( auto const& s : all )
    {
        auto const v = fill( s, 1 ); unsigned long const n = v.size();
        c.test( "reshape|" + str(s), [&]
        {
            // every factorisation into up to three dimensions, and an inferred last dimension
            for ( auto const& t : shapes( 3, n > 36 ? 12 : n ) )
            {
                if ( prod(t) == n )
                {
                    auto x = mc::to_c( v ); auto y = ceras::reshape( std::as_const(x), t ); c.trans();
                    mc::same( c, mc::to_r(y), ref::T( t, v.v ), "reshape:value", 0 );
                    pure( c, x, v, "reshape" );
                    auto z = x.deep_copy(); auto& w = z.reshape( t ); c.trans();
                    mc::same( c, mc::to_r(z), ref::T( t, v.v ), "reshape-member:value", 0 ); c.check( &w == &z, "reshape-member:self" );
                    c.state( hash( mc::to_r(z) ) );
                }
                if ( n % prod(t) == 0 && t.size() < 3 )
                {
                    Shape q = t; q.push_back( n/prod(t) ); Shape u = t; u.push_back( -1ul );
                    auto x = mc::to_c( v ); auto y = ceras::reshape( std::as_const(x), u ); c.trans();
                    mc::same( c, mc::to_r(y), ref::T( q, v.v ), "reshape-infer:value", 0 );
                    pure( c, x, v, "reshape-infer" );
                    auto z = x.deep_copy(); z.reshape( u ); c.trans(); mc::same( c, mc::to_r(z), ref::T( q, v.v ), "reshape-member-infer:value", 0 );
                }
            }
            { auto x = mc::to_c( v ); x.reshape( {-1ul} ); c.trans(); mc::same( c, mc::to_r(x), ref::T( Shape{n}, v.v ), "reshape-flat:value", 0 ); }
        } );
        c.test( "squeeze|" + str(s), [&]
        {
            auto x = mc::to_c( v );
            Shape t; for ( auto d : s ) if ( d > 1 ) t.push_back( d ); if ( t.empty() ) t = {1};
            auto y = ceras::squeeze( x ); c.trans(); mc::same( c, mc::to_r(y), ref::T( t, v.v ), "squeeze:value", 0 ); pure( c, x, v, "squeeze" );
            auto y2 = ceras::squeeze( x, -1 ); c.trans(); mc::same( c, mc::to_r(y2), ref::T( t, v.v ), "squeeze-1:value", 0 );
            for ( unsigned long a = 0; a < s.size(); ++a ) if ( s[a] == 1 && s.size() > 1 )
            {
                Shape u = s; u.erase( u.begin()+a );
                auto z = ceras::squeeze( x, (int)a ); c.trans(); mc::same( c, mc::to_r(z), ref::T( u, v.v ), "squeeze-axis:value", 0 ); pure( c, x, v, "squeeze-axis" );
            }
            c.state( hash( mc::to_r(y) ) );
        } );
        c.test( "flip|" + str(s), [&]
        {
            auto x = mc::to_c( v );
            for ( int a = -1; a < (int)s.size(); ++a )
            {
                unsigned long ax = a < 0 ? s.size()-1 : a; ref::T w( s );
                for ( unsigned long i = 0; i < n; ++i ) { auto ix = unravel( i, s ); ix[ax] = s[ax]-1-ix[ax]; w[ ravel(ix,s) ] = v[i]; }
                auto y = ceras::flip( x, a ); c.trans(); mc::same( c, mc::to_r(y), w, "flip:value", 0 ); pure( c, x, v, "flip" ); c.state( hash( w ) );
                for ( Shape os : { Shape{1}, s, Shape{2,3}, Shape{7,2,1,1} } )
                { ceras::tensor<V> out{ os, 5.0 }; ceras::flip( x, a, out ); c.trans(); mc::same( c, mc::to_r(out), w, "flip-into:value", 0 ); pure( c, x, v, "flip-into" ); }
                auto z = ceras::flip( ceras::flip( x, a ), a ); c.trans(); mc::same( c, mc::to_r(z), v, "flip-twice", 0 );
            }
            auto y = ceras::flip( x ); ref::T w( s ); unsigned long ax = s.size()-1;
            for ( unsigned long i = 0; i < n; ++i ) { auto ix = unravel( i, s ); ix[ax] = s[ax]-1-ix[ax]; w[ ravel(ix,s) ] = v[i]; }
            c.trans(); mc::same( c, mc::to_r(y), w, "flip-default:value", 0 );
        } );
        c.test( "repeat|" + str(s), [&]
        {
            for ( unsigned long k = 1; k <= 4; ++k )
            {
                auto x = mc::to_c( v ); auto y = ceras::repeat( x, k ); c.trans();
                Shape t = s; t.insert( t.begin(), k ); ref::T w( t ); for ( unsigned long i = 0; i < w.size(); ++i ) w[i] = v[i%n];
                mc::same( c, mc::to_r(y), w, "repeat:value", 0 ); pure( c, x, v, "repeat" ); c.state( hash( w ) );
                for ( auto& q : y ) q = 4; pure( c, x, v, "repeat-result-alias" );
            }
        } );
        if ( s.size() == 2 )
            c.test( "repmat|" + str(s), [&]
            {
                for ( unsigned long r = 1; r <= 3; ++r ) for ( unsigned long k = 1; k <= 3; ++k )
                {
                    auto x = mc::to_c( v ); auto y = ceras::repmat( x, r, k ); c.trans();
                    ref::T w( Shape{ s[0]*r, s[1]*k } ); for ( unsigned long i = 0; i < s[0]*r; ++i ) for ( unsigned long j = 0; j < s[1]*k; ++j ) w[i*s[1]*k+j] = v[(i%s[0])*s[1]+j%s[1]];
                    mc::same( c, mc::to_r(y), w, "repmat:value", 0 ); pure( c, x, v, "repmat" ); c.state( hash( w ) );
                }
            } );
        // zeros_like, ones_like, copies, ones, zeros
        c.test( "like|" + str(s), [&]
        {
            auto x = mc::to_c( v ); c.trans( 5 );
            mc::same( c, mc::to_r( ceras::zeros_like( x ) ), ref::T( s, 0.0 ), "zeros_like", 0 ); mc::same( c, mc::to_r( ceras::ones_like( x ) ), ref::T( s, 1.0 ), "ones_like", 0 );
            mc::same( c, mc::to_r( ceras::zeros<V>( s ) ), ref::T( s, 0.0 ), "zeros", 0 ); mc::same( c, mc::to_r( ceras::ones<V>( s ) ), ref::T( s, 1.0 ), "ones", 0 );
            auto y = ceras::copy( x ); auto z = ceras::deep_copy( x ); mc::same( c, mc::to_r(y), v, "copy", 0 ); for ( auto& q : y ) q = 1; for ( auto& q : z ) q = 2; pure( c, x, v, "copy" );
        } );
        // iteration order: begin/end, reverse, free functions
        c.test( "iter|" + str(s), [&]
        {
            auto const x = mc::to_c( v ); std::vector<double> a( x.begin(), x.end() ), b( x.rbegin(), x.rend() ), d( x.cbegin(), x.cend() ), e( x.crbegin(), x.crend() ), f( begin(x), end(x) ); c.trans( 5 );
            auto rv = v.v; std::reverse( rv.begin(), rv.end() );
            c.check( a == v.v && d == v.v && f == v.v, "iter:forward" ); c.check( b == rv && e == rv, "iter:backward" );
            c.check( ceras::size(x) == n && ceras::ndim(x) == s.size() && ceras::shape(x) == s && !ceras::empty(x), "iter:size" );
        } );
    }
    // broadcasting
    auto bs = shapes( 3, 3 ); for ( Shape s : { Shape{17}, Shape{3,17}, Shape{2,1,17}, Shape{33,1}, Shape{2,2,1,3}, Shape{3,2,1,1,2} } ) bs.push_back( s );
    for ( auto const& a : bs ) for ( auto const& b : bs )
    {
        Shape o; bool ok = bshape( a, b, o );
        if ( !ok ) continue;
        c.test( "broadcast|" + str(a) + "," + str(b), [&]
        {
            c.check( ceras::broadcast_shape( a, b ) == o, "broadcast_shape" ); c.trans();
            auto v = fill( a, 2 ); auto x = mc::to_c( v ); auto y = ceras::broadcast_tensor( x, o ); c.trans();
            ref::T w( o ); for ( unsigned long i = 0; i < w.size(); ++i ) w[i] = bget( v, o, unravel( i, o ) );
            mc::same( c, mc::to_r(y), w, "broadcast_tensor:value", 0 ); pure( c, x, v, "broadcast_tensor" ); c.state( hash( w ) );
        } );
    }
    // concatenate along every axis; operands with fewer dimensions are repeated over the leading ones
    auto cs = shapes( c.thorough ? 4 : 3, 3 ); for ( Shape s : { Shape{17}, Shape{33,5}, Shape{2,3,17}, Shape{9,2,5}, Shape{2,2,2,2}, Shape{3,1,2,4} } ) cs.push_back( s );
    for ( auto const& a : cs )
        for ( unsigned long ax = 0; ax <= a.size(); ++ax )      // ax == rank means "-1"
            for ( unsigned long d = 1; d <= 3; ++d )
            {
                unsigned long const real = ax == a.size() ? a.size()-1 : ax; Shape b = a; b[real] = d;
                c.test( "concat|" + str(a) + "," + str(b) + "|" + std::to_string( ax == a.size() ? -1 : (long)ax ), [&]
                {
                    auto va = fill( a, 1 ), vb = fill( b, 2 ); auto x = mc::to_c( va ), y = mc::to_c( vb );
                    auto z = ceras::concatenate( x, y, ax == a.size() ? -1ul : ax ); c.trans();
                    Shape o = a; o[real] += d; ref::T w( o );
                    for ( unsigned long i = 0; i < w.size(); ++i ) { auto ix = unravel( i, o ); if ( ix[real] < a[real] ) w[i] = va[ ravel(ix,a) ]; else { ix[real] -= a[real]; w[i] = vb[ ravel(ix,b) ]; } }
                    mc::same( c, mc::to_r(z), w, "concat:value", 0 ); pure( c, x, va, "concat:lhs" ); pure( c, y, vb, "concat:rhs" ); c.state( hash( w ) );
                    if ( ax == 0 ) { auto q = ceras::concatenate( x, y ); c.trans(); mc::same( c, mc::to_r(q), w, "concat-default:value", 0 ); }
                    if ( a == b ) { auto q = ceras::concatenate( x, x, ax == a.size() ? -1ul : ax ); c.trans(); pure( c, x, va, "concat-self" ); }
                    // lower-rank right operand, axis among its own (trailing) dimensions
                    for ( unsigned long k = 1; k < a.size(); ++k ) if ( real >= k )
                    {
                        Shape lb( b.begin()+k, b.end() ); auto vl = fill( lb, 3 ); auto l = mc::to_c( vl );
                        ref::T full( b ); for ( unsigned long i = 0; i < full.size(); ++i ) full[i] = vl[ i % vl.size() ];
                        ref::T w2( o ); for ( unsigned long i = 0; i < w2.size(); ++i ) { auto ix = unravel( i, o ); if ( ix[real] < a[real] ) w2[i] = va[ ravel(ix,a) ]; else { ix[real] -= a[real]; w2[i] = full[ ravel(ix,b) ]; } }
                        auto z2 = ceras::concatenate( x, l, real ); c.trans();
                        mc::same( c, mc::to_r(z2), w2, "concat-lower-rank:value", 0 ); pure( c, x, va, "concat-lower-rank:lhs" ); pure( c, l, vl, "concat-lower-rank:rhs" );
                    }
                } );
            }
}
MC_MAIN( explore )
