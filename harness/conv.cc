// C12: convolution, pooling, padding, cropping, up-sampling, forward and adjoint (WHAT=3)
#include "ops_conv.hpp"
#ifndef WHAT
#define WHAT 3
#endif
#ifndef VT
#define VT double
#endif
using namespace ref; using namespace mc;
typedef VT V;

static void explore( Ctx& c )
{
    bool const flt = sizeof(V) == 4; double const ts = flt ? 3e4 : 1; std::string const tn = flt ? "float" : "double";
    char const* leafs[3] = { "variable", "placeholder", "constant" };
    auto run = [&]( Op<V> const& op, std::vector<T> const& x, std::vector<Leaf> const& k, std::string const& key )
    {
        std::string ks; for ( auto l : k ) ks += std::string( leafs[l] ) + ",";
        c.test( op.name + "|" + tn + "|" + key + "|" + ks, [&]
        {
            fresh_session<V>();
            std::vector<Operand<V>> in; std::vector<Any<V>> ex; for ( unsigned long i = 0; i < x.size(); ++i ) { in.emplace_back( round_to<V>( x[i] ), k[i] ); ex.push_back( in.back().ex ); }
            auto e = op.build( ex );
            check_once( c, op, e, in, WHAT, 3, ts );
            if ( WHAT & BWD ) check_once( c, op, e, in, WHAT, 8, ts, "second run", "again:" );
        } );
    };
    unsigned long const top = c.thorough ? 6 : 5;
    // convolutions: every pair of (extent, kernel, stride, dilation) along the two axes
    std::vector<Axis> ax; for ( unsigned long in = 1; in <= top; ++in ) for ( unsigned long k = 1; k <= 3; ++k ) for ( unsigned long s = 1; s <= 3; ++s ) for ( unsigned long d = 1; d <= ( k > 1 ? 2 : 1 ); ++d ) ax.push_back( { in, k, s, d } );
    if ( c.thorough ) for ( Axis a : { Axis{7,4,2,1}, Axis{7,5,1,1}, Axis{9,3,2,3}, Axis{8,5,3,1}, Axis{4,4,4,1}, Axis{5,5,2,1} } ) ax.push_back( a );
    std::vector<Leaf> const vv{ variable_leaf, variable_leaf }, pv{ placeholder_leaf, variable_leaf }, vc{ variable_leaf, constant_leaf };
    for ( int same = 0; same < 2; ++same ) for ( int gen = 0; gen < 2; ++gen )
        for ( unsigned long ri = 0; ri < ax.size(); ++ri ) for ( unsigned long ci = 0; ci < ax.size(); ++ci )
        {
            auto const &r = ax[ri], &q = ax[ci];
            if ( flt && r.in+q.in > 6 ) continue;
            if ( same && !gen && !( even_total( r ) && even_total( q ) ) ) continue;        // conv2d asserts an even total padding
            auto op = conv_op<V>( gen, r.in, q.in, r.s, q.s, r.d, q.d, same );
            if ( !fits( r, same ) || !fits( q, same ) )
            {
                if ( r.in+q.in > 5 ) continue;
                // the kernel does not fit into the image: reported as an error, or an empty result; no access outside either way
                c.test( op.name + "|" + tn + "|too large|" + str( Shape{ r.in, q.in } ) + "," + str( Shape{ r.k, q.k } ), [&]
                {
                    auto& s = fresh_session<V>(); ceras::variable<ceras::tensor<V>> x( to_c<V>( fill( { 2, r.in, q.in, 2 }, 1 ) ) ), k( to_c<V>( fill( { 2, r.k, q.k, 2 }, 2 ) ) ); unsigned long n = 0;
                    bool const rej = rejects( [&]{ auto e = op.build( { any<V>( x ), any<V>( k ) } ); n = s.run( e ).size(); } ); c.trans();
                    c.check( rej || n == 0, "too-large-kernel", [&]{ return "produced " + std::to_string( n ) + " elements"; } );
                } );
                continue;
            }
            bool const diag = ri == ci || ( r.k == q.k && r.s == q.s && r.d == q.d );
            for ( unsigned long bs = 1; bs <= 2; ++bs ) for ( unsigned long ch = 1; ch <= 2; ++ch ) for ( unsigned long nc = 1; nc <= ( c.thorough ? 3 : 2 ); ++nc )
            {
                if ( !diag && !( bs == 2 && ch == 2 && nc == ( ri+ci )%2+1 ) ) continue;
                if ( r.in*q.in*r.k*q.k > 150 && bs*ch*nc > 4 && !c.thorough ) continue;
                Shape const xs{ bs, r.in, q.in, ch }, ks{ nc, r.k, q.k, ch }; std::string const key = str( xs ) + "," + str( ks );
                run( op, { fill( xs, 1 ), fill( ks, 2 ) }, vv, key );
                if ( diag && bs == 2 && ch == nc ) { run( op, { fill( xs, 3 ), fill( ks, 4 ) }, pv, key ); run( op, { fill( xs, 3 ), fill( ks, 4 ) }, vc, key ); }
            }
        }
    // img2col on its own, with free padding
    for ( unsigned long R = 1; R <= 4; ++R ) for ( unsigned long C = 1; C <= 4; ++C ) for ( unsigned long kr = 1; kr <= 3; ++kr ) for ( unsigned long kc = 1; kc <= 3; ++kc )
        for ( unsigned long p = 0; p < 9; ++p ) for ( unsigned long st = 0; st < 4; ++st ) for ( unsigned long d = 0; d < ( kr+kc > 2 ? 3 : 1 ); ++d )
        {
            unsigned long const pr = p%3, pc = p/3, sr = 1+st%2, sc = 1+st/2, dr = 1+(d==1), dc = 1+(d==2);
            if ( R+2*pr < (kr-1)*dr+1 || C+2*pc < (kc-1)*dc+1 ) continue;
            if ( !c.thorough && ( R*5+C*3+kr*7+kc+p*11+st*13+d )%3 ) continue;
            Shape const xs{ 1+(R+C)%2, R, C, 1+(kr+kc)%2 };
            run( img2col_op<V>( kr, kc, pr, pc, sr, sc, dr, dc ), { fill( xs, 5 ) }, { variable_leaf }, str( xs ) );
        }
    // transposed convolution
    for ( int same = 0; same < 2; ++same ) for ( unsigned long R = 1; R <= 3; ++R ) for ( unsigned long C = 1; C <= 3; ++C ) for ( unsigned long kr = 1; kr <= 3; ++kr ) for ( unsigned long kc = 1; kc <= 3; ++kc ) for ( unsigned long sr = 1; sr <= 3; ++sr ) for ( unsigned long sc = 1; sc <= 3; ++sc )
    {
        if ( same && ( kr%2 == 0 || kc%2 == 0 ) ) continue;                                // "same" is centred for odd kernels only
        for ( unsigned long bs = 1; bs <= 2; ++bs ) for ( unsigned long ch = 1; ch <= 2; ++ch ) for ( unsigned long nc = 1; nc <= 2; ++nc )
        {
            if ( !( bs == 2 && ch == 2 && nc == 1+(R+C)%2 ) && !( kr == kc && sr == sc && R == C ) ) continue;
            Shape const xs{ bs, R, C, ch }, ks{ nc, kr, kc, ch };
            run( tconv_op<V>( kr, kc, sr, sc, same ), { fill( xs, 1 ), fill( ks, 2 ) }, vv, str( xs ) + "," + str( ks ) );
        }
    }
    // arguments left to their defaults
    for ( auto const& op : conv_defaults<V>( 6, 5 ) ) run( op, { fill( { 2, 6, 5, 2 }, 1 ), fill( { 3, 3, 2, 2 }, 2 ) }, vv, "defaults" );
    for ( auto const& op : tconv_defaults<V>() ) run( op, { fill( { 2, 3, 4, 2 }, 1 ), fill( { 3, 3, 2, 2 }, 2 ) }, vv, "defaults" );
    for ( auto const& op : img2col_defaults<V>() ) run( op, { fill( { 2, 6, 5, 2 }, 1 ) }, { variable_leaf }, "defaults" );
    // larger images, batches and channel counts
    if ( !flt || c.thorough )
        for ( auto const& [xs, ks, s, d] : std::vector<std::tuple<Shape,Shape,unsigned long,unsigned long>>{ { { 5, 9, 7, 3 }, { 4, 3, 3, 3 }, 1, 1 }, { { 1, 17, 16, 1 }, { 2, 5, 5, 1 }, 2, 1 }, { { 9, 4, 4, 2 }, { 1, 3, 1, 2 }, 1, 1 }, { { 2, 12, 3, 5 }, { 7, 1, 1, 5 }, 1, 1 }, { { 1, 13, 11, 2 }, { 2, 3, 3, 2 }, 1, 4 }, { { 2, 10, 21, 1 }, { 1, 5, 3, 1 }, 4, 1 }, { { 2, 8, 8, 9 }, { 9, 3, 3, 9 }, 1, 1 }, { { 1, 33, 3, 1 }, { 1, 3, 3, 1 }, 1, 1 } } )
        {
            for ( int same = 0; same < 2; ++same ) for ( int gen = 0; gen < 2; ++gen )
            {
                Axis const r{ xs[1], ks[1], s, d }, q{ xs[2], ks[2], s, d };
                if ( ( same && !gen && !( even_total( r ) && even_total( q ) ) ) || !fits( r, same ) || !fits( q, same ) ) continue;
                run( conv_op<V>( gen, xs[1], xs[2], s, s, d, d, same ), { fill( xs, 1 ), fill( ks, 2 ) }, vv, str( xs ) + "," + str( ks ) );
            }
            if ( d == 1 ) for ( int same = 0; same < 2; ++same ) if ( !same || ( ks[1]%2 && ks[2]%2 ) ) run( tconv_op<V>( ks[1], ks[2], s, s, same ), { fill( xs, 1 ), fill( ks, 2 ) }, vv, str( xs ) + "," + str( ks ) );
            for ( auto const& op : image1<V>( xs, 1 ) ) run( op, { fill( xs, 3 ) }, { variable_leaf }, str( xs ) );
        }
    // pooling, padding, cropping, up-sampling
    for ( unsigned long bs = 1; bs <= 2; ++bs ) for ( unsigned long R = 1; R <= top+1; ++R ) for ( unsigned long C = 1; C <= top+1; ++C ) for ( unsigned long ch = 1; ch <= 2; ++ch )
    {
        Shape const xs{ bs, R, C, ch };
        for ( auto const& op : image1<V>( xs, c.thorough ? 3 : 2 ) ) for ( int k = 0; k < 2; ++k )
        {
            if ( !c.thorough && op.name.find( "_2d " ) != std::string::npos && ( op.name[0] == 'z' || op.name[0] == 'c' ) && bs*ch != 2 && R*C > 9 ) continue;
            if ( k && ( R+C )%2 ) continue;
            run( op, { fill( xs, 1+k ) }, { k ? placeholder_leaf : variable_leaf }, str( xs ) );
        }
    }
    // max pooling: every tuple of a small alphabet in one window (ties, negatives)
    {
        std::vector<double> al{ -3, -1, 0, 2 };
        for ( auto const& op : image1<V>( { 1, 2, 2, 1 }, 0 ) ) if ( op.name == "max_pooling_2d 2" ) for ( unsigned long k = 0; k < 256; ++k )
        {
            T x( Shape{ 1, 2, 2, 1 } ); unsigned long q = k; for ( auto& z : x.v ) { z = al[q%4]; q /= 4; }
            run( op, { x }, { variable_leaf }, "t" + std::to_string( k ) );
        }
    }
    // cropping more than there is must be reported
    for ( unsigned long R = 1; R <= 4; ++R ) for ( unsigned long C = 1; C <= 4; ++C ) for ( unsigned long a = 1; a <= 3; ++a ) for ( unsigned long b = 1; b <= 3; ++b )
    {
        if ( R > 2*a && C > 2*b ) continue;
        c.test( "cropping_2d|" + tn + "|too much|" + str( Shape{ R, C } ) + "," + str( Shape{ a, b } ), [&]
        {
            auto& s = fresh_session<V>(); ceras::variable<ceras::tensor<V>> x( to_c<V>( fill( { 1, R, C, 1 }, 1 ) ) );
            auto e = ceras::cropping_2d( { a, b } )( x ); c.trans();
            c.check( rejects( [&]{ s.run( e ); } ), "too-much-cropping", "accepted" );
        } );
    }
}
MC_MAIN( explore )
