// C15: two expressions made by the same operator - with one functor applied twice, or made separately - stay independent:
// whatever the interleaving of evaluations and differentiations, each gives what it gives alone.
// GROUP 1 element-wise, 2 structural and images, 3 convolutions and one functor applied twice
#include "ops_conv.hpp"
#include "ops_elem.hpp"
#ifndef GROUP
#define GROUP 1
#endif
using namespace ref; using namespace mc;
typedef double V; typedef ceras::tensor<V> TT; typedef Any<V> A;
typedef std::function<A(std::vector<A> const&)> Build;
static T fill_in( Op<V> const& op, Shape const& s, unsigned long salt, double lo )
{
    static std::vector<double> const grid = value_grid( false );
    std::vector<double> dom; for ( double x : grid ) if ( std::fabs( x ) <= 10 && op.domain( x ) && op.smooth( x ) ) dom.push_back( x );
    T x( s ); for ( unsigned long i = 0; i < x.size(); ++i ) x[i] = lo != 0 ? lo*0.5 + 0.37*( ( i*5+salt*3 )%11 ) : dom[ ( i*5 + salt*13 ) % dom.size() ]; return x;
}
// steps: 0/1 evaluate the first/second, 2/3 differentiate it (after it was evaluated), 4 evaluate and differentiate their sum
static void pairs( Ctx& c, Op<V> const& op, std::function<std::pair<Build,Build>()> make, Ts const& xa, Ts const& xb, Leaf kind, int depth, std::string const& key )
{
    bool const summed = op.f( xa ).shape == op.f( xb ).shape, deep = kind == variable_leaf && !op.deviant; int const al = summed ? 5 : 4;
    for ( int first = 0; first < al; ++first )
    {
        if ( first == 2 || first == 3 ) continue;
        c.test( op.name + "|" + key + "|" + ( kind == variable_leaf ? "variable" : "placeholder" ) + "|" + std::to_string( first ), [&,first]
        {
            T const want[2] = { op.f( xa ), op.f( xb ) }; double const tol = op.tol;
            T g[2]; Ts d[2]; for ( int k = 0; k < 2; ++k ) { g[k] = round_to<V>( fill( want[k].shape, 3+k ) ); if ( deep ) d[k] = true_vjp( op, k ? xb : xa, g[k] ); }
            double const gtol = op.vjp ? tol*10 : std::max( tol*10, 1e-6 );
            Ts ds[2]; if ( summed && deep ) for ( int k = 0; k < 2; ++k ) ds[k] = true_vjp( op, k ? xb : xa, g[0] );
            unsigned long total = 1; for ( int i = 1; i < depth; ++i ) total *= al;
            for ( unsigned long h = 0; h < total; ++h )
            {
                fresh_session<V>(); auto& s = ceras::get_default_session<TT>(); unsigned long q = h; std::string where;
                std::vector<Operand<V>> in[2]; A e[2]; auto const mk = make();
                for ( int k = 0; k < 2; ++k ) { std::vector<A> ex; for ( auto const& x : k ? xb : xa ) { in[k].emplace_back( x, kind ); ex.push_back( in[k].back().ex ); } e[k] = ( k ? mk.second : mk.first )( ex ); }
                A sum; if ( summed ) sum = any<V>( e[0] + e[1] );
                bool ran[2] = { false, false }; int step = first;
                auto clear = [&]{ if ( kind == variable_leaf ) for ( auto& side : in ) for ( auto& i : side ) i.var[0].gradient() = ceras::zeros_like( i.var[0].data() ); };
                auto gradients = [&]( int k, Ts const* w ){ for ( unsigned long i = 0; i < in[k].size(); ++i ) { T const z( in[k][i].value().shape ); same( c, in[k][i].gradient(), w ? (*w)[i] : z, op.name + ( w ? ":pair-gradient" : ":other-gradient-touched" ), gtol, where ); } };
                for ( int i = 0; i < depth; ++i )
                {
                    if ( i ) { step = q%al; q /= al; }
                    where += std::to_string( step );
                    if ( step < 2 )
                    {
                        auto const got = to_r( s.run( e[step] ) ); c.trans(); ran[step] = true; c.state( hash( got, step ) );
                        same( c, got, want[step], op.name + ":pair-value", tol, where );
                    }
                    else if ( step < 4 )
                    {
                        int const k = step-2; if ( !ran[k] || !deep ) break;
                        clear(); e[k].backward( to_c<V>( g[k] ) ); c.trans(); gradients( k, &d[k] ); gradients( 1-k, nullptr );
                    }
                    else
                    {
                        T w = want[0]; for ( unsigned long j = 0; j < w.size(); ++j ) w[j] += want[1][j];
                        auto const got = to_r( s.run( sum ) ); c.trans(); ran[0] = ran[1] = true; same( c, got, w, op.name + ":pair-sum", tol*4, where );
                        if ( deep ) { clear(); sum.backward( to_c<V>( g[0] ) ); c.trans(); gradients( 0, &ds[0] ); gradients( 1, &ds[1] ); }
                    }
                    for ( int k = 0; k < 2; ++k ) for ( unsigned long j = 0; j < in[k].size(); ++j ) same( c, in[k][j].value(), ( k ? xb : xa )[j], op.name + ":pair-input", 0, where );
                }
                if ( c.case_fails ) return;
            }
        } );
    }
}
static std::string shapes_of( Ts const& in ) { std::string o; for ( auto const& t : in ) o += str( t.shape ); return o; }
static void apart( Ctx& c, Op<V> const& op, Ts const& xa, Ts const& xb, int depth )
{
    for ( Leaf k : { variable_leaf, placeholder_leaf } ) pairs( c, op, [&]{ return std::make_pair( op.build, op.build ); }, xa, xb, k, depth, "separate|" + shapes_of( xa ) + ";" + shapes_of( xb ) );
}
// f makes a functor; one functor is applied to both inputs
template<typename F> static void one_functor( Ctx& c, std::vector<Op<V>> const& ra, std::vector<Op<V>> const& rb, std::string const& name, F f, Ts const& xa, Ts const& xb, int depth )
{
    Op<V> const* op = nullptr; bool other = false; for ( auto const& o : ra ) if ( o.name == name ) op = &o; for ( auto const& o : rb ) if ( o.name == name ) other = true;
    if ( !op || !other ) { std::fprintf( stderr, "no operator named %s\n", name.c_str() ); std::abort(); }
    auto make = [f]
    {
        auto fun = std::make_shared<decltype( f() )>( f() );
        Build b = [fun]( std::vector<A> const& e ){ if constexpr ( std::is_invocable_v<decltype( f() ) const&, A const&> ) return any<V>( (*fun)( e[0] ) ); else return any<V>( (*fun)( e[0], e[1] ) ); };
        return std::make_pair( b, b );
    };
    for ( Leaf k : { variable_leaf, placeholder_leaf } ) pairs( c, *op, make, xa, xb, k, depth, "one functor|" + shapes_of( xa ) + ";" + shapes_of( xb ) );
}

// one operator applied to its own result: 0/1 evaluate the inner/outer expression, 2/3 differentiate it, 4 evaluate and differentiate their sum
static void nested( Ctx& c, Op<V> const& inner, Op<V> const& outer, Ts const& x, unsigned long pos, Ts const& others, int depth, std::string const& key )
{
    T const y = inner.f( x ); for ( unsigned long i = 0; i < y.size(); ++i ) if ( !std::isfinite( y[i] ) || std::fabs( y[i] ) > 40 || !outer.domain( y[i] ) ) return;
    bool deep = !inner.deviant && !outer.deviant; for ( unsigned long i = 0; i < y.size(); ++i ) deep = deep && outer.smooth( y[i] );
    Ts q; for ( unsigned long i = 0, j = 0; i <= others.size(); ++i ) q.push_back( i == pos ? y : others[j++] );
    T const z = outer.f( q ); bool const summed = y.shape == z.shape; int const al = summed ? 5 : 4; for ( double v : z.v ) if ( !std::isfinite( v ) || std::fabs( v ) > 1e6 ) return;
    for ( int first = 0; first < al; ++first )
    {
        if ( first == 2 || first == 3 ) continue;
        c.test( inner.name + "|nested|" + key + "|" + std::to_string( pos ) + "|" + std::to_string( first ), [&,first]
        {
            double const tol = std::max( inner.tol, outer.tol )*20, gtol = inner.vjp && outer.vjp ? tol*10 : std::max( tol*10, 1e-5 );
            T const gy = round_to<V>( fill( y.shape, 3 ) ), gz = round_to<V>( fill( z.shape, 4 ) );
            auto split = [&]( Ts d ){ T at = d[pos]; d.erase( d.begin()+pos ); return std::make_pair( at, d ); };
            Ts di, dz, ds; std::pair<T,Ts> doz, dos;
            if ( deep )
            {
                di = true_vjp( inner, x, gy ); doz = split( true_vjp( outer, q, gz ) ); dz = true_vjp( inner, x, doz.first );
                if ( summed ) { dos = split( true_vjp( outer, q, gy ) ); T u = dos.first; for ( unsigned long i = 0; i < u.size(); ++i ) u[i] += gy[i]; ds = true_vjp( inner, x, u ); }
            }
            unsigned long total = 1; for ( int i = 1; i < depth; ++i ) total *= al;
            for ( unsigned long h = 0; h < total; ++h )
            {
                fresh_session<V>(); auto& s = ceras::get_default_session<TT>(); unsigned long w = h; std::string where;
                std::vector<Operand<V>> in, out; std::vector<A> ei, eo; for ( auto const& t : x ) { in.emplace_back( t, variable_leaf ); ei.push_back( in.back().ex ); }
                A e1 = inner.build( ei ); for ( unsigned long i = 0, j = 0; i <= others.size(); ++i ) if ( i == pos ) eo.push_back( e1 ); else { out.emplace_back( others[j++], variable_leaf ); eo.push_back( out.back().ex ); }
                A e2 = outer.build( eo ), sum; if ( summed ) sum = any<V>( e1 + e2 ); bool ran[2] = { false, false }; int step = first;
                auto gradients = [&]( A& e, T const& g, Ts const& wi, Ts const* wo )
                {
                    for ( auto* side : { &in, &out } ) for ( auto& i : *side ) i.var[0].gradient() = ceras::zeros_like( i.var[0].data() );
                    e.backward( to_c<V>( g ) ); c.trans();
                    for ( unsigned long i = 0; i < in.size(); ++i ) same( c, in[i].gradient(), wi[i], inner.name + ":nested-gradient", gtol, where );
                    for ( unsigned long i = 0; i < out.size(); ++i ) same( c, out[i].gradient(), wo ? (*wo)[i] : T( others[i].shape ), inner.name + ":nested-gradient", gtol, where );
                };
                for ( int i = 0; i < depth; ++i )
                {
                    if ( i ) { step = w%al; w /= al; }
                    where += std::to_string( step );
                    if ( step == 0 ) { auto const got = to_r( s.run( e1 ) ); c.trans(); ran[0] = true; same( c, got, y, inner.name + ":nested-value", tol, where ); c.state( hash( got, step ) ); }
                    else if ( step == 1 ) { auto const got = to_r( s.run( e2 ) ); c.trans(); ran[0] = ran[1] = true; same( c, got, z, inner.name + ":nested-value", tol, where ); c.state( hash( got, step ) ); }
                    else if ( step == 4 )
                    {
                        T want = y; for ( unsigned long j = 0; j < want.size(); ++j ) want[j] += z[j];
                        auto const got = to_r( s.run( sum ) ); c.trans(); ran[0] = ran[1] = true; same( c, got, want, inner.name + ":nested-sum", tol, where ); if ( deep ) gradients( sum, gy, ds, &dos.second );
                    }
                    else if ( !ran[step-2] || !deep ) break;
                    else if ( step == 2 ) gradients( e1, gy, di, nullptr );
                    else gradients( e2, gz, dz, &doz.second );
                }
                if ( c.case_fails ) return;
            }
        } );
    }
}
template<typename Reg> static void nest( Ctx& c, Reg reg, Ts const& x, int depth )
{
    for ( auto const& op : reg( x ) )
    {
        T const y = op.f( x );
        for ( unsigned long pos = 0; pos < x.size(); ++pos )
        {
            Ts others; if ( x.size() == 2 ) others.push_back( fill( y.shape, 6, 1.5 ) ); // the other operand has the shape of the result
            for ( int own = 0; own < ( x.size() == 2 ? 2 : 1 ); ++own )
            {
                if ( own ) others[0] = fill( x[1-pos].shape, 7, 1.5 );
                Ts q; for ( unsigned long i = 0, j = 0; i < x.size(); ++i ) q.push_back( i == pos ? y : others[j++] );
                for ( auto const& o : reg( q ) ) if ( o.name == op.name ) nested( c, op, o, x, pos, others, depth, shapes_of( x ) + "," + shapes_of( others ) );
            }
        }
    }
}
static void explore( Ctx& c )
{
    int const depth = c.thorough ? 4 : 3;
    auto two = []( Shape const& a, Shape const& b, unsigned long s ){ return Ts{ fill( a, s, 1.5 ), fill( b, s+3, 1.5 ) }; };
    auto one = []( Shape const& s, unsigned long salt ){ return Ts{ fill( s, salt ) }; };
#if GROUP == 1
    std::vector<Op<V>> un = maths<V>(); for ( auto& o : activations<V>() ) un.push_back( o );
    for ( auto const& op : un ) nest( c, [&]( Ts const& ){ return std::vector<Op<V>>{ op }; }, { fill_in( op, { 2, 3 }, 1, 0 ) }, depth );
    for ( auto const& op : un ) for ( auto const& sh : std::vector<std::pair<Shape,Shape>>{ { { 2, 3 }, { 2, 3 } }, { { 2, 3 }, { 4 } } } )
        apart( c, op, { fill_in( op, sh.first, 1, 0 ) }, { fill_in( op, sh.second, 2, 0 ) }, depth );
    for ( auto const& ops : { binary_same<V>(), binary_broadcast<V>() } ) for ( auto const& op : ops )
    {
        apart( c, op, two( { 2, 3 }, { 2, 3 }, 1 ), two( { 2, 3 }, { 2, 3 }, 2 ), depth ); apart( c, op, two( { 2, 3 }, { 2, 3 }, 1 ), two( { 1, 4 }, { 1, 4 }, 2 ), depth );
        nest( c, [&]( Ts const& ){ return std::vector<Op<V>>{ op }; }, two( { 2, 3 }, { 2, 3 }, 1 ), depth );
        if ( ops.size() > 6 ) apart( c, op, two( { 2, 3 }, { 3 }, 1 ), two( { 1, 3 }, { 2, 3 }, 2 ), depth );
    }
#elif GROUP == 2
    auto both = [&]( auto reg, Ts const& xa, Ts const& xb )
    {
        auto const rb = reg( xb );
        for ( auto const& op : reg( xa ) ) { bool there = false; for ( auto const& o : rb ) there = there || o.name == op.name; if ( there ) apart( c, op, xa, xb, depth ); }
    };
    auto reg1 = []( Ts const& x ){ return structural1<V>( x[0].shape ); };
    both( reg1, one( { 2, 3 }, 1 ), one( { 2, 3 }, 2 ) ); both( reg1, one( { 2, 1, 3 }, 1 ), one( { 2, 1, 3 }, 2 ) ); both( reg1, one( { 2, 2 }, 1 ), one( { 3, 2 }, 2 ) );
    auto reg2 = []( Ts const& x ){ return structural2<V>( x[0].shape, x[1].shape ); };
    both( reg2, two( { 2, 3 }, { 3, 2 }, 1 ), two( { 2, 3 }, { 3, 2 }, 2 ) ); both( reg2, two( { 2, 3 }, { 3, 2 }, 1 ), two( { 1, 4 }, { 4, 2 }, 2 ) ); both( reg2, two( { 2, 2 }, { 2, 2 }, 1 ), two( { 2, 2 }, { 2, 2 }, 2 ) ); both( reg2, two( { 2, 3 }, { 2, 1 }, 1 ), two( { 3, 1 }, { 3, 2 }, 2 ) );
    auto regi = []( Ts const& x ){ return image1<V>( x[0].shape, 1 ); };
    both( regi, one( { 2, 4, 4, 1 }, 1 ), one( { 2, 4, 4, 1 }, 2 ) ); both( regi, one( { 1, 4, 6, 2 }, 1 ), one( { 2, 6, 4, 1 }, 2 ) );
    for ( Shape const& t : { Shape{ 2, 3 }, Shape{ 2, 1, 3 }, Shape{ 2, 2 } } ) nest( c, reg1, one( t, 1 ), depth );
    for ( auto const& t : { two( { 3, 3 }, { 3, 3 }, 1 ), two( { 2, 3 }, { 3, 3 }, 2 ), two( { 2, 3 }, { 2, 3 }, 3 ) } ) nest( c, reg2, t, depth );
    nest( c, regi, one( { 2, 8, 8, 1 }, 1 ), depth ); nest( c, regi, one( { 1, 4, 6, 2 }, 2 ), depth );
#else
    for ( int same = 0; same < 2; ++same ) for ( unsigned long s = 1; s <= 2; ++s )
    {
        if ( s == 1 || !same ) { nest( c, [=]( Ts const& x ){ if ( x[1].shape != Shape{ 2, 3, 3, 2 } ) return std::vector<Op<V>>{}; return std::vector<Op<V>>{ conv_op<V>( true, 0, 0, s, s, 1, 1, same ) }; }, two( { 2, s == 1 ? 5ul : 7ul, s == 1 ? 6ul : 9ul, 2 }, { 2, 3, 3, 2 }, 5 ), depth ); }
        nest( c, [=]( Ts const& x ){ if ( x[1].shape != Shape{ 2, 3, 3, 2 } ) return std::vector<Op<V>>{}; return std::vector<Op<V>>{ tconv_op<V>( 3, 3, s, s, same ) }; }, two( { 2, 3, 3, 2 }, { 2, 3, 3, 2 }, 6 ), depth );
        Shape const k{ 2, 3, 3, 2 }; Ts const a = two( { 2, 3, 3, 2 }, k, 1 ), b = two( { 2, 3, 3, 2 }, k, 2 ), d = two( { 1, 3, 3, 2 }, k, 3 ), w = two( { 1, 4, 5, 1 }, { 3, 2, 3, 1 }, 4 );
        bool const even = !( same && s == 2 ); // with stride 2 the total padding of these is odd, which a same convolution refuses
        std::vector<Op<V>> convs{ tconv_op<V>( 3, 3, s, s, same ) }; if ( even ) { convs.push_back( conv_op<V>( false, 3, 3, s, s, 1, 1, same ) ); convs.push_back( conv_op<V>( true, 0, 0, s, s, 1, 1, same ) ); }
        for ( auto const& op : convs ) { apart( c, op, a, b, depth ); apart( c, op, a, d, depth ); }
        if ( even ) {
        auto const g = conv_op<V>( true, 0, 0, s, s, 1, 1, same ); apart( c, g, a, w, depth );
        one_functor( c, { g }, { g }, g.name, [=]{ return ceras::general_conv2d( s, s, 1, 1, same ? "same" : "valid" ); }, a, b, depth ); one_functor( c, { g }, { g }, g.name, [=]{ return ceras::general_conv2d( s, s, 1, 1, same ? "same" : "valid" ); }, a, w, depth );
        auto const f = conv_op<V>( false, 3, 3, s, s, 1, 1, same ); one_functor( c, { f }, { f }, f.name, [=]{ return ceras::conv2d( 3, 3, s, s, 1, 1, same ? "same" : "valid" ); }, a, b, depth );
        }
        auto const t = tconv_op<V>( 3, 3, s, s, same ); one_functor( c, { t }, { t }, t.name, [=]{ return ceras::conv2d_transpose( 3, 3, s, s, 1, 1, same ? "same" : "valid" ); }, a, d, depth );
        auto const i = img2col_op<V>( 2, 2, same, same, s, s, 1, 1 ); auto const fi = [=]{ return ceras::img2col( 2, 2, same, same, s, s, 1, 1 ); };
        for ( auto const& x : { one( { 2, 3, 3, 1 }, 2 ), one( { 1, 4, 3, 2 }, 3 ) } ) { apart( c, i, one( { 2, 3, 3, 1 }, 1 ), x, depth ); one_functor( c, { i }, { i }, i.name, fi, one( { 2, 3, 3, 1 }, 1 ), x, depth ); }
    }
    // every operator that is given its parameters first and its operand later
    for ( int v = 0; v < 2; ++v )
    {
        Ts const a = one( { 2, 3 }, 1 ), b = one( v ? Shape{ 4, 3 } : Shape{ 2, 3 }, 2 ); auto const ra = structural1<V>( a[0].shape ), rb = structural1<V>( b[0].shape );
        auto f = [&]( std::string const& n, auto mk ){ one_functor( c, ra, rb, n, mk, a, b, depth ); };
        f( "reshape " + str( Shape{ 3 } ), []{ return ceras::reshape( { 3 } ); } ); f( "reshape " + str( Shape{ 1, 3 } ), []{ return ceras::reshape( { 1, 3 } ); } ); if ( !v ) f( "reshape! " + str( Shape{ 3, 2 } ), []{ return ceras::reshape( { 3, 2 }, false ); } );
        f( "expand_dims", []{ return ceras::expand_dims(); } ); f( "squeeze", []{ return ceras::squeeze(); } ); f( "repeat 2", []{ return ceras::repeat( 2 ); } ); f( "reduce_sum -1", []{ return ceras::reduce_sum( -1UL ); } );
        f( "reduce_max", []{ return ceras::reduce_max(); } ); f( "reduce_min", []{ return ceras::reduce_min(); } ); f( "argmax", []{ return ceras::argmax(); } ); f( "argmin", []{ return ceras::argmin(); } );
        for ( unsigned long ax = 0; ax < 2; ++ax )
        {
            std::string const p = " " + std::to_string( ax );
            f( "expand_dims" + p, [=]{ return ceras::expand_dims( ax ); } ); f( "flip" + p, [=]{ return ceras::flip( ax ); } ); f( "repeat 3" + p, [=]{ return ceras::repeat( 3, ax ); } ); f( "reduce_sum" + p, [=]{ return ceras::reduce_sum( ax ); } );
            f( "reduce_max" + p, [=]{ return ceras::reduce_max( ax ); } ); f( "reduce_min" + p, [=]{ return ceras::reduce_min( ax ); } ); f( "argmax" + p, [=]{ return ceras::argmax( ax ); } ); f( "argmin" + p, [=]{ return ceras::argmin( ax ); } );
        }
        if ( !v ) { Shape const t{ 2, 2, 3 }; f( "broadcast " + str( t ), [=]{ return ceras::broadcast( t ); } ); }
        Ts const a3 = one( { 2, 1, 3 }, 1 ), b3 = one( v ? Shape{ 3, 1, 2 } : Shape{ 2, 1, 3 }, 2 ); one_functor( c, structural1<V>( a3[0].shape ), structural1<V>( b3[0].shape ), "squeeze 1", []{ return ceras::squeeze( 1 ); }, a3, b3, depth );
        Ts const aa = two( { 2, 3 }, { 2, 3 }, 1 ), bb = v ? two( { 1, 4 }, { 1, 4 }, 2 ) : two( { 2, 3 }, { 2, 3 }, 2 ); auto const sa = structural2<V>( aa[0].shape, aa[1].shape ), sb = structural2<V>( bb[0].shape, bb[1].shape );
        one_functor( c, sa, sb, "concatenate(axe)(l,r)", []{ return ceras::concatenate(); }, aa, bb, depth ); one_functor( c, sa, sb, "concat(axe)(l,r)", []{ return ceras::concat(); }, aa, bb, depth );
        for ( unsigned long ax = 0; ax < 2; ++ax ) { one_functor( c, sa, sb, "concatenate(axe)(l,r) " + std::to_string( ax ), [=]{ return ceras::concatenate( ax ); }, aa, bb, depth ); one_functor( c, sa, sb, "concat(axe)(l,r) " + std::to_string( ax ), [=]{ return ceras::concat( ax ); }, aa, bb, depth ); }
        auto const el = activations<V>(); std::string const k75 = std::to_string( 0.75 );
        Op<V> any_op; Ts const ea{ fill_in( any_op, v ? Shape{ 5 } : Shape{ 2, 3 }, 1, 0 ) }, eb{ fill_in( any_op, { 2, 3 }, 3, 0 ) };
        auto g = [&]( std::string const& n, auto mk ){ one_functor( c, el, el, n, mk, ea, eb, depth ); };
        for ( auto* t : { &ea, &eb } ) for ( auto& z : const_cast<Ts&>( *t )[0].v ) if ( std::fabs( z ) < 1e-6 ) z = 0.3;
        g( "leaky_relu default", []{ return ceras::leaky_relu<V>(); } ); g( "elu default", []{ return ceras::elu<V>(); } ); g( "leaky_relu " + k75, []{ return ceras::leaky_relu( V(0.75) ); } ); g( "prelu " + k75, []{ return ceras::prelu( V(0.75) ); } );
        g( "elu " + std::to_string( 0.3 ), []{ return ceras::elu( V(0.3) ); } ); g( "heaviside_step " + std::to_string( 2.0 ), []{ return ceras::heaviside_step( V(2) ); } );
        Ts const ia = one( { 2, 4, 4, 1 }, 1 ), ib = one( v ? Shape{ 1, 6, 4, 2 } : Shape{ 2, 4, 4, 1 }, 2 ); auto const ja = image1<V>( ia[0].shape, 1 ), jb = image1<V>( ib[0].shape, 1 );
        auto h = [&]( std::string const& n, auto mk ){ one_functor( c, ja, jb, n, mk, ia, ib, depth ); };
        h( "max_pooling_2d 2", []{ return ceras::max_pooling_2d( 2 ); } ); h( "average_pooling_2d 2", []{ return ceras::average_pooling_2d( 2 ); } ); h( "up_sampling_2d 2", []{ return ceras::up_sampling_2d( 2 ); } ); h( "upsampling_2d 3", []{ return ceras::upsampling_2d( 3 ); } );
        for ( Shape const& p : { Shape{ 1 }, Shape{ 1, 1 }, Shape{ 1, 1, 1, 1 } } ) { h( "zero_padding_2d " + str( p ), [=]{ return ceras::zero_padding_2d( p ); } ); h( "cropping_2d " + str( p ), [=]{ return ceras::cropping_2d( p ); } ); }
    }
    for ( auto const& op : maths<V>() ) if ( op.name.find( "clip" ) != std::string::npos ) apart( c, op, { fill_in( op, { 2, 3 }, 1, 0 ) }, { fill_in( op, { 2, 3 }, 2, 0 ) }, depth );
#endif
}
MC_MAIN( explore )
