// tensor_arithmetic: element-wise arithmetic on ceras::tensor with broadcasting is numerically right and pure.
#include "ceras_mc.hpp"
using namespace ref;
template<typename V> static double tol() { return sizeof(V) == 4 ? 2e-6 : 1e-12; }
template<typename V> static const char* tn() { return std::is_same_v<V,float> ? "float" : std::is_same_v<V,double> ? "double" : "int"; }

typedef std::function<double(double,double)> F2;

// apply op on real tensors; check value, purity of both operands, and independence of the result's storage
template<typename V, typename Op>
static void binary_case( mc::Ctx& c, std::string const& name, Op op, F2 f, ref::T const& a, ref::T const& b, std::string const& extra )
{
    c.test( name + "|" + tn<V>() + "|" + str(a.shape) + "," + str(b.shape) + "|" + extra, [&]
    {
        auto x = mc::to_c<V>( a ); auto y = mc::to_c<V>( b );
        auto ra = mc::to_r( x ), rb = mc::to_r( y );       // after rounding to V
        auto z = op( x, y );
        c.trans();
        auto want = bop( ra, rb, f );
        auto rz = mc::to_r( z );
        c.state( hash( rz, mc::hash_str( name ) ) );
        mc::same( c, rz, want, name + ":value", tol<V>() );
        mc::same( c, mc::to_r( x ), ra, name + ":lhs-modified", 0 );
        mc::same( c, mc::to_r( y ), rb, name + ":rhs-modified", 0 );
        // the result owns its storage
        for ( auto& v : z ) v = V(99);
        mc::same( c, mc::to_r( x ), ra, name + ":result-aliases-lhs", 0 );
        mc::same( c, mc::to_r( y ), rb, name + ":result-aliases-rhs", 0 );
        // both operands one and the same tensor
        if ( a.shape == b.shape )
        {
            auto w = op( x, x );
            c.trans();
            mc::same( c, mc::to_r( w ), bop( ra, ra, f ), name + ":self:value", tol<V>() );
            mc::same( c, mc::to_r( x ), ra, name + ":self:operand-modified", 0 );
        }
        // an operand that shares its storage with another handle: the other handle is not disturbed
        auto x2 = x; auto q = op( x2, y ); auto p = op( y, x2 ); c.trans( 2 );
        mc::same( c, mc::to_r( x ), ra, name + ":alias-modified", 0 );
        mc::same( c, mc::to_r( p ), bop( rb, ra, f ), name + ":swapped:value", tol<V>() );
        mc::same( c, mc::to_r( q ), want, name + ":repeat:value", tol<V>() );
    } );
}

template<typename V> static void typed( mc::Ctx& c )
{
    using namespace ceras;
    auto add = []( auto const& a, auto const& b ){ return a + b; };
    auto sub = []( auto const& a, auto const& b ){ return a - b; };
    auto addf = []( auto const& a, auto const& b ){ return ceras::add( a, b ); };
    auto minf = []( auto const& a, auto const& b ){ return ceras::minus( a, b ); };
    auto elp = []( auto const& a, auto const& b ){ return elementwise_product( a, b ); };
    auto hdp = []( auto const& a, auto const& b ){ return hadamard_product( a, b ); };
    auto eld = []( auto const& a, auto const& b ){ return elementwise_divide( a, b ); };
    F2 fa = []( double x, double y ){ return x+y; }, fs = []( double x, double y ){ return x-y; }, fm = []( double x, double y ){ return x*y; }, fd = []( double x, double y ){ return x/y; };
    double const sc = std::is_integral_v<V> ? 9 : 1;

    auto all = shapes( c.thorough ? 4 : 3, 3 );
    all.push_back( {2,5} ); all.push_back( {1,5} ); all.push_back( {5} ); all.push_back( {17} ); all.push_back( {3,17} ); all.push_back( {2,1,17} ); all.push_back( {33} );
    all.push_back( {2,2,1,3} ); all.push_back( {1,2,3,1} );
    for ( auto const& sa : all )
        for ( auto const& sb : all )
        {
            Shape o; if ( !bshape( sa, sb, o ) || prod( o ) > 300 ) continue;
            auto a = fill( sa, 1, sc ), b = fill( sb, 2, sc );
            binary_case<V>( c, "op+", add, fa, a, b, "generic" );
            binary_case<V>( c, "op-", sub, fs, a, b, "generic" );
            if ( sa.size() + sb.size() < 6 || c.thorough )
            {
                binary_case<V>( c, "add", addf, fa, a, b, "generic" );
                binary_case<V>( c, "minus", minf, fs, a, b, "generic" );
            }
            binary_case<V>( c, "elementwise_product", elp, fm, a, b, "generic" );
            if ( sa.size() + sb.size() < 6 || c.thorough ) binary_case<V>( c, "hadamard_product", hdp, fm, a, b, "generic" );
            if constexpr ( std::is_floating_point_v<V> )
                if ( sa == sb )
                    binary_case<V>( c, "elementwise_divide", eld, fd, a, fill( sb, 5, 1.0, 2.5 ), "generic" );
        }
    // sizes beyond the small ones: anything that works in blocks, in parallel or with a fast path for equal shapes
    std::vector<Shape> large{ {64}, {100}, {257}, {1000}, {4097}, {65,33}, {128,2}, {2,128}, {3,65,5}, {2,3,4,5}, {2,1,2,3,2} };
    std::vector<std::pair<Shape,Shape>> wide; for ( auto const& s : large ) { wide.push_back( {s,s} ); wide.push_back( {s,{1}} ); wide.push_back( {{1},s} ); if ( s.size() > 1 ) { Shape t( s.begin()+1, s.end() ); wide.push_back( {s,t} ); wide.push_back( {t,s} ); Shape u = s; u.back() = 1; wide.push_back( {s,u} ); wide.push_back( {u,s} ); u = s; u[0] = 1; wide.push_back( {s,u} ); wide.push_back( {u,s} ); } }
    for ( auto const& [sa,sb] : wide )
    {
        auto a = fill( sa, 1, sc ), b = fill( sb, 2, sc );
        binary_case<V>( c, "op+", add, fa, a, b, "large" ); binary_case<V>( c, "op-", sub, fs, a, b, "large" );
        binary_case<V>( c, "elementwise_product", elp, fm, a, b, "large" ); binary_case<V>( c, "hadamard_product", hdp, fm, a, b, "large" );
        if constexpr ( std::is_floating_point_v<V> ) if ( sa == sb ) binary_case<V>( c, "elementwise_divide", eld, fd, a, fill( sb, 5, 1.0, 2.5 ), "large" );
    }
    // every value combination over a small alphabet on tiny shapes
    std::vector<double> al = std::is_integral_v<V> ? std::vector<double>{-2,0,1,3} : std::vector<double>{-2,-0.5,0,1,3};
    std::vector<std::pair<Shape,Shape>> tiny{ {{1},{1}}, {{2},{1}}, {{1},{2}}, {{2},{2}}, {{2,1},{2}}, {{1,2},{2,1}} };
    for ( auto const& [sa,sb] : tiny )
    {
        unsigned long n = prod(sa)+prod(sb), tot = 1; for ( unsigned long i = 0; i < n; ++i ) tot *= al.size();
        for ( unsigned long k = 0; k < tot; ++k )
        {
            ref::T a( sa ), b( sb ); unsigned long q = k;
            for ( auto& v : a.v ) { v = al[q%al.size()]; q /= al.size(); }
            for ( auto& v : b.v ) { v = al[q%al.size()]; q /= al.size(); }
            std::string e = "vals" + std::to_string( k );
            binary_case<V>( c, "op+", add, fa, a, b, e );
            binary_case<V>( c, "op-", sub, fs, a, b, e );
            binary_case<V>( c, "elementwise_product", elp, fm, a, b, e );
        }
    }
    // tensor (op) scalar, scalar (op) tensor, unary, compound assignment, map
    for ( auto const& s : large ) all.push_back( s );
    for ( auto const& s : all )
    {
        for ( double kk : { -3.0, -1.0, 0.0, 0.5, 1.0, 2.0 } )
        {
            if ( std::is_integral_v<V> && kk == 0.5 ) continue;
            c.test( std::string("scalar|") + tn<V>() + "|" + str(s) + "|k=" + std::to_string(kk), [&]
            {
                V const k = V( kk );
                auto x = mc::to_c<V>( fill( s, 3, sc ) ); auto const r = mc::to_r( x );
                auto chk = [&]( char const* nm, tensor<V> z, std::function<double(double)> f )
                {
                    c.trans(); c.state( hash( mc::to_r(z), mc::hash_str(nm) ) );
                    mc::same( c, mc::to_r( z ), r.map( f ), std::string("scalar:") + nm, tol<V>() );
                    mc::same( c, mc::to_r( x ), r, std::string("scalar:operand-modified:") + nm, 0 );
                    for ( auto& v : z ) v = V(77);
                    mc::same( c, mc::to_r( x ), r, std::string("scalar:result-aliases:") + nm, 0 );
                };
                chk( "x+k", x + k, [&]( double v ){ return v+kk; } );
                chk( "k+x", k + x, [&]( double v ){ return v+kk; } );
                chk( "x-k", x - k, [&]( double v ){ return v-kk; } );
                chk( "k-x", k - x, [&]( double v ){ return kk-v; } );
                chk( "x*k", x * k, [&]( double v ){ return v*kk; } );
                chk( "k*x", k * x, [&]( double v ){ return v*kk; } );
                if ( kk != 0 && !std::is_integral_v<V> ) chk( "x/k", x / k, [&]( double v ){ return v/kk; } );
                chk( "-x", -x, [&]( double v ){ return -v; } );
                chk( "abs", ceras::abs( x ), [&]( double v ){ return std::fabs(v); } );
                auto cmp = [&]( char const* nm, auto f, std::function<double(double)> g )
                {
                    auto y = x.deep_copy(); auto& rf = f( y ); c.trans();
                    mc::same( c, mc::to_r( y ), r.map( g ), std::string("compound:") + nm, tol<V>() );
                    mc::same( c, mc::to_r( x ), r, std::string("compound:deep-copy-source-modified:") + nm, 0 );
                    c.check( &rf == &y, std::string("compound:returns-self:") + nm );
                };
                cmp( "+=k", [&]( auto& y ) -> auto& { return y += k; }, [&]( double v ){ return v+kk; } );
                cmp( "-=k", [&]( auto& y ) -> auto& { return y -= k; }, [&]( double v ){ return v-kk; } );
                cmp( "*=k", [&]( auto& y ) -> auto& { return y *= k; }, [&]( double v ){ return v*kk; } );
                if ( kk != 0 && !std::is_integral_v<V> ) cmp( "/=k", [&]( auto& y ) -> auto& { return y /= k; }, [&]( double v ){ return v/kk; } );
                cmp( "map", [&]( auto& y ) -> auto& { return y.map( [&]( auto& v ){ v = v*V(2)+k; } ); }, [&]( double v ){ return v*2+kk; } );
                cmp( "reset", [&]( auto& y ) -> auto& { return y.reset( k ); }, [&]( double v ){ return kk; } );
            } );
        }
        // the scalar operand is an element of the tensor itself
        c.test( std::string("scalar-alias|") + tn<V>() + "|" + str(s), [&]
        {
            auto const x = mc::to_c<V>( fill( s, 3, sc, 2.5 ) ); auto const r = mc::to_r( x ); unsigned long const n = x.size();
            std::vector<unsigned long> at{ 0, 1, n/2, n-1 };
            for ( unsigned long k : at ) if ( k < n )
            {
                double const kk = r[k];
                auto go = [&]( char const* nm, auto f, std::function<double(double)> g )
                {
                    auto w = x.deep_copy(); auto const z = f( w, w[k] ); c.trans(); c.state( hash( mc::to_r(z), mc::hash_str(nm) ) );
                    mc::same( c, mc::to_r( z ), r.map( g ), std::string("scalar-alias:") + nm, tol<V>() ); mc::same( c, mc::to_r( x ), r, std::string("scalar-alias:source-modified:") + nm, 0 );
                };
                go( "+=", []( auto& y, auto& e ){ y += e; return y; }, [&]( double v ){ return v+kk; } );
                go( "-=", []( auto& y, auto& e ){ y -= e; return y; }, [&]( double v ){ return v-kk; } );
                go( "*=", []( auto& y, auto& e ){ y *= e; return y; }, [&]( double v ){ return v*kk; } );
                if constexpr ( !std::is_integral_v<V> ) go( "/=", []( auto& y, auto& e ){ y /= e; return y; }, [&]( double v ){ return v/kk; } );
                go( "reset", []( auto& y, auto& e ){ y.reset( e ); return y; }, [&]( double v ){ return kk; } );
                go( "x+k", []( auto& y, auto& e ){ return y + e; }, [&]( double v ){ return v+kk; } );
                go( "k+x", []( auto& y, auto& e ){ return e + y; }, [&]( double v ){ return v+kk; } );
                go( "x-k", []( auto& y, auto& e ){ return y - e; }, [&]( double v ){ return v-kk; } );
                go( "k-x", []( auto& y, auto& e ){ return e - y; }, [&]( double v ){ return kk-v; } );
                go( "x*k", []( auto& y, auto& e ){ return y * e; }, [&]( double v ){ return v*kk; } );
                go( "k*x", []( auto& y, auto& e ){ return e * y; }, [&]( double v ){ return v*kk; } );
                if constexpr ( !std::is_integral_v<V> ) go( "x/k", []( auto& y, auto& e ){ return y / e; }, [&]( double v ){ return v/kk; } );
            }
        } );
        c.test( std::string("compound-tensor|") + tn<V>() + "|" + str(s), [&]
        {
            auto x = mc::to_c<V>( fill( s, 3, sc ) ); auto y = mc::to_c<V>( fill( s, 4, sc, 2.5 ) ); auto const rx = mc::to_r( x ), ry = mc::to_r( y );
            auto go = [&]( char const* nm, auto f, F2 g )
            {
                auto w = x.deep_copy(); f( w, y ); c.trans(); c.state( hash( mc::to_r(w), mc::hash_str(nm) ) );
                mc::same( c, mc::to_r( w ), bop( rx, ry, g ), std::string("compound-tensor:") + nm, tol<V>() );
                mc::same( c, mc::to_r( y ), ry, std::string("compound-tensor:rhs-modified:") + nm, 0 );
                mc::same( c, mc::to_r( x ), rx, std::string("compound-tensor:source-modified:") + nm, 0 );
                auto u = x.deep_copy(); f( u, u ); c.trans();
                if ( std::string(nm) != "/=" || rx.v.size() ) mc::same( c, mc::to_r( u ), bop( rx, rx, g ), std::string("compound-tensor:self:") + nm, tol<V>() );
            };
            go( "+=", []( auto& a, auto const& b ){ a += b; }, fa );
            go( "-=", []( auto& a, auto const& b ){ a -= b; }, fs );
            go( "*=", []( auto& a, auto const& b ){ a *= b; }, fm );
            if ( !std::is_integral_v<V> ) go( "/=", []( auto& a, auto const& b ){ a /= b; }, fd );
        } );
    }
}

static void explore( mc::Ctx& c )
{
    typed<double>( c ); typed<float>( c ); typed<int>( c );
}
MC_MAIN( explore )
