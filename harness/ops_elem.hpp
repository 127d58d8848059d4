// element-wise operators and activations
#ifndef VERIF_OPS_ELEM_HPP
#define VERIF_OPS_ELEM_HPP
#include "ops.hpp"
namespace mc
{
    typedef std::function<double(double)> F1; typedef std::function<double(double,double)> F2; typedef std::function<bool(double)> P1;
    template<typename V> Op<V> unary_op( std::string const& name, std::function<Any<V>(Any<V> const&)> b, F1 f, F1 df, P1 domain = []( double ){ return true; }, P1 smooth = []( double ){ return true; }, double tol = 1e-9 )
    {
        Op<V> o; o.name = name; o.build = [b]( auto const& v ){ return b( v[0] ); };
        o.f = [f]( Ts const& x ){ return x[0].map( f ); };
        o.vjp = [df]( Ts const& x, ref::T const& g ){ ref::T d = x[0]; for ( unsigned long i = 0; i < d.size(); ++i ) d[i] = g[i]*df( x[0][i] ); return Ts{ d }; };
        o.domain = domain; o.smooth = smooth; o.tol = tol;
        return o;
    }
    template<typename V> Op<V> binary_op( std::string const& name, std::function<Any<V>(Any<V> const&, Any<V> const&)> b, F2 f, F2 dl, F2 dr, double tol = 1e-9 )
    {
        Op<V> o; o.name = name; o.arity = 2; o.build = [b]( auto const& v ){ return b( v[0], v[1] ); };
        o.f = [f]( Ts const& x ){ return ref::bop( x[0], x[1], f ); };
        o.vjp = [dl,dr]( Ts const& x, ref::T const& g )
        {
            ref::T one( g.shape ), a = ref::bop( ref::bop( x[0], x[1], dl ), g, []( double p, double q ){ return p*q; } ), b2 = ref::bop( ref::bop( x[0], x[1], dr ), g, []( double p, double q ){ return p*q; } );
            return Ts{ ref::unbroadcast( a, x[0].shape ), ref::unbroadcast( b2, x[1].shape ) };
        };
        o.tol = tol;
        return o;
    }
#define U1( nm, ... ) v.push_back( unary_op<V>( #nm, []( auto const& e ){ return any<V>( ceras::nm( e ) ); }, __VA_ARGS__ ) )
#define UX( name, expr, ... ) v.push_back( unary_op<V>( name, []( auto const& e ){ return any<V>( expr ); }, __VA_ARGS__ ) )

    inline bool non_integer( double x ) { return std::fabs( x - std::round( x ) ) > 1e-6 && std::fabs( x*2 - std::round( x*2 ) ) > 1e-6; }
    // element-wise maths
    template<typename V> std::vector<Op<V>> maths()
    {
        std::vector<Op<V>> v; double const sp = 2/std::sqrt( std::acos(-1.0) ), l2 = std::log(2.0), l10 = std::log(10.0);
        P1 all = []( double ){ return true; }, pos = []( double x ){ return x > 1e-3; }, in1 = []( double x ){ return std::fabs(x) < 0.999; }, nz = []( double x ){ return x != 0; }, mid = []( double x ){ return std::fabs(x) <= 10; };
        F1 one = []( double ){ return 1.0; }, zero = []( double ){ return 0.0; };
        U1( abs, []( double x ){ return std::fabs(x); }, []( double x ){ return x > 0 ? 1.0 : -1.0; }, all, nz );
        U1( fabs, []( double x ){ return std::fabs(x); }, []( double x ){ return x > 0 ? 1.0 : -1.0; }, all, nz );
        U1( acos, []( double x ){ return std::acos(x); }, []( double x ){ return -1/std::sqrt(1-x*x); }, in1 );
        U1( acosh, []( double x ){ return std::acosh(x); }, []( double x ){ return 1/std::sqrt(x*x-1); }, []( double x ){ return x > 1.05; } );
        U1( asin, []( double x ){ return std::asin(x); }, []( double x ){ return 1/std::sqrt(1-x*x); }, in1 );
        U1( asinh, []( double x ){ return std::asinh(x); }, []( double x ){ return 1/std::sqrt(x*x+1); } );
        U1( atan, []( double x ){ return std::atan(x); }, []( double x ){ return 1/(x*x+1); } );
        U1( atanh, []( double x ){ return std::atanh(x); }, []( double x ){ return 1/(1-x*x); }, in1 );
        U1( cbrt, []( double x ){ return std::cbrt(x); }, []( double x ){ return 1/(3*std::pow( std::cbrt(x), 2 )); }, all, []( double x ){ return std::fabs(x) > 1e-4; } );
        // piecewise constant; the library passes the gradient straight through
        U1( ceil, []( double x ){ return std::ceil(x); }, one ); U1( floor, []( double x ){ return std::floor(x); }, one );
        U1( llrint, []( double x ){ return (double)std::llrint(x); }, one ); U1( llround, []( double x ){ return (double)std::llround(x); }, one );
        U1( lrint, []( double x ){ return (double)std::lrint(x); }, one ); U1( lround, []( double x ){ return (double)std::lround(x); }, one );
        U1( nearbyint, []( double x ){ return std::nearbyint(x); }, one ); U1( rint, []( double x ){ return std::rint(x); }, one ); U1( round, []( double x ){ return std::round(x); }, one ); U1( trunc, []( double x ){ return std::trunc(x); }, one );
        U1( cos, []( double x ){ return std::cos(x); }, []( double x ){ return -std::sin(x); } ); U1( cosh, []( double x ){ return std::cosh(x); }, []( double x ){ return std::sinh(x); }, mid );
        U1( erf, []( double x ){ return std::erf(x); }, [sp]( double x ){ return sp*std::exp(-x*x); } ); U1( erfc, []( double x ){ return std::erfc(x); }, [sp]( double x ){ return -sp*std::exp(-x*x); } );
        U1( exp, []( double x ){ return std::exp(x); }, []( double x ){ return std::exp(x); }, mid ); U1( exp2, []( double x ){ return std::exp2(x); }, [l2]( double x ){ return l2*std::exp2(x); }, mid ); U1( expm1, []( double x ){ return std::expm1(x); }, []( double x ){ return std::exp(x); }, mid );
        U1( log, []( double x ){ return std::log(x); }, []( double x ){ return 1/x; }, pos ); U1( log10, []( double x ){ return std::log10(x); }, [l10]( double x ){ return 1/(x*l10); }, pos );
        U1( log1p, []( double x ){ return std::log1p(x); }, []( double x ){ return 1/(1+x); }, []( double x ){ return x > -0.999; } ); U1( log2, []( double x ){ return std::log2(x); }, [l2]( double x ){ return 1/(x*l2); }, pos );
        U1( sin, []( double x ){ return std::sin(x); }, []( double x ){ return std::cos(x); } ); U1( sinh, []( double x ){ return std::sinh(x); }, []( double x ){ return std::cosh(x); }, mid );
        U1( sqrt, []( double x ){ return std::sqrt(x); }, []( double x ){ return 0.5/std::sqrt(x); }, []( double x ){ return x >= 0; }, pos );
        U1( tan, []( double x ){ return std::tan(x); }, []( double x ){ return 1+std::pow( std::tan(x), 2 ); }, []( double x ){ return std::fabs( std::cos(x) ) > 0.05; } ); U1( tanh, []( double x ){ return std::tanh(x); }, []( double x ){ return 1-std::pow( std::tanh(x), 2 ); } );
        U1( negative, []( double x ){ return -x; }, []( double ){ return -1.0; } ); UX( "unary minus", -e, []( double x ){ return -x; }, []( double ){ return -1.0; } ); UX( "unary plus", +e, []( double x ){ return x; }, one );
        U1( identity, []( double x ){ return x; }, one );
        U1( inverse, []( double x ){ return 1/x; }, []( double x ){ return -1/(x*x); }, []( double x ){ return std::fabs(x) > 1e-4; } );
        U1( square, []( double x ){ return x*x; }, []( double x ){ return 2*x; } );
        U1( sign, []( double x ){ return double( (x > 0) - (x < 0) ); }, zero, all, nz );
        U1( ones_like, one, zero ); U1( zeros_like, zero, zero );
        UX( "pow 2", ceras::pow( e, 2 ), []( double x ){ return x*x; }, []( double x ){ return 2*x; } ); UX( "pow 3", ceras::pow( e, 3.0 ), []( double x ){ return x*x*x; }, []( double x ){ return 3*x*x; } );
        UX( "pow 0.5", ceras::pow( e, 0.5 ), []( double x ){ return std::sqrt(x); }, []( double x ){ return 0.5/std::sqrt(x); }, pos ); UX( "pow -1", ceras::pow( e, -1.0f ), []( double x ){ return 1/x; }, []( double x ){ return -1/(x*x); }, []( double x ){ return std::fabs(x) > 1e-4; } );
        UX( "pow 1", ceras::pow( e, 1 ), []( double x ){ return x; }, one );
        // arithmetic and value operands
        UX( "e+2", e + 2, []( double x ){ return x+2; }, one ); UX( "e+0.25", e + 0.25, []( double x ){ return x+0.25; }, one ); UX( "1.5f+e", 1.5f + e, []( double x ){ return x+1.5; }, one );
        UX( "e-3", e - 3, []( double x ){ return x-3; }, one ); UX( "3-e", 3 - e, []( double x ){ return 3-x; }, []( double ){ return -1.0; } ); UX( "0.75-e", 0.75 - e, []( double x ){ return 0.75-x; }, []( double ){ return -1.0; } );
        UX( "e*-2", e * -2, []( double x ){ return -2*x; }, []( double ){ return -2.0; } ); UX( "0.5*e", 0.5 * e, []( double x ){ return 0.5*x; }, []( double ){ return 0.5; } );
        UX( "e/4", e / 4, []( double x ){ return x/4; }, []( double ){ return 0.25; } ); UX( "e/-0.4", e / -0.4, []( double x ){ return x/-0.4; }, []( double ){ return -2.5; } );
        UX( "2.5/e", 2.5 / e, []( double x ){ return 2.5/x; }, []( double x ){ return -2.5/(x*x); }, []( double x ){ return std::fabs(x) > 1e-4; } );
        UX( "e-3u", e - 3u, []( double x ){ return x-3; }, one ); UX( "e-2ul", e - 2ul, []( double x ){ return x-2; }, one ); UX( "e-(unsigned char)5", e - static_cast<unsigned char>( 5 ), []( double x ){ return x-5; }, one );
        UX( "7u-e", 7u - e, []( double x ){ return 7-x; }, []( double ){ return -1.0; } ); UX( "e+3u", e + 3u, []( double x ){ return x+3; }, one ); UX( "e*3u", e * 3u, []( double x ){ return 3*x; }, []( double ){ return 3.0; } );
        UX( "e/5ul", e / 5ul, []( double x ){ return x/5; }, []( double ){ return 0.2; } ); UX( "e-true", e - true, []( double x ){ return x-1; }, one ); UX( "e-5ll", e - 5ll, []( double x ){ return x-5; }, one );
        UX( "value+e", ceras::value<V>( 1.25 ) + e, []( double x ){ return x+1.25; }, one ); UX( "e+value", e + ceras::value<V>( -1.25 ), []( double x ){ return x-1.25; }, one );
        UX( "value-e", ceras::value<V>( 1.25 ) - e, []( double x ){ return 1.25-x; }, []( double ){ return -1.0; } ); UX( "e-value", e - ceras::value<V>( 0.75 ), []( double x ){ return x-0.75; }, one );
        UX( "value*e", ceras::value<V>( -1.5 ) * e, []( double x ){ return -1.5*x; }, []( double ){ return -1.5; } ); UX( "e*value", e * ceras::value<V>( 2.5 ), []( double x ){ return 2.5*x; }, []( double ){ return 2.5; } );
        UX( "value/e", ceras::value<V>( 1.5 ) / e, []( double x ){ return 1.5/x; }, []( double x ){ return -1.5/(x*x); }, []( double x ){ return std::fabs(x) > 1e-4; } );
        UX( "hadamard(e,value)", ceras::hadamard_product( e, ceras::value<V>( 0.5 ) ), []( double x ){ return 0.5*x; }, []( double ){ return 0.5; } );
        UX( "maximum(e,value)", ceras::maximum( e, ceras::value<V>( 0.45 ) ), []( double x ){ return std::max( x, 0.45 ); }, []( double x ){ return x > 0.45 ? 1.0 : 0.0; } );
        UX( "minimum(value,e)", ceras::minimum( ceras::value<V>( 0.45 ), e ), []( double x ){ return std::min( x, 0.45 ); }, []( double x ){ return x < 0.45 ? 1.0 : 0.0; } );
        for ( auto [lo,hi] : std::vector<std::pair<double,double>>{ {-1,1}, {0,6}, {-0.25,0.35}, {-20,-2.2} } )
            v.push_back( unary_op<V>( "clip " + std::to_string(lo) + " " + std::to_string(hi), [lo=lo,hi=hi]( auto const& e ){ return any<V>( ceras::clip( V(lo), V(hi) )( e ) ); }, [lo=lo,hi=hi]( double x ){ return std::max( lo, std::min( hi, x ) ); }, [lo=lo,hi=hi]( double x ){ return x > lo && x < hi ? 1.0 : 0.0; }, all, [lo=lo,hi=hi]( double x ){ return std::fabs(x-lo) > 1e-6 && std::fabs(x-hi) > 1e-6; } ) );
        v.push_back( unary_op<V>( "clip from", []( auto const& e ){ return any<V>( ceras::clip( V(0.05) )( e ) ); }, []( double x ){ return std::max( 0.05, x ); }, []( double x ){ return x > 0.05 ? 1.0 : 0.0; } ) );
        return v;
    }
    template<typename V> std::vector<Op<V>> activations()
    {
        std::vector<Op<V>> v;
        P1 all = []( double ){ return true; }, nz = []( double x ){ return std::fabs(x) > 1e-6; }, mid = []( double x ){ return std::fabs(x) <= 10; };
        auto sg = []( double x ){ return 1/(1+std::exp(-x)); };
        auto splus = []( double x ){ return std::max( x, 0.0 ) + std::log1p( std::exp( -std::fabs(x) ) ); };
        for ( double k : { 0.5, 2.0 } ) v.push_back( unary_op<V>( "heaviside_step " + std::to_string(k), [k]( auto const& e ){ return any<V>( ceras::heaviside_step( V(k) )( e ) ); }, [k,sg]( double x ){ return sg( 2*k*x ); }, [k,sg]( double x ){ double s = sg( 2*k*x ); return 2*k*s*(1-s); } ) );
        if constexpr ( std::is_same_v<V,double> )
        {
            U1( soft_sign, [sg]( double x ){ return sg( 40*x ); }, [sg]( double x ){ double s = sg( 40*x ); return 40*s*(1-s); } ); U1( unit_step, [sg]( double x ){ return sg( 40*x ); }, [sg]( double x ){ double s = sg( 40*x ); return 40*s*(1-s); } ); U1( binary_step, [sg]( double x ){ return sg( 40*x ); }, [sg]( double x ){ double s = sg( 40*x ); return 40*s*(1-s); } );
        }
        U1( gaussian, []( double x ){ return std::exp(-x*x); }, []( double x ){ return -2*x*std::exp(-x*x); }, mid );
        double const la = 1.0507, al = 1.67326;
        U1( selu, [la,al]( double x ){ return x >= 0 ? la*x : la*al*(std::exp(x)-1); }, [la,al]( double x ){ return x > 0 ? la : la*al*std::exp(x); }, all, nz );
        U1( softplus, splus, sg ); U1( softsign, []( double x ){ return x/(1+std::fabs(x)); }, []( double x ){ return 1/std::pow( 1+std::fabs(x), 2 ); } );
        U1( sigmoid, sg, [sg]( double x ){ return sg(x)*(1-sg(x)); } );
        U1( relu, []( double x ){ return std::max( x, 0.0 ); }, []( double x ){ return x > 0 ? 1.0 : 0.0; }, all, nz ); U1( negative_relu, []( double x ){ return -std::max( x, 0.0 ); }, []( double x ){ return x > 0 ? -1.0 : 0.0; }, all, nz );
        U1( relu6, []( double x ){ return std::min( 6.0, std::max( x, 0.0 ) ); }, []( double x ){ return x > 0 && x < 6 ? 1.0 : 0.0; }, all, []( double x ){ return std::fabs(x) > 1e-6 && std::fabs(x-6) > 1e-6; } );
        v.push_back( unary_op<V>( "leaky_relu default", []( auto const& e ){ return any<V>( ceras::leaky_relu<V>()( e ) ); }, []( double x ){ return x > 0 ? x : 0.2*x; }, []( double x ){ return x > 0 ? 1 : 0.2; }, all, nz ) );
        v.push_back( unary_op<V>( "elu default", []( auto const& e ){ return any<V>( ceras::elu<V>()( e ) ); }, []( double x ){ return x > 0 ? x : std::exp(x)-1; }, []( double x ){ return x > 0 ? 1 : std::exp(x); }, all, nz ) );
        for ( double k : { 0.2, 0.75 } )
        {
            v.push_back( unary_op<V>( "leaky_relu " + std::to_string(k), [k]( auto const& e ){ return any<V>( ceras::leaky_relu( V(k) )( e ) ); }, [k]( double x ){ return x > 0 ? x : k*x; }, [k]( double x ){ return x > 0 ? 1 : k; }, all, nz ) );
            v.push_back( unary_op<V>( "prelu " + std::to_string(k), [k]( auto const& e ){ return any<V>( ceras::prelu( V(k) )( e ) ); }, [k]( double x ){ return x > 0 ? x : k*x; }, [k]( double x ){ return x > 0 ? 1 : k; }, all, nz ) );
        }
        for ( double k : { 1.0, 0.3 } ) v.push_back( unary_op<V>( "elu " + std::to_string(k), [k]( auto const& e ){ return any<V>( ceras::elu( V(k) )( e ) ); }, [k]( double x ){ return x > 0 ? x : k*(std::exp(x)-1); }, [k]( double x ){ return x > 0 ? 1 : k*std::exp(x); }, all, nz ) );
        U1( exponential, []( double x ){ return std::exp(x); }, []( double x ){ return std::exp(x); }, mid );
        U1( hard_sigmoid, []( double x ){ return std::max( 0.0, std::min( 1.0, (x+1)/2 ) ); }, []( double x ){ return std::fabs(x) < 1 ? 0.5 : 0.0; }, all, []( double x ){ return std::fabs( std::fabs(x)-1 ) > 1e-6; } );
        double const k1 = 0.79788456080286535588, k2 = 0.044715;
        U1( gelu, [=]( double x ){ return 0.5*x*(1+std::tanh( k1*(x+k2*x*x*x) )); }, [=]( double x ){ double t = std::tanh( k1*(x+k2*x*x*x) ); return 0.5*(1+t) + 0.5*x*(1-t*t)*k1*(1+3*k2*x*x); } );
        U1( swish, [sg]( double x ){ return x*sg(x); }, [sg]( double x ){ return sg(x)+x*sg(x)*(1-sg(x)); } ); U1( silu, [sg]( double x ){ return x*sg(x); }, [sg]( double x ){ return sg(x)+x*sg(x)*(1-sg(x)); } );
        U1( tank_shrink, []( double x ){ return x-std::tanh(x); }, []( double x ){ return std::pow( std::tanh(x), 2 ); } );
        U1( mish, [splus]( double x ){ return x*std::tanh( splus(x) ); }, [sg,splus]( double x ){ double t = std::tanh( splus(x) ); return t + x*(1-t*t)*sg(x); } );
        U1( lisht, []( double x ){ return x*std::tanh(x); }, []( double x ){ double t = std::tanh(x); return t+x*(1-t*t); } );
        return v;
    }
    template<typename V> std::vector<Op<V>> binary_broadcast()
    {
        std::vector<Op<V>> v;
#define B2( name, expr, ... ) v.push_back( binary_op<V>( name, []( auto const& a, auto const& b ){ return any<V>( expr ); }, __VA_ARGS__ ) )
        F2 one = []( double, double ){ return 1.0; }, mone = []( double, double ){ return -1.0; }, l = []( double x, double ){ return x; }, r = []( double, double y ){ return y; };
        B2( "a+b", a+b, []( double x, double y ){ return x+y; }, one, one ); B2( "plus", ceras::plus( a, b ), []( double x, double y ){ return x+y; }, one, one );
        B2( "a-b", a-b, []( double x, double y ){ return x-y; }, one, mone ); B2( "minus", ceras::minus( a, b ), []( double x, double y ){ return x-y; }, one, mone );
        B2( "elementwise_product", ceras::elementwise_product( a, b ), []( double x, double y ){ return x*y; }, r, l ); B2( "elementwise_multiply", ceras::elementwise_multiply( a, b ), []( double x, double y ){ return x*y; }, r, l ); B2( "hadamard_product", ceras::hadamard_product( a, b ), []( double x, double y ){ return x*y; }, r, l );
        B2( "a/b", a/b, []( double x, double y ){ return x/y; }, []( double, double y ){ return 1/y; }, []( double x, double y ){ return -x/(y*y); } ); B2( "divide", ceras::divide( a, b ), []( double x, double y ){ return x/y; }, []( double, double y ){ return 1/y; }, []( double x, double y ){ return -x/(y*y); } );
        B2( "hypot", ceras::hypot( a, b ), []( double x, double y ){ return std::hypot( x, y ); }, []( double x, double y ){ return x/std::hypot( x, y ); }, []( double x, double y ){ return y/std::hypot( x, y ); } );
        return v;
    }
    template<typename V> std::vector<Op<V>> binary_same()
    {
        std::vector<Op<V>> v;
        B2( "maximum", ceras::maximum( a, b ), []( double x, double y ){ return std::max( x, y ); }, []( double x, double y ){ return x > y ? 1.0 : 0.0; }, []( double x, double y ){ return x > y ? 0.0 : 1.0; } );
        B2( "minimum", ceras::minimum( a, b ), []( double x, double y ){ return std::min( x, y ); }, []( double x, double y ){ return x < y ? 1.0 : 0.0; }, []( double x, double y ){ return x < y ? 0.0 : 1.0; } );
        B2( "atan2", ceras::atan2( a, b ), []( double x, double y ){ return std::atan2( x, y ); }, []( double x, double y ){ return y/(x*x+y*y); }, []( double x, double y ){ return -x/(x*x+y*y); } );
        B2( "equal default", ceras::equal( a, b ), []( double x, double y ){ return std::fabs(x-y) > 0.5 ? 0.0 : 1.0; }, []( double, double ){ return 0.0; }, []( double, double ){ return 0.0; } );
        B2( "equal 0.5", ceras::equal( a, b, 0.5 ), []( double x, double y ){ return std::fabs(x-y) > 0.5 ? 0.0 : 1.0; }, []( double, double ){ return 0.0; }, []( double, double ){ return 0.0; } );
        B2( "equal 0.1", ceras::equal( a, b, 0.1f ), []( double x, double y ){ return std::fabs(x-y) > 0.1f ? 0.0 : 1.0; }, []( double, double ){ return 0.0; }, []( double, double ){ return 0.0; } );
        return v;
    }
#undef U1
#undef UX
    inline std::vector<double> value_grid( bool thorough )
    {
        std::vector<double> g{ 0 };
        for ( double x : { 1e-3, 0.01, 0.06, 0.1, 0.21, 0.3, 0.43, 0.5, 0.62, 0.75, 0.9, 0.99, 1.0, 1.1, 1.2, 1.49, 1.5, 1.75, 2.0, 2.3, 2.5, 3.0, 3.7, 4.2, 5.99, 6.0, 6.5, 8.3, 10.0, 50.0, 720.0, 1e4 } ) { g.push_back( x ); g.push_back( -x ); }
        if ( thorough ) for ( int i = 1; i <= 400; ++i ) { double x = 0.0237*i; g.push_back( x ); g.push_back( -x ); }
        return g;
    }
}
#endif
