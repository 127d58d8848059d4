// Registry of the expression operators: how to build each on type-erased operands, what it computes, its derivative,
// and the declared-shape / forward / backward comparison shared by several checks.
#ifndef VERIF_OPS_HPP
#define VERIF_OPS_HPP
#include "ceras_mc.hpp"
#include <memory>

namespace ceras { struct verif_adl {}; }     // makes argument-dependent lookup find the operators for mc::Any

namespace mc
{
    // ------------------------------------------------------------------ type-erased expression
    template<typename V> struct ExI
    {
        virtual ~ExI() {}
        virtual ceras::tensor<V> forward() = 0;
        virtual void backward( ceras::tensor<V> const& g ) = 0;
        virtual std::vector<unsigned long> shape() const = 0;
        virtual int id() const = 0;
        virtual std::string name() const = 0;
        virtual ExI* clone() const = 0;
    };
    template<typename V, typename E> struct ExM : ExI<V>
    {
        E e;
        ExM( E const& x ) : e( x ) {}
        ceras::tensor<V> forward() override { return e.forward(); }
        void backward( ceras::tensor<V> const& g ) override { e.backward( g ); }
        std::vector<unsigned long> shape() const override { return e.shape(); }
        int id() const override { return e.id(); }
        std::string name() const override { return e.name(); }
        ExI<V>* clone() const override { return new ExM( e ); }
    };
    // behaves like the expression it holds: copying it copies the expression
    template<typename V> struct Any : ceras::verif_adl
    {
        typedef ceras::tensor<V> tensor_type;
        typedef V value_type;
        std::unique_ptr<ExI<V>> p;
        Any() {}
        Any( Any const& o ) : p( o.p ? o.p->clone() : nullptr ) {}
        Any( Any&& ) = default;
        Any& operator=( Any const& o ) { p.reset( o.p ? o.p->clone() : nullptr ); return *this; }
        Any& operator=( Any&& ) = default;
        template<typename E> static Any of( E const& e ) { Any a; a.p.reset( new ExM<V,E>( e ) ); return a; }
        tensor_type forward() { return p->forward(); }
        void backward( tensor_type const& g ) { p->backward( g ); }
        std::vector<unsigned long> shape() const { return p->shape(); }
        int id() const { return p->id(); }
        std::string name() const { return p->name(); }
    };
}
namespace ceras { template<typename V> struct is_unary_operator<mc::Any<V>> : std::true_type {}; }

namespace mc
{
    template<typename V, typename E> Any<V> any( E const& e ) { return Any<V>::of( e ); }

    typedef std::vector<ref::T> Ts;

    template<typename V> struct Op
    {
        std::string name;
        int arity = 1;
        std::function<Any<V>(std::vector<Any<V>> const&)> build;
        std::function<ref::T(Ts const&)> f;
        std::function<Ts(Ts const&, ref::T const&)> vjp;          // empty: numeric differentiation of f
        std::function<bool(double)> domain = []( double ){ return true; };
        std::function<bool(double)> smooth = []( double ){ return true; };
        double tol = 1e-9;
        bool shape_declared = true;
        std::function<Ts(Ts const&, ref::T const&)> deviant; std::string deviant_tag;   // a known defect of the gradient, told apart exactly from any other
    };

    // vector-Jacobian product of f at x, by fourth-order central differences
    inline Ts numeric_vjp( std::function<ref::T(Ts const&)> const& f, Ts x, ref::T const& g )
    {
        Ts out;
        double const h = 1e-4;
        auto dot = [&]( ref::T const& y ){ double s = 0; for ( unsigned long i = 0; i < y.size(); ++i ) s += y[i]*g[i]; return s; };
        for ( unsigned long k = 0; k < x.size(); ++k )
        {
            ref::T d( x[k].shape );
            for ( unsigned long i = 0; i < d.size(); ++i )
            {
                double const x0 = x[k][i]; double v[4]; int const m[4] = { -2, -1, 1, 2 };
                for ( int j = 0; j < 4; ++j ) { x[k][i] = x0 + m[j]*h; v[j] = dot( f( x ) ); }
                x[k][i] = x0;
                d[i] = ( v[0] - 8*v[1] + 8*v[2] - v[3] ) / (12*h);
            }
            out.push_back( d );
        }
        return out;
    }
    template<typename V> Ts true_vjp( Op<V> const& op, Ts const& x, ref::T const& g ) { return op.vjp ? op.vjp( x, g ) : numeric_vjp( op.f, x, g ); }

    // a leaf of each kind
    enum Leaf { variable_leaf, placeholder_leaf, constant_leaf };
    template<typename V> struct Operand
    {
        Leaf kind; std::vector<ceras::variable<ceras::tensor<V>>> var; std::vector<ceras::place_holder<ceras::tensor<V>>> ph; std::vector<ceras::constant<ceras::tensor<V>>> con; Any<V> ex;
        Operand( ref::T const& x, Leaf k ) : kind( k )
        {
            if ( k == variable_leaf ) { var.emplace_back( to_c<V>( x ) ); ex = any<V>( var[0] ); }
            else if ( k == placeholder_leaf ) { ph.emplace_back(); ex = any<V>( ph[0] ); ceras::get_default_session<ceras::tensor<V>>().bind( ph[0], to_c<V>( x ) ); }
            else { con.emplace_back( to_c<V>( x ) ); ex = any<V>( con[0] ); }
        }
        void set( ref::T const& x )
        {
            if ( kind == variable_leaf ) { var[0].data() = to_c<V>( x ); }
            else if ( kind == placeholder_leaf ) ceras::get_default_session<ceras::tensor<V>>().bind( ph[0], to_c<V>( x ) );
            else con[0].data() = to_c<V>( x );
        }
        ref::T value() { return kind == variable_leaf ? to_r( var[0].data() ) : kind == placeholder_leaf ? to_r( ph[0].forward() ) : to_r( con[0].forward() ); }
        ref::T gradient() { return to_r( var[0].gradient() ); }
    };
    template<typename V> ref::T round_to( ref::T t ) { for ( auto& x : t.v ) x = static_cast<double>( static_cast<V>( x ) ); return t; }

    enum { FWD = 1, BWD = 2, SHAPE = 4 };

    inline std::string join( std::vector<ref::Shape> const& s ) { std::string o; for ( auto const& x : s ) o += (o.empty()?"":",") + ref::str( x ); return o; }

    // one evaluation (and differentiation) of `e` over `ops`, compared with the reference of `op`
    template<typename V> void check_once( Ctx& c, Op<V> const& op, Any<V>& e, std::vector<Operand<V>>& in, int what, unsigned long gsalt, double tol_scale = 1, std::string const& where = "", std::string const& pre = "" )
    {
        auto& s = ceras::get_default_session<ceras::tensor<V>>();
        Ts x; for ( auto& i : in ) x.push_back( i.value() );
        auto const want = op.f( x );
        double const tol = op.tol*tol_scale;
        std::string const tag = pre + op.name;
        if ( what & SHAPE ) c.check( e.shape() == want.shape, tag + ":declared-shape", [&]{ return where + " declared " + ref::str( e.shape() ) + " produced/defined " + ref::str( want.shape ); } );
        auto out = s.run( e ); c.trans();
        auto const got = to_r( out );
        if ( what & (FWD|SHAPE) ) c.check( got.shape == want.shape, tag + ":shape", [&]{ return where + " got " + ref::str( got.shape ) + " expected " + ref::str( want.shape ); } );
        if ( what & FWD )
        {
            c.state( ref::hash( got, hash_str( tag ) ) );
            if ( got.shape == want.shape ) same( c, got, want, tag + ":value", tol, where );
            for ( unsigned long i = 0; i < in.size(); ++i ) same( c, in[i].value(), x[i], tag + ":input-modified", 0, where );
        }
        if ( what & SHAPE ) c.check( e.shape() == got.shape, tag + ":declared-shape-after", [&]{ return where + " declared " + ref::str( e.shape() ) + " produced " + ref::str( got.shape ); } );
        if ( ( what & BWD ) && got.shape == want.shape )
        {
            auto const g = round_to<V>( ref::fill( want.shape, gsalt ) );
            auto gc = to_c<V>( g );
            for ( auto& i : in ) if ( i.kind == variable_leaf ) i.var[0].gradient() = ceras::zeros_like( i.var[0].data() );
            e.backward( gc ); c.trans();
            auto const vj = true_vjp( op, x, g );
            for ( unsigned long i = 0; i < in.size(); ++i ) if ( in[i].kind == variable_leaf )
            {
                auto const d = in[i].gradient(); c.state( ref::hash( d, hash_str( tag, i+1 ) ) );
                if ( op.deviant && !ref::close( d, vj[i], tol*10 ) && ref::close( d, op.deviant( x, g )[i], tol*10 ) ) c.note( tag + ":" + op.deviant_tag, where + " got " + ref::str( d ) + " expected " + ref::str( vj[i] ) );
                else same( c, d, vj[i], tag + ":gradient", op.vjp ? tol*10 : std::max( tol*10, 1e-6 ), where + " operand " + std::to_string( i ) );
                same( c, in[i].value(), x[i], tag + ":backward-modified-input", 0, where );
            }
            same( c, to_r( gc ), g, tag + ":upstream-gradient-modified", 0, where );
            same( c, to_r( out ), got, tag + ":backward-modified-output", 0, where );
        }
    }
}
#endif
