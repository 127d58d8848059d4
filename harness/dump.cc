// C24, second half: the graph dumped and the code generated for every expression graph up to a node bound (all programs over a few
// operators and every kind of leaf, all sharing patterns) are parsed and interpreted: nodes, edges, definitions and values.
#include "ops.hpp"
#include <map>
#include <set>
#include <fstream>
using namespace mc; using namespace ceras;
typedef float V; typedef ceras::tensor<V> TT; typedef std::vector<double> D;

#ifndef EVALUATE
#define EVALUATE ( GROUP <= 1 )
#endif
struct Node { std::string name; int id; std::vector<unsigned> operands; D value; std::string kind; bool trainable; };
struct World { std::vector<Node> nodes; std::string text; };
static unsigned long const len = 4;
static TT leaf_data( int k ) { TT t( { 2, 2 } ); for ( unsigned long i = 0; i < len; ++i ) t[i] = (V)( 0.25*( (int)( ( i*5+k*3+1 )%9 )-4 ) ); return t; }
static D to_d( TT const& t ) { return D( t.begin(), t.end() ); }

// ---- interpretation of the generated code
struct Code
{
    std::map<std::string, D> env; std::map<std::string, std::string> kind; std::string bad; unsigned long statements = 0;
    std::map<std::string, D> const& bound;
    explicit Code( std::map<std::string, D> const& b ) : bound( b ) {}
    static std::vector<std::string> tokens( std::string const& s )
    {
        std::vector<std::string> v; unsigned long i = 0;
        while ( i < s.size() )
        {
            if ( isspace( (unsigned char)s[i] ) ) { ++i; continue; }
            if ( s[i] == '"' ) { auto e = s.find( '"', i+1 ); v.push_back( s.substr( i, e-i+1 ) ); i = e+1; continue; }
            if ( isalnum( (unsigned char)s[i] ) || s[i] == '_' || ( ( s[i] == '-' || s[i] == '.' ) && i+1 < s.size() && isdigit( (unsigned char)s[i+1] ) ) )
            {
                unsigned long e = i+1; while ( e < s.size() && ( isalnum( (unsigned char)s[e] ) || s[e] == '_' || s[e] == '.' || ( s[e] == ':' && e+1 < s.size() && s[e+1] == ':' ) || ( s[e] == ':' && s[e-1] == ':' ) || ( ( s[e] == '-' || s[e] == '+' ) && ( s[e-1] == 'e' ) && ( isdigit( (unsigned char)s[i] ) || s[i] == '-' ) ) ) ) ++e;
                v.push_back( s.substr( i, e-i ) ); i = e; continue;
            }
            if ( s.compare( i, 2, "/*" ) == 0 ) { i = s.find( "*/", i )+2; continue; }
            v.push_back( s.substr( i, 1 ) ); ++i;
        }
        return v;
    }
    std::vector<std::string> t; unsigned long k = 0;
    std::string next() { return k < t.size() ? t[k++] : std::string( "<end>" ); }
    bool want( std::string const& x ) { if ( next() == x ) return true; if ( bad.empty() ) bad = "expected " + x; return false; }
    D operand( std::string const& n ) { auto f = env.find( n ); if ( f == env.end() ) { if ( bad.empty() ) bad = n + " is used before it is defined"; return D( len, 0 ); } return f->second; }
    void define( std::string const& n, D const& d ) { if ( env.count( n ) && bad.empty() ) bad = n + " is defined twice"; env[n] = d; }
    // the type between < and the matching >
    void type() { if ( !want( "<" ) ) return; int depth = 1; while ( depth && k < t.size() ) { auto x = next(); if ( x == "<" ) ++depth; if ( x == ">" ) --depth; } }
    static double number( std::string x ) { return strtod( x.c_str(), nullptr ); }
    void statement( std::string const& line )
    {
        t = tokens( line ); k = 0; if ( t.empty() ) return; ++statements; std::string const w = next();
        if ( w == "ceras::tensor" ) { type(); auto const n = next(); want( "=" ); want( "ceras::load_tensor" ); type(); want( "(" ); auto f = next(); want( ")" ); want( ";" ); if ( f.size() < 3 ) { bad = "no file name"; return; } f = f.substr( 1, f.size()-2 ); if ( !std::ifstream( f ).good() ) { bad = "no file " + f; return; } define( n, to_d( load_tensor<V>( f ) ) ); return; }
        if ( w == "ceras::variable" || w == "ceras::constant" ) { type(); auto const n = next(); want( "(" ); auto const d = operand( next() ); if ( w == "ceras::variable" ) { want( "," ); next(); want( "," ); next(); want( "," ); kind[n] = next(); } want( ")" ); want( ";" ); define( n, d ); return; }
        if ( w == "ceras::value" ) { type(); auto const n = next(); want( "(" ); auto const x = number( next() ); want( ")" ); want( ";" ); define( n, D( len, x ) ); return; }
        if ( w == "ceras::place_holder" ) { type(); auto const n = next(); auto x = next(); if ( x == "(" ) { while ( k < t.size() && x != ")" ) x = next(); x = next(); } if ( x != ";" ) bad = "no end of the place holder"; auto f = bound.find( n ); if ( f == bound.end() ) { bad = n + " is no place holder of the expression"; return; } define( n, f->second ); return; }
        if ( w != "auto" ) { bad = "unknown statement"; return; }
        auto const n = next(); want( "=" ); auto const f = next();
        if ( env.count( f ) ) { D a = operand( f ); auto const o = next(); double const x = number( next() ); want( ";" ); for ( auto& v : a ) v = o == "+" ? v+x : o == "*" ? v*x : NAN; define( n, a ); return; }
        std::vector<double> args; want( "(" ); std::vector<std::string> in; for ( ;; ) { auto x = next(); if ( x == ")" || x == "<end>" ) break; if ( x != "," ) in.push_back( x ); }
        if ( k < t.size() && t[k] == "(" ) { for ( auto const& x : in ) args.push_back( number( x ) ); in.clear(); next(); for ( ;; ) { auto x = next(); if ( x == ")" || x == "<end>" ) break; if ( x != "," ) in.push_back( x ); } }
        want( ";" ); std::vector<D> v; for ( auto const& x : in ) if ( isdigit( (unsigned char)x[0] ) || x[0] == '-' ) args.push_back( number( x ) ); else v.push_back( operand( x ) );
        D r( len ); auto arity = [&]( unsigned long m, unsigned long q ){ if ( v.size() != m || args.size() != q ) { if ( bad.empty() ) bad = f + " has " + std::to_string( v.size() ) + " operands and " + std::to_string( args.size() ) + " arguments"; return false; } return true; };
        if ( f == "plus" ) { if ( arity( 2, 0 ) ) for ( unsigned long i = 0; i < len; ++i ) r[i] = v[0][i]+v[1][i]; }
        else if ( f == "elementwise_product" ) { if ( arity( 2, 0 ) ) for ( unsigned long i = 0; i < len; ++i ) r[i] = v[0][i]*v[1][i]; }
        else if ( f == "square" ) { if ( arity( 1, 0 ) ) for ( unsigned long i = 0; i < len; ++i ) r[i] = v[0][i]*v[0][i]; }
        else if ( f == "negative" ) { if ( arity( 1, 0 ) ) for ( unsigned long i = 0; i < len; ++i ) r[i] = -v[0][i]; }
        else if ( f == "equal" ) { if ( arity( 2, 1 ) ) for ( unsigned long i = 0; i < len; ++i ) r[i] = std::fabs( v[0][i]-v[1][i] ) > args[0] ? 0 : 1; }
        else if ( f == "clip" ) { if ( arity( 1, 2 ) ) for ( unsigned long i = 0; i < len; ++i ) r[i] = std::min( args[1], std::max( args[0], v[0][i] ) ); }
        else bad = "unknown function " + f;
        define( n, r );
    }
};

static std::vector<std::string> split( std::string const& s ) { std::vector<std::string> v; std::istringstream i( s ); std::string l; while ( std::getline( i, l ) ) if ( l.find_first_not_of( " \t" ) != std::string::npos ) v.push_back( l ); return v; }
static void judge_dot( Ctx& c, World const& w, std::vector<unsigned> const& reach, std::string const& dot, std::string const& when )
{
    std::map<std::string, int> nodes; std::map<std::string, std::string> labels; std::map<std::pair<std::string, std::string>, int> edges; auto const ls = split( dot );
    if ( !c.check( ls.size() >= 2 && ls[0].find( "digraph" ) == 0 && ls[0].find( '{' ) != std::string::npos && ls.back().find( '}' ) == 0, when+"no digraph", dot ) ) return;
    for ( unsigned long i = 1; i+1 < ls.size(); ++i )
    {
        auto const arrow = ls[i].find( " -> " ), bracket = ls[i].find( " [" );
        if ( arrow != std::string::npos && bracket == std::string::npos ) { auto b = ls[i].substr( arrow+4 ); b = b.substr( 0, b.find_first_of( " ;" ) ); ++edges[{ ls[i].substr( 0, arrow ), b }]; }
        else if ( bracket != std::string::npos ) { auto const n = ls[i].substr( 0, bracket ); ++nodes[n]; labels[n] = ls[i].substr( bracket ); }
        else c.check( false, when+"strange line", ls[i] );
    }
    std::map<std::string, int> wn; std::map<std::pair<std::string, std::string>, int> we;
    auto id = [&]( unsigned k ){ return "n"+std::to_string( w.nodes[k].id ); };
    for ( unsigned k : reach ) { ++wn[id( k )]; for ( unsigned o : w.nodes[k].operands ) ++we[{ id( o ), id( k ) }]; }
    c.check( nodes == wn, when+"nodes", w.text + "\n" + dot ); c.check( edges == we, when+"edges", w.text + "\n" + dot );
    for ( unsigned k : reach )
    {
        auto const& n = w.nodes[k]; auto const& l = labels[id( k )];
        c.check( l.find( "\"" + n.name + " " ) != std::string::npos && l.find( "[id:" + std::to_string( n.id ) + "]" ) != std::string::npos, when+"label", [&]{ return n.name + ": " + l; } );
        if ( n.kind == "variable" ) c.check( ( l.find( "non-trainable" ) == std::string::npos ) == n.trainable && l.find( "trainable" ) != std::string::npos, when+"trainable mark", l );
        else c.check( l.find( "trainable" ) == std::string::npos, when+"trainable mark", l );
    }
}
struct Texts { std::string dot, name; std::vector<std::string> code; };
static void judge( Ctx& c, World const& w, Texts const& texts, std::map<std::string, D> const& bound, bool evaluated )
{
    std::vector<unsigned> reach; std::vector<bool> seen( w.nodes.size(), false ); std::function<void(unsigned)> go = [&]( unsigned k ){ if ( seen[k] ) return; seen[k] = true; for ( unsigned o : w.nodes[k].operands ) go( o ); reach.push_back( k ); }; go( (unsigned)w.nodes.size()-1 );
    std::set<int> ids; for ( auto const& n : w.nodes ) ids.insert( n.id ); c.check( ids.size() == w.nodes.size(), "ids are not unique", w.text );
    std::string const when = evaluated ? "evaluated: " : "";
    judge_dot( c, w, reach, texts.dot, when );
    auto const& name = texts.name; auto const& code = texts.code; Code p( bound ); std::string all; for ( auto const& l : code ) { all += l + "\n"; for ( auto const& s : split( l ) ) p.statement( s ); }
    unsigned long tensors = 0; for ( unsigned k : reach ) if ( w.nodes[k].kind == "variable" || w.nodes[k].kind == "constant" ) ++tensors;
    if ( !c.check( p.bad.empty(), when+"code", [&]{ return w.text + "\n" + all + p.bad; } ) ) return;
    c.check( p.statements == reach.size()+tensors, when+"number of statements", [&]{ return w.text + "\n" + all; } );
    c.check( p.env.count( name ) == 1, when+"result is not defined", [&]{ return w.text + "\n" + all + name; } );
    if ( !p.env.count( name ) ) return;
    D const& want = w.nodes.back().value; D const got = p.env[name]; bool same = got.size() == want.size(); for ( unsigned long i = 0; same && i < want.size(); ++i ) same = std::fabs( got[i]-want[i] ) <= 1e-6*( 1+std::fabs( want[i] ) );
    c.check( same, when+"value of the code", [&]{ return w.text + "\n" + all; } ); c.trans( p.statements );
    for ( unsigned k : reach ) if ( w.nodes[k].kind == "variable" ) { auto f = p.kind.find( "variable_"+std::to_string( w.nodes[k].id ) ); c.check( f != p.kind.end() && f->second == ( w.nodes[k].trainable ? "true" : "false" ), when+"trainable flag", [&]{ return w.text + "\n" + all; } ); }
    u64 h = hash_str( w.text ); c.state( h );
}
// ---- enumeration: every node is built by one of the operators from any earlier ones; all of them are used in the end
struct Plus { static char const* text() { return "plus"; } static unsigned const arity = 2; template<typename A, typename B> static auto make( A const& a, B const& b ) { return a+b; } static double f( double a, double b ) { return a+b; } };
struct Times { static char const* text() { return "elementwise_product"; } static unsigned const arity = 2; template<typename A, typename B> static auto make( A const& a, B const& b ) { return hadamard_product( a, b ); } static double f( double a, double b ) { return a*b; } };
struct Equal { static char const* text() { return "equal"; } static unsigned const arity = 2; template<typename A, typename B> static auto make( A const& a, B const& b ) { return equal( a, b, 0.3f ); } static double f( double a, double b ) { return std::fabs( a-b ) > 0.3f ? 0 : 1; } };
struct Square { static char const* text() { return "square"; } static unsigned const arity = 1; template<typename A> static auto make( A const& a ) { return square( a ); } static double f( double a, double ) { return a*a; } };
struct Scale { static char const* text() { return "arithmetic_multiply"; } static unsigned const arity = 1; template<typename A> static auto make( A const& a ) { return a*2.5f; } static double f( double a, double ) { return a*2.5; } };
struct Shift { static char const* text() { return "arithmetic_plus"; } static unsigned const arity = 1; template<typename A> static auto make( A const& a ) { return a-0.75; } static double f( double a, double ) { return a-0.75; } };
struct Clip { static char const* text() { return "clip"; } static unsigned const arity = 1; template<typename A> static auto make( A const& a ) { return clip( -0.6f, 0.4f )( a ); } static double f( double a, double ) { return std::min( (double)0.4f, std::max( (double)-0.6f, a ) ); } };
struct Neg { static char const* text() { return "negative"; } static unsigned const arity = 1; template<typename A> static auto make( A const& a ) { return -a; } static double f( double a, double ) { return -a; } };

static World extended( World w, int id, char const* text, unsigned arity, unsigned a, unsigned b, double (*f)( double, double ) )
{
    Node x{ text, id, {}, D( len ), "operator", false }; x.operands.push_back( a ); if ( arity == 2 ) x.operands.push_back( b );
    for ( unsigned long i = 0; i < len; ++i ) x.value[i] = f( w.nodes[a].value[i], w.nodes[b].value[i] );
    w.text += " ; n" + std::to_string( w.nodes.size() ) + "=" + text + "(" + std::to_string( a ) + ( arity == 2 ? "," + std::to_string( b ) : std::string() ) + ")"; w.nodes.push_back( x ); return w;
}
static void test( Ctx& c, World const& v, std::map<std::string, D> const& bound, std::function<Texts( int )> const& texts )
{
    c.test( v.text, [&]{ judge( c, v, texts( 0 ), bound, false ); if constexpr ( EVALUATE ) judge( c, v, texts( 1 ), bound, true ); } );
}
template<typename E> static Texts look( E const& node, std::function<void()> const& ev, int evaluate )
{
    if constexpr ( EVALUATE ) if ( evaluate ) { fresh_session<V>(); ev(); E e = node; (void)get_default_session<TT>().run( e ); }
    auto [name, code] = ceras::serialize( node ); return Texts{ computation_graph( node ), name, code };
}
template<typename E> static void last( Ctx& c, E const& node, World const& v, std::map<std::string, D> const& bound, std::function<void()> const& ev )
{
    test( c, v, bound, [&]( int n ){ return look( node, ev, n ); } );
}
template<typename T> struct is_val : std::false_type {}; template<typename T> struct is_val<ceras::value<T>> : std::true_type {};
template<std::size_t leaves, typename... Ops> struct Enumerate
{
    template<unsigned Left, unsigned long Used, typename... E> static void grow( Ctx& c, std::tuple<E...> const& nodes, World const& w, std::map<std::string, D> const& bound, std::function<void()> const& evaluate_leaves )
    {
        ( each<Left, Used, Ops>( c, nodes, w, bound, evaluate_leaves ), ... );
    }
    template<unsigned Left, unsigned long Used, typename Op, typename... E> static void each( Ctx& c, std::tuple<E...> const& nodes, World const& w, std::map<std::string, D> const& bound, std::function<void()> const& ev )
    {
        left_operands<Left, Used, Op>( c, nodes, w, bound, ev, std::make_index_sequence<sizeof...( E )>{} );
    }
    template<unsigned Left, unsigned long Used, typename Op, typename... E, std::size_t... I> static void left_operands( Ctx& c, std::tuple<E...> const& nodes, World const& w, std::map<std::string, D> const& bound, std::function<void()> const& ev, std::index_sequence<I...> )
    {
        if constexpr ( Op::arity == 1 ) ( step<Left, Used, Op, I, I>( c, nodes, w, bound, ev ), ... );
        else ( right_operands<Left, Used, Op, I>( c, nodes, w, bound, ev, std::make_index_sequence<sizeof...( E )>{} ), ... );
    }
    template<unsigned Left, unsigned long Used, typename Op, std::size_t A, typename... E, std::size_t... I> static void right_operands( Ctx& c, std::tuple<E...> const& nodes, World const& w, std::map<std::string, D> const& bound, std::function<void()> const& ev, std::index_sequence<I...> )
    {
        ( step<Left, Used, Op, A, I>( c, nodes, w, bound, ev ), ... );
    }
    template<typename Op, std::size_t A, std::size_t B, typename... E> static auto make( std::tuple<E...> const& nodes )
    {
        if constexpr ( Op::arity == 1 ) return Op::make( std::get<A>( nodes ) ); else return Op::make( std::get<A>( nodes ), std::get<B>( nodes ) );
    }
    static constexpr int bits( unsigned long x ) { int n = 0; for ( ; x; x &= x-1 ) ++n; return n; }
    template<unsigned Left, unsigned long Used, typename Op, std::size_t A, std::size_t B, typename... E> static void step( Ctx& c, std::tuple<E...> const& nodes, World const& w, std::map<std::string, D> const& bound, std::function<void()> const& ev )
    {
        typedef std::decay_t<decltype( std::get<A>( nodes ) )> TA; typedef std::decay_t<decltype( std::get<B>( nodes ) )> TB;
        // a value cannot stand alone, nor be combined with itself
        if constexpr ( ( Op::arity == 1 && is_val<TA>::value ) || ( is_val<TA>::value && is_val<TB>::value ) ) return;
        else
        {
            constexpr unsigned long used = Used | ( 1UL << A ) | ( 1UL << B ); constexpr std::size_t n = sizeof...( E );
            constexpr unsigned long inner = ( ( 1UL << n )-1 ) & ~( ( 1UL << leaves )-1 );        // operator nodes so far
            // every operator node must be consumed by the end: each further node consumes two and adds one
            if constexpr ( bits( inner & ~used )+1 > (int)Left ) return;
            else
            {
                auto const node = make<Op, A, B>( nodes );
                World const v = extended( w, node.id(), Op::text(), Op::arity, A, B, Op::f );
                if constexpr ( Left == 1 ) last( c, node, v, bound, ev );
                else grow<Left-1, used>( c, std::tuple_cat( nodes, std::make_tuple( node ) ), v, bound, ev );
            }
        }
    }
};

template<typename... E> static World leaves_world( std::string const& text, std::tuple<E...> const& t )
{
    World w; w.text = text;
    std::apply( [&]( auto const&... e )
    {
        ( [&]{
            typedef std::decay_t<decltype( e )> T; Node n; n.id = e.id(); n.name = e.name(); n.trainable = false; n.kind = "operator";
            if constexpr ( is_variable_v<T> ) { n.kind = "variable"; n.name = "Variable"; n.trainable = e.trainable(); n.value = to_d( e.data() ); }
            else if constexpr ( is_constant_v<T> ) { n.kind = "constant"; n.name = "Constant"; n.value = to_d( e.data() ); }
            else if constexpr ( is_val<T>::value ) { n.kind = "value"; n.name = "Value"; n.value = D( len, e.data() ); }
            else { n.kind = "placeholder"; n.name = "PlaceHolder"; n.value = to_d( leaf_data( 7 ) ); }
            w.nodes.push_back( n );
        }(), ... );
    }, t );
    return w;
}
template<std::size_t L, unsigned N, typename... Ops, typename... E> static void family( Ctx& c, std::string const& text, std::tuple<E...> const& leaves )
{
    World const w = leaves_world( text, leaves ); std::map<std::string, D> bound;
    std::apply( [&]( auto const&... e ){ ( [&]{ if constexpr ( is_place_holder_v<std::decay_t<decltype( e )>> ) bound["place_holder_"+std::to_string( e.id() )] = to_d( leaf_data( 7 ) ); }(), ... ); }, leaves );
    std::function<void()> bind = [leaves]{ std::apply( []( auto const&... e ){ ( [&]{ if constexpr ( is_place_holder_v<std::decay_t<decltype( e )>> ) { auto h = e; get_default_session<TT>().bind( h, leaf_data( 7 ) ); } }(), ... ); }, leaves ); };
    Enumerate<L, Ops...>::template grow<N, 0UL>( c, leaves, w, bound, bind );
}
static void explore( Ctx& c )
{
    variable<TT> x{ leaf_data( 1 ) }, t{ leaf_data( 2 ), 0.125f, 0.5f, false }; place_holder<TT> p; constant<TT> k{ leaf_data( 3 ) }; value<V> v{ -1.5f };
#if GROUP == 1
    family<2, 2, Plus, Times, Square, Scale>( c, "x,p", std::make_tuple( x, p ) ); family<1, 1, Plus, Times, Equal, Square, Scale, Shift, Clip, Neg>( c, "x", std::make_tuple( x ) );
#elif GROUP == 2
    family<4, 1, Plus, Times, Equal, Square, Scale, Shift, Clip, Neg>( c, "x,t,k,v", std::make_tuple( x, t, k, v ) ); family<3, 2, Plus, Clip>( c, "t,k,v", std::make_tuple( t, k, v ) );
#elif GROUP == 3
    family<1, 3, Plus, Square, Neg>( c, "x", std::make_tuple( x ) );
#elif GROUP == 4
    family<2, 3, Plus, Shift>( c, "x,p", std::make_tuple( x, p ) );
#elif GROUP == 5
    family<1, 4, Times, Shift>( c, "x", std::make_tuple( x ) );
#elif GROUP == 6
    family<4, 2, Plus, Equal, Clip>( c, "x,t,k,v", std::make_tuple( x, t, k, v ) );
#elif GROUP == 7
    family<2, 3, Plus, Times, Square>( c, "x,p", std::make_tuple( x, p ) );
#endif
}
MC_MAIN( explore )
