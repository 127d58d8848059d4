// C24, first half: the code generated for an expression is compiled against the library and run; it must rebuild the expression.
// One program per public operator, activation, loss and layer, every kind of leaf, and shared operands.
#include "ops.hpp"
#include <fstream>
#include <set>
#include <map>
#include <sys/stat.h>
#ifndef VT
#define VT float
#endif
using namespace mc; using namespace ceras;
typedef VT V; typedef ceras::tensor<V> TT;
#define STR2( x ) #x
#define STR( x ) STR2( x )

static TT fillt( std::vector<unsigned long> const& s, int k, double lo = -2, double hi = 2 )
{
    TT t( s ); unsigned long i = 0; for ( auto& v : t ) { v = (V)( lo + ( hi-lo )*( ( ( i*7+k*5+3 )%23 + 0.37 )/23.0 ) ); ++i; } return t;
}
static TT seed_of( std::vector<unsigned long> const& s ) { TT g( s ); unsigned long i = 0; for ( auto& v : g ) { v = (V)( 0.5+0.25*( i%5 ) ); ++i; } return g; }
static std::string num( double v ) { char b[40]; snprintf( b, sizeof b, "%.9g", v ); return b; }
template<typename T> static std::string line( T const& t ) { std::string s; for ( auto d : t.shape() ) s += std::to_string( d )+" "; s += ":"; for ( auto v : t ) s += " "+num( v ); return s; }
static std::string line( std::vector<unsigned long> const& sh ) { std::string s; for ( auto d : sh ) s += std::to_string( (long)d )+" "; return s; }

struct Leaves
{
    std::vector<variable<TT>> vars; std::vector<std::pair<place_holder<TT>, TT>> phs;
    variable<TT> v( std::vector<unsigned long> const& s, int k, double lo = -2, double hi = 2 ) { vars.emplace_back( fillt( s, k, lo, hi ) ); return vars.back(); }
    place_holder<TT> p( std::vector<unsigned long> const& s, int k, double lo = -2, double hi = 2 ) { place_holder<TT> h; phs.emplace_back( h, fillt( s, k, lo, hi ) ); return h; }
    place_holder<TT> in( std::vector<unsigned long> const& s, int k, double lo = -2, double hi = 2 ) { place_holder<TT> h{ s }; std::vector<unsigned long> b{ 2 }; b.insert( b.end(), s.begin(), s.end() ); phs.emplace_back( h, fillt( b, k, lo, hi ) ); return h; }
};
static std::string const dir( std::string const& name ) { return "prog." + std::to_string( hash_str( name ) ); }
static bool readable( std::string const& f ) { return std::ifstream( f ).good(); }
static std::vector<std::string> lines_of( std::string const& f ) { std::ifstream i( f ); std::vector<std::string> v; std::string l; while ( std::getline( i, l ) ) v.push_back( l ); return v; }
enum Mode { exact = 0, random_result = 1, training = 2, no_gradient = 4, no_shape = 8 };

struct Program { std::string name; int mode; std::function<void(Program const&)> produce; };
template<typename E> static void produce( Program const& pr, Leaves& l, E e )
{
    std::string const d = dir( pr.name ); mkdir( d.c_str(), 0755 ); if ( chdir( d.c_str() ) ) throw std::runtime_error( "no scratch directory" );
    struct Back { ~Back() { (void)!chdir( ".." ); } } back;
    auto const& [name, code] = ceras::serialize( e );
    { std::ofstream o( "code.txt" ); o << name << "\n" << code.size() << "\n"; for ( auto const& c : code ) o << c << "\n"; }
    // the same again must give the same
    auto const& [name2, code2] = ceras::serialize( e ); { std::ofstream o( "again.txt" ); o << ( name2 == name && code2 == code ? "same" : "different" ) << "\n"; }
    bool shaped = !( pr.mode & no_shape ); for ( auto& p : l.phs ) if ( p.first.shape().size() == 1 && p.first.shape()[0] == -1UL ) shaped = false;
    std::ofstream ref( "expected.txt" ); ref << ( shaped ? "shape "+line( std::vector<unsigned long>( e.shape() ) ) : std::string( "shape" ) ) << "\n";
    { std::ofstream m( "leaves.txt" ); for ( auto& p : l.phs ) m << "p " << p.first.id() << "\n"; for ( auto& v : l.vars ) m << "v " << v.id() << "\n"; m << ( shaped ? "s\n" : "n\n" ); }
    // the code (and the tensors) were written before anything was evaluated
    fresh_session<V>(); learning_phase = ( pr.mode & training ) ? 1 : 0;
    auto& s = get_default_session<TT>();
    for ( auto& p : l.phs ) { save_tensor( "ph_"+std::to_string( p.first.id() )+".txt", p.second ); s.bind( p.first, p.second.deep_copy() ); }
    for ( auto& v : l.vars ) v.gradient().reset();
    TT out = s.run( e ); ref << "value " << line( out ) << "\n";
    if ( !( pr.mode & no_gradient ) ) { e.backward( seed_of( out.shape() ) ); for ( auto& v : l.vars ) ref << "gradient " << v.id() << " " << line( v.gradient() ) << "\n"; }
    ref << "end\n"; learning_phase = 1;
}
// the generated program: the generated code, and the reporting around it
static bool mentions( std::vector<std::string> const& code, std::string const& name )
{
    for ( auto const& l : code ) for ( auto k = l.find( name ); k != std::string::npos; k = l.find( name, k+1 ) ) if ( ( k == 0 || !( isalnum( l[k-1] ) || l[k-1] == '_' ) ) && !( k+name.size() < l.size() && isdigit( l[k+name.size()] ) ) ) return true;
    return false;
}
static std::string function( Program const& pr, int k )
{
    auto const c = lines_of( dir( pr.name )+"/code.txt" ); auto const lv = lines_of( dir( pr.name )+"/leaves.txt" ); if ( c.size() < 2 || lv.empty() ) return "";
    std::string s = "static void f" + std::to_string( k ) + "()\n{\n"; for ( unsigned long i = 2; i < c.size(); ++i ) s += "    " + c[i] + "\n";
    s += "    auto& result__ = " + c[0] + ";\n    std::cout << \"shape\"; " + ( lv.back() == "s" ? "{ auto const sh = result__.shape(); std::cout << \" \"; for ( auto d : sh ) std::cout << (long)d << \" \"; } " : "" ) + "std::cout << \"\\n\";\n";
    s += "    auto& s__ = get_default_session<ceras::tensor<T__>>(); learning_phase = " + std::to_string( pr.mode & training ? 1 : 0 ) + ";\n";
    for ( auto const& l : lv ) if ( l[0] == 'p' && mentions( c, "place_holder_"+l.substr( 2 ) ) ) s += "    s__.bind( place_holder_" + l.substr( 2 ) + ", load_tensor<T__>( \"ph_" + l.substr( 2 ) + ".txt\" ) );\n";
    s += "    auto out__ = s__.run( result__ ); std::cout << \"value \" << line__( out__ ) << \"\\n\";\n";
    if ( !( pr.mode & no_gradient ) )
    {
        s += "    result__.backward( seed__( out__ ) );\n";
        for ( auto const& l : lv ) if ( l[0] == 'v' && mentions( c, "variable_"+l.substr( 2 ) ) ) s += "    std::cout << \"gradient " + l.substr( 2 ) + " \" << line__( variable_" + l.substr( 2 ) + ".gradient() ) << \"\\n\";\n";
    }
    return s + "    std::cout << \"end\\n\";\n}\n";
}
static std::string const head = "#include \"ceras.hpp\"\n#include <cstdio>\n#include <cstdlib>\n#include <unistd.h>\n#include <fcntl.h>\nusing namespace ceras;\ntypedef " STR( VT ) " T__;\n"
    "static std::string line__( ceras::tensor<T__> const& t ) { std::string s; for ( auto d : t.shape() ) s += std::to_string( d )+\" \"; s += \":\"; for ( auto v : t ) { char b[40]; snprintf( b, sizeof b, \" %.9g\", (double)v ); s += b; } return s; }\n"
    "static ceras::tensor<T__> seed__( ceras::tensor<T__> const& o ) { ceras::tensor<T__> g( o.shape() ); unsigned long i = 0; for ( auto& v : g ) { v = (T__)( 0.5+0.25*( i%5 ) ); ++i; } return g; }\n";
static bool compile( std::string const& src, std::string const& exe, std::string const& err )
{
    char const* r = getenv( "VERIF_REPO" ); std::string const inc = std::string( r ? r : "/repo" ) + "/include";
    return 0 == system( ( "g++ -std=c++20 -w -O0 -g0 -fmax-errors=3 -ftemplate-depth=100860 -pthread -I '" + inc + "' " + src + " -o " + exe + " 2> " + err ).c_str() );
}
static void build_all( std::vector<Program> const& ps )
{
    std::string src = head, table = "int main( int argc, char** argv )\n{\n    if ( argc < 3 || chdir( argv[2] ) ) return 5;\n    switch ( atoi( argv[1] ) )\n    {\n"; int k = 0;
    for ( auto const& p : ps ) { ++k; auto f = function( p, k ); if ( f.empty() ) continue; src += f; table += "        case " + std::to_string( k ) + ": f" + std::to_string( k ) + "(); break;\n"; }
    src += table + "    }\n}\n"; { std::ofstream o( "all.cc" ); o << src; }
    if ( compile( "all.cc", "all.exe", "all.err" ) ) return;
    // some do not compile: find out which, and run each alone
    k = 0; std::vector<std::pair<int, std::string>> todo;
    for ( auto const& p : ps ) { ++k; auto f = function( p, k ); if ( f.empty() ) continue; std::string const n = "one" + std::to_string( k ); { std::ofstream o( n+".cc" ); o << head << f << "int main( int argc, char** argv ) { if ( argc < 3 || chdir( argv[2] ) ) return 5; f" << k << "(); }\n"; } compile( n+".cc", n+".exe", n+".err" ); }
}
static bool close_numbers( std::string const& a, std::string const& b )
{
    std::istringstream x( a ), y( b ); std::string s, t;
    for ( ;; )
    {
        bool const i = (bool)( x >> s ), j = (bool)( y >> t ); if ( i != j ) return false; if ( !i ) return true; if ( s == t ) continue;
        char* e; double const p = strtod( s.c_str(), &e ); if ( *e ) return false; double const q = strtod( t.c_str(), &e ); if ( *e ) return false;
        if ( !( std::fabs( p-q ) <= 2e-5*( 1+std::fabs( p ) ) ) ) return false;
    }
}
static void verdict( Ctx& c, Program const& p, int k )
{
    std::string const d = dir( p.name ); if ( !readable( d+"/expected.txt" ) ) { c.check( false, "not generated", "no code was generated" ); return; }
    auto const code = lines_of( d+"/code.txt" ); std::string text; for ( unsigned long i = 2; i < code.size(); ++i ) text += code[i] + "\n"; c.state( hash_str( p.name ) );
    c.check( lines_of( d+"/again.txt" ) == std::vector<std::string>{ "same" }, "second serialization differs", text );
    std::string exe = "./all.exe"; std::string const one = "one" + std::to_string( k );
    if ( !readable( "all.exe" ) )
    {
        if ( !readable( one+".exe" ) ) { std::string e; for ( auto const& l : lines_of( one+".err" ) ) if ( e.empty() && l.find( "error" ) != std::string::npos ) e = l; c.check( false, "does not compile", text + e ); return; }
        exe = "./" + one + ".exe";
    }
    int const rc = system( ( "timeout 20 " + exe + " " + std::to_string( k ) + " " + d + " > " + d + "/got.txt 2> " + d + "/got.err" ).c_str() );
    if ( !c.check( rc == 0, "generated program fails", text + "exit status " + std::to_string( rc ) ) ) return;
    auto const want = lines_of( d+"/expected.txt" ), got = lines_of( d+"/got.txt" );
    auto pick = []( std::vector<std::string> const& v, std::string const& what ){ std::vector<std::string> r; for ( auto const& l : v ) if ( l.compare( 0, what.size(), what ) == 0 ) r.push_back( l ); return r; };
    c.trans( code.size() );
    c.check( pick( want, "shape" ) == pick( got, "shape" ), "shape differs", [&]{ return text + "shape " + ( pick( got, "shape" ).empty() ? "" : pick( got, "shape" )[0] ) + " instead of " + pick( want, "shape" )[0]; } );
    auto cut = [&]( std::string const& l ){ return p.mode & random_result ? l.substr( 0, l.find( ':' ) ) : l; };
    for ( auto const& kind : { "value", "gradient" } )
    {
        auto const a = pick( want, kind ), b = pick( got, kind );
        if ( std::string( kind ) == "value" && !c.check( a.size() == 1 && b.size() == 1, "no value", text ) ) return;
        for ( auto const& x : a )
        {
            std::string const id = x.substr( 0, x.find( ' ', std::string( kind ).size()+1 )+1 ); std::string y = b.empty() ? "" : b[0]; if ( std::string( kind ) == "gradient" ) { y = ""; for ( auto const& z : b ) if ( z.compare( 0, id.size(), id ) == 0 ) y = z; }
            if ( y.empty() ) if ( !mentions( code, "variable_"+x.substr( 9, x.find( ' ', 9 )-9 ) ) ) continue;
            c.check( close_numbers( cut( x ), cut( y ) ), std::string( kind ) + " differs", [&]{ return text + cut( y ) + "\ninstead of\n" + cut( x ); } );
        }
    }
}
// the programs: two halves of one list, so that they compile in parallel
static std::vector<Program> programs()
{
    std::vector<Program> ps;
#define P( mode, ... ) ps.push_back( { #__VA_ARGS__, mode, []( Program const& pr ) { Leaves l; \
        auto v = [&]( std::vector<unsigned long> const& s, double lo = -2, double hi = 2 ){ return l.v( s, (int)l.vars.size(), lo, hi ); }; auto p = [&]( std::vector<unsigned long> const& s, double lo = -2, double hi = 2 ){ return l.p( s, (int)l.phs.size()+3, lo, hi ); }; auto in = [&]( std::vector<unsigned long> const& s, double lo = -2, double hi = 2 ){ return l.in( s, (int)l.phs.size()+3, lo, hi ); }; \
        auto con = [&]( std::vector<unsigned long> const& s, double lo = -2, double hi = 2 ){ return constant<TT>( fillt( s, 11, lo, hi ) ); }; (void)v; (void)p; (void)in; (void)con; \
        auto x = v( { 2, 3 } ); auto y = v( { 2, 3 }, 0.3, 1.7 ); (void)x; (void)y; produce( pr, l, [&]{ __VA_ARGS__ }() ); } } );
#include "codegen_programs.hpp"
#undef P
    return ps;
}
static void explore( Ctx& c )
{
    auto const all = programs(); bool prepared = false; std::vector<Program> mine; std::vector<int> number( all.size(), 0 );
    // the programs of one shard are generated and compiled together, before the first of them is judged
    for ( unsigned long k = 0; k < all.size(); ++k ) if ( !c.only.empty() ? all[k].name == c.only : ( k+1 ) % c.nshards == c.shard ) { mine.push_back( all[k] ); number[k] = (int)mine.size(); }
    for ( unsigned long k = 0; k < all.size(); ++k ) c.test( all[k].name, [&]
    {
        if ( !prepared )
        {
            // every program is generated in a process of its own, so that one that dies does not take the others along
            for ( auto const& p : mine ) { fflush( stdout ); pid_t const pid = fork(); if ( pid == 0 ) { try { p.produce( p ); } catch ( ... ) { _exit( 7 ); } _exit( 0 ); } int st = 0; waitpid( pid, &st, 0 ); }
            build_all( mine ); prepared = true;
        }
        verdict( c, all[k], number[k] );
    } );
}
MC_MAIN( explore )
