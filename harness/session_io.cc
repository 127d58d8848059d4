// C08: saving and restoring the variables of a session
#include "ceras_mc.hpp"
#include <map>
#include <sys/syscall.h>
#include <sys/uio.h>
using namespace ref;

// ---- crash injection: the n-th write of the process stops after `torn` of its bytes and the process dies ----
static long crash_at = 0, writes_seen = 0; static double torn = 0;
static void maybe_crash( int fd, char const* p, size_t n )
{
    if ( !crash_at || fd < 3 ) return;
    if ( ++writes_seen == crash_at ) { size_t k = (size_t)( n*torn ); if ( torn < 0 ) k = n ? n-1 : 0; if ( k ) syscall( SYS_write, fd, p, k ); _exit( 7 ); }
}
extern "C" ssize_t write( int fd, void const* b, size_t n ) { if ( fd >= 3 ) { if ( crash_at == 0 ) ++writes_seen; else maybe_crash( fd, (char const*)b, n ); } return syscall( SYS_write, fd, b, n ); }
extern "C" ssize_t writev( int fd, struct iovec const* v, int n )
{
    if ( fd >= 3 )
    {
        std::string s; for ( int i = 0; i < n; ++i ) s.append( (char const*)v[i].iov_base, v[i].iov_len );
        if ( crash_at == 0 ) ++writes_seen; else maybe_crash( fd, s.data(), s.size() );
    }
    return syscall( SYS_writev, fd, v, n );
}

template<typename V> using Var = ceras::variable<ceras::tensor<V>>;

static T pattern( int var, int p, Shape const& base )
{
    Shape s = base; if ( p == 2 ) s.push_back( 2 );        // pattern 2 also changes the shape
    T r( s );
    for ( unsigned long i = 0; i < r.size(); ++i )
    {
        double g = generic( i, 5*var+p );
        r[i] = p == 0 ? g : p == 1 ? g*1e-7/3 : p == 2 ? g*12345.678 : p == 3 ? g*1e25 : p == 4 ? (double)(long)(i*3)-4 : g*1e-25;
    }
    return r;
}
template<typename V> static T rounded( T t ) { for ( auto& x : t.v ) x = (double)(V)x; return t; }
template<typename V> static void set( Var<V>& v, T const& t )
{
    if ( v.shape() == t.shape ) { auto& d = v.data(); for ( unsigned long i = 0; i < t.size(); ++i ) d[i] = (V)t[i]; }   // in place, like an optimizer
    else v.data() = mc::to_c<V>( t );
}
template<typename V> static bool is( Var<V>& v, T const& t ) { return close( mc::to_r( v.data() ), rounded<V>( t ), 0 ); }

// run f in a child process; its exit code (0..), or 1000+signal
static int in_child( std::function<int()> const& f )
{
    fflush( stdout ); fflush( stderr );
    pid_t p = fork();
    if ( p == 0 ) { alarm( 30 ); _exit( f() ); }
    int st = 0; waitpid( p, &st, 0 ); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

// ---------------- explicit-state search over save / modify / restore ----------------
struct State { std::vector<int> cur; std::vector<std::vector<int>> file; bool operator<( State const& o ) const { return std::tie( cur, file ) < std::tie( o.cur, o.file ); } };
struct Op { char k; int a, b; };
static std::string name( Op const& o ) { std::string s( 1, o.k ); s += std::to_string( o.a ); if ( o.k == 'w' ) s += ":" + std::to_string( o.b ); return s; }
static void step( State& s, Op const& o ) { if ( o.k == 'w' ) s.cur[o.a] = o.b; else if ( o.k == 's' ) s.file[o.a] = s.cur; else if ( o.k == 'r' ) s.cur = s.file[o.a]; }

template<typename V> static void histories( mc::Ctx& c, std::string const& tn, unsigned nvars, unsigned npat, unsigned nfiles, unsigned depth, unsigned frozen = 0 )
{
    std::vector<Shape> base{ {2,3}, {1}, {4} };
    std::map<State, std::vector<Op>> seen; State init{ std::vector<int>( nvars, 0 ), std::vector<std::vector<int>>( nfiles ) };
    std::vector<State> front{ init }; seen[init] = {};
    for ( unsigned d = 0; d < depth && !front.empty(); ++d )
    {
        std::vector<State> next;
        for ( auto const& s : front )
        {
            std::vector<Op> ops;
            for ( unsigned f = 0; f < nfiles; ++f ) { ops.push_back( { 's', (int)f, 0 } ); if ( !s.file[f].empty() ) ops.push_back( { 'r', (int)f, 0 } ); }
            for ( unsigned v = 0; v < nvars; ++v ) for ( unsigned p = 0; p < npat; ++p ) if ( s.cur[v] != (int)p ) ops.push_back( { 'w', (int)v, (int)p } );
            for ( auto const& o : ops )
            {
                auto hist = seen[s]; hist.push_back( o );
                State t = s; step( t, o );
                if ( !seen.count( t ) ) { seen[t] = hist; next.push_back( t ); }
                std::string key = "history|" + tn + "|" + std::to_string(nvars) + ( frozen ? "|frozen" + std::to_string(frozen) : std::string{} ) + "|"; for ( auto const& h : hist ) key += name( h ) + ",";
                c.test( key, [&]
                {
                    auto& ss = mc::fresh_session<V>(); std::vector<Var<V>> vs; for ( unsigned v = 0; v < nvars; ++v ) vs.emplace_back( mc::to_c<V>( pattern( v, 0, base[v] ) ), V{0}, V{0}, !( frozen>>v & 1 ) );
                    State m = init;
                    for ( auto const& h : hist )
                    {
                        std::string const file = "sess" + std::to_string( h.a );
                        if ( h.k == 'w' ) set<V>( vs[h.a], pattern( h.a, h.b, base[h.a] ) );
                        else if ( h.k == 's' ) ss.save( file );
                        else { if ( h.a ) ss.deserialize( file ); else ss.restore( file ); }
                        step( m, h ); c.trans();
                        for ( unsigned v = 0; v < nvars; ++v )
                            c.check( is<V>( vs[v], pattern( v, m.cur[v], base[v] ) ), h.k == 's' ? "save:variable-changed" : h.k == 'r' ? "restore:value" : "write:value", [&]{ return "after " + name( h ) + " variable " + std::to_string(v) + " is " + str( mc::to_r( vs[v].data() ) ) + " expected " + str( pattern( v, m.cur[v], base[v] ) ); } );
                        if ( h.k != 'w' ) c.check( access( (file + ".tmp").c_str(), F_OK ) != 0, "temporary-left-behind" );
                    }
                    mc::u64 hs = mc::hash_str( tn ); for ( int x : m.cur ) hs = mc::mix( hs, x+1 ); for ( auto const& f : m.file ) { hs = mc::mix( hs, 99 ); for ( int x : f ) hs = mc::mix( hs, x+1 ); } c.state( hs );
                    for ( unsigned f = 0; f < nfiles; ++f ) unlink( ("sess"+std::to_string(f)).c_str() );
                } );
            }
        }
        front = next;
    }
}
// one `program`: creates the variables (same order, same ids), gives them pattern p; even patterns belong to variables that are not trainable
template<typename V> static std::vector<Var<V>> program( std::vector<Shape> const& shp, std::vector<int> const& pat )
{
    mc::fresh_session<V>(); std::vector<Var<V>> vs; for ( unsigned i = 0; i < shp.size(); ++i ) vs.emplace_back( mc::to_c<V>( pattern( i, pat[i], shp[i] ) ), V( i )/4, V( pat[i] )/8, pat[i]%2 == 1 ); return vs;
}
template<typename V> static void typed( mc::Ctx& c, std::string const& tn )
{
    histories<V>( c, tn, 2, 3, 2, c.thorough ? 12 : 6 );
    for ( unsigned f = 1; f < 4; ++f ) histories<V>( c, tn, 2, 2, 1, c.thorough ? 8 : 5, f );      // some of the variables are not trainable
    if ( c.thorough ) histories<V>( c, tn, 3, 2, 2, 12 );
    std::vector<Shape> pool{ {1}, {3}, {2,2}, {1,3}, {3,1,2}, {17} };
    for ( unsigned n = 1; n <= 3; ++n )
    {
        unsigned long tot = 1; for ( unsigned i = 0; i < n; ++i ) tot *= pool.size();
        for ( unsigned long k = 0; k < tot; ++k )
        {
            if ( c.quick() && n == 3 && k % 4 ) continue;
            std::vector<Shape> shp; unsigned long q = k; std::string sn; for ( unsigned i = 0; i < n; ++i ) { shp.push_back( pool[q%pool.size()] ); sn += str( shp.back() ) + ","; q /= pool.size(); }
            for ( int p = 0; p < 6; ++p )
                c.test( "other-run|" + tn + "|" + sn + "|" + std::to_string(p), [&]
                {
                    std::vector<int> pa( n ), pb( n ); for ( unsigned i = 0; i < n; ++i ) { pa[i] = (p+i)%6; pb[i] = (p+i+ (n>1?1:3))%6; }
                    int a = in_child( [&]{ auto vs = program<V>( shp, pa ); ceras::get_default_session<ceras::tensor<V>>().save( "f" ); return 0; } );
                    c.check( a == 0, "other-run:save" ); c.trans();
                    int b = in_child( [&]{ auto vs = program<V>( shp, pb ); auto e = ceras::square( vs[0] ); ceras::get_default_session<ceras::tensor<V>>().tap( e ); ceras::get_default_session<ceras::tensor<V>>().restore( "f" ); for ( unsigned i = 0; i < n; ++i ) { if ( !c.check( is<V>( vs[i], pattern( i, pa[i], shp[i] ) ), "other-run:value", [&]{ return "variable " + std::to_string(i) + " restored as " + str( mc::to_r( vs[i].data() ) ) + " expected " + str( pattern( i, pa[i], shp[i] ) ); } ) ) return 3; c.state( hash( pattern( i, pa[i], shp[i] ) ) ); } return 0; } );
                    c.check( b == 0, "other-run:restore", [&]{ return "status " + std::to_string(b); } ); c.trans();
                    if ( n > 1 )
                    {   // a program that has fewer variables than the file holds
                        auto few = shp; few.pop_back(); auto pf = pb; pf.pop_back();
                        int d = in_child( [&]{ auto vs = program<V>( few, pf ); ceras::get_default_session<ceras::tensor<V>>().restore( "f" ); return 0; } );
                        c.check( d == 1000 + SIGABRT, "unknown-variable:accepted", [&]{ return "status " + std::to_string(d); } ); c.trans();
                    }
                    unlink( "f" ); unlink( "f.tmp" );
                } );
        }
    }
    // many variables, large ones
    for ( auto const& shp : std::vector<std::vector<Shape>>{ std::vector<Shape>( 12, Shape{ 2, 3 } ), std::vector<Shape>( 40, Shape{ 3 } ), std::vector<Shape>( 130, Shape{ 1 } ), { { 65 }, { 257 }, { 33, 5 } }, { { 100, 100 }, { 1 }, { 4097 } }, { { 2, 1, 3, 1, 2, 1, 2 }, { 1, 1, 1, 1, 1, 1 } } } ) for ( int p = 0; p < 6; ++p )
    {
        c.test( "large|" + tn + "|" + std::to_string( shp.size() ) + "x" + str( shp[0] ) + "|" + std::to_string( p ), [&]
        {
            std::vector<int> pa, pb; for ( unsigned i = 0; i < shp.size(); ++i ) { pa.push_back( ( p+i )%6 ); pb.push_back( ( p+i+1 )%6 ); }
            int a = in_child( [&]{ auto vs = program<V>( shp, pa ); ceras::get_default_session<ceras::tensor<V>>().save( "f" ); return 0; } ); c.check( a == 0, "large:save" ); c.trans();
            int b = in_child( [&]{ auto vs = program<V>( shp, pb ); ceras::get_default_session<ceras::tensor<V>>().restore( "f" ); for ( unsigned i = 0; i < vs.size(); ++i ) if ( !is<V>( vs[i], pattern( i, pa[i], shp[i] ) ) ) return 2; return 0; } ); c.trans();
            c.check( b == 0, "large:restore", [&]{ return "status " + std::to_string( b ); } ); c.state( mc::mix( shp.size(), p ) ); unlink( "f" ); unlink( "f.tmp" );
        } );
    }
    // every truncation of a saved file
    for ( auto const& shp : std::vector<std::vector<Shape>>{ { {1} }, { {3}, {2,2} }, { {2,3}, {1}, {4} }, { {5,7}, {3} } } ) for ( int p : { 0, 1, 4 } )
    {
        std::string sn; for ( auto const& s : shp ) sn += str( s ) + ",";
        for ( int part = 0; part < 4; ++part )
            c.test( "truncated|" + tn + "|" + sn + "|" + std::to_string(p) + "|" + std::to_string(part), [&]
            {
                auto vs = program<V>( shp, std::vector<int>( shp.size(), p ) ); auto& ss = ceras::get_default_session<ceras::tensor<V>>(); ss.save( "f" );
                std::ifstream in( "f", std::ios::binary ); std::stringstream b; b << in.rdbuf(); std::string full = b.str(); in.close();
                for ( std::size_t n = part; n < full.size(); n += 4 )
                {
                    { std::ofstream o( "f", std::ios::binary ); o.write( full.data(), n ); }
                    c.trans(); bool rej = mc::rejects( [&]{ ss.restore( "f" ); } );
                    c.check( rej, "truncated:accepted", [&]{ return "cut to " + std::to_string(n) + " of " + std::to_string( full.size() ) + " bytes"; } );
                }
                unlink( "f" ); c.check( mc::rejects( [&]{ ss.restore( "f" ); } ), "missing:accepted" ); unlink( "f.tmp" );
            } );
    }
    // crash at every write of a save (or of a restore), torn at several points; then restore in another run
    for ( auto const& shp : std::vector<std::vector<Shape>>{ { {2,3}, {1} }, { {30,30}, {20,20} } } )
        for ( int old = 0; old < 2; ++old )
        {
            std::string sn; for ( auto const& s : shp ) sn += str( s ) + ",";
            c.test( "crash-save|" + tn + "|" + sn + "|" + std::to_string(old), [&]
            {
                std::vector<int> po( shp.size(), 4 ), pn( shp.size(), 0 ), px( shp.size(), 5 );
                for ( long k = 1; k < 200; ++k )
                {
                    bool finished = false;
                    for ( double t : { 0.0, 0.01, 0.3, 0.7, -1.0, 1.0 } )
                    {
                        unlink( "f" ); unlink( "f.tmp" );
                        if ( old ) in_child( [&]{ auto vs = program<V>( shp, po ); ceras::get_default_session<ceras::tensor<V>>().save( "f" ); return 0; } );
                        int a = in_child( [&]{ auto vs = program<V>( shp, pn ); crash_at = k; writes_seen = 0; torn = t; ceras::get_default_session<ceras::tensor<V>>().save( "f" ); return 0; } ); c.trans();
                        if ( a == 0 ) finished = true;
                        int b = in_child( [&]
                        {
                            auto vs = program<V>( shp, px ); ceras::get_default_session<ceras::tensor<V>>().restore( "f" );
                            bool isn = true, iso = old; for ( unsigned i = 0; i < vs.size(); ++i ) { isn = isn && is<V>( vs[i], pattern( i, pn[i], shp[i] ) ); iso = iso && is<V>( vs[i], pattern( i, po[i], shp[i] ) ); }
                            return isn ? 0 : iso ? 1 : 2;
                        } ); c.trans();
                        if ( a == 0 ) c.check( b == 0, "crash-save:completed-save-lost", [&]{ return "status " + std::to_string(b); } );
                        else c.check( a == 7 && ( b == 0 || ( b == 1 && old ) || b == 1000+SIGABRT ), "crash-save:inconsistent-restore", [&]{ return "crash at write " + std::to_string(k) + " torn " + std::to_string(t) + ": save ended " + std::to_string(a) + ", restore ended " + std::to_string(b); } );
                        c.state( mc::mix( mc::mix( k, (mc::u64)(t*100+1000) ), b ) );
                        if ( finished ) break;
                    }
                    if ( finished ) { c.check( k > 2, "crash-save:no-write-was-seen" ); break; }
                }
                unlink( "f" ); unlink( "f.tmp" );
            } );
        }
    for ( auto const& shp : std::vector<std::vector<Shape>>{ { {2,3}, {1} }, { {30,30}, {20,20} } } )
    {
        std::string sn; for ( auto const& s : shp ) sn += str( s ) + ",";
        c.test( "crash-restore|" + tn + "|" + sn, [&]
        {
            std::vector<int> pn( shp.size(), 0 ), px( shp.size(), 5 );
            in_child( [&]{ auto vs = program<V>( shp, pn ); ceras::get_default_session<ceras::tensor<V>>().save( "f" ); return 0; } );
            for ( long k = 1; k < 200; ++k )
            {
                int a = in_child( [&]{ auto vs = program<V>( shp, px ); crash_at = k; writes_seen = 0; torn = 0.4; ceras::get_default_session<ceras::tensor<V>>().restore( "f" ); return 0; } );
                int b = in_child( [&]{ auto vs = program<V>( shp, px ); ceras::get_default_session<ceras::tensor<V>>().restore( "f" ); for ( unsigned i = 0; i < vs.size(); ++i ) if ( !is<V>( vs[i], pattern( i, pn[i], shp[i] ) ) ) return 2; return 0; } ); c.trans( 2 );
                c.check( b == 0, "crash-restore:saved-state-lost", [&]{ return "crash at write " + std::to_string(k) + ": second restore ended " + std::to_string(b); } );
                if ( a == 0 ) { c.check( k > 1, "crash-restore:no-write-was-seen" ); break; }
            }
            unlink( "f" ); unlink( "f.tmp" );
        } );
    }
}
static void explore( mc::Ctx& c ) { typed<float>( c, "float" ); typed<double>( c, "double" ); }
MC_MAIN( explore )
