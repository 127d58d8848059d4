// C03: sharing, deep copies, resizing, destruction and memory recycling of tensors.
// Explicit-state search over a reference model of shared buffers; every transition of the model is replayed on the
// real tensors (fresh objects, whole history), and every tensor is compared after every step.
#include "ceras_mc.hpp"
#include <map>
#include <set>
#include <deque>
#include <new>
using namespace ref;

// fault injection: the next request for exactly this many bytes fails once
static std::size_t fail_bytes = 0;
void* operator new( std::size_t n )
{
    if ( fail_bytes && n == fail_bytes ) { fail_bytes = 0; throw std::bad_alloc{}; }
    void* p = std::malloc( n ? n : 1 ); if ( !p ) throw std::bad_alloc{}; return p;
}
void operator delete( void* p ) noexcept { std::free( p ); }
void operator delete( void* p, std::size_t ) noexcept { std::free( p ); }

// ---------------------------------------------------------------- model
struct Slot { Shape shape; int buf; bool operator<( Slot const& o ) const { return std::tie(shape,buf) < std::tie(o.shape,o.buf); } };
struct Model
{
    Slot s[3];                                   // 0,1: double, 2: float
    std::map<int, std::vector<double>> bufs;     // buffers referenced by some slot
    std::map<unsigned long, int> free_blocks;    // bytes -> released blocks kept for reuse
    int next = 0;
    Model() { for ( int i = 0; i < 3; ++i ) { s[i].buf = next++; bufs[s[i].buf] = {}; } }
    std::vector<double>& d( int i ) { return bufs[s[i].buf]; }
    static unsigned long es( int i ) { return i == 2 ? 4 : 8; }
    void take( unsigned long bytes ) { if ( !bytes ) return; auto it = free_blocks.find( bytes ); if ( it != free_blocks.end() ) { if ( --it->second == 0 ) free_blocks.erase( it ); } }
    void give( unsigned long bytes ) { if ( bytes ) { auto& f = free_blocks[bytes]; if ( f < 2 ) ++f; } }
    void drop( int b, int i )
    {
        for ( int j = 0; j < 3; ++j ) if ( s[j].buf == b ) return;
        give( bufs[b].size()*es(i) ); bufs.erase( b );
    }
    void assign_new( int i, Shape const& sh, std::vector<double> v )
    {
        int old = s[i].buf; take( v.size()*es(i) );
        s[i].shape = sh; s[i].buf = next++; bufs[s[i].buf] = std::move( v ); drop( old, i );
    }
    void share( int i, int j ) { int old = s[i].buf; s[i] = s[j]; if ( old != s[i].buf ) drop( old, i ); }
    void resize( int i, Shape const& sh, double fill )
    {
        auto& v = d(i); unsigned long n = prod(sh);
        if ( v.size() != n ) { give( v.size()*es(i) ); take( n*es(i) ); v.assign( n, fill ); }
        s[i].shape = sh;
    }
    std::string canon() const
    {
        std::ostringstream o; std::map<int,int> ren;
        for ( int i = 0; i < 3; ++i )
        {
            auto r = ren.emplace( s[i].buf, (int)ren.size() ).first->second;
            o << str( s[i].shape ) << "@" << r << ":"; for ( double x : bufs.at( s[i].buf ) ) o << x << ","; o << ";";
        }
        for ( auto& [b,n] : free_blocks ) o << b << "*" << n << " ";
        return o.str();
    }
};

// ---------------------------------------------------------------- operations
struct Op { std::string kind; int i = 0, j = 0; Shape sh; double v = 0;
    std::string name() const { return kind + "(" + std::to_string(i) + "," + std::to_string(j) + (sh.empty()?"":","+str(sh)) + ")"; } };

static std::vector<Op> alphabet()
{
    std::vector<Op> o;
    std::vector<Shape> shp{ {2}, {1,2}, {4}, {3} };
    for ( int i = 0; i < 3; ++i )
    {
        for ( auto& s : shp ) { o.push_back( {"zeros",i,0,s} ); o.push_back( {"resize",i,0,s,5} ); }
        o.push_back( {"init",i,0,{2},7} ); o.push_back( {"init",i,0,{4},7} );
        o.push_back( {"list",i,0,{2}} ); o.push_back( {"list2",i,0,{2}} );
        o.push_back( {"reshape",i,0,{2,1}} ); o.push_back( {"reshape",i,0,{1,2}} ); o.push_back( {"reshape",i,0,{2,2}} );
        o.push_back( {"write",i,0,{},3} ); o.push_back( {"writelast",i,0,{},4} );
        o.push_back( {"reset",i,0,{},6} ); o.push_back( {"destroy",i} ); o.push_back( {"selfdeep",i} ); o.push_back( {"selfassign",i} ); o.push_back( {"selfmemberdeep",i} );
        o.push_back( {"addk",i,0,{},1} ); if ( i != 1 ) o.push_back( {"oom",i} );
    }
    for ( int i = 0; i < 2; ++i ) { int j = 1-i;
        for ( auto k : { "assign", "move", "copyctor", "deep", "freecopy", "memberdeep", "plus", "neg" } ) o.push_back( {k,i,j} ); }
    return o;
}

static bool enabled( Model& m, Op const& o )
{
    auto& di = m.d( o.i );
    if ( o.kind == "reshape" ) return di.size() == prod( o.sh );
    if ( o.kind == "write" || o.kind == "writelast" ) return di.size() > 0;
    if ( o.kind == "reset" || o.kind == "addk" ) return di.size() > 0;
    if ( o.kind == "oom" ) return !m.free_blocks.empty();
    // deep copies need a source whose shape matches its storage (an alias may have resized it away)
    auto consistent = [&]( int k ){ return prod( m.s[k].shape ) == m.d(k).size() || ( m.s[k].shape.empty() && m.d(k).empty() ); };
    if ( o.kind == "deep" || o.kind == "freecopy" || o.kind == "memberdeep" || o.kind == "plus" || o.kind == "neg" )
        return consistent( o.j ) && !m.d(o.j).empty();
    if ( o.kind == "selfdeep" || o.kind == "selfmemberdeep" ) return consistent( o.i ) && !di.empty();
    return true;
}

static void apply( Model& m, Op const& o )
{
    int i = o.i, j = o.j;
    if ( o.kind == "zeros" ) m.assign_new( i, o.sh, std::vector<double>( prod(o.sh), 0 ) );
    else if ( o.kind == "oom" ) m.free_blocks.clear();
    else if ( o.kind == "init" ) m.assign_new( i, o.sh, std::vector<double>( prod(o.sh), o.v ) );
    else if ( o.kind == "list" || o.kind == "list2" ) m.assign_new( i, o.sh, {8,9} );
    else if ( o.kind == "resize" ) m.resize( i, o.sh, o.v );
    else if ( o.kind == "reshape" ) m.s[i].shape = o.sh;
    else if ( o.kind == "write" ) m.d(i).front() = o.v;
    else if ( o.kind == "writelast" ) m.d(i).back() = o.v;
    else if ( o.kind == "reset" ) { for ( auto& x : m.d(i) ) x = o.v; }
    else if ( o.kind == "addk" ) { for ( auto& x : m.d(i) ) x = std::fmod( x + o.v, 10.0 ); }
    else if ( o.kind == "destroy" ) { m.assign_new( i, {}, {} ); }
    else if ( o.kind == "selfdeep" ) { auto v = m.d(i); m.assign_new( i, m.s[i].shape, v ); }
    else if ( o.kind == "selfassign" ) {}
    else if ( o.kind == "selfmemberdeep" ) {}
    else if ( o.kind == "assign" || o.kind == "move" || o.kind == "copyctor" ) m.share( i, j );
    else if ( o.kind == "deep" || o.kind == "freecopy" ) { auto v = m.d(j); m.assign_new( i, m.s[j].shape, v ); }
    else if ( o.kind == "memberdeep" ) { auto v = m.d(j); Shape sh = m.s[j].shape; m.resize( i, sh, 0 ); m.d(i) = v; }
    else if ( o.kind == "plus" ) { auto v = m.d(j); for ( auto& x : v ) x = std::fmod( x*2, 10.0 ); m.assign_new( i, m.s[j].shape, v ); }
    else if ( o.kind == "neg" ) { auto v = m.d(j); for ( auto& x : v ) x = std::fmod( 0-x, 10.0 ); m.assign_new( i, m.s[j].shape, v ); }
    else abort();
}

struct Real { ceras::tensor<double> d[2]; ceras::tensor<float> f; };

template<typename Ts> static void apply_one( mc::Ctx& c, Ts& t, Op const& o )
{
    typedef typename Ts::value_type V;
    if ( o.kind == "zeros" ) t = Ts{ o.sh };
    else if ( o.kind == "oom" )
    {   // a request that misses the cache (a size never used before) fails once: the library must release its cache and retry
        static unsigned long unique = 1000; unsigned long const n = ++unique;
        fail_bytes = n*sizeof(V);
        Ts tmp{ Shape{n} };
        c.check( fail_bytes == 0, "oom:fault-not-injected" ); fail_bytes = 0;
        bool zero = true; for ( auto x : tmp ) zero &= x == 0;
        c.check( zero && tmp.size() == n, "oom:retry-result" );
    }
    else if ( o.kind == "init" ) t = Ts{ o.sh, V(o.v) };
    else if ( o.kind == "list" ) t = Ts{ o.sh, {V(8),V(9)} };
    else if ( o.kind == "list2" ) t = Ts{ {2ul}, {V(8),V(9)} };
    else if ( o.kind == "resize" ) { bool ch = t.size() != prod(o.sh); t.resize( o.sh ); if ( ch ) for ( auto& x : t ) x = V(o.v); }
    else if ( o.kind == "reshape" ) t.reshape( o.sh );
    else if ( o.kind == "write" ) t[0] = V(o.v);
    else if ( o.kind == "writelast" ) *(t.end()-1) = V(o.v);
    else if ( o.kind == "reset" ) t.reset( V(o.v) );
    else if ( o.kind == "addk" ) { t += V(o.v); for ( auto& x : t ) x = std::fmod( x, V(10) ); }
    else if ( o.kind == "destroy" ) t = Ts{};
    else if ( o.kind == "selfdeep" ) t = t.deep_copy();
    else if ( o.kind == "selfmemberdeep" ) t.deep_copy( t );
    else if ( o.kind == "selfassign" ) { auto& u = t; t = u; }
    else abort();
}
static void apply( mc::Ctx& c, Real& r, Op const& o )
{
    if ( o.i == 2 ) { apply_one( c, r.f, o ); return; }
    auto& t = r.d[o.i]; auto& u = r.d[1-o.i];
    if ( o.kind == "assign" ) t = u;
    else if ( o.kind == "move" ) { auto tmp = u; t = std::move( tmp ); }
    else if ( o.kind == "copyctor" ) { ceras::tensor<double> w{ u }; t = w; }
    else if ( o.kind == "deep" ) t = u.deep_copy();
    else if ( o.kind == "freecopy" ) t = ceras::copy( u );
    else if ( o.kind == "memberdeep" ) t.deep_copy( u );
    else if ( o.kind == "plus" ) { t = u + u; for ( auto& x : t ) x = std::fmod( x, 10.0 ); }
    else if ( o.kind == "neg" ) { t = -u; for ( auto& x : t ) x = std::fmod( x, 10.0 ); }
    else apply_one( c, t, o );
}

template<typename Ts> static void compare( mc::Ctx& c, Ts const& t, Model& m, int i, std::string const& tag )
{
    ref::T got = mc::to_r( t ), want( m.s[i].shape, m.d(i) );
    c.check( got.shape == want.shape && got.v == want.v, tag, [&]{ return "tensor " + std::to_string(i) + " is " + str(got) + " expected " + str(want); } );
    c.check( t.ndim() == want.shape.size() && t.size() == want.v.size() && t.empty() == want.v.empty(), tag + ":size" );
}
static void compare( mc::Ctx& c, Real& r, Model& m, std::string const& tag )
{
    compare( c, r.d[0], m, 0, tag ); compare( c, r.d[1], m, 1, tag ); compare( c, r.f, m, 2, tag );
    // storage: shared exactly when the model shares it, otherwise disjoint
    struct R { char const* b; char const* e; int buf; }; R a[3];
    for ( int i = 0; i < 2; ++i ) a[i] = { (char const*)r.d[i].data(), (char const*)(r.d[i].data()+r.d[i].size()), m.s[i].buf };
    a[2] = { (char const*)r.f.data(), (char const*)(r.f.data()+r.f.size()), m.s[2].buf };
    for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < i; ++j )
    {
        if ( a[i].b == a[i].e || a[j].b == a[j].e ) continue;
        if ( a[i].buf == a[j].buf ) c.check( a[i].b == a[j].b, tag + ":not-shared" );
        else c.check( a[i].e <= a[j].b || a[j].e <= a[i].b, tag + ":overlap", [&]{ return "tensors " + std::to_string(i) + " and " + std::to_string(j) + " overlap"; } );
    }
}

static void explore( mc::Ctx& c )
{
    auto const ops = alphabet();
    unsigned const depth = c.thorough ? 4 : 3;
    std::set<std::string> seen; std::deque<std::vector<int>> frontier{ {} };
    auto replay_model = [&]( std::vector<int> const& h ){ Model m; for ( int k : h ) apply( m, ops[k] ); return m; };
    seen.insert( Model{}.canon() );
    while ( !frontier.empty() )
    {
        auto h = frontier.front(); frontier.pop_front();
        Model base = replay_model( h );
        for ( int k = 0; k < (int)ops.size(); ++k )
        {
            if ( !enabled( base, ops[k] ) ) continue;
            Model nm = base; apply( nm, ops[k] );
            auto hist = h; hist.push_back( k );
            std::string cn = nm.canon();
            bool fresh = false;
            if ( hist.size() < depth ) { fresh = seen.insert( cn ).second; if ( fresh ) frontier.push_back( hist ); }
            std::string key = "hist|"; for ( int q : hist ) key += ops[q].name() + " ";
            c.test( key, [&]
            {
                c.state( mc::hash_str( cn ) );
                Real r; Model m;
                for ( int q : hist )
                {
                    apply( m, ops[q] ); apply( c, r, ops[q] ); c.trans();
                    compare( c, r, m, "after-" + ops[q].kind );
                }
                // write through each handle in turn and look at the others
                for ( int i = 0; i < 3; ++i )
                {
                    if ( m.d(i).empty() ) continue;
                    for ( auto& x : m.d(i) ) x = 20+i;
                    if ( i == 2 ) { for ( auto& x : r.f ) x = 20+i; } else { for ( auto& x : r.d[i] ) x = 20+i; }
                    c.trans(); compare( c, r, m, "write-visibility" );
                }
                // a tensor created now reuses a released block if there is one: it must be zero and disjoint
                for ( unsigned long n : { 1ul, 2ul, 3ul, 4ul } )
                {
                    ceras::tensor<double> z{ Shape{n} }; c.trans();
                    bool zero = true; for ( auto x : z ) zero &= x == 0;
                    c.check( zero, "fresh-not-zero" );
                    for ( auto& x : z ) x = 99;
                    compare( c, r, m, "fresh-overlaps" );
                    ceras::tensor<float> y{ Shape{2*n} }; zero = true; for ( auto x : y ) zero &= x == 0;
                    c.check( zero, "fresh-not-zero" );
                    for ( auto& x : y ) x = 98;
                    bool keep = true; for ( auto x : z ) keep &= x == 99;
                    c.check( keep, "fresh-overlaps-fresh" );
                    compare( c, r, m, "fresh-overlaps" );
                }
            } );
        }
    }
    // type conversion keeps shape and values and owns its storage; scalars
    for ( auto const& s : shapes( 3, 3 ) )
        c.test( "as_type|" + str(s), [&]
        {
            auto d = mc::to_c<double>( fill( s, 3, 4 ) ); auto rd = mc::to_r( d );
            auto f = d.template as_type<float>(); auto i = d.template as_type<int>(); c.trans( 2 );
            ref::T rf = rd, ri = rd; for ( auto& x : rf.v ) x = (float)x; for ( auto& x : ri.v ) x = (int)x;
            mc::same( c, mc::to_r(f), rf, "as_type:float", 0 ); mc::same( c, mc::to_r(i), ri, "as_type:int", 0 );
            for ( auto& x : f ) x = 1; mc::same( c, mc::to_r(d), rd, "as_type:source-modified", 0 );
            c.state( hash( rf ) );
        } );
    // every size: blocks released at one size are asked for at neighbouring sizes and other element types; all live tensors keep their values and stay apart
    std::vector<unsigned long> sizes; for ( unsigned long n = 1; n <= (c.thorough ? 300ul : 80ul); ++n ) sizes.push_back( n );
    for ( unsigned long p = 7; p <= (c.thorough ? 17u : 13u); ++p ) for ( long d = -2; d <= 2; ++d ) sizes.push_back( (1ul<<p)+d );
    for ( unsigned long p = 14; p <= (c.thorough ? 20u : 18u); ++p ) sizes.push_back( (1ul<<p)+1 );
    for ( unsigned long n : sizes ) for ( int pattern = 0; pattern < 4; ++pattern )
        c.test( "size|" + std::to_string( n ) + "|" + std::to_string( pattern ), [&]
        {
            struct Live { char const* b; char const* e; std::function<bool()> ok; }; std::vector<Live> live; std::vector<std::function<void()>> keep;
            int serial = 0;
            auto settle = [&]( char const* tag )
            {
                for ( auto& l : live ) c.check( l.ok(), std::string( tag ) + ":disturbed" );
                for ( std::size_t i = 0; i < live.size(); ++i ) for ( std::size_t j = 0; j < i; ++j ) c.check( live[i].e <= live[j].b || live[j].e <= live[i].b, std::string( tag ) + ":overlap" );
            };
            auto make = [&]<typename V>( V, unsigned long m )
            {
                if ( !m ) return;
                auto t = std::make_shared<ceras::tensor<V>>( Shape{m} ); c.trans(); bool zero = true; for ( auto x : *t ) zero &= x == V(0); c.check( zero, "size:fresh-not-zero" );
                V const v = V( ++serial % 100 + 1 ); for ( auto& x : *t ) x = v;
                live.push_back( { (char const*)t->data(), (char const*)(t->data()+m), [t,v,m]{ bool ok = t->size() == m; for ( auto x : *t ) ok &= x == v; return ok; } } );
            };
            auto round = [&]{ for ( unsigned long m : { n, n+1, n-1, 2*n, (n+1)/2 } ) { make( 0.0, m ); make( 0.0f, m ); } make( char(0), n ); make( char(0), 8*n ); make( 0L, n ); };
            round(); settle( "size" );
            if ( pattern == 0 ) live.clear();
            else if ( pattern == 1 ) { for ( std::size_t i = 0; i < live.size(); ++i ) live.erase( live.begin()+i ); }
            else if ( pattern == 2 ) { live.erase( live.begin(), live.begin()+live.size()/2 ); }
            else while ( live.size() > 3 ) live.pop_back();
            round(); settle( "size-again" );
            // shrink and grow one tensor through the neighbouring sizes
            ceras::tensor<double> w{ Shape{n}, 5.0 }; auto alias = w;
            for ( unsigned long m : { n+1, n, 2*n, n, 3*n, (n+1)/2, n } ) { w.resize( { m } ); for ( auto& x : w ) x = 6; c.trans(); c.check( w.size() == m && alias.size() == m && alias.data() == w.data(), "size:resize" ); settle( "size-resize" ); }
            auto d = w.deep_copy(); for ( auto& x : w ) x = 8; bool six = d.size() == n; for ( auto x : d ) six &= x == 6; c.check( six, "size:deep-copy" );
            settle( "size-end" ); c.state( mc::mix( n, pattern ) );
        } );
    // many live tensors at once, released in several orders and made again
    for ( unsigned long count : { 3ul, 17ul, 70ul, 300ul } ) for ( int order = 0; order < 5; ++order ) for ( unsigned long n : { 1ul, 6ul, 33ul } )
        c.test( "many|" + std::to_string( count ) + "|" + std::to_string( order ) + "|" + std::to_string( n ), [&]
        {
            std::vector<ceras::tensor<float>> t; std::vector<float> want;
            auto fillup = [&]{ while ( t.size() < count ) { t.push_back( ceras::tensor<float>{ Shape{n} } ); c.trans(); bool zero = true; for ( auto x : t.back() ) zero &= x == 0; c.check( zero, "many:fresh-not-zero" ); want.push_back( want.size() + 1.0f ); for ( auto& x : t.back() ) x = want.back(); } };
            auto settle = [&]( char const* tag ){ std::set<void const*> at; for ( std::size_t i = 0; i < t.size(); ++i ) { bool ok = t[i].size() == n; for ( auto x : t[i] ) ok &= x == want[i]; c.check( ok, std::string( tag ) + ":disturbed" ); at.insert( t[i].data() ); } c.check( at.size() == t.size(), std::string( tag ) + ":overlap" ); };
            fillup(); settle( "many" );
            for ( int round = 0; round < 3; ++round )
            {
                std::vector<ceras::tensor<float>> t2; std::vector<float> w2;
                for ( std::size_t i = 0; i < t.size(); ++i ) { bool drop = order == 0 ? i%2 : order == 1 ? i%2==0 : order == 2 ? i < t.size()/2 : order == 3 ? i >= t.size()/2 : i%3 != 0; if ( !drop ) { t2.push_back( t[i] ); w2.push_back( want[i] ); } }
                t = t2; t2.clear(); want = w2; settle( "many-release" );
                fillup(); for ( std::size_t i = 0; i < t.size(); ++i ) { want[i] = i + 1000.0f*round; for ( auto& x : t[i] ) x = want[i]; }
                settle( "many-again" );
            }
            auto copies = t; std::vector<ceras::tensor<float>> deep; for ( auto& x : t ) deep.push_back( x.deep_copy() );
            for ( auto& x : t ) for ( auto& y : x ) y += 0.5f;
            for ( std::size_t i = 0; i < t.size(); ++i ) { c.check( copies[i].data() == t[i].data() && copies[i][n-1] == want[i]+0.5f, "many:copy" ); c.check( deep[i][n-1] == want[i], "many:deep" ); }
            c.state( mc::mix( count, order*100+n ) );
        } );
    // every rank: short shapes and ones beyond any fixed room for extents
    for ( unsigned long rank = 1; rank <= 40; ++rank ) c.test( "rank|" + std::to_string( rank ), [&]
    {
        Shape sh( rank, 1 ); sh[0] = 2; sh[rank/2] = 3; sh[rank-1] = rank > 2 ? 2 : sh[rank-1]; unsigned long const n = prod( sh ); Shape other( rank, 1 ); other[rank-1] = n;
        std::vector<ceras::tensor<double>> live; std::vector<std::pair<Shape,double>> want; c.trans();
        auto settle = [&]( char const* tag ){ for ( unsigned long i = 0; i < live.size(); ++i ) { bool ok = live[i].shape() == want[i].first && live[i].ndim() == want[i].first.size(); for ( unsigned long k = 0; k < n; ++k ) ok = ok && live[i][k] == want[i].second+k; c.check( ok, std::string( "rank:" )+tag, [&]{ return "tensor " + std::to_string( i ) + " " + str( live[i].shape() ); } ); } };
        auto make = [&]( Shape const& q, double base ){ ceras::tensor<double> t{ q }; bool zero = true; for ( auto x : t ) zero = zero && x == 0; c.check( zero && t.size() == n, "rank:fresh" ); for ( unsigned long k = 0; k < n; ++k ) t[k] = base+k; return t; };
        for ( int i = 0; i < 4; ++i ) { live.push_back( make( i%2 ? other : sh, 100*i ) ); want.push_back( { i%2 ? other : sh, 100*i } ); settle( "create" ); }
        live.push_back( live[0] ); want.push_back( want[0] ); live.push_back( live[1].deep_copy() ); want.push_back( want[1] ); settle( "copy" );
        { auto t = std::move( live[2] ); live[2] = live[3]; live[3] = std::move( t ); std::swap( want[2], want[3] ); settle( "exchange" ); }
        for ( auto& x : live[5] ) x += 1000; want[5].second += 1000; settle( "write-deep" ); for ( auto& x : live[4] ) x += 500; want[4].second += 500; want[0].second += 500; settle( "write-copy" );
        live[1].reshape( { n } ); want[1].first = { n }; settle( "reshape-short" ); live[1].reshape( sh ); want[1].first = sh; settle( "reshape-long" );
        { auto t = live[3]; live[3] = make( { n }, 7 ); want[3] = { { n }, 7 }; settle( "replace" ); live[3] = t; want[3] = { sh, 200 }; }
        settle( "replace-back" ); live.erase( live.begin() ); want.erase( want.begin() ); settle( "erase" ); live[0].resize( other ); live[0].resize( sh ); want[0].first = sh; settle( "resize-same-size" ); c.state( rank );
    } );
    // the free functions give the same elements, the same storage and the same effects as the members, for every shape and element type
    auto free_functions = [&]<typename V>( V, char const* name )
    {
        for ( auto const& s : shapes( 3, 3 ) ) c.test( std::string( "free|" ) + name + "|" + str( s ), [&]
        {
            unsigned long const n = prod( s ); ceras::tensor<V> t{ s }; for ( unsigned long k = 0; k < n; ++k ) t[k] = V( k+1 );
            ceras::tensor<V> const ct = t; c.trans( 8 );
            auto const seq = [&]( char const* tag, auto b, auto e, bool back ){ unsigned long k = 0; bool ok = true; for ( ; b != e && k < n; ++b, ++k ) ok = ok && *b == V( back ? n-k : k+1 ); c.check( ok && k == n && b == e, std::string( "free:" )+tag ); };
            seq( "begin", ceras::begin( t ), ceras::end( t ), false ); seq( "const-begin", ceras::begin( ct ), ceras::end( ct ), false ); seq( "cbegin", ceras::cbegin( ct ), ceras::cend( ct ), false );
            seq( "rbegin", ceras::rbegin( t ), ceras::rend( t ), true ); seq( "const-rbegin", ceras::rbegin( ct ), ceras::rend( ct ), true ); seq( "crbegin", ceras::crbegin( ct ), ceras::crend( ct ), true );
            seq( "member-rbegin", t.rbegin(), t.rend(), true ); seq( "member-crbegin", ct.crbegin(), ct.crend(), true ); seq( "member-cbegin", t.cbegin(), t.cend(), false );
            c.check( ceras::size( t ) == n && ceras::ndim( t ) == s.size() && ceras::shape( t ) == s && !ceras::empty( t ) && ceras::empty( ceras::tensor<V>{} ), "free:shape" );
            c.check( ceras::data( t ) == t.data() && ceras::data( ct ) == t.data(), "free:data" );
            c.check( ceras::front( ct ) == V(1) && ceras::back( ct ) == V(n), "free:front-back" );
            auto const own = t.copy(); auto const dup = ceras::deep_copy( t ); auto const cast = ceras::template as_type<ceras::tensor<V>, double>( t );
            ceras::tensor<V> into{ Shape{ 2 } }; into.deep_copy( t );
            ceras::back( t ) = V(50); ceras::front( t ) = V(60); // writes reach the tensor and all of its handles, none of its copies
            c.check( t[n-1] == ( n == 1 ? V(60) : V(50) ) && ct[0] == V(60) && t.data() == ct.data(), "free:reference" );
            auto const kept = [&]( auto const& x ){ bool ok = x.shape() == s && (void const*)x.data() != (void const*)t.data(); for ( unsigned long k = 0; k < n; ++k ) ok = ok && x[k] == k+1; return ok; };
            c.check( kept( own ), "free:copy" ); c.check( kept( dup ), "free:deep_copy" ); c.check( kept( cast ), "free:as_type" ); c.check( kept( into ), "free:deep-copy-into" );
            // element-wise functions, in place or by value
            auto const all = [&]( auto const& x, V base, V step ){ bool ok = true; for ( unsigned long k = 0; k < n; ++k ) ok = ok && x[k] == V( base + step*V(k) ); return ok; };
            for ( unsigned long k = 0; k < n; ++k ) t[k] = V( k );
            ceras::map( t, []( auto& x ){ x = V( x*2 ); } ); c.check( all( t, 0, 2 ), "free:map-in-place" );
            ceras::map( t, []( V x ){ return V( x+1 ); } ); c.check( all( t, 1, 2 ), "free:map-by-value" );
            t.map( []( V x ){ return V( x-1 ); } ).map( []( V& x ){ x = V( x+3 ); } ); c.check( all( ct, 3, 2 ), "free:map-chain" );
            unsigned long seen = 0; bool order = true; ct.deep_copy(); ceras::for_each( t.begin(), t.end(), [&]( V& x ){ ++seen; order = order && x >= 3; } ); c.check( seen == n && order, "free:for_each" );
            { auto u = ceras::reshape( t, { n, 1 } ); c.check( t.shape() == Shape( { n, 1 } ) && u.shape() == t.shape() && all( t, 3, 2 ) && ct.shape() == s, "free:reshape" ); }
            { auto& u = ceras::reset( t, V(4) ); c.check( &u == &t && all( t, 4, 0 ) && all( ct, 4, 0 ), "free:reset" ); } ceras::reset( t ); c.check( all( t, 0, 0 ), "free:reset-zero" );
            { ceras::tensor<V> w = dup.deep_copy(); ceras::resize( w, { n+1 } ); bool ok = w.size() == n+1 && w.ndim() == 1; for ( auto& x : w ) x = V(9); c.check( ok && kept( dup ), "free:resize" ); }
            c.state( mc::mix( n, s.size() ) );
        } );
    };
    free_functions( float(), "float" ); free_functions( double(), "double" ); free_functions( int(), "int" ); free_functions( (unsigned char)0, "byte" );
    c.test( "scalar|as_tensor", [&]{ for ( double v : { -1.5, 0.0, 3.0 } ) { auto t = ceras::as_tensor( v ); c.trans(); c.check( t.size()==1 && t.as_scalar()==v && t.shape()==Shape{1}, "as_tensor" ); } } );
}
MC_MAIN( explore )
