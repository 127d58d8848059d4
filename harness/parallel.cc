// C22 (loops): every interleaving of the worker threads of parallel / for_each within a bound of delays (small loops: every schedule), for every
// range, number of cores, threshold and index type in bounds.
#include "ceras_mc.hpp"
#include "sched.hpp"
using namespace mc;

// depth-first exploration of schedules: the same body is run once per schedule
namespace
{
    struct Choice { int taken, n; };
    std::vector<Choice> path; unsigned long pos = 0; int bound = 0, spent = 0;
    // the k-th alternative costs k delays (delay-bounded scheduling); a bound of 99 is never reached: all schedules
    int choose( int n, bool )
    {
        if ( pos == path.size() ) path.push_back( { 0, std::min( n, bound-spent+1 ) } );
        auto& p = path[pos++]; spent += p.taken; return p.taken;
    }
    // runs f under every schedule with at most b delays; returns the number of schedules
    template<typename F> unsigned long schedules( int b, unsigned long limit, bool& complete, F const& f )
    {
        bound = b; path.clear(); unsigned long n = 0; complete = true; sched::control.choose = choose;
        for ( ;; )
        {
            pos = 0; spent = 0; sched::reset( sched::explore ); ++n; if ( !f() ) break;
            while ( !path.empty() && path.back().taken+1 >= path.back().n ) path.pop_back();
            if ( path.empty() ) break;
            ++path.back().taken;
            if ( n >= limit ) { complete = false; break; }
        }
        return n;
    }
    std::string show() { std::string s; for ( auto const& p : path ) if ( p.n > 1 ) s += std::to_string( p.taken ); return s; }
}

struct Watch { std::vector<int> begun, ended; std::vector<int> order; bool outside = false; bool foreign = false; void reset( unsigned long n ) { begun.assign( n, 0 ); ended.assign( n, 0 ); order.clear(); outside = false; } };
static Watch w;

// `call` starts the loop over [first,last); indices are reported through visit(index)
template<typename Call> static void one( Ctx& c, std::string const& key, unsigned long first, unsigned long last, int bound_, Call const& call )
{
    c.test( key, [&]
    {
        bool complete; unsigned long const n = last > first ? last-first : 0;
        unsigned long const count = schedules( bound_, c.thorough ? 400000 : 40000, complete, [&]
        {
            w.reset( n ); call(); c.trans();
            // at the moment the loop has returned
            std::string bad;
            if ( sched::control.live ) bad = "returned while workers were alive";
            for ( unsigned long i = 0; i < n && bad.empty(); ++i ) { if ( w.begun[i] != 1 ) bad = "index " + std::to_string( first+i ) + " was visited " + std::to_string( w.begun[i] ) + " times"; else if ( w.ended[i] != 1 ) bad = "returned before the call for index " + std::to_string( first+i ) + " had finished"; }
            if ( w.outside ) bad = "an index outside of the range was visited";
            if ( sched::control.races ) bad = std::string( "race: " ) + sched::control.race;
            mc::u64 h = 7; for ( int i : w.order ) h = mix( h, i ); c.state( h );
            return c.check( bad.empty(), "parallel:" + std::string( sched::control.races ? "race" : w.outside ? "outside" : sched::control.live ? "workers-left" : "visits" ), [&]{ return bad + " under schedule " + show(); } );
        } );
        c.check( complete, "explorer:schedule-limit", [&]{ return std::to_string( count ); } );
    } );
}
static void visit( unsigned long i, unsigned long first, unsigned long n )
{
    sched::Quiet q; if ( i < first || i-first >= n ) { w.outside = true; return; }
    ++w.begun[i-first]; w.order.push_back( (int)( i-first )*64 + sched::self() ); sched::yield(); ++w.ended[i-first];
}
template<typename I> static void loops( Ctx& c, std::string const& type, unsigned long top, bool narrow = true )
{
    for ( unsigned int cores : { 1u, 2u, 3u, 4u, 5u, 8u, 16u, 100u } ) for ( unsigned long first : { 0ul, 1ul, 3ul, 7ul, 40ul, top } ) for ( unsigned long n = 0; n <= ( c.thorough ? 40 : 26 ); ++n ) for ( unsigned long th : { 0ul, 1ul, 8ul, 9ul } )
    {
        if ( first == top && first < n ) continue;
        unsigned long const from = first == top ? top-n : first;       // ranges ending at the largest value
        if ( from+n > top ) continue;
        unsigned long const workers = n <= th || cores == 1 ? 0 : n <= cores ? n : cores-1, size = workers*n;
        int b = size <= 13 ? 99 : size <= 60 ? 3 : size <= ( c.thorough ? 400 : 150 ) ? 2 : 1; if ( c.thorough && size > 13 && size <= 28 ) b = 4; if ( narrow && b != 99 ) --b;
        one( c, type + "|cores " + std::to_string( cores ) + "|" + std::to_string( from ) + "+" + std::to_string( n ) + "|threshold " + std::to_string( th ), from, from+n, b, [&]
        {
            mc::cores = cores; ceras::parallel( [from,n]( I i ){ visit( i, from, n ); }, I( from ), I( from+n ), th );
        } );
    }
}
static void explore( Ctx& c )
{
    loops<unsigned long>( c, "unsigned long", 1ul<<40, false );
    loops<unsigned int>( c, "unsigned int", 0xfffffffful );
    loops<unsigned short>( c, "unsigned short", 0xfffful );
    loops<unsigned char>( c, "unsigned char", 0xfful );
    // the short form
    for ( unsigned int cores : { 1u, 2u, 3u, 16u } ) for ( unsigned long n = 0; n <= 20; ++n )
        one( c, "from 0|cores " + std::to_string( cores ) + "|" + std::to_string( n ), 0, n, 1, [&]{ mc::cores = cores; ceras::parallel( [n]( unsigned long i ){ visit( i, 0, n ); }, n ); } );
    // for_each over one to four sequences
    for ( unsigned int cores : { 1u, 2u, 3u, 16u } ) for ( unsigned long n = 0; n <= ( c.thorough ? 30 : 20 ); ++n ) for ( int k = 1; k <= 4; ++k )
    {
        std::vector<long> const a( [n]{ std::vector<long> v( n ); for ( unsigned long i = 0; i < n; ++i ) v[i] = i; return v; }() ); std::vector<long> x, y, z;
        auto expect = [&]( int k ){ bool ok = true; for ( unsigned long i = 0; i < n; ++i ) ok = ok && ( k < 2 || x[i] == (long)i*3+1 ) && ( k < 3 || y[i] == (long)i*5+2 ) && ( k < 4 || z[i] == (long)i+7 ); return ok; };
        bool right = true;
        one( c, "for_each " + std::to_string( k ) + "|cores " + std::to_string( cores ) + "|" + std::to_string( n ), 0, n, 1, [&]
        {
            mc::cores = cores; x.assign( n, -1 ); y.assign( n, -1 ); z.assign( n, -1 );
            if ( k == 1 ) ceras::for_each( a.begin(), a.end(), [n]( long i ){ visit( i, 0, n ); } );
            if ( k == 2 ) ceras::for_each( a.begin(), a.end(), x.begin(), [n]( long i, long& p ){ p = i*3+1; visit( i, 0, n ); } );
            if ( k == 3 ) ceras::for_each( a.begin(), a.end(), x.begin(), y.begin(), [n]( long i, long& p, long& q ){ p = i*3+1; q = i*5+2; visit( i, 0, n ); } );
            if ( k == 4 ) ceras::for_each( a.begin(), a.end(), x.begin(), y.begin(), z.begin(), [n]( long i, long& p, long& q, long& r ){ p = i*3+1; q = i*5+2; r = i+7; visit( i, 0, n ); } );
            right = right && expect( k ); c.check( expect( k ), "for_each:operands", "operands were not matched by position" );
        } );
    }
}
MC_MAIN( explore )
