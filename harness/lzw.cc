// C07: LZW compression round trip and truncation detection
#include "ceras_mc.hpp"
#include <map>
#include <set>

static std::string comp( std::string const& s ) { std::stringstream a( s ), b; lzw::compress( a, b ); return b.str(); }
static int decomp( std::string const& z, std::string& out ) { std::stringstream a( z ), b; int r = lzw::decompress( a, b ); out = b.str(); return r; }

static void round( mc::Ctx& c, std::string const& s )
{
    std::string z = comp( s ), back; c.trans( 2 );
    int r = -2; bool rej = mc::rejects( [&]{ r = decomp( z, back ); } );
    c.check( !rej && r == 0, "round-trip:status", [&]{ return "decompress of its own output reported an error, input length " + std::to_string( s.size() ); } );
    c.check( back == s, "round-trip:bytes", [&]{ std::size_t i = 0; while ( i < s.size() && i < back.size() && s[i] == back[i] ) ++i; return "length " + std::to_string( s.size() ) + " -> " + std::to_string( back.size() ) + ", first difference at " + std::to_string( i ); } );
    c.state( mc::hash_str( z ) );
}
static void cuts( mc::Ctx& c, std::string const& s, std::size_t step = 1 )
{
    std::string z = comp( s );
    for ( std::size_t n = 0; n < z.size(); n += step )
    {
        // the stream is ended either by a string buffer or by a file; both give end-of-file at n
        std::string back; int r = 0; c.trans();
        bool rej = mc::rejects( [&]{ r = decomp( z.substr( 0, n ), back ); } );
        c.check( rej || r != 0, "truncation:accepted", [&]{ return "input length " + std::to_string( s.size() ) + ", compressed " + std::to_string( z.size() ) + " bytes, cut to " + std::to_string( n ) + " was accepted as complete and gave " + std::to_string( back.size() ) + " bytes"; } );
    }
}
static std::string lcg( std::size_t n, unsigned al, unsigned seed )
{
    std::string s; s.reserve( n ); std::uint64_t x = seed*2654435761u + 1;
    for ( std::size_t i = 0; i < n; ++i ) { x = x*6364136223846793005ULL + 1442695040888963407ULL; s += (char)( (x>>33) % al ); }
    return s;
}
// several structured families; every prefix length is a case
static std::string family( int f, std::size_t n )
{
    std::string s;
    switch ( f )
    {
        case 0: return lcg( n, 256, 1 );
        case 1: return std::string( n, 'a' );                                             // code = next free code again and again
        case 2: for ( std::size_t i = 0; s.size() < n; ++i ) { s += (char)(i/256); s += (char)i; } s.resize( n ); return s;
        case 3: return lcg( n, 2, 3 );
        case 4: for ( std::size_t i = 1; s.size() < n; ++i ) s += std::string( i, (char)(i%7 - 3) ); s.resize( n ); return s;
        default: for ( std::size_t i = 0; s.size() < n; ++i ) { char b[40]; s.append( b, snprintf( b, sizeof b, "%g ", std::sin( (double)i ) ) ); } s.resize( n ); return s;   // like a saved tensor
    }
}
// number of input bytes after which a straightforward LZW dictionary (257 initial entries) has grown to a given size
static std::vector<std::size_t> growth( std::string const& s, std::vector<std::size_t> const& sizes )
{
    std::map<std::pair<unsigned,unsigned char>,unsigned> d; unsigned next = 257; long i = -1; std::vector<std::size_t> r;
    for ( std::size_t p = 0; p < s.size(); ++p )
    {
        unsigned char ch = s[p];
        if ( i < 0 ) { i = ch; continue; }
        auto it = d.find( { (unsigned)i, ch } );
        if ( it != d.end() ) i = it->second;
        else { d[{ (unsigned)i, ch }] = next++; i = ch; if ( r.size() < sizes.size() && next == sizes[r.size()] ) r.push_back( p ); if ( r.size() == sizes.size() ) break; }
    }
    return r;
}
static std::string esc( std::string const& s ) { std::string o; char b[4]; for ( unsigned char ch : s ) { snprintf( b, sizeof b, "%02x", ch ); o += b; } return o; }

static void explore( mc::Ctx& c )
{
    // every string over a small alphabet
    struct A { std::vector<char> sym; unsigned len; };
    std::vector<A> as{ { { 'a', 'b' }, c.thorough ? 13u : 9u }, { { (char)0, 'x', (char)0xff }, c.thorough ? 8u : 5u }, { { (char)0x80, (char)0x7f, '\n', (char)0x1a }, c.thorough ? 6u : 4u } };
    std::set<std::string> seen;
    for ( auto const& a : as ) for ( unsigned n = 0; n <= a.len; ++n )
    {
        unsigned long tot = 1; for ( unsigned i = 0; i < n; ++i ) tot *= a.sym.size();
        for ( unsigned long k = 0; k < tot; ++k )
        {
            std::string s; unsigned long q = k; for ( unsigned i = 0; i < n; ++i ) { s += a.sym[q%a.sym.size()]; q /= a.sym.size(); }
            if ( !seen.insert( s ).second ) continue;
            c.test( "all|" + esc( s ), [&]{ round( c, s ); if ( n <= (c.thorough ? 6u : 4u) ) cuts( c, s ); } );
        }
    }
    for ( int i = 0; i < 256; ++i )
        c.test( "byte|" + std::to_string( i ), [&]
        {
            round( c, std::string( 1, (char)i ) ); cuts( c, std::string( 1, (char)i ) );
            for ( int j = 0; j < 256; j += c.thorough ? 1 : 5 ) { std::string s; s += (char)i; s += (char)j; round( c, s ); round( c, s + s + s ); }
        } );
    // every prefix length of structured families, across the code-width changes
    for ( int f = 0; f < 6; ++f ) for ( std::size_t n = 0; n <= ( c.thorough ? 9000u : 1300u ); n += 1 )
        c.test( "prefix|" + std::to_string( f ) + "|" + std::to_string( n ), [&]{ round( c, family( f, n ) ); } );
    // truncation of longer streams
    for ( int f = 0; f < 6; ++f ) for ( std::size_t n : { std::size_t(40), std::size_t(255), std::size_t(256), std::size_t(257), std::size_t(300), std::size_t(511), std::size_t(700), std::size_t(1100) } )
        for ( unsigned part = 0; part < 1; ++part )
            c.test( "cut|" + std::to_string( f ) + "|" + std::to_string( n ), [&]{ cuts( c, family( f, n ) ); } );
    if ( c.thorough )
        for ( int f = 0; f < 6; ++f ) for ( std::size_t n = 1; n < 1300; n += 7 ) c.test( "cut-more|" + std::to_string( f ) + "|" + std::to_string( n ), [&]{ cuts( c, family( f, n ) ); } );
    for ( int f : { 0, 2, 5 } ) for ( std::size_t n : { std::size_t(9000), std::size_t(40000) } )
        c.test( "cut-long|" + std::to_string( f ) + "|" + std::to_string( n ), [&]{ cuts( c, family( f, n ), c.thorough ? 1 + n/2000 : 1 + n/100 ); } );
    // every code width and the dictionary restart: lengths bracketing the moment the dictionary reaches each size
    for ( int f : { 0, 2 } )
    {
        std::vector<std::size_t> sizes; for ( int b = 9; b <= 20; ++b ) for ( long d = -2; d <= 2; ++d ) sizes.push_back( (1ul<<b)+d );
        std::vector<std::size_t> at;
        bool done = false;
        for ( std::size_t k = 0; k < sizes.size(); ++k )
            for ( int d = -1; d <= 2; ++d )
            {
                if ( !c.thorough && ( sizes[k] >= 32000 && ( d == -1 || d == 2 || f == 2 || sizes[k] < 1000000 ) ) ) continue;
                c.test( "width|" + std::to_string( f ) + "|" + std::to_string( sizes[k] ) + "|" + std::to_string( d ), [&]
                {
                    if ( !done ) { at = growth( family( f, f == 0 ? 2600000 : 2300000 ), sizes ); done = true; }
                    if ( k >= at.size() ) { c.check( true, "skip" ); return; }
                    round( c, family( f, at[k] + 1 + d ) );
                } );
            }
        for ( std::size_t extra : { std::size_t(300), std::size_t(5000) } )
            c.test( "after-restart|" + std::to_string( f ) + "|" + std::to_string( extra ), [&]
            {
                if ( !done ) { at = growth( family( f, f == 0 ? 2600000 : 2300000 ), sizes ); done = true; }
                round( c, family( f, ( at.empty() ? 1000 : at.back() ) + extra ) );
            } );
    }
    for ( int f : { 0, 2, 3, 5 } ) if ( c.thorough ) c.test( "two-restarts|" + std::to_string( f ), [&]{ round( c, family( f, 9000000 ) ); } );
}
MC_MAIN( explore )
