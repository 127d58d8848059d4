// C27: the readers of image data sets: every combination of small record counts, every truncation point of every file,
// every missing file, every label value.
#include "ops.hpp"
#include "dataset.hpp"
#include <filesystem>
#include <fstream>
using namespace mc; namespace fs = std::filesystem;
typedef unsigned char u8; typedef std::vector<u8> Bytes;
static Bytes header( unsigned magic, unsigned long n, bool image )
{
    Bytes r; auto word = [&]( unsigned long x ){ for ( int k = 24; k >= 0; k -= 8 ) r.push_back( ( x>>k )&255 ); };
    word( magic ); word( n ); if ( image ) { word( 28 ); word( 28 ); } return r;
}
static u8 pixel( unsigned long i, int salt ) { return (u8)( ( i*73 + ( i/784 )*29 + ( i/28 )*7 + salt*101 ) % 256 ); }
static u8 label( unsigned long i, int salt ) { return (u8)( ( i*7+salt*3 )%10 ); }
static Bytes images( unsigned long n, int salt ) { Bytes b = header( 0x803, n, true ); for ( unsigned long i = 0; i < n*784; ++i ) b.push_back( pixel( i, salt ) ); return b; }
static Bytes labels( unsigned long n, int salt ) { Bytes b = header( 0x801, n, false ); for ( unsigned long i = 0; i < n; ++i ) b.push_back( label( i, salt ) ); return b; }
static char const* const names[4] = { "train-images-idx3-ubyte", "train-labels-idx1-ubyte", "t10k-images-idx3-ubyte", "t10k-labels-idx1-ubyte" };
static void put( std::string const& dir, int k, Bytes const& b, unsigned long n ) { std::ofstream o( dir+"/"+names[k], std::ios::binary ); o.write( (char const*)b.data(), n ); }
static void put( std::string const& dir, int k, Bytes const& b ) { put( dir, k, b, b.size() ); }
struct Dir
{
    std::string name; Dir( std::string const& n ) : name( n ) { fs::create_directory( name ); }
    ~Dir() { std::error_code e; for ( auto n : names ) fs::remove( name+"/"+n, e ); fs::remove( name, e ); }
};
static bool same( ceras::tensor<std::uint8_t> const& t, std::vector<unsigned long> const& shape, std::function<u8( unsigned long )> const& f )
{
    if ( t.shape() != shape ) return false;
    for ( unsigned long i = 0; i < t.size(); ++i ) if ( t[i] != f( i ) ) return false;
    return true;
}
static void explore( Ctx& c )
{
    for ( int reader = 0; reader < 2; ++reader )
    {
        std::string const R = reader ? "fashion|" : "mnist|"; auto load = [reader]( std::string const& d ){ return reader ? ceras::dataset::fashion_mnist::load_data( d ) : ceras::dataset::mnist::load_data( d ); };
        unsigned long const most = c.thorough ? 12 : 5;
        for ( unsigned long n = 1; n <= most; ++n ) for ( unsigned long m = 1; m <= most; ++m ) c.test( R + "records|" + std::to_string( n ) + "," + std::to_string( m ), [&]
        {
            Dir d( "d.records" ); put( d.name, 0, images( n, 1 ) ); put( d.name, 1, labels( n, 2 ) ); put( d.name, 2, images( m, 3 ) ); put( d.name, 3, labels( m, 4 ) );
            auto const [x, y, u, v] = load( d.name );
            auto hot = []( int salt ){ return [salt]( unsigned long i ){ return (u8)( label( i/10, salt ) == i%10 ); }; }; auto pix = []( int salt ){ return [salt]( unsigned long i ){ return pixel( i, salt ); }; };
            c.check( same( x, { n, 28, 28 }, pix( 1 ) ), "training images", "" ); c.check( same( y, { n, 10 }, hot( 2 ) ), "training labels", "" );
            c.check( same( u, { m, 28, 28 }, pix( 3 ) ), "test images", "" ); c.check( same( v, { m, 10 }, hot( 4 ) ), "test labels", "" ); c.trans( 4 ); c.state( mix( n, m ) );
        } );
        // many records: counts that need two and three bytes of the header
        for ( unsigned long n : { 255ul, 256ul, 257ul, 511ul, 1000ul } ) c.test( R + "many|" + std::to_string( n ), [&]
        {
            Dir d( "d.many" ); put( d.name, 0, images( n, 1 ) ); put( d.name, 1, labels( n, 2 ) ); put( d.name, 2, images( 1, 3 ) ); put( d.name, 3, labels( 1, 4 ) );
            auto const [x, y, u, v] = load( d.name ); c.check( same( x, { n, 28, 28 }, []( unsigned long i ){ return pixel( i, 1 ); } ), "training images", "" );
            c.check( same( y, { n, 10 }, []( unsigned long i ){ return (u8)( label( i/10, 2 ) == i%10 ); } ), "training labels", "" ); c.trans( 2 ); c.state( n );
        } );
        c.test( R + "labels only", [&]
        {
            // one file of labels with 70000 records
            Dir d( "d.labels" ); put( d.name, 0, images( 1, 1 ) ); put( d.name, 1, labels( 70000, 2 ) ); put( d.name, 2, images( 1, 3 ) ); put( d.name, 3, labels( 1, 4 ) );
            auto const [x, y, u, v] = load( d.name ); c.check( same( y, { 70000, 10 }, []( unsigned long i ){ return (u8)( label( i/10, 2 ) == i%10 ); } ), "training labels", "" ); c.trans( 1 );
        } );
        for ( int file = 0; file < 4; ++file )
        {
            unsigned long const n = 2; Bytes const all[4] = { images( n, 1 ), labels( n, 2 ), images( n, 3 ), labels( n, 4 ) };
            unsigned long const step = 99;
            for ( unsigned long from = 0; from < all[file].size(); from += step ) c.test( R + "truncated|" + std::to_string( file ) + "|" + std::to_string( from ), [&]
            {
                Dir d( "d.cut" ); for ( int k = 0; k < 4; ++k ) put( d.name, k, all[k] );
                for ( unsigned long at = from; at < std::min<unsigned long>( from+step, all[file].size() ); ++at )
                { put( d.name, file, all[file], at ); c.check( rejects( [&]{ (void)load( d.name ); } ), "truncated file is presented as complete", [&]{ return std::string( names[file] ) + " of " + std::to_string( at ) + " bytes instead of " + std::to_string( all[file].size() ); } ); c.trans( 1 ); c.state( mix( file, at ) ); }
            } );
            c.test( R + "missing|" + std::to_string( file ), [&]
            {
                Dir d( "d.missing" ); for ( int k = 0; k < 4; ++k ) if ( k != file ) put( d.name, k, all[k] );
                c.check( rejects( [&]{ (void)load( d.name ); } ), "missing file is presented as complete", names[file] ); c.trans( 1 );
            } );
            if ( file%2 ) c.test( R + "label values|" + std::to_string( file ), [&]
            {
                Dir d( "d.values" ); for ( int k = 0; k < 4; ++k ) put( d.name, k, all[k] );
                for ( unsigned long at = 0; at < n; ++at ) for ( int value = 0; value < 256; ++value )
                {
                    Bytes b = all[file]; b[8+at] = (u8)value; put( d.name, file, b ); c.trans( 1 );
                    if ( value >= 10 ) { c.check( rejects( [&]{ (void)load( d.name ); } ), "label out of range is accepted", std::to_string( value ) ); continue; }
                    auto const r = load( d.name ); auto const& y = file == 1 ? std::get<1>( r ) : std::get<3>( r );
                    c.check( same( y, { n, 10 }, [&]( unsigned long i ){ return (u8)( b[8+i/10] == i%10 ); } ), "label", std::to_string( value ) ); c.state( mix( at, value ) );
                }
            } );
        }
        c.test( R + "no directory", [&]{ c.check( rejects( [&]{ (void)load( "d.nothing" ); } ), "missing directory is presented as complete", "" ); c.trans( 1 ); } );
    }
}
MC_MAIN( explore )
