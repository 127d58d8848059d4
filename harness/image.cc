// C28: image files: every small size and channel count written in every format and read back, every truncation point of a file,
// scaled floating point images, resizing of every small image to every small size.
#include "ops.hpp"
#include "utils/imageio.hpp"
#include <filesystem>
#include <fstream>
using namespace mc; namespace fs = std::filesystem; namespace io = ceras::imageio;
typedef unsigned char u8; typedef ceras::tensor<u8> I; typedef std::vector<unsigned long> S;
static std::string text( S const& s ) { std::string r; for ( auto d : s ) r += ( r.empty() ? "" : "x" ) + std::to_string( d ); return r; }
static I image( S const& s, int kind )
{
    I r{ s };
    for ( unsigned long i = 0; i < r.size(); ++i ) r[i] = kind == 0 ? (u8)( i*73+( i/5 )*29+11 ) : kind == 1 ? 0 : kind == 2 ? 255 : kind == 3 ? ( i%2 ? 255 : 0 ) : kind == 4 ? (u8)( 255-i ) : 128;
    return r;
}
static bool is( I const& got, I const& want, int tol = 0 )
{
    if ( got.shape() != want.shape() ) return false;
    for ( unsigned long i = 0; i < want.size(); ++i ) if ( std::abs( (int)got[i]-(int)want[i] ) > tol ) return false;
    return true;
}
static std::string str( I const& t ) { std::string r = text( t.shape() ) + ":"; for ( unsigned long i = 0; i < std::min( 24ul, t.size() ); ++i ) r += " " + std::to_string( (int)t[i] ); return r; }
static std::string find( std::vector<std::string> const& names ) { for ( auto const& n : names ) if ( fs::exists( n ) ) return n; return ""; }
static void explore( Ctx& c )
{
    unsigned long const m = c.thorough ? 9 : 6;
    struct F { std::string ext, file; bool lossless; };
    std::vector<F> const formats{ { ".png", ".png", true }, { ".bmp", ".bmp", true }, { ".tga", ".tga", true }, { "", ".png", true }, { ".unknown", ".unknown.png", true }, { ".jpg", ".jpg", false }, { ".jpeg", ".jpeg", false }, { ".hdr", ".hdr", false } };
    std::vector<std::pair<unsigned long,unsigned long>> sizes; for ( unsigned long w = 1; w <= m; ++w ) for ( unsigned long h = 1; h <= m; ++h ) sizes.push_back( { w, h } );
    for ( auto const& z : std::vector<std::pair<unsigned long,unsigned long>>{ { 33, 17 }, { 17, 33 }, { 257, 2 }, { 1, 300 }, { 64, 64 } } ) sizes.push_back( z );
    for ( auto const& f : formats ) for ( auto const& wh : sizes ) for ( unsigned long w = wh.first, h = wh.second, one = 1; one; one = 0 ) c.test( "write|" + ( f.ext.empty() ? "none" : f.ext ) + "|" + text( { w, h } ), [&]
    {
        for ( unsigned long ch : { 0ul, 1ul, 3ul, 4ul } ) for ( int kind = 0; kind < 6; ++kind )
        {
            if ( !f.lossless && ( ch == 4 || kind == 0 || kind == 3 || ( kind == 4 && f.ext != ".hdr" ) ) ) continue;      // lossy formats: flat images (and ramps where the format keeps them)
            S s{ w, h }; if ( ch ) s.push_back( ch ); I const img = image( s, kind ), before = img.deep_copy(); std::string const base = ( w*3+h )%3 == 0 ? "picture" : ( w*3+h )%3 == 1 ? "pictures.v1/picture" : f.ext.empty() ? "./picture" : "pict.bmp.png.x", name = base+f.ext, file = base+f.file; fs::create_directory( "pictures.v1" );
            bool const ok = io::imwrite( name, img ); c.check( ok && fs::exists( file ), "write", name );
            c.check( is( img, before ), "write changed the image", name ); I const got = io::imread( file );
            // the bitmap format has no gray images: each of the three channels is the gray one
            I want = img.deep_copy(); unsigned long const n = ch ? ch : 1; want.reshape( { w, h, n } );
            if ( ( f.ext == ".bmp" || f.ext == ".hdr" || !f.lossless ) && n == 1 && got.ndim() == 3 && got.shape()[2] == 3 ) { I g{ S{ w, h, 3 } }; for ( unsigned long i = 0; i < g.size(); ++i ) g[i] = img[i/3]; want = g; }
            // ... and no transparency: opaque images keep their colours
            if ( f.ext == ".bmp" && n == 4 ) { if ( kind != 2 ) { fs::remove( file ); continue; } I g{ S{ w, h, 3 } }; for ( unsigned long i = 0; i < w*h; ++i ) for ( int k = 0; k < 3; ++k ) g[i*3+k] = img[i*4+k]; want = g; }
            c.check( is( got, want, f.lossless ? 0 : 3 ), f.ext+" read back", [&]{ return str( got ) + " instead of " + str( want ); } ); c.trans( 2 ); c.state( mix( hash_str( f.ext ), mix( w, mix( h, mix( n, kind ) ) ) ) );
            fs::remove( file );
        }
    } );
    // floating point images are scaled to the range of a byte
    auto scaled = [&]<typename V>( V, char const* type )
    {
        for ( unsigned long w = 1; w <= m; ++w ) for ( unsigned long h = 1; h <= m; ++h ) c.test( std::string( "scaled|" ) + type + "|" + text( { w, h } ), [&]
        {
            for ( unsigned long ch : { 0ul, 1ul, 3ul, 4ul } ) for ( double lo : { -3., 0., 5. } ) for ( double hi : { 0., 1., 300. } )
            {
                S s{ w, h }; if ( ch ) s.push_back( ch ); ceras::tensor<V> t{ s }; double mn = 1e30, mx = -1e30;
                for ( unsigned long i = 0; i < t.size(); ++i ) { t[i] = (V)( lo + hi*( ( i*37+5 )%101 )/100. ); mn = std::min( mn, (double)t[i] ); mx = std::max( mx, (double)t[i] ); }
                c.check( io::imwrite( "scaled.png", t ), "write", "" ); I const got = io::imread( "scaled.png" ); c.check( got.shape() == ( S{ w, h, ch ? ch : 1 } ), "shape", text( got.shape() ) ); bool ok = got.size() == t.size();
                for ( unsigned long i = 0; ok && i < t.size(); ++i ) { double const want = mx > mn ? 255*( (double)t[i]-mn )/( mx-mn ) : 0; ok = mx > mn ? std::fabs( got[i]-want ) <= 1.01 : got[i] == got[0]; }
                c.check( ok, "scaled image", [&]{ return str( got ); } ); c.trans( 2 ); fs::remove( "scaled.png" );
            }
            c.state( mix( w, h ) );
        } );
    };
    scaled( 0.f, "float" ); scaled( 0., "double" );
    // a truncated file is never another image
    for ( unsigned long w : { 1ul, 3ul, 8ul } ) for ( unsigned long ch : { 1ul, 3ul, 4ul } ) c.test( "truncated|" + text( { w, ch } ), [&]
    {
        I const img = image( { w, w+1, ch }, 0 ); io::imwrite( "cut.png", img ); std::ifstream i( "cut.png", std::ios::binary ); std::string const all{ std::istreambuf_iterator<char>( i ), {} }; i.close();
        for ( unsigned long n = 0; n < all.size(); ++n ) { { std::ofstream o( "cut.png", std::ios::binary ); o.write( all.data(), n ); } I const got = io::imread( "cut.png" ); c.check( got.empty() || is( got, img ), "truncated image", [&]{ return std::to_string( n ) + " bytes give " + str( got ); } ); c.trans( 1 ); c.state( n ); }
        fs::remove( "cut.png" );
    } );
    c.test( "missing", [&]{ c.check( io::imread( "nothing.png" ).empty(), "missing image", "" ); c.check( !io::imwrite( "no_directory/x.png", image( { 2, 2 }, 0 ) ), "write to a missing directory", "" ); c.check( rejects( []{ io::imwrite( "x.png", image( { 2 }, 0 ) ); } ) && rejects( []{ io::imwrite( "x.png", image( { 2, 2, 2 }, 0 ) ); } ), "image of a wrong shape is accepted", "" ); c.trans( 4 ); } );
    // resizing: channels are independent, gray images of two and three dimensions agree, flat images stay flat, mirrors stay mirrored
    for ( unsigned long w = 1; w <= m-1; ++w ) for ( unsigned long h = 1; h <= m-1; ++h ) c.test( "resize|" + text( { w, h } ), [&]
    {
        for ( unsigned long x = 1; x <= m; ++x ) for ( unsigned long y = 1; y <= m; ++y )
        {
            std::string const where = text( { w, h } ) + " to " + text( { x, y } );
            I const gray = image( { w, h }, 0 ), before = gray.deep_copy(); I g3 = gray.deep_copy(); g3.reshape( { w, h, 1 } );
            I const r = io::imresize( gray, { x, y } ), r3 = io::imresize( g3, { x, y, 1 } ); c.check( is( gray, before ), "resize changed its operand", where ); c.check( r.shape() == ( S{ x, y } ) && r3.shape() == ( S{ x, y, 1 } ), "resized shape", where );
            bool ok = r.size() == r3.size(); for ( unsigned long i = 0; ok && i < r.size(); ++i ) ok = r[i] == r3[i]; c.check( ok, "gray image", [&]{ return where + " " + str( r ) + " and " + str( r3 ); } );
            for ( int kind : { 1, 2, 5 } ) { I const flat = io::imresize( image( { w, h, 3 }, kind ), { x, y, 3 } ); c.check( is( flat, image( { x, y, 3 }, kind ), 1 ), "flat image", [&]{ return where + " " + str( flat ); } ); }
            for ( unsigned long ch : { 3ul, 4ul } )
            {
                I many{ S{ w, h, ch } }; std::vector<I> planes( ch ); for ( unsigned long k = 0; k < ch; ++k ) { planes[k] = I{ S{ w, h } }; for ( unsigned long i = 0; i < w*h; ++i ) planes[k][i] = many[i*ch+k] = (u8)( i*73+k*91+( i/3 )*17 ); }
                I const rm = io::imresize( many, { x, y, ch } ); for ( unsigned long k = 0; k < ch; ++k ) { I const p = io::imresize( planes[k], { x, y } ); bool same = rm.size() == x*y*ch; for ( unsigned long i = 0; same && i < x*y; ++i ) same = std::abs( (int)rm[i*ch+k]-(int)p[i] ) <= 1; c.check( same, "channels are resized alone", where ); }
            }
            // the memory holds h rows of w pixels
            I mirror{ S{ w, h } }, flip{ S{ w, h } }; for ( unsigned long j = 0; j < h; ++j ) for ( unsigned long i = 0; i < w; ++i ) { mirror[j*w+i] = gray[j*w+w-1-i]; flip[j*w+i] = gray[( h-1-j )*w+i]; }
            I const rm = io::imresize( mirror, { x, y } ), rf = io::imresize( flip, { x, y } ); bool a = true, b = true; for ( unsigned long j = 0; j < y; ++j ) for ( unsigned long i = 0; i < x; ++i ) { a = a && std::abs( (int)rm[j*x+i]-(int)r[j*x+x-1-i] ) <= 1; b = b && std::abs( (int)rf[j*x+i]-(int)r[( y-1-j )*x+i] ) <= 1; }
            c.check( a, "mirrored image", where ); c.check( b, "flipped image", where ); c.trans( 8 ); u64 hsh = hash_str( where ); for ( u8 p : r ) hsh = mix( hsh, p ); c.state( hsh );
        }
    } );
    c.test( "resize|channels", [&]{ c.check( rejects( []{ io::imresize( image( { 2, 2, 3 }, 0 ), { 4, 4, 1 } ); } ), "channels may not change", "" ); c.trans( 1 ); } );
}
MC_MAIN( explore )
