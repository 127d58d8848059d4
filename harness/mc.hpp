// Small bounded-exhaustive explorer used by every check.
//
// A harness defines `void explore(mc::Ctx&)`, which enumerates CASES (an input, a parameter point, or a complete
// operation history) in a fixed order.  Every case runs against the real code in a forked worker; the worker's
// counters, failures and visited-state table live in shared memory, so a crash, an assertion abort, a sanitizer
// report or a hang inside one case is attributed to that case and exploration continues behind it.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <iostream>
#include <utility>

namespace mc
{
    typedef std::uint64_t u64;

    inline u64 mix( u64 h, u64 x )
    {
        h ^= x + 0x9e3779b97f4a7c15ULL + (h<<6) + (h>>2);
        h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
        return h;
    }
    inline u64 hash_str( std::string const& s, u64 h = 1469598103934665603ULL )
    {
        for ( unsigned char c : s ) { h ^= c; h *= 1099511628211ULL; }
        return h;
    }

    struct Shared
    {
        volatile u64 current;        // index of the case in progress (1-based), 0 = none
        volatile u64 done;           // 1 when the worker enumerated everything
        u64 cases, transitions, states, checks, nontrivial, table_full;
        volatile u64 heartbeat;
        char key[4096];              // key of the case in progress
        u64 n_fail;
        u64 fail_bytes;
        u64 n_samples;
        char samples[8][1024];
        char fails[8u<<20];          // key \x1f tag \x1f message \x1e
        u64 table[1u<<22];
    };

    struct Ctx
    {
        Shared* sh = nullptr;
        u64 idx = 0, skip = 0;
        u64 shard = 0, nshards = 1;
        std::string only;
        bool thorough = false, list = false;
        u64 case_fails = 0;
        u64 case_checks = 0;
        std::function<void()> before;   // run before every case
        // limits
        u64 max_fail_per_case = 3;

        bool quick() const { return !thorough; }

        void test( std::string const& key, std::function<void()> const& body )
        {
            ++idx;
            if ( !only.empty() ) { if ( key != only ) return; }
            else
            {
                if ( idx % nshards != shard ) return;
                if ( idx <= skip ) return;
            }
            if ( list ) { printf( "%s\n", key.c_str() ); return; }
            std::strncpy( sh->key, key.c_str(), sizeof(sh->key)-1 );
            sh->current = idx;
            sh->heartbeat = sh->heartbeat + 1;
            case_fails = 0;
            case_checks = 0; noted.clear();
            if ( before ) before();
            try { body(); }
            catch ( std::exception const& e ) { fail( "exception", e.what() ); }
            catch ( ... ) { fail( "exception", "unknown exception" ); }
            ++sh->cases;
            if ( case_checks ) ++sh->nontrivial;
            // keep samples: 1st, and then at powers of 7
            if ( sh->n_samples < 8 )
            {
                static u64 next = 1;
                if ( sh->cases >= next ) { std::strncpy( sh->samples[sh->n_samples], key.c_str(), 1023 ); ++sh->n_samples; next = next*7+1; }
            }
            sh->current = 0;
        }

        // an operation executed on the real code and compared with the reference
        void trans( u64 n = 1 ) { sh->transitions += n; }

        // record a visited state (hash of a canonical form); returns true if new
        bool state( u64 h )
        {
            if ( h == 0 ) h = 1;
            u64 const N = sizeof(sh->table)/sizeof(u64);
            if ( sh->states > N/10*9 ) { sh->table_full = 1; return true; }
            u64 i = h % N;
            for ( ;; )
            {
                if ( sh->table[i] == h ) return false;
                if ( sh->table[i] == 0 ) { sh->table[i] = h; ++sh->states; return true; }
                i = (i+1) % N;
            }
        }

        void fail( std::string const& tag, std::string const& msg )
        {
            if ( ++case_fails > max_fail_per_case ) return;
            raw_fail( sh->key, tag, msg );
        }
        // a deviation known to the harness by its exact shape: reported once per case and tag, does not end the case
        void note( std::string const& tag, std::string const& msg )
        {
            ++sh->checks; ++case_checks;
            for ( auto const& t : noted ) if ( t == tag ) return;
            noted.push_back( tag ); raw_fail( sh->key, tag, msg );
        }
        std::vector<std::string> noted;
        void raw_fail( std::string const& key, std::string const& tag, std::string const& msg )
        {
            ++sh->n_fail;
            std::string rec = key + "\x1f" + tag + "\x1f" + msg.substr(0,1500) + "\x1e";
            if ( sh->fail_bytes + rec.size() + 1 >= sizeof(sh->fails) ) return;
            std::memcpy( sh->fails + sh->fail_bytes, rec.data(), rec.size() );
            sh->fail_bytes += rec.size();
        }
        bool check( bool ok, std::string const& tag, std::string const& msg = "" )
        {
            ++sh->checks; ++case_checks;
            if ( !ok ) fail( tag, msg );
            return ok;
        }
        bool check( bool ok, std::string const& tag, std::function<std::string()> const& msg )
        {
            ++sh->checks; ++case_checks;
            if ( !ok ) fail( tag, msg() );
            return ok;
        }
    };

    inline std::string json_escape( std::string const& s )
    {
        std::string o;
        for ( unsigned char c : s )
        {
            if ( c == '"' || c == '\\' ) { o += '\\'; o += c; }
            else if ( c < 0x20 || c > 0x7e ) { char b[8]; snprintf( b, sizeof b, "\\u%04x", c ); o += b; }
            else o += c;
        }
        return o;
    }

    inline double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec*1e-9; }

    inline int run_main( int argc, char** argv, std::function<void(Ctx&)> const& explore, std::function<void()> const& before = {} )
    {
        Ctx c;
        c.before = before;
        std::string out = "";
        double case_timeout = 60;
        bool verbose = false;
        for ( int i = 1; i < argc; ++i )
        {
            std::string a = argv[i];
            if ( a == "--thorough" ) c.thorough = true;
            else if ( a == "--only" ) c.only = argv[++i];
            else if ( a == "--shard" ) { c.shard = atoi( argv[++i] ); c.nshards = atoi( argv[++i] ); }
            else if ( a == "--out" ) out = argv[++i];
            else if ( a == "--list" ) c.list = true;
            else if ( a == "--timeout" ) case_timeout = atof( argv[++i] );
            else if ( a == "--verbose" ) verbose = true;
        }
        c.sh = (Shared*)mmap( nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0 );
        if ( c.sh == MAP_FAILED ) { perror("mmap"); return 3; }
        if ( c.list ) { explore( c ); return 0; }

        double const t0 = now();
        u64 crashes = 0, hangs = 0;
        bool aborted_early = false;
        char errname[] = "/tmp/mc_err_XXXXXX";
        int errfd = mkstemp( errname );
        unlink( errname );

        for ( ;; )
        {
            fflush( stdout ); fflush( stderr );
            (void)!ftruncate( errfd, 0 ); lseek( errfd, 0, SEEK_SET );
            c.sh->current = 0;
            pid_t pid = fork();
            if ( pid == 0 )
            {
                setpgid( 0, 0 );
                if ( !verbose ) { dup2( errfd, 2 ); int nul = open( "/dev/null", O_RDWR ); dup2( nul, 1 ); }
                struct rlimit rl{ 0, 0 }; setrlimit( RLIMIT_CORE, &rl );
                explore( c );
                c.sh->done = 1;
                _exit( 0 );
            }
            setpgid( pid, pid );
            // watch the worker
            int status = 0;
            u64 last_hb = ~0ULL; double last_t = now();
            bool hung = false;
            double nap = 0.001;
            for ( ;; )
            {
                pid_t r = waitpid( pid, &status, WNOHANG );
                if ( r == pid ) break;
                if ( c.sh->heartbeat != last_hb ) { last_hb = c.sh->heartbeat; last_t = now(); }
                else if ( now() - last_t > case_timeout ) { hung = true; kill( -pid, SIGKILL ); kill( pid, SIGKILL ); waitpid( pid, &status, 0 ); break; }
                usleep( (useconds_t)(nap*1e6) ); if ( nap < 0.02 ) nap *= 1.5;
            }
            kill( -pid, SIGKILL );
            if ( c.sh->done ) break;
            // worker died inside a case
            std::string err;
            {
                off_t n = lseek( errfd, 0, SEEK_END ); off_t from = n > 1200 ? n-1200 : 0;
                // for sanitizer reports the head is more useful
                char buf[1300]; ssize_t k = pread( errfd, buf, 1200, 0 ); if ( k > 0 ) err.assign( buf, k );
                if ( from ) { k = pread( errfd, buf, 400, n-400 ); if ( k > 0 ) err += " ... " + std::string( buf, k ); }
            }
            if ( c.sh->current == 0 ) { fprintf( stderr, "worker died outside any case (status %d): %s\n", status, err.c_str() ); return 3; }
            std::string tag = hung ? "hang" : WIFSIGNALED(status) ? (std::string("crash-signal-") + std::to_string(WTERMSIG(status))) : (std::string("crash-exit-") + std::to_string(WEXITSTATUS(status)));
            if ( hung ) ++hangs; else ++crashes;
            c.raw_fail( c.sh->key, tag, err );
            ++c.sh->cases;
            c.skip = c.sh->current;
            if ( !c.only.empty() ) break;
            if ( crashes > 400 || hangs > 3 ) { aborted_early = true; break; }
        }

        std::ostringstream o;
        o << "{\n\"cases\": " << c.sh->cases << ",\n\"nontrivial\": " << c.sh->nontrivial << ",\n\"states\": " << c.sh->states
          << ",\n\"transitions\": " << c.sh->transitions << ",\n\"checks\": " << c.sh->checks
          << ",\n\"table_full\": " << c.sh->table_full << ",\n\"aborted_early\": " << (aborted_early?1:0)
          << ",\n\"n_fail\": " << c.sh->n_fail << ",\n\"wall_s\": " << (now()-t0) << ",\n\"samples\": [";
        for ( u64 i = 0; i < c.sh->n_samples; ++i ) o << (i?",":"") << "\n\"" << json_escape( c.sh->samples[i] ) << "\"";
        o << "],\n\"failures\": [";
        {
            std::string all( c.sh->fails, c.sh->fail_bytes );
            std::size_t p = 0; bool first = true;
            while ( p < all.size() )
            {
                auto e = all.find( '\x1e', p ); if ( e == std::string::npos ) break;
                std::string rec = all.substr( p, e-p ); p = e+1;
                auto a = rec.find( '\x1f' ); auto b = rec.find( '\x1f', a+1 );
                o << (first?"":",") << "\n{\"key\": \"" << json_escape( rec.substr(0,a) ) << "\", \"tag\": \"" << json_escape( rec.substr(a+1,b-a-1) ) << "\", \"msg\": \"" << json_escape( rec.substr(b+1) ) << "\"}";
                first = false;
            }
        }
        o << "]\n}\n";
        if ( out.empty() ) std::cout << o.str();
        else { FILE* f = fopen( out.c_str(), "w" ); if ( !f ) return 3; fwrite( o.str().data(), 1, o.str().size(), f ); fclose( f ); }
        if ( aborted_early ) return 1;
        return c.sh->n_fail ? 1 : 0;
    }
}

#endif
