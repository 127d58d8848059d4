// Owns the library's random source: must be included before ceras.  std::mt19937 as seen by the library is an engine that answers
// from a script when one is set (and from a real Mersenne twister otherwise), so that random choices can be enumerated.
#ifndef VERIF_SCRIPTED_HPP
#define VERIF_SCRIPTED_HPP
#include <random>
#include <iostream>
#include <vector>
#include <cstdint>
namespace mc
{
    typedef std::mt19937 twister;
    struct Script { std::vector<std::uint32_t> answers; unsigned long used = 0; };
    inline Script script;
    inline std::uint32_t part( double f ) { return (std::uint32_t)( f*4294967295.0 ); }      // the answer at a fraction of the range
}
namespace std
{
    struct verif_engine
    {
        typedef mt19937::result_type result_type;
        mt19937 real;
        explicit verif_engine( result_type s = 5489u ) : real( s ) {}
        static constexpr result_type min() { return mt19937::min(); }
        static constexpr result_type max() { return mt19937::max(); }
        void seed( result_type s = 5489u ) { real.seed( s ); }
        void discard( unsigned long long n ) { while ( n-- ) (*this)(); }
        result_type operator()() { ++mc::script.used; if ( mc::script.answers.empty() ) return real(); return mc::script.answers[ ( mc::script.used-1 ) % mc::script.answers.size() ]; }
        bool operator==( verif_engine const& o ) const { return real == o.real; }
        friend ostream& operator<<( ostream& o, verif_engine const& e ) { return o << e.real; }
        friend istream& operator>>( istream& o, verif_engine& e ) { return o >> e.real; }
    };
}
#define mt19937 verif_engine
namespace mc { inline void play( std::vector<std::uint32_t> const& a ) { script.answers = a; script.used = 0; } inline void unscripted() { script.answers.clear(); } }
#endif
