// C02: matrix multiplication
#include "ceras_mc.hpp"
using namespace ref;

template<typename V> static void typed( mc::Ctx& c )
{
    char const* tn = sizeof(V)==4 ? "float" : "double";
    double const tol0 = sizeof(V)==4 ? 5e-6 : 1e-12;
    unsigned long const N = c.thorough ? 6 : 4;
    std::vector<unsigned long> dims; for ( unsigned long i = 1; i <= N; ++i ) dims.push_back( i );
    dims.push_back( 9 ); if ( c.thorough ) { dims.push_back( 17 ); dims.push_back( 33 ); }
    auto val = [&]( unsigned long m, unsigned long n, unsigned long salt ){ auto r = fill( {m,n}, salt ); for ( unsigned long i = 0; i < r.size(); ++i ) r[i] /= 1.0 + 0.013*i; return r; };
    auto row = [&]( unsigned long n, unsigned long salt ){ auto r = fill( Shape{n}, salt ); for ( unsigned long i = 0; i < n; ++i ) r[i] /= 1.0 + 0.013*i; return r; };
    auto product = []( ref::T const& a, ref::T const& b )
    {
        ref::T r( Shape{ a.shape[0], b.shape[1] } );
        for ( unsigned long i = 0; i < a.shape[0]; ++i ) for ( unsigned long j = 0; j < b.shape[1]; ++j ) { double s = 0; for ( unsigned long k = 0; k < a.shape[1]; ++k ) s += a[i*a.shape[1]+k]*b[k*b.shape[1]+j]; r[i*b.shape[1]+j] = s; }
        return r;
    };
    auto transpose = []( ref::T const& a ){ ref::T r( Shape{a.shape[1],a.shape[0]} ); for ( unsigned long i = 0; i < a.shape[0]; ++i ) for ( unsigned long j = 0; j < a.shape[1]; ++j ) r[j*a.shape[0]+i] = a[i*a.shape[1]+j]; return r; };
    std::vector<std::array<unsigned long,3>> triples; for ( auto m : dims ) for ( auto n : dims ) for ( auto k : dims ) triples.push_back( {m,n,k} );
    for ( auto q : std::vector<std::array<unsigned long,3>>{ {16,16,16}, {17,33,5}, {32,31,33}, {64,64,64}, {65,3,2}, {2,65,3}, {3,2,65}, {1,257,1}, {1,70,130}, {130,70,1}, {129,130,131}, {300,1,2}, {2,1,300}, {2,1000,2} } ) triples.push_back( q );
    for ( auto q : triples )
    {
        unsigned long const m = q[0], n = q[1], k = q[2]; double const tol = tol0 * ( n > 9 ? n/8.0 : 1 );
        std::string dim = std::to_string(m)+"x"+std::to_string(n)+"x"+std::to_string(k);
        // raw gemm, all transpose flags, dirty output
        for ( int ta = 0; ta < 2; ++ta ) for ( int tb = 0; tb < 2; ++tb )
            c.test( std::string("gemm|")+tn+"|"+dim+"|"+std::to_string(ta)+std::to_string(tb), [&]
            {
                auto a = val( m, n, 1 ), b = val( n, k, 2 );
                auto A = mc::to_c<V>( ta ? transpose(a) : a ), B = mc::to_c<V>( tb ? transpose(b) : b );
                auto ra = mc::to_r(A), rb = mc::to_r(B);
                ceras::tensor<V> C{ {m,k}, V(55) };
                auto want = product( ta ? transpose(ra) : ra, tb ? transpose(rb) : rb );
                for ( int pass = 0; pass < 2; ++pass )
                {
                    ceras::gemm( A.data(), ta, B.data(), tb, m, n, k, C.data() ); c.trans();
                    mc::same( c, mc::to_r(C), want, "gemm:value", tol );
                }
                mc::same( c, mc::to_r(A), ra, "gemm:A-modified", 0 ); mc::same( c, mc::to_r(B), rb, "gemm:B-modified", 0 );
                c.state( hash( mc::to_r(C), ta*2+tb ) );
                // view based overload, plain views
                if ( !ta && !tb )
                {
                    ceras::view_2d<V> x{ A.data(), m, n }, y{ B.data(), n, k }; ceras::tensor<V> D{ {m,k}, V(-7) }; ceras::view_2d<V> z{ D.data(), m, k };
                    ceras::gemm( x, y, z ); c.trans();
                    mc::same( c, mc::to_r(D), want, "gemm-view:value", tol );
                }
                {
                    ceras::tensor<V> D{ {m,k}, V(-7) };
                    ceras::gemm_cpu( A.data(), ta, B.data(), tb, m, n, k, D.data() ); c.trans();
                    mc::same( c, mc::to_r(D), want, "gemm_cpu:value", tol );
                }
            } );
        c.test( std::string("multiply|")+tn+"|"+dim, [&]
        {
            auto A = mc::to_c<V>( val(m,n,1) ), B = mc::to_c<V>( val(n,k,2) ); auto ra = mc::to_r(A), rb = mc::to_r(B);
            auto want = product( ra, rb );
            auto A2 = A, B2 = B;    // aliases
            auto z = A*B; c.trans(); mc::same( c, mc::to_r(z), want, "mul:value", tol );
            auto z2 = ceras::multiply( A, B ); c.trans(); mc::same( c, mc::to_r(z2), want, "multiply:value", tol );
            for ( auto& v : z ) v = 9;
            mc::same( c, mc::to_r(A), ra, "mul:lhs-modified", 0 ); mc::same( c, mc::to_r(B), rb, "mul:rhs-modified", 0 );
            mc::same( c, mc::to_r(A2), ra, "mul:lhs-alias-modified", 0 ); mc::same( c, mc::to_r(B2), rb, "mul:rhs-alias-modified", 0 );
            mc::same( c, mc::to_r(z2), want, "multiply:result-aliased", tol );
            // three-argument form, output of another shape and content before
            for ( Shape s : { Shape{1}, Shape{k,m}, Shape{m,k}, Shape{3,5}, Shape{} } )
            {
                ceras::tensor<V> out; if ( s.size() ) out = ceras::tensor<V>{ s, V(13) };
                ceras::multiply( A, B, out ); c.trans();
                mc::same( c, mc::to_r(out), want, "multiply3:value", tol );
            }
            c.state( hash( want, 99 ) );
            if ( m == n && n == k ) { auto q = A*A; c.trans(); mc::same( c, mc::to_r(q), product(ra,ra), "mul:self", tol ); mc::same( c, mc::to_r(A), ra, "mul:self-modified", 0 ); }
        } );
        if ( m == 1 )
            c.test( std::string("row-vector|")+tn+"|"+dim, [&]
            {
                auto A = mc::to_c<V>( row( n, 1 ) ); auto B = mc::to_c<V>( val(n,k,2) ); auto ra = mc::to_r(A), rb = mc::to_r(B);
                auto z = A*B; c.trans(); c.state( hash( mc::to_r(z), 5 ) );
                mc::same( c, mc::to_r(z), product( ref::T( Shape{1,n}, ra.v ), rb ), "rowvec:value", tol );
                mc::same( c, mc::to_r(A), ra, "rowvec:lhs-modified", 0 ); mc::same( c, mc::to_r(B), rb, "rowvec:rhs-modified", 0 );
            } );
        if ( k == 1 )
            c.test( std::string("col-vector|")+tn+"|"+dim, [&]
            {
                auto A = mc::to_c<V>( val(m,n,1) ); auto B = mc::to_c<V>( row( n, 2 ) ); auto ra = mc::to_r(A), rb = mc::to_r(B);
                auto z = A*B; c.trans(); c.state( hash( mc::to_r(z), 6 ) );
                mc::same( c, mc::to_r(z), product( ra, ref::T( Shape{n,1}, rb.v ) ), "colvec:value", tol );
                mc::same( c, mc::to_r(A), ra, "colvec:lhs-modified", 0 ); mc::same( c, mc::to_r(B), rb, "colvec:rhs-modified", 0 );
            } );
        if ( m == 1 && k == 1 )
            c.test( std::string("dot|")+tn+"|"+dim, [&]
            {
                auto A = mc::to_c<V>( row( n, 1 ) ); auto B = mc::to_c<V>( row( n, 2 ) ); auto ra = mc::to_r(A), rb = mc::to_r(B);
                auto z = A*B; c.trans();
                mc::same( c, mc::to_r(z), product( ref::T( Shape{1,n}, ra.v ), ref::T( Shape{n,1}, rb.v ) ), "dot:value", tol );
                mc::same( c, mc::to_r(A), ra, "dot:lhs-modified", 0 ); mc::same( c, mc::to_r(B), rb, "dot:rhs-modified", 0 );
            } );
    }
    // every value combination of small integer matrices
    std::vector<double> al{ -1, 0, 2 };
    for ( auto [m,n,k] : std::vector<std::array<unsigned long,3>>{ {1,2,1}, {2,1,2}, {1,2,2}, {2,2,1}, {2,2,2} } )
    {
        unsigned long cnt = m*n+n*k; if ( cnt > 8 ) continue;
        unsigned long tot = 1; for ( unsigned long i = 0; i < cnt; ++i ) tot *= al.size();
        if ( !c.thorough && tot > 800 ) { if ( sizeof(V) == 4 ) continue; }
        for ( unsigned long q0 = 0; q0 < tot; ++q0 )
        {
            ref::T a( Shape{m,n} ), b( Shape{n,k} ); unsigned long q = q0;
            for ( auto& v : a.v ) { v = al[q%3]; q /= 3; } for ( auto& v : b.v ) { v = al[q%3]; q /= 3; }
            c.test( std::string("values|")+tn+"|"+std::to_string(m)+std::to_string(n)+std::to_string(k)+"|"+std::to_string(q0), [&]
            {
                auto A = mc::to_c<V>(a), B = mc::to_c<V>(b);
                auto z = A*B; c.trans(); c.state( hash( mc::to_r(z), 3 ) );
                mc::same( c, mc::to_r(z), product(a,b), "values:value", tol0 );
            } );
        }
    }
}
static void explore( mc::Ctx& c ) { typed<double>( c ); typed<float>( c ); }
MC_MAIN( explore )
