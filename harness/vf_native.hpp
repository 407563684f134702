#pragma once
#include <map>
#include <string>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <iostream>
#include <sstream>
namespace vfn {
struct Case { std::map<std::string,vfu> dims; std::map<std::string,double> reals; std::map<std::string,std::map<vfu,double>> sets; unsigned long seed = 1; vfu maxdim = 5; };
inline Case& cur() { static Case c; return c; }
inline FILE*& out() { static FILE* f = stdout; return f; }
inline unsigned long mix( unsigned long x ) { x += 0x9E3779B97F4A7C15UL; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9UL; x = (x ^ (x >> 27)) * 0x94D049BB133111EBUL; return x ^ (x >> 31); }
inline unsigned long hs( const char* s ) { unsigned long h = 1469598103934665603UL; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211UL; } return h; }
inline double gen( const char* name, vfu i, int dom )
{
    Case& c = cur();
    auto it = c.sets.find( name );
    if ( it != c.sets.end() ) { auto j = it->second.find( i ); if ( j != it->second.end() ) return j->second; }
    unsigned long h = mix( hs( name ) ^ mix( c.seed * 1000003UL + i ) );
    long q = (long)( h % 257 ) - 128;                 // -128..128
    if ( dom == 0 ) return q / 64.0;                  // [-2,2]
    if ( dom == 1 ) return ( q + 129 ) / 64.0;        // (0,4]
    if ( dom == 2 ) return q / 130.0;                 // (-1,1)
    if ( dom == 3 ) return q / 4.0;                   // [-32,32]
    if ( dom == 7 ) return q * 8.0;                   // [-1024,1024]
    if ( dom == 6 ) return ( q >= 0 ? q + 1 : q ) / 64.0;  // away from zero: 1/64 <= |v| <= 2.02
    if ( dom == 5 ) return ( q + 129 ) / 258.0;       // (0,1)
    if ( dom == 4 ) return 1.0 + ( q + 129 ) / 64.0;  // (1,5]
    return q / 64.0;
}
}
inline vfu vf_dim( const char* name, vfu lo )
{
    auto& c = vfn::cur(); vfu v; auto it = c.dims.find( name );
    if ( it != c.dims.end() ) v = it->second;
    else v = lo + vfn::mix( vfn::hs( name ) ^ vfn::mix( c.seed ) ) % c.maxdim;
    if ( v < lo ) { fprintf( vfn::out(), "skip\n" ); fflush( vfn::out() ); _exit( 0 ); }
    fprintf( vfn::out(), "dim %s %lu\n", name, v ); return v;
}
inline double vf_real( const char* name )
{
    auto& c = vfn::cur(); auto it = c.reals.find( name ); double v = it != c.reals.end() ? it->second : vfn::gen( name, 0, 0 );
    fprintf( vfn::out(), "real %s %.17g\n", name, v ); return v;
}
inline double vf_pos( const char* name )
{
    auto& c = vfn::cur(); auto it = c.reals.find( name ); double v = it != c.reals.end() ? it->second : vfn::gen( name, 0, 1 );
    if ( !( v > 0 ) ) { fprintf( vfn::out(), "skip\n" ); fflush( vfn::out() ); _exit( 0 ); }
    fprintf( vfn::out(), "real %s %.17g\n", name, v ); return v;
}
inline void vf_assume( bool b ) { if ( !b ) { fprintf( vfn::out(), "skip\n" ); fflush( vfn::out() ); _exit( 0 ); } }
inline void vf_fill( double* p, vfu n, const char* name, int dom ) { for ( vfu i = 0; i < n; ++i ) p[i] = vfn::gen( name, i, dom ); }
inline void vf_fillf( float* p, vfu n, const char* name, int dom ) { for ( vfu i = 0; i < n; ++i ) p[i] = vfn::gen( name, i, dom ); }
template<class T> inline void vf_out_( const char* name, T const* p, vfu n, vfu rank )
{ fprintf( vfn::out(), "out %s %lu %lu", name, rank, n ); for ( vfu i = 0; i < n; ++i ) fprintf( vfn::out(), " %.17g", (double)p[i] ); fprintf( vfn::out(), "\n" ); }
inline void vf_out( const char* name, const double* p, vfu n, vfu rank ) { vf_out_( name, p, n, rank ); }
inline void vf_outf( const char* name, const float* p, vfu n, vfu rank ) { vf_out_( name, p, n, rank ); }
inline void vf_outu( const char* name, const unsigned long* p, vfu n, vfu rank ) { vf_out_( name, p, n, rank ); }
inline void vf_shape( vfu d ) { fprintf( vfn::out(), "shape %lu\n", d ); }
inline void vf_val( const char* name, double v ) { fprintf( vfn::out(), "val %s %.17g\n", name, v ); }
inline void vf_valu( const char* name, unsigned long v ) { fprintf( vfn::out(), "val %s %lu\n", name, v ); }
inline void vf_check( const char* name, bool b ) { fprintf( vfn::out(), "check %s %d\n", name, (int)b ); }
struct vf_entry { const char* n; void (*f)(); };
extern vf_entry vf_table[];
// protocol on stdin:  dim N V | real N V | set N I V | seed S | maxdim M | run HARNESS  ;  each run is executed in a child process
int main()
{
    vfn::out() = fdopen( dup( 1 ), "w" ); 
    freopen( "/dev/null", "w", stdout ); freopen( "/dev/null", "w", stderr );
    std::string line;
    while ( std::getline( std::cin, line ) )
    {
        std::istringstream is( line ); std::string k, n; is >> k; auto& c = vfn::cur();
        if ( k == "dim" ) { vfu v; is >> n >> v; c.dims[n] = v; }
        else if ( k == "real" ) { double v; is >> n >> v; c.reals[n] = v; }
        else if ( k == "set" ) { vfu i; double v; is >> n >> i >> v; c.sets[n][i] = v; }
        else if ( k == "seed" ) is >> c.seed;
        else if ( k == "maxdim" ) is >> c.maxdim;
        else if ( k == "run" )
        {
            is >> n; fprintf( vfn::out(), "begin %s\n", n.c_str() ); fflush( vfn::out() );
            pid_t p = fork();
            if ( p == 0 )
            {
                alarm( 20 );
                for ( auto* e = vf_table; e->n; ++e ) if ( n == e->n ) { e->f(); fprintf( vfn::out(), "done\n" ); fflush( vfn::out() ); _exit( 0 ); }
                fprintf( vfn::out(), "nosuch\n" ); fflush( vfn::out() ); _exit( 3 );
            }
            int st = 0; waitpid( p, &st, 0 );
            int code = WIFSIGNALED( st ) ? 1000 + WTERMSIG( st ) : WEXITSTATUS( st );
            fprintf( vfn::out(), "end %d\n", code ); fflush( vfn::out() );
            c = vfn::Case{};
        }
    }
}
