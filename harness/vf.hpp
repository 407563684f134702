// Intrinsics of the verification harnesses.  The verifier interprets the vf_ functions symbolically (arbitrary
// sizes, arbitrary contents); with VF_NATIVE the same harness is compiled against the real library and replays
// concrete cases (search for failing inputs, bounded stand-ins).
#pragma once
#include VF_CERAS
typedef unsigned long vfu;
vfu  vf_dim( const char* name, vfu lo = 1 );                       // arbitrary size >= lo
double vf_real( const char* name );                                // arbitrary real
double vf_pos( const char* name );                                 // arbitrary positive real
void vf_assume( bool );                                            // precondition of the property
void vf_fill( double* p, vfu n, const char* name, int dom );       // arbitrary contents; dom 0: any, 1: positive, 2: in (-1,1)
void vf_fillf( float* p, vfu n, const char* name, int dom );
void vf_out( const char* name, const double* p, vfu n, vfu rank ); // observed result (contents), followed by its shape
void vf_outf( const char* name, const float* p, vfu n, vfu rank );
void vf_outu( const char* name, const unsigned long* p, vfu n, vfu rank );
void vf_shape( vfu d );
void vf_val( const char* name, double v );                         // observed scalar
void vf_valu( const char* name, unsigned long v );
void vf_check( const char* name, bool );                           // must hold
bool vf_aborts_begin();                                            // native only: forks; symbolic: marks that the rest must abort

template< typename T > using tz = ceras::tensor<T>;
typedef ceras::tensor<double> TD;

template< typename Shape > inline TD vf_mk( const char* name, Shape const& shape, int dom = 0 )
{
    TD t{ shape };
    vf_fill( t.data(), t.size(), name, dom );
    return t;
}
inline TD vf_t( const char* name, std::vector<vfu> const& shape, int dom = 0 ) { return vf_mk( name, shape, dom ); }
inline void vf_o( const char* name, TD const& t )
{
    std::vector<vfu> s = t.shape();
    vf_out( name, t.data(), t.size(), s.size() );
    for ( vfu i = 0; i != s.size(); ++i ) vf_shape( s[i] );
}

typedef ceras::variable<TD> VD;
typedef ceras::constant<TD> CD;
typedef ceras::place_holder<TD> PD;
typedef std::vector<vfu> vfs;
inline VD vf_v( const char* name, std::vector<vfu> const& shape, int dom = 0 ) { return VD{ vf_mk( name, shape, dom ) }; }
inline void vf_new_step() { ceras::get_default_session<TD>().clear_forward_cache(); }

#ifdef VF_NATIVE
#include "vf_native.hpp"
#endif
