// C05  element-wise mathematical operators of the computation graph: value and gradient, again with other shapes
using namespace ceras;
template< typename F > static void un( F const& f, int dom )
{
    vfu m=vf_dim("m"),n=vf_dim("n"),p=vf_dim("p");
    VD x=vf_v("X1",{p},dom); auto e=f(x);
    TD y1=e.forward(); TD g1=vf_t("G1",{p}); e.backward(g1); vf_o("Y1",y1); vf_o("GX1",x.gradient()); vf_o("X1",x.data()); vf_o("G1",g1);
    x.data()=vf_t("X",{m,n},dom); vf_new_step();
    TD y=e.forward(); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("G",g);
    std::vector<vfu> s=e.shape(); vf_valu("rank",s.size()); vf_valu("s0",s[0]); vf_valu("s1",s[1]);
}
#define U(N,DOM) void vf_##N() { un( []( auto const& x ){ return ceras::N(x); }, DOM ); }
U(abs,0)
U(acos,2)
U(acosh,4)
U(asin,2)
U(asinh,0)
U(atan,0)
U(atanh,2)
U(cbrt,1)
U(ceil,0)
U(cos,0)
U(cosh,0)
U(erf,0)
U(erfc,0)
U(exp,0)
U(exp2,0)
U(expm1,0)
U(fabs,0)
U(floor,0)
U(llrint,0)
U(llround,0)
U(log,1)
U(log10,1)
U(log1p,1)
U(log2,1)
U(lrint,0)
U(lround,0)
U(nearbyint,0)
U(rint,0)
U(round,0)
U(sin,0)
U(sinh,0)
U(sqrt,1)
U(tan,2)
U(tanh,0)
U(trunc,0)
U(negative,0)
U(square,0)
U(sign,0)
void vf_neg_op() { un( []( auto const& x ){ return -x; }, 0 ); }
void vf_plus_op() { un( []( auto const& x ){ return +(-x); }, 0 ); }
void vf_add_s() { double s=vf_real("s"); un( [s]( auto const& x ){ return x+s; }, 0 ); }
void vf_s_add() { double s=vf_real("s"); un( [s]( auto const& x ){ return s+x; }, 0 ); }
void vf_sub_s() { double s=vf_real("s"); un( [s]( auto const& x ){ return x-s; }, 0 ); }
void vf_s_sub() { double s=vf_real("s"); un( [s]( auto const& x ){ return s-x; }, 0 ); }
void vf_mul_s() { double s=vf_real("s"); un( [s]( auto const& x ){ return x*s; }, 0 ); }
void vf_s_mul() { double s=vf_real("s"); un( [s]( auto const& x ){ return s*x; }, 0 ); }
void vf_div_s() { double s=vf_pos("s"); un( [s]( auto const& x ){ return x/s; }, 0 ); }
void vf_clip() { double lo=vf_real("lo"),hi=vf_real("hi"); vf_assume(lo<=hi); un( [lo,hi]( auto const& x ){ return clip(lo,hi)(x); }, 0 ); }
void vf_pow() { double s=vf_pos("s"); un( [s]( auto const& x ){ return ceras::pow(x,s); }, 1 ); }
// the inverse is regularised next to zero
void vf_inverse() { un( []( auto const& x ){ return inverse(x); }, 0 ); }
void vf_iadd() { un( []( auto const& x ){ return x+3; }, 0 ); }
void vf_sadd_i() { un( []( auto const& x ){ return 3+x; }, 0 ); }
void vf_isub() { un( []( auto const& x ){ return x-3; }, 0 ); }
void vf_ssub_i() { un( []( auto const& x ){ return 3-x; }, 0 ); }
void vf_imul() { un( []( auto const& x ){ return x*3; }, 0 ); }
void vf_smul_i() { un( []( auto const& x ){ return 3*x; }, 0 ); }
void vf_idiv() { un( []( auto const& x ){ return x/4; }, 0 ); }
void vf_uldiv() { un( []( auto const& x ){ return x/4UL; }, 0 ); }
