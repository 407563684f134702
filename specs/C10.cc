// C10  activation functions: value and gradient, again with other shapes
using namespace ceras;
template< typename F > static void un( F const& f, int dom = 3 )
{
    vfu m=vf_dim("m"),n=vf_dim("n"),p=vf_dim("p");
    VD x=vf_v("X1",{p},dom); auto e=f(x);
    TD y1=e.forward(); TD g1=vf_t("G1",{p}); e.backward(g1); vf_o("Y1",y1); vf_o("GX1",x.gradient()); vf_o("X1",x.data()); vf_o("G1",g1);
    x.data()=vf_t("X",{m,n},dom); vf_new_step();
    TD y=e.forward(); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("G",g);
    std::vector<vfu> s=e.shape(); vf_valu("rank",s.size()); vf_valu("s0",s[0]); vf_valu("s1",s[1]);
}
#define U(N) void vf_##N() { un( []( auto const& x ){ return ceras::N(x); } ); }
U(relu)
U(relu6)
U(negative_relu)
U(hard_sigmoid)
#define U0(N) void vf_##N() { un( []( auto const& x ){ return ceras::N(x); }, 0 ); }
U0(sigmoid)
U0(softplus)
U0(softsign)
U0(selu)
U0(exponential)
U0(gelu)
U0(gaussian)
U0(softmax)
U0(soft_sign)
U0(unit_step)
U0(binary_step)
void vf_leaky_relu() { double a=vf_pos("a"); vf_assume(a<1); un( [a]( auto const& x ){ return leaky_relu(a)(x); } ); }
void vf_prelu() { double a=vf_pos("a"); vf_assume(a<1); un( [a]( auto const& x ){ return prelu(a)(x); } ); }
void vf_elu() { double a=vf_pos("a"); un( [a]( auto const& x ){ return elu(a)(x); }, 0 ); }
void vf_heaviside() { double a=vf_pos("a"); un( [a]( auto const& x ){ return heaviside_step(a)(x); }, 0 ); }
// activations composed of several nodes that all depend on the same operand
template< typename F > static void one( F const& f, int dom = 0 )
{
    vfu m=vf_dim("m"),n=vf_dim("n");
    VD x=vf_v("X",{m,n},dom); auto e=f(x);
    TD y=e.forward(); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("G",g);
}
void vf_swish() { one( []( auto const& x ){ return swish(x); } ); }
void vf_silu() { one( []( auto const& x ){ return silu(x); } ); }
void vf_tank_shrink() { one( []( auto const& x ){ return tank_shrink(x); } ); }
void vf_mish() { one( []( auto const& x ){ return mish(x); } ); }
void vf_lisht() { one( []( auto const& x ){ return lisht(x); } ); }
void vf_softmax3() { vfu l=vf_dim("l"),m=vf_dim("m"),n=vf_dim("n"); VD x=vf_v("X",{l,m,n},0); auto e=ceras::softmax(x); TD y=e.forward(); TD g=vf_t("G",{l,m,n}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("G",g); }
void vf_crelu() { vfu m=vf_dim("m"),n=vf_dim("n"); VD x=vf_v("X",{m,n},0); auto e=crelu(x); TD y=e.forward(); TD g=vf_t("G",{m,2*n}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); }
