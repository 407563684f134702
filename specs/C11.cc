// C11  losses: value and gradients
using namespace ceras;
// truth T, prediction X; first evaluated with other contents of another rank
template< typename F > static void ls( F const& f, int dt = 0, int dx = 0 )
{
    vfu m=vf_dim("m"),n=vf_dim("n"),p=vf_dim("p");
    VD t=vf_v("T1",{p},dt), x=vf_v("X1",{p},dx); auto e=f(t,x);
    TD y1=e.forward(); vf_o("Y1",y1);
    t.data()=vf_t("T",{m,n},dt); x.data()=vf_t("X",{m,n},dx); vf_new_step();
    TD y=e.forward(); TD g=vf_t("G",{1}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("GT",t.gradient()); vf_o("X",x.data()); vf_o("T",t.data()); vf_o("G",g);
    std::vector<vfu> s=e.shape(); vf_valu("rank",s.size()); vf_valu("s0",s[0]);
}
// a single column: the gradient of the mean over the batch
template< typename F > static void col( F const& f, int dt = 0, int dx = 0 )
{
    vfu m=vf_dim("m"); VD t=vf_v("T",{m,1},dt), x=vf_v("X",{m,1},dx); auto e=f(t,x);
    TD y=e.forward(); TD g=vf_t("G",{1}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("GT",t.gradient()); vf_o("X",x.data()); vf_o("T",t.data()); vf_o("G",g);
}
#define L(N,DT,DX) void vf_##N() { ls([](auto const& t, auto const& x){ return N(t,x); },DT,DX); }
#define LC(N,DT,DX) L(N,DT,DX) void vf_##N##_col() { col([](auto const& t, auto const& x){ return N(t,x); },DT,DX); }
L(mean_squared_logarithmic_error,1,1)
L(squared_loss,0,0)
L(abs_loss,0,0)
L(cross_entropy,0,1)
LC(mean_squared_error,0,0)
LC(mse,0,0)
LC(mean_absolute_error,0,0)
LC(mae,0,0)
LC(hinge_loss,0,0)
LC(binary_cross_entropy_loss,5,5)
// softmax followed by the cross entropy, with and without label smoothing
template< typename F > static void ce( vfs const& s, F const& f )
{
    VD t=vf_v("T",s), x=vf_v("X",s); auto e=f(t,x);
    TD y=e.forward(); TD g=vf_t("G",{1}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("T",t.data()); vf_o("G",g);
}
void vf_ce() { vfu m=vf_dim("m"),n=vf_dim("n",2); ce({m,n},[](auto const& t, auto const& x){ return cross_entropy_loss(t,x); }); }
void vf_ce_smooth() { vfu m=vf_dim("m"),n=vf_dim("n",2); double a=vf_pos("a"); vf_assume(a<1); ce({m,n},[a](auto const& t, auto const& x){ return cross_entropy_loss(t,x,a); }); }
void vf_ce_again()
{
    vfu m=vf_dim("m"),n=vf_dim("n",2),p=vf_dim("p"),q=vf_dim("q",2);
    VD t=vf_v("T1",{p,q}), x=vf_v("X1",{p,q}); auto e=cross_entropy_loss(t,x); TD y1=e.forward(); TD g1=vf_t("G1",{1}); e.backward(g1);
    t.data()=vf_t("T",{m,n}); x.data()=vf_t("X",{m,n}); vf_new_step();
    TD y=e.forward(); TD g=vf_t("G",{1}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("T",t.data()); vf_o("G",g);
}
// the functor interface: the truth is bound to a place holder
template< typename F > static void fc( vfs const& s, F const& f, int dt = 0, int dx = 0 )
{
    VD x=vf_v("X",s,dx); PD p; TD t=vf_t("T",s,dt); ceras::bind(p,t); auto e=f(x)(p);
    TD y=e.forward(); TD g=vf_t("G",{1}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("T",t); vf_o("G",g);
}
#define FN(N,M,DT,DX) void vf_f_##N() { vfu m=vf_dim("m"); fc({m,1},[](auto const& x){ return M()(x); },DT,DX); } void vf_f2_##N() { vfu m=vf_dim("m"),n=vf_dim("n"); fc({m,n},[](auto const& x){ return M()(x); },DT,DX); }
FN(MeanSquaredError,MeanSquaredError,0,0)
FN(MSE,MSE,0,0)
FN(MeanAbsoluteError,MeanAbsoluteError,0,0)
FN(MAE,MAE,0,0)
FN(Hinge,Hinge,0,0)
FN(BinaryCrossentropy,BinaryCrossentropy,5,5)
FN(BinaryCrossEntropy,BinaryCrossEntropy,5,5)
#define FCE(N) void vf_f_##N() { vfu m=vf_dim("m"),n=vf_dim("n",2); double a=vf_pos("a"); vf_assume(a<1); fc({m,n},[a](auto const& x){ return N(a)(x); }); } \
 void vf_f0_##N() { vfu m=vf_dim("m"),n=vf_dim("n",2); fc({m,n},[](auto const& x){ return N()(x); }); }
FCE(CategoricalCrossentropy)
FCE(CategoricalCrossEntropy)
