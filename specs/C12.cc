// C12  reduction operators of the computation graph: value and gradient
using namespace ceras;
#define D2 vfu m=vf_dim("m"),n=vf_dim("n")
#define D3 vfu l=vf_dim("l"),m=vf_dim("m"),n=vf_dim("n")
static vfs drop( vfs const& s, vfu ax ) { vfs r; for ( vfu i = 0; i != s.size(); ++i ) if ( i != ax ) r.push_back( s[i] ); return r; }
static void shp( vfs const& s ) { vf_valu("rank",s.size()); for ( vfu i = 0; i != s.size(); ++i ) { const char* nm[4]={"s0","s1","s2","s3"}; vf_valu(nm[i],s[i]); } }
// along an axis, evaluated first with other contents of other sizes
template< typename F > static void ax( vfs const& sx, vfs const& sy, vfu axis, F const& f )
{
    VD x=vf_v("X1",sx); auto e=f(x); TD y1=e.forward(); TD g1=vf_t("G1",drop(sx,axis)); e.backward(g1); vf_o("Y1",y1); vf_o("GX1",x.gradient());
    x.data()=vf_t("X",sy); vf_new_step();
    TD y=e.forward(); TD g=vf_t("G",drop(sy,axis)); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("G",g); shp(e.shape());
}
#define AX(N,X) \
 void vf_##N##_20() { D2; vfu p=vf_dim("p"),q=vf_dim("q"); ax({p,q},{m,n},0,[](auto const& x){ return X(0)(x); }); } \
 void vf_##N##_21() { D2; vfu p=vf_dim("p"),q=vf_dim("q"); ax({p,q},{m,n},1,[](auto const& x){ return X(1)(x); }); } \
 void vf_##N##_30() { D3; vfu p=vf_dim("p"),q=vf_dim("q"); ax({p,q},{l,m,n},0,[](auto const& x){ return X(0)(x); }); } \
 void vf_##N##_31() { D3; vfu p=vf_dim("p"),q=vf_dim("q"); ax({p,q},{l,m,n},1,[](auto const& x){ return X(1)(x); }); } \
 void vf_##N##_32() { D3; vfu p=vf_dim("p"),q=vf_dim("q"),r=vf_dim("r"); ax({p,q,r},{l,m,n},2,[](auto const& x){ return X(2)(x); }); }
AX(rsum,reduce_sum)
AX(rmin,reduce_min)
AX(rmax,reduce_max)
AX(amax,argmax)
AX(amin,argmin)
#define DEF(N,X) void vf_##N##_def() { D3; vfu p=vf_dim("p"),q=vf_dim("q"); ax({p,q},{l,m,n},2,[](auto const& x){ return X(x); }); }
void vf_rsum_def() { D3; vfu p=vf_dim("p"),q=vf_dim("q"); VD x=vf_v("X",{l,m,n}); auto e=reduce_sum(-1UL)(x); TD y=e.forward(); TD g=vf_t("G",{l,m}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); shp(e.shape()); }
void vf_rmin_def() { D3; VD x=vf_v("X",{l,m,n}); auto e=reduce_min()(x); TD y=e.forward(); TD g=vf_t("G",{l,m}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); shp(e.shape()); }
void vf_rmax_def() { D3; VD x=vf_v("X",{l,m,n}); auto e=reduce_max()(x); TD y=e.forward(); TD g=vf_t("G",{l,m}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); shp(e.shape()); }
// over the whole tensor
template< typename F > static void all( F const& f )
{
    D2; vfu p=vf_dim("p");
    VD x=vf_v("X1",{p}); auto e=f(x); TD y1=e.forward(); TD g1=vf_t("G1",{1}); e.backward(g1); vf_o("Y1",y1); vf_o("GX1",x.gradient());
    x.data()=vf_t("X",{m,n}); vf_new_step();
    TD y=e.forward(); TD g=vf_t("G",{1}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("G",g); shp(e.shape());
}
void vf_sum() { all([](auto const& x){ return sum_reduce(x); }); }
void vf_sum2() { all([](auto const& x){ return ceras::reduce_sum(x); }); }
// the value of the mean (its gradient: vf_mean_grad)
template< typename F > static void mv( F const& f ) { D2; vfu p=vf_dim("p"); VD x=vf_v("X1",{p}); auto e=f(x); TD y1=e.forward(); vf_o("Y1",y1); x.data()=vf_t("X",{m,n}); vf_new_step(); TD y=e.forward(); vf_o("Y",y); vf_o("X",x.data()); shp(e.shape()); }
void vf_mean() { mv([](auto const& x){ return mean_reduce(x); }); }
void vf_mean2() { mv([](auto const& x){ return ceras::reduce_mean(x); }); }
void vf_mean3() { mv([](auto const& x){ return ceras::mean(x); }); }
void vf_mean_grad() { D2; VD x=vf_v("X",{m,n}); auto e=mean_reduce(x); TD y=e.forward(); TD g=vf_t("G",{1}); e.backward(g); vf_o("GX",x.gradient()); vf_o("G",g); }
void vf_mean_col() { D2; VD x=vf_v("X",{m,1}); auto e=mean_reduce(x); TD y=e.forward(); TD g=vf_t("G",{1}); e.backward(g); vf_o("GX",x.gradient()); vf_o("G",g); }
// the gradient of the mean is the same in every cell and proportional to the upstream gradient
void vf_mean_uniform() { D2; VD x=vf_v("X",{m,n}); auto e=mean_reduce(x); TD y=e.forward(); TD g=vf_t("G",{1}); e.backward(g); vf_o("GX",x.gradient()); vf_valu("same",x.gradient().size());
  VD z=vf_v("Z",{m,n}); auto f=mean_reduce(z); TD w=f.forward(); TD h=vf_t("H",{1}); f.backward(h); vf_o("GZ",z.gradient()); vf_o("X",x.data()); vf_o("G",g); }
