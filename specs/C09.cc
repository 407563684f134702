// C09  pooling: value and gradient
using namespace ceras;
static void shp( vfs const& s ) { vf_valu("rank",s.size()); for ( vfu i = 0; i != s.size(); ++i ) { const char* nm[6]={"s0","s1","s2","s3","s4","s5"}; vf_valu(nm[i],s[i]); } }
#define PIC vfu b=vf_dim("b"),h=vf_dim("h"),w=vf_dim("w"),c=vf_dim("c")
template< typename F > static void one( vfs const& sx, vfs const& sg, F const& f )
{
    VD x=vf_v("X",sx); auto e=f(x); TD y=e.forward(); TD g=vf_t("G",sg); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("G",g); shp(e.shape());
}
template< typename F > static void two( vfs const& sx1, vfs const& sg1, vfs const& sx, vfs const& sg, F const& f )
{
    VD x=vf_v("X1",sx1); auto e=f(x); TD y1=e.forward(); TD g1=vf_t("G1",sg1); e.backward(g1); vf_o("Y1",y1); vf_o("GX1",x.gradient());
    x.data()=vf_t("X",sx); vf_new_step();
    TD y=e.forward(); TD g=vf_t("G",sg); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("G",g); shp(e.shape());
}
// whole windows, any stride
#define ANY(N,F) void vf_##N##_any() { PIC; vfu s=vf_dim("s"); vf_assume(s>=2); one({b,h*s,w*s,c},{b,h,w,c},F(s)); }
// a rest of rows and columns that no window covers
#define REST(N,F) void vf_##N##_rest() { PIC; vfu t=vf_dim("t"),u=vf_dim("u"); vf_assume(t<3); vf_assume(u<3); one({b,h*3+t,w*3+u,c},{b,h,w,c},F(3)); }
#define TWO(N,F) void vf_##N##_two() { PIC; one({b,2*h,2*w,c},{b,h,w,c},F(2)); }
#define ODD(N,F) void vf_##N##_odd() { PIC; one({b,2*h+1,2*w,c},{b,h,w,c},F(2)); }
#define AGAIN(N,F) void vf_##N##_again() { PIC; vfu p=vf_dim("p"),q=vf_dim("q"),r=vf_dim("r"); two({p,2*q,2*r,c},{p,q,r,c},{b,2*h,2*w,c},{b,h,w,c},F(2)); }
#define SAME(N,F) void vf_##N##_same() { PIC; two({b,2*h,2*w,c},{b,h,w,c},{b,2*h,2*w,c},{b,h,w,c},F(2)); }
// one picture pooled in two nodes made by the same operator
#define BOTH(N,F) void vf_##N##_both() { PIC; VD x=vf_v("X",{b,2*h,2*w,c}); VD z=vf_v("Z",{b,2*h,2*w,c}); auto f=F(2); auto e=f(x)-f(z); TD y=e.forward(); TD g=vf_t("G",{b,h,w,c}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("GZ",z.gradient()); vf_o("X",x.data()); vf_o("Z",z.data()); vf_o("G",g); }
#define ALL(N,F) ANY(N,F) REST(N,F) TWO(N,F) ODD(N,F) AGAIN(N,F) SAME(N,F) BOTH(N,F)
ALL(max,max_pooling_2d)
ALL(avg,average_pooling_2d)
