// C08  convolution: value and both gradients
using namespace ceras;
static void shp( vfs const& s ) { vf_valu("rank",s.size()); for ( vfu i = 0; i != s.size(); ++i ) { const char* nm[6]={"s0","s1","s2","s3","s4","s5"}; vf_valu(nm[i],s[i]); } }
#define PIC vfu b=vf_dim("b"),oh=vf_dim("oh"),ow=vf_dim("ow"),c=vf_dim("c")
#define KER vfu kr=vf_dim("kr"),kc=vf_dim("kc")
#define OUTC vfu o=vf_dim("o")
#define STR vfu sr=vf_dim("sr"),sc=vf_dim("sc")
#define DIL vfu dr=vf_dim("dr"),dc=vf_dim("dc")
#define PADD vfu pr=vf_dim("pr"),pc=vf_dim("pc")
// cells are numbered in 32 bits
static void small( vfs const& s ) { vfu t=1; for ( auto x : s ) t=t*x; vf_assume(t<=1000000000); }
template< typename F > static void one( vfs const& sx, vfs const& sg, F const& f )
{
    small(sx); VD x=vf_v("X",sx); auto e=f(x); TD y=e.forward(); TD g=vf_t("G",sg); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("G",g); shp(e.shape());
}
template< typename F > static void two( vfs const& sx1, vfs const& sg1, vfs const& sx, vfs const& sg, F const& f )
{
    small(sx); small(sx1); VD x=vf_v("X1",sx1); auto e=f(x); TD y1=e.forward(); TD g1=vf_t("G1",sg1); e.backward(g1); vf_o("Y1",y1); vf_o("GX1",x.gradient());
    x.data()=vf_t("X",sx); vf_new_step();
    TD y=e.forward(); TD g=vf_t("G",sg); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("G",g); shp(e.shape());
}
// image to columns
void vf_col() { PIC; KER; one({b,oh+kr-1,ow+kc-1,c},{kr*kc*c,b*oh*ow},img2col(kr,kc)); }
void vf_col_sq() { PIC; vfu kr=vf_dim("kr"); one({b,oh+kr-1,ow+kr-1,c},{kr*kr*c,b*oh*ow},img2col(kr)); }
void vf_col_st() { PIC; KER; STR; one({b,(oh-1)*sr+kr,(ow-1)*sc+kc,c},{kr*kc*c,b*oh*ow},img2col(kr,kc,0,0,sr,sc)); }
void vf_col_dil() { PIC; KER; DIL; one({b,oh+(kr-1)*dr,ow+(kc-1)*dc,c},{kr*kc*c,b*oh*ow},img2col(kr,kc,0,0,1,1,dr,dc)); }
void vf_col_pad() { vfu b=vf_dim("b"),h=vf_dim("h"),w=vf_dim("w"),c=vf_dim("c"); KER; PADD; vf_assume(kr<=h); vf_assume(kc<=w); one({b,h,w,c},{kr*kc*c,b*(h+2*pr-kr+1)*(w+2*pc-kc+1)},img2col(kr,kc,pr,pc)); }
void vf_col_rest() { PIC; vfu t=vf_dim("t"),u=vf_dim("u"); vf_assume(t<3); vf_assume(u<2); one({b,(oh-1)*3+2+t,(ow-1)*2+3+u,c},{6*c,b*oh*ow},img2col(2,3,0,0,3,2)); }
void vf_col_two() { PIC; KER; vfu p=vf_dim("p"),q=vf_dim("q"),r=vf_dim("r"); two({p,q+kr-1,r+kc-1,c},{kr*kc*c,p*q*r},{b,oh+kr-1,ow+kc-1,c},{kr*kc*c,b*oh*ow},img2col(kr,kc)); }
void vf_col_two_pad() { vfu b=vf_dim("b"),h=vf_dim("h"),w=vf_dim("w"),c=vf_dim("c"),p=vf_dim("p"),q=vf_dim("q"),r=vf_dim("r"); two({p,q,r,c},{9*c,p*q*r},{b,h,w,c},{9*c,b*h*w},img2col(3,3,1,1)); }
// convolution
template< typename F > static void conv( vfs const& sx, vfs const& sk, vfs const& sy, F const& f )
{
    small(sx); VD x=vf_v("X",sx); VD k=vf_v("K",sk); auto e=f(x,k); TD y=e.forward(); TD g=vf_t("G",sy); e.backward(g);
    vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("GK",k.gradient()); vf_o("X",x.data()); vf_o("K",k.data()); vf_o("G",g);
}
void vf_conv() { PIC; KER; OUTC; conv({b,oh+kr-1,ow+kc-1,c},{o,kr,kc,c},{b,oh,ow,o},conv2d(oh+kr-1,ow+kc-1)); }
void vf_conv_valid() { PIC; KER; OUTC; conv({b,oh+kr-1,ow+kc-1,c},{o,kr,kc,c},{b,oh,ow,o},conv2d(oh+kr-1,ow+kc-1,1,1,1,1,"valid")); }
void vf_conv_11() { PIC; OUTC; conv({b,oh,ow,c},{o,1,1,c},{b,oh,ow,o},conv2d(oh,ow)); }
void vf_conv_st() { PIC; KER; OUTC; STR; conv({b,(oh-1)*sr+kr,(ow-1)*sc+kc,c},{o,kr,kc,c},{b,oh,ow,o},conv2d((oh-1)*sr+kr,(ow-1)*sc+kc,sr,sc)); }
void vf_conv_dil() { PIC; KER; OUTC; DIL; conv({b,oh+(kr-1)*dr,ow+(kc-1)*dc,c},{o,kr,kc,c},{b,oh,ow,o},conv2d(oh+(kr-1)*dr,ow+(kc-1)*dc,1,1,dr,dc)); }
void vf_conv_same() { vfu b=vf_dim("b"),h=vf_dim("h"),w=vf_dim("w"),c=vf_dim("c"); OUTC; conv({b,h,w,c},{o,3,3,c},{b,h,w,o},conv2d(h,w,1,1,1,1,"same")); }
void vf_conv_same53() { vfu b=vf_dim("b"),h=vf_dim("h"),w=vf_dim("w"),c=vf_dim("c"); OUTC; conv({b,h,w,c},{o,5,3,c},{b,h,w,o},conv2d(h,w,1,1,1,1,"same")); }
void vf_conv_same_dil() { vfu b=vf_dim("b"),h=vf_dim("h"),w=vf_dim("w"),c=vf_dim("c"); OUTC; conv({b,h,w,c},{o,3,3,c},{b,h,w,o},conv2d(h,w,1,1,2,1,"same")); }
void vf_conv_gen() { PIC; KER; OUTC; conv({b,oh+kr-1,ow+kc-1,c},{o,kr,kc,c},{b,oh,ow,o},general_conv2d()); }
void vf_conv_gen_same() { vfu b=vf_dim("b"),h=vf_dim("h"),w=vf_dim("w"),c=vf_dim("c"); OUTC; conv({b,h,w,c},{o,3,3,c},{b,h,w,o},general_conv2d(1,1,1,1,"same")); }
void vf_conv_gen_same_dil() { vfu b=vf_dim("b"),h=vf_dim("h"),w=vf_dim("w"),c=vf_dim("c"); OUTC; conv({b,h,w,c},{o,3,3,c},{b,h,w,o},general_conv2d(1,1,1,2,"same")); }
void vf_conv_gen_same_dil31() { vfu b=vf_dim("b"),h=vf_dim("h"),w=vf_dim("w"),c=vf_dim("c"); OUTC; conv({b,h,w,c},{o,3,5,c},{b,h,w,o},general_conv2d(1,1,3,1,"same")); }
void vf_conv_same_dil12() { vfu b=vf_dim("b"),h=vf_dim("h"),w=vf_dim("w"),c=vf_dim("c"); OUTC; conv({b,h,w,c},{o,3,3,c},{b,h,w,o},conv2d(h,w,1,1,1,2,"same")); }
void vf_conv_gen_st() { PIC; KER; OUTC; STR; conv({b,(oh-1)*sr+kr,(ow-1)*sc+kc,c},{o,kr,kc,c},{b,oh,ow,o},general_conv2d(sr,sc)); }
void vf_conv_gen_dil() { PIC; KER; OUTC; DIL; conv({b,oh+(kr-1)*dr,ow+(kc-1)*dc,c},{o,kr,kc,c},{b,oh,ow,o},general_conv2d(1,1,dr,dc)); }
// the same convolution for another batch, and two convolutions of one image
void vf_conv_again()
{
    PIC; KER; OUTC; vfu p=vf_dim("p");
    small({p,oh+kr-1,ow+kc-1,c}); small({b,oh+kr-1,ow+kc-1,c}); VD x=vf_v("X1",{p,oh+kr-1,ow+kc-1,c}); VD k=vf_v("K",{o,kr,kc,c}); auto e=conv2d(oh+kr-1,ow+kc-1)(x,k); TD y1=e.forward(); vf_o("Y1",y1); TD g1=vf_t("G1",{p,oh,ow,o}); e.backward(g1);
    x.data()=vf_t("X",{b,oh+kr-1,ow+kc-1,c}); vf_new_step();
    TD y=e.forward(); TD g=vf_t("G",{b,oh,ow,o}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("GK",k.gradient());
}
void vf_conv_both()
{
    PIC; vfu kr=vf_dim("kr"); OUTC;
    small({b,oh+kr-1,ow+kr-1,c}); VD x=vf_v("X",{b,oh+kr-1,ow+kr-1,c}); VD k=vf_v("K",{o,kr,kr,c}); VD q=vf_v("Q",{o,kr,kr,c}); auto cv=conv2d(oh+kr-1,ow+kr-1); auto e=cv(x,k)+cv(x,q);
    TD y=e.forward(); TD g=vf_t("G",{b,oh,ow,o}); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("GK",k.gradient()); vf_o("GQ",q.gradient());
}
