// C07  structural operators of the computation graph: which cell goes where, and the adjoint
using namespace ceras;
#define D2 vfu m=vf_dim("m"),n=vf_dim("n")
#define D3 vfu l=vf_dim("l"),m=vf_dim("m"),n=vf_dim("n")
#define D4 vfu k=vf_dim("k"),l=vf_dim("l"),m=vf_dim("m"),n=vf_dim("n")
#define P1 vfu p=vf_dim("p")
#define P2 P1,q=vf_dim("q")
#define P3 P2,r=vf_dim("r")
#define P4 P3,s=vf_dim("s")
static void shp( vfs const& s ) { vf_valu("rank",s.size()); for ( vfu i = 0; i != s.size(); ++i ) { const char* nm[6]={"s0","s1","s2","s3","s4","s5"}; vf_valu(nm[i],s[i]); } }
// one operator, evaluated first with other contents of another shape
template< typename F > static void two( vfs const& sx1, vfs const& sg1, vfs const& sx, vfs const& sg, F const& f )
{
    VD x=vf_v("X1",sx1); auto e=f(x); TD y1=e.forward(); TD g1=vf_t("G1",sg1); e.backward(g1); vf_o("Y1",y1); vf_o("GX1",x.gradient());
    x.data()=vf_t("X",sx); vf_new_step();
    TD y=e.forward(); TD g=vf_t("G",sg); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("G",g); shp(e.shape());
}
template< typename F > static void one( vfs const& sx, vfs const& sg, F const& f )
{
    VD x=vf_v("X",sx); auto e=f(x); TD y=e.forward(); TD g=vf_t("G",sg); e.backward(g); vf_o("Y",y); vf_o("GX",x.gradient()); vf_o("X",x.data()); vf_o("G",g); shp(e.shape());
}
#define OPR(E) [=](auto const& xx_){ return (E)(xx_); }
// transposition
void vf_tr() { D2; P2; two({p,q},{q,p},{m,n},{n,m},OPR(transpose)); }
void vf_tr_tr() { D2; one({m,n},{m,n},[](auto const& x){ return transpose(transpose(x)); }); }
// reversal along an axis
void vf_flip_10() { vfu n=vf_dim("n"); P1; two({p},{p},{n},{n},OPR(flip(0))); }
void vf_flip_20() { D2; P2; two({p,q},{p,q},{m,n},{m,n},OPR(flip(0))); }
void vf_flip_21() { D2; P2; two({p,q},{p,q},{m,n},{m,n},OPR(flip(1))); }
void vf_flip_2d() { D2; P2; two({p,q},{p,q},{m,n},{m,n},OPR(flip(-1))); }
void vf_flip_30() { D3; P2; two({p,q},{p,q},{l,m,n},{l,m,n},OPR(flip(0))); }
void vf_flip_31() { D3; P2; two({p,q},{p,q},{l,m,n},{l,m,n},OPR(flip(1))); }
void vf_flip_32() { D3; P3; two({p,q,r},{p,q,r},{l,m,n},{l,m,n},OPR(flip(2))); }
void vf_flip_40() { D4; one({k,l,m,n},{k,l,m,n},OPR(flip(0))); }
void vf_flip_41() { D4; one({k,l,m,n},{k,l,m,n},OPR(flip(1))); }
void vf_flip_42() { D4; one({k,l,m,n},{k,l,m,n},OPR(flip(2))); }
void vf_flip_43() { D4; one({k,l,m,n},{k,l,m,n},OPR(flip(3))); }
// shape changes
void vf_reshape_b() { D3; P1; two({p,m,n},{p,m*n},{l,m,n},{l,m*n},OPR(reshape({m*n,}))); }
void vf_reshape_b2() { D3; P1; two({p,m*n},{p,m,n},{l,m*n},{l,m,n},OPR(reshape({m,n}))); }
void vf_reshape_n() { D3; one({l,m*n},{n,m,l},OPR(reshape({n,m,l},false))); }
void vf_flatten2() { D2; P3; two({p,q,r},{p,q*r},{m,n},{m,n},OPR(flatten)); }
void vf_flatten3() { D3; P2; two({p,q},{p,q},{l,m,n},{l,m*n},OPR(flatten)); }
void vf_flatten4() { D4; one({k,l,m,n},{k,l*m*n},OPR(flatten)); }
void vf_expand0() { D2; P1; two({p},{1,p},{m,n},{1,m,n},OPR(expand_dims(0))); }
void vf_expand1() { D2; P1; two({p},{p,1},{m,n},{m,1,n},OPR(expand_dims(1))); }
void vf_expand2() { D2; P3; two({p,q,r},{p,q,1,r},{m,n},{m,n,1},OPR(expand_dims(2))); }
void vf_expandl() { D2; P1; two({p},{p,1},{m,n},{m,n,1},OPR(expand_dims(-1))); }
void vf_squeeze0() { D2; P1; two({1,p},{p},{1,m,n},{m,n},OPR(squeeze(0))); }
void vf_squeeze1() { D2; P1; two({p,1},{p},{m,1,n},{m,n},OPR(squeeze(1))); }
void vf_squeeze2() { D2; one({m,n,1},{m,n},OPR(squeeze(2))); }
void vf_squeezea() { vfu m=vf_dim("m",2),n=vf_dim("n",2); one({1,m,1,n,1},{m,n},OPR(squeeze(-1))); }
void vf_bcast1() { D2; P1; one({n},{m,n},OPR(broadcast({m,n}))); }
void vf_bcast2() { D2; one({1,n},{m,n},OPR(broadcast({m,n}))); }
void vf_bcast3() { D3; two({m,n},{l,m,n},{n},{l,m,n},OPR(broadcast({l,m,n}))); }
void vf_bcast_same() { D2; one({m,n},{m,n},OPR(broadcast({m,n}))); }
void vf_ident() { D2; one({m,n},{m,n},[](auto const& x){ return negative(identity(x)); }); }
// repetition
#define REPD vfu c=vf_dim("c",2)
void vf_rep_10() { REPD; vfu n=vf_dim("n"); P1; two({p},{p*c},{n},{n*c},OPR(repeat(c,0))); }
void vf_rep_20() { REPD; D2; P2; two({p,q},{p*c,q},{m,n},{m*c,n},OPR(repeat(c,0))); }
void vf_rep_21() { REPD; D2; P2; two({p,q},{p,q*c},{m,n},{m,n*c},OPR(repeat(c,1))); }
void vf_rep_2d() { REPD; D2; P3; two({p,q,r},{p,q,r*c},{m,n},{m,n*c},OPR(repeat(c))); }
void vf_rep_30() { REPD; D3; P2; two({p,q},{p*c,q},{l,m,n},{l*c,m,n},OPR(repeat(c,0))); }
void vf_rep_31() { REPD; D3; P2; two({p,q},{p,q*c},{l,m,n},{l,m*c,n},OPR(repeat(c,1))); }
void vf_rep_32() { REPD; D3; P3; two({p,q,r},{p,q,r*c},{l,m,n},{l,m,n*c},OPR(repeat(c,2))); }
void vf_rep_1() { D2; one({m,n},{m,n},OPR(repeat(1,0))); }
// image operators
#define IM vfu b=vf_dim("b"),h=vf_dim("h"),w=vf_dim("w"),c=vf_dim("c")
#define IQ vfu p=vf_dim("p"),q=vf_dim("q"),r=vf_dim("r"),s=vf_dim("s")
void vf_up() { IM; IQ; vfu t=vf_dim("t",2); two({p,q,r,s},{p,q*t,r*t,s},{b,h,w,c},{b,h*t,w*t,c},OPR(up_sampling_2d(t))); }
void vf_up2() { IM; vfu t=vf_dim("t",2); one({b,h,w,c},{b,h*t,w*t,c},OPR(upsampling_2d(t))); }
#define PD4 vfu t=vf_dim("t"),u=vf_dim("u"),v=vf_dim("v"),x=vf_dim("x")
void vf_pad1() { IM; IQ; vfu t=vf_dim("t"); two({p,q,r,s},{p,t+q+t,t+r+t,s},{b,h,w,c},{b,t+h+t,t+w+t,c},OPR(zero_padding_2d({t,}))); }
void vf_pad2() { IM; vfu t=vf_dim("t"),v=vf_dim("v"); one({b,h,w,c},{b,t+h+t,v+w+v,c},OPR(zero_padding_2d({t,v}))); }
void vf_pad4() { IM; IQ; PD4; two({p,q,r,s},{p,t+q+u,v+r+x,s},{b,h,w,c},{b,t+h+u,v+w+x,c},OPR(zero_padding_2d({t,u,v,x}))); }
void vf_crop1() { IM; IQ; vfu t=vf_dim("t"); two({p,t+q+t,t+r+t,s},{p,q,r,s},{b,t+h+t,t+w+t,c},{b,h,w,c},OPR(cropping_2d({t,}))); }
void vf_crop2() { IM; vfu t=vf_dim("t"),v=vf_dim("v"); one({b,t+h+t,v+w+v,c},{b,h,w,c},OPR(cropping_2d({t,v}))); }
void vf_crop4() { IM; IQ; PD4; two({p,t+q+u,v+r+x,s},{p,q,r,s},{b,t+h+u,v+w+x,c},{b,h,w,c},OPR(cropping_2d({t,u,v,x}))); }
void vf_pad_crop() { IM; PD4; one({b,h,w,c},{b,h,w,c},[=](auto const& e){ return cropping_2d({t,u,v,x})( zero_padding_2d({t,u,v,x})( e ) ); }); }
void vf_slide_predict() { IM; vfu t=vf_dim("t"); VD x=vf_v("X",{b,h,w,c}); auto e=sliding_2d(t)(x); learning_phase=0; TD y=e.forward(); learning_phase=1; vf_o("Y",y); vf_o("X",x.data()); shp(e.shape()); }
// joining two tensors
template< typename F > static void join( vfs const& sa, vfs const& sb, vfs const& sg, F const& f )
{
    VD a=vf_v("A",sa), b=vf_v("B",sb); auto e=f(a,b); TD y=e.forward(); TD g=vf_t("G",sg); e.backward(g); vf_o("Y",y); vf_o("GA",a.gradient()); vf_o("GB",b.gradient()); vf_o("A",a.data()); vf_o("B",b.data()); vf_o("G",g); shp(e.shape());
}
#define JN(E) [=](auto const& a, auto const& b){ return E; }
void vf_cat_10() { P1,q=vf_dim("q"); join({p},{q},{p+q},JN(concatenate(a,b)(0))); }
void vf_cat_20() { P2,r=vf_dim("r"); join({p,r},{q,r},{p+q,r},JN(concatenate(a,b)(0))); }
void vf_cat_21() { P3; join({r,p},{r,q},{r,p+q},JN(concatenate(a,b)(1))); }
void vf_cat_2d() { P3; join({r,p},{r,q},{r,p+q},JN(concatenate(a,b)())); }
void vf_cat_2k() { P3; join({r,p},{r,q},{r,p+q},JN(concatenate()(a,b))); }
void vf_cat_2c() { P3; join({r,p},{r,q},{r,p+q},JN(concat(a,b))); }
void vf_cat_2c0() { P3; join({p,r},{q,r},{p+q,r},JN(concat(0)(a,b))); }
void vf_cat_30() { P4; join({p,r,s},{q,r,s},{p+q,r,s},JN(concatenate(0)(a,b))); }
void vf_cat_31() { P4; join({r,p,s},{r,q,s},{r,p+q,s},JN(concatenate(1)(a,b))); }
void vf_cat_32() { P4; join({r,s,p},{r,s,q},{r,s,p+q},JN(concatenate(2)(a,b))); }
void vf_cat_43() { P4; vfu t=vf_dim("t"); join({r,s,t,p},{r,s,t,q},{r,s,t,p+q},JN(concatenate(3)(a,b))); }
void vf_cat_self() { D2; VD a=vf_v("A",{m,n}); auto e=concatenate(a,a)(0); TD y=e.forward(); TD g=vf_t("G",{m+m,n}); e.backward(g); vf_o("Y",y); vf_o("GA",a.gradient()); vf_o("A",a.data()); vf_o("G",g); shp(e.shape()); }
// constants of a shape
void vf_ones() { D2; P1; two({p},{p},{m,n},{m,n},OPR(ones_like)); }
void vf_zeros() { D2; P1; two({p},{p},{m,n},{m,n},OPR(zeros_like)); }
