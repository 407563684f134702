// C04  the tensor as a value: construction, copies and sharing, shape changes, placement of cells
using namespace ceras;
#define D2 vfu m=vf_dim("m"),n=vf_dim("n")
#define D3 vfu l=vf_dim("l"),m=vf_dim("m"),n=vf_dim("n")
#define D4 vfu k=vf_dim("k"),l=vf_dim("l"),m=vf_dim("m"),n=vf_dim("n")
#define Q(T) { vf_valu("size",T.size()); vf_valu("ndim",T.ndim()); vf_valu("size2",ceras::size(T)); vf_valu("ndim2",ceras::ndim(T)); vf_check("not_empty",!T.empty()); vf_check("not_empty2",!ceras::empty(T)); }
// construction
void vf_mk1() { vfu n=vf_dim("n"); TD a{ vfs{n} }; vf_o("Z",a); Q(a); }
void vf_mk3() { D3; TD a{ vfs{l,m,n} }; vf_o("Z",a); Q(a); }
void vf_mk_list() { D2; TD a({m,n}); vf_o("Z",a); Q(a); }
void vf_mk_val() { D3; double s=vf_real("s"); TD a( vfs{l,m,n}, s ); TD b( {m,n}, s ); vf_o("A",a); vf_o("B",b); }
void vf_mk_init() { double s=vf_real("s"),t=vf_real("t"); TD a( vfs{2,1}, {s,t} ); TD b( {1,3}, {t,s,t} ); vf_o("A",a); vf_o("B",b); }
void vf_mk_none() { TD a; vf_valu("size",a.size()); vf_valu("ndim",a.ndim()); vf_check("empty",a.empty()); }
void vf_mk_zeros() { D3; TD a=zeros<double>({l,m,n}); TD b=zeros_like(vf_t("B",{m,n})); vf_o("Z",a); vf_o("Z2",b); }
void vf_mk_ones() { D3; TD a=ones<double>({l,m,n}); TD b=ones_like(vf_t("B",{m,n})); vf_o("A",a); vf_o("C",b); }
void vf_as_tensor() { double s=vf_real("s"); TD a=as_tensor(s); vf_o("A",a); vf_val("v",a.as_scalar()); }
// sharing and independence
void vf_copy_shares() { D2; TD a=vf_t("A",{m,n}); TD b=a; TD c; c=a; b.map([](auto& v){v+=1.0;}); vf_o("A",a); vf_o("B",b); vf_o("C",c); vf_check("same",a.data()==b.data()&&c.data()==a.data()); }
void vf_copy_shape() { D2; TD a=vf_t("A",{m,n}); TD b=a; b.reshape({n,m}); vf_o("A",a); vf_o("B",b); }
void vf_deep() { D2; TD a=vf_t("A",{m,n}); TD b=a.deep_copy(), c=a.copy(), d=ceras::deep_copy(a), e=ceras::copy(a); b.map([](auto& v){v+=1.0;}); c*=2.0; d.reset(); e-=3.0; vf_o("A",a); vf_o("B",b); vf_o("C",c); vf_o("D",d); vf_o("E",e); }
void vf_deep_src() { D2; TD a=vf_t("A",{m,n}); TD b=a.deep_copy(); a.reset(); vf_o("A",a); vf_o("B",b); }
void vf_deep_into() { D2; vfu p=vf_dim("p"); TD a=vf_t("A",{m,n}); TD b=vf_t("B",{p}); b.deep_copy(a); b*=2.0; vf_o("A",a); vf_o("B",b); }
void vf_deep_into_same() { D2; TD a=vf_t("A",{m,n}); TD b=vf_t("B",{n,m}); b.deep_copy(a); b*=2.0; vf_o("A",a); vf_o("B",b); }
void vf_assign_keeps() { D2; vfu p=vf_dim("p"); TD a=vf_t("A",{m,n}); TD b=vf_t("B",{p}); TD c=b; b=a; b+=1.0; vf_o("A",a); vf_o("B",b); vf_o("C",c); }
void vf_self_assign() { D2; TD a=vf_t("A",{m,n}); TD& r=a; a=r; vf_o("A",a); }
void vf_move() { D2; TD a=vf_t("A",{m,n}); TD b=std::move(a); TD c=vf_t("C",{n}); c=std::move(b); vf_o("B",c); }
void vf_chain_copy() { D2; TD a=vf_t("A",{m,n}); TD b=a.deep_copy(); TD c=b; c.reset(1.0); vf_o("A",a); vf_o("B",b); }
// element access
void vf_index() { D2; vfu i=vf_dim("i",0); vf_assume(i<m*n); double s=vf_real("s"); TD a=vf_t("A",{m,n}); TD const& r=a; vf_val("v",r[i]); a[i]=s; vf_val("w",r[i]); vf_o("A",a); }
void vf_begin() { D2; TD a=vf_t("A",{m,n}); TD const& c=a; vf_check("len",a.end()-a.begin()==(long)(m*n) && c.cend()-c.cbegin()==(long)(m*n)); vf_val("f",*a.begin()); vf_val("l",*(a.end()-1)); vf_val("rf",*a.rbegin()); vf_val("rl",*(a.rend()-1)); vf_val("cf",*c.cbegin()); vf_val("crf",*c.crbegin()); vf_val("crl",*(c.crend()-1));
    vf_check("free",ceras::begin(a)==a.begin()&&ceras::end(a)==a.end()&&ceras::data(a)==a.data()&&ceras::cbegin(c)==c.begin()&&ceras::cend(c)==c.end()); }
void vf_walk() { D2; TD a=vf_t("A",{m,n}); double s=0.0; for ( auto v : a ) s+=v; vf_val("s",s); for ( auto& v : a ) v=2.0*v; vf_o("A",a); }
void vf_rwalk() { vfu n=vf_dim("n"); TD a=vf_t("A",{n}); TD b{vfs{n}}; std::copy(a.rbegin(),a.rend(),b.begin()); vf_o("B",b); vf_o("A",a); }
// shape changes
void vf_reshape() { D3; TD a=vf_t("A",{l,m,n}); a.reshape({n,l*m}); vf_o("A",a); Q(a); }
void vf_reshape_auto() { D3; TD a=vf_t("A",{l,m,n}); TD b=vf_t("B",{l*m,n}); a.reshape({m,-1UL}); b.reshape({n,l,-1UL}); vf_o("A",a); vf_o("B",b); }
void vf_reshape_up() { D2; TD a=vf_t("A",{m*n}); a.reshape({m,1,n,1}); vf_o("A",a); }
void vf_reshape_free() { D2; TD a=vf_t("A",{m,n}); TD const& r=a; TD b=ceras::reshape(r,{n,m}); vf_o("A",a); vf_o("B",b); }
void vf_resize_same() { D2; TD a=vf_t("A",{m,n}); a.resize({n,m,1}); vf_o("A",a); }
void vf_resize_any() { D2; vfu p=vf_dim("p"); TD a=vf_t("A",{m,n}); a.resize({p,p}); a.reset(1.0); vf_o("A",a); Q(a); }
void vf_resize_none() { D2; TD a; a.resize({m,n}); a.reset(2.0); vf_o("A",a); Q(a); }
void vf_reset() { D2; double s=vf_real("s"); TD a=vf_t("A",{m,n}); TD b=a.deep_copy(); a.reset(s); vf_o("A",a); vf_o("B",b); ceras::reset(b); vf_o("C",b); }
void vf_map() { D3; TD a=vf_t("A",{l,m,n}); a.map([](auto& v){ v=v*v+1.0; }); vf_o("A",a); TD b=vf_t("B",{m,n}); ceras::map(b,[](auto& v){ v=-v; }); vf_o("B",b); }
void vf_as_type() { D2; TD a=vf_t("A",{m,n}); auto f=a.template as_type<float>(); TD b=f.template as_type<double>(); b+=1.0; vf_o("A",a); vf_o("B",b); }
void vf_squeeze() { D3; vf_assume(l>1); vf_assume(m>1); vf_assume(n>1); TD a=vf_t("A",{1,l,1,m,n,1}); TD b=squeeze(a); vf_o("B",b); vf_o("A",a); }
void vf_squeeze1() { TD a=vf_t("A",{1,1}); TD b=squeeze(a); vf_o("B",b); vf_o("A",a); }
void vf_squeeze_ax0() { D2; TD a=vf_t("A",{1,m,n}); TD b=squeeze(a,0); vf_o("B",b); vf_o("A",a); }
void vf_squeeze_ax1() { D2; TD a=vf_t("A",{m,1,n}); TD b=squeeze(a,1); vf_o("B",b); vf_o("A",a); }
void vf_squeeze_ax2() { D2; TD a=vf_t("A",{m,n,1}); TD b=squeeze(a,2); vf_o("B",b); vf_o("A",a); }
// placement
void vf_repeat1() { vfu n=vf_dim("n"),r=vf_dim("r"); TD a=vf_t("A",{n}); TD b=repeat(a,r); vf_o("B",b); vf_o("A",a); }
void vf_repeat2() { D2; vfu r=vf_dim("r"); TD a=vf_t("A",{m,n}); TD b=repeat(a,r); vf_o("B",b); vf_o("A",a); }
void vf_repmat() { D2; vfu r=vf_dim("r"),c=vf_dim("c"); TD a=vf_t("A",{m,n}); TD b=repmat(a,r,c); vf_o("B",b); vf_o("A",a); }
void vf_clip() { D2; double s=vf_real("s"),t=vf_real("t"); vf_assume(s<=t); TD a=vf_t("A",{m,n}); clip(a,s,t); vf_o("A",a); }
#define CAT(N,P,SA,SB,AX) void vf_cat_##N() { P; vfu p=vf_dim("p"),q=vf_dim("q"); TD a=vf_t("A",SA), b=vf_t("B",SB); TD c=concatenate(a,b,AX); vf_o("C",c); vf_o("A",a); vf_o("B",b); }
#define L1 vfu n=vf_dim("n")
#define B(...) {__VA_ARGS__}
CAT(10,,B(p),B(q),0)
CAT(20,L1,B(p,n),B(q,n),0)
CAT(21,L1,B(n,p),B(n,q),1)
CAT(2d,L1,B(n,p),B(n,q),-1UL)
CAT(30,D2,B(p,m,n),B(q,m,n),0)
CAT(31,D2,B(m,p,n),B(m,q,n),1)
CAT(32,D2,B(m,n,p),B(m,n,q),2)
CAT(41,D3,B(l,p,m,n),B(l,q,m,n),1)
CAT(43,D3,B(l,m,n,p),B(l,m,n,q),3)
CAT(rank,L1,B(n,p),B(q),1)
CAT(rank3,D2,B(m,n,p),B(q),-1UL)
CAT(rank32,D2,B(m,n,p),B(n,q),-1UL)
void vf_cat_self() { D2; TD a=vf_t("A",{m,n}); TD c=concatenate(a,a); vf_o("C",c); vf_o("A",a); }
#define FLIP(N,P,SA,AX) void vf_flip_##N() { P; TD a=vf_t("A",SA); TD c=flip(a,AX); vf_o("C",c); vf_o("A",a); }
FLIP(10,L1,B(n),0)
FLIP(1d,L1,B(n),-1)
FLIP(20,D2,B(m,n),0)
FLIP(21,D2,B(m,n),1)
FLIP(2d,D2,B(m,n),-1)
FLIP(30,D3,B(l,m,n),0)
FLIP(31,D3,B(l,m,n),1)
FLIP(3d,D3,B(l,m,n),-1)
FLIP(40,D4,B(k,l,m,n),0)
FLIP(41,D4,B(k,l,m,n),1)
FLIP(42,D4,B(k,l,m,n),2)
FLIP(4d,D4,B(k,l,m,n),-1)
void vf_flip_into() { D2; vfu p=vf_dim("p"); TD a=vf_t("A",{m,n}); TD c=vf_t("C",{p}); flip(a,0,c); vf_o("C",c); vf_o("A",a); }
void vf_flip_twice() { D3; TD a=vf_t("A",{l,m,n}); TD c=flip(flip(a,1),1); vf_o("C",c); vf_o("A",a); }
