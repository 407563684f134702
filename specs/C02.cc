// C02  element-wise tensor arithmetic with broadcasting
using namespace ceras;
static void fin( TD const& c, TD const& a, TD const& b ) { vf_o("C",c); vf_o("A",a); vf_o("B",b); }
#define TWO(SA,SB) TD a=vf_t("A",vfs SA), b=vf_t("B",vfs SB)
#define D2 vfu m=vf_dim("m"),n=vf_dim("n")
#define D3 vfu l=vf_dim("l"),m=vf_dim("m"),n=vf_dim("n")
void vf_add11() { vfu n=vf_dim("n"); TWO(({n}),({n})); fin(a+b,a,b); }
void vf_add22() { D2; TWO(({m,n}),({m,n})); fin(a+b,a,b); }
void vf_add33() { D3; TWO(({l,m,n}),({l,m,n})); fin(add(a,b),a,b); }
void vf_add21() { D2; TWO(({m,n}),({n})); fin(a+b,a,b); }
void vf_add12() { D2; TWO(({n}),({m,n})); fin(a+b,a,b); }
void vf_add2r() { D2; TWO(({m,n}),({1,n})); fin(a+b,a,b); }
void vf_add2c() { D2; TWO(({m,n}),({m,1})); fin(a+b,a,b); }
void vf_addcr() { D2; TWO(({m,1}),({1,n})); fin(a+b,a,b); }
void vf_addrc() { D2; TWO(({1,n}),({m,1})); fin(a+b,a,b); }
void vf_add2s() { D2; TWO(({m,n}),({1})); fin(a+b,a,b); }
void vf_adds2() { D2; TWO(({1}),({m,n})); fin(a+b,a,b); }
void vf_add31() { D3; TWO(({l,m,n}),({n})); fin(a+b,a,b); }
void vf_add32() { D3; TWO(({l,m,n}),({m,n})); fin(a+b,a,b); }
void vf_add3m() { D3; TWO(({l,m,n}),({l,1,n})); fin(a+b,a,b); }
void vf_add3k() { D3; TWO(({l,m,n}),({m,1})); fin(a+b,a,b); }
void vf_add1b() { D3; TWO(({1,m,n}),({l,m,1})); fin(a+b,a,b); }
void vf_add43() { D3; vfu k=vf_dim("k"); TWO(({k,l,m,n}),({k,1,1,n})); fin(a+b,a,b); }
void vf_sub22() { D2; TWO(({m,n}),({m,n})); fin(a-b,a,b); }
void vf_sub11() { vfu n=vf_dim("n"); TWO(({n}),({n})); fin(minus(a,b),a,b); }
void vf_sub21() { D2; TWO(({m,n}),({n})); fin(a-b,a,b); }
void vf_sub12() { D2; TWO(({n}),({m,n})); fin(a-b,a,b); }
void vf_sub2c() { D2; TWO(({m,n}),({m,1})); fin(a-b,a,b); }
void vf_subcr() { D2; TWO(({m,1}),({1,n})); fin(a-b,a,b); }
void vf_sub3m() { D3; TWO(({l,1,n}),({l,m,n})); fin(a-b,a,b); }
void vf_addself() { D2; TD a=vf_t("A",{m,n}); TD c=a+a; vf_o("C",c); vf_o("A",a); }
void vf_subself() { D2; TD a=vf_t("A",{m,n}); TD c=a-a; vf_o("C",c); vf_o("A",a); }
void vf_mixed() { D2; TD a=vf_t("A",{m,n}), b=vf_t("B",{m,n}); TD c=a+b; TD d=a-b; vf_o("C",c); vf_o("D",d); vf_o("A",a); vf_o("B",b); }
// scalar operands
void vf_s_add() { D2; double s=vf_real("s"); TD a=vf_t("A",{m,n}); TD c=a+s; TD d=s+a; vf_o("C",c); vf_o("D",d); vf_o("A",a); }
void vf_s_sub() { D2; double s=vf_real("s"); TD a=vf_t("A",{m,n}); TD c=a-s; TD d=s-a; vf_o("C",c); vf_o("D",d); vf_o("A",a); }
void vf_s_mul() { D2; double s=vf_real("s"); TD a=vf_t("A",{m,n}); TD c=a*s; TD d=s*a; vf_o("C",c); vf_o("D",d); vf_o("A",a); }
void vf_s_div() { D2; double s=vf_pos("s"); TD a=vf_t("A",{m,n}); TD c=a/s; vf_o("C",c); vf_o("A",a); }
void vf_neg() { D2; TD a=vf_t("A",{m,n}); TD c=-a; vf_o("C",c); vf_o("A",a); }
void vf_abs() { D2; TD a=vf_t("A",{m,n}); TD c=ceras::abs(a); vf_o("C",c); vf_o("A",a); }
// in place
void vf_i_add() { D2; TWO(({m,n}),({m,n})); TD old=a.deep_copy(); a+=b; fin(a,old,b); }
void vf_i_sub() { D2; TWO(({m,n}),({m,n})); TD old=a.deep_copy(); a-=b; fin(a,old,b); }
void vf_i_mul() { D2; TWO(({m,n}),({m,n})); TD old=a.deep_copy(); a*=b; fin(a,old,b); }
void vf_i_div() { D2; TD a=vf_t("A",{m,n}), b=vf_t("B",{m,n},1); TD old=a.deep_copy(); a/=b; fin(a,old,b); }
void vf_is_add() { D2; double s=vf_real("s"); TD a=vf_t("A",{m,n}); a+=s; vf_o("C",a); }
void vf_is_sub() { D2; double s=vf_real("s"); TD a=vf_t("A",{m,n}); a-=s; vf_o("C",a); }
void vf_is_mul() { D2; double s=vf_real("s"); TD a=vf_t("A",{m,n}); a*=s; vf_o("C",a); }
void vf_is_div() { D2; double s=vf_pos("s"); TD a=vf_t("A",{m,n}); a/=s; vf_o("C",a); }
// element-wise product and quotient
void vf_ep22() { D2; TWO(({m,n}),({m,n})); fin(elementwise_product(a,b),a,b); }
void vf_ep21() { D2; TWO(({m,n}),({n})); fin(elementwise_product(a,b),a,b); }
void vf_ep12() { D2; vf_assume(m>1); TWO(({n}),({m,n})); fin(hadamard_product(a,b),a,b); }
void vf_ep32() { D3; TWO(({l,m,n}),({m,n})); fin(elementwise_product(a,b),a,b); }
void vf_ep31() { D3; TWO(({l,m,n}),({n})); fin(elementwise_product(a,b),a,b); }
void vf_ed22() { D2; TD a=vf_t("A",{m,n}), b=vf_t("B",{m,n},1); fin(elementwise_divide(a,b),a,b); }
// shape of a broadcast and explicit broadcasting
void vf_bshape() { D3; std::vector<vfu> s=broadcast_shape({l,1,n},{m,n}); vf_valu("r",s.size()); vf_valu("s0",s[0]); vf_valu("s1",s[1]); vf_valu("s2",s[2]); }
void vf_btens() { D3; TD b=vf_t("B",{m,1}); TD c=broadcast_tensor(b,{l,m,n}); vf_o("C",c); vf_o("B",b); }
void vf_btens1() { D2; TD b=vf_t("B",{1,n}); TD c=broadcast_tensor(b,{m,n}); vf_o("C",c); vf_o("B",b); }
