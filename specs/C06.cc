// C06  binary operators of the computation graph: value and gradient of both operands, with broadcasting
using namespace ceras;
template< typename F > static void bi( vfs const& sa, vfs const& sb, vfs const& so, int da, int db, F const& f )
{
    VD a=vf_v("A",sa,da), b=vf_v("B",sb,db); auto e=f(a,b);
    TD c=e.forward(); TD g=vf_t("G",so); e.backward(g);
    vf_o("C",c); vf_o("GA",a.gradient()); vf_o("GB",b.gradient()); vf_o("A",a.data()); vf_o("B",b.data()); vf_o("G",g);
}
// evaluated first with other shapes
template< typename F > static void bi2( int da, int db, F const& f )
{
    vfu p=vf_dim("p"),m=vf_dim("m"),n=vf_dim("n");
    VD a=vf_v("A1",{p},da), b=vf_v("B1",{p},db); auto e=f(a,b);
    TD c1=e.forward(); TD g1=vf_t("G1",{p}); e.backward(g1); vf_o("C1",c1); vf_o("GA1",a.gradient()); vf_o("GB1",b.gradient());
    a.data()=vf_t("A",{m,n},da); b.data()=vf_t("B",{m,n},db); vf_new_step();
    TD c=e.forward(); TD g=vf_t("G",{m,n}); e.backward(g);
    vf_o("C",c); vf_o("GA",a.gradient()); vf_o("GB",b.gradient()); vf_o("GS",a.gradient()+b.gradient()); vf_o("A",a.data()); vf_o("B",b.data()); vf_o("G",g);
}
#define D1 vfu n=vf_dim("n")
#define D2 vfu m=vf_dim("m"),n=vf_dim("n")
#define D3 vfu l=vf_dim("l"),m=vf_dim("m"),n=vf_dim("n")
#define OP(X) [](auto const& a,auto const& b){ return X; }
#define V2(...) vfs{__VA_ARGS__}
#define SHAPES(N,DA,DB,X) \
 void vf_##N##_11() { D1; bi({n},{n},{n},DA,DB,OP(X)); } \
 void vf_##N##_22() { D2; bi({m,n},{m,n},{m,n},DA,DB,OP(X)); } \
 void vf_##N##_21() { D2; bi({m,n},{n},{m,n},DA,DB,OP(X)); } \
 void vf_##N##_12() { D2; vf_assume(m>1); bi({n},{m,n},{m,n},DA,DB,OP(X)); } \
 void vf_##N##_32() { D3; bi({l,m,n},{m,n},{l,m,n},DA,DB,OP(X)); } \
 void vf_##N##_31() { D3; bi({l,m,n},{n},{l,m,n},DA,DB,OP(X)); }
#define UNITS(N,X) \
 void vf_##N##_2r() { D2; bi({m,n},{1,n},{m,n},0,0,OP(X)); } \
 void vf_##N##_2c() { D2; bi({m,n},{m,1},{m,n},0,0,OP(X)); } \
 void vf_##N##_c2() { D2; bi({m,1},{m,n},{m,n},0,0,OP(X)); } \
 void vf_##N##_cr() { D2; bi({m,1},{1,n},{m,n},0,0,OP(X)); } \
 void vf_##N##_3m() { D3; bi({l,m,n},{l,1,n},{l,m,n},0,0,OP(X)); }
SHAPES(plus,0,0,a+b)
UNITS(plus,a+b)
SHAPES(minus,0,0,a-b)
UNITS(minus,a-b)
SHAPES(prod,0,0,elementwise_product(a,b))
SHAPES(div,0,6,a/b)
void vf_plus_f() { D2; bi({m,n},{m,n},{m,n},0,0,OP(plus(a,b))); }
void vf_minus_f() { D2; bi({m,n},{m,n},{m,n},0,0,OP(minus(a,b))); }
void vf_prod_m() { D2; bi({m,n},{m,n},{m,n},0,0,OP(elementwise_multiply(a,b))); }
void vf_prod_h() { D2; bi({m,n},{m,n},{m,n},0,0,OP(hadamard_product(a,b))); }
void vf_div_f() { D2; bi({m,n},{m,n},{m,n},0,6,OP(divide(a,b))); }
void vf_hypot() { D2; bi({m,n},{m,n},{m,n},1,0,OP(ceras::hypot(a,b))); }
void vf_again_plus() { bi2(0,0,OP(a+b)); }
void vf_again_minus() { bi2(0,0,OP(a-b)); }
void vf_again_prod() { bi2(0,0,OP(elementwise_product(a,b))); }
void vf_again_div() { bi2(0,6,OP(a/b)); }
void vf_maximum() { bi2(0,0,OP(maximum(a,b))); }
void vf_minimum() { bi2(0,0,OP(minimum(a,b))); }
void vf_atan2() { bi2(0,1,OP(ceras::atan2(a,b))); }
void vf_equal() { double t=vf_pos("t"); bi2(0,0,[t](auto const& a,auto const& b){ return equal(a,b,t); }); }
// a number as operand, either as value node or arithmetic
template< typename F > static void va( int dom, double s, F const& f )
{
    D2; VD a=vf_v("A",{m,n},dom); value<double> v{s}; auto e=f(a,v); TD c=e.forward(); TD g=vf_t("G",{m,n}); e.backward(g);
    vf_o("C",c); vf_o("GA",a.gradient()); vf_o("A",a.data()); vf_o("G",g);
    std::vector<vfu> s1=e.shape(); vf_valu("rank",s1.size()); vf_valu("s0",s1[0]); vf_valu("s1",s1[1]);
}
void vf_v_add() { va(0,vf_real("s"),OP(a+b)); }
void vf_v_add2() { va(0,vf_real("s"),OP(b+a)); }
void vf_v_sub() { va(0,vf_real("s"),OP(a-b)); }
void vf_v_sub2() { va(0,vf_real("s"),OP(b-a)); }
void vf_v_mul() { va(0,vf_real("s"),OP(a*b)); }
void vf_v_mul2() { va(0,vf_real("s"),OP(b*a)); }
void vf_v_div2() { va(6,vf_real("s"),OP(b/a)); }
void vf_num_div() { double s=vf_real("s"); va(6,s,[s](auto const& a,auto const&){ return s/a; }); }
// shapes announced before evaluation
void vf_shapes() { D3; VD a=vf_v("A",{l,m,n}), b=vf_v("B",{m,n}), c=vf_v("C",{m,1}); auto e=a+b; auto d=c-b; auto f=maximum(b,b);
  vfs s=e.shape(), t=d.shape(), u=f.shape(); vf_valu("r",s.size()); vf_valu("s0",s[0]); vf_valu("s1",s[1]); vf_valu("s2",s[2]); vf_valu("q",t.size()); vf_valu("t0",t[0]); vf_valu("t1",t[1]); vf_valu("u",u.size()); vf_valu("u0",u[0]); vf_valu("u1",u[1]); }
// assignment copies the value of the first operand into the variable
void vf_assign() { D2; VD a=vf_v("A",{m,n}), b=vf_v("B",{m,n}); auto e=assign(a,b); TD c=e.forward(); vf_o("C",c); vf_o("A",a.data()); vf_o("B",b.data());
  TD g=vf_t("G",{m,n}); e.backward(g); vf_o("GA",a.gradient()); vf_o("GB",b.gradient()); }
void vf_like() { D2; VD a=vf_v("A",{m,n}); auto e=ones_like(a); auto f=zeros_like(a); TD c=e.forward(), d=f.forward(); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("GA",a.gradient()); f.backward(g); vf_o("C",c); vf_o("D",d); vf_o("GA2",a.gradient()); vf_o("A",a.data()); vf_o("G",g); }
