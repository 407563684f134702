// C13  back-propagation: chain rule, accumulation over every use of a variable, frozen variables, regularizers
using namespace ceras;
#define D2 vfu m=vf_dim("m"),n=vf_dim("n")
#define FIN(E) TD y=(E).forward(); TD g=vf_t("G",{m,n}); (E).backward(g); vf_o("Y",y); vf_o("GA",a.gradient()); vf_o("A",a.data()); vf_o("G",g)
// a variable used more than once
void vf_twice_plus() { D2; VD a=vf_v("A",{m,n}); auto e=a+a; FIN(e); }
void vf_twice_minus() { D2; VD a=vf_v("A",{m,n}); auto e=square(a)-a; FIN(e); }
void vf_twice_prod() { D2; VD a=vf_v("A",{m,n}); auto e=hadamard_product(a,a); FIN(e); }
void vf_thrice() { D2; VD a=vf_v("A",{m,n}); auto e=hadamard_product(a,hadamard_product(a,a)); FIN(e); }
void vf_twice_mat() { vfu m=vf_dim("m"); vfu n=m; VD a=vf_v("A",{m,n}); auto e=a*a; FIN(e); }
// a sub-expression used more than once
void vf_shared_plus() { D2; VD a=vf_v("A",{m,n}); auto x=exp(a); auto e=x+x; FIN(e); }
void vf_shared_prod() { D2; VD a=vf_v("A",{m,n}); auto x=exp(a); auto e=hadamard_product(x,x); FIN(e); }
void vf_shared_skip() { D2; VD a=vf_v("A",{m,n}); auto x=exp(a); auto e=sin(x)+x; FIN(e); }
void vf_shared_skip2() { D2; VD a=vf_v("A",{m,n}); auto x=exp(a); auto e=x+sin(x); FIN(e); }
void vf_shared_bin() { D2; VD a=vf_v("A",{m,n}), b=vf_v("B",{m,n}); auto x=hadamard_product(a,b); auto e=hadamard_product(x,x); FIN(e); vf_o("GB",b.gradient()); vf_o("B",b.data()); }
void vf_shared_deep() { D2; VD a=vf_v("A",{m,n}); auto x=exp(a); auto y1=sin(x); auto z=y1+x; auto e=hadamard_product(z,y1); FIN(e); }
void vf_shared_mat() { vfu m=vf_dim("m"); vfu n=m; VD a=vf_v("A",{m,n}); auto x=exp(a); auto e=x*x; FIN(e); }
void vf_shared_row() { D2; VD a=vf_v("A",{m,n}), b=vf_v("B",{1,n}); auto x=a+b; auto e=hadamard_product(x,b); FIN(e); vf_o("GB",b.gradient()); vf_o("B",b.data()); }
// chains
void vf_chain() { D2; VD a=vf_v("A",{m,n}); auto e=exp(sin(square(a))); FIN(e); }
void vf_chain_mat() { vfu m=vf_dim("m"),k=vf_dim("k"),l=vf_dim("l"),n=vf_dim("n"); VD a=vf_v("A",{m,k}), b=vf_v("B",{k,l}), c=vf_v("C",{l,n}); auto e=(a*b)*c; FIN(e); vf_o("GB",b.gradient()); vf_o("GC",c.gradient()); }
void vf_affine() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"); VD a=vf_v("A",{m,k}), w=vf_v("W",{k,n}), b=vf_v("B",{1,n}); auto e=a*w+b; FIN(e); vf_o("GW",w.gradient()); vf_o("GB",b.gradient()); vf_o("W",w.data()); vf_o("B",b.data()); }
void vf_affine_tanh() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"); PD a; VD w=vf_v("W",{k,n}), b=vf_v("B",{1,n}); a.bind(vf_t("A",{m,k})); auto e=tanh(a*w+b); TD y=e.forward(); TD g=vf_t("G",{m,n}); e.backward(g);
    vf_o("Y",y); vf_o("GW",w.gradient()); vf_o("GB",b.gradient()); vf_o("W",w.data()); vf_o("B",b.data()); vf_o("G",g); vf_o("A",a.forward()); }
void vf_loss() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"); VD a=vf_v("A",{m,k}), w=vf_v("W",{k,n}); auto e=sum_reduce(square(a*w)); TD y=e.forward(); TD g=vf_t("G",{1}); e.backward(g); vf_o("Y",y); vf_o("GA",a.gradient()); vf_o("GW",w.gradient()); vf_o("G",g); }
// accumulation and reset
void vf_acc() { D2; VD a=vf_v("A",{m,n}); auto e=square(a); e.forward(); TD g=vf_t("G",{m,n}), h=vf_t("H",{m,n}); e.backward(g); e.backward(h); vf_o("GA",a.gradient()); vf_o("G",g); vf_o("H",h); vf_o("A",a.data()); }
void vf_two_exprs() { D2; VD a=vf_v("A",{m,n}); auto e=square(a); auto f=exp(a); e.forward(); f.forward(); TD g=vf_t("G",{m,n}), h=vf_t("H",{m,n}); e.backward(g); f.backward(h); vf_o("GA",a.gradient()); vf_o("G",g); vf_o("H",h); }
void vf_two_exprs_shared() { D2; VD a=vf_v("A",{m,n}); auto x=exp(a); auto e=square(x); auto f=sin(x); e.forward(); f.forward(); TD g=vf_t("G",{m,n}), h=vf_t("H",{m,n}); e.backward(g); f.backward(h); vf_o("GA",a.gradient()); }
void vf_reset() { D2; VD a=vf_v("A1",{m,n}); auto e=square(a)+a; e.forward(); TD g1=vf_t("G1",{m,n}); e.backward(g1); vf_new_step(); a.data()=vf_t("A",{m,n}); FIN(e); }
void vf_session() { D2; VD a=vf_v("A1",{m,n}); auto x=square(a); auto e=x+x; auto& s=get_default_session<TD>(); s.run(e); TD g1=vf_t("G1",{m,n}); e.backward(g1); a.data()=vf_t("A",{m,n}); TD y=s.run(e); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("Y",y); vf_o("GA",a.gradient()); vf_o("A",a.data()); vf_o("G",g); }
void vf_copy() { D2; VD a=vf_v("A",{m,n}); auto e=square(a); auto f=e; TD y=e.forward(); TD g=vf_t("G",{m,n}); f.backward(g); vf_o("Y",y); vf_o("GA",a.gradient()); vf_o("A",a.data()); vf_o("G",g); }
// what is not trained
void vf_frozen() { D2; VD a=vf_v("A",{m,n}); VD b{ vf_t("B",{m,n}), 0.0, 0.0, false }; auto e=hadamard_product(a,b); FIN(e); vf_o("GB",b.gradient()); vf_o("B",b.data()); }
void vf_frozen_l2() { D2; double l=vf_pos("l"); VD b{ vf_t("B",{m,n}), l, l, false }; auto e=square(b); e.forward(); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("GB",b.gradient()); vf_o("B",b.data()); }
void vf_freeze_later() { D2; VD a=vf_v("A",{m,n}), b=vf_v("B",{m,n}); auto e=hadamard_product(a,b); b.trainable(false); FIN(e); vf_o("GB",b.gradient()); vf_o("B",b.data()); }
void vf_unfreeze() { D2; VD a=vf_v("A",{m,n}), b{ vf_t("B",{m,n}), 0.0, 0.0, false }; auto e=hadamard_product(a,b); b.trainable(true); FIN(e); vf_o("GB",b.gradient()); vf_o("B",b.data()); }
void vf_const() { D2; VD a=vf_v("A",{m,n}); CD b{ vf_t("B",{m,n}) }; auto e=hadamard_product(a,b); FIN(e); vf_o("B",b.data()); }
void vf_ph() { D2; VD a=vf_v("A",{m,n}); PD b; b.bind(vf_t("B",{m,n})); auto e=hadamard_product(b,a); FIN(e); vf_o("B",b.forward()); }
// regularizers: their gradient is added once per pass
#define REG(N,L1,L2) void vf_reg_##N() { D2; double p=vf_pos("p"),q=vf_pos("q"); vf_assume(p>=0.001); vf_assume(q>=0.001); VD a{ vf_t("A",{m,n},6), L1, L2 }; auto e=a+a; e.forward(); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("GA",a.gradient()); vf_o("A",a.data()); \
    vf_new_step(); a.data()=vf_t("A2",{m,n},6); e.forward(); TD h=vf_t("H",{m,n}); e.backward(h); vf_o("HA",a.gradient()); vf_o("A2",a.data()); }
REG(l1,p,0.0)
REG(l2,0.0,q)
REG(l12,p,q)
REG(none,0.0,0.0)
void vf_reg_later() { D2; double q=vf_pos("q"); vf_assume(q>=0.001); VD a=vf_v("A",{m,n}); auto e=square(a); a.l2_regularizer()=q; e.forward(); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("GA",a.gradient()); vf_o("A",a.data()); }
