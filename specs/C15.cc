// C15  optimizers: the update rule, step after step, for every trainable variable and only for those
using namespace ceras;
#define D2 vfu m=vf_dim("m"),n=vf_dim("n")
#define HYP vfu bs=vf_dim("bs"); double lr=vf_pos("lr"); vf_assume(lr>=0.001)
// the gradient of the variable in step k is exactly Gk: the loss is the sum of a*Gk
#define NET VD a=vf_v("A",{m,n}); PD p; auto e=sum_reduce(hadamard_product(a,p)); auto& s=get_default_session<TD>()
#define STEP(K) { s.bind(p,vf_t("G" #K,{m,n},6)); s.run(e); s.run(o); TD d=a.data().deep_copy(); vf_o("A" #K,d); TD g=a.gradient().deep_copy(); vf_o("Z" #K,g); }
#define STEPS STEP(1) STEP(2) STEP(3) STEP(4)
void vf_gd() { D2; HYP; NET; auto o=gradient_descent{e,bs,lr}; STEPS }
void vf_sgd() { D2; HYP; NET; auto o=sgd{e,bs,lr}; STEPS }
void vf_sgd_mom() { D2; HYP; double mu=vf_pos("mu"); NET; auto o=sgd{e,bs,lr,mu}; STEPS }
void vf_sgd_neg() { D2; HYP; double mu=vf_pos("mu"),dc=vf_pos("dc"); NET; auto o=sgd{e,bs,lr,-mu,-dc}; STEPS }
void vf_sgd_decay() { D2; HYP; double mu=vf_pos("mu"),dc=vf_pos("dc"); NET; auto o=sgd{e,bs,lr,mu,dc}; STEPS }
void vf_sgd_nest() { D2; HYP; double mu=vf_pos("mu"); NET; auto o=sgd{e,bs,lr,mu,0.0,true}; STEPS }
void vf_adagrad() { D2; HYP; NET; auto o=adagrad{e,bs,lr}; STEPS }
void vf_adagrad_decay() { D2; HYP; double dc=vf_pos("dc"); NET; auto o=adagrad{e,bs,lr,dc}; STEPS }
void vf_rmsprop() { D2; HYP; double rho=vf_pos("rho"); vf_assume(rho<1.0); NET; auto o=rmsprop{e,bs,lr,rho}; STEPS }
void vf_rmsprop_decay() { D2; HYP; double rho=vf_pos("rho"),dc=vf_pos("dc"); vf_assume(rho<1.0); NET; auto o=rmsprop{e,bs,lr,rho,dc}; STEPS }
void vf_adadelta() { D2; vfu bs=vf_dim("bs"); double rho=vf_pos("rho"); vf_assume(rho<1.0); NET; auto o=adadelta{e,bs,rho}; STEPS }
void vf_adam() { D2; HYP; double b1=vf_pos("b1"),b2=vf_pos("b2"); vf_assume(b1<1.0); vf_assume(b2<1.0); NET; auto o=adam{e,bs,lr,b1,b2}; STEPS }
// made by the factories
void vf_mk_sgd() { D2; HYP; NET; auto o=SGD(bs,lr)(e); STEPS }
void vf_mk_adagrad() { D2; HYP; NET; auto o=Adagrad(bs,lr)(e); STEPS }
void vf_mk_rmsprop() { D2; HYP; double rho=vf_pos("rho"); vf_assume(rho<1.0); NET; auto o=RMSprop(bs,lr,rho)(e); STEPS }
void vf_mk_adadelta() { D2; vfu bs=vf_dim("bs"); double rho=vf_pos("rho"); vf_assume(rho<1.0); NET; auto o=Adadelta(bs,rho)(e); STEPS }
void vf_mk_adam() { D2; HYP; double b1=vf_pos("b1"),b2=vf_pos("b2"); vf_assume(b1<1.0); vf_assume(b2<1.0); NET; auto o=Adam(bs,lr,b1,b2)(e); STEPS }
// several variables of different shapes, frozen ones, one used twice, one not in the loss
#define NET2 VD a=vf_v("A",{m,n}), b=vf_v("B",{n}); VD c{ vf_t("C",{m,n}), 0.0, 0.0, false }; VD u=vf_v("U",{m}); PD p,q; auto e=sum_reduce(hadamard_product(a,p))+sum_reduce(hadamard_product(b,q))+sum_reduce(hadamard_product(hadamard_product(c,p),p))+sum_reduce(hadamard_product(a,p)); auto& s=get_default_session<TD>()
#define STEP2(K) { s.bind(p,vf_t("G" #K,{m,n},6)); s.bind(q,vf_t("H" #K,{n},6)); s.run(e); s.run(o); TD d=a.data().deep_copy(); vf_o("A" #K,d); TD d2=b.data().deep_copy(); vf_o("B" #K,d2); TD g=a.gradient().deep_copy(); vf_o("Z" #K,g); TD g2=b.gradient().deep_copy(); vf_o("Y" #K,g2); }
#define STEPS2 STEP2(1) STEP2(2) STEP2(3) vf_o("C",c.data()); vf_o("GC",c.gradient()); vf_o("U",u.data());
void vf_two_gd() { D2; HYP; NET2; auto o=gradient_descent{e,bs,lr}; STEPS2 }
void vf_two_sgd() { D2; HYP; double mu=vf_pos("mu"); NET2; auto o=sgd{e,bs,lr,mu}; STEPS2 }
void vf_two_adagrad() { D2; HYP; NET2; auto o=adagrad{e,bs,lr}; STEPS2 }
void vf_two_rmsprop() { D2; HYP; double rho=vf_pos("rho"); vf_assume(rho<1.0); NET2; auto o=rmsprop{e,bs,lr,rho}; STEPS2 }
void vf_two_adadelta() { D2; vfu bs=vf_dim("bs"); double rho=vf_pos("rho"); vf_assume(rho<1.0); NET2; auto o=adadelta{e,bs,rho}; STEPS2 }
void vf_two_adam() { D2; HYP; double b1=vf_pos("b1"),b2=vf_pos("b2"); vf_assume(b1<1.0); vf_assume(b2<1.0); NET2; auto o=adam{e,bs,lr,b1,b2}; STEPS2 }
// a variable frozen between steps keeps its value from there on
void vf_freeze_gd() { D2; HYP; NET; auto o=gradient_descent{e,bs,lr}; STEP(1) a.trainable(false); STEP(2) a.trainable(true); STEP(3) }
void vf_freeze_sgd() { D2; HYP; double mu=vf_pos("mu"); NET; auto o=sgd{e,bs,lr,mu}; STEP(1) a.trainable(false); STEP(2) a.trainable(true); STEP(3) }
// the data tensor handed to the variable is updated in place, the bound input is not
void vf_input_kept() { D2; HYP; VD a=vf_v("A",{m,n}); PD p; auto e=sum_reduce(hadamard_product(a,p)); auto& s=get_default_session<TD>(); TD g=vf_t("G",{m,n},6); s.bind(p,g); s.run(e); auto o=sgd{e,bs,lr}; s.run(o); s.run(e); s.run(o); vf_o("G",g); vf_o("A2",a.data()); }
// a learned affine map: the whole step on a real loss
void vf_fit_affine() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"); HYP; VD w=vf_v("W",{k,n}); PD x,y; auto e=sum_reduce(square(minus(x*w,y))); auto& s=get_default_session<TD>(); s.bind(x,vf_t("X",{m,k})); s.bind(y,vf_t("Y",{m,n})); auto o=sgd{e,bs,lr}; TD l=s.run(e); s.run(o); vf_o("L",l); vf_o("W1",w.data()); }
