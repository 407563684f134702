// C23  models: prediction, composition, freezing, training, evaluation, fitting
using namespace ceras;
#define D2 vfu b=vf_dim("b"),n=vf_dim("n")
#define D3 D2; vfu k=vf_dim("k")
#define NET PD x; VD w=vf_v("W",{n,k}), c=vf_v("C",{k}); auto y=x*w+c; model m{x,y}
static void shp( const char* p, vfs const& s ) { char q[32]; for ( vfu i=0; i!=s.size(); ++i ) { vfu j=0; for ( ; p[j]; ++j ) q[j]=p[j]; q[j]='0'+i; q[j+1]=0; vf_valu(q,s[i]); } }
// ---- prediction
void vf_predict() { D3; NET; TD a=vf_t("A",{b,n}); TD r=m.predict(a); vf_o("R",r); vf_o("X",a); vf_check("phase", learning_phase==1); }
void vf_predict_again() { D3; vfu p=vf_dim("p"); NET; TD r=m.predict(vf_t("A",{b,n})); TD u=m.predict(vf_t("B",{p,n})); vf_o("R",r); vf_o("U",u); }
void vf_predict_weights() { D3; NET; m.predict(vf_t("A",{b,n})); w.data()=vf_t("V",{n,k}); TD u=m.predict(vf_t("B",{b,n})); vf_o("U",u); }
void vf_predict_dropout() { D2; learning_phase=1; PD x; auto y=drop_out(0.5)(x); model m{x,y}; TD r=m.predict(vf_t("A",{b,n})); vf_o("R",r); vf_check("phase", learning_phase==1); }
void vf_predict_other_model() { D2; PD x, u; VD w=vf_v("W",{n}); auto y=x+w; auto z=hadamard_product(u,w); model m{x,y}; model q{u,z}; TD r=m.predict(vf_t("A",{b,n})); TD s=q.predict(vf_t("B",{b,n})); TD t=m.predict(vf_t("C",{b,n})); vf_o("R",r); vf_o("S",s); vf_o("T",t); }
void vf_parts() { D2; PD x; VD w=vf_v("W",{n}); auto y=x+w; model m{x,y}; vf_check("input", m.input()==x); vf_check("output", m.output().id()==y.id()); x.bind(vf_t("A",{b,n})); TD r=m.output().forward(); vf_o("R",r); }
// ---- a model used as a function
void vf_apply() { D3; learning_phase=1; NET; VD a=vf_v("A",{b,n}); auto e=m(a); vf_valu("r0",e.shape()[0]); vf_valu("r1",e.shape()[1]); TD r=e.forward(); vf_o("R",r); e.backward(vf_t("G",{b,k})); vf_o("GA",a.gradient()); vf_o("GW",w.gradient()); vf_o("GC",c.gradient()); }
void vf_apply_twice_run() { D3; vfu p=vf_dim("p"); learning_phase=1; NET; PD u{vfs{n}}; auto e=m(u); auto& s=get_default_session<TD>(); s.bind(u,vf_t("A0",{p,n})); s.run(e); s.bind(u,vf_t("A",{b,n})); TD r=s.run(e); vf_o("R",r); w.data(); e.backward(vf_t("G",{b,k})); vf_o("GW",w.gradient()); vf_o("GC",c.gradient()); }
void vf_apply_expression() { D3; learning_phase=1; NET; VD a=vf_v("A",{b,n}); auto e=m(square(a)); TD r=e.forward(); vf_o("R",r); e.backward(vf_t("G",{b,k})); vf_o("GA",a.gradient()); vf_o("GW",w.gradient()); vf_o("GC",c.gradient()); }
void vf_apply_chain() { D3; vfu j=vf_dim("j"); learning_phase=1; NET; PD x2; VD w2=vf_v("W2",{j,n}); auto y2=x2*w2; model m2{x2,y2}; PD u{vfs{j}}; auto z=m(m2(u)); model q{u,z}; TD r=q.predict(vf_t("A",{b,j})); vf_o("R",r); u.bind(vf_t("A",{b,j})); z.forward(); z.backward(vf_t("G",{b,k})); vf_o("GW",w.gradient()); vf_o("GW2",w2.gradient()); vf_o("GC",c.gradient()); }
void vf_apply_original() { D3; vfu p=vf_dim("p"); NET; VD a=vf_v("A",{b,n}); auto e=m(a); TD r=e.forward(); TD u=m.predict(vf_t("B",{p,n})); vf_new_step(); TD t=e.forward(); vf_o("R",r); vf_o("U",u); vf_o("T",t); }
void vf_apply_shares_weights() { D3; NET; VD a=vf_v("A",{b,n}); auto e=m(a); w.data()=vf_t("V",{n,k}); TD r=e.forward(); vf_o("R",r); }
void vf_apply_leaves() { D2; learning_phase=1; PD x; VD w=vf_v("W",{n}); CD d{ vf_t("D",{n}) }; auto y=2.0*hadamard_product(x,w)+d+hadamard_product(square(x),x); model m{x,y}; VD a=vf_v("A",{b,n}); auto e=m(a); TD r=e.forward(); vf_o("R",r); e.backward(vf_t("G",{b,n})); vf_o("GA",a.gradient()); vf_o("GW",w.gradient()); vf_o("D",d.data()); }
void vf_apply_itself() { D2; PD x; model m{x,x}; VD a=vf_v("A",{b,n}); auto e=m(a); vf_check("same", e.id()==a.id()); VD w=vf_v("W",{n}); model q{x,w}; auto f=q(a); vf_check("kept", f.id()==w.id()); }
void vf_apply_twice() { D2; learning_phase=1; PD x; VD w=vf_v("W",{n}); auto y=exp(hadamard_product(x,w))+w; model m{x,y}; VD a=vf_v("A",{b,n}), d=vf_v("D",{b,n}); auto e=m(a)-m(d); TD r=e.forward(); vf_o("R",r); e.backward(vf_t("G",{b,n})); vf_o("GA",a.gradient()); vf_o("GD",d.gradient()); vf_o("GW",w.gradient()); }
// ---- freezing
void vf_trainable() { D2; PD x; VD w=vf_v("W",{n}), v=vf_v("V",{n}), u=vf_v("U",{n}), z=vf_v("Z",{n}); auto y=exp(hadamard_product(x,w)+square(v))+u; model m{x,y}; m.trainable(false); vf_check("frozen", !w.trainable() && !v.trainable() && !u.trainable()); vf_check("other", z.trainable()); m.trainable(true); vf_check("free", w.trainable() && v.trainable() && u.trainable()); }
void vf_trainable_leaf() { D2; PD x; VD w=vf_v("W",{n}); model m{x,w}; m.trainable(false); vf_check("frozen", !w.trainable()); model q{x,x}; q.trainable(false); }
void vf_trainable_gradient() { D3; learning_phase=1; NET; VD a=vf_v("A",{b,n}); m.trainable(false); auto e=m(a); e.forward(); e.backward(vf_t("G",{b,k})); vf_o("GA",a.gradient()); vf_o("GW",w.gradient()); vf_o("GC",c.gradient()); }
// ---- training: a loss that is linear in the output, so that the gradient of step t is the sum over the batch of inputs times truths
static auto const LIN = []( auto const& out ) { return [=]( auto const& truth ) { return sum_reduce( hadamard_product( truth, out ) ); }; };
#define LR double lr=vf_pos("lr"); vf_assume(lr>=0.001)
#define TNET PD x; VD w=vf_v("W",{n}); auto y=hadamard_product(x,w); model m{x,y}; auto cm=m.compile(LIN,SGD(1ul,lr))
void vf_train() { D2; LR; TNET; TD a=vf_t("A",{b,n}), t=vf_t("T",{b,n}); double e=cm.train_on_batch(a,t); vf_val("e",e); vf_o("W1",w.data()); vf_o("GW",w.gradient()); vf_o("X",a); vf_o("Y",t); vf_check("phase", learning_phase==1); }
void vf_train_twice() { D2; vfu p=vf_dim("p"); LR; TNET; double e=cm.train_on_batch(vf_t("A",{b,n}),vf_t("T",{b,n})); vf_val("e",e); double f=cm.train_on_batch(vf_t("B",{p,n}),vf_t("U",{p,n})); vf_val("f",f); vf_o("W1",w.data()); }
void vf_train_mse() { D2; LR; PD x; VD w=vf_v("W",{n,1}), c=vf_v("C",{1}); auto y=x*w+c; model m{x,y}; vfu bs=vf_dim("bs"); auto cm=m.compile(MeanSquaredError(),SGD(bs,lr)); double e=cm.train_on_batch(vf_t("A",{b,n}),vf_t("T",{b,1})); vf_val("e",e); vf_o("W1",w.data()); vf_o("C1",c.data()); }
void vf_train_frozen() { D2; LR; PD x; VD w=vf_v("W",{n}), v=vf_v("V",{n}); auto y=hadamard_product(x,w+v); v.trainable(false); model m{x,y}; auto cm=m.compile(LIN,SGD(1ul,lr)); cm.train_on_batch(vf_t("A",{b,n}),vf_t("T",{b,n})); vf_o("W1",w.data()); vf_o("V1",v.data()); cm.trainable(false); cm.train_on_batch(vf_t("B",{b,n}),vf_t("U",{b,n})); vf_o("W2",w.data()); vf_o("V2",v.data()); }
void vf_train_dropout() { vfu n=vf_dim("n"); LR; learning_phase=0; PD x; VD w=vf_v("W",{n}); auto y=drop_out(0.5)(hadamard_product(x,w)); model m{x,y}; auto cm=m.compile(LIN,SGD(1ul,lr)); cm.train_on_batch(vf_t("A",{1,n}),vf_t("T",{1,n})); vf_o("W1",w.data().deep_copy()); w.data()=vf_t("V",{n}); TD r=cm.predict(vf_t("B",{1,n})); vf_o("R",r); vf_check("phase", learning_phase==1); }
void vf_train_predict() { D2; LR; TNET; cm.train_on_batch(vf_t("A",{b,n}),vf_t("T",{b,n})); TD r=cm.predict(vf_t("B",{b,n})); vf_o("R",r); TD q=m.predict(vf_t("B",{b,n})); vf_o("Q",q); VD d=vf_v("D",{b,n}); auto e=cm(d); vf_new_step(); TD u=e.forward(); vf_o("U",u); }
void vf_train_two_models() { D2; LR; PD x, u; VD w=vf_v("W",{n}), v=vf_v("V",{n}); auto y=hadamard_product(x,w); auto z=hadamard_product(u,v); model m{x,y}; model q{u,z}; auto cm=m.compile(LIN,SGD(1ul,lr)); auto cq=q.compile(LIN,SGD(2ul,lr)); cm.train_on_batch(vf_t("A",{b,n}),vf_t("T",{b,n})); vf_o("V0",v.data().deep_copy()); cq.train_on_batch(vf_t("B",{b,n}),vf_t("U",{b,n})); vf_o("W1",w.data()); vf_o("V1",v.data()); }
// ---- evaluation over batches
#define SQ PD x; VD w=vf_v("W",{n}); auto y=hadamard_product(x,w); model m{x,y}; LR; auto cm=m.compile(LIN,SGD(1ul,lr))
void vf_eval_1() { D2; SQ; TD a=vf_t("A",{b,n}), t=vf_t("T",{b,n}); double e=cm.evaluate(a,t,b); vf_val("e",e); vf_o("X",a); vf_o("Y",t); vf_o("W1",w.data()); vf_o("GW",w.gradient()); vf_check("phase", learning_phase==1); }
void vf_eval_3() { D2; SQ; double e=cm.evaluate(vf_t("A",{3*b,n}),vf_t("T",{3*b,n}),b); vf_val("e",e); }
void vf_eval_rest() { vfu b=vf_dim("b",2),n=vf_dim("n"); SQ; double e=cm.evaluate(vf_t("A",{2*b+b-1,n}),vf_t("T",{2*b+b-1,n}),b); vf_val("e",e); }
void vf_eval_default() { vfu n=vf_dim("n"),k=vf_dim("k"); vf_assume(k<32); SQ; double e=cm.evaluate(vf_t("A",{32+k,n}),vf_t("T",{32+k,n})); vf_val("e",e); }
void vf_eval_many() { D2; vfu l=vf_dim("l"); SQ; double e=cm.evaluate(vf_t("A",{l*b,n}),vf_t("T",{l*b,n}),b); vf_val("e",e); }
void vf_eval_mse() { D2; PD x; VD w=vf_v("W",{n,1}); auto y=x*w; model m{x,y}; auto cm=m.compile(MSE(),SGD(1ul,0.5)); double e=cm.evaluate(vf_t("A",{2*b,n}),vf_t("T",{2*b,1}),b); vf_val("e",e); }
void vf_eval_dropout() { D2; learning_phase=1; PD x; VD w=vf_v("W",{n}); auto y=drop_out(0.5)(hadamard_product(x,w)); model m{x,y}; auto cm=m.compile(LIN,SGD(1ul,0.5)); double e=cm.evaluate(vf_t("A",{2*b,n}),vf_t("T",{2*b,n}),b); vf_val("e",e); vf_check("phase", learning_phase==1); }
void vf_eval_then_train() { D2; SQ; cm.evaluate(vf_t("B",{2*b,n}),vf_t("U",{2*b,n}),b); cm.train_on_batch(vf_t("A",{b,n}),vf_t("T",{b,n})); vf_o("W1",w.data()); }
// ---- fit
void vf_fit() { D2; SQ; TD a=vf_t("A",{2*b,n}), t=vf_t("T",{2*b,n}); auto h=cm.fit(a,t,b); vf_check("sizes", std::get<0>(h).size()==1 && std::get<1>(h).size()==1); vf_val("e",std::get<0>(h)[0]); vf_o("W1",w.data()); vf_o("X",a); vf_o("Y",t); vf_check("phase", learning_phase==1); }
void vf_fit_rest() { vfu b=vf_dim("b",2),n=vf_dim("n"); SQ; auto h=cm.fit(vf_t("A",{2*b+b-1,n}),vf_t("T",{2*b+b-1,n}),b); vf_val("e",std::get<0>(h)[0]); vf_o("W1",w.data()); }
void vf_fit_split() { D2; SQ; auto h=cm.fit(vf_t("A",{4*b,n}),vf_t("T",{4*b,n}),b,1,0,0.5); vf_val("e",std::get<0>(h)[0]); vf_val("v",std::get<1>(h)[0]); vf_o("W1",w.data()); }
void vf_fit_split_quarter() { D2; SQ; auto h=cm.fit(vf_t("A",{4*b,n}),vf_t("T",{4*b,n}),b,1,0,0.25); vf_val("e",std::get<0>(h)[0]); vf_val("v",std::get<1>(h)[0]); vf_o("W1",w.data()); }
void vf_fit_epochs() { D2; SQ; auto h=cm.fit(vf_t("A",{2*b,n}),vf_t("T",{2*b,n}),b,2,0,0.5); vf_check("sizes", std::get<0>(h).size()==2 && std::get<1>(h).size()==2); vf_val("e0",std::get<0>(h)[0]); vf_val("v0",std::get<1>(h)[0]); vf_val("e1",std::get<0>(h)[1]); vf_val("v1",std::get<1>(h)[1]); vf_o("W1",w.data()); TD r=cm.predict(vf_t("B",{b,n})); vf_o("R",r); }
void vf_fit_twice() { D2; vfu p=vf_dim("p"); SQ; cm.fit(vf_t("A",{b,n}),vf_t("T",{b,n}),b); auto h=cm.fit(vf_t("B",{2*p,n}),vf_t("U",{2*p,n}),p); vf_val("e",std::get<0>(h)[0]); vf_o("W1",w.data()); }
void vf_fit_many() { D2; vfu l=vf_dim("l"); SQ; cm.fit(vf_t("A",{l*b,n}),vf_t("T",{l*b,n}),b); vf_o("W1",w.data()); }
