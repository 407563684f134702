// C22  place holders, variables, constants, sessions
using namespace ceras;
#define D2 vfu m=vf_dim("m"),n=vf_dim("n")
#define R2 vfu p=vf_dim("p"),q=vf_dim("q")
static void shp( const char* a, vfs const& s, const char* b="s1", const char* c="s2", const char* d="s3" ) { vf_valu(a,s.size()); if (s.size()>0) vf_valu(b,s[0]); if (s.size()>1) vf_valu(c,s[1]); if (s.size()>2) vf_valu(d,s[2]); }
// ---- place holders
void vf_ph_shared() { D2; R2; PD x; PD y{x}; PD z; z=y; TD a=vf_t("A",{m,n}); x.bind(a); TD u=z.forward(); vf_o("U",u); shp("r",y.shape()); vf_check("same_id", x.id()==y.id() && y.id()==z.id()); z.bind(vf_t("B",{p,q,m})); TD v=x.forward(); vf_o("V",v); vf_o("A",a); shp("rr",x.shape(),"t1","t2","t3"); }
void vf_ph_separate() { D2; R2; PD x, y; x.bind(vf_t("A",{m,n})); y.bind(vf_t("B",{p})); TD u=x.forward(); TD v=y.forward(); vf_o("U",u); vf_o("V",v); vf_check("ids_differ", x.id()!=y.id() && x!=y && !(x==y) && x.id()<y.id() && x<y && x<=y && y>x && y>=x && !(y<x) && !(x>y) && x==x && x<=x && x>=x); }
void vf_ph_hint() { D2; PD x{ vfs{m,n} }; shp("r",x.shape()); }
void vf_ph_hint_bound() { D2; R2; PD x{ vfs{m,n} }; x.bind(vf_t("A",{p,m,n})); shp("r",x.shape()); x.reset(); shp("rr",x.shape(),"t1","t2","t3"); }
void vf_ph_default() { PD x; vf_check("unknown_shape", x.shape().size()==1 && x.shape()[0]==-1UL); PD y{ vfs{-1UL} }; vf_check("unknown_shape_given", y.shape().size()==1 && y.shape()[0]==-1UL); }
void vf_ph_set_shape() { D2; PD x; PD y{x}; x.shape(vfs{m,n}); shp("r",y.shape()); }
void vf_ph_backward() { D2; PD x; x.bind(vf_t("A",{m,n})); TD g=vf_t("G",{m,n}); x.backward(g); TD u=x.forward(); vf_o("U",u); vf_o("G",g); }
void vf_ph_in_expression() { D2; vfu k=vf_dim("k"); PD x{ vfs{n} }; VD w=vf_v("W",{n,k}); auto e=x*w; shp("r",e.shape()); x.bind(vf_t("A",{m,n})); TD y=e.forward(); vf_o("Y",y); }
// ---- sessions
void vf_session_run() { D2; vfu r=vf_dim("r"); PD x; VD w=vf_v("W",{n}); auto e=x+w; auto& s=get_default_session<TD>(); TD a=vf_t("A",{m,n}); s.bind(x,a); TD y=s.run(e); vf_o("Y",y); s.rebind(x,vf_t("B",{r,n})); TD z=s.run(e); vf_o("Z",z); vf_o("Y2",y); vf_o("A",a); vf_o("W",w.data()); }
void vf_session_shared_node() { D2; vfu r=vf_dim("r"); PD x; VD w=vf_v("W",{n}); auto h=exp(x+w); auto e=h+h; auto& s=get_default_session<TD>(); s.bind(x,vf_t("A",{m,n})); s.run(e); s.rebind(x,vf_t("B",{r,n})); TD z=s.run(e); vf_o("Z",z); }
void vf_session_partial() { D2; vfu r=vf_dim("r"); PD x; VD w=vf_v("W",{n}); auto h=x+w; auto e=square(h); auto& s=get_default_session<TD>(); s.bind(x,vf_t("A",{m,n})); s.run(h); s.rebind(x,vf_t("B",{r,n})); TD z=s.run(e); TD y=s.run(h); vf_o("Z",z); vf_o("Y",y); }
void vf_session_result_kept() { D2; PD x; VD w=vf_v("W",{n}); auto e=x+w; auto& s=get_default_session<TD>(); s.bind(x,vf_t("A",{m,n})); TD y=s.run(e); TD y2=s.run(e); y2.reset(7.0); TD z=s.run(e); vf_o("Y",y); vf_o("Z",z); }
void vf_session_variable_changed() { D2; VD w=vf_v("W0",{m,n}); auto e=exp(w); auto& s=get_default_session<TD>(); s.run(e); w.data()=vf_t("W",{m,n}); TD y=s.run(e); vf_o("Y",y); }
void vf_session_leaf() { D2; VD w=vf_v("W",{m,n}); auto& s=get_default_session<TD>(); TD y=s.run(w); y.reset(1.0); vf_o("W",w.data()); TD z=s.run(w); vf_o("Z",z); }
void vf_session_end() { D2; R2; PD x, y, z; { ceras_private::session<TD> s; s.bind(x,vf_t("A",{m,n})); s.bind(y,vf_t("B",{p,q})); } z.bind(vf_t("C",{m,n})); vf_check("reset", x.shape().size()==1 && x.shape()[0]==-1UL && y.shape().size()==1 && y.shape()[0]==-1UL); TD u=z.forward(); vf_o("U",u); }
void vf_session_remember() { D2; VD w=vf_v("W",{m,n}); auto& s=get_default_session<TD>(); auto it=s.variables_.find(w.id()); vf_check("known", it!=s.variables_.end()); VD c{w}; s.remember(c); s.remember(w); auto jt=s.variables_.find(w.id()); vf_check("still", jt!=s.variables_.end()); TD d=(*jt).second.data(); d.reset(5.0); vf_o("W",w.data()); }
void vf_default_session() { D2; vfu r=vf_dim("r"); PD x; VD w=vf_v("W",{n}); auto e=hadamard_product(x,w); auto& s=ceras::bind(x,vf_t("A",{m,n})); vf_check("one", &s==&get_default_session<TD>()); TD y=ceras::run(e); vf_o("Y",y); s.rebind(x,vf_t("B",{r,n})); TD z=ceras::run(e); vf_o("Z",z); vf_o("Y2",y); }
void vf_session_tap() { D2; PD x; VD w=vf_v("W",{n}); auto e=x+w; auto& s=get_default_session<TD>(); s.bind(x,vf_t("A",{m,n})); s.tap(e); TD y=s.run(e); vf_o("Y",y); }
// the same when nothing is being learned
void vf_predict_run() { D2; vfu r=vf_dim("r"); learning_phase=0; PD x; VD w=vf_v("W",{n}); auto e=x+w; auto& s=get_default_session<TD>(); TD a=vf_t("A",{m,n}); s.bind(x,a); TD y=s.run(e); vf_o("Y",y); s.rebind(x,vf_t("B",{r,n})); TD z=s.run(e); vf_o("Z",z); vf_o("Y2",y); vf_o("A",a); vf_o("W",w.data()); learning_phase=1; }
void vf_predict_shared_node() { D2; vfu r=vf_dim("r"); learning_phase=0; PD x; VD w=vf_v("W",{n}); auto h=exp(x+w); auto e=h+h; auto& s=get_default_session<TD>(); s.bind(x,vf_t("A",{m,n})); s.run(e); s.rebind(x,vf_t("B",{r,n})); TD z=s.run(e); vf_o("Z",z); learning_phase=1; }
void vf_predict_partial() { D2; vfu r=vf_dim("r"); learning_phase=0; PD x; VD w=vf_v("W",{n}); auto h=x+w; auto e=square(h); auto& s=get_default_session<TD>(); s.bind(x,vf_t("A",{m,n})); s.run(h); s.rebind(x,vf_t("B",{r,n})); TD z=s.run(e); TD y=s.run(h); vf_o("Z",z); vf_o("Y",y); learning_phase=1; }
void vf_predict_variable_changed() { D2; learning_phase=0; VD w=vf_v("W0",{m,n}); auto e=exp(w); auto& s=get_default_session<TD>(); s.run(e); w.data()=vf_t("W",{m,n}); TD y=s.run(e); vf_o("Y",y); learning_phase=1; }
void vf_predict_after_learning() { D2; vfu r=vf_dim("r"); PD x; VD w=vf_v("W",{n}); auto h=exp(x+w); auto e=h+h; auto& s=get_default_session<TD>(); s.bind(x,vf_t("A",{m,n})); TD y=s.run(e); vf_o("Y",y); learning_phase=0; s.rebind(x,vf_t("B",{r,n})); TD z=s.run(e); vf_o("Z",z); learning_phase=1; s.rebind(x,vf_t("C",{n})); TD u=s.run(e); vf_o("U",u); }
void vf_predict_default_session() { D2; vfu r=vf_dim("r"); learning_phase=0; PD x; VD w=vf_v("W",{n}); auto e=hadamard_product(x,w); auto& s=ceras::bind(x,vf_t("A",{m,n})); TD y=ceras::run(e); vf_o("Y",y); s.rebind(x,vf_t("B",{r,n})); TD z=ceras::run(e); vf_o("Z",z); vf_o("Y2",y); learning_phase=1; }
// ---- variables
void vf_var_shared() { D2; VD w=vf_v("W",{m,n}); VD u{w}; VD v=vf_v("V",{n}); vf_check("other_id", v.id()!=w.id() && !(v==w)); v=w; vf_check("same_id", u.id()==w.id() && v.id()==w.id() && u==w); w.forward(); TD g=vf_t("G",{m,n}); u.backward(g); vf_o("GW",w.gradient()); vf_o("GV",v.gradient()); v.data()=vf_t("N",{m,n}); TD y=w.forward(); vf_o("Y",y); }
void vf_var_new() { D2; double l1=vf_real("l1"), l2=vf_real("l2"); VD w{ vf_t("W",{m,n}), l1, l2 }; vf_o("GW",w.gradient()); vf_o("W",w.data()); shp("r",w.shape()); vf_check("trainable", w.trainable()); vf_val("a",w.l1_regularizer()); vf_val("b",w.l2_regularizer()); VD u{ vf_t("U",{m,n}), 0.0, 0.0, false }; vf_check("not_trainable", !u.trainable()); }
void vf_var_accumulate() { D2; VD w=vf_v("W",{m,n}); w.forward(); TD g=vf_t("G",{m,n}), h=vf_t("H",{m,n}); w.backward(g); w.backward(h); vf_o("GW",w.gradient()); vf_o("G",g); vf_o("H",h); vf_o("W",w.data()); }
void vf_var_reset_pass() { D2; learning_phase=1; VD w=vf_v("W",{m,n}); w.forward(); TD g=vf_t("G1",{m,n}); w.backward(g); w.forward(); vf_o("Z",w.gradient()); TD h=vf_t("G",{m,n}); w.backward(h); vf_o("GW",w.gradient()); vf_o("W",w.data()); }
void vf_var_predict_keeps() { D2; learning_phase=1; VD w=vf_v("W",{m,n}); w.forward(); TD g=vf_t("G",{m,n}); w.backward(g); learning_phase=0; TD y=w.forward(); vf_o("Y",y); vf_o("GW",w.gradient()); }
void vf_var_many() { D2; vfu t=vf_dim("t"); learning_phase=1; VD w=vf_v("W",{m,n}); TD g=vf_t("G",{m,n}); w.forward(); for ( vfu i=0; i!=t; ++i ) w.backward(g); vf_o("GW",w.gradient()); }
void vf_var_frozen() { D2; VD w=vf_v("W",{m,n}); w.trainable(false); VD u{w}; vf_check("flag", !u.trainable()); w.forward(); TD g=vf_t("G",{m,n}); w.backward(g); vf_o("GW",w.gradient()); vf_o("W",w.data()); w.trainable()=true; vf_check("flag_back", u.trainable()); u.backward(g); vf_o("GU",w.gradient()); }
void vf_var_frozen_new() { D2; VD w{ vf_t("W",{m,n}), 0.25, 0.25, false }; w.forward(); TD g=vf_t("G",{m,n}); w.backward(g); vf_o("GW",w.gradient()); }
void vf_var_l1() { D2; double l1=vf_real("l1"); vf_assume(l1>=0.0); learning_phase=1; VD w{ vf_t("W",{m,n}), l1, 0.0 }; w.forward(); TD g=vf_t("G",{m,n}); w.backward(g); vf_o("GW",w.gradient()); vf_o("W",w.data()); vf_o("G",g); }
void vf_var_l2() { D2; double l2=vf_real("l2"); vf_assume(l2>=0.0); learning_phase=1; VD w{ vf_t("W",{m,n}), 0.0, l2 }; w.forward(); TD g=vf_t("G",{m,n}); w.backward(g); vf_o("GW",w.gradient()); vf_o("W",w.data()); vf_o("G",g); }
void vf_var_l12() { D2; double l1=vf_pos("l1"), l2=vf_pos("l2"); vf_assume(l1>=0.01); vf_assume(l2>=0.01); learning_phase=1; VD w{ vf_t("W",{m,n}), l1, l2 }; w.forward(); TD g=vf_t("G",{m,n}); w.backward(g); vf_o("GW",w.gradient()); }
void vf_var_l_once() { D2; double l1=vf_pos("l1"), l2=vf_pos("l2"); vf_assume(l1>=0.01); vf_assume(l2>=0.01); learning_phase=1; VD w{ vf_t("W",{m,n}), l1, l2 }; w.forward(); w.forward(); TD g=vf_t("G",{m,n}), h=vf_t("H",{m,n}); w.backward(g); w.backward(h); vf_o("GW",w.gradient()); w.forward(); w.backward(g); vf_o("GV",w.gradient()); }
void vf_var_l_set() { D2; double l1=vf_pos("l1"), l2=vf_pos("l2"); vf_assume(l1>=0.01); vf_assume(l2>=0.01); learning_phase=1; VD w=vf_v("W",{m,n}); VD u{w}; u.l1_regularizer()=l1; u.l2_regularizer()=l2; w.forward(); TD g=vf_t("G",{m,n}); w.backward(g); vf_o("GW",w.gradient()); vf_val("a",w.l1_regularizer()); vf_val("b",w.l2_regularizer()); }
void vf_var_resized() { D2; R2; learning_phase=1; VD w=vf_v("W0",{m,n}); w.forward(); TD g=vf_t("G0",{m,n}); w.backward(g); w.data()=vf_t("W",{p,q}); w.forward(); TD h=vf_t("G",{p,q}); w.backward(h); vf_o("GW",w.gradient()); shp("r",w.shape()); }
void vf_var_reset() { D2; VD w=vf_v("W",{m,n}); w.forward(); TD g=vf_t("G",{m,n}); w.backward(g); w.reset(); vf_o("GW",w.gradient()); vf_o("W",w.data()); }
void vf_var_two_uses() { D2; learning_phase=1; VD w=vf_v("W",{m,n}), a=vf_v("A",{m,n}), b=vf_v("B",{m,n}); auto e=hadamard_product(w,a)+hadamard_product(w,b); auto& s=get_default_session<TD>(); TD y=s.run(e); vf_o("Y",y); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("GW",w.gradient()); s.run(e); vf_o("Z",w.gradient()); e.backward(g); vf_o("GV",w.gradient()); }
void vf_var_two_copies_reg() { D2; learning_phase=1; double l2=vf_pos("l2"); vf_assume(l2>=0.01); VD w{ vf_t("W",{m,n}), 0.0, l2 }; VD u{w}; VD a=vf_v("A",{m,n}), b=vf_v("B",{m,n}); auto e=hadamard_product(w,a)+hadamard_product(u,b); auto& s=get_default_session<TD>(); s.run(e); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("GW",w.gradient()); }
void vf_var_contexts() { D2; VD w=vf_v("W",{m,n}); VD u{w}; vf_check("empty", w.contexts().size()==0); u.contexts().push_back(vf_t("C",{n})); vf_check("one", w.contexts().size()==1); vf_o("C1",w.contexts()[0]); }
// ---- constants and numbers
void vf_const() { D2; CD c{ vf_t("A",{m,n}) }; CD d{c}; vf_check("id", c.id()==d.id()); TD y=c.forward(); vf_o("Y",y); TD g=vf_t("G",{m,n}); c.backward(g); TD z=c.forward(); vf_o("Z",z); shp("r",c.shape()); vf_o("D",c.data()); }
void vf_const_expr() { D2; CD c{ vf_t("A",{m,n}) }; VD w=vf_v("W",{m,n}); auto e=hadamard_product(c,w); auto& s=get_default_session<TD>(); TD y=s.run(e); vf_o("Y",y); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("GW",w.gradient()); vf_o("D",c.data()); }
void vf_number() { D2; double v=vf_real("v"); value<double> x{v}; TD r=vf_t("R",{m,n}); TD y=x.forward(r); vf_o("Y",y); vf_o("R",r); x.backward(r); vf_val("d",x.data()); vf_check("shape", x.shape().size()==1 && x.shape()[0]==-1UL); }
// ---- identifiers
void vf_ids() { int a=generate_uid(); int b=generate_uid(); VD w=vf_v("W",{2}); PD x; CD c{ vf_t("C",{2}) }; value<double> v{1.0}; auto e=x+w; auto f=exp(e); vf_check("increasing", a<b && b<w.id() && w.id()<x.id() && x.id()<c.id() && c.id()<v.id() && v.id()<e.id() && e.id()<f.id()); auto g=f; vf_check("copy", g.id()==f.id()); }
void vf_ids_loop() { vfu t=vf_dim("t"); int a=generate_uid(); int last=a; for ( vfu i=0; i!=t; ++i ) { int b=generate_uid(); vf_check("up", b>last); last=b; } vf_check("new", generate_uid()>last && last==a+(int)t); }
