// C16  dropout, batch normalization, random tensors
using namespace ceras;
#define D2 vfu m=vf_dim("m"),n=vf_dim("n")
#define LP(v) learning_phase=v
// ---- dropout
#define DROP double f=vf_real("f"); vf_assume(f>0.0); vf_assume(f<1.0)
#ifdef VF_NATIVE
#define SEED random_generator.seed( vfn::cur().seed )
#else
#define SEED
#endif
void vf_drop() { D2; DROP; SEED; LP(1); VD a=vf_v("A",{m,n},6); auto e=drop_out(f)(a); TD y=e.forward(); vf_o("Y",y); TD g=vf_t("G",{m,n},6); e.backward(g); vf_o("GA",a.gradient()); vf_o("A",a.data()); vf_o("G",g); }
void vf_drop_alias() { D2; DROP; SEED; LP(1); VD a=vf_v("A",{m,n},6); auto e=dropout(f)(a); TD y=e.forward(); vf_o("Y",y); TD g=vf_t("G",{m,n},6); e.backward(g); vf_o("GA",a.gradient()); }
void vf_drop_3d() { vfu k=vf_dim("k"); D2; DROP; SEED; LP(1); VD a=vf_v("A",{k,m,n},6); auto e=drop_out(f)(a); TD y=e.forward(); vf_o("Y",y); TD g=vf_t("G",{k,m,n},6); e.backward(g); vf_o("GA",a.gradient()); }
void vf_drop_again() { D2; vfu r=vf_dim("r"); DROP; SEED; LP(1); PD x; VD w=vf_v("W",{1,n},6); auto h=hadamard_product(x,w); auto e=drop_out(f)(h); x.bind(vf_t("X1",{r,n},6)); e.forward(); TD g1=vf_t("G1",{r,n}); e.backward(g1);
    vf_new_step(); x.bind(vf_t("A",{m,n},6)); TD y=e.forward(); vf_o("Y",y); TD g=vf_t("G",{m,n},6); e.backward(g); vf_o("GA",w.gradient()); }
void vf_drop_again2() { D2; vfu r=vf_dim("r"); DROP; SEED; LP(1); PD x; auto e=drop_out(f)(x); x.bind(vf_t("X1",{r,n},6)); e.forward();
    vf_new_step(); x.bind(vf_t("A",{m,n},6)); TD y=e.forward(); vf_o("Y",y); }
void vf_drop_predict() { D2; DROP; LP(0); VD a=vf_v("A",{m,n}); auto e=drop_out(f)(a); TD y=e.forward(); vf_o("Y",y); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("GA",a.gradient()); }
void vf_drop_train_predict() { D2; DROP; SEED; LP(1); VD a=vf_v("A1",{m,n}); auto e=drop_out(f)(a); e.forward(); LP(0); vf_new_step(); a.data()=vf_t("A",{m,n}); TD y=e.forward(); vf_o("Y",y); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("GA",a.gradient()); }
void vf_drop_predict_train() { D2; DROP; SEED; LP(0); VD a=vf_v("A1",{m,n}); auto e=drop_out(f)(a); e.forward(); LP(1); vf_new_step(); a.data()=vf_t("A",{m,n},6); TD y=e.forward(); vf_o("Y",y); TD g=vf_t("G",{m,n},6); e.backward(g); vf_o("GA",a.gradient()); }
void vf_drop_two() { D2; DROP; SEED; LP(1); VD a=vf_v("A",{m,n},6), b=vf_v("B",{m,n},6); auto d=drop_out(f); auto e=d(a), h=d(b); TD y=e.forward(); TD z=h.forward(); vf_o("Y",y); vf_o("Z",z); TD g=vf_t("G",{m,n},6); e.backward(g); h.backward(g); vf_o("GA",a.gradient()); vf_o("GB",b.gradient()); }
void vf_drop_rate() {
#ifdef VF_NATIVE
    vfu c=vf_dim("c"); double f=(1.0+(c%9))/10.0; SEED; LP(1); VD a{ ones<double>({200,100}) }; auto e=drop_out(f)(a); TD y=e.forward(); vfu kept=0; for ( auto v : y ) if ( v != 0.0 ) ++kept; double r=kept/20000.0-(1.0-f); vf_check("rate", r<0.02 && r>-0.02);
#endif
}
// ---- batch normalization
#define M2 vfu r=vf_dim("r",2),c=vf_dim("c")
#define MOM double p=vf_real("p"); vf_assume(p>0.0); vf_assume(p<1.0)
void vf_bn() { M2; MOM; LP(1); VD a=vf_v("A",{r,c}); auto e=normalization_batch(p)(a); TD y=e.forward(); vf_o("Y",y); vf_o("A",a.data()); }
void vf_bn_grad() { M2; MOM; LP(1); VD a=vf_v("A",{r,c}); auto e=normalization_batch(p)(a); e.forward(); TD g=vf_t("G",{r,c}); e.backward(g); vf_o("GA",a.gradient()); vf_o("G",g); }
void vf_bn_3d() { vfu k=vf_dim("k",2); M2; MOM; LP(1); VD a=vf_v("A",{k,r,c}); auto e=normalization_batch(p)(a); TD y=e.forward(); vf_o("Y",y); }
void vf_bn_3d_grad() { vfu k=vf_dim("k",2); M2; MOM; LP(1); VD a=vf_v("A",{k,r,c}); auto e=normalization_batch(p)(a); e.forward(); TD g=vf_t("G",{k,r,c}); e.backward(g); vf_o("GA",a.gradient()); }
void vf_bn_4d() { vfu b=vf_dim("b"), k=vf_dim("k",2); M2; MOM; LP(1); VD a=vf_v("A",{b,k,r,c}); auto e=normalization_batch(p)(a); TD y=e.forward(); vf_o("Y",y); }
void vf_bn_gamma() { M2; MOM; LP(1); VD a=vf_v("A",{r,c}), ga=vf_v("GM",{c}), be=vf_v("BT",{c}); auto e=batch_normalization(p)(a,ga,be); TD y=e.forward(); vf_o("Y",y); TD g=vf_t("G",{r,c}); e.backward(g); vf_o("GG",ga.gradient()); vf_o("GB",be.gradient()); }
void vf_bn_gamma_in() { M2; MOM; LP(1); VD a=vf_v("A",{r,c}), ga=vf_v("GM",{c}), be=vf_v("BT",{c}); auto e=batch_normalization(p)(a,ga,be); e.forward(); TD g=vf_t("G",{r,c}); e.backward(g); vf_o("GA",a.gradient()); }
void vf_bn_untrained() { M2; MOM; LP(0); VD a=vf_v("A",{r,c}); auto e=normalization_batch(p)(a); TD y=e.forward(); vf_o("Y",y); }
void vf_bn_predict() { M2; vfu s=vf_dim("s"); MOM; LP(1); PD x; auto e=normalization_batch(p)(x); x.bind(vf_t("A1",{r,c})); e.forward(); LP(0); vf_new_step(); x.bind(vf_t("A",{s,c})); TD y=e.forward(); vf_o("Y",y); }
void vf_bn_predict2() { M2; vfu s=vf_dim("s"), q=vf_dim("q",2); MOM; LP(1); PD x; auto e=normalization_batch(p)(x); x.bind(vf_t("A1",{r,c})); e.forward(); vf_new_step(); x.bind(vf_t("A2",{q,c})); e.forward(); LP(0); vf_new_step(); x.bind(vf_t("A",{s,c})); TD y=e.forward(); vf_o("Y",y); }
void vf_bn_again() { M2; vfu s=vf_dim("s",2); MOM; LP(1); PD x; auto e=normalization_batch(p)(x); x.bind(vf_t("A1",{s,c})); e.forward(); vf_new_step(); x.bind(vf_t("A",{r,c})); TD y=e.forward(); vf_o("Y",y); vf_o("A",x.forward()); }
void vf_bn_again_grad() { M2; vfu s=vf_dim("s",2); MOM; LP(1); PD x; VD w=vf_v("W",{c}); auto h=x+w; auto e=normalization_batch(p)(h); x.bind(vf_t("A1",{s,c})); e.forward(); TD g1=vf_t("G1",{s,c}); e.backward(g1); vf_new_step(); x.bind(vf_t("A",{r,c})); e.forward(); TD g=vf_t("G",{r,c}); e.backward(g); vf_o("GW",w.gradient()); }
void vf_bn_predict_train() { M2; vfu s=vf_dim("s"); MOM; LP(0); PD x; auto e=normalization_batch(p)(x); x.bind(vf_t("A1",{s,c})); e.forward(); LP(1); vf_new_step(); x.bind(vf_t("A",{r,c})); TD y=e.forward(); vf_o("Y",y); }
void vf_bn_two() { M2; MOM; LP(1); VD a=vf_v("A",{r,c}), b=vf_v("B",{r,c}); auto nb=normalization_batch(p); auto e=nb(a); auto f=nb(b); TD y=e.forward(); TD z=f.forward(); vf_o("Y",y); vf_o("Z",z); LP(0); vf_new_step(); a.data()=vf_t("C",{r,c}); TD u=e.forward(); vf_o("U",u); }
// ---- random tensors
void vf_rand() { D2; double lo=vf_real("lo"), w=vf_pos("w"); SEED; TD y=random<double>(vfs{m,n},lo,lo+w); vf_o("Y",y); }
void vf_rand_alias() { D2; double lo=vf_real("lo"), w=vf_pos("w"); SEED; TD y=ceras::rand<double>(vfs{m,n},lo,lo+w); vf_o("Y",y); }
void vf_rand_default() { D2; SEED; TD y=random<double>(vfs{m,n}); vf_o("Y",y); }
void vf_rand_like() { D2; double lo=vf_real("lo"), w=vf_pos("w"); SEED; TD a=vf_t("A",{m,n}); TD y=random_like(a,lo,lo+w); vf_o("Y",y); vf_o("A",a); }
void vf_randn_shape() { vfu k=vf_dim("k"); D2; SEED; TD y=randn<double>(vfs{k,m,n},0.0,1.0); vf_o("Y",y); }
void vf_randn_like() { D2; SEED; TD a=vf_t("A",{m,n}); TD y=randn_like(a,0.0,1.0); vf_o("Y",y); vf_o("A",a); }
void vf_randn_moments() {
#ifdef VF_NATIVE
    vfu c=vf_dim("c"); double mu=-3.0+(c%7), sd=0.5+(c%5); SEED; TD y=randn<double>(vfs{200,100},mu,sd); double s=0,q=0; for ( auto v : y ) s+=v; s/=20000; for ( auto v : y ) q+=(v-s)*(v-s); q=std::sqrt(q/20000); vf_check("mean", std::abs(s-mu)<0.04*sd); vf_check("deviation", std::abs(q-sd)<0.04*sd);
#endif
}
void vf_truncated() { D2; double lo=vf_real("lo"); SEED; vf_assume(lo>-1.0); vf_assume(lo<1.0); TD y=truncated_normal<double>(vfs{m,n},0.0,1.0,lo,lo+1.0); vf_o("Y",y); }
void vf_glorot() { D2; SEED; TD y=glorot_uniform<double>({m,n}); vf_o("Y",y); }
void vf_glorot_4d() { D2; vfu k=vf_dim("k"); SEED; TD y=glorot_uniform<double>({m,n,k}); vf_o("Y",y); }
void vf_rand_spread() {
#ifdef VF_NATIVE
    vfu c=vf_dim("c"); double lo=-3.0+(c%7), w=0.5+(c%5); SEED; TD y=random<double>(vfs{200,100},lo,lo+w); double s=0; double mn=y[0], mx=y[0]; for ( auto v : y ) { s+=v; mn=std::min(mn,v); mx=std::max(mx,v); } s/=20000; vf_check("mean", std::abs(s-lo-w/2)<0.02*w); vf_check("min", mn<lo+0.01*w); vf_check("max", mx>lo+0.99*w);
#endif
}
void vf_noise() { D2; SEED; VD a=vf_v("A",{m,n}); auto e=random_normal_like(1.0,4.0)(a); TD y=e.forward(); vf_o("Y",y); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("GA",a.gradient()); vf_o("A",a.data()); }
