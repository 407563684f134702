// C24  layers: built from the operators with the documented parameters, shapes and initial values
using namespace ceras;
typedef tensor<float> TF;
typedef variable<TF> VF;
typedef place_holder<TF> PF;
static TF vf_tf( const char* name, vfs const& shape, int dom=0 ) { TF t{ shape }; vf_fillf( t.data(), t.size(), name, dom ); return t; }
static void vf_of( const char* name, TF const& t ) { vfs s=t.shape(); vf_outf( name, t.data(), t.size(), s.size() ); for ( vfu i=0; i!=s.size(); ++i ) vf_shape( s[i] ); }
static void ns() { get_default_session<TF>().clear_forward_cache(); }
// the variables of an expression, left to right
template< typename E, typename V > void vf_vars( E& e, V& v )
{
    if constexpr ( is_variable_v<E> ) v.push_back( e );
    else if constexpr ( is_unary_operator_v<E> ) vf_vars( e.op(), v );
    else if constexpr ( is_binary_operator_v<E> ) { vf_vars( e.lhs_op(), v ); vf_vars( e.rhs_op(), v ); }
}
// the variables the layer made: all but the input
template< typename E > static std::vector<VF> own( E& e, VF const& x ) { std::vector<VF> v, r; vf_vars(e,v); for ( auto& u : v ) if ( !(u==x) ) r.push_back(u); return r; }
static void shp( const char* a, vfs const& s, const char* b="s1", const char* c="s2", const char* d="s3", const char* e="s4" ) { vf_valu(a,s.size()); if (s.size()>0) vf_valu(b,s[0]); if (s.size()>1) vf_valu(c,s[1]); if (s.size()>2) vf_valu(d,s[2]); if (s.size()>3) vf_valu(e,s[3]); }
#define R4 float k1=vf_real("k1"), k2=vf_real("k2"), b1=vf_real("b1"), b2=vf_real("b2")
// ---- Dense
void vf_dense() { vfu b=vf_dim("b"),i=vf_dim("i"),o=vf_dim("o"); PF x=Input({i}); auto e=Dense(o)(x); shp("r",e.shape()); std::vector<VF> v; vf_vars(e,v); vf_check("two", v.size()==2); vf_of("B0",v[1].data()); shp("rw",v[0].shape(),"w1","w2"); v[0].data()=vf_tf("W",{i,o}); v[1].data()=vf_tf("B",{1,o}); x.bind(vf_tf("A",{b,i})); TF y=e.forward(); vf_of("Y",y); }
void vf_dense_init() { vfu i=vf_dim("i"),o=vf_dim("o"); VF x{ vf_tf("A",{2,i}) }; auto e=Dense(o)(x); std::vector<VF> v=own(e,x); vf_check("two", v.size()==2); vf_of("W0",v[0].data()); vf_of("B0",v[1].data()); vf_check("trainable", v[0].trainable() && v[1].trainable()); vf_check("no_regularizer", v[0].l1_regularizer()==0.0f && v[0].l2_regularizer()==0.0f && v[1].l1_regularizer()==0.0f && v[1].l2_regularizer()==0.0f ); }
void vf_dense_grad() { vfu b=vf_dim("b"),i=vf_dim("i"),o=vf_dim("o"); learning_phase=1; VF x{ vf_tf("A",{b,i}) }; auto e=Dense(o)(x); std::vector<VF> v=own(e,x); v[0].data()=vf_tf("W",{i,o}); v[1].data()=vf_tf("B",{1,o}); e.forward(); TF g=vf_tf("G",{b,o}); e.backward(g); vf_of("GX",x.gradient()); vf_of("GW",v[0].gradient()); vf_of("GB",v[1].gradient()); }
void vf_dense_no_bias() { vfu b=vf_dim("b"),i=vf_dim("i"),o=vf_dim("o"); learning_phase=1; VF x{ vf_tf("A",{b,i}) }; auto e=Dense(o,false)(x); std::vector<VF> v=own(e,x); v[0].data()=vf_tf("W",{i,o}); vf_check("fixed", v[0].trainable() && !v[1].trainable()); TF y=e.forward(); vf_of("Y",y); TF g=vf_tf("G",{b,o}); e.backward(g); vf_of("GW",v[0].gradient()); vf_of("GB",v[1].gradient()); vf_of("B0",v[1].data()); }
void vf_dense_reg() { vfu i=vf_dim("i"),o=vf_dim("o"); R4; PF x=Input({i}); auto e=Dense(o,true,k1,k2,b1,b2)(x); std::vector<VF> v; vf_vars(e,v); vf_val("k1",v[0].l1_regularizer()); vf_val("k2",v[0].l2_regularizer()); vf_val("b1",v[1].l1_regularizer()); vf_val("b2",v[1].l2_regularizer()); vf_check("trainable", v[0].trainable() && v[1].trainable()); }
void vf_dense_two() { vfu b=vf_dim("b"),i=vf_dim("i"),h=vf_dim("h"),o=vf_dim("o"); PF x=Input({i}); auto z=Dense(h)(x); auto e=Dense(o)(z); shp("r",e.shape()); std::vector<VF> v; vf_vars(e,v); vf_check("four", v.size()==4); v[0].data()=vf_tf("W",{i,h}); v[1].data()=vf_tf("B",{1,h}); v[2].data()=vf_tf("V",{h,o}); v[3].data()=vf_tf("C",{1,o}); x.bind(vf_tf("A",{b,i})); TF y=e.forward(); vf_of("Y",y); }
void vf_dense_separate() { vfu b=vf_dim("b"),i=vf_dim("i"),o=vf_dim("o"); auto layer=Dense(o); VF x{ vf_tf("A",{b,i}) }; auto e=layer(x); auto f=layer(x); std::vector<VF> v=own(e,x), u=own(f,x); vf_check("own_variables", !(v[0]==u[0]) && !(v[1]==u[1])); u[0].data()=vf_tf("W",{i,o}); u[1].data()=vf_tf("B",{1,o}); v[0].data().reset(0.0f); TF y=e.forward(); TF z=f.forward(); vf_of("Y",y); vf_of("Z",z); }
// ---- convolution layers: the operator applied to their own kernel, plus their own bias
#define PIC vfu b=vf_dim("b"),h=vf_dim("h"),w=vf_dim("w"),c=vf_dim("c"),o=vf_dim("o")
static void small( vfs const& s ) { vfu n=1; for ( vfu i=0; i!=s.size(); ++i ) n*=s[i]; vf_assume( n<4294967295UL ); }
#define KR vfu p=vf_dim("p"),q=vf_dim("q")
template< typename E > static void parts( E& e, vfu first, vfu o, const char* n="two" ) { std::vector<VF> v; vf_vars(e,v); vf_check(n, v.size()==first+2); vf_of("B0",v[first+1].data()); vf_check("trainable", v[first].trainable() && v[first+1].trainable()); shp("r",v[first].shape(),"w1","w2","w3","w4"); }
void vf_conv_shape() { PIC; KR; PF x=Input({h+p-1,w+q-1,c}); auto e=Conv2D(o,{p,q})(x); parts(e,0,o); }
void vf_conv_square() { PIC; vfu p=vf_dim("p"); PF x=Input({h+p-1,w+p-1,c}); auto e=Conv2D(o,{p})(x); parts(e,0,o); }
void vf_conv_old_shape() { PIC; KR; PF x=Input({h+p-1,w+q-1,c}); auto e=Conv2D(o,vfs{p,q},vfs{h+p-1,w+q-1,c})(x); parts(e,0,o); }
void vf_convt_shape() { PIC; KR; PF x=Input({h,w,c}); auto e=Conv2DTranspose(o,{p,q})(x); parts(e,0,o); }
void vf_conv_reg() { PIC; KR; R4; PF x=Input({h+p-1,w+q-1,c}); auto e=Conv2D(o,{p,q},"valid",{1,1},{1,1},false,k1,k2,b1,b2)(x); std::vector<VF> v; vf_vars(e,v); vf_val("k1",v[0].l1_regularizer()); vf_val("k2",v[0].l2_regularizer()); vf_val("b1",v[1].l1_regularizer()); vf_val("b2",v[1].l2_regularizer()); vf_check("fixed", v[0].trainable() && !v[1].trainable()); }
void vf_convt_reg() { PIC; KR; R4; PF x=Input({h,w,c}); auto e=Conv2DTranspose(o,{p,q},"valid",{1,1},{1,1},false,k1,k2,b1,b2)(x); std::vector<VF> v; vf_vars(e,v); vf_val("k1",v[0].l1_regularizer()); vf_val("k2",v[0].l2_regularizer()); vf_val("b1",v[1].l1_regularizer()); vf_val("b2",v[1].l2_regularizer()); vf_check("fixed", v[0].trainable() && !v[1].trainable()); }
void vf_conv() { PIC; KR; small({b,h+p-1,w+q-1,c}); VF x{ vf_tf("A",{b,h+p-1,w+q-1,c}) }; auto e=Conv2D(o,{p,q})(x); std::vector<VF> v=own(e,x); v[0].data()=vf_tf("W",{o,p,q,c}); v[1].data()=vf_tf("B",{1,1,o}); TF y=e.forward(); vf_of("Y",y); }
void vf_conv_stride() { PIC; KR; vfu s=vf_dim("s"),t=vf_dim("t"); small({b,(h-1)*s+p,(w-1)*t+q,c}); VF x{ vf_tf("A",{b,(h-1)*s+p,(w-1)*t+q,c}) }; auto e=Conv2D(o,{p,q},"valid",{s,t})(x); std::vector<VF> v=own(e,x); v[0].data()=vf_tf("W",{o,p,q,c}); v[1].data()=vf_tf("B",{1,1,o}); TF y=e.forward(); vf_of("Y",y); }
void vf_conv_dilation() { PIC; KR; vfu s=vf_dim("s"),t=vf_dim("t"); small({b,h+(p-1)*s,w+(q-1)*t,c}); VF x{ vf_tf("A",{b,h+(p-1)*s,w+(q-1)*t,c}) }; auto e=Conv2D(o,{p,q},"valid",{1,1},{s,t})(x); std::vector<VF> v=own(e,x); v[0].data()=vf_tf("W",{o,p,q,c}); v[1].data()=vf_tf("B",{1,1,o}); TF y=e.forward(); vf_of("Y",y); }
void vf_conv_same() { PIC; small({b,h,w,c}); VF x{ vf_tf("A",{b,h,w,c}) }; auto e=Conv2D(o,{3,3},"same")(x); std::vector<VF> v=own(e,x); v[0].data()=vf_tf("W",{o,3,3,c}); v[1].data()=vf_tf("B",{1,1,o}); TF y=e.forward(); vf_of("Y",y); }
void vf_conv_old() { PIC; KR; small({b,h+p-1,w+q-1,c}); VF x{ vf_tf("A",{b,h+p-1,w+q-1,c}) }; auto e=Conv2D(o,vfs{p,q},vfs{h+p-1,w+q-1,c})(x); std::vector<VF> v=own(e,x); v[0].data()=vf_tf("W",{o,p,q,c}); v[1].data()=vf_tf("B",{1,1,o}); TF y=e.forward(); vf_of("Y",y); }
void vf_conv_old_stride() { PIC; KR; vfu s=vf_dim("s"),t=vf_dim("t"); small({b,(h-1)*s+p,(w-1)*t+q,c}); VF x{ vf_tf("A",{b,(h-1)*s+p,(w-1)*t+q,c}) }; auto e=Conv2D(o,vfs{p,q},vfs{(h-1)*s+p,(w-1)*t+q,c},"valid",vfs{s,t})(x); std::vector<VF> v=own(e,x); v[0].data()=vf_tf("W",{o,p,q,c}); v[1].data()=vf_tf("B",{1,1,o}); TF y=e.forward(); vf_of("Y",y); }
void vf_conv_grad() { PIC; KR; learning_phase=1; small({b,h+p-1,w+q-1,c}); VF x{ vf_tf("A",{b,h+p-1,w+q-1,c}) }; auto e=Conv2D(o,{p,q})(x); std::vector<VF> v=own(e,x); v[0].data()=vf_tf("W",{o,p,q,c}); v[1].data()=vf_tf("B",{1,1,o}); e.forward(); TF g=vf_tf("G",{b,h,w,o}); e.backward(g); vf_of("GB",v[1].gradient()); }
void vf_conv1d() { vfu b=vf_dim("b"),w=vf_dim("w"),c=vf_dim("c"),o=vf_dim("o"),p=vf_dim("p"); small({b,w+p-1,c}); VF x{ vf_tf("A",{b,w+p-1,c}) }; auto e=Conv1D(o,p)(x); std::vector<VF> v=own(e,x); vf_check("two", v.size()==2); v[0].data()=vf_tf("W",{o,p,1,c}); v[1].data()=vf_tf("B",{1,1,o}); TF y=e.forward(); vf_of("Y",y); }
void vf_conv1d_stride() { vfu b=vf_dim("b"),w=vf_dim("w"),c=vf_dim("c"),o=vf_dim("o"),p=vf_dim("p"),s=vf_dim("s"); small({b,(w-1)*s+p,c}); VF x{ vf_tf("A",{b,(w-1)*s+p,c}) }; auto e=Conv1D(o,p,s)(x); std::vector<VF> v=own(e,x); v[0].data()=vf_tf("W",{o,p,1,c}); v[1].data()=vf_tf("B",{1,1,o}); TF y=e.forward(); vf_of("Y",y); }
void vf_conv1d_reg() { vfu w=vf_dim("w"),c=vf_dim("c"),o=vf_dim("o"),p=vf_dim("p"); R4; PF x=Input({w+p-1,c}); auto e=Conv1D(o,p,1,"valid",1,false,k1,k2,b1,b2)(x); std::vector<VF> v; vf_vars(e,v); vf_val("k1",v[0].l1_regularizer()); vf_val("k2",v[0].l2_regularizer()); vf_val("b1",v[1].l1_regularizer()); vf_val("b2",v[1].l2_regularizer()); vf_check("fixed", v[0].trainable() && !v[1].trainable()); }
void vf_convt_value() {
#ifdef VF_NATIVE
    vfu b=1+vf_dim("b")%3,h=vf_dim("h"),w=vf_dim("w"),c=1+vf_dim("c")%3,o=1+vf_dim("o")%3,p=vf_dim("p"),q=vf_dim("q"),s=1+vf_dim("s")%3,t=1+vf_dim("t")%3; TF a=vf_tf("A",{b,h,w,c}); VF x{ a };
    auto e=Conv2DTranspose(o,{p,q},"valid",{s,t})(x); std::vector<VF> v=own(e,x); TF k=vf_tf("W",{o,p,q,c}); v[0].data()=k; TF bb=vf_tf("B",{1,1,o}); v[1].data()=bb; TF y=e.forward();
    VF x2{ a }, k2{ k }; auto e2=conv2d_transpose(p,q,s,t,1,1,"valid")(x2,k2); TF z=e2.forward(); vf_check("shape", y.shape()==z.shape()); bool ok=true; for ( vfu i=0; i!=y.size() && i!=z.size(); ++i ) { float d=y[i]-z[i]-bb[i%o]; if ( !(d<1e-3f && d>-1e-3f) ) ok=false; } vf_check("value", ok && y.size()==z.size());
#endif
}
// ---- batch normalization layer
void vf_bn_init() { vfu i=vf_dim("i"),j=vf_dim("j"); R4; PF x=Input({i,j}); auto e=BatchNormalization(0.9f,k1,k2,b1,b2)(x); std::vector<VF> v; vf_vars(e,v); vf_check("two", v.size()==2); vf_of("GM",v[0].data()); vf_of("BT",v[1].data()); vf_val("k1",v[0].l1_regularizer()); vf_val("k2",v[0].l2_regularizer()); vf_val("b1",v[1].l1_regularizer()); vf_val("b2",v[1].l2_regularizer()); vf_check("trainable", v[0].trainable() && v[1].trainable()); }
void vf_bn() { vfu r=vf_dim("r",2),c=vf_dim("c"); learning_phase=1; VF x{ vf_tf("A",{r,c}) }; auto e=BatchNormalization()(x); std::vector<VF> v=own(e,x); v[0].data()=vf_tf("GM",{c}); v[1].data()=vf_tf("BT",{c}); TF y=e.forward(); vf_of("Y",y); }
void vf_bn_momentum() { vfu r=vf_dim("r",2),c=vf_dim("c"),s=vf_dim("s"); double p=vf_real("p"); vf_assume(p>0.0); vf_assume(p<1.0); learning_phase=1; PF x=Input({c}); auto e=BatchNormalization(float(p))(x); x.bind(vf_tf("A1",{r,c})); e.forward(); ns(); x.bind(vf_tf("A2",{r,c})); e.forward(); learning_phase=0; ns(); x.bind(vf_tf("A",{s,c})); TF y=e.forward(); vf_of("Y",y); }
// ---- merging layers
#define D2 vfu m=vf_dim("m"),n=vf_dim("n")
template< typename F > static void two( F const& f ) { D2; learning_phase=1; VF a{ vf_tf("A",{m,n}) }, b{ vf_tf("B",{m,n}) }; auto e=f(a,b); TF y=e.forward(); vf_of("Y",y); TF g=vf_tf("G",{m,n}); e.backward(g); vf_of("GA",a.gradient()); vf_of("GB",b.gradient()); shp("r",e.shape()); }
void vf_add() { two([](auto const& a,auto const& b){ return Add()(a,b); }); }
void vf_subtract() { two([](auto const& a,auto const& b){ return Subtract()(a,b); }); }
void vf_multiply() { two([](auto const& a,auto const& b){ return Multiply()(a,b); }); }
void vf_concatenate() { D2; vfu k=vf_dim("k"),l=vf_dim("l"); learning_phase=1; VF a{ vf_tf("A",{l,m,n}) }, b{ vf_tf("B",{l,m,k}) }; auto e=Concatenate()(a,b); TF y=e.forward(); vf_of("Y",y); TF g=vf_tf("G",{l,m,n+k}); e.backward(g); vf_of("GA",a.gradient()); vf_of("GB",b.gradient()); shp("r",e.shape()); }
void vf_concatenate_0() { D2; vfu k=vf_dim("k"); VF a{ vf_tf("A",{m,n}) }, b{ vf_tf("B",{k,n}) }; auto e=Concatenate(0)(a,b); TF y=e.forward(); vf_of("Y",y); shp("r",e.shape()); }
void vf_concatenate_1() { D2; vfu k=vf_dim("k"); VF a{ vf_tf("A",{m,n}) }, b{ vf_tf("B",{m,k}) }; auto e=Concatenate(1)(a,b); TF y=e.forward(); vf_of("Y",y); shp("r",e.shape()); }
// ---- activation layers
template< typename F > static void act( F const& f, int dom=6 ) { D2; learning_phase=1; VF a{ vf_tf("A",{m,n},dom) }; auto e=f(a); TF y=e.forward(); vf_of("Y",y); TF g=vf_tf("G",{m,n}); e.backward(g); vf_of("GA",a.gradient()); }
void vf_relu() { act([](auto const& a){ return ReLU(a); }); }
void vf_softmax() { D2; VF a{ vf_tf("A",{m,n}) }; auto e=Softmax()(a); TF y=e.forward(); vf_of("Y",y); }
void vf_leaky() { float f=vf_real("f"); vf_assume(f>0.0f); vf_assume(f<1.0f); act([f](auto const& a){ return LeakyReLU(f)(a); }); }
void vf_leaky_default() { act([](auto const& a){ return LeakyReLU()(a); }); }
void vf_elu() { float f=vf_pos("f"); act([f](auto const& a){ return ELU(f)(a); }); }
void vf_elu_default() { act([](auto const& a){ return ELU()(a); }); }
// ---- shape layers
void vf_flatten() { vfu b=vf_dim("b"),k=vf_dim("k"); D2; learning_phase=1; PF x=Input({k,m,n}); VF w{ vf_tf("W",{n}) }; auto h=x+w; auto e=Flatten()(h); shp("r",e.shape()); x.bind(vf_tf("A",{b,k,m,n})); TF y=e.forward(); vf_of("Y",y); TF g=vf_tf("G",{b,k*m*n}); e.backward(g); vf_of("GW",w.gradient()); }
void vf_reshape() { vfu b=vf_dim("b"); D2; PF x=Input({m,n}); auto e=Reshape({n,m})(x); shp("r",e.shape()); x.bind(vf_tf("A",{b,m,n})); TF y=e.forward(); vf_of("Y",y); }
void vf_reshape_all() { vfu b=vf_dim("b"); D2; VF x{ vf_tf("A",{b,m,n}) }; auto e=Reshape({m*n,b},false)(x); TF y=e.forward(); vf_of("Y",y); shp("r",e.shape()); }
void vf_maxpool() { vfu b=vf_dim("b"),c=vf_dim("c"); D2; VF x{ vf_tf("A",{b,2*m,2*n,c}) }; auto e=MaxPooling2D(2)(x); TF y=e.forward(); vf_of("Y",y); shp("r",e.shape()); }
void vf_avgpool() { vfu b=vf_dim("b"),c=vf_dim("c"); D2; VF x{ vf_tf("A",{b,2*m,2*n,c}) }; auto e=AveragePooling2D(2)(x); TF y=e.forward(); vf_of("Y",y); shp("r",e.shape()); }
void vf_upsample() { vfu b=vf_dim("b"),c=vf_dim("c"),s=vf_dim("s",2); D2; VF x{ vf_tf("A",{b,m,n,c}) }; auto e=UpSampling2D(s)(x); TF y=e.forward(); vf_of("Y",y); shp("r",e.shape()); }
// ---- dropout, input
void vf_dropout() { D2; float f=vf_real("f"); vf_assume(f>0.0f); vf_assume(f<1.0f); learning_phase=1; VF a{ vf_tf("A",{m,n},6) }; auto e=Dropout(f)(a); TF y=e.forward(); vf_of("Y",y); }
void vf_dropout_predict() { D2; float f=vf_real("f"); vf_assume(f>0.0f); vf_assume(f<1.0f); learning_phase=0; VF a{ vf_tf("A",{m,n}) }; auto e=Dropout(f)(a); TF y=e.forward(); vf_of("Y",y); }
void vf_input() { D2; auto x=Input({m,n}); shp("r",x.shape()); auto u=Input(); vf_check("unknown", u.shape().size()==1 && u.shape()[0]==-1UL); vf_check("differ", x.id()!=u.id()); x.bind(vf_tf("A",{m,n})); TF y=x.forward(); vf_of("Y",y); }
