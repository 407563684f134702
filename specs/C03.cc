// C03  reductions and statistics of tensors
using namespace ceras;
#define D2 vfu m=vf_dim("m"),n=vf_dim("n")
#define D3 vfu l=vf_dim("l"),m=vf_dim("m"),n=vf_dim("n")
void vf_sum() { D2; TD a=vf_t("A",{m,n}); vf_val("v",sum(a)); vf_o("A",a); }
void vf_mean() { D2; TD a=vf_t("A",{m,n}); vf_val("v",mean(a)); vf_o("A",a); }
void vf_max() { D2; TD a=vf_t("A",{m,n}); vf_val("v",ceras::max(a)); vf_val("w",amax(a)); vf_o("A",a); }
void vf_min() { D2; TD a=vf_t("A",{m,n}); vf_val("v",ceras::min(a)); vf_val("w",amin(a)); vf_o("A",a); }
void vf_rsum() { D2; TD a=vf_t("A",{m,n}); TD c=reduce_sum(a); vf_o("C",c); vf_o("A",a); }
void vf_rmean() { D2; TD a=vf_t("A",{m,n}); TD c=reduce_mean(a); vf_o("C",c); vf_o("A",a); }
#define AX1(N,F) void vf_##N##_1() { vfu n=vf_dim("n"); TD a=vf_t("A",{n}); TD c=F(a,0,true); vf_o("C",c); vf_o("A",a); }
#define AX2(N,F) void vf_##N##_20() { D2; TD a=vf_t("A",{m,n}); TD c=F(a,0); vf_o("C",c); vf_o("A",a); } \
 void vf_##N##_21() { D2; TD a=vf_t("A",{m,n}); TD c=F(a,1); vf_o("C",c); vf_o("A",a); } \
 void vf_##N##_20k() { D2; TD a=vf_t("A",{m,n}); TD c=F(a,0,true); vf_o("C",c); vf_o("A",a); } \
 void vf_##N##_21k() { D2; TD a=vf_t("A",{m,n}); TD c=F(a,-1UL,true); vf_o("C",c); vf_o("A",a); }
#define AX3(N,F) void vf_##N##_30() { D3; TD a=vf_t("A",{l,m,n}); TD c=F(a,0); vf_o("C",c); vf_o("A",a); } \
 void vf_##N##_31() { D3; TD a=vf_t("A",{l,m,n}); TD c=F(a,1); vf_o("C",c); vf_o("A",a); } \
 void vf_##N##_32() { D3; TD a=vf_t("A",{l,m,n}); TD c=F(a,-1UL); vf_o("C",c); vf_o("A",a); } \
 void vf_##N##_31k() { D3; TD a=vf_t("A",{l,m,n}); TD c=F(a,1,true); vf_o("C",c); vf_o("A",a); }
#define ALL(N,F) AX1(N,F) AX2(N,F) AX3(N,F)
#define VFHARNESS(N,F) ALL(N,F)
VFHARNESS(asum,ceras::sum)
VFHARNESS(amean,ceras::mean)
VFHARNESS(avar,variance)
VFHARNESS(astd,standard_deviation)
VFHARNESS(amax,ceras::max)
VFHARNESS(amin,ceras::min)
void vf_softmax1() { vfu n=vf_dim("n"); TD a=vf_t("A",{n}); TD c=softmax(a); vf_o("C",c); vf_o("A",a); }
void vf_softmax2() { D2; TD a=vf_t("A",{m,n}); TD c=softmax(a); vf_o("C",c); vf_o("A",a); }
void vf_softmax3() { D3; TD a=vf_t("A",{l,m,n}); TD c=softmax(a); vf_o("C",c); vf_o("A",a); }
void vf_reduce_prod() { D3; double s=vf_real("s"); TD a=vf_t("A",{l,m,n}); TD c=reduce(a,1,s,[](double x,double y){return x+y;}); vf_o("C",c); vf_o("A",a); }
// entries far from zero: the exponentials neither overflow nor vanish as a whole
void vf_softmax_far() { D2; TD a=vf_t("A",{m,n},7); TD c=softmax(a); vf_o("C",c); vf_o("A",a); }
