// C17  parallel loops and element-wise application: every index exactly once, all finished on return
using namespace ceras;
#define N2 vfu n=vf_dim("n",0), lo=vf_dim("lo",0), k=vf_dim("k",0)
void vf_par() { N2; vfu hi=lo+k; TD x=vf_t("X",{hi+n+1}); double* p=x.data(); parallel( [p]( vfu i ) { p[i]=p[i]*2.0+1.0; }, lo, hi ); vf_o("X",x); }
void vf_par_threshold() { N2; vfu hi=lo+k; vfu t=vf_dim("t",0); TD x=vf_t("X",{hi+n+1}); double* p=x.data(); parallel( [p]( vfu i ) { p[i]=p[i]*2.0+1.0; }, lo, hi, t ); vf_o("X",x); }
void vf_par_zero() { vfu n=vf_dim("n"); TD x=vf_t("X",{n}); double* p=x.data(); parallel( [p]( vfu i ) { p[i]=p[i]*2.0+1.0; }, n ); vf_o("X",x); }
void vf_par_index() { N2; vfu hi=lo+k; TD x=zeros<double>({hi+n+1}); double* p=x.data(); parallel( [p]( vfu i ) { p[i]+=1.0+i; }, lo, hi ); vf_o("X",x); }
void vf_par_u32() { vfu n=vf_dim("n",0), k=vf_dim("k",0); unsigned int h=k; TD x=vf_t("X",{k+n+1}); double* p=x.data(); parallel( [p]( unsigned int i ) { p[i]=p[i]*2.0+1.0; }, 0U, h ); vf_o("X",x); }
void vf_par_twice() { vfu n=vf_dim("n",0); TD x=vf_t("X",{n+1}); double* p=x.data(); parallel( [p]( vfu i ) { p[i]+=1.0; }, 0UL, n ); parallel( [p]( vfu i ) { p[i]*=3.0; }, 0UL, n ); vf_o("X",x); }
void vf_par_shift() { vfu n=vf_dim("n",0); TD x=vf_t("X",{n+1}); TD y=vf_t("Y",{n+1}); double* p=x.data(); double* q=y.data(); parallel( [p,q]( vfu i ) { p[i]=q[i+1]-q[i]; }, 0UL, n ); vf_o("X",x); vf_o("Y",y); }
void vf_each1() { vfu n=vf_dim("n",0); TD x=vf_t("X",{n+1}); for_each( x.begin(), x.begin()+n, []( double& v ) { v=3.0*v-1.0; } ); vf_o("X",x); }
void vf_each2() { vfu n=vf_dim("n"); TD x=vf_t("X",{n}); TD y=vf_t("Y",{n}); for_each( x.begin(), x.end(), y.begin(), []( double a, double& b ) { b=a-2.0*b; } ); vf_o("X",x); vf_o("Y",y); }
void vf_each3() { vfu n=vf_dim("n"); TD x=vf_t("X",{n}); TD y=vf_t("Y",{n}); TD z=vf_t("Z",{n}); for_each( x.begin(), x.end(), y.begin(), z.begin(), []( double a, double b, double& c ) { c=c*a-b; } ); vf_o("X",x); vf_o("Y",y); vf_o("Z",z); }
void vf_each4() { vfu n=vf_dim("n"); TD x=vf_t("X",{n}); TD y=vf_t("Y",{n}); TD z=vf_t("Z",{n}); TD w=vf_t("W",{n}); for_each( x.begin(), x.end(), y.begin(), z.begin(), w.begin(), []( double a, double b, double c, double& d ) { d=d*a-b*c; } ); vf_o("Z",z); vf_o("W",w); }
void vf_each_in_place() { vfu n=vf_dim("n"); TD x=vf_t("X",{n}); for_each( x.begin(), x.end(), x.begin(), []( double a, double& b ) { b=a+1.0; } ); vf_o("X",x); }
void vf_map() { vfu n=vf_dim("n"), m=vf_dim("m"); TD x=vf_t("X",{n,m}); TD y=x.deep_copy(); y.map( []( double& v ){ v=v*v; } ); vf_o("X",x); vf_o("Y",y); }
