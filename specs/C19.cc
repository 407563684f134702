// C19  views, strided iterators, ranges, enumeration, reversal: every element at its place, in order, once
#include "utils/enumerate.hpp"
#include "utils/reverse.hpp"
#include "utils/list.hpp"
using namespace ceras;
#define CK(c,n) vf_check( n, c )
#define IX(i,n) vfu i=vf_dim(#i,0); vf_assume( i<n );
void vf_v1() { vfu n=vf_dim("n"); IX(i,n) TD x=vf_t("X",{n}); view_1d<double> v{x.data(),n}; v[i]=2.0*v[i]+7.0; view_1d<double> const& w=v; vf_val("r",w[i]); vf_o("X",x); }
void vf_av() { vfu n=vf_dim("n"); IX(i,n) TD x=vf_t("X",{n}); array_view<double> v{x.data(),n}; v[i]+=7.0; vf_o("X",x); }
void vf_view1() { vfu n=vf_dim("n"); IX(i,n) TD x=vf_t("X",{n}); view<double,1> v; v.data=x.data(); v.dims=n; v[i]+=7.0; vf_o("X",x); }
void vf_v2() { vfu n=vf_dim("n"), m=vf_dim("m"); IX(i,n) IX(j,m) TD x=vf_t("X",{n,m}); view_2d<double> v{x.data(),n,m}; v[i][j]+=7.0; view_2d<double> const& w=v; vf_val("r",w[i][j]); vf_valu("row",v.row()); vf_valu("col",v.col()); vf_valu("size",v.size()); vf_valu("s0",v.shape().first); vf_valu("s1",v.shape().second); CK( v.data()==x.data(), "data" ); CK( w.data()==x.data(), "const_data" ); CK( v.begin()==x.data(), "begin" ); vf_o("X",x); }
void vf_v2_tensor() { vfu n=vf_dim("n"), m=vf_dim("m"); IX(i,n) IX(j,m) TD x=vf_t("X",{n,m}); view_2d<double> v{x,n,m}; v[i][j]+=7.0; vf_o("X",x); }
void vf_v2_const() { vfu n=vf_dim("n"), m=vf_dim("m"); IX(i,n) IX(j,m) TD x=vf_t("X",{n,m}); double const* p=x.data(); view_2d<double> v{p,n,m}; vf_val("r",v[i][j]); vf_o("X",x); }
void vf_v2_trans() { vfu n=vf_dim("n"), m=vf_dim("m"); IX(i,n) IX(j,m) TD x=vf_t("X",{m,n}); view_2d<double> v{x.data(),n,m,true}; v[j][i]+=7.0; view_2d<double> const& w=v; vf_val("r",w[j][i]); vf_o("X",x); }
void vf_v2_mv() { vfu n=vf_dim("n"), m=vf_dim("m"); IX(i,n) IX(j,m) TD x=vf_t("X",{n,m}); matrix_view<double> v{x.data(),n,m}; v[i][j]=1.5; vf_o("X",x); }
void vf_view2() { vfu n=vf_dim("n"), m=vf_dim("m"); IX(i,n) IX(j,m) TD x=vf_t("X",{n,m}); view<double,2> v{x.data(),n,m}; v[i][j]=1.5; vf_o("X",x); }
void vf_v2_row() { vfu n=vf_dim("n"), m=vf_dim("m"); IX(i,n) TD x=vf_t("X",{n,m}); view_2d<double> v{x.data(),n,m}; for ( auto p=v.row_begin(i); p!=v.row_end(i); ++p ) *p=*p*2.0+1.0; vf_o("X",x); }
void vf_v2_row_const() { vfu n=vf_dim("n"), m=vf_dim("m"); IX(i,n) TD x=vf_t("X",{n,m}); TD y=vf_t("Y",{m}); view_2d<double> v{x.data(),n,m}; std::copy( v.row_begin(i), v.row_end(i), y.begin() ); vf_o("Y",y); vf_o("X",x); }
void vf_v2_col() { vfu n=vf_dim("n"), m=vf_dim("m"); IX(j,m) TD x=vf_t("X",{n,m}); view_2d<double> v{x.data(),n,m}; auto last=v.col_end(j); for ( auto p=v.col_begin(j); p!=last; ++p ) *p=*p*2.0+1.0; vf_o("X",x); }
void vf_v2_col_read() { vfu n=vf_dim("n"), m=vf_dim("m"); IX(j,m) TD x=vf_t("X",{n,m}); TD y=vf_t("Y",{n}); view_2d<double> v{x.data(),n,m}; auto p=v.col_begin(j); for ( auto i : range(n) ) y[i]=p[i]; vf_o("Y",y); }
void vf_v2_all() { vfu n=vf_dim("n"), m=vf_dim("m"); TD x=vf_t("X",{n,m}); TD y=zeros<double>({m,n}); view_2d<double> a{x.data(),n,m}; view_2d<double> b{y.data(),m,n}; for ( auto i : range(n) ) for ( auto j : range(m) ) b[j][i]=a[i][j]; vf_o("Y",y); }
void vf_v3() { vfu n=vf_dim("n"), m=vf_dim("m"), k=vf_dim("k"); IX(a,n) IX(b,m) IX(c,k) TD x=vf_t("X",{n,m,k}); view_3d<double> v{x.data(),n,m,k}; v[a][b][c]+=7.0; view_3d<double> const& w=v; vf_val("r",w[a][b][c]); vf_o("X",x); }
void vf_cv() { vfu n=vf_dim("n"), m=vf_dim("m"), k=vf_dim("k"); IX(a,n) IX(b,m) IX(c,k) TD x=vf_t("X",{n,m,k}); cube_view<double> v{x.data(),n,m,k}; v[a][b][c]+=7.0; vf_o("X",x); }
void vf_view3() { vfu n=vf_dim("n"), m=vf_dim("m"), k=vf_dim("k"); IX(a,n) IX(b,m) IX(c,k) TD x=vf_t("X",{n,m,k}); view<double,3> v{x.data(),n,m,k}; v[a][b][c]+=7.0; vf_o("X",x); }
#define D4 vfu n=vf_dim("n"), m=vf_dim("m"), k=vf_dim("k"), l=vf_dim("l"); IX(a,n) IX(b,m) IX(c,k) IX(d,l) TD x=vf_t("X",{n,m,k,l});
void vf_v4() { D4 view_4d<double> v{x.data(),n,m,k,l}; v[a][b][c][d]+=7.0; view_4d<double> const& w=v; vf_val("r",w[a][b][c][d]); vf_o("X",x); }
void vf_tv() { D4 tesseract_view<double> v{x.data(),n,m,k,l}; v[a][b][c][d]+=7.0; vf_o("X",x); }
void vf_view4() { D4 view<double,4> v{x.data(),n,m,k,l}; v[a][b][c][d]+=7.0; vf_o("X",x); }
void vf_view4_shape() { D4 view<double,4> v{x.data(), std::array<unsigned long,4>{n,m,k,l}}; v[a][b][c][d]+=7.0; vf_o("X",x); }
void vf_view5() { D4 vfu o=vf_dim("o"); IX(e,o) TD y=vf_t("Y",{o,n,m,k,l}); view<double,5> v{y.data(),{o,n,m,k,l}}; v[e][a][b][c][d]+=7.0; view<double,5> const& w=v; vf_val("r",w[e][a][b][c][d]); vf_o("Y",y); }
void vf_view6() { D4 vfu o=vf_dim("o"), q=vf_dim("q"); IX(e,o) IX(f,q) TD y=vf_t("Y",{q,o,n,m,k,l}); view<double,6> v{y.data(),{q,o,n,m,k,l}}; v[f][e][a][b][c][d]+=7.0; vf_o("Y",y); }
// strided iterators
#define SI vfu n=vf_dim("n"), s=vf_dim("s"); IX(i,n) IX(j,n) TD x=vf_t("X",{n,s}); double* p=x.data(); stride_iterator<double*> it{p,s};
void vf_si_plus() { SI auto a=it+i; *a+=7.0; auto b=static_cast<long>(j)+it; vf_val("b",*b); vf_o("X",x); }
void vf_si_index() { SI it[i]+=7.0; stride_iterator<double*> const c{it}; vf_val("b",c[j]); vf_o("X",x); }
void vf_si_inc() { SI auto a=it+i; auto b=a++; CK( b-it==static_cast<long>(i), "old" ); CK( a-it==static_cast<long>(i)+1, "new" ); auto& c=++a; CK( &c==&a, "self" ); CK( a-it==static_cast<long>(i)+2, "twice" ); }
void vf_si_dec() { SI auto a=it+(i+2); auto b=a--; CK( b-it==static_cast<long>(i)+2, "old" ); CK( a-it==static_cast<long>(i)+1, "new" ); --a; CK( a-it==static_cast<long>(i), "twice" ); *a=1.5; vf_o("X",x); }
void vf_si_step() { SI auto a=it; a+=static_cast<long>(i); a+=static_cast<long>(j); CK( a-it==static_cast<long>(i+j), "sum" ); a-=static_cast<long>(i); CK( a-it==static_cast<long>(j), "difference" ); *a=1.5; vf_o("X",x); }
void vf_si_minus() { SI auto a=it+(i+j); auto b=a-static_cast<long>(j); *b=1.5; CK( a-b==static_cast<long>(j), "a-b" ); CK( b-a==-static_cast<long>(j), "b-a" ); vf_o("X",x); }
void vf_si_compare() { SI auto a=it+i, b=it+j; CK( (a==b)==(i==j), "==" ); CK( (a!=b)==(i!=j), "!=" ); CK( (a<b)==(i<j), "<" ); CK( (a<=b)==(i<=j), "<=" ); CK( (a>b)==(i>j), ">" ); }
// ranges
void vf_range() { vfu n=vf_dim("n",0); TD x=vf_t("X",{n+1}); double k=1.0; for ( auto i : range(n) ) { x[i]+=k; k+=1.0; } vf_val("k",k); vf_o("X",x); }
void vf_range2() { vfu a=vf_dim("a",0), n=vf_dim("n",0), r=vf_dim("r",0); TD x=vf_t("X",{a+n+r+1}); double k=1.0; for ( auto i : range(a,a+n) ) { x[i]+=k; k+=1.0; } vf_val("k",k); vf_o("X",x); }
void vf_range3() { vfu a=vf_dim("a",0), n=vf_dim("n",0), s=vf_dim("s"); TD x=vf_t("X",{a+n*s+1}); double k=1.0; for ( auto i : range(a,a+n*s,[s]( vfu v ){ return v+s; }) ) { x[i]+=k; k+=1.0; } vf_val("k",k); vf_o("X",x); }
void vf_range4() { vfu n=vf_dim("n"); TD x=vf_t("X",{n}); double k=1.0; for ( auto i : range(0UL,n,[]( vfu v ){ return v+2; },[]( vfu l, vfu r ){ return l>=r; }) ) { x[i]+=k; k+=1.0; } vf_val("k",k); vf_o("X",x); }
void vf_range_int() { vfu n=vf_dim("n",0); int lo=-3, hi=static_cast<int>(n); TD x=vf_t("X",{n+4}); for ( auto i : range(lo,hi) ) x[static_cast<vfu>(i+3)]+=1.0; vf_o("X",x); }
void vf_range_iter() { vfu n=vf_dim("n"); IX(i,n) auto r=range(n); auto a=r.begin(); auto b=a+i; vf_valu("b",*b); auto c=b++; vf_valu("c",*c); vf_valu("b1",*b); vf_valu("e",*r.end()); vf_valu("cb",*r.cbegin()); vf_valu("ce",*r.cend()); auto d=i+a; vf_valu("d",*d); CK( (d==r.begin())==(i==0), "==" ); CK( (d!=r.begin())==(i!=0), "!=" ); d+=3; vf_valu("d3",*d); }
// enumeration and reversal
void vf_enum() { vfu n=vf_dim("n"); TD x=vf_t("X",{n}); for ( auto [i,v] : enumerate( x ) ) v=v*2.0+static_cast<double>(i); vf_o("X",x); }
void vf_enum_vec() { vfu n=vf_dim("n"); TD t=vf_t("X",{n}); std::vector<double> x( t.begin(), t.end() ); TD y=zeros<double>({n}); for ( auto [i,v] : enumerate( x ) ) y[static_cast<vfu>(i)]+=v; vf_o("Y",y); }
void vf_reverse() { vfu n=vf_dim("n"); TD x=vf_t("X",{n}); TD y=zeros<double>({n}); vfu k=0; for ( auto& v : reverse( x ) ) { y[k]+=v; ++k; } vf_valu("k",k); vf_o("Y",y); }
void vf_reverse_write() { vfu n=vf_dim("n"); TD x=vf_t("X",{n}); double k=0.0; for ( auto& v : reverse( x ) ) { v+=k; k+=1.0; } vf_o("X",x); }
