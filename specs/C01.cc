// C01  matrix product
using namespace ceras;
void vf_mul22() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"); TD a=vf_t("A",{m,k}), b=vf_t("B",{k,n}); TD c=multiply(a,b); vf_o("C",c); vf_o("A",a); vf_o("B",b); }
void vf_star() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"); TD a=vf_t("A",{m,k}), b=vf_t("B",{k,n}); TD c=a*b; vf_o("C",c); vf_o("A",a); vf_o("B",b); }
void vf_mul12() { vfu k=vf_dim("k"),n=vf_dim("n"); TD a=vf_t("A",{k}), b=vf_t("B",{k,n}); TD c=multiply(a,b); vf_o("C",c); vf_o("A",a); vf_o("B",b); }
void vf_mul21() { vfu m=vf_dim("m"),k=vf_dim("k"); TD a=vf_t("A",{m,k}), b=vf_t("B",{k}); TD c=multiply(a,b); vf_o("C",c); vf_o("A",a); vf_o("B",b); }
void vf_mul11() { vfu k=vf_dim("k"); TD a=vf_t("A",{k}), b=vf_t("B",{k}); TD c=multiply(a,b); vf_o("C",c); vf_o("A",a); vf_o("B",b); }
void vf_mulinto() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"),p=vf_dim("p"),q=vf_dim("q"); TD a=vf_t("A",{m,k}), b=vf_t("B",{k,n}), c=vf_t("Old",{p,q}); multiply(a,b,c); vf_o("C",c); vf_o("A",a); vf_o("B",b); }
void vf_mulsquare() { vfu m=vf_dim("m"); TD a=vf_t("A",{m,m}); TD c=a*a; vf_o("C",c); vf_o("A",a); }
template<class T> static void gm( bool ta, bool tb, int which )
{
    vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n");
    tensor<T> a{ std::vector<vfu>{ta?k:m,ta?m:k} }, b{ std::vector<vfu>{tb?n:k,tb?k:n} }, c{ std::vector<vfu>{m,n} };
    if constexpr( std::is_same_v<T,double> ) { vf_fill(a.data(),a.size(),"A",0); vf_fill(b.data(),b.size(),"B",0); vf_fill(c.data(),c.size(),"Old",0); }
    else { vf_fillf(a.data(),a.size(),"A",0); vf_fillf(b.data(),b.size(),"B",0); vf_fillf(c.data(),c.size(),"Old",0); }
    if ( which == 0 ) gemm_cpu( a.data(), ta, b.data(), tb, m, k, n, c.data() );
    else gemm( a.data(), ta, b.data(), tb, m, k, n, c.data() );
    if constexpr( std::is_same_v<T,double> ) { vf_out("C",c.data(),m*n,2); vf_shape(m); vf_shape(n); vf_o("A",a); vf_o("B",b); }
    else { vf_outf("C",c.data(),m*n,2); vf_shape(m); vf_shape(n); }
}
void vf_cpu_nn() { gm<double>(false,false,0); }
void vf_cpu_nt() { gm<double>(false,true,0); }
void vf_cpu_tn() { gm<double>(true,false,0); }
void vf_cpu_tt() { gm<double>(true,true,0); }
void vf_gemm_nn() { gm<double>(false,false,1); }
void vf_gemm_nt() { gm<double>(false,true,1); }
void vf_gemm_tn() { gm<double>(true,false,1); }
void vf_gemm_tt() { gm<double>(true,true,1); }
void vf_gemmf_nn() { gm<float>(false,false,1); }
void vf_gemmf_nt() { gm<float>(false,true,1); }
void vf_gemmf_tn() { gm<float>(true,false,1); }
void vf_gemmf_tt() { gm<float>(true,true,1); }
void vf_gemmview() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"); TD a=vf_t("A",{m,k}), b=vf_t("B",{k,n}), c=vf_t("Old",{m,n});
    view_2d<double> x{a.data(),m,k}, y{b.data(),k,n}, z{c.data(),m,n}; gemm(x,y,z); vf_o("C",c); vf_o("A",a); vf_o("B",b); }
// the product as a node of an expression: value and gradients
void vf_expr_value() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"); VD a=vf_v("A",{m,k}), b=vf_v("B",{k,n}); auto e=a*b; TD c=e.forward(); vf_o("C",c); vf_o("A",a.data()); vf_o("B",b.data()); }
void vf_expr_grad() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"); VD a=vf_v("A",{m,k}), b=vf_v("B",{k,n}); auto e=a*b; e.forward(); TD g=vf_t("G",{m,n}); e.backward(g);
    vf_o("GA",a.gradient()); vf_o("GB",b.gradient()); vf_o("G",g); vf_o("A",a.data()); vf_o("B",b.data()); }
void vf_expr_again() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"),m2=vf_dim("m2"); PD a; VD b=vf_v("B",{k,n}); auto e=a*b; a.bind(vf_t("A1",{m2,k})); e.forward(); TD g1=vf_t("G1",{m2,n}); e.backward(g1);
    vf_new_step(); a.bind(vf_t("A",{m,k})); TD c=e.forward(); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("C",c); vf_o("GB",b.gradient()); }
void vf_assoc_shape() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"); VD a=vf_v("A",{m,k}), b=vf_v("B",{k,n}); auto e=a*b; std::vector<vfu> s=e.shape(); vf_valu("rank",s.size()); vf_valu("rows",s[0]); vf_valu("cols",s[1]); }
void vf_expr_again2() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"),m2=vf_dim("m2"),k2=vf_dim("k2"),n2=vf_dim("n2"); VD a=vf_v("A1",{m2,k2}), b=vf_v("B1",{k2,n2}); auto e=a*b; e.forward(); TD g1=vf_t("G1",{m2,n2}); e.backward(g1);
    vf_new_step(); a.data()=vf_t("A",{m,k}); b.data()=vf_t("B",{k,n}); TD c=e.forward(); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("C",c); vf_o("GA",a.gradient()); vf_o("GB",b.gradient()); vf_o("A",a.data()); vf_o("B",b.data()); vf_o("G",g); }
// the second operands have as many cells as the first ones, but other extents
void vf_expr_again3() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"); VD a=vf_v("A1",{k,m}), b=vf_v("B1",{m,n}); auto e=a*b; e.forward(); TD g1=vf_t("G1",{k,n}); e.backward(g1);
    vf_new_step(); a.data()=vf_t("A",{m,k}); b.data()=vf_t("B",{k,n}); TD c=e.forward(); TD g=vf_t("G",{m,n}); e.backward(g); vf_o("C",c); vf_o("GA",a.gradient()); vf_o("GB",b.gradient()); }
