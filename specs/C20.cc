// C20  complex expressions
using namespace ceras;

#define SQ vfu m=vf_dim("m"),n=vf_dim("n"); vfs da{m,n},db{m,n}
#define MM vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"); vfs da{m,k},db{k,n}
#define IN1 VD a=vf_v("A",da,6), b=vf_v("B",da,6); auto x=complex{a,b}
#define IN2 IN1; VD c=vf_v("C",db), d=vf_v("D",db); auto y=complex{c,d}
#define G1(E,SH) TD y1=(E).forward(); vf_o("Y",y1); TD g=vf_t("G",SH); (E).backward(g); vf_o("GA",a.gradient()); vf_o("GB",b.gradient()); vf_o("A",a.data()); vf_o("B",b.data());
#define G2(Z,SH) auto re=real(Z); auto im=imag(Z); TD yr=re.forward(); TD yi=im.forward(); vf_o("R",yr); vf_o("I",yi); TD g=vf_t("G",SH), h=vf_t("H",SH); re.backward(g); im.backward(h); vf_o("GA",a.gradient()); vf_o("GB",b.gradient()); vf_o("A",a.data()); vf_o("B",b.data());
#define G3(Z,SH) G2(Z,SH) vf_o("GC",c.gradient()); vf_o("GD",d.gradient()); vf_o("C",c.data()); vf_o("D",d.data());
#define GE(Z,SH) G2(Z,SH) vf_o("GC",c.gradient()); vf_o("C",c.data());
void vf_parts() { SQ; IN1; auto z=x; G2(z,da) }
void vf_abs() { SQ; IN1; auto e=ceras::abs(x); G1(e,da) }
void vf_norm() { SQ; IN1; auto e=ceras::norm(x); G1(e,da) }
void vf_arg() { SQ; IN1; auto e=arg(x); G1(e,da) }
void vf_conj() { SQ; IN1; auto z=conj(x); G2(z,da) }
void vf_plus() { SQ; IN1; auto z=+x; G2(z,da) }
void vf_neg() { SQ; IN1; auto z=-x; G2(z,da) }
void vf_polar() { SQ; VD a=vf_v("A",da), b=vf_v("B",da); auto z=polar(a,b); G2(z,da) }
void vf_add() { SQ; IN2; auto z=x+y; G3(z,da) }
void vf_sub() { SQ; IN2; auto z=x-y; G3(z,da) }
void vf_mul() { MM; IN2; auto z=x*y; vfs dz{m,n}; G3(z,dz) }
#define INE IN1; VD c=vf_v("C",db)
void vf_add_e() { SQ; INE; auto z=x+c; G2(z,da) vf_o("GC",c.gradient()); }
void vf_e_add() { SQ; INE; auto z=c+x; G2(z,da) vf_o("GC",c.gradient()); }
void vf_sub_e() { SQ; INE; auto z=x-c; G2(z,da) vf_o("GC",c.gradient()); }
void vf_e_sub() { SQ; INE; auto z=c-x; G2(z,da) vf_o("GC",c.gradient()); }
void vf_mul_e() { MM; INE; auto z=x*c; vfs dz{m,n}; G2(z,dz) vf_o("GC",c.gradient()); }
void vf_e_mul() { vfu m=vf_dim("m"),k=vf_dim("k"),n=vf_dim("n"); vfs db{m,k},da{k,n}; INE; auto z=c*x; vfs dz{m,n}; G2(z,dz) vf_o("GC",c.gradient()); }
void vf_sq() { vfu m=vf_dim("m"); vfs da{m,m}; IN1; auto z=x*x; G2(z,da) }
void vf_norm_conj() { SQ; IN1; auto e=ceras::norm(conj(x)); G1(e,da) }
void vf_abs_of_sum() { SQ; IN2; auto e=ceras::norm(x+y); G1(e,da) vf_o("GC",c.gradient()); vf_o("GD",d.gradient()); }
void vf_again() { SQ; vfu p=vf_dim("p"); VD a=vf_v("A1",{p},6), b=vf_v("B1",{p},6); auto x=complex{a,b}; auto z=conj(x)+x; auto e=ceras::abs(x); e.forward(); e.backward(vf_t("G1",{p})); vf_new_step(); a.data()=vf_t("A",da,6); b.data()=vf_t("B",da,6); G1(e,da) }
