#include "common.h"
#include "Tridiagonal.tcc"
using namespace quantumoperator;
typedef Tridiagonal<1> T1; typedef Tridiagonal<2> T2;
namespace {
// diagonals present as told by flags (1: main, 2: minus, 4: plus); off-diagonals of length m at distance k, dimension m+k
T1 make(int flags, int m, int k, double* zero, double* minus, double* plus, bool toFreqs)
{
  T1::Diagonal e; T1::Diagonal z(flags&1 ? v1(zero,m+k) : e), mi(flags&2 ? v1(minus,m) : e), pl(flags&4 ? v1(plus,m) : e);
  return T1(z,k,mi,pl,toFreqs);
}
}
extern "C" void h_tri_apply(int flags, int m, int k, double* zero, double* minus, double* plus, double* psi, double* dpsi)
{
  auto p(v1(psi,m+k)), d(v1(dpsi,m+k)); make(flags,m,k,zero,minus,plus,false).apply(p,d);
}
extern "C" int h_tri_dim(int flags, int m, int k, double* zero, double* minus, double* plus, int toFreqs)
{
  return make(flags,m,k,zero,minus,plus,toFreqs).getTotalDimension();
}
// frequencies from the constructor; propagated to ta, then t
extern "C" double h_tri_freqs(int flags, int m, int k, double* zero, double* minus, double* plus, double ta, double t, double* psi, double* dpsi)
{
  auto p(v1(psi,m+k)), d(v1(dpsi,m+k)); T1 x(make(flags,m,k,zero,minus,plus,true)); x.propagate(ta).propagate(t).apply(p,d);
  return x.getTime();
}
// frequencies from a separate main diagonal
extern "C" double h_tri_furnish(int flags, int m, int k, double* zero, double* minus, double* plus, double* mainDiag, double ta, double t, double* psi, double* dpsi)
{
  auto p(v1(psi,m+k)), d(v1(dpsi,m+k)), mD(v1(mainDiag,m+k)); T1 x(furnishWithFreqs(make(flags,m,k,zero,minus,plus,false),mD)); x.propagate(ta).propagate(t).apply(p,d);
  return x.getTime();
}
extern "C" void h_tri_dagger(int flags, int m, int k, double* zero, double* minus, double* plus, double* psi, double* dpsi)
{
  auto p(v1(psi,m+k)), d(v1(dpsi,m+k)); make(flags,m,k,zero,minus,plus,false).dagger().apply(p,d);
}
// 0: c*T, 1: T*c, 2: T/c, 3: T*re(c), 4: T/re(c), 5: -T
extern "C" void h_tri_scale(int op, int flags, int m, int k, double* zero, double* minus, double* plus, double cr, double ci, double* psi, double* dpsi)
{
  auto p(v1(psi,m+k)), d(v1(dpsi,m+k)); const T1 x(make(flags,m,k,zero,minus,plus,false)); const dc c(cr,ci);
  if (op==0) T1(c*x).apply(p,d);
  else if (op==1) T1(x*c).apply(p,d);
  else if (op==2) T1(x/c).apply(p,d);
  else if (op==3) T1(x*cr).apply(p,d);
  else if (op==4) T1(x/cr).apply(p,d);
  else (-x).apply(p,d);
}
// 0: a+b, 1: a-b
extern "C" void h_tri_sum(int op, int flagsa, int flagsb, int m, int k, double* za, double* ma, double* pa, double* zb, double* mb, double* pb, double* psi, double* dpsi)
{
  auto p(v1(psi,m+k)), d(v1(dpsi,m+k)); const T1 a(make(flagsa,m,k,za,ma,pa,false)), b(make(flagsb,m,k,zb,mb,pb,false));
  if (op==0) T1(a+b).apply(p,d); else T1(a-b).apply(p,d);
}
// an operator with frequencies propagated to ta; then one derived from it (0: copy, 1: -T, 2: c*T, 3: T+T, 4: T^dagger) propagated on to t; the original stays
extern "C" double h_tri_derive(int op, int m, int k, double* zero, double* minus, double* plus, double ta, double t, double cr, double ci, double* psi, double* dpsi, double* dpsi0)
{
  auto p(v1(psi,m+k)), d(v1(dpsi,m+k)), d0(v1(dpsi0,m+k)); T1 x(make(7,m,k,zero,minus,plus,true)); x.propagate(ta);
  T1 y(op==0 ? T1(x) : op==1 ? T1(-x) : op==2 ? T1(dc(cr,ci)*x) : op==3 ? T1(x+x) : T1(x.dagger()));
  y.propagate(t).apply(p,d); x.apply(p,d0); return y.getTime();
}
// a+=b, a*=c: b stays
extern "C" void h_tri_inplace(int fa, int fb, int m, int k, double* za, double* ma, double* pa, double* zb, double* mb, double* pb, double cr, double ci, double* psi, double* dpsi, double* dpsib)
{
  auto p(v1(psi,m+k)), d(v1(dpsi,m+k)), db(v1(dpsib,m+k)); T1 a(make(fa,m,k,za,ma,pa,false)), b(make(fb,m,k,zb,mb,pb,false));
  a+=b; a*=dc(cr,ci); a.apply(p,d); b.apply(p,db);
}
// 0: T+T^dagger, 1: T-T^dagger, 2: (T+T^dagger)/i
extern "C" void h_tri_hc(int op, int flags, int m, int k, double* zero, double* minus, double* plus, double* psi, double* dpsi)
{
  auto p(v1(psi,m+k)), d(v1(dpsi,m+k)); const T1 x(make(flags,m,k,zero,minus,plus,false));
  if (op==0) tridiagPlusHC(x).apply(p,d); else if (op==1) tridiagMinusHC(x).apply(p,d); else tridiagPlusHC_overI(x).apply(p,d);
}
extern "C" void h_tri_identity(int n, double* psi, double* dpsi)
{
  auto p(v1(psi,n)), d(v1(dpsi,n)); identity(n).apply(p,d);
}
// direct product, applied to a state of two subsystems
extern "C" void h_tri_direct(int fa, int ma, int ka, double* za, double* mia, double* pla, int fb, int mb, int kb, double* zb, double* mib, double* plb, double* psi, double* dpsi)
{
  auto p(v2(psi,ma+ka,mb+kb)), d(v2(dpsi,ma+ka,mb+kb));
  T2(make(fa,ma,ka,za,mia,pla,false)*make(fb,mb,kb,zb,mib,plb,false)).apply(p,d);
}
// the same, Hermitian conjugated
extern "C" void h_tri_directdagger(int fa, int ma, int ka, double* za, double* mia, double* pla, int fb, int mb, int kb, double* zb, double* mib, double* plb, double* psi, double* dpsi)
{
  auto p(v2(psi,ma+ka,mb+kb)), d(v2(dpsi,ma+ka,mb+kb));
  T2(make(fa,ma,ka,za,mia,pla,false)*make(fb,mb,kb,zb,mib,plb,false)).dagger().apply(p,d);
}
// direct product of operators with frequencies (freqa/freqb: whether each has them), propagated
extern "C" void h_tri_directfreqs(int freqa, int freqb, int ma, int ka, double* za, double* mia, double* pla, int mb, int kb, double* zb, double* mib, double* plb, double ta, double t, double* psi, double* dpsi)
{
  auto p(v2(psi,ma+ka,mb+kb)), d(v2(dpsi,ma+ka,mb+kb));
  T2(make(7,ma,ka,za,mia,pla,freqa).propagate(ta)*make(7,mb,kb,zb,mib,plb,freqb).propagate(ta)).propagate(t).apply(p,d);
}
