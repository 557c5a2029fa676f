// BinarySystem over arbitrary constituents
#include "parts.h"
#include "BinarySystem.h"
extern "C" int h_bin_ham(int ka, int kb, int ki, int m, int n, double* ha, double* hb, double* hi, double t, double t0, double* psi, double* dpsi)
{
  auto a(mkf(ka,Coeff{m,ha})), b(mkf(kb,Coeff{n,hb})); auto s(binary::make(mki(ki,a,b,Coeff{0,hi})));
  auto p(v2(psi,m,n)), d(v2(dpsi,m,n)); QuantumSystemWrapper<2> w(s,true); w.addContribution(t,p,d,t0);
  return (w.getHa() ? 1 : 0)+2*int(s->getTotalDimension());
}
extern "C" int h_bin_U(int ka, int kb, int ki, int m, int n, double* ua, double* ub, double* ui, double t, double t0, double* psi)
{
  auto a(mkf(ka,Coeff{m,ua,ua})), b(mkf(kb,Coeff{n,ub,ub})); auto s(binary::make(mki(ki,a,b,Coeff{0,ui,ui})));
  auto p(v2(psi,m,n)); QuantumSystemWrapper<2> w(s,true); w.actWithU(t,p,t0);
  return (w.getEx() ? 1 : 0)+(w.applicableInMaster() ? 2 : 0);
}
extern "C" int h_bin_jump(int ka, int kb, int ki, int na, int nb, int ni, int m, int n, double* ja, double* jb, double* ji, int i, double t, double* psi)
{
  auto a(mkf(ka,Coeff{m,0,0,ja,na})), b(mkf(kb,Coeff{n,0,0,jb,nb})); auto s(binary::make(mki(ki,a,b,Coeff{0,0,0,ji,ni})));
  auto p(v2(psi,m,n)); QuantumSystemWrapper<2> w(s,true); w.actWithJ(t,p,i);
  return w.nAvr<LA_Li>();
}
extern "C" int h_bin_super(int ka, int kb, int ki, int na, int nb, int ni, int m, int n, double* ja, double* jb, double* ji, int i, double t, double* rho, double* drho)
{
  auto a(mkf(ka,Coeff{m,0,0,ja,na})), b(mkf(kb,Coeff{n,0,0,jb,nb})); auto s(binary::make(mki(ki,a,b,Coeff{0,0,0,ji,ni})));
  auto r(v4(rho,m,n,m,n)), d(v4(drho,m,n,m,n)); QuantumSystemWrapper<2> w(s,true); w.actWithSuperoperator(t,r,d,i);
  return w.nAvr<LA_Li>();
}
extern "C" int h_bin_rates(int ka, int kb, int ki, int na, int nb, int ni, int m, int n, double* wa, double* wb, double* wi, double t, double* psi, double* out)
{
  auto a(mkf(ka,Coeff{m,0,0,0,na,wa})), b(mkf(kb,Coeff{n,0,0,0,nb,wb})); auto s(binary::make(mki(ki,a,b,Coeff{0,0,0,0,ni,wi})));
  quantumdata::StateVector<2> p(v2(psi,m,n),quantumdata::byReference); QuantumSystemWrapper<2> w(s,true);
  auto r(w.average<LA_Li>(t,p));
  for (int i=0; i<r.size(); ++i) out[i]=r(i);
  return r.size();
}
extern "C" int h_bin_averages(int ka, int kb, int ki, int na, int nb, int ni, int m, int n, double* aa, double* ab, double* ai, double t, double* psi, double* out)
{
  auto a(mkf(ka,Coeff{m,0,0,0,0,0,na,aa})), b(mkf(kb,Coeff{n,0,0,0,0,0,nb,ab})); auto s(binary::make(mki(ki,a,b,Coeff{0,0,0,0,0,0,ni,ai})));
  quantumdata::StateVector<2> p(v2(psi,m,n),quantumdata::byReference); QuantumSystemWrapper<2> w(s,true);
  auto r(w.average<LA_Av>(t,p));
  for (int i=0; i<r.size(); ++i) out[i]=r(i);
  w.process(r);
  for (int i=0; i<r.size(); ++i) out[r.size()+i]=r(i);
  return r.size();
}
