// Composite over arbitrary constituents: two frees with an interaction whose order of degrees of freedom is reversed; three frees with two interactions
#include "parts.h"
#include "Composite.tcc"
namespace {
auto mk2(int ka, int kb, int ki, const Coeff& a, const Coeff& b, const Coeff& i) // interaction's first degree of freedom is the composite's second
{
  auto fa(mkf(ka,a)), fb(mkf(kb,b)); return composite::make(Act<1,0>(mki(ki,fb,fa,i)));
}
auto mk3(int ka, int kb, int kc, int k01, int k20, const Coeff& a, const Coeff& b, const Coeff& c, const Coeff& i01, const Coeff& i20)
{
  auto fa(mkf(ka,a)), fb(mkf(kb,b)), fc(mkf(kc,c)); return composite::make(Act<0,1>(mki(k01,fa,fb,i01)),Act<2,0>(mki(k20,fc,fa,i20)));
}
}
extern "C" int h_comp_ham(int ka, int kb, int ki, int m, int n, double* ha, double* hb, double* hi, double t, double t0, double* psi, double* dpsi)
{
  auto s(mk2(ka,kb,ki,Coeff{m,ha},Coeff{n,hb},Coeff{0,hi}));
  auto p(v2(psi,m,n)), d(v2(dpsi,m,n)); QuantumSystemWrapper<2> w(s,true); w.addContribution(t,p,d,t0);
  return (w.getHa() ? 1 : 0)+2*int(s->getTotalDimension());
}
extern "C" int h_comp_U(int ka, int kb, int ki, int m, int n, double* ua, double* ub, double* ui, double t, double t0, double* psi)
{
  auto s(mk2(ka,kb,ki,Coeff{m,ua,ua},Coeff{n,ub,ub},Coeff{0,ui,ui}));
  auto p(v2(psi,m,n)); QuantumSystemWrapper<2> w(s,true); w.actWithU(t,p,t0);
  return (w.getEx() ? 1 : 0)+(w.applicableInMaster() ? 2 : 0);
}
extern "C" int h_comp_jump(int ka, int kb, int ki, int na, int nb, int ni, int m, int n, double* ja, double* jb, double* ji, int i, double t, double* psi)
{
  auto s(mk2(ka,kb,ki,Coeff{m,0,0,ja,na},Coeff{n,0,0,jb,nb},Coeff{0,0,0,ji,ni}));
  auto p(v2(psi,m,n)); QuantumSystemWrapper<2> w(s,true); w.actWithJ(t,p,i);
  return w.nAvr<LA_Li>();
}
extern "C" int h_comp_super(int ka, int kb, int ki, int na, int nb, int ni, int m, int n, double* ja, double* jb, double* ji, int i, double t, double* rho, double* drho)
{
  auto s(mk2(ka,kb,ki,Coeff{m,0,0,ja,na},Coeff{n,0,0,jb,nb},Coeff{0,0,0,ji,ni}));
  auto r(v4(rho,m,n,m,n)), d(v4(drho,m,n,m,n)); QuantumSystemWrapper<2> w(s,true); w.actWithSuperoperator(t,r,d,i);
  return w.nAvr<LA_Li>();
}
extern "C" int h_comp_rates(int ka, int kb, int ki, int na, int nb, int ni, int m, int n, double* wa, double* wb, double* wi, double t, double* psi, double* out)
{
  auto s(mk2(ka,kb,ki,Coeff{m,0,0,0,na,wa},Coeff{n,0,0,0,nb,wb},Coeff{0,0,0,0,ni,wi}));
  quantumdata::StateVector<2> p(v2(psi,m,n),quantumdata::byReference); QuantumSystemWrapper<2> w(s,true);
  auto r(w.average<LA_Li>(t,p));
  for (int i=0; i<r.size(); ++i) out[i]=r(i);
  return r.size();
}
extern "C" int h_comp_averages(int ka, int kb, int ki, int na, int nb, int ni, int m, int n, double* aa, double* ab, double* ai, double t, double* psi, double* out)
{
  auto s(mk2(ka,kb,ki,Coeff{m,0,0,0,0,0,na,aa},Coeff{n,0,0,0,0,0,nb,ab},Coeff{0,0,0,0,0,0,ni,ai}));
  quantumdata::StateVector<2> p(v2(psi,m,n),quantumdata::byReference); QuantumSystemWrapper<2> w(s,true);
  auto r(w.average<LA_Av>(t,p));
  for (int i=0; i<r.size(); ++i) out[i]=r(i);
  w.process(r);
  for (int i=0; i<r.size(); ++i) out[r.size()+i]=r(i);
  return r.size();
}
extern "C" int h_comp3_ham(int ka, int kb, int kc, int k01, int k20, int l, int m, int n, double* ha, double* hb, double* hc, double* h01, double* h20, double t, double t0, double* psi, double* dpsi)
{
  auto s(mk3(ka,kb,kc,k01,k20,Coeff{l,ha},Coeff{m,hb},Coeff{n,hc},Coeff{0,h01},Coeff{0,h20}));
  auto p(v3(psi,l,m,n)), d(v3(dpsi,l,m,n)); QuantumSystemWrapper<3> w(s,true); w.addContribution(t,p,d,t0);
  return (w.getHa() ? 1 : 0)+2*int(s->getTotalDimension());
}
extern "C" int h_comp3_U(int ka, int kb, int kc, int k01, int k20, int l, int m, int n, double* ua, double* ub, double* uc, double* u01, double* u20, double t, double t0, double* psi)
{
  auto s(mk3(ka,kb,kc,k01,k20,Coeff{l,ua,ua},Coeff{m,ub,ub},Coeff{n,uc,uc},Coeff{0,u01,u01},Coeff{0,u20,u20}));
  auto p(v3(psi,l,m,n)); QuantumSystemWrapper<3> w(s,true); w.actWithU(t,p,t0);
  return (w.getEx() ? 1 : 0);
}
extern "C" int h_comp3_jump(int ka, int kb, int kc, int k01, int k20, int na, int nb, int nc, int n01, int n20, int l, int m, int n, double* ja, double* jb, double* jc, double* j01, double* j20, int i, double t, double* psi)
{
  auto s(mk3(ka,kb,kc,k01,k20,Coeff{l,0,0,ja,na},Coeff{m,0,0,jb,nb},Coeff{n,0,0,jc,nc},Coeff{0,0,0,j01,n01},Coeff{0,0,0,j20,n20}));
  auto p(v3(psi,l,m,n)); QuantumSystemWrapper<3> w(s,true); w.actWithJ(t,p,i);
  return w.nAvr<LA_Li>();
}
