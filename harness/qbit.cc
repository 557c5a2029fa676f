#include "common.h"
#include "Qbit.h"
#include "ParsQbit.h"
namespace {
struct Built {
  parameters::Table table; qbit::ParsPumpedLossyPhaseNoise p; qbit::Ptr ptr;
  Built(int pic, double delta, double gamma, double gpar, double etar, double etai) : table(), p(table)
  {
    p.delta=delta; p.gamma=gamma; p.gamma_parallel=gpar; p.eta=dc(etar,etai);
    ptr=qbit::make(p,pic==0 ? QMP_IP : pic==1 ? QMP_UIP : QMP_SCH);
  }
};
}
extern "C" int h_qbit_jump(int pic, double delta, double gamma, double gpar, double etar, double etai, int m, double t, double* psi)
{
  Built b(pic,delta,gamma,gpar,etar,etai); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  auto p(v1(psi,2)); w.actWithJ(t,p,m);
  return w.nAvr<structure::LA_Li>();
}
extern "C" int h_qbit_super(int pic, double delta, double gamma, double etar, double etai, int m, double t, double* rho, double* drho)
{
  Built b(pic,delta,gamma,0,etar,etai); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  auto r(v2(rho,2,2)), d(v2(drho,2,2)); w.actWithSuperoperator(t,r,d,m);
  return w.nAvr<structure::LA_Li>();
}
extern "C" int h_qbit_rates(int pic, double delta, double gamma, double gpar, double etar, double etai, double t, double* psi, double* rates)
{
  Built b(pic,delta,gamma,gpar,etar,etai); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  quantumdata::StateVector<1> p(v1(psi,2),quantumdata::byReference);
  auto r(w.average<structure::LA_Li>(t,p));
  for (int i=0; i<r.size(); ++i) rates[i]=r(i);
  return r.size();
}
extern "C" int h_qbit_ham(int pic, double delta, double gamma, double gpar, double etar, double etai, double ta, double t0a, double t, double t0, double* psi, double* dpsia, double* dpsi)
{
  Built b(pic,delta,gamma,gpar,etar,etai); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  auto p(v1(psi,2)), da(v1(dpsia,2)), d(v1(dpsi,2)); 
  w.addContribution(ta,p,da,t0a);
  w.addContribution(t,p,d,t0);
  return 0;
}
extern "C" void h_qbit_U(int pic, double delta, double gamma, double gpar, double etar, double etai, double ta, double t0a, double t, double t0, double* psia, double* psi)
{
  Built b(pic,delta,gamma,gpar,etar,etai); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  auto pa(v1(psia,2)), p(v1(psi,2));
  w.actWithU(ta,pa,t0a);
  w.actWithU(t,p,t0);
}
