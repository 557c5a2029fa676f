#include "common.h"
#include "Mode.h"
#include "ParsMode.h"
using namespace mode;
namespace {
struct Built {
  parameters::Table table; ParsPumpedLossy p; Ptr ptr;
  Built(int pic, int dim, double delta, double kappa, double nTh, double etar, double etai, double kerr, double kerrAlter) : table(), p(table)
  {
    p.cutoff=dim; p.delta=delta; p.kappa=kappa; p.nTh=nTh; p.eta=dc(etar,etai); p.omegaKerr=kerr; p.omegaKerrAlter=kerrAlter;
    ptr=make(p,pic==0 ? QMP_IP : pic==1 ? QMP_UIP : QMP_SCH);
  }
};
}
// channel count of the element
extern "C" int h_mode_nchan(int pic, int dim, double delta, double kappa, double nTh, double etar, double etai)
{
  Built b(pic,dim,delta,kappa,nTh,etar,etai,0,0); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  return w.nAvr<structure::LA_Li>();
}
extern "C" int h_mode_jump(int pic, int dim, double delta, double kappa, double nTh, double etar, double etai, int m, double t, double* psi)
{
  Built b(pic,dim,delta,kappa,nTh,etar,etai,0,0); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  auto p(v1(psi,dim)); 
  try {w.actWithJ(t,p,m);} catch (const structure::ElementLiouvilleanException&) {return 1;}
  return 0;
}
extern "C" int h_mode_super(int pic, int dim, double delta, double kappa, double nTh, double etar, double etai, int m, double t, double* rho, double* drho)
{
  Built b(pic,dim,delta,kappa,nTh,etar,etai,0,0); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  auto r(v2(rho,dim,dim)), d(v2(drho,dim,dim)); w.actWithSuperoperator(t,r,d,m);
  return 0;
}
extern "C" int h_mode_rates(int pic, int dim, double delta, double kappa, double nTh, double etar, double etai, double t, double* psi, double* rates)
{
  Built b(pic,dim,delta,kappa,nTh,etar,etai,0,0); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  StateVector p(v1(psi,dim),quantumdata::byReference);
  auto r(w.average<structure::LA_Li>(t,p));
  for (int i=0; i<r.size(); ++i) rates[i]=r(i);
  return r.size();
}
// addContribution at (ta,t0a), then at (t,t0): the second call starts from the cached state an arbitrary history leaves
extern "C" int h_mode_ham(int pic, int dim, double delta, double kappa, double nTh, double etar, double etai, double kerr, double kerrAlter, double ta, double t0a, double t, double t0, double* psi, double* dpsia, double* dpsi)
{
  Built b(pic,dim,delta,kappa,nTh,etar,etai,kerr,kerrAlter); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  auto p(v1(psi,dim)), da(v1(dpsia,dim)), d(v1(dpsi,dim)); 
  w.addContribution(ta,p,da,t0a);
  w.addContribution(t,p,d,t0);
  return (w.getHa() ? 1 : 0)+(w.getEx() ? 2 : 0)+(w.applicableInMaster() ? 4 : 0);
}
// two propagations (any history leaves the cache at some time)
extern "C" void h_mode_U(int pic, int dim, double delta, double kappa, double nTh, double etar, double etai, double kerr, double ta, double t0a, double t, double t0, double* psia, double* psi)
{
  Built b(pic,dim,delta,kappa,nTh,etar,etai,kerr,0); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  auto pa(v1(psia,dim)), p(v1(psi,dim));
  w.actWithU(ta,pa,t0a);
  w.actWithU(t,p,t0);
}
