#include "common.h"
#include "Spin.h"
namespace {
struct Built {
  parameters::Table table; spin::Pars p; std::shared_ptr<const structure::QuantumSystem<1>> ptr;
  Built(int pic, int lossy, int twoS, int dim, double omega, double gamma, double theta, double phi) : table(), p(table)
  {
    p.twoS=twoS; p.dim=dim; p.omega=omega; p.gamma=gamma; p.theta=theta; p.phi=phi;
    if (pic==0) {if (lossy) ptr=std::make_shared<LossySpin>(p); else ptr=std::make_shared<Spin>(p);}
    else {if (lossy) ptr=std::make_shared<LossySpinSch>(p); else ptr=std::make_shared<SpinSch>(p);}
  }
};
}
extern "C" int h_spin_jump(int pic, int twoS, int dim, int n, double omega, double gamma, double t, double* psi)
{
  Built b(pic,1,twoS,dim,omega,gamma,0,0); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  auto p(v1(psi,n)); w.actWithJ(t,p,0);
  return b.ptr->getTotalDimension();
}
extern "C" int h_spin_rates(int pic, int twoS, int dim, int n, double omega, double gamma, double t, double* psi, double* rates)
{
  Built b(pic,1,twoS,dim,omega,gamma,0,0); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  quantumdata::StateVector<1> p(v1(psi,n),quantumdata::byReference);
  auto r(w.average<structure::LA_Li>(t,p));
  for (int i=0; i<r.size(); ++i) rates[i]=r(i);
  return r.size();
}
extern "C" int h_spin_ham(int lossy, int twoS, int dim, int n, double omega, double gamma, double theta, double phi, double t, double t0, double* psi, double* dpsi)
{
  Built b(1,lossy,twoS,dim,omega,gamma,theta,phi); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  auto p(v1(psi,n)), d(v1(dpsi,n)); 
  w.addContribution(t,p,d,t0);
  return b.ptr->getTotalDimension();
}
extern "C" int h_spin_U(int lossy, int twoS, int dim, int n, double omega, double gamma, double ta, double t0a, double t, double t0, double* psia, double* psi)
{
  Built b(0,lossy,twoS,dim,omega,gamma,0,0); structure::QuantumSystemWrapper<1> w(b.ptr,true);
  auto pa(v1(psia,n)), p(v1(psi,n));
  w.actWithU(ta,pa,t0a);
  w.actWithU(t,p,t0);
  return b.ptr->getTotalDimension();
}
