// Master-equation steps of an arbitrary one-part system, over a stand-in ODE engine
#include "common.h"
#include "Free.h"
#include "Master.h"
#include "contracts.h"
using namespace structure;
namespace {
struct Sys {int n; dc *h, *u, *j; int nli, nsup; double *rec;}; // h,u: [n]; j: [nli][n]; the first nsup channels have explicit superoperators
template<int> struct No {No(const Sys&) {}};
struct Ha : Hamiltonian<1> { Sys c; Ha(const Sys& c) : c(c) {}
  void addContribution_v(double t, const StateVectorLow<1>& psi, StateVectorLow<1>& d, double t0) const {for (int n=0; n<c.n; ++n) d(n)+=(t*c.h[n]+t0)*psi(n);} };
struct Ex : Exact<1> { Sys c; Ex(const Sys& c) : c(c) {}
  bool applicableInMaster_v() const {return true;}
  void actWithU_v(double t, StateVectorLow<1>& psi, double t0) const {for (int n=0; n<c.n; ++n) psi(n)*=(t-2*t0)*c.u[n];} };
struct Li : Liouvillean<1> { Sys c; Li(const Sys& c) : c(c) {}
  std::ostream& streamKey_v(std::ostream& os, size_t&) const {return os;}
  size_t nAvr_v() const {return c.nli;}
  const Averages average_v(double, const quantumdata::LazyDensityOperator<1>&) const {Averages r(c.nli); r=0; return r;}
  void actWithJ_v(double t, StateVectorLow<1>& psi, size_t i) const {for (int n=0; n<c.n; ++n) psi(n)*=t*c.j[i*c.n+n];}
  void actWithSuperoperator_v(double t, const DensityOperatorLow<1>& rho, DensityOperatorLow<1>& d, size_t i) const
  {
    if (int(i)>=c.nsup) throw SuperoperatorNotImplementedException(i);
    for (int n=0; n<c.n; ++n) for (int m=0; m<c.n; ++m) d(n,m)+=t*c.j[i*c.n+n]*rho(n,m);
  } };
template<bool B, typename T, int I> using If=std::conditional_t<B,T,No<I>>;
template<bool EX, bool HA, bool LI> struct F : Free, If<EX,Ex,0>, If<HA,Ha,1>, If<LI,Li,2> {F(const Sys& c) : Free(c.n), If<EX,Ex,0>(c), If<HA,Ha,1>(c), If<LI,Li,2>(c) {}};
FreePtr mk(int kind, const Sys& c)
{
  switch (kind) {
    case 1: return std::make_shared<F<1,0,0>>(c);
    case 2: return std::make_shared<F<0,1,0>>(c);
    case 3: return std::make_shared<F<1,1,0>>(c);
    case 4: return std::make_shared<F<0,0,1>>(c);
    case 5: return std::make_shared<F<1,0,1>>(c);
    case 6: return std::make_shared<F<0,1,1>>(c);
    case 7: return std::make_shared<F<1,1,1>>(c);
  }
  return std::make_shared<F<0,0,0>>(c);
}
struct State {dc *g, *s, *d, *r; double tDer, t1, t2; int k=0;};
// a stand-in for the ODE engine: first step goes to time t1, the second evaluates the derivative for the Hermitian state g+g^dagger at time tDer, and ends in state s at time t2
struct AnyODE
{
  State* st; double dtDid=0;
  template<typename S> void step(double deltaT, std::ostream&, S sys, double& t, const DensityOperatorLow<1>& a0)
  {
    DensityOperatorLow<1> a(a0); const int n=a.extent(0); State& S_=*st;
    const int k=S_.k++;
    if (k==2) {for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) S_.r[i*n+j]=a(i,j); throw 0;} // look at the state left by the second step
    if (!k) {t=S_.t1; for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) a(i,j)=1.; return;}
    for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) a(i,j)=S_.g[i*n+j]+std::conj(S_.g[j*n+i]);
    DensityOperatorLow<1> d(S_.d,blitz::shape(n,n),blitz::neverDeleteData); const DensityOperatorLow<1>& ca=a;
    sys(ca,d,S_.tDer);
    for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) a(i,j)=S_.s[i*n+j];
    t=S_.t2; dtDid=deltaT;
  }
  double getDtDid() const {return dtDid;}
};
}
extern "C" void h_master(int kind, int n, int nli, int nsup, double* h, double* u, double* j, double* g, double* s, double* d, double* rho0, double* rho, double tDer, double t1, double t2, double* out)
{
  auto C=[](double* p) {return reinterpret_cast<dc*>(p);};
  Sys c{n,C(h),C(u),C(j),nli,nsup}; State st{C(g),C(s),C(d),C(rho),tDer,t1,t2};
  quantumtrajectory::Master<1,AnyODE> m(mk(kind,c),quantumdata::DensityOperator<1>(v2(rho0,n,n),quantumdata::byReference),AnyODE{&st},0);
  m.step(1.,std::clog); m.step(2.,std::clog); try {m.step(0.,std::clog);} catch (int) {}
  out[0]=m.getTime(); out[1]=m.getDtDid();
}
