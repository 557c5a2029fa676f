// Monte Carlo wave-function steps of an arbitrary one-part system, over a stand-in ODE engine and a random number given by the caller
#include "common.h"
#include "Free.h"
#include "MCWF_Trajectory.h"
using namespace structure;
namespace {
struct Sys {int n; dc *h; int nli, special; double *R, *rrec; dc *E, *Ein; double *erec; dc *Jr, *Jin; double *jrec; int *c;}; // special: bit mask of channels whose rate is given as negative; c: numbers of calls (rates, U, J)
template<int> struct No {No(const Sys&) {}};
struct Ha : Hamiltonian<1> { Sys c; Ha(const Sys& c) : c(c) {}
  void addContribution_v(double t, const StateVectorLow<1>& psi, StateVectorLow<1>& d, double t0) const {for (int n=0; n<c.n; ++n) d(n)+=(t*c.h[n]+t0)*psi(n);} };
// the k-th exact propagation is given the state Ein[k] and the times erec[k], and leads to the state E[k]; likewise jumps
struct Ex : Exact<1> { Sys c; Ex(const Sys& c) : c(c) {}
  bool applicableInMaster_v() const {return true;}
  void actWithU_v(double t, StateVectorLow<1>& psi, double t0) const
  {
    const int k=c.c[1]++; c.erec[2*k]=t; c.erec[2*k+1]=t0;
    for (int n=0; n<c.n; ++n) c.Ein[k*c.n+n]=psi(n);
    for (int n=0; n<c.n; ++n) psi(n)=c.E[k*c.n+n];
  } };
struct Li : Liouvillean<1> { Sys c; Li(const Sys& c) : c(c) {}
  std::ostream& streamKey_v(std::ostream& os, size_t&) const {return os;}
  size_t nAvr_v() const {return c.nli;}
  const Averages average_v(double t, const quantumdata::LazyDensityOperator<1>& m) const
  {
    Averages r(c.nli); const int k=c.c[0]++;
    for (int n=0; n<c.n; ++n) c.rrec[k*(c.n+1)+n]=m(n); // what the rates were asked for
    c.rrec[k*(c.n+1)+c.n]=t;
    for (int i=0; i<c.nli; ++i) r(i)=c.special>>i&1 ? -1 : c.R[k*c.nli+i];
    return r;
  }
  void actWithJ_v(double t, StateVectorLow<1>& psi, size_t i) const
  {
    const int k=c.c[2]++; c.jrec[2*k]=t; c.jrec[2*k+1]=i;
    for (int n=0; n<c.n; ++n) c.Jin[k*c.n+n]=psi(n);
    for (int n=0; n<c.n; ++n) psi(n)=c.Jr[k*c.n+n];
  }
  void actWithSuperoperator_v(double, const DensityOperatorLow<1>&, DensityOperatorLow<1>&, size_t) const {}
};
template<bool B, typename T, int I> using If=std::conditional_t<B,T,No<I>>;
template<bool EX, bool HA, bool LI> struct F : Free, If<EX,Ex,0>, If<HA,Ha,1>, If<LI,Li,2> {F(const Sys& c) : Free(c.n), If<EX,Ex,0>(c), If<HA,Ha,1>(c), If<LI,Li,2>(c) {}};
FreePtr mk(int kind, const Sys& c)
{
  switch (kind) {
    case 1: return std::make_shared<F<1,0,0>>(c);
    case 2: return std::make_shared<F<0,1,0>>(c);
    case 3: return std::make_shared<F<1,1,0>>(c);
    case 4: return std::make_shared<F<0,0,1>>(c);
    case 5: return std::make_shared<F<1,0,1>>(c);
    case 6: return std::make_shared<F<0,1,1>>(c);
    case 7: return std::make_shared<F<1,1,1>>(c);
  }
  return std::make_shared<F<0,0,0>>(c);
}
struct State {dc *P, *D, *in; double *dd, *dn, *rec, td; int n, k=0;};
// stand-in for the ODE engine: the k-th attempt finds the state in[k], sees the derivative D[k] at time td, leads to the state P[k] and advances time by dd[k], proposing dn[k]
struct AnyODE
{
  State* s; double dtDid, dtTry;
  template<typename S> void step(double deltaT, std::ostream&, S sys, double& t, const StateVectorLow<1>& a0)
  {
    StateVectorLow<1> a(a0); const int n=s->n, k=s->k++;
    for (int i=0; i<n; ++i) s->in[k*n+i]=a(i);
    double* r=s->rec+4*k; r[0]=t; r[1]=deltaT; r[2]=dtTry; r[3]=dtDid;
    StateVectorLow<1> d(s->D+k*n,blitz::shape(n),blitz::neverDeleteData); const StateVectorLow<1>& ca=a; sys(ca,d,s->td);
    for (int i=0; i<n; ++i) a(i)=s->P[k*n+i];
    dtDid=s->dd[k]; t+=dtDid; dtTry=s->dn[k];
  }
  double getDtDid() const {return dtDid;}
  void setDtDid(double d) {dtDid=d;}
  double getDtTry() const {return dtTry;}
  void setDtTry(double d) {dtTry=d;}
};
struct Given {typedef unsigned long result_type; const double* u=0; Given(unsigned long, unsigned long) {} static constexpr unsigned long min() {return 0;} static constexpr unsigned long max() {return ~0ul;} unsigned long operator()() {return 0;} };
}
// what the standard library's uniform distribution draws: the given numbers from [0,1)
template<> double std::generate_canonical<double,std::numeric_limits<double>::digits,Given>(Given& g) {return *g.u++;}
// the frame of Logger::processNorm: nothing but the logger's own record of the largest deviation
extern "C" void contract_processnorm(quantumtrajectory::mcwf::Logger*, double) {}
extern "C" void h_mcwf(int kind, int n, int nli, int special, int nsteps, double* h, double* psi0, double* P, double* D, double* in, double* R, double* rrec, double* E, double* Ein, double* erec, double* Jr, double* Jin, double* jrec, double* dd, double* dn, double* rec, double td, double dt0, double* Dt, double* rnd, double dpLimit, double tol, double* psi, double* out)
{
  auto C=[](double* p) {return reinterpret_cast<dc*>(p);};
  int calls[3]={0,0,0}; Sys c{n,C(h),nli,special,R,rrec,C(E),C(Ein),erec,C(Jr),C(Jin),jrec,calls}; State st{C(P),C(D),C(in),dd,dn,rec,td,n};
  randomutils::EngineWithParameters<Given> re(0,0); re.engine.u=rnd;
  quantumtrajectory::MCWF_Trajectory<1,AnyODE,Given> m(mk(kind,c),quantumdata::StateVector<1>(v1(psi0,n),quantumdata::byReference),AnyODE{&st,0,dt0},re,dpLimit,tol,0);
  m.step(Dt[0],std::clog); if (nsteps>1) m.step(Dt[1],std::clog);
  out[0]=m.getTime(); out[1]=m.getDtDid(); out[2]=m.getDtTry(); out[3]=calls[0]; out[4]=st.k; out[5]=calls[1]; out[6]=calls[2];
  const auto& tr=m.getLogger().getTrajectory(); out[7]=tr.size(); if (tr.size()) {out[8]=tr.back().first; out[9]=tr.back().second;}
  auto v(v1(psi,n)); const auto& f=m.getStateVector().getArray(); for (int i=0; i<n; ++i) v(i)=f(i);
}
