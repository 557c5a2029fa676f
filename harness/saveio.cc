// Saving and restoring trajectories: the real trajectories over the real ODE engine with an arbitrary stepper
#include "common.h"
#include "Free.h"
#include "Master.h"
#include "MCWF_Trajectory.h"
#include "Simulated_.h"
#include <sstream>
#include <iostream>
using namespace structure; using namespace cppqedutils;
#ifdef NDEBUG
VerifTape verif_tape;
#endif
namespace {
struct Rec {dc *h, *P, *E, *J, *D, *in; double *dn, *rec, *er, td, R; int n, ex, k=0, fail=1;}; // the first attempt of the stepper fails, the k-th attempt of the stepper leads to the state P[k], proposing dn[k] for the next; rec[k]: time and step tried; D[k]: the derivative it sees at td
template<typename A> void copy(dc* to, const A& a)
{
  const int n=a.extent(0);
  if constexpr (A::rank_==1) for (int i=0; i<n; ++i) to[i]=a(i);
  else for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) to[i*n+j]=a(i,j);
}
template<typename A> void copy(A& a, const dc* from)
{
  const int n=a.extent(0);
  if constexpr (A::rank_==1) for (int i=0; i<n; ++i) a(i)=from[i];
  else for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) a(i,j)=from[i*n+j];
}
struct AnyStepper
{
  typedef double time_type; Rec* s; 
  template<typename S, typename A> auto try_step(S sys, A&& a0, double& t, double& dt)
  {
    auto a(a0); const int k=s->k++, m=a.size(); const auto& ca=a; auto d(a.copy());
    copy(s->in+k*m,a); sys(ca,d,s->td); copy(s->D+k*m,d);
    s->rec[2*k]=t; s->rec[2*k+1]=dt;
    if (s->fail) {s->fail=0; dt/=2; return boost::numeric::odeint::fail;}
    copy(a,s->P+k*m);
    t+=dt; dt=s->dn[k]; return boost::numeric::odeint::success;
  }
};
template<int> struct No {No(Rec*) {}};
struct Ha : Hamiltonian<1> { Rec* c; Ha(Rec* c) : c(c) {}
  void addContribution_v(double t, const StateVectorLow<1>& psi, StateVectorLow<1>& d, double t0) const {const int N=c->n; const dc* h=c->h; if (!c->ex) t0=0; for (int n=0; n<N; ++n) d(n)+=(t*h[n]+t0)*psi(n);} }; // the reference time matters where there is an exact part
struct Ex : Exact<1> { Rec* c; Ex(Rec* c) : c(c) {}
  bool applicableInMaster_v() const {return true;}
  void actWithU_v(double t, StateVectorLow<1>& psi, double t0) const {c->er[2*c->k]=t; c->er[2*c->k+1]=t0;} };
struct Li : Liouvillean<1> { Rec* c; Li(Rec* c) : c(c) {}
  std::ostream& streamKey_v(std::ostream& os, size_t&) const {return os;}
  size_t nAvr_v() const {return 2;}
  const Averages average_v(double, const quantumdata::LazyDensityOperator<1>&) const {Averages r(2); r(0)=c->R; r(1)=c->R; return r;}
  void actWithJ_v(double, StateVectorLow<1>& psi, size_t) const {const int N=c->n; const dc* J=c->J; for (int n=0; n<N; ++n) psi(n)=J[n];}
  void actWithSuperoperator_v(double, const DensityOperatorLow<1>&, DensityOperatorLow<1>&, size_t) const {}
};
template<typename T, bool B, int I> using If=std::conditional_t<B,T,No<I>>;
template<bool EX, bool LI> struct F : Free, If<Ex,EX,0>, Ha, If<Li,LI,1> {F(Rec* c) : Free(c->n), If<Ex,EX,0>(c), Ha(c), If<Li,LI,1>(c) {}};
}
template<> struct cppqedutils::ode_engine::MakeControlledErrorStepper<AnyStepper> {static auto _(const AnyStepper& s) {return ControlledErrorStepperWithParameters<AnyStepper>{s,0,0};}};
struct Rand // an engine of two words of state
{
  typedef unsigned long result_type; result_type a, b; Rand(unsigned long s=0, unsigned long p=0) : a(s), b(p) {}
  static constexpr result_type min() {return 0;} static constexpr result_type max() {return ~0ul;} result_type operator()() {++b; return a;}
  template<typename A> void serialize(A& ar, unsigned) {ar & a & b;}
};
static double drawn;
template<> double std::generate_canonical<double,std::numeric_limits<double>::digits,Rand>(Rand& r) {r(); return drawn;}
namespace {
typedef ode_engine::Base<AnyStepper> ODE;
typedef quantumtrajectory::Master<1,ODE> M1; typedef quantumtrajectory::MCWF_Trajectory<1,ODE,Rand> W1;
using cppqedutils::trajectory::ReadState; using cppqedutils::trajectory::WriteState;
struct Tapes {long* i[2]; double *d[2], *a[2]; double* out;};
#ifdef NDEBUG // verified text: directly over the tapes
template<typename T> std::string save(T& t, Tapes& p, int k)
{
  verif_tape.i=p.i[k]; verif_tape.d=p.d[k]; verif_tape.a=p.a[k];
  {oarchive ar(std::clog); WriteState<T>::_(t,ar);}
  p.out[4+3*k]=verif_tape.ni; p.out[5+3*k]=verif_tape.nd; p.out[6+3*k]=verif_tape.nk; return std::string();
}
template<typename T> void load(T& t, const std::string& s) {iarchive ar(std::cin); ReadState<T>::_(t,ar);}
#else // as state files are written and read: several states one after the other
template<typename T> std::string save(T& t, Tapes& p, int k)
{
  auto os=std::make_shared<std::ostringstream>(std::ios_base::binary); 
  for (int i=0; i<2; ++i) cppqedutils::trajectory::writeViaSStream(t,os);
  p.out[4+3*k]=p.out[5+3*k]=p.out[6+3*k]=0;
  return os->str();
}
template<typename T> void load(T& t, const std::string& s)
{
  auto is=std::make_shared<std::istringstream>(s,std::ios_base::binary); int n=0;
  while (is->peek()!=EOF) {cppqedutils::trajectory::readViaSStream(t,is); ++n;}
  if (n!=2) throw std::logic_error("number of states read");
}
#endif
// a has made a step; it is saved, b restored from it and saved again; both make a step
template<typename T> void both(T& a, T& b, double Dt, Tapes& p, bool onlyb=false)
{
#ifdef NDEBUG
  verif_tape.bad=0;
#endif
  const std::string s(save(a,p,0)); load(b,s); const std::string s2(save(b,p,1));
  double* out=p.out; out[0]=b.getTime(); out[1]=b.getDtDid(); out[2]=a.getTime(); out[3]=a.getDtDid();
#ifdef NDEBUG
  out[10]=!verif_tape.bad;
#else
  std::ostringstream x,y; a.logOnEnd(x); b.logOnEnd(y); out[10]=s==s2 && x.str()==y.str();
#endif
  if (!onlyb) a.step(Dt,std::clog);
  b.step(Dt,std::clog);
  out[11]=b.getTime()-(onlyb ? 0. : a.getTime()); out[12]=b.getDtDid();
}
auto C(double* p) {return reinterpret_cast<dc*>(p);}
#ifdef NDEBUG
const int lev=0;
#else
const int lev=1;
#endif
}
extern "C" void h_master_io(int ex, int n, double* h, double* P, double* D, double* in, double* dn, double* rec, double* er, double td, double* ra, double* rb, double dta, double dtb, double* Dt, long* i1, double* d1, double* a1, long* i2, double* d2, double* a2, double* out)
{
  Rec r{C(h),C(P),0,0,C(D),C(in),dn,rec,er,td,0,n,ex}; r.fail=0; Tapes p{{i1,i2},{d1,d2},{a1,a2},out};
  QuantumSystemPtr<1> s; if (ex) s=std::make_shared<F<1,0>>(&r); else s=std::make_shared<F<0,0>>(&r);
  using quantumdata::DensityOperator; using quantumdata::byReference;
  M1 a(s,DensityOperator<1>(v2(ra,n,n).copy(),byReference),ODE(dta,lev,AnyStepper{&r}),0), b(s,DensityOperator<1>(v2(rb,n,n).copy(),byReference),ODE(dtb,lev,AnyStepper{&r}),0);
  a.step(Dt[0],std::clog);
  both(a,b,Dt[1],p,true);
}
extern "C" void h_mcwf_io(int kind, int n, double* h, double* P, double* D, double* in, double* dn, double* rec, double* er, double td, double* J, double R, double* rnd, long seed, double dp, double* ra, double* rb, double dta, double dtb, double* Dt, long* i1, double* d1, double* a1, long* i2, double* d2, double* a2, double* out)
{
  Rec r{C(h),C(P),0,C(J),C(D),C(in),dn,rec,er,td,R,n,kind&1}; Tapes p{{i1,i2},{d1,d2},{a1,a2},out};
  QuantumSystemPtr<1> s; if (kind==1) s=std::make_shared<F<1,0>>(&r); else if (kind==2) s=std::make_shared<F<0,1>>(&r); else if (kind==3) s=std::make_shared<F<1,1>>(&r); else s=std::make_shared<F<0,0>>(&r);
  using quantumdata::StateVector; using quantumdata::byReference; typedef randomutils::EngineWithParameters<Rand> E;
  W1 a(s,StateVector<1>(v1(ra,n).copy(),byReference),ODE(dta,lev,AnyStepper{&r}),E(seed,3),dp,2.,lev), b(s,StateVector<1>(v1(rb,n).copy(),byReference),ODE(dtb,lev,AnyStepper{&r}),E(7,5),dp,2.,lev);
  drawn=rnd[0]; a.step(Dt[0],std::clog);
  drawn=rnd[1]; out[13]=0; 
  both(a,b,Dt[1],p);
  const auto& l=b.getLogger().getTrajectory(); out[14]=l.size(); if (l.size()) {out[15]=l.front().first; out[16]=l.front().second;}
}
// a saved state of some type, identity and rank, offered to a trajectory of another
namespace {
int given[3]; 
struct Any
{
  int read=0;
  iarchive& readFromArrayOnlyArchive(iarchive& a) {read=1; return a;}
  iarchive& stateIO(iarchive& a) {read=2; return a;}
  oarchive& stateIO(oarchive& a) {return a;}
};
const char* name(int i) {return i==0 ? "CArray" : i==1 ? "Master" : i==2 ? "ArrayOnly" : i==3 ? "MasteR" : "Masters";}
}
template<> struct cppqedutils::trajectory::MakeSerializationMetadata<Any> {static auto _() {return SerializationMetadata(name(given[0]),name(given[1]),given[2]);}};
extern "C" int h_meta(int t1, int i1, int r1, int t2, int i2, int r2, long* ti, double* out)
{
  Any a; Tapes p{{ti,ti},{0,0},{0,0},out};
  given[0]=t1; given[1]=i1; given[2]=r1; const std::string s(save(a,p,0));
  given[0]=t2; given[1]=i2; given[2]=r2;
  try {load(a,s);} catch (const std::runtime_error&) {return a.read ? -1 : 0;}
  return a.read;
}
// kinds of state as declared by the trajectories
extern "C" int h_meta_real(int i)
{
  using namespace cppqedutils::trajectory;
  const auto m=MakeSerializationMetadata<M1>::_(), m2=MakeSerializationMetadata<quantumtrajectory::Master<2,ODE>>::_(), w=MakeSerializationMetadata<W1>::_(), w2=MakeSerializationMetadata<quantumtrajectory::MCWF_Trajectory<2,ODE,Rand>>::_(); 
  switch (i) {case 0: return m!=m2; case 1: return m!=w; case 2: return w!=w2; case 3: return m2!=w2; case 4: return m.rank; case 5: return w.rank; case 6: return m2.rank; case 7: return w2.rank; case 8: return m.typeID=="CArray" && w.typeID=="CArray";}
  return 0;
}
// a simulated trajectory of two complex variables
namespace {struct Der {Rec* r; void operator()(const CArray<1>& y, CArray<1>& d, double t) const {for (int i=0; i<2; ++i) d(i)=t*r->h[i]*y(i);} };}
extern "C" void h_sim_io(double* h, double* P, double* D, double* in, double* dn, double* rec, double td, double* ra, double* rb, double dta, double dtb, double* Dt, long* i1, double* d1, double* a1, long* i2, double* d2, double* a2, double* out)
{
  Rec r{C(h),C(P),0,0,C(D),C(in),dn,rec,0,td,0,2,0}; Tapes p{{i1,i2},{d1,d2},{a1,a2},out};
  typedef Simulated<CArray<1>,Der,ODE> S;
  S a(v1(ra,2).copy(),Der{&r},{"a","b"},ODE(dta,lev,AnyStepper{&r})), b(v1(rb,2).copy(),Der{&r},{"a","b"},ODE(dtb,lev,AnyStepper{&r}));
  a.step(Dt[0],std::clog);
  both(a,b,Dt[1],p);
}
// the generator of Random.h whose state is an array of words
extern "C" void h_rand_io(long* s, long* i1, long* o)
{
  XoshiroCpp::Xoshiro256PlusPlus a, b; a.deserialize({(unsigned long)s[0],(unsigned long)s[1],(unsigned long)s[2],(unsigned long)s[3]});
#ifdef NDEBUG
  verif_tape.i=i1; std::ostream& os=std::clog;
#else
  std::ostringstream os(std::ios_base::binary);
#endif
  {oarchive ar(os); ar & a;}
#ifdef NDEBUG
  std::istream& is=std::cin;
#else
  std::istringstream is(os.str(),std::ios_base::binary);
#endif
  {iarchive ar(is); ar & b;}
  const auto x=b.serialize(); for (int k=0; k<4; ++k) o[k]=x[k];
}
