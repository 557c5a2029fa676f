// ODE engines over an arbitrary controlled stepper, and over recording stand-ins of GSL's stepper functions
#include "common.h"
#include "ODE_GSL.h"
#include "BlitzArrayExtensions.h"
#include <array>
using namespace cppqedutils; using namespace cppqedutils::ode_engine;
namespace {
struct {double rec[4]; int status[8]; int k; double next;} G;
int dummy[4];
// a controlled stepper allowed to fail any number of times, proposing any step after each failure and after success; calls the derivative nd times per attempt
struct AnyStepper
{
  typedef double time_type;
  int nfail, nd; const double* dts; double next; int k=0;
  template<typename S> auto attempt(S sys, const double& in, double& out, double& t, double& dt)
  {
    double d; for (int i=0; i<nd; ++i) sys(in,d,t);
    if (k<nfail) {dt=dts[k++]; return boost::numeric::odeint::fail;}
    out=in+dt*d; t+=dt; dt=next; return boost::numeric::odeint::success;
  }
  template<typename S> auto try_step(S sys, double& x, double& t, double& dt) {return attempt(sys,x,x,t,dt);}
  template<typename S> auto try_step(S sys, const double& in, double& t, double&& out, double& dt) {return attempt(sys,in,out,t,dt);}
};
struct Counts // an "archive" that takes over the values it is given
{
  long* c; double* d; int i=0, j=0;
  Counts& operator&(size_t& n) {c[i++]=n; return *this;}
  Counts& operator&(double& x) {d[j++]=x; return *this;}
  Counts& operator&(DefaultLogger& l) {boost::serialization::access::serialize(*this,l,0); return *this;}
};
}
template<> struct cppqedutils::ode_engine::MakeControlledErrorStepper<AnyStepper>
{
  static auto _(const AnyStepper& s) {return ControlledErrorStepperWithParameters<AnyStepper>{s,0,0};}
};
extern "C" void h_step(int inout, double dtTry, double dtDid, double deltaT, double t, double x, int nd, int nfail, double* dts, double next, double* out, long* counts)
{
  Base<AnyStepper> e(dtTry,0,AnyStepper{nfail,nd,dts,next}); e.setDtDid(dtDid);
  double y=x;
  auto f=[](const double& x, double& d, double t) {d=x*t;};
  if (inout) {const double& in=x; e.step(deltaT,std::clog,f,t,in,std::move(y));} else e.step(deltaT,std::clog,f,t,y);
  Counts c{counts,out+2}; e.stateIO(c);
  out[0]=t; out[1]=y; out[4]=e.getDtDid(); out[5]=e.getDtTry();
}
// stand-ins of the GSL functions: record what they are given, do what the entry point was told
const gsl_odeiv2_step_type* gsl_odeiv2_step_rkck=0;
extern "C" gsl_odeiv2_control* gsl_odeiv2_control_standard_new(double a, double b, double c, double d) {G.rec[0]=a; G.rec[1]=b; G.rec[2]=c; G.rec[3]=d; return reinterpret_cast<gsl_odeiv2_control*>(dummy);}
extern "C" void gsl_odeiv2_control_free(gsl_odeiv2_control*) {}
extern "C" gsl_odeiv2_step* gsl_odeiv2_step_alloc(const gsl_odeiv2_step_type*, size_t) {return reinterpret_cast<gsl_odeiv2_step*>(dummy+2);}
extern "C" void gsl_odeiv2_step_free(gsl_odeiv2_step*) {}
extern "C" int gsl_odeiv2_step_apply(gsl_odeiv2_step*, double t, double h, double y[], double yerr[], const double[], double dydt_out[], const gsl_odeiv2_system* s)
{
  s->function(t,y,dydt_out,s->params);
  const int st=G.status[G.k++];
  if (st==GSL_SUCCESS) for (int i=0; i<int(s->dimension)/2; ++i) {y[2*i]+=h*dydt_out[2*i]; y[2*i+1]+=h*dydt_out[2*i+1];}
  return st;
}
extern "C" int gsl_odeiv2_control_hadjust(gsl_odeiv2_control*, gsl_odeiv2_step*, const double[], const double[], const double[], double* h) {*h=G.next; return 0;}
extern "C" int h_gsl_try(int n, double* y, double t, double dtTry, int status, double next, double* out)
{
  G.status[0]=status; G.k=0; G.next=next;
  ControlledErrorStepperGSL<CArray<1>> s(1,1); auto v(v1(y,n));
  int r=0;
  try {r=s.try_step([](const CArray<1>& y, CArray<1>& dydt, double t) {for (int i=0; i<y.size(); ++i) dydt(i)=t*y(i)+dc(1,2);},v,t,dtTry)==boost::numeric::odeint::success;}
  catch (const std::runtime_error&) {r=2;}
  out[0]=t; out[1]=dtTry;
  return r;
}
extern "C" void h_gsl_step(int n, int nfail, double* y, double t, double dtTry, double dtDid, double deltaT, double next, double* out, long* counts)
{
  for (int i=0; i<7; ++i) G.status[i]=i<nfail ? GSL_FAILURE : GSL_SUCCESS; 
  G.k=0; G.next=next;
  ODE_EngineGSL<CArray<1>> e(dtTry,0,1e-6,1e-12); e.setDtDid(dtDid); auto v(v1(y,n));
  e.step(deltaT,std::clog,[](const CArray<1>& y, CArray<1>& dydt, double t) {for (int i=0; i<y.size(); ++i) dydt(i)=t*y(i);},t,v);
  Counts c{counts,out+1}; e.stateIO(c); out[0]=t;
}
// tolerances: way 0: two numbers, way 1: parameter aggregate; direct maker or whole engine
extern "C" void h_gsl_eps(int way, double epsRel, double epsAbs, double* out)
{
  parameters::Table table; Pars<> p(table); p.epsRel=epsRel; p.epsAbs=epsAbs; p.logLevel=0;
  typedef MakeControlledErrorStepper<ControlledErrorStepperGSL<CArray<1>>> M; 
  out[4]=epsRel; out[5]=epsAbs;
  if (way==0) {auto s(M::_(epsRel,epsAbs)); out[4]=s.epsRel; out[5]=s.epsAbs;}
  else if (way==1) {auto s(M::_(p)); out[4]=s.epsRel; out[5]=s.epsAbs;}
  else if (way==2) ODE_EngineGSL<CArray<1>>(1.,0,epsRel,epsAbs);
  else ODE_EngineGSL<CArray<1>>(1.,p);
  for (int i=0; i<4; ++i) out[i]=G.rec[i];
}
// the GSL stepper constructed directly
extern "C" void h_gsl_ctor(double epsAbs, double epsRel, double* out)
{
  ControlledErrorStepperGSL<CArray<1>> s(epsAbs,epsRel);
  for (int i=0; i<4; ++i) out[i]=G.rec[i];
}
// default tolerances in the parameter table
extern "C" void h_eps_default(double* out)
{
  parameters::Table table; Pars<> p(table); out[0]=p.epsRel; out[1]=p.epsAbs;
}
// one attempt of Boost's controlled stepper on a single variable, the derivative taking the given values k at successive calls
extern "C" int h_boost_try(int way, double epsRel, double epsAbs, double x, double t, double dt, double* k, double* out)
{
  typedef std::array<double,1> S;
  parameters::Table table; Pars<> p(table); p.epsRel=epsRel; p.epsAbs=epsAbs; p.logLevel=0;
  typedef MakeControlledErrorStepper<bno::controlled_runge_kutta<bno::runge_kutta_cash_karp54<S>>> M;
  auto s(way ? M::_(p) : M::_(epsRel,epsAbs)); 
  S y{x}; int i=0; const double t0=t;
  const bool ok=s.stepper.try_step([&](const S&, S& d, double) {d[0]=k[i++];},y,t,dt)==bno::success;
  out[0]=t-t0; out[1]=s.epsRel; out[2]=s.epsAbs;
  return ok;
}
