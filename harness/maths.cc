// Mathematical helpers
#include "common.h"
#include "MathExtensions.h"
#include "Combinatorics.h"
#include "DrivenDampedHarmonicOscillator.h"
using namespace cppqedutils;
extern "C" int h_sign(double x) {return sign(x);}
extern "C" double h_sqr(double x) {return sqr(x);}
extern "C" double h_sqrabs(double re, double im) {return sqrAbs(dc(re,im));}
extern "C" int h_round(double x) {return cppqedutils::round(x);}
extern "C" int h_parity(long n) {return parity(n);}
extern "C" int h_m1(long n) {return minusOneToThePowerOf(n);}
extern "C" double h_reldev(double a, double b) {return relativeDeviation(a,b);}
extern "C" double h_fact(int n, int* thrown) {*thrown=0; try {return fact(n);} catch (const std::out_of_range&) {*thrown=1; return 0;} }
extern "C" double h_choose(int n, int m) {return choose(n,m);}
extern "C" void h_coherent(long n, double re, double im, double* out) {const dc r(coherentElement(n,dc(re,im))); out[0]=r.real(); out[1]=r.imag();}
// the reference solution: at times t-h, t, t+h and at the initial instant
static double *sysOut, *sol;
extern "C" void eigen_solve(const dc* m, const dc* b, dc* a)
{
  for (int i=0; i<4; ++i) {sysOut[2*i]=m[i].real(); sysOut[2*i+1]=m[i].imag();}
  for (int i=0; i<2; ++i) {sysOut[8+2*i]=b[i].real(); sysOut[9+2*i]=b[i].imag(); a[i]=dc(sol[2*i],sol[2*i+1]);}
}
extern "C" void h_ddho(double gamma, double omega, double* init, double tInit, double t, double h, double* sys, double* a, double* out)
{
  sysOut=sys; sol=a; const dc *i=reinterpret_cast<dc*>(init); dc *o=reinterpret_cast<dc*>(out);
  const auto p=ddho::make(gamma,omega,i[0],i[1],tInit);
  o[0]=p->amp(tInit); o[1]=p->ampDeriv(tInit); o[2]=p->amp(t); o[3]=p->ampDeriv(t);
  if (h!=0) {o[4]=p->amp(t+h); o[5]=p->amp(t-h);}
}
template<size_t N> static void cwr(int k, long* n, long* conf, long* found, long* missing)
{
  const CWR_Dir<N> d(k); n[0]=d().size(); typename CWR_Dir<N>::Configuration c;
  for (size_t i=0; i<d().size(); ++i) {for (size_t j=0; j<N; ++j) conf[i*N+j]=d[i][j]; found[i]=d[d[i]];}
  c.fill(k+1); try {(void)d[c];} catch (const typename CWR_Dir<N>::SubscriptingException&) {missing[0]=1;}
}
extern "C" void h_cwr(int sites, int k, long* n, long* conf, long* found, long* missing)
{
  switch (sites) {case 1: cwr<1>(k,n,conf,found,missing); break; case 2: cwr<2>(k,n,conf,found,missing); break; case 3: cwr<3>(k,n,conf,found,missing); break; case 4: cwr<4>(k,n,conf,found,missing); break; case 5: cwr<5>(k,n,conf,found,missing); }
}
