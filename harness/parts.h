// Constituents of composites with arbitrary (caller-given) coefficients: each constituent's contribution is told by its own coefficient array
#pragma once
#include "common.h"
#include "Interaction.h"
using namespace structure;
namespace {
struct Coeff {int nd; double *h, *u, *j; int nli; double* w; int nav; double* a;}; // nd: number of levels; h,u: [nd]; j,w: [nli][nd]; a: [nav][nd]
template<int> struct None {None(const Coeff&) {}};
// free constituents
struct Ha1 : Hamiltonian<1> { Coeff c; Ha1(const Coeff& c) : c(c) {}
  void addContribution_v(double t, const StateVectorLow<1>& psi, StateVectorLow<1>& d, double t0) const {for (int n=0; n<c.nd; ++n) d(n)+=(t*c.h[n]+t0)*psi(n);} };
struct Ex1 : Exact<1> { Coeff c; Ex1(const Coeff& c) : c(c) {}
  bool applicableInMaster_v() const {return c.u[0]>0;}
  void actWithU_v(double t, StateVectorLow<1>& psi, double t0) const {for (int n=0; n<c.nd; ++n) psi(n)*=t*c.u[n]+t0;} };
struct Li1 : Liouvillean<1> { Coeff c; Li1(const Coeff& c) : c(c) {}
  std::ostream& streamKey_v(std::ostream& os, size_t&) const {return os;}
  size_t nAvr_v() const {return c.nli;}
  const Averages average_v(double t, const quantumdata::LazyDensityOperator<1>& m) const {Averages r(c.nli); r=0; for (int i=0; i<c.nli; ++i) for (int n=0; n<c.nd; ++n) r(i)+=(t+c.w[i*c.nd+n])*m(n); return r;}
  void actWithJ_v(double t, StateVectorLow<1>& psi, size_t i) const {for (int n=0; n<c.nd; ++n) psi(n)*=t+c.j[i*c.nd+n];}
  void actWithSuperoperator_v(double t, const DensityOperatorLow<1>& rho, DensityOperatorLow<1>& d, size_t i) const {for (int n=0; n<c.nd; ++n) for (int m=0; m<c.nd; ++m) d(n,m)+=(t+c.j[i*c.nd+n])*rho(n,m)*c.j[i*c.nd+m];} };
struct Av1 : Averaged<1> { Coeff c; Av1(const Coeff& c) : c(c) {}
  std::ostream& streamKey_v(std::ostream& os, size_t&) const {return os;}
  size_t nAvr_v() const {return c.nav;}
  const Averages average_v(double t, const quantumdata::LazyDensityOperator<1>& m) const {Averages r(c.nav); r=0; for (int i=0; i<c.nav; ++i) for (int n=0; n<c.nd; ++n) r(i)+=(t+c.a[i*c.nd+n])*m(n); return r;}
  void process_v(Averages& av) const {for (int i=0; i<c.nav; ++i) av(i)+=c.a[i*c.nd];}
  std::ostream& stream_v(const Averages&, std::ostream& os, int) const {return os;} };
// the same for the interaction, on two degrees of freedom
struct Ha2 : Hamiltonian<2> { Coeff c; Ha2(const Coeff& c) : c(c) {}
  void addContribution_v(double t, const StateVectorLow<2>& psi, StateVectorLow<2>& d, double t0) const {const int l=psi.extent(1); for (int m=0; m<psi.extent(0); ++m) for (int n=0; n<l; ++n) d(m,n)+=(t*c.h[m*l+n]+t0)*psi(m,n);} };
struct Ex2 : Exact<2> { Coeff c; Ex2(const Coeff& c) : c(c) {}
  bool applicableInMaster_v() const {return c.u[0]>0;}
  void actWithU_v(double t, StateVectorLow<2>& psi, double t0) const {const int l=psi.extent(1); for (int m=0; m<psi.extent(0); ++m) for (int n=0; n<l; ++n) psi(m,n)*=t*c.u[m*l+n]+t0;} };
struct Li2 : Liouvillean<2> { Coeff c; Li2(const Coeff& c) : c(c) {}
  std::ostream& streamKey_v(std::ostream& os, size_t&) const {return os;}
  size_t nAvr_v() const {return c.nli;}
  const Averages average_v(double t, const quantumdata::LazyDensityOperator<2>& r) const {Averages a(c.nli); for (int i=0; i<c.nli; ++i) a(i)=t+c.w[i]; return a;}
  void actWithJ_v(double t, StateVectorLow<2>& psi, size_t i) const {const int k=psi.extent(0), l=psi.extent(1); for (int m=0; m<k; ++m) for (int n=0; n<l; ++n) psi(m,n)*=t+c.j[(i*k+m)*l+n];}
  void actWithSuperoperator_v(double t, const DensityOperatorLow<2>& rho, DensityOperatorLow<2>& d, size_t i) const
  {const int k=rho.extent(0), l=rho.extent(1); for (int m=0; m<k; ++m) for (int n=0; n<l; ++n) for (int o=0; o<k; ++o) for (int p=0; p<l; ++p) d(m,n,o,p)+=(t+c.j[(i*k+m)*l+n])*rho(m,n,o,p)*c.j[(i*k+o)*l+p];} };
struct Av2 : Averaged<2> { Coeff c; Av2(const Coeff& c) : c(c) {}
  std::ostream& streamKey_v(std::ostream& os, size_t&) const {return os;}
  size_t nAvr_v() const {return c.nav;}
  const Averages average_v(double t, const quantumdata::LazyDensityOperator<2>&) const {Averages r(c.nav); for (int i=0; i<c.nav; ++i) r(i)=t+c.a[i]; return r;}
  void process_v(Averages& av) const {for (int i=0; i<c.nav; ++i) av(i)+=c.a[i];}
  std::ostream& stream_v(const Averages&, std::ostream& os, int) const {return os;} };
template<bool B, typename T, int I> using If=std::conditional_t<B,T,None<I>>;
template<bool EX, bool HA, bool LI, bool AV> struct F : Free, If<EX,Ex1,0>, If<HA,Ha1,1>, If<LI,Li1,2>, If<AV,Av1,3>
{ F(const Coeff& c) : Free(c.nd), If<EX,Ex1,0>(c), If<HA,Ha1,1>(c), If<LI,Li1,2>(c), If<AV,Av1,3>(c) {} };
template<bool EX, bool HA, bool LI, bool AV> struct I : Interaction<2>, If<EX,Ex2,0>, If<HA,Ha2,1>, If<LI,Li2,2>, If<AV,Av2,3>
{ I(FreePtr a, FreePtr b, const Coeff& c) : Interaction<2>({a,b}), If<EX,Ex2,0>(c), If<HA,Ha2,1>(c), If<LI,Li2,2>(c), If<AV,Av2,3>(c) {} };
// kind: 0 nothing, 1 exact, 2 Hamiltonian, 3 both, 4 Liouvillean, 8 averaged
FreePtr mkf(int kind, const Coeff& c)
{
  switch (kind) {
    case 1: return std::make_shared<F<1,0,0,0>>(c);
    case 2: return std::make_shared<F<0,1,0,0>>(c);
    case 3: return std::make_shared<F<1,1,0,0>>(c);
    case 4: return std::make_shared<F<0,0,1,0>>(c);
    case 8: return std::make_shared<F<0,0,0,1>>(c);
  }
  return std::make_shared<F<0,0,0,0>>(c);
}
InteractionPtr<2> mki(int kind, FreePtr a, FreePtr b, const Coeff& c)
{
  switch (kind) {
    case 1: return std::make_shared<I<1,0,0,0>>(a,b,c);
    case 2: return std::make_shared<I<0,1,0,0>>(a,b,c);
    case 3: return std::make_shared<I<1,1,0,0>>(a,b,c);
    case 4: return std::make_shared<I<0,0,1,0>>(a,b,c);
    case 8: return std::make_shared<I<0,0,0,1>>(a,b,c);
  }
  return std::make_shared<I<0,0,0,0>>(a,b,c);
}
}
