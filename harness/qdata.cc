// State vectors and density operators: the quantum-data classes furnished over caller-owned buffers.
#include "common.h"
#include "StateVector.h"
#include "DensityOperator.h"
#include "EntanglementMeasures.h"
using namespace quantumdata;
typedef LazyDensityOperator<1> L1; typedef LazyDensityOperator<2> L2;
inline StateVector<1> s1(double* p, int n) {return StateVector<1>(v1(p,n),byReference);}
inline StateVector<2> s2(double* p, int m, int n) {return StateVector<2>(v2(p,m,n),byReference);}
inline StateVector<3> s3(double* p, int l, int m, int n) {return StateVector<3>(v3(p,l,m,n),byReference);}
inline DensityOperator<1> d1(double* p, int n) {return DensityOperator<1>(v2(p,n,n),byReference);}
inline DensityOperator<2> d2(double* p, int m, int n) {return DensityOperator<2>(v4(p,m,n,m,n),byReference);}
inline CArray<6> v6(double* p, int l, int m, int n) {return CArray<6>(reinterpret_cast<dc*>(p),blitz::shape(l,m,n,l,m,n),blitz::neverDeleteData);}
inline DensityOperator<3> d3(double* p, int l, int m, int n) {return DensityOperator<3>(v6(p,l,m,n),byReference);}
inline void put(double* out, dc z) {out[0]=z.real(); out[1]=z.imag();}
extern "C" void h_svldo1(int n, int i, int j, double* psi, double* out) {auto s(s1(psi,n)); const L1& l=s; put(out,l(i)(j)); out[2]=l(i);}
extern "C" void h_svldo2(int m, int n, int i, int k, int j, int l, double* psi, double* out) {auto s(s2(psi,m,n)); const L2& d=s; put(out,d(i,k)(j,l)); out[2]=d(i,k);}
extern "C" void h_doldo1(int n, int i, int j, double* rho, double* out) {auto s(d1(rho,n)); const L1& l=s; put(out,l(i)(j)); out[2]=l(i);}
extern "C" void h_doldo2(int m, int n, int i, int k, int j, int l, double* rho, double* out) {auto s(d2(rho,m,n)); const L2& d=s; put(out,d(i,k)(j,l)); out[2]=d(i,k);}
extern "C" double h_svtrace1(int n, double* psi) {auto s(s1(psi,n)); const L1& l=s; return l.trace();}
extern "C" double h_svtrace2(int m, int n, double* psi) {auto s(s2(psi,m,n)); const L2& l=s; return l.trace();}
extern "C" double h_dotrace1(int n, double* rho) {auto s(d1(rho,n)); const L1& l=s; return l.trace();}
extern "C" double h_dotrace2(int m, int n, double* rho) {auto s(d2(rho,m,n)); const L2& l=s; return l.trace();}
extern "C" double h_svnorm1(int n, double* psi) {auto s(s1(psi,n)); return s.norm();}
extern "C" double h_svrenorm1(int n, double* psi) {auto s(s1(psi,n)); return s.renorm();}
extern "C" double h_svrenorm2(int m, int n, double* psi) {auto s(s2(psi,m,n)); return s.renorm();}
extern "C" double h_dorenorm1(int n, double* rho) {auto s(d1(rho,n)); return s.renorm();}
extern "C" double h_dorenorm2(int m, int n, double* rho) {auto s(d2(rho,m,n)); return s.renorm();}
extern "C" double h_dofrob1(int n, double* rho) {return frobeniusNorm(d1(rho,n));}
extern "C" double h_dopurity1(int n, double* rho) {return purity(d1(rho,n));}
extern "C" double h_dopurity2(int m, int n, double* rho) {return purity(d2(rho,m,n));}
extern "C" void h_dyad1(int n, double* a, double* b, double* out) {auto o(v2(out,n,n)); o=dyad(s1(a,n),s1(b,n)).getArray();}
extern "C" void h_dyad2(int m, int n, double* a, double* b, double* out) {auto o(v4(out,m,n,m,n)); o=dyad(s2(a,m,n),s2(b,m,n)).getArray();}
extern "C" void h_doctor1(int n, double* a, double* out) {auto o(v2(out,n,n)); o=DensityOperator<1>(s1(a,n)).getArray();}
extern "C" void h_doctor2(int m, int n, double* a, double* out) {auto o(v4(out,m,n,m,n)); o=DensityOperator<2>(s2(a,m,n)).getArray();}
extern "C" void h_addto1(int n, double* psi, double* rho, double w) {auto r(d1(rho,n)); s1(psi,n).addTo(r,w);}
extern "C" void h_addto2(int m, int n, double* psi, double* rho, double w) {auto r(d2(rho,m,n)); s2(psi,m,n).addTo(r,w);}
extern "C" void h_assign1(int n, double* psi, double* rho) {auto r(d1(rho,n)); auto s(s1(psi,n)); r=s;}
extern "C" void h_assign2(int m, int n, double* psi, double* rho) {auto r(d2(rho,m,n)); auto s(s2(psi,m,n)); r=s;}
extern "C" void h_densop_sv(int n, double* psi, double* out) {auto o(v2(out,n,n)); o=densityOperatorize<1>(s1(psi,n)).getArray();}
extern "C" void h_densop_do(int n, double* rho, double* out) {auto o(v2(out,n,n)); o=densityOperatorize<1>(d1(rho,n)).getArray();}
extern "C" void h_braket1(int n, double* a, double* b, double* out) {put(out,braket(s1(a,n),s1(b,n)));}
extern "C" void h_braket2(int m, int n, double* a, double* b, double* out) {put(out,braket(s2(a,m,n),s2(b,m,n)));}
extern "C" void h_svprod11(int m, int n, double* a, double* b, double* out) {auto o(v2(out,m,n)); o=(s1(a,m)*s1(b,n)).getArray();}
extern "C" void h_svprod12(int l, int m, int n, double* a, double* b, double* out) {auto o(v3(out,l,m,n)); o=(s1(a,l)*s2(b,m,n)).getArray();}
extern "C" void h_sv2_red0(int m, int n, double* psi, double* out) {auto o(v2(out,m,m)); o=reduce<0>(s2(psi,m,n)).getArray();}
extern "C" void h_sv2_red1(int m, int n, double* psi, double* out) {auto o(v2(out,n,n)); o=reduce<1>(s2(psi,m,n)).getArray();}
extern "C" void h_sv3_red0(int l, int m, int n, double* psi, double* out) {auto o(v2(out,l,l)); o=reduce<0>(s3(psi,l,m,n)).getArray();}
extern "C" void h_sv3_red1(int l, int m, int n, double* psi, double* out) {auto o(v2(out,m,m)); o=reduce<1>(s3(psi,l,m,n)).getArray();}
extern "C" void h_sv3_red2(int l, int m, int n, double* psi, double* out) {auto o(v2(out,n,n)); o=reduce<2>(s3(psi,l,m,n)).getArray();}
extern "C" void h_do2_red0(int m, int n, double* rho, double* out) {auto o(v2(out,m,m)); o=reduce<0>(d2(rho,m,n)).getArray();}
extern "C" void h_do2_red1(int m, int n, double* rho, double* out) {auto o(v2(out,n,n)); o=reduce<1>(d2(rho,m,n)).getArray();}
extern "C" void h_do3_red1(int l, int m, int n, double* rho, double* out) {auto o(v2(out,m,m)); o=reduce<1>(d3(rho,l,m,n)).getArray();}
extern "C" void h_do3_red02(int l, int m, int n, double* rho, double* out) {auto o(v4(out,l,n,l,n)); o=reduce<0,2>(d3(rho,l,m,n)).getArray();}
extern "C" void h_do3_red10(int l, int m, int n, double* rho, double* out) {auto o(v4(out,m,l,m,l)); o=reduce<1,0>(d3(rho,l,m,n)).getArray();}
// the accumulation of a function over the slices (averages of embedded subsystems)
extern "C" double h_ptrace_sv2(int m, int n, int i, double* psi) {auto s(s2(psi,m,n)); const L2& l=s; return partialTrace<tmptools::Vector<0>>(l,[i](const L1& x) -> double {return x(i);});}
extern "C" double h_ptrace_do2(int m, int n, int i, double* rho) {auto s(d2(rho,m,n)); const L2& l=s; return partialTrace<tmptools::Vector<1>>(l,[i](const L1& x) -> double {return x(i);});}
extern "C" void h_diagslice(int m, int n, int k, int i, int j, double* rho, double* out) {auto s(d2(rho,m,n)); put(out,s.diagonalSliceIndex(blitz::Range::all(),k)(i)(j));}
extern "C" void h_deflate1(int n, int off, double* psi, double* out) {auto s(s1(psi,n)); auto r(deflate<1>(s,off)); for (int i=0; i<(off ? n*n : n); ++i) out[i]=r(i);}
extern "C" void h_deflate1d(int n, int off, double* rho, double* out) {auto s(d1(rho,n)); auto r(deflate<1>(s,off)); for (int i=0; i<(off ? n*n : n); ++i) out[i]=r(i);}
extern "C" void h_deflate2d(int m, int n, int off, double* rho, double* out) {auto s(d2(rho,m,n)); auto r(deflate<2>(s,off)); for (int i=0; i<(off ? m*n*m*n : m*n); ++i) out[i]=r(i);}
extern "C" void h_inflate1(int n, int off, double* f, double* rho) {auto r(d1(rho,n)); DArray<1> a(f,blitz::shape(off ? n*n : n),blitz::neverDeleteData); inflate(a,r,off);}
extern "C" void h_inflate2(int m, int n, int off, double* f, double* rho) {auto r(d2(rho,m,n)); DArray<1> a(f,blitz::shape(off ? m*n*m*n : m*n),blitz::neverDeleteData); inflate(a,r,off);}
