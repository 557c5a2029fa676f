#include "common.h"
#include "CMatrix.h"
#include "ComplexArrayExtensions.h"
#include "BlitzArrayExtensions.h"
extern "C" void h_tworeal(int n, double* m) {auto a(v2(m,n,n)); linalg::calculateTwoTimesRealPartOfSelf(a);}
extern "C" void h_matapply(int m, int n, double* a, double* b, double* mat) {auto av(v1(a,n)), bv(v1(b,m)); linalg::apply(av,bv,v2(mat,m,n));}
extern "C" void h_direct11(int mult, int m, int n, double* a, double* b, double* out)
{
  auto o(v2(out,m,n));
  if (mult) o=blitzplusplus::doDirect<true,1,1>(v1(a,m),v1(b,n)); else o=blitzplusplus::doDirect<false,1,1>(v1(a,m),v1(b,n));
}
extern "C" void h_direct12(int mult, int l, int m, int n, double* a, double* b, double* out)
{
  auto o(v3(out,l,m,n));
  if (mult) o=blitzplusplus::doDirect<true,1,2>(v1(a,l),v2(b,m,n)); else o=blitzplusplus::doDirect<false,1,2>(v1(a,l),v2(b,m,n));
}
extern "C" void h_direct21(int mult, int l, int m, int n, double* a, double* b, double* out)
{
  auto o(v3(out,l,m,n));
  if (mult) o=blitzplusplus::doDirect<true,2,1>(v2(a,l,m),v1(b,n)); else o=blitzplusplus::doDirect<false,2,1>(v2(a,l,m),v1(b,n));
}
extern "C" void h_hc2(int m, int n, double* a, double* out) {auto o(v2(out,n,m)); o=blitzplusplus::hermitianConjugate(v2(a,m,n));}
extern "C" void h_hcself2(int m, int n, double* a, double* out) {auto x(v2(a,m,n)), o(v2(out,n,m)); blitzplusplus::hermitianConjugateSelf(x); o=x;}
extern "C" void h_hc4(int k, int l, int m, int n, double* a, double* out) {auto o(v4(out,m,n,k,l)); o=blitzplusplus::hermitianConjugate(v4(a,k,l,m,n));}
extern "C" void h_hcself4(int k, int l, int m, int n, double* a, double* out) {auto x(v4(a,k,l,m,n)), o(v4(out,m,n,k,l)); blitzplusplus::hermitianConjugateSelf(x); o=x;}
extern "C" void h_unary(int m, int n, double* a, double* out) {auto o(v1(out,m*n)); o=blitzplusplus::unaryArray(v2(a,m,n));}
extern "C" void h_binary(int m, int n, double* a, double* out) {auto o(v2(out,m*n,m*n)); o=blitzplusplus::binaryArray(v4(a,m,n,m,n));}
extern "C" double h_sqrabs(double x, double y) {return cppqedutils::sqrAbs(dc(x,y));}
