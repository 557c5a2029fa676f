// Contracts of callees as executable specifications: where a caller is verified, the call is replaced by these (each is proved of the callee's body as a case of its own)
#pragma once
#include "common.h"
extern "C" __attribute__((weak)) void contract_unmet(); // never defined: reaching it means that a precondition does not hold
// M := M + M^dagger, contiguous row-major square matrix
extern "C" linalg::CMatrix& contract_tworeal(linalg::CMatrix& m)
{
  const int n=m.extent(0);
  if (m.extent(1)!=n || m.stride(0)!=n || m.stride(1)!=1) contract_unmet();
  linalg::CMatrix t(n,n);
  for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) t(i,j)=m(i,j)+conj(m(j,i));
  for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) m(i,j)=t(i,j);
  return m;
}
// blitz::Array::copy: same extents and elements in storage of its own (row-major, never reclaimed here: reclaiming is not observable)
extern "C" linalg::CMatrix contract_copy2(const linalg::CMatrix* m)
{
  const int n=m->extent(0), k=m->extent(1);
  if (m->lbound(0) || m->lbound(1)) contract_unmet();
  dc* p=static_cast<dc*>(::operator new(sizeof(dc)*n*k));
  for (int i=0; i<n; ++i) for (int j=0; j<k; ++j) p[i*k+j]=(*m)(i,j);
  return linalg::CMatrix(p,blitz::shape(n,k),blitz::neverDeleteData);
}
