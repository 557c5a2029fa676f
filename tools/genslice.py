#!/usr/bin/env python3
"""writes harness/slice.cc: one entry per (rank, retained positions)"""
import os
CFG=[(2,(0,)),(2,(1,)),(3,(0,)),(3,(1,)),(3,(2,)),(3,(0,1)),(3,(1,0)),(3,(0,2)),(3,(2,0)),(3,(1,2)),(3,(2,1)),
 (4,(0,)),(4,(2,)),(4,(1,3)),(4,(3,1)),(4,(0,3)),(4,(2,0)),(4,(0,2,3)),(4,(3,0,1)),(4,(1,2,0)),(2,(1,0)),(3,(2,0,1)),(3,(1,2,0))]
def name(R,V): return '%d_%s'%(R,''.join(map(str,V)))
if __name__=='__main__':
    s='''// written by tools/genslice.py
#include "common.h"
#include "SliceIterator.tcc"
#include "VectorFromMatrixSliceIterator.h"
#include "TMP_Tools.h"
namespace {
using namespace cppqedutils::sliceiterator;
// puts the iterator at the combination d of dummy indices; an element of the slice is read and overwritten
template<int... V, int R, typename F> void at(const CArray<R>& a, std::initializer_list<int> d, F f)
{
  auto it(begin<tmptools::Vector<V...>,CArray>(a));
  if constexpr (sizeof...(V)<R) {auto& x=*const_cast<cppqedutils::MultiIndexIterator<R-sizeof...(V)>&>(it()); int i=0; for (int k : d) x(i++)=k;}
  f(*it);
}
template<int... V, int R> void bounds(const CArray<R>& a, int* out)
{
  auto b(begin<tmptools::Vector<V...>,CArray>(a)); auto e(end<tmptools::Vector<V...>,CArray>(a));
  if constexpr (sizeof...(V)<R) {
    const int n=R-sizeof...(V); for (int i=0; i<n; ++i) {out[i]=(*b())(i); out[n+i]=(*e())(i);}
    out[2*n]=b==e;
    *const_cast<cppqedutils::MultiIndexIterator<R-sizeof...(V)>&>(b())=*e(); out[2*n+1]=b==e;
  }
  else {out[0]=b==e; ++b; out[1]=b==e;}
}
template<typename A, typename... I> void rw(A& s, double* out, double x, double y, I... i) {dc& z=s(i...); out[0]=z.real(); out[1]=z.imag(); z=dc(x,y);}
}
'''
    for R,V in CFG:
        D=[k for k in range(R) if k not in V]
        es=', '.join('int e%d'%k for k in range(R)); ds=''.join(', int d%d'%k for k in D); rs=', '.join('int r%d'%k for k in range(len(V)))
        ea=','.join('e%d'%k for k in range(R))
        s+='extern "C" void h_slice_%s(%s%s, %s, double* a, double* out, double x, double y) {at<%s,%d>(v%d(a,%s),{%s},[=](auto& s) {rw(s,out,x,y,%s);});}\n'%(name(R,V),es,ds,rs,','.join(map(str,V)),R,R,ea,','.join('d%d'%k for k in D),','.join('r%d'%k for k in range(len(V))))
        s=s.replace('at<%s,%d>('%(','.join(map(str,V)),R),'at<%s>('%','.join(map(str,V)))
        s+='extern "C" void h_slicebounds_%s(%s, double* a, int* out) {bounds<%s>(v%d(a,%s),out);}\n'%(name(R,V),es,','.join(map(str,V)),R,ea)
    open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/harness/slice.cc','w').write(s)
