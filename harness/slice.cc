// written by tools/genslice.py
#include "common.h"
#include "SliceIterator.tcc"
#include "VectorFromMatrixSliceIterator.h"
#include "TMP_Tools.h"
namespace {
using namespace cppqedutils::sliceiterator;
// puts the iterator at the combination d of dummy indices; an element of the slice is read and overwritten
template<int... V, int R, typename F> void at(const CArray<R>& a, std::initializer_list<int> d, F f)
{
  auto it(begin<tmptools::Vector<V...>,CArray>(a));
  if constexpr (sizeof...(V)<R) {auto& x=*const_cast<cppqedutils::MultiIndexIterator<R-sizeof...(V)>&>(it()); int i=0; for (int k : d) x(i++)=k;}
  f(*it);
}
template<int... V, int R> void bounds(const CArray<R>& a, int* out)
{
  auto b(begin<tmptools::Vector<V...>,CArray>(a)); auto e(end<tmptools::Vector<V...>,CArray>(a));
  if constexpr (sizeof...(V)<R) {
    const int n=R-sizeof...(V); for (int i=0; i<n; ++i) {out[i]=(*b())(i); out[n+i]=(*e())(i);}
    out[2*n]=b==e;
    *const_cast<cppqedutils::MultiIndexIterator<R-sizeof...(V)>&>(b())=*e(); out[2*n+1]=b==e;
  }
  else {out[0]=b==e; ++b; out[1]=b==e;}
}
template<typename A, typename... I> void rw(A& s, double* out, double x, double y, I... i) {dc& z=s(i...); out[0]=z.real(); out[1]=z.imag(); z=dc(x,y);}
}
extern "C" void h_slice_2_0(int e0, int e1, int d1, int r0, double* a, double* out, double x, double y) {at<0>(v2(a,e0,e1),{d1},[=](auto& s) {rw(s,out,x,y,r0);});}
extern "C" void h_slicebounds_2_0(int e0, int e1, double* a, int* out) {bounds<0>(v2(a,e0,e1),out);}
extern "C" void h_slice_2_1(int e0, int e1, int d0, int r0, double* a, double* out, double x, double y) {at<1>(v2(a,e0,e1),{d0},[=](auto& s) {rw(s,out,x,y,r0);});}
extern "C" void h_slicebounds_2_1(int e0, int e1, double* a, int* out) {bounds<1>(v2(a,e0,e1),out);}
extern "C" void h_slice_3_0(int e0, int e1, int e2, int d1, int d2, int r0, double* a, double* out, double x, double y) {at<0>(v3(a,e0,e1,e2),{d1,d2},[=](auto& s) {rw(s,out,x,y,r0);});}
extern "C" void h_slicebounds_3_0(int e0, int e1, int e2, double* a, int* out) {bounds<0>(v3(a,e0,e1,e2),out);}
extern "C" void h_slice_3_1(int e0, int e1, int e2, int d0, int d2, int r0, double* a, double* out, double x, double y) {at<1>(v3(a,e0,e1,e2),{d0,d2},[=](auto& s) {rw(s,out,x,y,r0);});}
extern "C" void h_slicebounds_3_1(int e0, int e1, int e2, double* a, int* out) {bounds<1>(v3(a,e0,e1,e2),out);}
extern "C" void h_slice_3_2(int e0, int e1, int e2, int d0, int d1, int r0, double* a, double* out, double x, double y) {at<2>(v3(a,e0,e1,e2),{d0,d1},[=](auto& s) {rw(s,out,x,y,r0);});}
extern "C" void h_slicebounds_3_2(int e0, int e1, int e2, double* a, int* out) {bounds<2>(v3(a,e0,e1,e2),out);}
extern "C" void h_slice_3_01(int e0, int e1, int e2, int d2, int r0, int r1, double* a, double* out, double x, double y) {at<0,1>(v3(a,e0,e1,e2),{d2},[=](auto& s) {rw(s,out,x,y,r0,r1);});}
extern "C" void h_slicebounds_3_01(int e0, int e1, int e2, double* a, int* out) {bounds<0,1>(v3(a,e0,e1,e2),out);}
extern "C" void h_slice_3_10(int e0, int e1, int e2, int d2, int r0, int r1, double* a, double* out, double x, double y) {at<1,0>(v3(a,e0,e1,e2),{d2},[=](auto& s) {rw(s,out,x,y,r0,r1);});}
extern "C" void h_slicebounds_3_10(int e0, int e1, int e2, double* a, int* out) {bounds<1,0>(v3(a,e0,e1,e2),out);}
extern "C" void h_slice_3_02(int e0, int e1, int e2, int d1, int r0, int r1, double* a, double* out, double x, double y) {at<0,2>(v3(a,e0,e1,e2),{d1},[=](auto& s) {rw(s,out,x,y,r0,r1);});}
extern "C" void h_slicebounds_3_02(int e0, int e1, int e2, double* a, int* out) {bounds<0,2>(v3(a,e0,e1,e2),out);}
extern "C" void h_slice_3_20(int e0, int e1, int e2, int d1, int r0, int r1, double* a, double* out, double x, double y) {at<2,0>(v3(a,e0,e1,e2),{d1},[=](auto& s) {rw(s,out,x,y,r0,r1);});}
extern "C" void h_slicebounds_3_20(int e0, int e1, int e2, double* a, int* out) {bounds<2,0>(v3(a,e0,e1,e2),out);}
extern "C" void h_slice_3_12(int e0, int e1, int e2, int d0, int r0, int r1, double* a, double* out, double x, double y) {at<1,2>(v3(a,e0,e1,e2),{d0},[=](auto& s) {rw(s,out,x,y,r0,r1);});}
extern "C" void h_slicebounds_3_12(int e0, int e1, int e2, double* a, int* out) {bounds<1,2>(v3(a,e0,e1,e2),out);}
extern "C" void h_slice_3_21(int e0, int e1, int e2, int d0, int r0, int r1, double* a, double* out, double x, double y) {at<2,1>(v3(a,e0,e1,e2),{d0},[=](auto& s) {rw(s,out,x,y,r0,r1);});}
extern "C" void h_slicebounds_3_21(int e0, int e1, int e2, double* a, int* out) {bounds<2,1>(v3(a,e0,e1,e2),out);}
extern "C" void h_slice_4_0(int e0, int e1, int e2, int e3, int d1, int d2, int d3, int r0, double* a, double* out, double x, double y) {at<0>(v4(a,e0,e1,e2,e3),{d1,d2,d3},[=](auto& s) {rw(s,out,x,y,r0);});}
extern "C" void h_slicebounds_4_0(int e0, int e1, int e2, int e3, double* a, int* out) {bounds<0>(v4(a,e0,e1,e2,e3),out);}
extern "C" void h_slice_4_2(int e0, int e1, int e2, int e3, int d0, int d1, int d3, int r0, double* a, double* out, double x, double y) {at<2>(v4(a,e0,e1,e2,e3),{d0,d1,d3},[=](auto& s) {rw(s,out,x,y,r0);});}
extern "C" void h_slicebounds_4_2(int e0, int e1, int e2, int e3, double* a, int* out) {bounds<2>(v4(a,e0,e1,e2,e3),out);}
extern "C" void h_slice_4_13(int e0, int e1, int e2, int e3, int d0, int d2, int r0, int r1, double* a, double* out, double x, double y) {at<1,3>(v4(a,e0,e1,e2,e3),{d0,d2},[=](auto& s) {rw(s,out,x,y,r0,r1);});}
extern "C" void h_slicebounds_4_13(int e0, int e1, int e2, int e3, double* a, int* out) {bounds<1,3>(v4(a,e0,e1,e2,e3),out);}
extern "C" void h_slice_4_31(int e0, int e1, int e2, int e3, int d0, int d2, int r0, int r1, double* a, double* out, double x, double y) {at<3,1>(v4(a,e0,e1,e2,e3),{d0,d2},[=](auto& s) {rw(s,out,x,y,r0,r1);});}
extern "C" void h_slicebounds_4_31(int e0, int e1, int e2, int e3, double* a, int* out) {bounds<3,1>(v4(a,e0,e1,e2,e3),out);}
extern "C" void h_slice_4_03(int e0, int e1, int e2, int e3, int d1, int d2, int r0, int r1, double* a, double* out, double x, double y) {at<0,3>(v4(a,e0,e1,e2,e3),{d1,d2},[=](auto& s) {rw(s,out,x,y,r0,r1);});}
extern "C" void h_slicebounds_4_03(int e0, int e1, int e2, int e3, double* a, int* out) {bounds<0,3>(v4(a,e0,e1,e2,e3),out);}
extern "C" void h_slice_4_20(int e0, int e1, int e2, int e3, int d1, int d3, int r0, int r1, double* a, double* out, double x, double y) {at<2,0>(v4(a,e0,e1,e2,e3),{d1,d3},[=](auto& s) {rw(s,out,x,y,r0,r1);});}
extern "C" void h_slicebounds_4_20(int e0, int e1, int e2, int e3, double* a, int* out) {bounds<2,0>(v4(a,e0,e1,e2,e3),out);}
extern "C" void h_slice_4_023(int e0, int e1, int e2, int e3, int d1, int r0, int r1, int r2, double* a, double* out, double x, double y) {at<0,2,3>(v4(a,e0,e1,e2,e3),{d1},[=](auto& s) {rw(s,out,x,y,r0,r1,r2);});}
extern "C" void h_slicebounds_4_023(int e0, int e1, int e2, int e3, double* a, int* out) {bounds<0,2,3>(v4(a,e0,e1,e2,e3),out);}
extern "C" void h_slice_4_301(int e0, int e1, int e2, int e3, int d2, int r0, int r1, int r2, double* a, double* out, double x, double y) {at<3,0,1>(v4(a,e0,e1,e2,e3),{d2},[=](auto& s) {rw(s,out,x,y,r0,r1,r2);});}
extern "C" void h_slicebounds_4_301(int e0, int e1, int e2, int e3, double* a, int* out) {bounds<3,0,1>(v4(a,e0,e1,e2,e3),out);}
extern "C" void h_slice_4_120(int e0, int e1, int e2, int e3, int d3, int r0, int r1, int r2, double* a, double* out, double x, double y) {at<1,2,0>(v4(a,e0,e1,e2,e3),{d3},[=](auto& s) {rw(s,out,x,y,r0,r1,r2);});}
extern "C" void h_slicebounds_4_120(int e0, int e1, int e2, int e3, double* a, int* out) {bounds<1,2,0>(v4(a,e0,e1,e2,e3),out);}
extern "C" void h_slice_2_10(int e0, int e1, int r0, int r1, double* a, double* out, double x, double y) {at<1,0>(v2(a,e0,e1),{},[=](auto& s) {rw(s,out,x,y,r0,r1);});}
extern "C" void h_slicebounds_2_10(int e0, int e1, double* a, int* out) {bounds<1,0>(v2(a,e0,e1),out);}
extern "C" void h_slice_3_201(int e0, int e1, int e2, int r0, int r1, int r2, double* a, double* out, double x, double y) {at<2,0,1>(v3(a,e0,e1,e2),{},[=](auto& s) {rw(s,out,x,y,r0,r1,r2);});}
extern "C" void h_slicebounds_3_201(int e0, int e1, int e2, double* a, int* out) {bounds<2,0,1>(v3(a,e0,e1,e2),out);}
extern "C" void h_slice_3_120(int e0, int e1, int e2, int r0, int r1, int r2, double* a, double* out, double x, double y) {at<1,2,0>(v3(a,e0,e1,e2),{},[=](auto& s) {rw(s,out,x,y,r0,r1,r2);});}
extern "C" void h_slicebounds_3_120(int e0, int e1, int e2, double* a, int* out) {bounds<1,2,0>(v3(a,e0,e1,e2),out);}
