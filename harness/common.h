// Shared by the verification harnesses: views of caller-owned buffers as the library's array types.
#pragma once
#include "Structure.h"
#include "Pars.h"
typedef std::complex<double> dc;
inline CArray<1> v1(double* p, int n) {return CArray<1>(reinterpret_cast<dc*>(p),blitz::shape(n),blitz::neverDeleteData);}
inline CArray<2> v2(double* p, int m, int n) {return CArray<2>(reinterpret_cast<dc*>(p),blitz::shape(m,n),blitz::neverDeleteData);}
inline CArray<3> v3(double* p, int l, int m, int n) {return CArray<3>(reinterpret_cast<dc*>(p),blitz::shape(l,m,n),blitz::neverDeleteData);}
inline CArray<4> v4(double* p, int k, int l, int m, int n) {return CArray<4>(reinterpret_cast<dc*>(p),blitz::shape(k,l,m,n),blitz::neverDeleteData);}
