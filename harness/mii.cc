#include "common.h"
#include "MultiIndexIterator.h"
namespace {
template<int R> IdxTiny<R> tiny(const int* p) {IdxTiny<R> t; for (int i=0; i<R; ++i) t(i)=p[i]; return t;}
template<int R> IdxTiny<R> tiny(const int* p, const int* q, int f=1) {IdxTiny<R> t; for (int i=0; i<R; ++i) t(i)=p[i]+f*q[i]; return t;}
template<int R> void put(const IdxTiny<R>& t, int* p) {for (int i=0; i<R; ++i) p[i]=t(i);}
typedef cppqedutils::mii::Begin B; typedef cppqedutils::mii::End E;
// bounds lb and lb+w, position lb+w-o
// one increment from an arbitrary position
template<int R> void step(const int* lb, const int* w, const int* o, int* out)
{
  cppqedutils::MultiIndexIterator<R> it(tiny<R>(lb),tiny<R>(lb,w),cppqedutils::mii::begin); *it=IdxTiny<R>(tiny<R>(lb,w)-tiny<R>(o));
  auto& r=++it; put<R>(*r,out);
}
// the ways of obtaining the begin and end positions, from an iterator at position idx
template<int R> void ends(int how, const int* lb, const int* w, const int* o, int* out)
{
  typedef cppqedutils::MultiIndexIterator<R> I;
  I it(tiny<R>(lb),tiny<R>(lb,w),cppqedutils::mii::begin); *it=IdxTiny<R>(tiny<R>(lb,w)-tiny<R>(o));
  if (how==0) put<R>(*I(tiny<R>(lb),tiny<R>(lb,w),cppqedutils::mii::begin),out);
  else if (how==1) put<R>(*I(tiny<R>(lb,w),cppqedutils::mii::begin),out);
  else if (how==2) put<R>(*it.getBegin(),out);
  else if (how==3) {auto& r=it.setToBegin(); put<R>(*r,out); put<R>(*++it,out+R);}
  else if (how==4) put<R>(*I(tiny<R>(lb),tiny<R>(lb,w),cppqedutils::mii::end),out);
  else if (how==5) put<R>(*I(tiny<R>(lb,w),cppqedutils::mii::end),out);
  else if (how==6) put<R>(*it.getEnd(),out);
  else if (how==7) {auto& r=it.setToEnd(); put<R>(*r,out);}
}
template<int R> int equal(const int* lb, const int* w, const int* a, const int* d)
{
  cppqedutils::MultiIndexIterator<R> i(tiny<R>(lb),tiny<R>(lb,w),cppqedutils::mii::begin), j(tiny<R>(lb),tiny<R>(lb,w),cppqedutils::mii::end); *i=tiny<R>(a); *j=tiny<R>(a,d);
  return (i==j)+2*(i!=j);
}
}
extern "C" void h_mii_step1(int* lb, int* w, int* o, int* out) {step<1>(lb,w,o,out);}
extern "C" void h_mii_ends1(int how, int* lb, int* w, int* o, int* out) {ends<1>(how,lb,w,o,out);}
extern "C" int h_mii_equal1(int* lb, int* w, int* a, int* d) {return equal<1>(lb,w,a,d);}
extern "C" void h_mii_step2(int* lb, int* w, int* o, int* out) {step<2>(lb,w,o,out);}
extern "C" void h_mii_ends2(int how, int* lb, int* w, int* o, int* out) {ends<2>(how,lb,w,o,out);}
extern "C" int h_mii_equal2(int* lb, int* w, int* a, int* d) {return equal<2>(lb,w,a,d);}
extern "C" void h_mii_step3(int* lb, int* w, int* o, int* out) {step<3>(lb,w,o,out);}
extern "C" void h_mii_ends3(int how, int* lb, int* w, int* o, int* out) {ends<3>(how,lb,w,o,out);}
extern "C" int h_mii_equal3(int* lb, int* w, int* a, int* d) {return equal<3>(lb,w,a,d);}
extern "C" void h_mii_step4(int* lb, int* w, int* o, int* out) {step<4>(lb,w,o,out);}
extern "C" void h_mii_ends4(int how, int* lb, int* w, int* o, int* out) {ends<4>(how,lb,w,o,out);}
extern "C" int h_mii_equal4(int* lb, int* w, int* a, int* d) {return equal<4>(lb,w,a,d);}
extern "C" void h_mii_step5(int* lb, int* w, int* o, int* out) {step<5>(lb,w,o,out);}
extern "C" void h_mii_ends5(int how, int* lb, int* w, int* o, int* out) {ends<5>(how,lb,w,o,out);}
extern "C" int h_mii_equal5(int* lb, int* w, int* a, int* d) {return equal<5>(lb,w,a,d);}
