// Verified text only, see binary_oarchive.hpp
#pragma once
#ifndef VERIF_ARCHIVE
#include_next <boost/archive/binary_iarchive.hpp>
#else
#include "binary_oarchive.hpp"
namespace boost { namespace archive {
struct binary_iarchive
{
  typedef std::false_type is_saving; typedef std::true_type is_loading;
  int nk=0; long ni=0, nd=0;
  binary_iarchive(std::istream&) {}
  ~binary_iarchive() {if (nk!=verif_tape.nk) verif_tape.bad=1;} // something left unread
  void kind(char c) {if (nk>=verif_tape.nk || verif_tape.kind[nk]!=c) verif_tape.bad=1; ++nk;}
  void get(std::string& s) {kind('s'); s.clear(); const long n=verif_tape.i[ni++]; for (long k=0; k<n; ++k) s.push_back(char(verif_tape.i[ni++]));}
  template<size_t N> void get(std::array<unsigned long,N>& s) {for (size_t k=0; k<N; ++k) get(s[k]);}
  template<typename T> void get(std::list<T>& l) {kind('l'); l.clear(); const long n=verif_tape.i[ni++]; for (long k=0; k<n; ++k) {T e; get(e); l.push_back(e);}}
  template<typename A, typename B> void get(std::pair<A,B>& p) {get(p.first); get(p.second);}
  template<int N> void get(blitz::Array<std::complex<double>,N>& x)
  {
    typedef std::complex<double> C; kind('a');
    if constexpr (N==1) {x.resize(int(verif_tape.i[ni])); ni+=1; for (int i=0; i<x.extent(0); ++i) x(i)=C(verif_tape.a[2*i],verif_tape.a[2*i+1]);}
    else {const int m=verif_tape.i[ni+1]; x.resize(int(verif_tape.i[ni]),m); ni+=2; for (int i=0; i<x.extent(0); ++i) for (int j=0; j<m; ++j) x(i,j)=C(verif_tape.a[2*(i*m+j)],verif_tape.a[2*(i*m+j)+1]);}
  }
  template<typename T> void get(T& t)
  {
    if constexpr (std::is_floating_point_v<T>) {kind('d'); t=verif_tape.d[nd++];}
    else if constexpr (std::is_arithmetic_v<T>) {kind('i'); t=T(verif_tape.i[ni++]);}
    else boost::serialization::serialize_adl(*this,t,0u);
  }
  template<typename T> binary_iarchive& operator&(T& t) {get(t); return *this;}
  template<typename T> binary_iarchive& operator>>(T& t) {get(t); return *this;}
};
} }
#endif
