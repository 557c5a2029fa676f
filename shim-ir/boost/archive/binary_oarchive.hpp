// Verified text only: Boost's binary archives are replaced by typed tapes. Assumed of the real ones: what is loaded is what was saved, when loaded in the order it was saved (a load of another kind is recorded as an error).
// Strings, standard arrays and lists, complex numbers and blitz arrays are single items on the tape; classes are taken apart by their own serialize functions.
#pragma once
#ifndef VERIF_ARCHIVE
#include_next <boost/archive/binary_oarchive.hpp>
#else
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/split_member.hpp>
#include <array>
#include <complex>
#include <list>
#include <iosfwd>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <map>
#include <sstream>
namespace blitz {template<typename,int> class Array;}
struct VerifTape {long* i; double* d; double* a; long ni, nd, na; int nk, bad; char kind[80];};
extern VerifTape verif_tape;
namespace boost { namespace archive {
struct binary_oarchive
{
  typedef std::true_type is_saving; typedef std::false_type is_loading;
  binary_oarchive(std::ostream&) {verif_tape.ni=verif_tape.nd=verif_tape.na=verif_tape.nk=0;}
  void kind(char c) {verif_tape.kind[verif_tape.nk++]=c;}
  void put(const std::string& s) {kind('s'); verif_tape.i[verif_tape.ni++]=s.size(); for (size_t k=0; k<s.size(); ++k) verif_tape.i[verif_tape.ni++]=s[k];}
  template<size_t N> void put(const std::array<unsigned long,N>& s) {for (size_t k=0; k<N; ++k) put(s[k]);}
  template<typename T> void put(const std::list<T>& l) {kind('l'); verif_tape.i[verif_tape.ni++]=l.size(); for (const auto& e : l) put(e);}
  template<typename A, typename B> void put(const std::pair<A,B>& p) {put(p.first); put(p.second);}
  template<int N> void put(const blitz::Array<std::complex<double>,N>& x)
  {
    kind('a'); for (int k=0; k<N; ++k) verif_tape.i[verif_tape.ni++]=x.extent(k);
    if constexpr (N==1) for (int i=0; i<x.extent(0); ++i) {verif_tape.a[2*i]=x(i).real(); verif_tape.a[2*i+1]=x(i).imag();}
    else {const int m=x.extent(1); for (int i=0; i<x.extent(0); ++i) for (int j=0; j<m; ++j) {verif_tape.a[2*(i*m+j)]=x(i,j).real(); verif_tape.a[2*(i*m+j)+1]=x(i,j).imag();}}
  }
  template<typename T> void put(const T& t)
  {
    if constexpr (std::is_floating_point_v<T>) {kind('d'); verif_tape.d[verif_tape.nd++]=t;}
    else if constexpr (std::is_arithmetic_v<T>) {kind('i'); verif_tape.i[verif_tape.ni++]=long(t);}
    else boost::serialization::serialize_adl(*this,const_cast<T&>(t),0u);
  }
  template<typename T> binary_oarchive& operator&(const T& t) {put(t); return *this;}
  template<typename T> binary_oarchive& operator<<(const T& t) {put(t); return *this;}
};
} }
#endif
