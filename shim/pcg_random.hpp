// Stand-in for the absent third-party generator: only its type is needed to read the library's headers
#pragma once
#include <iostream>
#include <random>
struct pcg64 : std::mt19937_64 {pcg64(unsigned long s=0, unsigned long=0) : std::mt19937_64(s) {}};
inline std::ostream& operator<<(std::ostream& os, const pcg64&) {return os;}
inline std::istream& operator>>(std::istream& is, pcg64&) {return is;}
