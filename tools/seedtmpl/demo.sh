#!/bin/bash
# compiles the element from /repo and checks the behaviour numerically
D=$(cd "$(dirname "$0")" && pwd); R=${REPO:-$PWD}; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I=""; for d in CPPQEDutils CPPQEDcore/quantumdata CPPQEDcore/quantumoperator CPPQEDcore/quantumtrajectory CPPQEDcore/structure CPPQEDcore/composites CPPQEDcore/high CPPQEDelements/frees CPPQEDelements/interactions CPPQEDelements/utils; do I="$I -I$R/$d"; done
F="-std=c++20 -O1 -DNDEBUG -DBZ_HAVE_BOOST_SERIALIZATION -DCPPQED_HAS_GSL -w -include boost/preprocessor/iteration/iterate.hpp -I/usr/include/eigen3 -isystem $R/blitz $I"
S="$(cat $D/sources)"; n=0; P=""; O=""
for s in $D/demo.cc $S; do case $s in /*) f=$s;; *) f=$R/$s;; esac; n=$((n+1)); g++ $F -c $f -o $T/$n.o 2>$T/$n.err & P="$P $!"; O="$O $T/$n.o"; done
for p in $P; do wait $p || { echo compile failed; exit 2; }; done
g++ $O -o $T/demo -Wl,-z,muldefs -Wl,--defsym=_Z13versionHelperB5cxx11v=0 -lboost_serialization -lboost_iostreams -lgsl -lgslcblas -lblitz || { echo link failed; exit 2; }
cd $T && timeout 60 ./demo
