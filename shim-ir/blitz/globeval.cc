// Verifier's build only: blitz++'s contract "dest OP= expr updates every element of dest once with expr at the same index", for rank>1, as the
// nested loop the blitz++ documentation gives for it, instead of the stack-based traversal.  Rank 1 is blitz++'s own code.
#include_next <blitz/globeval.cc>
#ifndef VERIF_GLOBEVAL
#define VERIF_GLOBEVAL
namespace blitz {
#define VERIF_EV template<typename D, typename E, typename U> static void evaluateWithStackTraversal(D& d, E e, U u) {evaluateWithIndexTraversal(d,e,u);} \
  template<typename D, typename E, typename U> static void evaluateWithIndexTraversal(D& dest, E expr, U)
#define VERIF_FOR(v,r) for (int v=dest.lbound(r); v<=dest.ubound(r); ++v)
template<> struct _bz_evaluator<2> {VERIF_EV {VERIF_FOR(i,0) VERIF_FOR(j,1) U::update(dest(i,j),expr(TinyVector<int,2>(i,j)));}};
template<> struct _bz_evaluator<3> {VERIF_EV {VERIF_FOR(i,0) VERIF_FOR(j,1) VERIF_FOR(k,2) U::update(dest(i,j,k),expr(TinyVector<int,3>(i,j,k)));}};
template<> struct _bz_evaluator<4> {VERIF_EV {VERIF_FOR(i,0) VERIF_FOR(j,1) VERIF_FOR(k,2) VERIF_FOR(l,3) U::update(dest(i,j,k,l),expr(TinyVector<int,4>(i,j,k,l)));}};
template<> struct _bz_evaluator<6> {VERIF_EV {VERIF_FOR(i,0) VERIF_FOR(j,1) VERIF_FOR(k,2) VERIF_FOR(l,3) VERIF_FOR(m,4) VERIF_FOR(n,5)
  {TinyVector<int,6> x; x[0]=i; x[1]=j; x[2]=k; x[3]=l; x[4]=m; x[5]=n; U::update(dest(x),expr(x));}}};
}
#endif
