// Advancing and running trajectories, over a stand-in trajectory with any history of step sizes
#include "common.h"
#ifdef NDEBUG // verified text: the stream that prefixes log lines is replaced by a plain one (its text is not modelled)
#define CPPQEDCORE_UTILS_COMMENTING_STREAM_H_INCLUDED
#include <memory>
#include <ostream>
namespace cppqedutils {struct CommentingStream : std::ostream {explicit CommentingStream(std::shared_ptr<std::ostream>) : std::ostream(nullptr) {}};}
#endif
#include "Trajectory.h"
#include <cmath>
namespace {
// the k-th step is asked for asked[k]; the first m-1 ones leave a remainder exp(s[k]) (times sg, the direction) of the interval up to target, the m-th one reaches target
struct Any
{
  double t, target, sg; const double* s; double* asked; int m, k=0;
  double getTime() const {return t;}
  void step(double dt, std::ostream&) {asked[k]=dt; if (k+1<m) t=target-sg*std::exp(s[k]); else t=target; ++k;}
};
struct Whole // knows only how to advance as a whole
{
  double t; double *asked; int k=0;
  double getTime() const {return t;}
  void advance(double dt, std::ostream&) {asked[k++]=dt; t+=dt;}
};
}
extern "C" void h_advance(double t0, double target, int sg, int m, double* s, double* asked, double* out)
{
  Any a{t0,target,double(sg),s,asked,m}; cppqedutils::advance(a,target-t0,std::clog); out[0]=a.t; out[1]=a.k;
}
extern "C" void h_advance_to(double t0, double target, int sg, int m, double* s, double* asked, double* out)
{
  Any a{t0,target,double(sg),s,asked,m}; cppqedutils::advanceTo(a,target,std::clog); out[0]=a.t; out[1]=a.k;
}
extern "C" void h_advance_whole(int to, double t0, double d, double* asked, double* out)
{
  Whole a{t0,asked}; if (to) cppqedutils::advanceTo(a,d,std::clog); else cppqedutils::advance(a,d,std::clog); out[0]=a.t; out[1]=a.k;
}

// records what run() makes it do: asked[k], the time streamed at display i, state written at save j; its k-th step leaves a remainder exp(s[k]) up to target, the m-th one reaches target; with m=0, every step is as long as asked
struct Rec {double *asked, *shown, *saved; const double* s; int m, k=0, n=0, w=0, end=0; double stop;};
struct Run
{
  typedef double StreamedArray;
  double t, target; Rec* r; double dtDid=0;
  double getTime() const {return t;}
  double getDtDid() const {return dtDid;}
  void step(double dt, std::ostream&) {r->asked[r->k]=dt; double n=t+dt; if (r->m) n=r->k+1<r->m ? target-std::exp(r->s[r->k]) : target; dtDid=n-t; t=n; ++r->k;}
  std::tuple<std::ostream&,double> stream(std::ostream& os, int) const {r->shown[r->n++]=t; return {os,t};}
  std::ostream& streamKey(std::ostream& os) const {return os;}
  std::ostream& streamParameters(std::ostream& os) const {return os;}
  std::ostream& logOnEnd(std::ostream& os) const {r->end++; return os;}
  template<typename A> A& stateIO(A& a) {r->saved[r->w++]=t; return a;}
  cppqedutils::iarchive& readFromArrayOnlyArchive(cppqedutils::iarchive& a) {return a;}
};
namespace {
struct Stop {Rec* r; void operator()(double v) const {if (r->stop && v>r->stop) throw cppqedutils::trajectory::StoppingCriterionReachedException();}};
}
template<> struct cppqedutils::trajectory::MakeSerializationMetadata<Run> {static auto _() {return SerializationMetadata("a","b",0);}};
// the frame of writing the state: the trajectory is serialised once
extern "C" void contract_write(Run& t, std::shared_ptr<std::ostream>) {t.r->saved[t.r->w++]=t.t;}
namespace {
template<typename L, typename D> void dorun(double t0, double target, L length, D freq, int sdf, int first, double stop, int show, int m, double* s, double* asked, double* shown, double* saved, double* out)
{
  Rec r{asked,shown,saved,s,m}; r.stop=stop; Run t{t0,target,&r}; const std::string no;
  cppqedutils::trajectory::run(t,length,freq,unsigned(sdf),no,no,6,false,bool(first),no,bool(show),false,Stop{&r});
  out[0]=t.t; out[1]=r.k; out[2]=r.n; out[3]=r.w; out[4]=r.end;
}
}
extern "C" void h_run_T_Dt(double t0, double target, double length, double freq, int sdf, int first, double stop, int show, int m, double* s, double* asked, double* shown, double* saved, double* out)
{
  dorun(t0,target,length,freq,sdf,first,stop,show,m,s,asked,shown,saved,out);
}
extern "C" void h_run_N_Dt(double t0, double target, long length, double freq, int sdf, int first, double stop, int show, int m, double* s, double* asked, double* shown, double* saved, double* out)
{
  dorun(t0,target,length,freq,sdf,first,stop,show,m,s,asked,shown,saved,out);
}
extern "C" void h_run_T_dc(double t0, double target, double length, int freq, int sdf, int first, double stop, int show, int m, double* s, double* asked, double* shown, double* saved, double* out)
{
  dorun(t0,target,length,freq,sdf,first,stop,show,m,s,asked,shown,saved,out);
}
