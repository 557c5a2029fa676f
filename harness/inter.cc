#include "common.h"
#include "Mode.h"
#include "Qbit.h"
#include "Spin.h"
#include "JaynesCummings.h"
#include "CoupledModes.h"
#include "GeneralDicke.h"
namespace {
mode::Ptr mk(parameters::Table& table, int pic, int dim, double delta, double kappa, double kerr, const char* mod)
{
  mode::ParsPumpedLossy p(table,mod); p.cutoff=dim; p.delta=delta; p.kappa=kappa; p.nTh=0; p.eta=0.; p.omegaKerr=kerr; p.omegaKerrAlter=0;
  return mode::make(p,pic==0 ? QMP_IP : pic==1 ? QMP_UIP : QMP_SCH);
}
void apply(const structure::Interaction<2>* ia, int n1, int n2, double ta, double t0a, double t, double t0, double* psi, double* dpsia, double* dpsi)
{
  auto p(v2(psi,n1,n2)), da(v2(dpsia,n1,n2)), d(v2(dpsi,n1,n2));
  if (auto ha=dynamic_cast<const structure::Hamiltonian<2>*>(ia)) {ha->addContribution(ta,p,da,t0a); ha->addContribution(t,p,d,t0);}
}
}
extern "C" void h_jc_qbit(int qpic, int mpic, int dim, double deltaA, double gamma, double delta, double kappa, double gr, double gi, double ta, double t0a, double t, double t0, double* psi, double* dpsia, double* dpsi)
{
  parameters::Table table; qbit::ParsPumpedLossy q(table); q.delta=deltaA; q.gamma=gamma; q.eta=0.;
  auto qb=qbit::make(q,qpic==0 ? QMP_IP : qpic==1 ? QMP_UIP : QMP_SCH); auto m=mk(table,mpic,dim,delta,kappa,0,"m");
  auto ia=jaynescummings::make(qb,m,dc(gr,gi));
  apply(ia.get(),2,dim,ta,t0a,t,t0,psi,dpsia,dpsi);
}
extern "C" void h_jc_spin(int spic, int mpic, int twoS, int dim, double omega, double gamma, double delta, double kappa, double gr, double gi, double ta, double t0a, double t, double t0, double* psi, double* dpsia, double* dpsi)
{
  parameters::Table table; spin::Pars s(table); s.twoS=twoS; s.dim=0; s.omega=omega; s.gamma=gamma; s.theta=0; s.phi=0;
  spin::Ptr sp; if (spic==0) sp=std::make_shared<Spin>(s); else sp=std::make_shared<SpinSch>(s);
  auto m=mk(table,mpic,dim,delta,kappa,0,"m");
  auto ia=jaynescummings::make(sp,m,dc(gr,gi));
  apply(ia.get(),twoS+1,dim,ta,t0a,t,t0,psi,dpsia,dpsi);
}
extern "C" void h_coupledmodes(int kind, int pic1, int pic2, int n1, int n2, double delta1, double kappa1, double delta2, double kappa2, double ur, double ui, double ta, double t0a, double t, double t0, double* psi, double* dpsia, double* dpsi)
{
  parameters::Table table; auto m1=mk(table,pic1,n1,delta1,kappa1,0,"1"), m2=mk(table,pic2,n2,delta2,kappa2,0,"2");
  coupledmodes::Ptr ia;
  if (kind==0) ia=coupledmodes::make<coupledmodes::CM_NX>(m1,m2,dc(ur,ui));
  else if (kind==1) ia=coupledmodes::make<coupledmodes::CM_XX>(m1,m2,dc(ur,ui));
  else ia=coupledmodes::make<coupledmodes::CM_XX_RWA>(m1,m2,dc(ur,ui));
  apply(ia.get(),n1,n2,ta,t0a,t,t0,psi,dpsia,dpsi);
}
extern "C" void h_dicke(int mpic, int spic, int dim, int twoS, double delta, double kappa, double omega, double gamma, double ur, double ui, double yr, double yi, double ta, double t0a, double t, double t0, double* psi, double* dpsia, double* dpsi)
{
  parameters::Table table; spin::Pars s(table); s.twoS=twoS; s.dim=0; s.omega=omega; s.gamma=gamma; s.theta=0; s.phi=0;
  spin::Ptr sp; if (spic==0) sp=std::make_shared<Spin>(s); else sp=std::make_shared<SpinSch>(s);
  auto m=mk(table,mpic,dim,delta,kappa,0,"m");
  GeneralDicke<> ia(m,sp,dc(ur,ui),dc(yr,yi));
  apply(&ia,dim,twoS+1,ta,t0a,t,t0,psi,dpsia,dpsi);
}
