// random particle and trial states for the real Simulation::plasticity, compared with the contracts of C12 .. C15
#include "world.hpp"
bool MCCRMAExplicit(T& p, T& q, int& exit, T M, T p0, T beta, T mu, T K, T f_mu_prefac);
bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T K, T xi, T epv);
bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T K, T xi, T epv);
struct St { Simulation s; TM FT,U,V; TV h,n,h2; double t,r,t2,r2,p1,q1,p2,q2,sc; Particles a; bool el,iso; unsigned cnt; };
static void mk(St& z, In& in, PlasticModel pm, HardeningLaw hl, ElasticModel em){
  Simulation& s=z.s; s.Np=2; s.particles=Particles(2); s.reduce_verbose=true; s.exit=0; s.plastic_model=pm; s.hardening_law=hl; s.elastic_model=em;
  s.mu=in.lg("mu",1e3,1e7); s.lambda=s.mu*in("lamr",0,4); s.K=s.lambda+2*s.mu/D_; s.q_prefac=in.lg("q_prefac",0.4,2); s.d_prefac=1/s.q_prefac; s.e_mu_prefac=2*s.q_prefac*s.mu; s.f_mu_prefac=2*s.q_prefac*s.q_prefac*s.mu;
  double m=s.mu; s.dt=in.lg("dt",1e-6,1e-2); s.stress_tolerance=in.u()<0.5?1e-5:in.lg("tol",1e-6,1e-1);
  s.q_max=m*in.lg("qm",1e-3,0.3); s.q_min=s.q_max*in("qr",0,1); s.q_cohesion=in.u()<0.3?0:m*in.lg("qc",1e-4,0.1); s.M=in("M",0.2,1.8); s.mu_1=in("mu_1",0.1,1); s.mu_2=s.mu_1+in("dmu",0,1); s.fac_Q=in.lg("Q",1e-4,1); s.p_min=-m*in("pm",0,0.3);
  s.p0=m*in.lg("p0",1e-3,0.2); s.beta=in.u()<0.3?0:in("beta",0,0.8); s.xi=in.u()<0.25?0:in("xi",0,10); s.visc_time=s.dt*in.lg("vt",1e-3,1e3); s.visc_exponent=in.u()<0.5?1:in("vn",0.3,1.8);
  s.use_pradhana=in.b("use_pradhana"); s.use_mibf=in.b("use_mibf"); s.use_duvaut_lions_formulation=in.b("use_duvaut_lions_formulation");
  TM A=rm(in,"A",1),B=rm(in,"Bm",1); Eigen::HouseholderQR<TM> qa(A),qb(B); TM U0=qa.householderQ(), V0=qb.householderQ();
  TV h; double a=in.lg("amp",1e-4,0.4); for(int k=0;k<D_;k++) h(k)=in("h"+std::to_string(k),-1,1)*a+in("iso",-1,1)*a*(k==0?1:0)*0; double t0=in("tv",-1,1)*a; for(int k=0;k<D_;k++) h(k)+=t0; if(in.u()<0.05) for(int k=0;k<D_;k++) h(k)=t0;
  TV eh; for(int k=0;k<D_;k++) eh(k)=std::exp(h(k)); z.FT=U0*eh.asDiagonal()*V0.transpose();
  Eigen::JacobiSVD<TM> svd(z.FT,Eigen::ComputeFullU|Eigen::ComputeFullV); z.U=svd.matrixU(); z.V=svd.matrixV(); for(int k=0;k<D_;k++) z.h(k)=std::log(svd.singularValues()(k));
  z.t=z.h.sum(); TV d=z.h-z.t/D_*TV::Ones(); z.r=d.norm(); z.iso=z.r<1e-9; z.n=z.r>0?TV(d/z.r):d;
  for(int p=0;p<2;p++){ s.particles.F[p]=z.FT; s.particles.tau[p]=rm(in,"tau",100); s.particles.eps_pl_dev[p]=in("epd",0,0.3); s.particles.eps_pl_vol[p]=in("epv",-0.1,0.1); s.particles.eps_pl_vol_pradhana[p]=in.b("prz")?0:in("prad",-0.02,0.02); s.particles.delta_gamma[p]=in("dg",0,1); s.particles.viscosity[p]=in("vi",0,1); s.particles.muI[p]=in("muI",0,1.5); }
  s.particles.F[0]=TM::Identity()+rm(in,"F0",0.1);
  z.p1=-s.K*z.t; z.q1=s.e_mu_prefac*z.r; z.sc=s.mu+s.lambda;
}
static bool run(St& z, In& in, Rep& r){
  Simulation& s=z.s; z.a=s.particles; unsigned c=7; TM F=z.FT; { Quiet q; s.plasticity(1,c,F); } z.cnt=c-7; if(s.exit) return false;
  auto& P=s.particles; z.el=P.F[1]==z.FT;
  if(!P.F[1].allFinite()||!P.tau[1].allFinite()){ r.fail("deformation or stress not finite"); return false; }
  TM G=z.U.transpose()*P.F[1]*z.V; for(int i=0;i<D_;i++) for(int j=0;j<D_;j++) if(i!=j) r.close("final deformation keeps the principal directions",G(i,j),0,G.norm(),1e-9);
  for(int k=0;k<D_;k++){ if(!(G(k,k)>0)){ r.fail("final deformation has a non-positive principal stretch"); return false; } z.h2(k)=std::log(G(k,k)); }
  z.t2=z.h2.sum(); TV d2=z.h2-z.t2/D_*TV::Ones(); z.r2=d2.dot(z.n); z.p2=-s.K*z.t2; z.q2=s.e_mu_prefac*z.r2; (void)in; return true;
}
static const PlasticModel PM[]={PlasticModel::NoPlasticity,PlasticModel::VM,PlasticModel::DP,PlasticModel::DPSoft,PlasticModel::MCC,PlasticModel::VMVisc,PlasticModel::DPVisc,PlasticModel::MCCVisc,PlasticModel::DPMui,PlasticModel::MCCMui};
static const HardeningLaw HL[]={HardeningLaw::NoHard,HardeningLaw::ExpoExpl,HardeningLaw::SinhExpl,HardeningLaw::ExpoImpl,HardeningLaw::SinhImpl};
enum {NO,VM_,DP_,DPS,MCC_,VMV,DPV,MCCV,DPM,MCCM};
static bool cam(int m){ return m==MCC_||m==MCCV||m==MCCM; }
struct Rma { bool on; double p,q,pc; int ex; };
static double lawv(Simulation& s,int hl,double ev){ double w= hl==0? s.p0 : (hl==1||hl==3)? s.p0*std::exp(-s.xi*ev) : s.K*std::sinh(-s.xi*ev+std::asinh(s.p0/s.K)); if(hl==1||hl==2) w=std::max(s.stress_tolerance,w); if(hl==4) w=std::max(1e-2,w); return w; }
static Rma rma(St& z,int m,int hl){ Simulation& s=z.s; Rma o; o.p=z.p1;o.q=z.q1;o.ex=0; double M=m==MCCM?s.mu_1:s.M, ev=z.a.eps_pl_vol[1]; Quiet q; if(hl<3){ o.pc=lawv(s,hl,ev); o.on=MCCRMAExplicit(o.p,o.q,o.ex,M,o.pc,s.beta,s.mu,s.K,s.f_mu_prefac);} else if(hl==3) o.on=MCCRMAImplicitExponentialOnevar(o.p,o.q,o.ex,M,s.p0,s.beta,s.mu,s.K,s.xi,ev); else o.on=MCCRMAImplicitSinhOnevar(o.p,o.q,o.ex,M,s.p0,s.beta,s.mu,s.K,s.xi,ev); if(hl>=3) o.pc=lawv(s,hl,ev+(o.p-z.p1)/s.K); return o; }
#define LE(what,a,b,tol) r.ok(what,(a)<=(b)+(tol))
static void model(In& in, Rep& r, int m){
  int hl= cam(m)? in.i("hl",m==MCCM?1:0,4) : 0; St z; mk(z,in,PM[m],HL[hl],ElasticModel::Hencky); if(!run(z,in,r)) return; Simulation& s=z.s; auto& P=s.particles; auto& A=z.a; double tol=1e-8*z.sc;
  double K=s.K,M=s.M,c=s.q_cohesion,sh=s.use_pradhana?-K*A.eps_pl_vol_pradhana[1]:0, ed=A.eps_pl_dev[1], ev=A.eps_pl_vol[1]; (void)ev;
#if PROP==12
  TV pr; for(int k=0;k<D_;k++) pr(k)=s.lambda*z.t2+2*s.mu*z.h2(k); TM w=z.U*pr.asDiagonal()*z.U.transpose();
  for(int i=0;i<D_;i++) for(int j=0;j<D_;j++) r.close("stress is the Hencky law of the stored deformation",P.tau[1](i,j),w(i,j),z.sc,1e-9);
  if(m==NO) r.ok("without plasticity the trial deformation is stored",z.el);
  r.ok("other particle untouched",P.tau[0]==A.tau[0]&&P.F[0]==A.F[0]);
#elif PROP==13
  auto same=[&](bool adm,const char* w){ if(adm) r.ok(w,z.el&&P.eps_pl_dev[1]==A.eps_pl_dev[1]&&P.eps_pl_vol[1]==A.eps_pl_vol[1]&&z.cnt==0); };
  if(m<=MCC_&&!z.iso) r.ok("shear direction reversed",z.q2>=-tol);
  if(m==VM_){ same(z.q1<=s.q_max-tol,"admissible trial state altered"); LE("shear stress above the strength",z.q2,s.q_max,tol); if(z.q1>s.q_max+tol){ r.close("return onto the strength",z.q2,s.q_max,z.sc,1e-8); r.close("return at constant pressure",z.p2,z.p1,z.sc,1e-8);} }
  if(m==DP_){ double y=M*z.p1+c; same(z.q1<=y-tol&&y>tol,"admissible trial state altered"); LE("stress outside the cone",z.q2,M*z.p2+c,tol); if(y<-tol){ r.close("tip pressure",M*z.p2+c,0,z.sc,1e-8); r.close("tip shear",z.q2,0,z.sc,1e-8);} else if(y>tol&&z.q1>y+tol){ r.close("constant pressure",z.p2,z.p1,z.sc,1e-8); r.close("onto the cone",z.q2,y,z.sc,1e-8);} }
  if(m==DPS){ double tip=-c/M*std::exp(-s.xi*ed); same(z.q1<=M*(z.p1+sh-tip)-tol&&z.p1+sh>tip+tol,"admissible trial state altered"); r.ok("stress outside the cone of the previous state",z.q2<=M*(z.p2+sh-tip)+tol||std::abs(z.q2)<=tol); if(z.p1+sh<tip-tol){ r.close("tip pressure",z.p2,tip,z.sc,1e-8); r.close("tip shear",z.q2,0,z.sc,1e-8);} }
  if(cam(m)){ double Mm=m==MCCM?s.mu_1:M, pc=lawv(s,hl,ev), y=Mm*Mm*(z.p1-pc)*(z.p1+s.beta*pc)+z.q1*z.q1; double sc2=z.sc*z.sc; same(y<-1e-9*sc2,"admissible trial state altered");
    if(m==MCC_&&y>1e-9*sc2){ r.ok("overstressed state left alone",!z.el&&z.cnt==1); double pf=hl<3?pc:lawv(s,hl,P.eps_pl_vol[1]); if(std::abs(z.q2)>1e-6*z.sc||hl<3){ double b=M*M*(pf-z.p2)*(z.p2+s.beta*pf); if(z.iso) LE("outside the ellipse",z.q2*z.q2,b,1e-7*sc2); else r.ok("not on the ellipse of the hardened consolidation pressure",std::abs(z.q2*z.q2-b)<=1e-7*(M*M*pf*pf+z.q2*z.q2)+1e-9*sc2*(1e-3)||std::abs(z.q2)<1e-6*z.sc); } } }
  if(m==VMV){ double qy=s.q_min+(s.q_max-s.q_min)*std::exp(-s.xi*ed), cap=s.p_min*std::exp(-s.xi*ev); same(z.q1<=qy-tol&&z.p1>=cap+tol,"admissible trial state altered"); if(z.p1<cap-tol){ r.close("tensile failure pressure",z.p2,0,z.sc,1e-8); r.close("tensile failure shear",z.q2,0,z.sc,1e-8);} if(z.el&&z.q1>tol) r.ok("inadmissible state left alone",z.q1<=qy+tol&&z.p1>=cap-tol); }
  if(m==DPV){ double y=M*(z.p1+sh)+c; same(z.q1<=y-tol&&y>tol,"admissible trial state altered"); if(y<-tol){ r.close("tip pressure",M*z.p2+c,0,z.sc,1e-8); r.close("tip shear",z.q2,0,z.sc,1e-8);} else if(y>tol&&z.el) LE("inadmissible state left alone",z.q1,y,tol); }
  if(m==DPM){ double y=s.mu_1*(z.p1+sh)+c; same(z.q1<=y-tol&&y>tol,"admissible trial state altered"); if(y<-tol){ r.close("tip pressure",s.mu_1*z.p2+c,0,z.sc,1e-8); r.close("tip shear",z.q2,0,z.sc,1e-8);} else if(y>tol&&z.el) LE("inadmissible state left alone",z.q1,y+s.stress_tolerance,tol); }
#elif PROP==14
  r.ok("other particle untouched",P.tau[0]==A.tau[0]&&P.F[0]==A.F[0]&&P.eps_pl_dev[0]==A.eps_pl_dev[0]&&P.eps_pl_vol[0]==A.eps_pl_vol[0]&&P.delta_gamma[0]==A.delta_gamma[0]&&P.muI[0]==A.muI[0]&&P.viscosity[0]==A.viscosity[0]&&P.eps_pl_vol_pradhana[0]==A.eps_pl_vol_pradhana[0]);
  r.ok("position or velocity changed",P.x[1]==A.x[1]&&P.v[1]==A.v[1]);
  if(m==NO) return; 
  TV d2=z.h2-z.t2/D_*TV::Ones(); if(!z.iso) for(int k=0;k<D_;k++) r.close("deviatoric direction",d2(k),z.r2*z.n(k),1,1e-9);
  if(!(z.iso&&cam(m))) r.close("plastic volume strain",P.eps_pl_vol[1]-ev,z.t-z.t2,1,1e-9); bool dev=!(z.iso&&cam(m)); double qy=0;
  if(m==MCCM){ Rma o=rma(z,m,hl); qy=o.q; if(o.on&&z.q1<=qy+2*s.stress_tolerance+tol) dev=false; }
  if(dev){ r.close("plastic shear strain",P.eps_pl_dev[1]-ed,z.r-z.r2,1,1e-9); if(z.el) r.ok("elastic rate",P.delta_gamma[1]==A.delta_gamma[1]||P.delta_gamma[1]==0); else if(!(m==DPM&&std::abs(z.r2)<1e-9)) r.close("plastic strain rate",P.delta_gamma[1]*s.dt,s.d_prefac*(z.r-z.r2),1,1e-8); }
  if(!cam(m)&&!z.el) r.ok("plastic shear strain decreases",z.r-z.r2>=-1e-9);
#elif PROP==15
  if(z.iso||m<MCC_) return; double F=s.f_mu_prefac,dt=s.dt,tv=s.visc_time,n=s.visc_exponent,g=P.delta_gamma[1]*dt; bool dl=s.use_duvaut_lions_formulation;
  auto visc=[&](double qy,double q2,double g,bool closed){ double res= dl? z.q1-qy-F*(std::pow(tv/dt*g,n)+g) : q2*std::pow(dt/(tv*g+dt),n)-qy; if(!(std::abs(res)<=(closed?0:1e-2)+tol*(1+tv/dt))) r.fail("viscous overstress law (%s): residual %.6g stress units (yield %.6g, trial %.6g, final %.6g)",dl?"Duvaut-Lions":"Perzyna",res,qy,z.q1,q2); r.checks++; };
  if(m==VMV){ double qy=s.q_min+(s.q_max-s.q_min)*std::exp(-s.xi*ed), cap=s.p_min*std::exp(-s.xi*ev); if(z.el||z.p1<cap+tol||z.q1<qy+tol) return; bool closed=n==1&&s.xi==0; visc(s.q_min+(s.q_max-s.q_min)*std::exp(-s.xi*(closed?ed:P.eps_pl_dev[1])),z.q2,g,closed); }
  if(m==DPV){ double y=M*(z.p1+sh)+c; if(z.el&&s.use_mibf){ r.exact("elastic: internal friction",P.muI[1],M); } if(z.el||y<tol||z.q1<y+tol) return; visc(y,z.q2,g,n==1); if(s.use_mibf&&std::abs(z.p1+sh)>1e-6*z.sc) r.close("internal friction",P.muI[1]*(z.p1+sh),z.q2-c,z.sc,1e-8); }
  if(m==MCC_||m==MCCV){ Rma o=rma(z,m,hl); if(z.el){ if(s.use_mibf) r.exact("elastic: internal friction",P.muI[1],M); return; } if(!o.on||o.ex) return; double qs=o.q;
    if(m==MCCV&&dl){ r.close("Duvaut-Lions shear stress",(z.q2-o.q)*(1+tv/dt),(z.q1-o.q)*(tv/dt),z.sc*(1+tv/dt),1e-8); r.close("Duvaut-Lions pressure",(z.p2-o.p)*(1+tv/dt),(z.p1-o.p)*(tv/dt),z.sc*(1+tv/dt),1e-8); }
    else if(m==MCCV){ r.close("pressure of the return mapping",z.p2,o.p,z.sc,1e-8); LE("shear stress below yield",o.q,z.q2,tol); if(z.q2>o.q+tol) visc(o.q,z.q2,(z.q1-z.q2)/F,n==1); qs=z.q2; }
    else { r.close("final shear stress",z.q2,o.q,z.sc,1e-8); r.close("final pressure",z.p2,o.p,z.sc,1e-8); }
    if(s.use_mibf){ double evf=hl>=3?P.eps_pl_vol[1]:ev; double w= hl==0?s.p0:(hl==1||hl==3)?s.p0*std::exp(-s.xi*evf):s.K*std::sinh(-s.xi*evf+std::asinh(s.p0/s.K)); if(hl==1||hl==2) w=std::max(w,s.stress_tolerance); if(hl>=3) w=std::max(w,0.0); double ar=(o.p+s.beta*w)*(w-o.p), mg=1e-4*w; if(o.p>-s.beta*w+mg+s.stress_tolerance&&o.p<w-mg-s.stress_tolerance) r.close("internal friction is the slope through the stress point",P.muI[1]*std::sqrt(ar),qs,w,1e-6*(1+z.sc/w*1e-3)); else if(o.p< -s.beta*w-mg||o.p>w+mg) r.close("internal friction at a tip",P.muI[1],M,1); } }
  double m1=s.mu_1,m2=s.mu_2,Q=s.fac_Q,mu=P.muI[1]; g/=dt;
  auto law=[&](double over,double rt,double drive,double pv,double q1,double qy){ r.ok("positive plastic strain rate",g>0); r.ok("internal friction outside its bounds",mu>=m1-1e-12&&mu<=m2+1e-12); r.close("mu(I) overstress law",over*(g+Q*rt),(m2-m1)*drive*g,z.sc*(g+Q*rt),1e-7); r.close("internal friction is mu(I)",(mu-m1)*(Q*rt+g),(m2-m1)*g,Q*rt+g,1e-7); r.close("viscosity",P.viscosity[1]*g,(mu-m1)*pv,pv,1e-7); (void)q1;(void)qy; };
  if(m==DPM){ double y=m1*(z.p1+sh)+c; if(z.el||y<-tol){ if(y>tol||y<-tol){ r.exact("no flow: internal friction",mu,m1); r.exact("no flow: viscosity",P.viscosity[1],0); } return; } if(y<tol||z.q1<y+s.stress_tolerance+1e3*tol) return; double ps=z.p1+sh+c/m1+s.stress_tolerance; law(z.q2-y,std::sqrt(ps),z.p1,ps,z.q1,y); }
  if(m==MCCM){ Rma o=rma(z,m,hl); if(z.el){ r.exact("no flow: internal friction",mu,m1); r.exact("no flow: viscosity",P.viscosity[1],0); return; } if(!o.on||o.ex) return; r.close("pressure of the return mapping",z.p2,o.p,z.sc,1e-8); if(z.q1<o.q+s.stress_tolerance+1e3*tol) return; LE("shear stress below yield",o.q,z.q2,tol); if(z.q2<=o.q+1e3*tol||(hl>=3&&o.q<=tol)) return;
    double evf=hl>=3?P.eps_pl_vol[1]:ev; double w=(hl==1||hl==3)?s.p0*std::exp(-s.xi*evf):s.K*std::sinh(-s.xi*evf+std::asinh(s.p0/s.K)); w=std::max(w,hl>=3?o.p+s.stress_tolerance:s.stress_tolerance); double ps=o.p+s.beta*w+s.stress_tolerance; if(ps<1e-7*z.sc||w-o.p<1e-7*z.sc) return; double root=std::sqrt((w-o.p)*ps); law(z.q2-o.q,std::sqrt(ps),root,root,z.q1,o.q); }
#endif
}
#if PROP==12
static void neo(In& in, Rep& r){ int m=in.b("plastic")?in.i("model",NO,VM_):NO; St z; mk(z,in,PM[NO],HL[0],ElasticModel::NeoHookean); (void)m; if(z.FT.determinant()<=1e-3) z.FT.col(0)*=-1; if(z.FT.determinant()<=1e-3) return; z.s.particles.F[1]=z.FT; { unsigned c=0; TM F1=z.FT; Quiet q; z.s.plasticity(1,c,F1); } Simulation& s=z.s; TM F=s.particles.F[1]; r.ok("trial deformation stored",F==z.FT); TM w=s.mu*(F*F.transpose()-TM::Identity())+s.lambda*std::log(F.determinant())*TM::Identity(); for(int i=0;i<D_;i++) for(int j=0;j<D_;j++) r.close("neo-Hookean law",s.particles.tau[1](i,j),w(i,j),z.sc*(1+F.squaredNorm()),1e-9); }
#endif
static void inelastic(In& in, Rep& r){ model(in,r,in.i("model",VM_,MCCM)); }
static void camclay(In& in, Rep& r){ static const int c[3]={MCC_,MCCV,MCCM}; model(in,r,c[in.i("cam",0,2)]); }
static void viscous(In& in, Rep& r){ model(in,r,in.i("visc",VMV,DPV)); }
static void elastic(In& in, Rep& r){ model(in,r,NO); }
std::vector<Drv> drivers(){ std::vector<Drv> d={{"return_mapping",inelastic,1},{"cam_clay",camclay,1},{"viscous",viscous,1}};
#if PROP==12
  d.push_back({"elastic",elastic,4}); d.push_back({"neo_hookean",neo,4});
#else
  (void)elastic;
#endif
  return d; }
