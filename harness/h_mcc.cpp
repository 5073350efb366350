// the Cam-clay return-mapping helpers on random inputs
#include "common.hpp"
bool MCCRMAExplicit(T& p, T& q, int& exit, T M, T p0, T beta, T mu, T K, T f_mu_prefac);
bool MCCRMAExplicitOnevar(T& p, T& q, int& exit, T M, T p0, T beta, T mu, T K);
bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T K, T xi, T epv);
bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T K, T xi, T epv);
static void go(In& in, Rep& r, int k){
  double M=in("M",0.3,1.8),p00=in.lg("p0",10,1e5),beta=in.u()<0.35?0:in("beta",0,0.8),K=in.lg("K",1e5,1e8),mu=K*in("mur",0.2,1),xi=in.u()<0.1?0:in.lg("xi",0.1,1e3),epv=in("epx",-2,2)/std::max(xi,1.0);
  double ph=k<2?p00:k==2?p00*std::exp(-xi*epv):std::max(1e-2,K*std::sinh(-xi*epv+std::asinh(p00/K)));
  double pt,qt; if(in.b("near")){ pt=ph*in("pr",-1.5,2); qt=M*ph*in("qr",0,2); } else { pt=-K*in("ts",-1,1)*in.lg("ta",1e-5,0.3); qt=mu*in.lg("qa",1e-5,0.1); } pt=std::max(-0.3*K,std::min(0.3*K,pt)); if(in.u()<0.05) qt=0; if(in.has("p")&&in.u()<0.5) pt=in.ov["p"]; if(in.has("q")&&in.u()<0.5) qt=std::abs(in.ov["q"]); in.put("pt",pt); in.put("qt",qt);
  double p=pt,q=qt; int e=0; bool b;
  { Quiet z; b= k==0?MCCRMAExplicit(p,q,e,M,p00,beta,mu,K,2*mu): k==1?MCCRMAExplicitOnevar(p,q,e,M,p00,beta,mu,K): k==2?MCCRMAImplicitExponentialOnevar(p,q,e,M,p00,beta,mu,K,xi,epv): MCCRMAImplicitSinhOnevar(p,q,e,M,p00,beta,mu,K,xi,epv); }
  double y=M*M*(pt-ph)*(pt+beta*ph)+qt*qt, sc=M*M*(std::abs(pt)+ph)*(std::abs(pt)+ph)+qt*qt;
  if(y< -1e-10*sc) r.ok("stress inside the ellipse moved",!b&&p==pt&&q==qt&&e==0);
  if(y>1e-10*sc) r.ok("stress outside the ellipse left alone",b);
  if(!b){ r.ok("answer 'inside' but stress changed",p==pt&&q==qt); return; }
  if(e) return; // the run is being stopped
  if(!std::isfinite(p)||!std::isfinite(q)){ r.fail("stress not finite"); return; } r.checks++;
  r.ok("negative shear stress",q>=0); double pc=ph; if(k==2) pc=p00*std::exp(-xi*(epv+(p-pt)/K)); if(k==3) pc=std::max(1e-2,K*std::sinh(-xi*(epv+(p-pt)/K)+std::asinh(p00/K)));
  if(q==0&&k>=2) return; // tip
  double d=q*q-M*M*(pc-p)*(beta*pc+p), s2=M*M*pc*pc*(1+beta)+q*q; double rel=k<2?1e-7:1e-6+1e-14*K*xi/std::max(1e-300,1.0)*0;
  if(!(std::abs(d)<=rel*s2)) r.fail("not on the ellipse: p=%.17g q=%.17g pc=%.17g defect %.3g of %.3g",p,q,pc,d,s2); r.checks++;
}
static void ex(In& in,Rep& r){ go(in,r,0);} static void ex1(In& in,Rep& r){ go(in,r,1);} static void ie(In& in,Rep& r){ go(in,r,2);} static void is(In& in,Rep& r){ go(in,r,3);}
std::vector<Drv> drivers(){ return {{"explicit",ex,1},{"implicit_exponential",ie,1},{"implicit_sinh",is,1},{"explicit_onevar",ex1,1}}; }
