#include "world.hpp"
struct Half : ObjectGeneral { TV n; double c; Half(BC b,double f,TV n_,double c_):ObjectGeneral(b,f,"half"),n(n_),c(c_){} bool inside(const TV&x) const override { return x.dot(n)<=c; } TV normal(const TV&) const override { return n; } };
static TV unit(In& in){ TV n; do{ n=rv(in,"n",1);}while(n.norm()<0.05); if(in.u()<0.2){ n.setZero(); n(in.i("ax",0,D_-1))=in.b("sg")?1:-1; } return n/n.norm(); }
static TV slip(const TV& t, double dn, double mu){ double s=t.norm(), f=mu*std::abs(dn); if(s<=f||s==0) return TV::Zero(); return t*((s-f)/s); }
static void contact(In& in, Rep& r){
  Simulation s; s.dx=1; set_consts(s); s.reduce_verbose=true; s.dt=in.lg("dt",1e-4,1); s.use_mibf= PROP==9 && in.b("mibf"); s.grid.friction={in("f0",0,2),in("f1",0,2),in("f2",0,2)}; s.grid_nodes=3; int idx=in.i("idx",0,2);
  TV X=rv(in,"X",1), v=rv(in,"v",4); if(in.u()<0.2) v(in.i("zc",0,D_-1))=0; TV v0=v, Y=X+s.dt*v, w=v; BC bcs[3]={BC::NoSlip,BC::SlipStick,BC::SlipFree};
  int no=in.i("nobj",0,2), npl=in.i("nplate",0,2); if(no+npl==0) npl=1; bool sep=false; std::string log; double margin=1e9;
  std::vector<PlateType> tp={PlateType::top,PlateType::bottom,PlateType::left,PlateType::right};
#ifdef THREEDIM
  tp.push_back(PlateType::front); tp.push_back(PlateType::back);
#endif
  int hits=0; TV ln=TV::Zero(), lvo=TV::Zero(); BC lb=BC::NoSlip; double ldn=0; bool any=false;
  auto step=[&](BC b,const TV& n,const TV& vo,double mu,bool plate){ hits++; TV u=w-vo; double dn=u.dot(n); ln=n; lvo=vo; lb=b; ldn=dn; any=true; TV t=u-dn*n; margin=std::min(margin, std::abs(t.norm()-mu*std::abs(dn))); margin=std::min(margin,std::abs(dn)); if(b==BC::NoSlip) u.setZero(); else if(b==BC::SlipFree){ if(dn<0) u=slip(t,dn,mu); } else { if(dn<0) u=slip(t,dn,mu); else { u=t; if(plate&&mu>0) sep=true; } } w=u+vo; };
  std::vector<double> fr; for(int i=0;i<no+npl;i++) fr.push_back(PROP==9? (in.u()<0.2?0:in("mu",0,1.5)) : 0);
  for(int i=0;i<no;i++){ TV n=unit(in); double c=in("c",-1.5,1.5); BC b=bcs[in.i("bc",0,2)]; s.objects.push_back(std::make_unique<Half>(b,fr[i],n,c)); margin=std::min(margin,std::abs(Y.dot(n)-c)); if(Y.dot(n)<=c) step(b,n,TV::Zero(),s.use_mibf?s.grid.friction[idx]:fr[i],false); }
  for(int i=0;i<npl;i++){ PlateType t=tp[in.i("type",0,tp.size()-1)]; double pos=in("pos",-1.5,1.5), lo=in("lo",-3,0.2), up=in("up",-0.2,3); BC b=bcs[in.i("bc",0,2)]; TV vo=rv(in,"vo",2); if(in.b("still")) vo.setZero();
#ifdef THREEDIM
    auto p=std::make_unique<ObjectPlate>(pos,t,b,fr[no+i],lo,up,vo(0),vo(1),vo(2));
#else
    auto p=std::make_unique<ObjectPlate>(pos,t,b,fr[no+i],lo,up,vo(0),vo(1));
#endif
    s.plates.push_back(std::move(p));
    int ax= (t==PlateType::left||t==PlateType::right)?0:(t==PlateType::bottom||t==PlateType::top)?1:2; double sg=(t==PlateType::left||t==PlateType::bottom||t==PlateType::back)?1:-1; TV n=TV::Zero(); n(ax)=sg;
    bool in_= sg*Y(ax)<=sg*pos; margin=std::min(margin,std::abs(Y(ax)-pos)); if(ax<2){ double l=Y(1-ax); in_=in_ && l<up && l>lo; margin=std::min(margin,std::min(std::abs(l-up),std::abs(l-lo))); }
    if(in_) step(b,n,vo,s.use_mibf?s.grid.friction[idx]:fr[no+i],true); }
  { Quiet q; s.boundaryCollision(idx,X,v); }
  if(margin<1e-9) return; // too close to a case boundary to predict
  r.ok("finite", v.allFinite());
  if(!sep) r.vclose("velocity after contact", v, w, 4, 1e-9);
  if(any && sep) return; // a separating constrained plate: only bounds of its friction are specified
  if(any){ double vn=(v-lvo).dot(ln); if(lb==BC::NoSlip) r.vclose("last obstacle: no slip", v, lvo, 4, 1e-9); else if(lb==BC::SlipStick||ldn<0) r.close("last obstacle: normal velocity", vn, 0, 4, 1e-9); }
  else r.vclose("no contact: unchanged", v, v0, 1, 1e-15);
}
#if PROP==9
static void fricmean(In& in, Rep& r){
  Simulation s; mkgrid(s,in); mkparticles(s,in,in.i("np",1,4)); s.use_mibf=true; auto P=s.particles; { Quiet q; s.P2G(); }
  std::vector<double> m(s.grid_nodes,0), f(s.grid_nodes,0); for(unsigned p=0;p<s.Np;p++) for(auto&w: stencil(s,P.x[p])){ m[w.l]+=w.w; f[w.l]+=w.w*P.muI[p]; }
  for(unsigned l=0;l<s.grid_nodes;l++) if(m[l]>1e-9) r.close("nodal friction is the weighted mean", s.grid.friction[l], f[l]/m[l], 1, 1e-7);
}
std::vector<Drv> drivers(){ return {{"contact",contact,1},{"nodal_friction",fricmean,20}}; }
#else
std::vector<Drv> drivers(){ return {{"contact",contact,1}}; }
#endif
