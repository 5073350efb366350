#include "world.hpp"
#include "src/objects/object_ground.hpp"
#include "src/objects/object_bump.hpp"
#include "src/objects/object_curve.hpp"
#include "src/objects/object_gate.hpp"
#include "src/objects/object_ramp.hpp"
#include "src/objects/object_silo.hpp"
#if PROP==10
static TV nrm(const ObjectGeneral& o, const TV& x){ alignas(64) static unsigned char buf[128]; for(unsigned i=0;i<sizeof buf/8;i++){ double g=7; memcpy(buf+8*i,&g,8);} auto* p=new(buf) TV(o.normal(x)); return *p; }
static void terrain(In& in, Rep& r){
  int k=in.i("shape",0,D_==3?5:4); double par=in("par",-1,1); BC bcs[3]={BC::NoSlip,BC::SlipStick,BC::SlipFree}; BC b=bcs[in.i("bc",0,2)]; double mu=in("mu",0,1);
  std::unique_ptr<ObjectGeneral> o; double sc=1; TV c=TV::Zero();
  if(k==0){ auto q=std::make_unique<ObjectGround>(b,mu,"",par); r.exact("ground height",q->y_ground,par); o=std::move(q); c(1)=par; }
  else if(k==1) o=std::make_unique<ObjectCurve>(b,mu,""); else if(k==2){ o=std::make_unique<ObjectBump>(b,mu,""); c(0)=0.43; sc=0.15; }
  else if(k==3){ auto q=std::make_unique<ObjectGate>(b,mu,"",par); r.exact("gate height",q->height,par); o=std::move(q); c(1)=par; sc=0.2; } else if(k==4){ o=std::make_unique<ObjectRamp>(b,mu,""); sc=0.05; }
  else { auto q=std::make_unique<ObjectSilo>(b,mu,"",-1.5-par); r.exact("silo cut",q->cut,-1.5-par); o=std::move(q); sc=2; }
  r.ok("boundary condition stored", o->bc==b); r.exact("friction stored", o->friction, mu);
  // bracket a surface point on a random segment
  TV A,B; bool ok=false; for(int t=0;t<200&&!ok;t++){ for(int a=0;a<D_;a++){ A(a)=c(a)+sc*(2*in.u()-1); B(a)=c(a)+sc*(2*in.u()-1);} if(k==3) { A(1)=par+4*(2*in.u()-1)*0.5; B(1)=par+2*(2*in.u()-1);} if(k==5&&(A(1)<-0.2||B(1)<-0.2)) continue; if(k==4||k==2){ A(1)=0.2*(2*in.u()-1); B(1)=0.2*(2*in.u()-1);} ok=o->inside(A)!=o->inside(B); }
  if(!ok) return; if(o->inside(B)) std::swap(A,B); for(int t=0;t<80;t++){ TV M=(A+B)/2; (o->inside(M)?A:B)=M; }
  TV n=nrm(*o,A); r.close("unit normal", n.norm(), 1, 1, 1e-12);
  TV any=c; for(int a=0;a<D_;a++) any(a)+=sc*(2*in.u()-1); any(0)+=1e-3; r.close("unit normal (any point)", nrm(*o,any).norm(), 1, 1, 1e-12);
  double e=1e-7*sc; r.ok("normal points to the free side", !o->inside(A+e*n) && o->inside(A-e*n));
  double h=2e-5*sc; for(int t=0;t<D_-1;t++){ TV d; for(int a=0;a<D_;a++) d(a)=2*in.u()-1; d-=d.dot(n)*n; if(d.norm()<0.1) continue; d/=d.norm(); double off[2]; bool good=true; for(int s=0;s<2;s++){ TV q=A+(s?-h:h)*d; double lo=-h,hi=h; if(!o->inside(q+lo*n)||o->inside(q+hi*n)){ good=false; break;} for(int i=0;i<60;i++){ double m=(lo+hi)/2; (o->inside(q+m*n)?lo:hi)=m; } off[s]=lo; }
    r.ok("normal orthogonal to the surface (bracket)", good); if(good) r.ok("normal orthogonal to the surface", std::abs(off[0]-off[1])<2e-3*h); }
}
std::vector<Drv> drivers(){ return {{"terrain",terrain,1}}; }
#else
static void plate(In& in, Rep& r){
  std::vector<PlateType> tp={PlateType::top,PlateType::bottom,PlateType::left,PlateType::right};
#ifdef THREEDIM
  tp.push_back(PlateType::front); tp.push_back(PlateType::back);
#endif
  Simulation s; set_consts(s); s.frame_dt=in.lg("frame_dt",1e-3,1); BC bcs[3]={BC::NoSlip,BC::SlipStick,BC::SlipFree}; int n=in.i("n",1,3);
  struct Ref{ double p,lo,up,vm,lf; TV v; PlateType t; BC b; double mu; }; std::vector<Ref> R;
  for(int i=0;i<n;i++){ Ref q; q.t=tp[in.i("type",0,tp.size()-1)]; q.p=in("pos",-1,1); q.lo=in("lo",-2,0); q.up=in("up",0,2); q.vm=in.lg("vmin",0.1,20); q.lf=in.b("ramp")?in("lf",0,3):0; q.v=rv(in,"v",3); q.b=bcs[in.i("bc",0,2)]; q.mu=in("mu",0,1);
#ifdef THREEDIM
    s.plates.push_back(std::make_unique<ObjectPlate>(q.p,q.t,q.b,q.mu,q.lo,q.up,q.v(0),q.v(1),q.v(2),q.vm,q.lf,"p"));
#else
    s.plates.push_back(std::make_unique<ObjectPlate>(q.p,q.t,q.b,q.mu,q.lo,q.up,q.v(0),q.v(1),q.vm,q.lf,"p"));
#endif
    R.push_back(q); }
  s.time=in.b("t0")?0:in("t",0,4)*s.frame_dt; int steps=in.i("steps",1,6);
  for(int k=0;k<steps;k++){ s.dt=in.lg("dt",1e-4,0.5)*s.frame_dt; { Quiet q; s.moveObjects(); }
    for(int i=0;i<n;i++){ auto&q=R[i]; auto&o=*s.plates[i]; if(std::abs(s.time-q.lf*s.frame_dt)<1e-12) return; TV v=q.v*(s.time<q.lf*s.frame_dt?1/q.vm:1.0); int ax=(q.t==PlateType::left||q.t==PlateType::right)?0:(q.t==PlateType::bottom||q.t==PlateType::top)?1:2; q.p+=s.dt*v(ax); if(ax<2){ q.lo+=s.dt*v(1-ax); q.up+=s.dt*v(1-ax); }
      r.close("face position",o.pos_object,q.p,1,1e-12); if(ax<2){ r.close("lower limit",o.pos_lower,q.lo,1,1e-12); r.close("upper limit",o.pos_upper,q.up,1,1e-12); }
      r.close("velocity x",o.vx_object,v(0),1,1e-12); r.close("velocity y",o.vy_object,v(1),1,1e-12);
#ifdef THREEDIM
      r.close("velocity z",o.vz_object,v(2),1,1e-12);
#endif
      r.ok("type and condition kept", o.plate_type==q.t && o.bc==q.b && o.friction==q.mu);
      double sg=(q.t==PlateType::left||q.t==PlateType::bottom||q.t==PlateType::back)?1:-1;
      for(int j=0;j<4;j++){ TV y; for(int a=0;a<D_;a++) y(a)=4*(2*in.u()-1); if(j==3) y(ax)=o.pos_object; if(j==2&&ax<2) y(1-ax)=in.b("e")?o.pos_upper:o.pos_lower; bool w= sg*(y(ax)-o.pos_object)<=0; if(ax<2) w=w&&y(1-ax)<o.pos_upper&&y(1-ax)>o.pos_lower; r.ok("occupied region", o.inside(y)==w); } }
    s.time+=s.dt; }
}
std::vector<Drv> drivers(){ return {{"plate",plate,1}}; }
#endif
