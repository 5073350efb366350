#include "common.hpp"
static void kern(In& in, Rep& r){
  double u = in("u",-3,3); if (in.u()<0.2) u = in("u2",-40,40); if(in.u()<0.1) u = in.i("k",-6,6)*0.5;
  r.close("N(u)", N(u), refN(u), 1e-3, 1e-11);
  bool kink = SPLINEDEG==1 && (u==0||u==1||u==-1);
  if(!kink) r.close("dN/du(u)", dNdu(u), refdN(u), 1e-3, 1e-11);
  double f=in("f",0,0.9999999); double s=0,m=0,g=0,gx=0,m2=0; bool k2 = SPLINEDEG==1 && f==0;
  for(int o=-4;o<=5;o++){ double w=N(f-o), d=dNdu(f-o); s+=w; m+=w*(o-f); g+=d; gx+=d*(o-f); m2+=w*(o-f)*(o-f); r.ok("N >= 0", w>=0); if(o<-1||o>2) { r.exact("support",w,0); if(!k2) r.exact("gradient support",d,0);} }
  r.close("sum of weights",s,1,1,1e-12); r.close("first moment",m,0,1,1e-12); if(!k2){ r.close("sum of gradients",g,0,1,1e-12); r.close("gradient of linear field",gx,1,1,1e-12);} 
  if(SPLINEDEG>1) r.close("second moment * inverse inertia", m2*DINV, 1, 1, 1e-12);
}
static void apic(In& in, Rep& r){
  Simulation s; s.is_initialized=true; s.save_sim=false; s.reduce_verbose=true; s.end_frame=0; s.dx=in.lg("dx",1e-3,10); s.Np=1; s.particles=Particles(1); s.particle_mass=1; s.particle_volume=1;
  s.simulate();
  if(SPLINEDEG>1) r.close("apic inverse inertia", s.apicDinverse*s.dx*s.dx, DINV, 1, 1e-12);
  r.close("1/dx", s.one_over_dx*s.dx, 1, 1, 1e-12);
}
std::vector<Drv> drivers(){ return {{"kernel",kern,1},{"apic_constant",apic,10}}; }
