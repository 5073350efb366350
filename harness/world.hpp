// random states satisfying the preconditions of the transfer contracts
#pragma once
#include "common.hpp"
struct World { Simulation s; };
inline TV rv(In& in, const std::string& n, double a){ TV v; for(int k=0;k<D_;k++) v(k)=in(n+"."+std::to_string(k),-a,a); return v; }
inline TM rm(In& in, const std::string& n, double a){ TM m; for(int i=0;i<D_;i++) for(int j=0;j<D_;j++) m(i,j)=in(n+"."+std::to_string(i)+std::to_string(j),-a,a); return m; }
inline void set_consts(Simulation& s){
  s.one_over_dx=1.0/s.dx; s.one_over_dx_square=s.one_over_dx*s.one_over_dx; s.apicDinverse=DINV/(s.dx*s.dx);
}
inline unsigned nodes(Simulation& s){
#ifdef THREEDIM
  return s.Nx*s.Ny*s.Nz;
#else
  return s.Nx*s.Ny;
#endif
}
inline std::vector<T>& gax(Simulation& s,int a){
#ifdef THREEDIM
  return a==0?s.grid.x:a==1?s.grid.y:s.grid.z;
#else
  return a==0?s.grid.x:s.grid.y;
#endif
}
inline T gc(Simulation& s,int a){
#ifdef THREEDIM
  return a==0?s.grid.xc:a==1?s.grid.yc:s.grid.zc;
#else
  return a==0?s.grid.xc:s.grid.yc;
#endif
}
inline unsigned gn(Simulation& s,int a){
#ifdef THREEDIM
  return a==0?s.Nx:a==1?s.Ny:s.Nz;
#else
  return a==0?s.Nx:s.Ny;
#endif
}
inline unsigned lin(Simulation& s, const int* q){ unsigned r=q[0]; for(int a=1;a<D_;a++) r=r*gn(s,a)+q[a]; return r; }
inline void mkgrid(Simulation& s, In& in){
  s.dx=in.lg("dx",1e-3,10); set_consts(s);
  s.Nx=in.i("Nx",4,9); s.Ny=in.i("Ny",4,8);
#ifdef THREEDIM
  s.Nz=in.i("Nz",4,7);
#endif
  s.grid_nodes=nodes(s);
  T c0=in("c0",-5,5)*s.dx, c1=in("c1",-5,5)*s.dx, c2=in("c2",-5,5)*s.dx; (void)c2;
  s.grid.xc=c0; s.grid.yc=c1;
#ifdef THREEDIM
  s.grid.zc=c2;
#endif
  for(int a=0;a<D_;a++){ auto& v=gax(s,a); v.resize(gn(s,a)); for(size_t i=0;i<v.size();i++) v[i]=gc(s,a)+i*s.dx; }
  unsigned n=s.grid_nodes;
  s.grid.v.assign(n,TV::Zero()); s.grid.flip.assign(n,TV::Zero()); s.grid.force.assign(n,TV::Zero()); s.grid.mass.assign(n,0); s.grid.friction.assign(n,0);
}
inline void randgrid(Simulation& s, In& in){
  for(unsigned l=0;l<s.grid_nodes;l++){ for(int a=0;a<D_;a++){ s.grid.v[l](a)=in("gv",-3,3); s.grid.flip[l](a)=in("gf",-1,1); s.grid.force[l](a)=in("gF",-2,2);} s.grid.mass[l]=in.u()<0.2?0:(in.u()<0.25?in.lg("gml",1e-14,1):in("gm",0.01,3)); s.grid.friction[l]=in("gmu",0,1); }
}
inline void mkparticles(Simulation& s, In& in, int np){
  s.Np=np; s.particles=Particles(np);
  for(int p=0;p<np;p++){
    for(int a=0;a<D_;a++){
      int m=in.i(std::string("m")+AXN[a],1,(int)gn(s,a)-3); double f=in(std::string("f")+AXN[a],0,0.999999);
      if(in.u()<0.05) f=0.5;
      s.particles.x[p](a)=gc(s,a)+(m+f)*s.dx;
      // keep strictly inside the cell range despite rounding
      double q=std::floor((s.particles.x[p](a)-gc(s,a))*s.one_over_dx); if(q<1) s.particles.x[p](a)=gc(s,a)+1.25*s.dx; if(q>(double)gn(s,a)-3) s.particles.x[p](a)=gc(s,a)+(gn(s,a)-3+0.3)*s.dx;
    }
    s.particles.v[p]=rv(in,"v",5); s.particles.pic[p]=rv(in,"pic",5); s.particles.flip[p]=rv(in,"flip",1);
    s.particles.Bmat[p]=rm(in,"B",1); s.particles.tau[p]=rm(in,"tau",100); s.particles.F[p]=TM::Identity()+rm(in,"F",0.2); s.particles.muI[p]=in("muI",0,1.5);
    s.particles.delta_gamma[p]=in("dg",0,1); s.particles.eps_pl_dev[p]=in("epd",0,1); s.particles.eps_pl_vol[p]=in("epv",-1,1);
  }
  s.particle_mass=in.lg("particle_mass",1e-3,10); s.particle_volume=in.lg("particle_volume",1e-3,10); s.dt=in.lg("dt",1e-6,1e-1);
  s.flip_ratio=in.i("scheme",0,3)==0?-2.0:in("flip_ratio",-1,1); if(in.u()<0.15) s.flip_ratio=in.u()<0.5?-1:0;
  if(in.has("flip_ratio")) s.flip_ratio=in.ov["flip_ratio"];
  s.n_threads=in.i("threads",1,3); s.reduce_verbose=in.b("reduce_verbose"); s.use_mibf=in.b("use_mibf"); s.use_musl=in.b("use_musl");
}
struct Wt { double w; TV g; int q[3]; unsigned l; TV d; };
inline std::vector<Wt> stencil(Simulation& s, const TV& xp){
  std::vector<Wt> out; int lo[3]={0,0,0},hi[3]={1,1,1};
  for(int a=0;a<D_;a++){ int b=(int)std::floor((xp(a)-gc(s,a))/s.dx); lo[a]=std::max(0,b-3); hi[a]=std::min((int)gn(s,a),b+5); }
  for(int i=lo[0];i<hi[0];i++)for(int j=lo[1];j<hi[1];j++)for(int k=lo[2];k<hi[2];k++){ Wt w; w.q[0]=i;w.q[1]=j;w.q[2]=k; double n[3]={1,1,1},g[3]={0,0,0};
    for(int a=0;a<D_;a++){ double xi=gax(s,a)[w.q[a]]; w.d(a)=xi-xp(a); double u=(xp(a)-xi)/s.dx; n[a]=refN(u); g[a]=refdN(u)/s.dx; }
    w.w=n[0]*n[1]*n[2]; for(int a=0;a<D_;a++){ double t=g[a]; for(int b=0;b<D_;b++) if(b!=a) t*=n[b]; w.g(a)=t; } w.l=lin(s,w.q); out.push_back(w); }
  return out;
}
