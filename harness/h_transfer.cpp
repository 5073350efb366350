#include "world.hpp"
#ifndef PROP
#define PROP 2
#endif
// node-wise reference of the particle-to-grid transfer
static void p2g(In& in, Rep& r){
  Simulation s; mkgrid(s,in); mkparticles(s,in,in.i("np",1,6));
  std::vector<double> m(s.grid_nodes,0); std::vector<TV> mv(s.grid_nodes,TV::Zero()), f(s.grid_nodes,TV::Zero()); std::vector<double> fr(s.grid_nodes,0);
  auto P=s.particles; TV tot=TV::Zero(); double fs=0, vs=0;
  for(unsigned p=0;p<s.Np;p++){ for(auto&w: stencil(s,P.x[p])){ m[w.l]+=w.w*s.particle_mass; TV v=P.v[p]; if(s.flip_ratio<0) v+=P.Bmat[p]*w.d*s.apicDinverse; mv[w.l]+=s.particle_mass*w.w*v; f[w.l]+=P.tau[p]*w.g; fr[w.l]+=P.muI[p]*w.w*s.particle_mass; vs=std::max(vs,v.norm()); } tot+=s.particle_mass*P.v[p]; fs=std::max(fs,P.tau[p].norm()/s.dx);}
  s.P2G();
  double M=0; TV MV=TV::Zero(), FT=TV::Zero();
  for(unsigned l=0;l<s.grid_nodes;l++){ M+=s.grid.mass[l]; MV+=s.grid.mass[l]*s.grid.v[l]; FT+=s.grid.force[l];
    r.close("nodal mass",s.grid.mass[l],m[l],s.particle_mass);
    if(s.grid.mass[l]>0) r.vclose("nodal momentum",TV(s.grid.mass[l]*s.grid.v[l]),mv[l],s.particle_mass*vs); else r.vclose("velocity of an empty node",s.grid.v[l],TV(TV::Zero()),1e-30);
    if(PROP==3) r.vclose("nodal force",s.grid.force[l],f[l],fs);
    if(PROP==9 && s.use_mibf && m[l]>1e-9*s.particle_mass) r.close("nodal friction", s.grid.friction[l], fr[l]/m[l], 1, 1e-7); }
  if(PROP==2){ r.close("total mass",M,s.particle_mass*s.Np,s.particle_mass); r.vclose("total momentum",MV,tot,s.particle_mass*vs*s.Np);
    r.ok("particle arrays untouched", s.particles.x==P.x && s.particles.v==P.v && s.particles.Bmat==P.Bmat && s.particles.F==P.F && s.particles.tau==P.tau); }
  if(PROP==3 && SPLINEDEG>1) r.vclose("internal forces sum to zero",FT,TV(TV::Zero()),fs*s.Np,1e-8);
}
static void euler(In& in, Rep& r){
  Simulation s; mkgrid(s,in); mkparticles(s,in,1); randgrid(s,in); s.gravity=rv(in,"gravity",10);
  auto G=s.grid;
  s.explicitEulerUpdate();
  for(unsigned l=0;l<s.grid_nodes;l++){
    if(G.mass[l]>0){ TV a=s.gravity - s.particle_volume*G.force[l]/G.mass[l]; TV v=G.v[l]+s.dt*a; double sc=v.norm()+s.dt*a.norm();
      r.vclose("velocity after the grid update",s.grid.v[l],v,sc); r.vclose("velocity increment",s.grid.flip[l],TV(s.dt*a),sc); }
    else { r.vclose("velocity of an empty node",s.grid.v[l],G.v[l],0); r.vclose("increment of an empty node",s.grid.flip[l],G.flip[l],0);} 
    r.exact("mass",s.grid.mass[l],G.mass[l]); }
}
static TV blendv(Simulation& s, const TV& v,const TV& fl,const TV& pic){ double a = s.flip_ratio<-1?0:std::abs(s.flip_ratio); return a*(v+fl)+(1-a)*pic; }
static void g2p(In& in, Rep& r){
  Simulation s; mkgrid(s,in); mkparticles(s,in,in.i("np",1,5)); randgrid(s,in);
  s.plastic_model=PlasticModel::NoPlasticity; s.elastic_model=in.b("neo")?ElasticModel::NeoHookean:ElasticModel::Hencky; s.mu=1; s.lambda=1; s.dt=in.lg("dt2",1e-6,1e-3)*s.dx;
  bool affine=in.b("affine"); TM C=rm(in,"C",1); TV c0=rv(in,"c",1);
  if(affine) for(unsigned i=0;i<s.Nx;i++)for(unsigned j=0;j<s.Ny;j++){
#ifdef THREEDIM
    for(unsigned k=0;k<s.Nz;k++) s.grid.v[s.ind(i,j,k)]=c0+C*TV(s.grid.x[i],s.grid.y[j],s.grid.z[k]);
#else
    s.grid.v[s.ind(i,j)]=c0+C*TV(s.grid.x[i],s.grid.y[j]);
#endif
  }
  auto P=s.particles; auto G=s.grid;
  bool viadef = PROP==5;
  std::vector<TV> pic(s.Np),fl(s.Np); std::vector<TM> B(s.Np),gr(s.Np);
  double vs=0; for(auto&v:G.v) vs=std::max(vs,v.norm());
  for(unsigned p=0;p<s.Np;p++){ pic[p].setZero();fl[p].setZero();B[p].setZero();gr[p].setZero(); for(auto&w: stencil(s,P.x[p])){ pic[p]+=w.w*G.v[w.l]; fl[p]+=w.w*G.flip[w.l]; B[p]+=w.w*G.v[w.l]*w.d.transpose(); gr[p]+=G.v[w.l]*w.g.transpose(); } }
  if(viadef){ s.use_musl=true; s.deformationUpdate(); } else s.G2P();
  for(unsigned p=0;p<s.Np;p++){
    if(!viadef){
      r.vclose("PIC velocity",s.particles.pic[p],pic[p],vs);
      if(s.flip_ratio>=-1) r.vclose("FLIP increment",s.particles.flip[p],fl[p],1);
      if(s.flip_ratio<0) r.vclose("affine matrix",s.particles.Bmat[p],B[p],vs*s.dx);
      if(affine && SPLINEDEG>1){ r.vclose("affine field",s.particles.pic[p],TV(c0+C*P.x[p]),vs); if(s.flip_ratio<0) r.vclose("affine matrix of an affine field",TM(s.particles.Bmat[p]*s.apicDinverse),C,vs/s.dx,1e-8); }
      r.vclose("velocity untouched",s.particles.v[p],P.v[p],0);
    }
    TM F = (s.use_musl && !viadef)? P.F[p] : TM(P.F[p]+s.dt*gr[p]*P.F[p]);
    r.vclose("deformation gradient",s.particles.F[p],F,1+s.dt*vs/s.dx);
    r.vclose("position untouched",s.particles.x[p],P.x[p],0);
  }
}
static void pos(In& in, Rep& r){
  Simulation s; mkgrid(s,in); mkparticles(s,in,in.i("np",1,5)); s.pbc=false; s.change_particle_positions=false;
  auto P=s.particles; s.positionUpdate();
  for(unsigned p=0;p<s.Np;p++){ r.vclose("position",s.particles.x[p],TV(P.x[p]+s.dt*P.pic[p]),1); r.vclose("velocity",s.particles.v[p], s.use_musl?P.v[p]:blendv(s,P.v[p],P.flip[p],P.pic[p]),10); r.vclose("pic",s.particles.pic[p],P.pic[p],0); }
}
static void musl(In& in, Rep& r){
  Simulation s; mkgrid(s,in); mkparticles(s,in,in.i("np",1,5));
  // nodal masses as left by the transfer of the same step
  std::vector<double> m(s.grid_nodes,0); auto P=s.particles; std::vector<TV> mv(s.grid_nodes,TV::Zero()); double vs=0;
  for(unsigned p=0;p<s.Np;p++){ TV vn=blendv(s,P.v[p],P.flip[p],P.pic[p]); for(auto&w: stencil(s,P.x[p])){ m[w.l]+=w.w*s.particle_mass; TV v=vn; if(s.flip_ratio<0) v+=P.Bmat[p]*w.d*s.apicDinverse; mv[w.l]+=s.particle_mass*w.w*v; vs=std::max(vs,v.norm()); } }
  randgrid(s,in); s.grid.mass=m; s.use_musl=true;
  s.MUSL();
  for(unsigned p=0;p<s.Np;p++) r.vclose("updated particle velocity",s.particles.v[p],blendv(s,P.v[p],P.flip[p],P.pic[p]),10);
  for(unsigned l=0;l<s.grid_nodes;l++){ r.exact("nodal mass",s.grid.mass[l],m[l]); if(m[l]>1e-20*s.particle_mass) r.vclose("re-projected momentum",TV(m[l]*s.grid.v[l]),mv[l],s.particle_mass*vs); else if(m[l]==0) r.vclose("velocity of an empty node",s.grid.v[l],TV(TV::Zero()),0); }
}
std::vector<Drv> drivers(){
#if PROP==2
  return {{"p2g",p2g,1}};
#elif PROP==3
  return {{"p2g_force",p2g,1},{"grid_update",euler,1}};
#elif PROP==4
  return {{"g2p",g2p,1},{"position_update",pos,1}};
#elif PROP==5
  return {{"musl",musl,1},{"deformation_update",g2p,1}};
#else
  return {{"p2g_friction",p2g,1}};
#endif
}
