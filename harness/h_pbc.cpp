#include "world.hpp"
// periodic mode: copies around the seam, wrap-around, invariance under a shift by whole cells
static void base(Simulation& s, In& in, int np, bool aligned){
  s.reduce_verbose=true; s.n_threads=in.i("threads",1,3); s.pbc=true; s.dx=in.lg("dx",1e-3,10); set_consts(s);
  double L=aligned?in.i("M",8,14):in("L",8,14); s.Lx=L*s.dx; s.Ly=in("LY",0.5,3)*s.dx;
#ifdef THREEDIM
  s.Lz=in("LZ",0.5,2)*s.dx;
#endif
  s.Np=np; s.particles=Particles(np);
  for(int p=0;p<np;p++){ double f=in("X",0,1); double x=f*s.Lx; double r=in.u();
    if(r<0.08) x=s.Lx; else if(r<0.16) x=0; else if(r<0.22) x=4*s.dx; else if(r<0.28) x=s.Lx-4*s.dx; else if(r<0.5) x=in("near",0,1)*4*s.dx; else if(r<0.7) x=s.Lx-in("near",0,1)*4*s.dx;
    s.particles.x[p](0)=std::min(std::max(x,0.0),s.Lx); s.particles.x[p](1)=in("Y",0,1)*s.Ly;
#ifdef THREEDIM
    s.particles.x[p](2)=in("Z",0,1)*s.Lz;
#endif
    s.particles.v[p]=rv(in,"v",5); s.particles.pic[p]=rv(in,"pic",5); s.particles.flip[p]=rv(in,"flip",1); s.particles.Bmat[p]=rm(in,"B",1); s.particles.tau[p]=rm(in,"tau",100); s.particles.F[p]=TM::Identity()+rm(in,"F",0.1); s.particles.muI[p]=in("muI",0,1.5); }
  s.particle_volume=std::pow(s.dx,D_)/4; s.rho=in.lg("rho",100,3000); s.particle_mass=s.rho*s.particle_volume; s.use_mibf=in.b("use_mibf"); s.dt=in.lg("dt",1e-6,1e-1);
  s.flip_ratio=in.i("scheme",0,3)==0?-2.0:in("flip_ratio",-1,1); if(in.has("flip_ratio")) s.flip_ratio=in.ov["flip_ratio"];
}
static bool same(const Particles& a, const Particles& b, size_t n){ for(size_t p=0;p<n;p++) if(!(a.x[p]==b.x[p]&&a.v[p]==b.v[p]&&a.F[p]==b.F[p]&&a.Bmat[p]==b.Bmat[p]&&a.tau[p]==b.tau[p]&&a.muI[p]==b.muI[p]&&a.pic[p]==b.pic[p]&&a.flip[p]==b.flip[p])) return false; return true; }
static bool lens(const Particles& a, size_t n){ return a.x.size()==n&&a.v.size()==n&&a.F.size()==n&&a.Bmat.size()==n&&a.tau.size()==n&&a.muI.size()==n; }
static void copies(In& in, Rep& r){
  Simulation s; int np=in.i("np",1,12); base(s,in,np,false); Particles P=s.particles; s.num_add_pbc_particles=in.i("stale",0,5); int mg=in.i("margin",4,4);
  s.PBCAddParticles(mg);
  size_t n=s.particles.x.size(); r.ok("the particle number includes the copies", s.Np==(int)n); r.ok("all copied arrays have the same length", lens(s.particles,n)); r.ok("copies are counted", s.num_add_pbc_particles==n-np); if(!r.fails.empty()) return;
  r.ok("originals untouched", same(s.particles,P,np));
  std::vector<int> cnt(np,0); double tol=1e-12*s.Lx;
  for(size_t q=np;q<n;q++){ int hit=-1; for(int p=0;p<np;p++){ double d=s.particles.x[q](0)-P.x[p](0); if(std::abs(std::abs(d)-s.Lx)<=tol && s.particles.v[q]==P.v[p] && s.particles.F[q]==P.F[p] && s.particles.Bmat[q]==P.Bmat[p] && s.particles.tau[q]==P.tau[p] && s.particles.muI[q]==P.muI[p]){ bool o=true; for(int a=1;a<D_;a++) if(s.particles.x[q](a)!=P.x[p](a)) o=false; if(o && !cnt[p]) hit=p; } }
    r.ok("every copy is one particle displaced by one period", hit>=0); if(hit>=0){ cnt[hit]++; double x=P.x[hit](0); bool lo=s.particles.x[q](0)>x; r.ok("copied to the other side of the nearer face", lo? x<mg*s.dx+tol : s.Lx-x<mg*s.dx+tol); } }
  for(int p=0;p<np;p++){ double x=P.x[p](0), m=mg*s.dx; bool in1=x<m-tol||s.Lx-x<m-tol, out=x>m+tol&&s.Lx-x>m+tol; if(in1) r.ok("a particle next to a face has a copy", cnt[p]==1); if(out) r.ok("a particle away from the faces has none", cnt[p]==0); }
  s.PBCDelParticles(); r.ok("copies removed", s.Np==np && lens(s.particles,np)); if(lens(s.particles,np)) r.ok("originals restored", same(s.particles,P,np));
}
static void wrap(In& in, Rep& r){
  Simulation s; int np=in.i("np",1,8); base(s,in,np,false); s.use_musl=in.b("use_musl"); s.dt=in.lg("dtm",1e-4,0.9)*s.Lx/10; for(auto&v:s.particles.pic) if(in.u()<0.1) v.setZero(); Particles P=s.particles; s.positionUpdate();
  for(int p=0;p<np;p++){ double e=P.x[p](0)+s.dt*P.pic[p](0), y=s.particles.x[p](0), t=1e-13*s.Lx*4; r.ok("inside the period", y>=0 && y<=s.Lx*(1+1e-15)); double d=(y-e)/s.Lx; r.ok("displaced by whole periods", std::abs(d-std::round(d))<1e-12); if(e>t && e<s.Lx-t) r.close("only advected", y, e, s.Lx, 1e-14);
    for(int a=1;a<D_;a++) r.close("only advected", s.particles.x[p](a), P.x[p](a)+s.dt*P.pic[p](a), s.Lx, 1e-14); }
}
static void images(In& in, Rep& r){   // nodal fields near the seam are those of the periodically extended particle set
  Simulation s; int np=in.i("np",1,8); base(s,in,np,false); s.remeshFixed(4); s.PBCAddParticles(4); s.resizeGrid(); s.P2G(); s.PBCDelParticles(); Particles P=s.particles; auto mass=s.grid.mass, fr=s.grid.friction; auto vel=s.grid.v; auto frc=s.grid.force; s.use_musl=true; s.MUSL();
  r.ok("no copies left", s.Np==np && lens(s.particles,np)); if(!lens(s.particles,np)) return;
  std::vector<double> M(s.grid_nodes,0), Q(s.grid_nodes,0); std::vector<TV> V(s.grid_nodes,TV::Zero()), W=V, Fo=V; double vs=0;
  for(int p=0;p<np;p++) for(int k=-1;k<=1;k++){ TV x=P.x[p]; x(0)+=k*s.Lx; if(x(0)<=s.grid.xc+s.dx*1.001 || x(0)>=s.grid.x.back()-2.001*s.dx) continue;
      for(auto&w: stencil(s,x)){ double m=w.w*s.particle_mass; M[w.l]+=m; TV v=P.v[p], u=s.particles.v[p]; if(s.flip_ratio<0){ TV c=P.Bmat[p]*w.d*s.apicDinverse; v+=c; u+=c; } V[w.l]+=m*v; W[w.l]+=m*u; Q[w.l]+=m*P.muI[p]; Fo[w.l]+=P.tau[p]*w.g; vs=std::max(vs,std::max(v.norm(),u.norm())); } }
  for(unsigned l=0;l<s.grid_nodes;l++){ int i=l/(s.grid_nodes/s.Nx); double gx=s.grid.x[i]; if(gx<-1.5*s.dx || gx>s.Lx+1.5*s.dx) continue; double m0=s.particle_mass;
    r.close("nodal mass counts periodic images", mass[l], M[l], m0*1e-3); if(M[l]>1e-6*m0 && mass[l]>0){ r.vclose("nodal momentum counts periodic images", TV(mass[l]*vel[l]), V[l], m0*vs); r.vclose("re-projected momentum counts periodic images", TV(mass[l]*s.grid.v[l]), W[l], m0*vs); if(s.use_mibf) r.close("nodal friction counts periodic images", fr[l], Q[l]/M[l], 1, 1e-7); } }
}
static void run(Simulation& s){ s.current_time_step=0; s.advanceStep(); }
static void shift(In& in, Rep& r){
  Simulation a, b; int np=in.i("np",1,8); In i2=in; base(a,in,np,true); base(b,i2,np,true); int k=in.i("shift",1,13); k%=(int)std::lround(a.Lx/a.dx);
  bool mu=in.b("use_musl"); TV g=rv(in,"g",10); double E=in.lg("E",1e3,1e6), nu=in("nu",0,0.4); 
  for(Simulation* s: {&a,&b}){ s->use_musl=mu; s->gravity=g; s->lambda=nu*E/((1+nu)*(1-2*nu)); s->mu=E/(2*(1+nu)); s->dt_max=0.2*s->dx/std::sqrt(E/s->rho); s->cfl=0.3; s->frame_dt=1e9; s->frame=0; s->final_time=1e9; s->time=0; s->min_dt=1e-14; s->plastic_model=PlasticModel::NoPlasticity; }
  for(int p=0;p<np;p++){ double x=a.particles.x[p](0)+k*a.dx; if(x>a.Lx) x-=a.Lx; b.particles.x[p](0)=x; }
  Particles P=a.particles; run(a); run(b); r.ok("all particles remain", a.Np==np&&b.Np==np); double vs=1; for(int p=0;p<np;p++) vs=std::max(vs,a.particles.v[p].norm());
  r.close("same step", a.dt, b.dt, a.dt, 1e-9);
  for(int p=0;p<np;p++){ double d=(b.particles.x[p](0)-a.particles.x[p](0)-k*a.dx)/a.Lx; r.ok("positions agree up to the shift", std::abs(d-std::round(d))<1e-8); for(int q=1;q<D_;q++) r.close("other coordinates agree", a.particles.x[p](q), b.particles.x[p](q), a.dx, 1e-7);
    r.vclose("velocities agree", a.particles.v[p], b.particles.v[p], vs, 1e-6); TM FA=a.particles.F[p], FB=b.particles.F[p]; for(int q=0;q<FA.size();q++) r.close("deformations agree", FA(q), FB(q), 1, 1e-6); }
}
std::vector<Drv> drivers(){ return {{"copies",copies,1},{"wrap",wrap,1},{"images",images,3},{"shift",shift,5}}; }
