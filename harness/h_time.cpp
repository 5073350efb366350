#include "world.hpp"
#include "src/objects/object_general.hpp"
static void upd(In& in, Rep& r){
  Simulation s; s.reduce_verbose=true; s.dx=in.lg("dx",1e-3,10); set_consts(s); int np=in.i("np",1,6); s.Np=np; s.particles=Particles(np);
  double sc=in.u()<0.15?0:in.lg("vscale",1e-12,1e3); for(auto&v:s.particles.v) v=rv(in,"v",1)*sc;
  s.cfl=in.lg("cfl",0.01,2); s.dt_max=in.lg("dt_max",1e-8,1e2); s.frame_dt=in.lg("frame_dt",1e-6,1e2); s.frame=in.i("frame",0,20); s.min_dt=in.u()<0.5?1e-14:in.lg("min_dt",1e-12,1e-1);
  s.time=s.frame_dt*(s.frame+in("tau",0,1)); s.end_frame=s.frame+in.i("left",1,4); s.final_time=s.end_frame*s.frame_dt; if(in.u()<0.1) s.final_time=s.time+in("ft",-1,1)*s.frame_dt; s.wave_speed=in.lg("wave_speed",1e-3,1e3);
  s.gravity_special=in.b("gravity_special"); s.gravity_time=in("gravity_time",0,30)*s.frame_dt; s.gravity=rv(in,"gravity",10); s.gravity_final=rv(in,"gravity_final",10); if(in.u()<0.1) s.gravity_time=s.time;
  TV g0=s.gravity; auto P=s.particles; double t0=s.time; { Quiet q; s.updateDt(); }
  double vm=0; for(auto&v:P.v) vm=std::max(vm,v.norm());
  double e=s.dt_max; if(vm>1e-10) e=std::min(e,s.cfl*s.dx/vm); e=std::min(e,s.frame_dt*(s.frame+1)-t0); e=std::min(e,s.final_time-t0); e=std::max(e,s.min_dt);
  r.close("time step", s.dt, e, s.min_dt, 1e-12);
  TV ge=g0; if(s.gravity_special) ge= t0<s.gravity_time? TV(s.gravity_final*(t0/s.gravity_time)) : s.gravity_final;
  r.vclose("gravity", s.gravity, ge, 10, 1e-13); r.exact("time untouched", s.time, t0);
  for(int p=0;p<np;p++) r.ok("velocities untouched", s.particles.v[p]==P.v[p]);
}
struct Step { double t, dt, vm; unsigned frame; long k; TV g; };
struct Probe : ObjectGeneral { Simulation* s; std::vector<Step>* L; Probe(Simulation*s_,std::vector<Step>*l):ObjectGeneral(BC::NoSlip,0,"probe"),s(s_),L(l){}
  bool inside(const TV&) const override { if(L->empty()||L->back().k!=(long)s->current_time_step){ double vm=0; for(auto&v:s->particles.v) vm=std::max(vm,v.norm()); L->push_back({s->time,s->dt,vm,(unsigned)s->frame,(long)s->current_time_step,s->gravity}); } return false; }
  TV normal(const TV&) const override { return TV::Zero(); } };
static void sim(In& in, Rep& r){
  Simulation s; s.reduce_verbose=true; s.n_threads=1; mkdir("o_t",0777); s.initialize(in.b("save"),"o_","t"); s.exit=0; s.dx=in.lg("dx",1e-2,1);
  int np=in.i("np",1,3); s.Np=np; s.particles=Particles(np); for(auto&x:s.particles.x) x=rv(in,"x",1)*s.dx; for(auto&v:s.particles.v) v=rv(in,"v",10);
  s.particle_volume=std::pow(s.dx,D_)/4; s.rho=in.lg("rho",100,3000); s.particle_mass=s.rho*s.particle_volume; s.use_musl=in.b("use_musl"); s.flip_ratio=in("flip_ratio",-1,1); s.gravity=rv(in,"g",10); TV g0=s.gravity; s.E=in.lg("E",1e3,1e6); s.nu=in("nu",0,0.45);
  s.plastic_model=PlasticModel::NoPlasticity; s.cfl=in("cfl",0.1,0.9); s.cfl_elastic=in("cfle",0.1,0.9); s.end_frame=in.i("frames",1,4); s.save_grid=in.b("save_grid");
  double dte=s.cfl_elastic*s.dx/std::sqrt(s.E/s.rho); s.fps=1.0/(dte*in("per",0.3,9)); if(in.u()<0.3) s.min_dt=in.lg("mind",1e-6,0.2)/s.fps; s.gravity_special=in.b("gs"); s.gravity_time=in("gt",0.01,5)/s.fps;
  std::vector<Step> L; s.objects.push_back(std::make_unique<Probe>(&s,&L)); unsigned ef=s.end_frame; bool sv=s.save_sim, sg=s.save_grid;
  if(sv){ std::string c="rm -f ./o_t/particles_f*.ply ./o_t/grid_f*.ply"; if(system(c.c_str())){} mkdir("o_t",0777); }
  s.simulate();
  double fd=1.0/s.fps, mn=s.min_dt, sl=1e-9*fd; r.ok("ran", !L.empty()); if(L.empty()) return; r.exact("starts at zero", L[0].t, 0);
  double fin=ef*fd;
  for(size_t k=0;k<L.size();k++){ auto&a=L[k]; r.ok("dt at least the minimum", a.dt>=mn*(1-1e-12)); r.ok("dt elastic limit", a.dt<=std::max(mn,dte)*(1+1e-12));
    r.ok("CFL", a.vm<=1e-10 || a.dt<=std::max(mn,s.cfl*s.dx/a.vm)*(1+1e-12)); r.ok("not past the frame", a.t+a.dt<=fd*(a.frame+1)+sl);
    r.ok("earlier frames complete", a.t>=fd*a.frame-1.1*mn-sl); r.ok("frame not complete yet", fd*(a.frame+1)-a.t>=1.1*mn-sl);
    double e=dte; if(a.vm>1e-10) e=std::min(e,s.cfl*s.dx/a.vm); e=std::min(e,fd*(a.frame+1)-a.t); e=std::max(e,mn); r.close("largest admissible step", a.dt, e, fd, 1e-9);
    TV ge=g0; if(s.gravity_special && a.t<s.gravity_time) ge=g0*(a.t/s.gravity_time); r.vclose("gravity in force", a.g, ge, 10, 1e-12);
    if(k+1<L.size()) r.close("clock", L[k+1].t, a.t+a.dt, fd, 1e-12); }
  double te=L.back().t+L.back().dt; r.ok("ends at the final time", te<=fin+sl && fin-te<1.1*mn+sl); r.ok("all frames done", s.frame==(int)ef);
  for(unsigned f=0;f<=ef+1;f++){ struct stat st; bool ex=stat(("o_t/particles_f"+std::to_string(f)+".ply").c_str(),&st)==0; if(sv) r.ok("a file per frame", ex==(f<=ef));
    bool eg=stat(("o_t/grid_f"+std::to_string(f)+".ply").c_str(),&st)==0; if(sv) r.ok("a grid file per frame", eg==(sg && f>=1 && f<=ef)); }
}
std::vector<Drv> drivers(){ return {{"updateDt",upd,1},{"simulate",sim,6}}; }
