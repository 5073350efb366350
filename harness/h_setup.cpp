#include "world.hpp"
struct Snap { std::vector<double> v; };
static Snap snap(Simulation& s){ Snap o; auto a=[&](double x){ o.v.push_back(x); };
  a(s.n_threads);a(s.end_frame);a(s.is_initialized);a(s.save_sim);a(s.reduce_verbose);a(s.pbc);a(s.change_particle_positions);a(s.gravity_special);a(s.save_grid);a(s.use_mibf);a(s.use_musl);
  for(int i=0;i<D_;i++) a(s.grid_reference_point(i)); a(s.min_dt);a(s.fps);a(s.cfl);a(s.cfl_elastic);a(s.flip_ratio);a(s.rho);a(s.gravity_time);a(s.Lx);a(s.Ly);a(s.particle_mass);a(s.particle_volume);a(s.dx);
  a((int)s.elastic_model);a((int)s.plastic_model);a((int)s.hardening_law);a(s.use_pradhana);a(s.E);a(s.nu);a(s.stress_tolerance);a(s.xi);a(s.q_max);a(s.q_min);a(s.p_min);a(s.M);a(s.q_cohesion);a(s.visc_exponent);a(s.visc_time);
  a(s.use_duvaut_lions_formulation);a(s.beta);a(s.p0);a(s.rho_s);a(s.grain_diameter);a(s.I_ref);a(s.mu_1);a(s.mu_2);a(s.q_prefac);a(s.Np);
#ifdef THREEDIM
  a(s.Lz);
#endif
  return o; }
static void cfg(In& in, Simulation& s, bool safe){
  s.reduce_verbose=true; s.n_threads=in.i("n_threads",1,2); s.initialize(false,"o_","t"); s.exit=0; s.dx=in.lg("dx",1e-2,1);
  int np=in.i("np",1,4); s.Np=np; s.particles=Particles(np); for(auto&x:s.particles.x) x=rv(in,"x",1)*s.dx+TV::Constant(6*s.dx); for(auto&v:s.particles.v) v=rv(in,"v",1);
  for(auto&m:s.particles.muI) m=in("muI0",0,1);
  s.particle_volume=std::pow(s.dx,D_)/4; s.rho=in.lg("rho",100,3000); s.particle_mass=s.rho*s.particle_volume; s.use_musl=in.b("use_musl"); s.flip_ratio=in("flip_ratio",-1.5,1); s.gravity=rv(in,"gravity",10);
  s.E=in.lg("E",1e4,1e7); s.nu=in("nu",0,0.45); s.cfl=in("cfl",0.1,0.9); s.cfl_elastic=in("cfl_elastic",0.1,0.9); s.plastic_model=PlasticModel(in.i("plastic_model",0,9)); s.elastic_model=ElasticModel::Hencky;
  s.hardening_law=HardeningLaw(in.i("hardening_law",0,4)); s.use_mibf=in.b("use_mibf"); s.mu_1=in("mu_1",0.1,0.6); s.mu_2=s.mu_1+in("dmu",0.05,0.5); s.M=in("M",0.2,1.5); s.I_ref=in("I_ref",0.1,0.5); s.grain_diameter=in.lg("grain_diameter",1e-4,1e-2); s.rho_s=in("rho_s",1000,3000);
  s.q_prefac=in("q_prefac",0.3,2); s.p0=in.lg("p0",100,1e4); s.beta=in("beta",0,0.5); s.xi=safe?in("xi",0,2):in("xi",0,50); s.visc_time=in.lg("visc_time",1e-5,1); s.use_pradhana=in.b("pradhana"); s.gravity_special=in.b("gravity_special"); s.gravity_time=in("gravity_time",0,1); s.pbc=in.b("pbc"); s.Lx=12*s.dx; }
static void consts_(In& in, Rep& r){
  Simulation s; cfg(in,s,false); s.end_frame=0; s.fps=in.lg("fps",0.1,1e3); auto P=s.particles; TV g=s.gravity; Snap a=snap(s); { Quiet q; s.simulate(); } Snap b=snap(s);
  r.ok("parameters kept", a.v==b.v); r.vclose("gravity kept", s.gravity, g, 1, 0); double mu=s.E/2/(1+s.nu), la=s.nu*s.E/(1+s.nu)/(1-2*s.nu);
  r.close("shear modulus", s.mu, mu, mu, 1e-12); r.close("first Lame constant", s.lambda, la, la, 1e-12); r.close("bulk modulus", s.K, la+2*mu/D_, la+mu, 1e-12); r.close("wave speed", s.wave_speed, std::sqrt(s.E/s.rho), 1, 1e-12);
  r.close("elastic step", s.dt_max, s.cfl_elastic*s.dx/std::sqrt(s.E/s.rho), 0, 1e-12); r.close("frame duration", s.frame_dt, 1/s.fps, 0, 1e-12); r.close("final time", s.final_time, 0, 1, 1e-12); r.close("1/dx", s.one_over_dx, 1/s.dx, 0, 1e-12); r.close("1/dx^2", s.one_over_dx_square, 1/s.dx/s.dx, 0, 1e-12);
#if SPLINEDEG>1
  r.close("affine constant", s.apicDinverse, DINV/s.dx/s.dx, 0, 1e-12);
#endif
  r.close("strain conversion", s.d_prefac, 1/s.q_prefac, 0, 1e-12); r.close("elastic conversion", s.e_mu_prefac, 2*s.q_prefac*mu, 0, 1e-12); r.close("plastic conversion", s.f_mu_prefac, 2*s.q_prefac*s.q_prefac*mu, 0, 1e-12); r.close("mu(I) constant", s.fac_Q, s.I_ref/(s.grain_diameter*std::sqrt(s.rho_s)), 0, 1e-12);
  bool mui=s.plastic_model==PlasticModel::DPMui||s.plastic_model==PlasticModel::MCCMui;
  for(unsigned p=0;p<s.Np;p++){ if(s.use_mibf) r.exact("initial internal friction", s.particles.muI[p], mui?s.mu_1:s.M); r.ok("particles kept", s.particles.x[p]==P.x[p] && s.particles.v[p]==P.v[p] && s.particles.F[p]==P.F[p] && s.particles.tau[p]==P.tau[p]); } }
static void refuse(In& in, Rep& r){
  Simulation s; cfg(in,s,false); s.end_frame=1; s.fps=1e4; int w=in.i("why",0,3); bool no=false;
  if(w==0){ s.is_initialized=false; no=true; } if(w==1){ s.elastic_model=ElasticModel::NeoHookean; no=s.plastic_model!=PlasticModel::NoPlasticity; } if(w==2){ s.exit=1; no=true; }
  if(!no){ s.plastic_model=PlasticModel::NoPlasticity; s.pbc=false; } auto P=s.particles; { Quiet q; s.simulate(); } r.ok("refused or run", (s.current_time_step==0)==no); if(no) for(unsigned p=0;p<s.Np;p++) r.ok("particles kept", s.particles.x[p]==P.x[p] && s.particles.v[p]==P.v[p]); }
static void run(In& in, Rep& r){
  Simulation s; cfg(in,s,true); double dte=s.cfl_elastic*s.dx/std::sqrt(s.E/s.rho); s.fps=1/(dte*in("per",0.5,4)); s.end_frame=in.i("end_frame",1,3); Snap a=snap(s); { Quiet q; s.simulate(); } Snap b=snap(s); r.ok("a run keeps the parameters", a.v==b.v); }
static void parts(In& in, Rep& r){ int n=in.i("n",0,50); Particles p(n); auto sz=[&](size_t k){ r.exact("entries",(double)k,n); }; sz(p.x.size());sz(p.v.size());sz(p.pic.size());sz(p.flip.size());sz(p.eps_pl_dev.size());sz(p.eps_pl_vol.size());sz(p.eps_pl_vol_pradhana.size());sz(p.delta_gamma.size());sz(p.viscosity.size());sz(p.muI.size());sz(p.F.size());sz(p.Bmat.size());sz(p.tau.size()); if(r.fails.size()) return;
  for(int i=0;i<n;i++) r.ok("initial state", p.x[i]==TV::Zero()&&p.v[i]==TV::Zero()&&p.pic[i]==TV::Zero()&&p.flip[i]==TV::Zero()&&p.eps_pl_dev[i]==0&&p.eps_pl_vol[i]==0&&p.eps_pl_vol_pradhana[i]==0&&p.delta_gamma[i]==0&&p.viscosity[i]==0&&p.muI[i]==0&&p.F[i]==TM::Identity()&&p.Bmat[i]==TM::Zero()&&p.tau[i]==TM::Zero()); }
std::vector<Drv> drivers(){ return {{"constants",consts_,1},{"refuse",refuse,3},{"run",run,6},{"particles",parts,10}}; }
