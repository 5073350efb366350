#include "world.hpp"
// every particle has its four-node stencil inside the (uniform) grid
static void covered(Simulation& s, Rep& r, const char* what){
  unsigned n=1;
  for(int a=0;a<D_;a++){ auto& g=gax(s,a); std::string w=std::string(what)+" axis "+AXN[a]; n*=gn(s,a);
    r.ok((w+": node count").c_str(), g.size()==gn(s,a) && g.size()>=4); if(g.empty()) return;
    r.exact((w+": corner").c_str(), g[0], gc(s,a));
    for(size_t i=0;i<g.size();i++) r.close((w+": spacing").c_str(), g[i], gc(s,a)+i*s.dx, std::abs(gc(s,a))+g.size()*s.dx, 1e-11);
    for(unsigned p=0;p<s.particles.x.size();p++){ long b=(long)std::floor((s.particles.x[p](a)-gc(s,a))*s.one_over_dx);
      if(!(b>=1 && b+2<(long)g.size())){ r.fail("%s: particle %u at %.17g has its base node %ld outside 1..%ld (corner %.17g, dx %.17g)", w.c_str(), p, s.particles.x[p](a), b, (long)g.size()-3, gc(s,a), s.dx); return; } } }
  r.ok("grid node number is the product", n==s.grid_nodes);
}
static void history(In& in, Rep& r){
  Simulation s; s.dx=in.b("unit")?1.0:in.lg("dx",1e-3,10); set_consts(s); s.reduce_verbose=true; s.use_mibf=in.b("use_mibf");
  int np=in.i("np",1,5); s.Np=np; s.particles=Particles(np);
  for(auto&x:s.particles.x) for(int a=0;a<D_;a++){ x(a)=s.dx*(in.b("int")?in.i("cell",-3,3):in("pos",-4,4)); }
  if(in.b("ref")) s.grid_reference_point=rv(in,"refp",6)*s.dx;
  s.remeshFixedInit(2,2,2); s.resizeGrid(); covered(s,r,"first mesh");
  for(int st=0;st<in.i("steps",1,4) && r.fails.empty();st++){
    for(auto&x:s.particles.x) for(int a=0;a<D_;a++) if(in.u()<0.7){ double k=in.b("whole")?in.i("k",-2,2):in("shift",-2.5,2.5); double e=0; if(in.b("eps")) e=(in.u()<0.5?1:-1)*in.lg("epsv",1e-16,1e-6); x(a)+=s.dx*(k+e); }
    s.remeshFixedCont(); s.resizeGrid(); covered(s,r,"re-mesh");
    r.ok("nodal arrays sized", s.grid.v.size()==s.grid_nodes && s.grid.flip.size()==s.grid_nodes && s.grid.force.size()==s.grid_nodes && s.grid.mass.size()==s.grid_nodes && (!s.use_mibf || s.grid.friction.size()==s.grid_nodes));
    bool z=true; for(unsigned l=0;l<s.grid.mass.size();l++) z = z && s.grid.mass[l]==0 && s.grid.v[l].norm()==0 && s.grid.force[l].norm()==0 && s.grid.flip[l].norm()==0; r.ok("nodal arrays cleared", z);
    for(unsigned l=0;l<s.grid.mass.size();l++){ s.grid.mass[l]=1; s.grid.v[l]=TV::Ones(); s.grid.force[l]=TV::Ones(); s.grid.flip[l]=TV::Ones(); }
  }
}
// whole steps of the real cycle with container assertions switched on
static void steps(In& in, Rep& r){
  Simulation s; s.reduce_verbose=true; s.is_initialized=true; s.save_sim=false; s.dx=in.lg("dx",1e-2,1); set_consts(s);
  int np=in.i("np",1,8); s.Np=np; s.particles=Particles(np); for(auto&x:s.particles.x) for(int a=0;a<D_;a++) x(a)=s.dx*in("pos",0.1,3.9); for(auto&v:s.particles.v) v=rv(in,"v",3);
  s.pbc=in.u()<0.3; if(s.pbc) for(auto&x:s.particles.x) for(int a=1;a<D_;a++) x(a)=s.dx*in("posp",1.5,2.5); // the periodic mesh is fixed: the material has to stay inside it
  s.Lx=4*s.dx; s.Ly=4*s.dx;
#ifdef THREEDIM
  s.Lz=4*s.dx;
#endif
  s.particle_volume=std::pow(s.dx,D_)/4; s.rho=1000; s.particle_mass=s.rho*s.particle_volume; s.use_musl=in.b("use_musl"); s.use_mibf=in.b("use_mibf"); s.n_threads=in.i("threads",1,3);
  s.flip_ratio=in.i("scheme",0,3)==0?-2.0:in("flip_ratio",-1,1); s.gravity=rv(in,"g",10); s.end_frame=1; s.fps=in.lg("fps",200,5000); s.E=in.lg("E",1e4,1e6); s.nu=0.3; s.plastic_model=PlasticModel::NoPlasticity;
  // limit the number of steps
  double wave=std::sqrt(s.E/s.rho); double dtm=0.5*s.dx/wave; s.fps=std::max(s.fps, 1.0/((s.pbc?1:8)*dtm));
  s.simulate();
  r.ok("container lengths", s.particles.x.size()==(size_t)np && s.particles.v.size()==(size_t)np && s.particles.F.size()==(size_t)np && s.particles.muI.size()==(size_t)np && s.Np==(unsigned)np);
  for(auto&x:s.particles.x) r.ok("finite positions", x.allFinite());
}
std::vector<Drv> drivers(){ return {{"mesh_history",history,1},{"steps",steps,25}}; }
