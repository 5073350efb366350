#include "world.hpp"
#include "deps/tinyply.h"
#include "src/objects/object_ground.hpp"
// the same state processed with one thread and with many: equal up to the rounding of sums
static void fill(Simulation& s, In& in, int np, int th){
  mkgrid(s,in); mkparticles(s,in,np); randgrid(s,in); s.reduce_verbose=false; s.use_mibf=in.b("mibf"); s.gravity=rv(in,"g",10);
  double E=in.lg("E",1e4,1e7), nu=in("nu",0,0.4); s.lambda=nu*E/((1+nu)*(1-2*nu)); s.mu=E/(2*(1+nu)); s.K=s.lambda+2*s.mu/D_; s.q_prefac=1; s.d_prefac=1; s.e_mu_prefac=2*s.mu; s.f_mu_prefac=2*s.mu;
  s.elastic_model=ElasticModel::Hencky; int m=in.i("model",0,2); s.plastic_model= m==0?PlasticModel::NoPlasticity: m==1?PlasticModel::VM: PlasticModel::DP; s.q_max=in.lg("qmax",1,1e5); s.q_min=s.q_max; s.M=0.5; s.q_cohesion=in.lg("coh",1,1e3);
  s.dt=1e-4; for(auto&F:s.particles.F) F=TM::Identity()+0.3*(F-TM::Identity()); s.n_threads=th; s.objects.push_back(std::make_unique<ObjectGround>(BC::SlipStick,0.3,"ground",s.grid.yc+1.5*s.dx));
}
template<class V> static double md(const V& a,const V& b){ if(a.size()!=b.size()) return 1e300; double d=0; for(size_t i=0;i<a.size();i++){ double x; if constexpr(std::is_same<typename V::value_type,double>::value){ x=std::abs(a[i]-b[i]); if(std::isnan(a[i])&&std::isnan(b[i])) x=0; } else { x=(a[i]-b[i]).cwiseAbs().maxCoeff(); if(a[i].hasNaN()&&b[i].hasNaN()) x=0; } if(!(x<=d)) d=std::isnan(x)?1e300:x; } return d; }
template<class V> static double mx(const V& a){ double d=1e-30; for(auto&x:a){ double y; if constexpr(std::is_same<typename V::value_type,double>::value) y=std::abs(x); else y=x.cwiseAbs().maxCoeff(); if(y>d&&std::isfinite(y)) d=y; } return d; }
#define CMP(what,F) { double d=md(a.F,b.F); r.checks++; if(!(d<=1e-9*mx(a.F))) r.fail("%s with %d threads: %s differs by %g (scale %g)", what, th, #F, d, mx(a.F)); }
static void cmp(const char* w, Simulation& a, Simulation& b, Rep& r, int th){
  CMP(w,particles.x) CMP(w,particles.v) CMP(w,particles.pic) CMP(w,particles.flip) CMP(w,particles.F) CMP(w,particles.tau) CMP(w,particles.Bmat) CMP(w,particles.delta_gamma) CMP(w,particles.eps_pl_dev) CMP(w,particles.eps_pl_vol) CMP(w,grid.v) CMP(w,grid.flip) CMP(w,grid.force) CMP(w,grid.mass) CMP(w,grid.friction)
}
static std::string proj(const std::string& t){ std::string o; std::istringstream is(t); std::string l; while(std::getline(is,l)) if(l.find("Proj")!=std::string::npos) o+=l+"\n"; return o; }
typedef void (Simulation::*Fn)();
static void step(In& in, Rep& r){
  int np=in.i("np",400,1500); int th=in.i("nt",2,8); 
  struct N{const char*n; Fn f;}; std::vector<N> fs={{"P2G",&Simulation::P2G},{"grid update",&Simulation::explicitEulerUpdate},{"G2P",&Simulation::G2P},{"MUSL",&Simulation::MUSL},{"deformation update",&Simulation::deformationUpdate},{"position update",&Simulation::positionUpdate}};
  for(auto&x:fs){ In i1=in, i2=in; Simulation a,b; fill(a,i1,np,1); fill(b,i2,np,th); bool mus=std::string(x.n)=="MUSL"||std::string(x.n)=="deformation update"; a.use_musl=b.use_musl=mus; a.pbc=b.pbc=false;
    if(std::string(x.n)=="P2G"){ a.resizeGrid(); b.resizeGrid(); a.grid.friction.assign(a.grid_nodes,0); b.grid.friction=a.grid.friction; }
    std::string o1,o2; { Quiet q; (a.*x.f)(); o1=q.s.str(); } { Quiet q; (b.*x.f)(); o2=q.s.str(); } cmp(x.n,a,b,r,th); r.checks++; if(proj(o1)!=proj(o2)) r.fail("%s with %d threads reports %s instead of %s", x.n, th, proj(o2).c_str(), proj(o1).c_str()); if(!r.fails.empty()) return; }
}
static void save(In& in, Rep& r){ int np=in.i("np",400,1500), th=in.i("nt",2,8); std::map<std::string,std::vector<double>> c1,c2;
  In i1=in,i2=in; Simulation a,b; fill(a,i1,np,1); fill(b,i2,np,th); mkdir("o_t",0777); a.directory=b.directory="o_"; a.sim_name=b.sim_name="t"; a.frame=b.frame=0;
  { Quiet q; tinyply::recorded().clear(); a.saveParticleData(); } auto A=tinyply::recorded(); { Quiet q; tinyply::recorded().clear(); b.saveParticleData(); } auto B=tinyply::recorded();
  r.ok("same columns", A.size()==B.size()); if(A.size()==B.size()) for(size_t k=0;k<A.size();k++) r.ok("saved columns do not depend on the number of threads", A[k].data==B[k].data);
}
std::vector<Drv> drivers(){ return {{"step",step,1},{"save",save,1}}; }
