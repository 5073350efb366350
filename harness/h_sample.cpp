#include "world.hpp"
#include "src/objects/object_general.hpp"
#define VDB_OBJ_H
// stands in for the level set: a ball inside a box that does not start at the origin
class ObjectVdb : public ObjectGeneral { public: TV lo, hi; ObjectVdb(TV a, TV b): ObjectGeneral(BC::NoSlip,0.0,""), lo(a), hi(b) {}
  bool inside(const TV& X) const override { TV c=0.5*(lo+hi); double s=0; for(int a=0;a<D_;a++){ double u=(X(a)-c(a))/(hi(a)-lo(a))*2; s+=u*u; } return s<0.7; }
  TV normal(const TV&) const override { return TV::Zero(); } void bounds(TV& a, TV& b) const { a=lo; b=hi; } };
#include "src/sampling/regular_sampling_particles.hpp"
#include "src/sampling/sampling_particles.hpp"
#include "src/sampling/regular_sampling_particles_vdb.hpp"
#include "src/sampling/sampling_particles_vdb.hpp"
static T& Lof(Simulation& s,int a){
#ifdef THREEDIM
  return a==0?s.Lx:a==1?s.Ly:s.Lz;
#else
  return a==0?s.Lx:s.Ly;
#endif
}
static bool kept(const std::vector<double>& x, const std::vector<double>& L, double dx, int crop){ (void)dx;
  if(D_==2) return crop!=1 || x[1] < 0.05+100*(x[0]-L[0])*(x[0]-L[0])-0.5*dx;
  double r2=(x[0]-L[0]/2)*(x[0]-L[0]/2)+(x[D_-1]-L[D_-1]/2)*(x[D_-1]-L[D_-1]/2); if(crop==1) return r2<L[0]*L[0]/4; if(crop==2){ double r=std::tanh(x[1])+1; return r2<r*r; } return true; }
static void check(Rep& r, Simulation& s, std::vector<std::vector<double>> want, double rho){
  r.exact("number of particles", s.Np, want.size()); auto& P=s.particles; size_t n=want.size(); r.ok("array lengths", P.x.size()==n&&P.v.size()==n&&P.pic.size()==n&&P.flip.size()==n&&P.eps_pl_dev.size()==n&&P.eps_pl_vol.size()==n&&P.eps_pl_vol_pradhana.size()==n&&P.delta_gamma.size()==n&&P.viscosity.size()==n&&P.muI.size()==n&&P.F.size()==n&&P.Bmat.size()==n&&P.tau.size()==n);
  r.exact("density", s.rho, rho); r.close("mass", s.particle_mass, rho*s.particle_volume, 0, 1e-12); if(r.fails.size()) return;
  for(size_t p=0;p<n;p++){ r.ok("new particle", P.v[p]==TV::Zero()&&P.F[p]==TM::Identity()&&P.tau[p]==TM::Zero()&&P.eps_pl_dev[p]==0&&P.eps_pl_vol[p]==0&&P.Bmat[p]==TM::Zero()); }
  std::vector<std::vector<double>> got; for(size_t p=0;p<n;p++){ std::vector<double> x; for(int a=0;a<D_;a++) x.push_back(P.x[p](a)); got.push_back(x); }
  auto key=[](const std::vector<double>& a){ std::vector<long long> k; for(double x:a) k.push_back(std::llround(x*1e8)); return k; }; auto lt=[&](auto&a,auto&b){ return key(a)<key(b); }; std::sort(got.begin(),got.end(),lt); std::sort(want.begin(),want.end(),lt);
  for(size_t p=0;p<n;p++) for(int a=0;a<D_;a++) r.close("position", got[p][a], want[p][a], 1, 1e-7); }
static void lattice(In& in, Rep& r){
  bool vdb=in.b("vdb"); Simulation s; { Quiet q; s.reduce_verbose=true; } s.rho=in.lg("rho",100,3000); double rho=s.rho, ppc=in("ppc",0.7,20); double sp=in.lg("sp",0.02,1); s.dx=sp*std::pow(ppc,1.0/D_); double dx=s.dx; std::vector<double> L,o; std::vector<int> N;
  for(int a=0;a<D_;a++){ N.push_back(in.i("n",0,D_==2?14:7)); L.push_back((N[a]+in("rem",0.05,0.95))*sp); o.push_back(vdb?in("o",-3,3):0); if(!vdb) Lof(s,a)=L[a]; }
  int crop=in.i("crop",0,3); TV lo,hi; for(int a=0;a<D_;a++){ lo(a)=o[a]; hi(a)=o[a]+L[a]; } ObjectVdb ob(lo,hi); { Quiet q; if(vdb) regularSampleParticlesFromVdb(s,ob,ppc); else regularSampleParticles(s,ppc,crop); }
  std::vector<std::vector<double>> want; int q[3]; N.resize(3,1); for(q[0]=0;q[0]<N[0];q[0]++)for(q[1]=0;q[1]<N[1];q[1]++)for(q[2]=0;q[2]<(D_==3?N[2]:1);q[2]++){ std::vector<double> x; TV X; for(int a=0;a<D_;a++){ x.push_back(o[a]+(q[a]+0.5)*sp); X(a)=x[a]; } if(vdb?ob.inside(X):kept(x,L,dx,crop)) want.push_back(x); }
  r.close("cell size kept", s.dx, dx, 0, 1e-12); r.close("particle volume", s.particle_volume, std::pow(sp,D_), 0, 1e-9); for(int a=0;a<D_;a++) r.close("extent", Lof(s,a), L[a], 1, 1e-9); check(r,s,want,rho); }
static void random_(In& in, Rep& r){
  bool vdb=in.b("vdb"); Simulation s; s.rho=in.lg("rho",100,3000); double rho=s.rho, ppc=in("ppc",0.7,20), rad=in("rad",0.01,1); std::vector<double> L,o; double V=1; std::array<T,D_> a0,b0; TV lo,hi;
  for(int a=0;a<D_;a++){ L.push_back(in.lg("L",0.2,5)); o.push_back(vdb?in("o",-3,3):0); if(!vdb) Lof(s,a)=L[a]; V*=L[a]; lo(a)=o[a]; hi(a)=o[a]+L[a]; a0[a]=lo(a); b0[a]=hi(a); } s.dx=in("dx0",0.1,1);
  int crop=in.i("crop",0,3); unsigned att=in.i("att",1,50), sd=in.i("seed",0,1000); if(vdb){ att=30; sd=42; } ObjectVdb ob(lo,hi); { Quiet q; if(vdb) sampleParticlesFromVdb(s,ob,rad,ppc); else sampleParticles(s,rad,ppc,crop,att,sd); }
  std::array<T,D_> b1; for(int a=0;a<D_;a++) b1[a]=vdb?o[a]+((o[a]+L[a])-o[a]):L[a]; (void)b1; auto S=thinks::PoissonDiskSampling((T)rad,a0,b0,att,sd); double dx=std::pow(ppc*V/S.size(),1.0/D_); std::vector<std::vector<double>> want;
  for(auto&x:S){ std::vector<double> y(x.begin(),x.end()); TV X; for(int a=0;a<D_;a++) X(a)=y[a]; if(vdb?ob.inside(X):kept(y,L,dx,crop)) want.push_back(y); }
  r.close("cell size", s.dx, dx, 0, 1e-10); r.close("particle volume", s.particle_volume, V/S.size(), 0, 1e-10); for(int a=0;a<D_;a++) r.close("extent", Lof(s,a), L[a], 1, 1e-9); check(r,s,want,rho); }
std::vector<Drv> drivers(){ return {{"lattice",lattice,2},{"random",random_,2}}; }
