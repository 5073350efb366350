#include "world.hpp"
#include "deps/tinyply.h"
#include <filesystem>
namespace fs = std::filesystem;
struct Dir { std::string d; Dir(){ char b[]="/tmp/hsave.XXXXXX"; d=mkdtemp(b); d+="/"; fs::create_directory(d+"t"); } ~Dir(){ std::error_code e; fs::remove_all(d,e); } };
static Dir& dir(){ static Dir d; return d; }
static void prep(Simulation& s, In& in){ s.directory=dir().d; s.sim_name="t"; s.exit=0; s.frame=in.i("frame",0,1000); for(auto&f:fs::directory_iterator(dir().d+"t")) fs::remove(f.path()); tinyply::recorded().clear(); }
static std::map<std::string,std::vector<double>> cols(Rep& r, size_t n){ std::map<std::string,std::vector<double>> m;
  for(auto& c: tinyply::recorded()){ r.exact("rows",(double)c.count,(double)n); r.ok("element", c.element=="vertex"); size_t k=c.names.size(); for(size_t j=0;j<k;j++){ r.ok("distinct names", !m.count(c.names[j])); auto& v=m[c.names[j]]; for(size_t i=0;i<c.count;i++) v.push_back(c.data[i*k+j]); } } return m; }
static std::vector<std::string> lines(const std::string& f){ std::vector<std::string> o; std::ifstream i(dir().d+"t/"+f); std::string l; while(std::getline(i,l)) o.push_back(l); return o; }
static double num(const std::string& s){ return std::atof(s.c_str()); }
struct St { std::vector<double> v; };
static St st(Simulation& s){ St o; auto a=[&](double x){ o.v.push_back(x); }; for(unsigned p=0;p<s.particles.x.size();p++){ for(int i=0;i<D_;i++){ a(s.particles.x[p](i)); a(s.particles.v[p](i)); for(int j=0;j<D_;j++){ a(s.particles.F[p](i,j)); a(s.particles.tau[p](i,j)); } } a(s.particles.eps_pl_dev[p]); a(s.particles.eps_pl_vol[p]); a(s.particles.delta_gamma[p]); a(s.particles.muI[p]); a(s.particles.viscosity[p]); }
  for(unsigned l=0;l<s.grid.mass.size();l++){ a(s.grid.mass[l]); a(s.grid.friction[l]); for(int i=0;i<D_;i++) a(s.grid.v[l](i)); } a(s.Np); a(s.frame); a(s.time); a(s.dt); return o; }
static void parts(In& in, Rep& r){
  Simulation s; mkgrid(s,in); randgrid(s,in); mkparticles(s,in,in.i("np",0,6)); prep(s,in); s.plastic_model=PlasticModel(in.i("plastic_model",0,9)); s.q_prefac=in("q_prefac",0.3,2); for(auto&x:s.particles.viscosity) x=in("visc",0,10);
  std::string extra=in.b("extra")?"_x_":""; St a=st(s); s.saveParticleData(extra); St b=st(s); r.ok("state kept", a.v==b.v);
  auto m=cols(r,s.Np); int pm=(int)s.plastic_model; bool pl=pm!=0, mui=pm==8||pm==9, mib=mui||((pm==6||pm==7)&&s.use_mibf);
  r.ok("file", fs::exists(dir().d+"t/particles_f"+extra+std::to_string(s.frame)+".ply")); auto lw=lines("last_written.txt"); r.ok("last written", lw.size()==1 && lw[0]==std::to_string(s.frame));
  std::set<std::string> want={"p","q","Je"}; for(int k=0;k<D_;k++){ want.insert(std::string(1,AXN[k])); want.insert(std::string("v")+AXN[k]); } if(pl){ want.insert("eps_pl_vol"); want.insert("eps_pl_dev"); want.insert("delta_gamma"); } if(mib) want.insert("muI"); if(mui) want.insert("viscosity");
  for(auto& w: want) r.ok(("column "+w).c_str(), m.count(w)&&m[w].size()==s.Np); for(auto n: {"eps_pl_vol","eps_pl_dev","delta_gamma","muI","viscosity"}) r.ok("no spurious column", m.count(n)==want.count(n)); if(r.fails.size()) return;
  for(unsigned p=0;p<s.Np;p++){ auto& P=s.particles; for(int k=0;k<D_;k++){ r.exact("position",m[std::string(1,AXN[k])][p],P.x[p](k)); r.exact("velocity",m[std::string("v")+AXN[k]][p],P.v[p](k)); }
    double tr=0; for(int k=0;k<D_;k++) tr+=P.tau[p](k,k); double pr=-tr/D_, q=0; for(int i=0;i<D_;i++)for(int j=0;j<D_;j++){ double t=P.tau[p](i,j)+(i==j?pr:0); q+=t*t; }
    r.close("pressure",m["p"][p],pr,100,1e-10); r.close("shear stress",m["q"][p],s.q_prefac*std::sqrt(q),10,1e-10);
    auto& F=P.F[p]; double J;
#ifdef THREEDIM
    J=F(0,0)*(F(1,1)*F(2,2)-F(1,2)*F(2,1))-F(0,1)*(F(1,0)*F(2,2)-F(1,2)*F(2,0))+F(0,2)*(F(1,0)*F(2,1)-F(1,1)*F(2,0));
#else
    J=F(0,0)*F(1,1)-F(0,1)*F(1,0);
#endif
    r.close("volume ratio",m["Je"][p],J,1,1e-10); if(pl){ r.exact("plastic volume strain",m["eps_pl_vol"][p],P.eps_pl_vol[p]); r.exact("plastic shear strain",m["eps_pl_dev"][p],P.eps_pl_dev[p]); r.exact("plastic rate",m["delta_gamma"][p],P.delta_gamma[p]); } if(mib) r.exact("friction",m["muI"][p],P.muI[p]); if(mui) r.exact("viscosity",m["viscosity"][p],P.viscosity[p]); } }
static void gridf(In& in, Rep& r){
  Simulation s; mkgrid(s,in); randgrid(s,in); prep(s,in); s.use_mibf=in.b("use_mibf"); std::string extra=in.b("extra")?"_x_":""; St a=st(s); s.saveGridData(extra); St b=st(s); r.ok("state kept", a.v==b.v);
  auto m=cols(r,s.grid_nodes); r.ok("file", fs::exists(dir().d+"t/grid_f"+extra+std::to_string(s.frame)+".ply")); r.ok("friction column", (m.count("friction")>0)==s.use_mibf); r.ok("mass column", m.count("mass")); for(int k=0;k<D_;k++){ r.ok("coordinate column", m.count(std::string(1,AXN[k]))); r.ok("velocity column", m.count(std::string("v")+AXN[k])); }
  for(auto&c:m) r.ok("length", c.second.size()==s.grid_nodes); if(r.fails.size()) return; int q[3];
  for(q[0]=0;q[0]<(int)s.Nx;q[0]++)for(q[1]=0;q[1]<(int)s.Ny;q[1]++){
#ifdef THREEDIM
    for(q[2]=0;q[2]<(int)s.Nz;q[2]++){
#else
    q[2]=0; {
#endif
    unsigned l=lin(s,q); for(int k=0;k<D_;k++){ r.exact("node coordinate",m[std::string(1,AXN[k])][l],gax(s,k)[q[k]]); r.exact("node velocity",m[std::string("v")+AXN[k]][l],s.grid.v[l](k)); } r.exact("node mass",m["mass"][l],s.grid.mass[l]); if(s.use_mibf) r.exact("node friction",m["friction"][l],s.grid.friction[l]); } } }
static void info(In& in, Rep& r){
  Simulation s; mkgrid(s,in); mkparticles(s,in,in.i("np",1,9)); prep(s,in); s.end_frame=in.i("end_frame",0,5000); s.fps=in.i("fps",1,1000); St a=st(s); s.saveInfo(); St b=st(s); r.ok("state kept", a.v==b.v); auto l=lines("info.txt"); if(!r.ok("five lines", l.size()==5)) return;
  r.close("frames",num(l[0]),s.end_frame,0,1e-5); r.close("rate",num(l[1]),s.fps,0,1e-5); r.close("cell size",num(l[2]),s.dx,0,1e-5); r.close("particles",num(l[3]),s.Np,0,1e-5); r.close("volume",num(l[4]),s.particle_volume,0,1e-5); }
static void avg(In& in, Rep& r){
  Simulation s; mkgrid(s,in); mkparticles(s,in,in.i("np",1,9)); prep(s,in); TM C=rm(in,"c0",5),K=rm(in,"k0",5); T J=in("j0",-1,1); St a=st(s); s.computeAvgData(C,K,J); s.saveAvgData(); St b=st(s); r.ok("state kept", a.v==b.v);
  TM c=TM::Zero(),k=TM::Zero(); double js=0; for(unsigned p=0;p<s.Np;p++){ double j=s.particles.F[p].determinant()*std::exp(s.particles.eps_pl_vol[p]); js+=j; c+=s.particles.tau[p]; k+=s.particles.tau[p]*j; }
  r.vclose("mean Cauchy stress",C,TM(c/js),100,1e-10); r.vclose("mean Kirchhoff stress",K,TM(k/js),100,1e-10); r.close("mean volume ratio",J,js/s.Np,1,1e-10);
  std::string f=std::to_string(s.frame)+".csv"; auto row=[&](const std::string& n){ std::vector<double> o; auto l=lines(n+f); if(!r.ok("average file", l.size()==1)) return o; std::stringstream ss(l[0]); std::string t; while(std::getline(ss,t,',')) o.push_back(num(t)); return o; };
  auto x=row("avg_cauchy_frame_"), y=row("avg_kirchh_frame_"), z=row("avg_J_frame_"); if(!r.ok("entries", x.size()==D_*D_&&y.size()==D_*D_&&z.size()==1)) return; for(int i=0;i<D_;i++)for(int j=0;j<D_;j++){ r.close("Cauchy file",x[i*D_+j],C(i,j),0,1e-5); r.close("Kirchhoff file",y[i*D_+j],K(i,j),0,1e-5); } r.close("volume file",z[0],J,0,1e-5); }
std::vector<Drv> drivers(){ return {{"particlefile",parts,3},{"gridfile",gridf,2},{"infofile",info,1},{"averages",avg,2}}; }
