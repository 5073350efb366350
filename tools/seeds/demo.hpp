// helpers of the demonstrations: a small grid and particles inside it
#pragma once
#include <bits/stdc++.h>
#include <sys/stat.h>
#include <omp.h>
#include <Eigen/Core>
#include <Eigen/Dense>
#define private public
#include "src/simulation/simulation.hpp"
#undef private
static int bad=0;
#define EXPECT(c, ...) do{ if(!(c)){ bad=1; fprintf(stderr,"FAILED: " __VA_ARGS__); fprintf(stderr,"\n"); } }while(0)
static bool near_(double a,double b,double s=1,double r=1e-9){ return std::abs(a-b)<=r*std::abs(s)+1e-300; }
struct Quiet { std::streambuf* o; std::ostringstream s; Quiet(){ o=std::cout.rdbuf(s.rdbuf()); } ~Quiet(){ std::cout.rdbuf(o); } };
#ifdef THREEDIM
static const int D_=3;
#else
static const int D_=2;
#endif
static std::mt19937 rng_(7);
static double U(double a,double b){ return a+(b-a)*std::uniform_real_distribution<double>(0,1)(rng_); }
static void consts(Simulation& s){ s.one_over_dx=1/s.dx; s.one_over_dx_square=1/s.dx/s.dx; s.apicDinverse=4/s.dx/s.dx; }
static void grid_(Simulation& s,int nx=8,int ny=7,int nz=6,double dx=0.1,double c0=-0.3){
  s.dx=dx; consts(s); s.Nx=nx; s.Ny=ny; s.grid_nodes=nx*ny; s.grid.xc=c0; s.grid.yc=c0; s.grid.x.clear(); s.grid.y.clear();
  for(int i=0;i<nx;i++) s.grid.x.push_back(c0+i*dx); for(int i=0;i<ny;i++) s.grid.y.push_back(c0+i*dx);
#ifdef THREEDIM
  s.Nz=nz; s.grid_nodes*=nz; s.grid.zc=c0; s.grid.z.clear(); for(int i=0;i<nz;i++) s.grid.z.push_back(c0+i*dx);
#endif
  int n=s.grid_nodes; s.grid.v.assign(n,TV::Zero()); s.grid.flip.assign(n,TV::Zero()); s.grid.force.assign(n,TV::Zero()); s.grid.mass.assign(n,0); s.grid.friction.assign(n,0);
}
static unsigned gn_(Simulation& s,int a){
#ifdef THREEDIM
  if(a==2) return s.Nz;
#endif
  return a==0?s.Nx:s.Ny; }
static void parts_(Simulation& s,int np){
  s.Np=np; s.particles=Particles(np); s.particle_mass=0.7; s.particle_volume=0.3; s.dt=1e-3; s.n_threads=2; s.reduce_verbose=true; s.use_mibf=false; s.use_musl=false; s.flip_ratio=-0.9;
  for(int p=0;p<np;p++){ for(int a=0;a<D_;a++){ s.particles.x[p](a)=s.grid.xc+s.dx*(1+U(0.01,0.99)*((double)gn_(s,a)-4)+U(0.01,0.99)*0); s.particles.v[p](a)=U(-1,1); for(int b=0;b<D_;b++){ s.particles.Bmat[p](a,b)=U(-1,1)*s.dx*s.dx; s.particles.tau[p](a,b)=U(-5,5);} } s.particles.F[p]=TM::Identity(); s.particles.muI[p]=U(0,1); } }
static double kN(double u){ u=std::abs(u); return u<0.5?0.75-u*u:u<1.5?0.5*(1.5-u)*(1.5-u):0; }
static double kd(double u){ double a=std::abs(u); return a<0.5?-2*u:a<1.5?(u<0?1.0:-1.0)*(1.5-a):0; }
struct W { unsigned l; double w; TV g,d; };
static std::vector<W> sten(Simulation& s,const TV& x){ std::vector<W> o; int nz=1;
#ifdef THREEDIM
  nz=s.Nz;
#endif
  for(int i=0;i<(int)s.Nx;i++)for(int j=0;j<(int)s.Ny;j++)for(int k=0;k<nz;k++){ int q[3]={i,j,k}; double n[3]={1,1,1},g[3]; W w; for(int a=0;a<D_;a++){ double xi=s.grid.xc+q[a]*s.dx,u=(x(a)-xi)/s.dx; n[a]=kN(u); g[a]=kd(u)/s.dx; w.d(a)=xi-x(a);} w.w=n[0]*n[1]*n[2]; if(w.w==0) continue; for(int a=0;a<D_;a++){ double t=g[a]; for(int b=0;b<D_;b++) if(b!=a) t*=n[b]; w.g(a)=t; } w.l=(i*s.Ny+j)*nz+k; o.push_back(w);} return o; }
