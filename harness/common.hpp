// Conformance harness: drives the compiled real code on generated inputs and compares it with the contracts.
#pragma once
#include <bits/stdc++.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <omp.h>
#include <Eigen/Core>
#include <Eigen/Dense>
#define private public
#include "src/simulation/simulation.hpp"
#undef private

struct In {
  std::mt19937_64 rng; std::map<std::string,double> ov; std::vector<std::pair<std::string,double>> log; uint64_t cs;
  In(uint64_t s, const std::map<std::string,double>& o): rng(s*0x9E3779B97F4A7C15ull+12345), ov(o), cs(s) { rng(); }
  double u(){ return (rng()>>11)*(1.0/9007199254740992.0); }
  bool has(const std::string& n){ return ov.count(n)>0; }
  double put(const std::string& n, double v){ if (log.size()<400) log.emplace_back(n,v); return v; }
  double operator()(const std::string& n, double lo, double hi){ double r=u(); auto it=ov.find(n); if (it!=ov.end() && std::isfinite(it->second)) return put(n,std::min(hi,std::max(lo,it->second)));
    double v=lo+(hi-lo)*u(); if (r<0.03) v=lo; else if (r<0.06) v=hi; else if (r<0.10 && lo<=0 && hi>=0) v=0; return put(n,v); }
  double lg(const std::string& n, double lo, double hi){ double r=u(); auto it=ov.find(n); if (it!=ov.end() && it->second>0) return put(n,std::min(hi,std::max(lo,it->second))); (void)r; return put(n,std::exp(std::log(lo)+(std::log(hi)-std::log(lo))*u())); }
  int i(const std::string& n, int lo, int hi){ uint64_t r=rng(); auto it=ov.find(n); if (it!=ov.end()) return (int)put(n,std::min(hi,std::max(lo,(int)std::llround(it->second)))); return (int)put(n,lo+(int)(r%(uint64_t)(hi-lo+1))); }
  bool b(const std::string& n){ return i(n,0,1)!=0; }
};

struct Rep {
  std::vector<std::string> fails; long checks=0;
  void fail(const char* f, ...){ char b[900]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); if (fails.size()<5) fails.push_back(b); }
  // |a-b| <= rel*scale + abs
  bool close(const char* what, double a, double b, double scale, double rel=1e-9){ checks++; if (!(std::abs(a-b) <= rel*(std::abs(scale)+std::abs(a)+std::abs(b)) + 1e-300)) { fail("%s: got %.17g expected %.17g (scale %.3g)", what,a,b,scale); return false; } return true; }
  bool exact(const char* what, double a, double b){ checks++; if (!(a==b) && !(std::isnan(a)&&std::isnan(b))) { fail("%s: got %.17g expected %.17g", what,a,b); return false; } return true; }
  bool ok(const char* what, bool c){ checks++; if (!c) fail("%s", what); return c; }
  template<class V> bool vclose(const char* what, const V& a, const V& b, double scale, double rel=1e-9){ bool r=true; for (int i=0;i<a.size();i++) r = close((std::string(what)+"["+std::to_string(i)+"]").c_str(), a(i), b(i), scale, rel) && r; return r; }
};

const int D_ = DIMENSION;
const char AXN[4]="xyz";

// reference kernel (independent of the code under test)
inline double refN(double u){ double a=std::abs(u);
#if SPLINEDEG==3
  if (a<1) return 0.5*a*a*a-a*a+2.0/3.0; if (a<2) return (2-a)*(2-a)*(2-a)/6.0; return 0;
#elif SPLINEDEG==2
  if (a<0.5) return 0.75-a*a; if (a<1.5) return 0.5*(1.5-a)*(1.5-a); return 0;
#else
  return a<1?1-a:0;
#endif
}
inline double refdN(double u){ double a=std::abs(u), s=u<0?-1:1;
#if SPLINEDEG==3
  if (a<1) return s*(1.5*a*a-2*a); if (a<2) return -0.5*s*(2-a)*(2-a); return 0;
#elif SPLINEDEG==2
  if (a<0.5) return -2*u; if (a<1.5) return -s*(1.5-a); return 0;
#else
  return a<1?-s:0;
#endif
}
#if SPLINEDEG==3
const double DINV=3;
#elif SPLINEDEG==2
const double DINV=4;
#else
const double DINV=0;
#endif

struct Quiet { std::streambuf* o; std::ostringstream s; Quiet(){ o=std::cout.rdbuf(s.rdbuf()); } ~Quiet(){ std::cout.rdbuf(o); } };

typedef void (*Driver)(In&, Rep&);
struct Drv { const char* name; Driver f; int weight; };
extern std::vector<Drv> drivers();

static std::string jstr(const std::string& s){ std::string o="\""; for(char c: s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if((unsigned char)c<32) o+=' '; else o+=c;} return o+"\""; }

int main(int argc,char**argv){
  uint64_t seed=1; long n=1000; double tmax=20; std::string hint; long only=-1; std::string od; int maxfail=3;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{return std::string(argv[++i]);};
    if(a=="--seed") seed=std::stoull(nx()); else if(a=="--n") n=std::stol(nx()); else if(a=="--tmax") tmax=std::stod(nx()); else if(a=="--hint") hint=nx(); else if(a=="--case") only=std::stol(nx()); else if(a=="--driver") od=nx(); }
  std::vector<std::map<std::string,double>> hints; 
  if(!hint.empty()){ std::ifstream f(hint); std::string l; std::map<std::string,double> m; while(std::getline(f,l)){ if(l=="--"){ hints.push_back(m); m.clear(); continue;} auto p=l.rfind('='); if(p!=std::string::npos) try{ m[l.substr(0,p)]=std::stod(l.substr(p+1)); }catch(...){} } if(!m.empty()) hints.push_back(m); }
  auto t0=std::chrono::steady_clock::now(); auto el=[&]{return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();};
  long evals=0, checks=0; int nf=0; 
  auto ds=drivers(); int nd=0; for(auto&d:ds) if(od.empty()||od==d.name) nd++;
  int k=0;
  for(auto& d: ds){ if(!od.empty() && od!=d.name) continue; k++;
    double tend=tmax*k/nd; int df=0; long ev=0;
    long hn = (long)hints.size()*40;
    for(long c=0;c<n/std::max(1,d.weight)+hn && el()<tend;c++){
      long cs = only>=0? only : c; std::map<std::string,double> o; if(only<0 && c<hn && !hints.empty()) o=hints[c%hints.size()];
      In in(seed*1000003ull+cs, o); Rep r;
      { Quiet q; try { d.f(in,r); } catch(std::exception& e){ r.fail("exception %s", e.what()); } }
      evals++; ev++; checks+=r.checks;
      if(!r.fails.empty()){ nf++; df++;
        std::string s="FAIL {\"driver\":"+jstr(d.name)+",\"case\":"+std::to_string(cs)+",\"seed\":"+std::to_string(seed)+",\"messages\":["; for(size_t i=0;i<r.fails.size();i++) s+=(i?",":"")+jstr(r.fails[i]); s+="],\"inputs\":{";
        char b[64]; bool f1=true; for(auto&p:in.log){ snprintf(b,sizeof b,"%.17g",p.second); std::string v=b; if(v.find_first_of("ni")!=std::string::npos) v="\""+v+"\""; s+=(f1?"":",")+jstr(p.first)+":"+v; f1=false; } s+="}}";
        puts(s.c_str()); fflush(stdout); if(df>=maxfail) break; }
      if(only>=0) break; }
    printf("DRIVER %s %ld\n", d.name, ev);
  }
  printf("DONE %ld %ld %d\n", evals, checks, nf); fflush(stdout); _exit(0);
}
