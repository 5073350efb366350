# planted bugs: written from the property text and the code, independent of the checks
P2G='src/simulation/p2g.cpp'; G2P='src/simulation/g2p.cpp'; TOOLS='src/tools.hpp'; SIMC='src/simulation/simulation.cpp'
EUL='src/simulation/explicit_euler_update.cpp'; MUS='src/simulation/musl.cpp'; POS='src/simulation/position_update.cpp'; DEF='src/simulation/deformation_update.cpp'
PLA='src/simulation/plasticity.cpp'; BC_='src/simulation/boundary_collision.cpp'; REM='src/simulation/remesh.cpp'; DT='src/simulation/update_dt.cpp'; PBC='src/simulation/pbc.cpp'; SAVE='src/simulation/save_data.cpp'

seed('p2g-affine-3d-axis', 'C02', [(P2G, 'posdiffvec(2) = zi-xp(2);', 'posdiffvec(2) = zi-xp(1);')],
'''int main(){ Simulation s; grid_(s); parts_(s,5); auto P=s.particles; std::vector<TV> mv(s.grid_nodes,TV::Zero());
 for(int p=0;p<5;p++) for(auto&w: sten(s,P.x[p])) mv[w.l]+=s.particle_mass*w.w*(P.v[p]+P.Bmat[p]*w.d*s.apicDinverse);
 { Quiet q; s.P2G(); } for(unsigned l=0;l<s.grid_nodes;l++) EXPECT((s.grid.mass[l]*s.grid.v[l]-mv[l]).norm()<1e-9,"momentum at node %u",l); return bad; }''',
 'a 3D build with an affine transfer scheme and a particle whose y and z offsets differ', 'the affine momentum contribution along z uses the wrong component, so angular momentum is not conserved', flags='-DTHREEDIM')

seed('kernel-cubic-grad', 'C01', [(TOOLS, 'return -0.5 * sgn(u) * (2.0 - uabs) * (2.0 - uabs);', 'return -0.5 * sgn(u) * (2.0 - uabs);')],
'''int main(){ for(double u=-1.95;u<2;u+=0.0731){ double h=1e-5,d=(N(u+h)-N(u-h))/2/h; EXPECT(near_(dNdu(u),d,1,1e-6),"derivative at %g",u);} return bad; }''',
 'a cubic-spline build and a node between one and two cells away', 'the gradient kernel is no longer the derivative of the kernel', spline=3)

seed('euler-empty-threshold', 'C03', [(EUL, 'if (mi > 0){', 'if (mi > 1e-4 * particle_mass){')],
'''int main(){ Simulation s; grid_(s); parts_(s,1); for(unsigned l=0;l<s.grid_nodes;l++){ s.grid.mass[l]=1e-6; for(int a=0;a<D_;a++){s.grid.v[l](a)=U(-1,1); s.grid.force[l](a)=0;} } s.gravity=TV::Constant(-3); auto G=s.grid; { Quiet q; s.explicitEulerUpdate(); }
 for(unsigned l=0;l<s.grid_nodes;l++) EXPECT((s.grid.v[l]-G.v[l]-s.dt*s.gravity).norm()<1e-12,"node %u",l); return bad; }''',
 'a node that carries very little mass (particle at the very edge of its support)', 'nearly empty nodes no longer obey the equation of motion')

seed('aflip-boundary-ratio', 'C04', [(G2P, 'if (flip_ratio >= -1){ // PIC-FLIP or AFLIP', ('if (flip_ratio > -1){ // PIC-FLIP or AFLIP', 'all'))],
'''int main(){ for(double fr: {-1.0,-0.5,0.3}){ Simulation s; grid_(s); parts_(s,4); s.flip_ratio=fr; s.use_musl=true; for(unsigned l=0;l<s.grid_nodes;l++) for(int a=0;a<D_;a++){ s.grid.v[l](a)=U(-1,1); s.grid.flip[l](a)=U(-1,1);} { Quiet q; s.G2P(); }
 for(int p=0;p<4;p++){ TV f=TV::Zero(); for(auto&w: sten(s,s.particles.x[p])) f+=w.w*s.grid.flip[w.l]; EXPECT((s.particles.flip[p]-f).norm()<1e-10,"flip increment, ratio %g",fr);} } return bad; }''',
 'the affine FLIP scheme with ratio exactly -1', 'the velocity increment is not transferred for pure AFLIP, so particle velocities never change')

seed('musl-affine-dropped-weight', 'C05', [(MUS, 'if (flip_ratio < 0){ // APIC', ('if (flip_ratio < -1){ // APIC', 'all'))],
'''int main(){ Simulation s; grid_(s); parts_(s,4); s.flip_ratio=-0.95; s.use_musl=true; auto P=s.particles; std::vector<TV> mv(s.grid_nodes,TV::Zero());
 for(int p=0;p<4;p++){ for(int a=0;a<D_;a++){ s.particles.pic[p](a)=U(-1,1); s.particles.flip[p](a)=U(-1,1);} TV v=0.95*(s.particles.v[p]+s.particles.flip[p])+0.05*s.particles.pic[p]; for(auto&w: sten(s,P.x[p])){ s.grid.mass[w.l]+=s.particle_mass*w.w; mv[w.l]+=s.particle_mass*w.w*(v+P.Bmat[p]*w.d*s.apicDinverse);} }
 { Quiet q; s.MUSL(); } for(unsigned l=0;l<s.grid_nodes;l++) EXPECT((s.grid.mass[l]*s.grid.v[l]-mv[l]).norm()<1e-9,"momentum at node %u",l); return bad; }''',
 'the MUSL option together with a blended affine scheme (ratio in [-1,0))', 'the re-projection loses the affine momentum')
PLATE='src/objects/object_plate.hpp'; BUMP='src/objects/object_bump.hpp'; SILO='src/objects/object_silo.hpp'
seed('remesh-lower-corner', 'C06', [(REM, "low_y = low_y_init + reduction_factor * dx;", ("low_y = low_y_init + (reduction_factor + (reduction_factor > 2 ? 2 : 0)) * dx;", 'all'))],
'''int main(){ Simulation s; s.dx=0.1; consts(s); parts_(s,3); s.grid_reference_point=TV::Constant(1e20); for(int p=0;p<3;p++) s.particles.x[p]=TV::Constant(0.03+0.37*p); { Quiet q; s.remeshFixedInit(2,2,2); }
 for(int k=0;k<12;k++){ for(int p=0;p<3;p++) s.particles.x[p](1)+=0.06; { Quiet q; s.remeshFixedCont(); } for(int p=0;p<3;p++) for(int a=0;a<2;a++){ auto& g=a?s.grid.y:s.grid.x; double c=(s.particles.x[p](a)-g[0])/s.dx; EXPECT(c>=1 && c<=g.size()-2,"step %d particle %d axis %d cell %g of %zu",k,p,a,c,g.size()); } } return bad; }''',
 'a body that rises by more than three cells above its initial position', 'the mesh shrinks too much at its lower side and no longer has a full stencil below the lowest particle')

seed('frame-end-early', 'C07', [(SIMC, 'if(frame_dt*(frame+1) - time < min_dt*1.1){', 'if(frame_dt*(frame+1) - time < std::max(min_dt*1.1, 0.5*dt)){')],
'''static std::vector<double> saved; 
int main(){ Simulation s; s.dx=0.1; s.rho=1000; s.E=1e6; s.nu=0.3; s.is_initialized=true; s.save_sim=true; s.reduce_verbose=true; s.end_frame=3; s.fps=100; s.plastic_model=PlasticModel::NoPlasticity; s.elastic_model=ElasticModel::Hencky; s.cfl=0.5; s.cfl_elastic=0.5; s.Np=2; s.particles=Particles(2); s.particles.x[1]=TV::Constant(0.05); s.particle_mass=1; s.particle_volume=1e-3; s.grid_reference_point=TV::Constant(1e20); s.flip_ratio=-0.95; s.pbc=false; s.n_threads=1;
 s.particles.v[0]=s.particles.v[1]=TV::Constant(3.0); s.gravity=TV::Zero(); { Quiet q; s.simulate(); } double e=s.time-3.0/100; EXPECT(s.frame>=3 && std::abs(e)<1e-6,"ended at frame %d time %g", (int)s.frame, s.time); return bad; }''',
 'a step that ends less than half a step before the end of a frame', 'a frame is declared complete (and saved) before its end time is reached, so output times are wrong')

seed('free-slip-front-sign', 'C08', [(BC_, '(obj->plate_type == PlateType::front && vz_rel > 0) || (obj->plate_type == PlateType::back && vz_rel < 0 )', '(obj->plate_type == PlateType::front && vz_rel > 0) || (obj->plate_type == PlateType::back && vz_rel > 0 )')],
'''int main(){ Simulation s; s.dx=1; consts(s); s.reduce_verbose=true; s.use_mibf=false; s.dt=0.1; s.plates.push_back(std::make_unique<ObjectPlate>(0.0,PlateType::back,BC::SlipFree,0.0)); TV X(0.2,0.3,-0.1), v(1,2,-3); { Quiet q; s.boundaryCollision(0,X,v); } EXPECT((v-TV(1,2,0)).norm()<1e-12,"moving into the back plate: vz=%g",v(2));
 v=TV(1,2,0.5); { Quiet q; s.boundaryCollision(0,X,v); } EXPECT((v-TV(1,2,0.5)).norm()<1e-12,"separating: vz=%g",v(2)); return bad; }''',
 'a 3D build with a free-slip back plate that material moves into', 'material penetrates the back plate and sticks to it when it separates', flags='-DTHREEDIM')

seed('friction-normal-after', 'C09', [(BC_, 'T fric_vel_n = friction * std::abs(vx_rel);', ('T fric_vel_n = friction * std::abs(vx_rel + obj->vx_object);', 'all'))],
'''int main(){ Simulation s; s.dx=1; consts(s); s.reduce_verbose=true; s.use_mibf=false; s.dt=0.1; s.plates.push_back(std::make_unique<ObjectPlate>(0.0,PlateType::left,BC::SlipFree,0.5,-1e15,1e15,2.0,0.0,0.0)); TV X(-0.5,0.3,0), v(0.5,3,4); { Quiet q; s.boundaryCollision(0,X,v); } EXPECT((v-TV(2,3*0.85,4*0.85)).norm()<1e-12,"moving plate: v=(%g,%g)",v(0),v(1)); return bad; }''',
 'a 3D side plate with friction that itself moves along its normal', 'friction uses the absolute instead of the relative normal speed', flags='-DTHREEDIM')

seed('silo-normal-slope', 'C10', [(SILO, 'n(1) =  sech_y * sech_y; // always >= 0', 'n(1) =  sech_y * sech_y * (1.0 + std::tanh(y)); // always >= 0')],
'''#include "src/objects/object_silo.hpp"
int main(){ ObjectSilo o(BC::SlipFree,0.3); for(double y: {-0.9,-0.3,0.4,1.0}) for(double th: {0.3,2.0,4.0}){ double R=std::tanh(y)+1, d=1-std::tanh(y)*std::tanh(y); TV X(R*cos(th),y,R*sin(th)); TV n=o.normal(X), t(d*cos(th),1,d*sin(th)); EXPECT(std::abs(n.norm()-1)<1e-12,"unit"); EXPECT(std::abs(n.dot(t))<1e-9,"normal not orthogonal at y=%g: %g",y,n.dot(t)); } return bad; }''',
 'a point on the silo wall away from y = 0', 'the normal is not orthogonal to the wall', flags='-DTHREEDIM')

seed('plate-startup-time', 'C11', [(PLATE, 'T factor = (time < load_factor * frame_dt)', 'T factor = (time + dt < load_factor * frame_dt)')],
'''int main(){ Simulation s; s.dx=1; consts(s); s.frame_dt=1; s.plates.push_back(std::make_unique<ObjectPlate>(0.0,PlateType::left,BC::NoSlip,0.0,-1,1,4.0,2.0,4.0,1.0)); s.dt=0.4; double x=0; for(s.time=0;s.time<2;s.time+=s.dt){ s.moveObjects(); double f=s.time<1?0.25:1; x+=s.dt*4*f; EXPECT(near_(s.plates[0]->pos_object,x,1,1e-12),"t=%g pos %g expected %g",s.time,s.plates[0]->pos_object,x);} return bad; }''',
 'a plate with a start-up phase, in the step that crosses its end', 'the plate accelerates one step too early')

PD = r'''struct Z { TM U,V,FT; double t,r; TV n; double t2,r2; };
static void mat(Simulation& s, PlasticModel pm){ s.Np=1; s.particles=Particles(1); s.reduce_verbose=true; s.exit=0; s.plastic_model=pm; s.elastic_model=ElasticModel::Hencky; s.hardening_law=HardeningLaw::ExpoExpl; s.mu=1e5; s.lambda=2e5; s.K=s.lambda+2*s.mu/D_; s.q_prefac=1.2; s.d_prefac=1/1.2; s.e_mu_prefac=2*1.2*s.mu; s.f_mu_prefac=2*1.44*s.mu; s.dt=1e-3; s.stress_tolerance=1e-5; s.q_max=4000; s.q_min=1000; s.q_cohesion=500; s.M=0.8; s.mu_1=0.5; s.mu_2=0.9; s.fac_Q=0.01; s.p_min=-1e9; s.p0=5000; s.beta=0.3; s.xi=2; s.visc_time=2e-3; s.visc_exponent=1; s.use_pradhana=false; s.use_mibf=false; s.use_duvaut_lions_formulation=false; }
static void trial(Simulation& s, Z& z, double p, double q){ z.t=-p/s.K; z.r=q/s.e_mu_prefac; TV h; h(0)=z.t/2+z.r/std::sqrt(2.0); h(1)=z.t/2-z.r/std::sqrt(2.0); TM R1,R2; R1<<std::cos(0.4),-std::sin(0.4),std::sin(0.4),std::cos(0.4); R2<<std::cos(1.1),-std::sin(1.1),std::sin(1.1),std::cos(1.1); TV e; e<<std::exp(h(0)),std::exp(h(1)); z.FT=R1*e.asDiagonal()*R2.transpose(); Eigen::JacobiSVD<TM> d(z.FT,Eigen::ComputeFullU|Eigen::ComputeFullV); z.U=d.matrixU(); z.V=d.matrixV(); s.particles.F[0]=z.FT; z.n<<1/std::sqrt(2.0),-1/std::sqrt(2.0); }
static void step(Simulation& s, Z& z){ unsigned c=0; TM F=z.FT; { Quiet q; s.plasticity(0,c,F); } TM G=z.U.transpose()*s.particles.F[0]*z.V; TV h; h<<std::log(G(0,0)),std::log(G(1,1)); z.t2=h.sum(); z.r2=(h(0)-h(1))/std::sqrt(2.0); }
'''
seed('softening-stress-of-trial', 'C12', [(PLA, '''                    hencky -= (1.0/d_prefac) * delta_gamma * hencky_deviatoric;
                    particles.F[p] = svd.matrixU() * hencky.array().exp().matrix().asDiagonal() * svd.matrixV().transpose();
                    particles.eps_pl_dev[p] += (1.0/d_prefac) * delta_gamma;
                    particles.delta_gamma[p] = delta_gamma / dt;
                    if (use_pradhana)''', '''                    TV hencky_new = hencky - (1.0/d_prefac) * delta_gamma * hencky_deviatoric;
                    particles.F[p] = svd.matrixU() * hencky_new.array().exp().matrix().asDiagonal() * svd.matrixV().transpose();
                    particles.eps_pl_dev[p] += (1.0/d_prefac) * delta_gamma;
                    particles.delta_gamma[p] = delta_gamma / dt;
                    if (use_pradhana)''')],
PD+r'''int main(){ for(double q: {500.,3000.}){ Simulation s; mat(s,PlasticModel::DPSoft); s.particles.eps_pl_dev[0]=0.1; Z z; trial(s,z,1500,q); step(s,z); TV h; h<<z.t2/2+z.r2/std::sqrt(2.),z.t2/2-z.r2/std::sqrt(2.); TV k=s.lambda*z.t2*TV::Ones()+2*s.mu*h; TM w=z.U*k.asDiagonal()*z.U.transpose(); EXPECT((w-s.particles.tau[0]).norm()<1e-6*s.mu,"q=%g: stress and deformation differ by %g",q,(w-s.particles.tau[0]).norm()); } return bad; }''',
 'the softening Drucker-Prager model and a state right of the tip that flows', 'the stored stress is that of the trial state, not of the stored deformation')
seed('softening-tip-without-shift', 'C13', [(PLA, 'if ((p_trial+p_shift) < p_proj){', 'if (p_trial < p_proj){')],
PD+r'''int main(){ Simulation s; mat(s,PlasticModel::DPSoft); s.use_pradhana=true; s.xi=20; s.particles.eps_pl_vol_pradhana[0]=600/s.K; Z z; double tip=-s.q_cohesion/s.M; trial(s,z,0,6000); step(s,z); double q2=s.e_mu_prefac*z.r2, p2=-s.K*z.t2, y=s.M*(p2-600-tip); EXPECT(std::abs(q2)<=std::max(y,0.0)+1e-3,"shear stress %g, strength %g",q2,y); return bad; }''',
 'softening together with the volume-correction option, a dilated particle whose corrected pressure is between the old and the softened tip', 'the shear stress is reversed and can exceed the strength')
seed('rate-duvaut-lions', 'C14', [(PLA, 'particles.delta_gamma[p] = d_prefac * eps_pl_dev_inst / dt;', 'particles.delta_gamma[p] = (q_trial - q_stress) / (f_mu_prefac * dt);')],
PD+r'''int main(){ for(int dl=0;dl<2;dl++){ Simulation s; mat(s,PlasticModel::MCCVisc); s.use_duvaut_lions_formulation=dl; Z z; trial(s,z,4000,6000); step(s,z); double w=s.d_prefac*(z.r-z.r2)/s.dt; EXPECT(near_(s.particles.delta_gamma[0],w,w,1e-6),"rate %g expected %g",s.particles.delta_gamma[0],w); } return bad; }''',
 'the viscous Cam-clay model in the Duvaut-Lions formulation', 'the stored plastic strain rate is that of the inviscid return, larger than the strain actually booked')
seed('perzyna-closed-form-softening', 'C15', [(PLA, 'if (visc_exponent == 1 && xi == 0){', 'if (visc_exponent == 1){')],
PD+r'''int main(){ for(double xi: {0.,20.}){ Simulation s; mat(s,PlasticModel::VMVisc); s.xi=xi; Z z; trial(s,z,1000,9000); step(s,z); double g=s.particles.delta_gamma[0]*s.dt, q2=s.e_mu_prefac*z.r2, qy=s.q_min+(s.q_max-s.q_min)*std::exp(-xi*s.particles.eps_pl_dev[0]); double res=q2*s.dt/(s.visc_time*g+s.dt)-qy; EXPECT(std::abs(res)<0.011,"xi=%g residual %g",xi,res); } return bad; }''',
 'the viscous von Mises model with linear viscosity and softening', 'the overstress is measured against the strength before instead of after the step')
seed('mcc-no-tension', 'C16', [('src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp', '''    p = std::max(p, -beta * p0);
    p = std::min(p, p0);''', '''    p = std::max(p, beta > 0.1 ? -beta * p0 : T(0));
    p = std::min(p, p0);''')],
'''bool MCCRMAImplicitExponentialOnevar(T&,T&,int&,T,T,T,T,T,T,T);
int main(){ for(double be: {0.02,0.05,0.08,0.3}) for(double r: {-0.2,-0.06,0.01,0.5}){ double M=1,p00=1e4,K=1e6,mu=4e5,xi=5,ev=0,p=r*p00,q=3000,pt=p; int e=0; bool b; { Quiet z; b=MCCRMAImplicitExponentialOnevar(p,q,e,M,p00,be,mu,K,xi,ev); } if(!b||e||q<=1e-6) continue; double pc=p00*std::exp(-xi*(ev+(p-pt)/K)); double d=q*q-M*M*(pc-p)*(p+be*pc); EXPECT(std::abs(d)<1e-5*pc*pc,"beta=%g p/p0=%g: defect %g",be,r,d/pc/pc); } return bad; }''',
 'a weakly cohesive material in tension with exponential implicit hardening', 'the pressure is cut off at zero while the consolidation pressure belongs to the uncut one, so the result is not on its ellipse')

seed('pbc-wrap-backflow', 'C17', [(POS, 'else if (particles.x[p](0) < 0){', 'else if (particles.x[p](0) < 0 && particles.v[p](0) < 0){')],
'''int main(){ Simulation s; grid_(s); parts_(s,2); s.pbc=true; s.Lx=1.5; s.flip_ratio=0.95; s.dt=0.05; for(int p=0;p<2;p++){ s.particles.x[p](0)=0.02; s.particles.pic[p]=TV::Zero(); s.particles.flip[p]=TV::Zero(); s.particles.pic[p](0)=-1; s.particles.v[p](0)=p?4:-4; } { Quiet q; s.positionUpdate(); }
 for(int p=0;p<2;p++) EXPECT(near_(s.particles.x[p](0),1.47,1,1e-12),"particle %d left through x=0: x=%g",p,s.particles.x[p](0)); return bad; }''',
 'a particle that is carried out through the lower face by the grid velocity while its own (blended) velocity points inwards', 'the particle is not re-inserted at the opposite face and drifts out of the periodic domain')

seed('pbc-image-lower-range', 'C17', [(PBC, 'part_x(0) = Lx + diff;', 'part_x(0) = Lx + std::max(diff, 1e-3*dx);')],
'''int main(){ Simulation s; grid_(s,30); parts_(s,3); s.pbc=true; s.Lx=1.5; double xs[3]={0.0,0.00005,0.2}; for(int p=0;p<3;p++) s.particles.x[p](0)=xs[p]; { Quiet q; s.PBCAddParticles(4); } EXPECT(s.Np==6,"Np=%d",(int)s.Np); for(int p=0;p<3&&p+3<(int)s.particles.x.size();p++) EXPECT(near_(s.particles.x[3+p](0),1.5+xs[p],1,1e-12),"image at %.17g",s.particles.x[3+p](0)); return bad; }''',
 'periodic boundaries and a particle within a thousandth of a cell of the lower face', 'the image is not displaced by exactly one period')

seed('euler-shared-velocity', 'C18', [(EUL, '    TV dt_gravity = dt * gravity;\n', '    TV dt_gravity = dt * gravity;\n    TV old_vi;\n'), (EUL, 'TV old_vi = grid.v[index];', 'old_vi = grid.v[index];')],
'''int main(){ Simulation s; grid_(s,300,300,6,0.1,-0.3); parts_(s,1); s.n_threads=8; s.gravity=TV::Constant(-3); s.plates.push_back(std::make_unique<ObjectPlate>(-100.0,PlateType::bottom,BC::NoSlip,0.0)); 
 for(int k=0;k<60&&!bad;k++){ for(unsigned l=0;l<s.grid_nodes;l++){ s.grid.mass[l]=1; for(int a=0;a<D_;a++){s.grid.v[l](a)=U(-1,1); s.grid.force[l](a)=0;} } auto G=s.grid; { Quiet q; s.explicitEulerUpdate(); } int n=0;
 for(unsigned l=0;l<s.grid_nodes;l++) if((s.grid.flip[l]-s.dt*s.gravity).norm()>1e-9) n++; EXPECT(n==0,"%d nodes with a wrong increment",n); } return bad; }''',
 'more than one thread and two threads working on nodes at the same moment', 'threads overwrite each other\'s old velocity, so velocity increments depend on the schedule')

seed('musl-unsynchronised-sum', 'C18', [(MUS, '#pragma omp critical', '#pragma omp barrier')],
'''int main(){ Simulation s; grid_(s,200,200,4); parts_(s,4000); s.n_threads=8; s.flip_ratio=-0.95; s.use_musl=true; for(int p=0;p<4000;p++) for(int a=0;a<D_;a++){ s.particles.pic[p](a)=U(-1,1); s.particles.flip[p](a)=U(-1,1);} std::fill(s.grid.mass.begin(),s.grid.mass.end(),0.7); auto P=s.particles; std::vector<TV> mv(s.grid_nodes,TV::Zero());
 for(int p=0;p<4000;p++){ TV v=0.95*(P.v[p]+P.flip[p])+0.05*P.pic[p]; for(auto&w: sten(s,P.x[p])) mv[w.l]+=w.w*(v+P.Bmat[p]*w.d*s.apicDinverse); }
 for(int k=0;k<40&&!bad;k++){ s.particles=P; { Quiet q; s.MUSL(); } int n=0; for(unsigned l=0;l<s.grid_nodes;l++) if((s.grid.v[l]-mv[l]).norm()>1e-9) n++; EXPECT(n==0,"%d nodes lost momentum",n); } return bad; }''',
 'the MUSL option with several threads that finish their particles at the same time', 'partial sums of threads are lost in the re-projection')

seed('mui-initial-friction', 'C20', [(SIMC, 'if (plastic_model == PlasticModel::DPMui || plastic_model == PlasticModel::MCCMui){', 'if (plastic_model == PlasticModel::DPMui){')],
'''int main(){ for(auto m: {PlasticModel::DPMui,PlasticModel::MCCMui,PlasticModel::DPVisc}){ Simulation s; grid_(s); parts_(s,3); s.is_initialized=true; s.save_sim=false; s.E=1e6; s.nu=0.3; s.rho=1000; s.fps=10; s.end_frame=0; s.plastic_model=m; s.elastic_model=ElasticModel::Hencky; s.use_mibf=true; s.M=1.2; s.mu_1=0.4; s.mu_2=0.7; { Quiet q; s.simulate(); }
 for(int p=0;p<3;p++) EXPECT(s.particles.muI[p]==(m==PlasticModel::DPVisc?1.2:0.4),"model %d: initial friction %g",(int)m,s.particles.muI[p]); } return bad; }''',
 'the mu(I) Cam-clay model together with material-induced boundary friction', 'particles start with the wrong internal friction (Cam-clay slope instead of the static coefficient)')

seed('grid-file-transposed', 'C21', [(SAVE, 'grid_x_save[counter] = grid_x_node;', 'grid_x_save[(counter % Nx) * (grid_nodes/Nx) + counter / Nx] = grid_x_node;')],
'''#include "deps/tinyply.h"
int main(){ Simulation s; grid_(s); parts_(s,2); s.directory="./"; s.sim_name="o"; mkdir("o",0777); { Quiet q; s.saveGridData(); } int found=0;
 for(auto&c: tinyply::recorded()) if(c.names[0]=="x"){ found=1; for(unsigned i=0;i<s.Nx;i++) for(unsigned j=0;j<s.Ny;j++){ unsigned l=s.ind(i,j); EXPECT(c.data[2*l]==s.grid.x[i]&&c.data[2*l+1]==s.grid.y[j],"row %u holds (%g,%g)",l,c.data[2*l],c.data[2*l+1]); if(bad) return 1; } } EXPECT(found,"no coordinates"); return bad; }''',
 'a grid that is not square', 'coordinates and velocities in a row of the grid file belong to different nodes', deps=True)

seed('particle-file-friction-column', 'C21', [(SAVE, 'particles.muI.size(),\n                reinterpret_cast<uint8_t*>(particles.muI.data()),', 'particles.muI.size(),\n                reinterpret_cast<uint8_t*>(use_musl ? particles.viscosity.data() : particles.muI.data()),')],
'''#include "deps/tinyply.h"
int main(){ for(bool m: {false,true}){ Simulation s; grid_(s); parts_(s,4); s.use_musl=m; s.plastic_model=PlasticModel::DPMui; for(int p=0;p<4;p++){ s.particles.muI[p]=0.3+p; s.particles.viscosity[p]=20+p; } s.directory="./"; s.sim_name="o"; mkdir("o",0777); { Quiet q; s.saveParticleData(); } int found=0;
 for(auto&c: tinyply::recorded()) if(c.names[0]=="muI"){ found=1; for(int p=0;p<4;p++) EXPECT(c.data[p]==0.3+p,"musl %d particle %d friction %g",m,p,c.data[p]); } EXPECT(found,"no friction column"); } return bad; }''',
 'a mu(I) model together with the MUSL option', 'the friction column of the particle file holds the viscosity', deps=True)

SAMR='src/sampling/regular_sampling_particles.hpp'; SAMV='src/sampling/regular_sampling_particles_vdb.hpp'; SAMP='src/sampling/sampling_particles.hpp'
seed('cylinder-axis', 'C19', [(SAMR, '(square_samples[p][2] - Lz / 2.0)*(square_samples[p][2] - Lz / 2.0) < (Lx / 2.0)*(Lx / 2.0)', '(square_samples[p][2] - Lz / 2.0)*(square_samples[p][2] - Lz / 2.0) < (Lx / 2.0)*(Lz / 2.0)')],
'''#include "src/sampling/regular_sampling_particles.hpp"
int main(){ Simulation s; s.Lx=1.03; s.Ly=0.41; s.Lz=1.63; s.dx=0.1; s.rho=1000; { Quiet q; regularSampleParticles(s,8,1); } EXPECT(s.Np>100,"Np"); for(auto&x: s.particles.x){ double a=x(0)-s.Lx/2,b=x(2)-s.Lz/2; EXPECT(a*a+b*b<s.Lx*s.Lx/4,"outside the cylinder: %g %g",x(0),x(2)); if(bad) return 1; } return bad; }''',
 'a 3D cylinder sampled from a box that is not square in plan', 'particles are placed outside the requested cylinder', flags='-DTHREEDIM')

seed('random-volume-of-cropped', 'C19', [(SAMP, 'sim.Np = samples.size();\n        debug("    Number of particles samples: ", sim.Np);\n\n        sim.particles = Particles(sim.Np);\n        for(int p = 0; p < sim.Np; p++){\n            for(int d = 0; d < 2; d++){', 'sim.Np = samples.size();\n        debug("    Number of particles samples: ", sim.Np);\n        sim.particle_mass = sim.rho * Lx*Ly / T(sim.Np);\n\n        sim.particles = Particles(sim.Np);\n        for(int p = 0; p < sim.Np; p++){\n            for(int d = 0; d < 2; d++){')],
'''#include "src/sampling/sampling_particles.hpp"
int main(){ for(int crop: {0,1}){ Simulation s; s.Lx=0.3; s.Ly=1.1; s.rho=1500; { Quiet q; sampleParticles(s,(T)0.01,(T)6,crop); } EXPECT(s.Np>5,"Np=%d",(int)s.Np); EXPECT(near_(s.particle_mass,1500*s.particle_volume,s.particle_mass,1e-9),"shape %d: mass %g volume %g",crop,s.particle_mass,s.particle_volume); } return bad; }''',
 'random sampling cropped to a shape that removes samples', 'the particle mass is no longer density times particle volume, so the material is too heavy', deps=True)
