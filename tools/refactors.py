# behaviour-preserving edits, used to test that the checks stay quiet (tools/quiet.py)
P2G='src/simulation/p2g.cpp'; G2P='src/simulation/g2p.cpp'; TOOLS='src/tools.hpp'; SIMC='src/simulation/simulation.cpp'
EUL='src/simulation/explicit_euler_update.cpp'; MUS='src/simulation/musl.cpp'; POS='src/simulation/position_update.cpp'; DEF='src/simulation/deformation_update.cpp'
PLA='src/simulation/plasticity.cpp'; BC_='src/simulation/boundary_collision.cpp'; REM='src/simulation/remesh.cpp'; DT='src/simulation/update_dt.cpp'; PBC='src/simulation/pbc.cpp'; SAVE='src/simulation/save_data.cpp'
PLATE='src/objects/object_plate.hpp'; SAMR='src/sampling/regular_sampling_particles.hpp'
R=[]
def ref(id, edits, props): R.append((id, edits, props))
BASE='std::max(0, int(std::floor((xp(%d)-grid.%sc)*one_over_dx)) - 1)'
ref('p2g-helper-base', [(P2G,'void Simulation::P2G(){','static inline unsigned int baseNode(T x, T corner, T inv_dx){\n    const int cell = int(std::floor((x-corner)*inv_dx));\n    return cell > 1 ? cell - 1 : 0;\n}\n\nvoid Simulation::P2G(){')]+[(P2G,BASE%(i,c),'baseNode(xp(%d), grid.%sc, one_over_dx)'%(i,c)) for i,c in ((0,'x'),(1,'y'),(2,'z'))], 'C02 C03 C06 C18 C09')
ref('p2g-node-index', [(P2G,'grid_mass_local[ind(i,j)]  += weight;\n                        grid_v_local[ind(i,j)]     += particles.v[p] * weight;\n                        grid_force_local[ind(i,j)] += tau * weight_grad;','const unsigned int node = ind(i,j);\n                        grid_force_local[node] += tau * weight_grad;\n                        TV momentum = particles.v[p] * weight;\n                        grid_mass_local[node]  += weight;\n                        grid_v_local[node]     += momentum;')], 'C02 C03 C18')
ref('p2g-offset-loop', [(P2G,'for(int i = i_base; i < i_base+4; i++){\n                T xi','for(int di = 0; di < 4; ++di){\n                const int i = i_base + di;\n                T xi')], 'C02 C03 C06 C18')
ref('g2p-lambda-weight', [(G2P,'TV xp = particles.x[p];','const TV xp = particles.x[p];\n            auto shape = [&](int a, T node){ return N((xp(a)-node)*one_over_dx); };'),(G2P,'T wi = N((xp(0)-xi)*one_over_dx);','T wi = shape(0, xi);'),(G2P,'T wj = N((xp(1) - yi)*one_over_dx);','T wj = shape(1, yi);')], 'C04 C06 C18')
ref('g2p-reorder', [(G2P,'particles.pic[p] = vp;\n','particles.pic[p] = std::move(vp);\n'),(G2P,'Fe_trial = Fe_trial + dt * v_grad * Fe_trial;','Fe_trial = (TM::Identity() + dt * v_grad) * Fe_trial;')], 'C04 C14')
ref('euler-continue', [(EUL,'                if (mi > 0){\n','                if (!(mi > 0))\n                    continue;\n                {\n'),(EUL,'TV velocity_increment = -dt_particle_volume * grid.force[index] / mi + dt_gravity;','TV velocity_increment = dt_gravity;\n                    velocity_increment -= (dt_particle_volume / mi) * grid.force[index];')], 'C03 C18 C08')
ref('musl-blend-helper', [(MUS,'void Simulation::MUSL(){','static TV blend(const TV& v, const TV& increment, const TV& pic, T ratio){\n    const T a = std::abs(ratio);\n    return a * (v + increment) + (1 - a) * pic;\n}\n\nvoid Simulation::MUSL(){'),(MUS,'particles.v[p] = (-flip_ratio) * ( particles.v[p] + particles.flip[p] ) + (1 - (-flip_ratio)) * particles.pic[p];','particles.v[p] = blend(particles.v[p], particles.flip[p], particles.pic[p], flip_ratio);')], 'C05 C18 C17')
ref('musl-while', [(MUS,'for (int l = 0; l<grid_nodes; l++){\n        T mi = grid.mass[l];\n        if (mi > 0)\n            grid.v[l] /= (mi/particle_mass);\n        else\n            grid.v[l].setZero();\n    }','int l = 0;\n    while (l < grid_nodes){\n        const T mi = grid.mass[l];\n        if (mi <= 0)\n            grid.v[l] = TV::Zero();\n        else\n            grid.v[l] *= particle_mass / mi;\n        ++l;\n    }')], 'C05 C18')
ref('pos-wrap-rewrite', [(POS,'particles.x[p](0) = particles.x[p](0) - Lx;','particles.x[p](0) -= Lx;'),(POS,'particles.x[p](0) = Lx + particles.x[p](0);','particles.x[p](0) += Lx;'),(POS,'if (use_musl == false){','if (!use_musl){')], 'C17 C04 C18')
ref('pbc-lambda', [(PBC,'''            part_x(0) = -diff;
            particles.x.push_back(part_x);
            particles.v.push_back(particles.v[p]);
            particles.F.push_back(particles.F[p]);
            particles.Bmat.push_back(particles.Bmat[p]);
            particles.tau.push_back(particles.tau[p]);
            particles.muI.push_back(particles.muI[p]);
            num_add_pbc_particles++;
            continue; // go directly to next p''','            addImage(p, -diff);\n            continue; // go directly to next p'),
 (PBC,'    num_add_pbc_particles = 0;\n\n    for(int p = 0; p < Np; p++){\n\n        TV part_x = particles.x[p]; // copy\n        T diff;','    num_add_pbc_particles = 0;\n\n    auto addImage = [this](int p, T new_x){\n        TV image = particles.x[p];\n        image(0) = new_x;\n        particles.x.push_back(image);\n        particles.v.push_back(particles.v[p]);\n        particles.F.push_back(particles.F[p]);\n        particles.Bmat.push_back(particles.Bmat[p]);\n        particles.tau.push_back(particles.tau[p]);\n        particles.muI.push_back(particles.muI[p]);\n        num_add_pbc_particles++;\n    };\n\n    const int n_real = Np;\n    for(int p = 0; p < n_real; p++){\n\n        TV part_x = particles.x[p]; // copy\n        T diff;')], 'C17')
ref('pbc-resize', [(PBC,'particles.x.erase(   particles.x.end()   -num_add_pbc_particles, particles.x.end()   );','particles.x.resize(particles.x.size() - num_add_pbc_particles);'),(PBC,'particles.v.erase(   particles.v.end()   -num_add_pbc_particles, particles.v.end()   );','particles.v.resize(particles.v.size() - num_add_pbc_particles);')], 'C17')
ref('dt-manual-max', [(DT,'''    auto max_velocity_it = std::max_element( particles.v.begin(), particles.v.end(),
                                             []( const TV &v1, const TV &v2 )
                                             {
                                                 return v1.squaredNorm() < v2.squaredNorm();
                                             } );
    T max_speed = (*max_velocity_it).norm();''','''    T max_speed_sq = 0;
    for (const TV& v : particles.v)
        max_speed_sq = std::max(max_speed_sq, v.squaredNorm());
    const T max_speed = std::sqrt(max_speed_sq);''')], 'C07')
ref('dt-ifs', [(DT,'dt = std::min(dt_cfl, dt_max);','dt = dt_cfl;\n        if (dt_max < dt)\n            dt = dt_max;'),(DT,'    dt = std::min(dt, frame_dt*(frame+1) - time);\n    dt = std::min(dt, final_time         - time);','    const T remaining = std::min(frame_dt*(frame+1), final_time) - time;\n    if (remaining < dt)\n        dt = remaining;')], 'C07')
ref('bc-friction-helper', [(BC_,'void Simulation::boundaryCollision(int index, TV Xi, TV& vi){','static TV slide(const TV& v_tang, T dot, T friction){\n    const T speed = v_tang.norm();\n    if (friction <= 0)\n        return v_tang;\n    if (-dot * friction >= speed)\n        return TV::Zero();\n    return (1 + dot * friction / speed) * v_tang;\n}\n\nvoid Simulation::boundaryCollision(int index, TV Xi, TV& vi){'),
 (BC_,'''                    TV v_tang = v_rel - dot * n;
                    if (friction > 0){
                        if( -dot * friction < v_tang.norm() )
                            v_rel = v_tang + v_tang.normalized() * dot * friction;
                        else
                            v_rel.setZero();
                    } else{
                        v_rel = v_tang;
                    } // end non-zero friction''','                    v_rel = slide(v_rel - dot * n, dot, friction);')], 'C08 C09 C18')
ref('plate-switch', [(PLATE,'''        if (plate_type == PlateType::left){
            if (X_in(1) < pos_upper && X_in(1) > pos_lower && (X_in(0) - pos_object) <= 0){
                return true;
            } else{
                return false;
            }
        }
        else if (plate_type == PlateType::right){
            if (X_in(1) < pos_upper && X_in(1) > pos_lower && (pos_object - X_in(0)) <= 0){
                return true;
            } else{
                return false;
            }
        }
        else if (plate_type == PlateType::bottom){
            if (X_in(0) < pos_upper && X_in(0) > pos_lower && (X_in(1) - pos_object) <= 0){
                return true;
            } else{
                return false;
            }
        }
        else if (plate_type == PlateType::top){
            if (X_in(0) < pos_upper && X_in(0) > pos_lower && (pos_object - X_in(1)) <= 0){
                return true;
            } else{
                return false;
            }
        }
        else{
            debug("FATAL: invalid plate type");
            return false;
        }
    }

#endif''','''        const bool in_x = X_in(0) < pos_upper && X_in(0) > pos_lower;
        const bool in_y = X_in(1) < pos_upper && X_in(1) > pos_lower;
        switch (plate_type){
            case PlateType::left:   return in_y && X_in(0) <= pos_object;
            case PlateType::right:  return in_y && X_in(0) >= pos_object;
            case PlateType::bottom: return in_x && X_in(1) <= pos_object;
            case PlateType::top:    return in_x && X_in(1) >= pos_object;
            default:
                debug("FATAL: invalid plate type");
                return false;
        }
    }

#endif''')], 'C11 C08 C18')
ref('kernel-helper', [(TOOLS,'            return 0.5 * (1.5 - uabs) * (1.5 - uabs);','            const T r = 1.5 - uabs;\n            return 0.5 * r * r;'),(TOOLS,'        if (uabs < 0.5){\n            return 0.75 - uabs * uabs;\n        }','        if (uabs >= 1.5)\n            return 0;\n        if (uabs < 0.5){\n            return 0.75 - u * u;\n        }')], 'C01')
ref('simulate-for', [(SIMC,'    lambda = nu * E / ( (1.0 + nu) * (1.0 - 2.0*nu) ); // first Lame parameter\n    mu = E / (2.0*(1.0+nu)); // shear modulus','    mu = 0.5 * E / (1.0+nu); // shear modulus\n    lambda = 2.0 * mu * nu / (1.0 - 2.0*nu); // first Lame parameter'),(SIMC,'        time += dt;\n        current_time_step++;','        current_time_step += 1;\n        time = time + dt;')], 'C07 C20')
ref('simulate-frame-helper', [(SIMC,'''        if(frame_dt*(frame+1) - time < min_dt*1.1){
            frame++;
            std::cout << "End of frame " << frame << std::endl;
            if (save_sim){
                saveParticleData();
                if (save_grid)
                    saveGridData();
                // saveAvgData();
            }

        }''','''        const T frame_end = frame_dt*(frame+1);
        const bool frame_done = frame_end - time < min_dt*1.1;
        if (frame_done){
            ++frame;
            std::cout << "End of frame " << frame << std::endl;
            saveFrame();
        }'''),(SIMC,'    while (frame < end_frame){','    auto saveFrame = [this](){\n        if (!save_sim)\n            return;\n        saveParticleData();\n        if (save_grid)\n            saveGridData();\n    };\n\n    while (frame < end_frame){')], 'C07 C20')
ref('save-grid-ind', [(SAVE,'                grid_x_save[counter] = grid_x_node;\n                counter++;','#ifdef THREEDIM\n                grid_x_save[ind(i,j,k)] = grid_x_node;\n#else\n                grid_x_save[ind(i,j)] = grid_x_node;\n#endif')], 'C21')
ref('save-lambda', [(SAVE,'''        file.add_properties_to_element(
        "vertex",
        { "p" },
        type,
        pressure_vec.size(),
        reinterpret_cast<uint8_t*>(pressure_vec.data()),
        tinyply::Type::INVALID,
        0);

    file.add_properties_to_element(
        "vertex",
        { "q" },
        type,
        devstress_vec.size(),
        reinterpret_cast<uint8_t*>(devstress_vec.data()),
        tinyply::Type::INVALID,
        0);''','''    auto addScalar = [&file, type](const std::string& name, std::vector<T>& values){
        file.add_properties_to_element("vertex", { name }, type, values.size(), reinterpret_cast<uint8_t*>(values.data()), tinyply::Type::INVALID, 0);
    };
    addScalar("p", pressure_vec);
    addScalar("q", devstress_vec);''')], 'C21 C18')
ref('sample-range-for', [(SAMR,'''    std::vector<TV> square_samples;
    std::vector<TV> samples;

    for (int i = 0; i < nx; ++i)
    for (int j = 0; j < ny; ++j)
    {''','''    std::vector<TV> square_samples;
    std::vector<TV> samples;
    square_samples.reserve(nx * ny);

    for (int i = 0; i < nx; ++i)
    for (int j = 0; j < ny; ++j)
    {'''),(SAMR,'''        for(int p = 0; p < square_samples.size(); p++){
            T xp = square_samples[p][0];
            T y_gate = height + 100 * (xp - Lx) * (xp - Lx) - 0.5 * sim.dx;
            if (square_samples[p][1] < y_gate){
                samples.push_back(square_samples[p]);
            }
        }''','''        for (const TV& s : square_samples){
            const T d = s[0] - Lx;
            if (s[1] < height + 100 * d * d - 0.5 * sim.dx)
                samples.push_back(s);
        }''')], 'C19')
ref('def-hoist', [(DEF,'Fe_trial = Fe_trial + dt * v_grad * Fe_trial;\n        particles.F[p] = Fe_trial;','Fe_trial += dt * (v_grad * Fe_trial);\n        particles.F[p] = Fe_trial;')], 'C05 C18')
ref('remesh-fill', [(REM,'    grid.mass.resize(grid_nodes); std::fill( grid.mass.begin(), grid.mass.end(), 0.0        );','    grid.mass.assign(grid_nodes, 0.0);')], 'C06')
ref('remesh-range', [(REM,'''    auto max_x_it = std::max_element( particles.x.begin(), particles.x.end(),
                                             []( const TV &x1, const TV &x2 )
                                             {
                                                 return x1(0) < x2(0);
                                             } );
    T max_x = (*max_x_it)(0);''',('''    T max_x = particles.x[0](0);
    for (const TV& x : particles.x)
        max_x = std::max(max_x, x(0));''','all'))], 'C06 C17')
# ---- batch 2: constitutive code
PL='src/simulation/plasticity.cpp'
FREB='particles.F[p] = svd.matrixU() * hencky.array().exp().matrix().asDiagonal() * svd.matrixV().transpose();'
ref('pl-rebuild-lambda', [(PL,FREB,('particles.F[p] = rebuild(hencky);',)),(PL,'''        T  hencky_trace = hencky.sum();
''','''        auto rebuild = [&svd](const TV& strain) -> TM {
            const TV stretch = strain.array().exp();
            return svd.matrixU() * stretch.asDiagonal() * svd.matrixV().transpose();
        };
        T  hencky_trace = hencky.sum();
''')], 'C09 C10 C11 C12 C13 C14')
HK='''            T e_trace = hencky.sum();
            TV Kirchhoff_principal = lambda*e_trace*TV::Ones() + T(2.)*mu*hencky;
            particles.tau[p] = svd.matrixU() * Kirchhoff_principal.array().matrix().asDiagonal() * svd.matrixU().transpose();'''
ref('pl-stress-helper', [(PL,HK,('            particles.tau[p] = henckyStress(svd.matrixU(), hencky, lambda, mu);',)),(PL,'void Simulation::plasticity(','static TM henckyStress(const TM& U, const TV& strain, T lambda, T mu){\n    TV principal = T(2)*mu*strain;\n    principal += lambda*strain.sum()*TV::Ones();\n    return U * principal.asDiagonal() * U.transpose();\n}\n\nvoid Simulation::plasticity(')], 'C14 C09 C12')
ref('pl-vm-branch', [(PL,'''            T delta_gamma = hencky_deviatoric_norm - q_yield / e_mu_prefac; // this is eps_pl_dev_inst

            if (delta_gamma > 0){ // project to yield surface
                plastic_count++;
                particles.delta_gamma[p] = d_prefac * delta_gamma / dt;

                hencky -= delta_gamma * hencky_deviatoric;
                '''+FREB+'''
                particles.eps_pl_dev[p] += delta_gamma;
''','''            const bool yielding = e_mu_prefac * hencky_deviatoric_norm > q_yield;
            if (yielding){ // project to yield surface
                const T excess = hencky_deviatoric_norm - q_yield / e_mu_prefac; // this is eps_pl_dev_inst
                plastic_count += 1;
                particles.eps_pl_dev[p] += excess;
                particles.delta_gamma[p] = d_prefac * excess / dt;
                hencky = hencky - excess * hencky_deviatoric;
                '''+FREB+'''
''')], 'C09 C12 C14')
ref('pl-dpsoft-else', [(PL,'''            // right of tip AND inside yield surface, i.e., elastic states
            if ((p_trial+p_shift) > p_tip && q_trial <= q_yield) {''','''            // right of tip AND inside yield surface, i.e., elastic states
            else if (q_trial <= q_yield) {'''),(PL,'''            // right of tip AND outside yield surface
            if ((p_trial+p_shift) > p_tip && q_trial > q_yield) {
                plastic_count++;

                T temp''','''            // right of tip AND outside yield surface
            else {
                plastic_count++;

                T temp''')], 'C10 C12 C14')
ref('pl-vmv-while', [(PL,'''                    for (int iter = 0; iter < max_iter; iter++) {
                        if (iter == max_iter - 1){ // did not break loop
                            debug("VMVisc:''','''                    int iter = -1;
                    while (++iter < max_iter) {
                        if (iter == max_iter - 1){ // did not break loop
                            debug("VMVisc:''')], 'C13 C12')
ref('pl-vmv-hard-lambda', [(PL,'''            T q_yield = q_min + (q_max - q_min) * exp(-xi * particles.eps_pl_dev[p]);
''','''            auto hardening = [&](T extra){ return (q_max - q_min) * std::exp(-xi * (particles.eps_pl_dev[p] + extra)); };
            T q_yield = q_min + hardening(0);
'''),(PL,'''                        q_yield = q_min + (q_max - q_min) * exp(-xi * (particles.eps_pl_dev[p] + (1.0/d_prefac) * delta_gamma));
                        T q_yield_diff = -xi / d_prefac * (q_max - q_min) * exp(-xi * (particles.eps_pl_dev[p] + (1.0/d_prefac) * delta_gamma));''','''                        const T softened = hardening((1.0/d_prefac) * delta_gamma);
                        q_yield = q_min + softened;
                        T q_yield_diff = -xi / d_prefac * softened;''')], 'C13 C12')
ref('pl-newton-residual-lambda', [(PL,'''                                T tm = visc_time * delta_gamma + dt;
                                T tmp = dt / tm;
                                T tmp1 = std::pow(tmp, visc_exponent);

                                T residual = (q_trial - f_mu_prefac * delta_gamma) * tmp1 - q_yield;''','''                                const T tm = visc_time * delta_gamma + dt;
                                const T tmp = dt / tm;
                                const T tmp1 = std::pow(tmp, visc_exponent);
                                auto residual_at = [&](T dg){ return (q_trial - f_mu_prefac * dg) * tmp1 - q_yield; };

                                const T residual = residual_at(delta_gamma);''')], 'C13 C12 C15')
ref('pl-pow-quotient', [(PL,'std::pow(tmp, visc_exponent - 1)',('(tmp1 / tmp)',))], 'C12 C13')
ref('pl-mui-root', [(PL,'T delta_gamma = (-fac_b + std::sqrt(fac_b*fac_b - 4*fac_a*fac_c) ) / (2*fac_a); // always if because a>0 and c<0','T delta_gamma = positiveRoot(fac_a, fac_b, fac_c);'),(PL,'T gamma_dot_S = (-fac_b + std::sqrt(fac_b*fac_b - 4*fac_a*fac_c) ) / (2*fac_a); // always positive because a>0 and c<0','T gamma_dot_S = positiveRoot(fac_a, fac_b, fac_c);'),(PL,'void Simulation::plasticity(','static T positiveRoot(T a, T b, T c){\n    T discriminant = b*b - 4*a*c;\n    return (std::sqrt(discriminant) - b) / (2*a);\n}\n\nvoid Simulation::plasticity(')], 'C16 C12 C14')
ref('pl-mui-quotient', [(PL,'T mu_i = mu_1 + (mu_2 - mu_1) / (fac_Q * std::sqrt(p_special) / delta_gamma + 1.0);','T mu_i = mu_1 + (mu_2 - mu_1) * delta_gamma / (fac_Q * std::sqrt(p_special) + delta_gamma);'),(PL,'T mu_i = mu_1 + (mu_2 - mu_1) / (fac_Q * std::sqrt(p_special) / gamma_dot_S + 1.0);','T mu_i = mu_1 + (mu_2 - mu_1) * gamma_dot_S / (fac_Q * std::sqrt(p_special) + gamma_dot_S);')], 'C16')
ref('pl-dpvisc-elseif', [(PL,'''                particles.delta_gamma[p] = 0; // for the elastic particles, the plastic particles have their delta_gamma overwritten in the next if-statement
            }
''','''                particles.delta_gamma[p] = T(0); // for the elastic particles, the plastic particles have their delta_gamma overwritten in the next if-statement
            }
            const T p_eff = p_trial + p_shift;
'''),(PL,'if ((p_trial+p_shift) > p_tip && q_trial > q_yield) {\n                plastic_count++;\n\n                T delta_gamma;','if (p_eff > p_tip && q_trial > q_yield) {\n                ++plastic_count;\n\n                T delta_gamma;')], 'C10 C13 C12')
ref('pl-mcc-consolidation', [(PL,'p_c = std::max(stress_tolerance, p0*std::exp(-xi*particles.eps_pl_vol[p]));\n','p_c = p0*std::exp(-xi*particles.eps_pl_vol[p]);\n                if (p_c < stress_tolerance)\n                    p_c = stress_tolerance;\n')], 'C11 C12 C15')
ref('pl-mcc-recompose', [(PL,'''                T h_vol = - p_trial / K         - eps_pl_vol_inst;
                T h_dev = q_trial / e_mu_prefac - eps_pl_dev_inst;
                hencky = h_dev * hencky_deviatoric + (h_vol/dim) * TV::Ones();''','''                const T h_dev = hencky_deviatoric_norm - eps_pl_dev_inst;
                const T h_vol = hencky_trace - eps_pl_vol_inst;
                for (int d = 0; d < dim; d++)
                    hencky(d) = h_dev * hencky_deviatoric(d) + h_vol / dim;''')], 'C11 C12 C14')
RX='src/plasticity_helpers/mcc_rma_explicit.hpp'
ref('rma-early-return', [(RX,'    if (y > 0) {\n','    if (y <= 0)\n        return false;\n\n    {\n'),(RX,'''    } // end if outside
    return false;
}''','''    } // outside
}''')], 'C11')
ref('rma-clamp', [(RX,'''        p = std::max(p, -beta * p0);
        p = std::min(p, p0);''','''        if (p < -beta * p0)
            p = -beta * p0;
        else if (p > p0)
            p = p0;''')], 'C11 C12')
ref('rma-yield-lambda', [(RX,'    T y = M * M * (p - p0) * (p + beta * p0) + (q * q);\n','    auto yield = [&](){ return M * M * (p - p0) * (p + beta * p0) + (q * q); };\n    T y = yield();\n'),(RX,'            y = M * M * (p - p0) * (p + beta * p0) + (q * q);\n\n','            y = yield();\n\n')], 'C11')
RE='src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp'
ref('rma-impl-bool', [(RE,'''    int right = 0;
    if (p_t > 0.5 * (p0 - beta*p0)) {
        right = 1;
    }''','''    int right = (p_t > 0.5 * (p0 - beta*p0)) ? 1 : 0;''')], 'C11')
SH='src/simulation/simulation.hpp'
ref('pl-split-member', [(PL,HK+'''
        }
        else{
            debug(''','''            henckyKirchhoff(p, svd.matrixU(), hencky);
        }
        else{
            debug('''),(PL,'void Simulation::plasticity(','void Simulation::henckyKirchhoff(unsigned int p, const TM& U, const TV& hencky){\n    const TV principal = lambda*hencky.sum()*TV::Ones() + T(2.)*mu*hencky;\n    particles.tau[p] = U * principal.asDiagonal() * U.transpose();\n}\n\nvoid Simulation::plasticity('),(SH,'  void plasticity(','  void henckyKirchhoff(unsigned int p, const TM& U, const TV& hencky);\n  void plasticity(')], 'C14 C09 C20')
# ---- batch 3: structure
MXE='''    auto %s_%s_it = std::%s_element( particles.x.begin(), particles.x.end(),
                                             []( const TV &x1, const TV &x2 )
                                             {
                                                 return x1(%d) < x2(%d);
                                             } );
    T %s_%s = (*%s_%s_it)(%d);'''
def mxe(m, a): i='xyz'.index(a); return MXE%(m,a,m,i,i,m,a,m,a,i)
ref('remesh-extent-helper', [(REM,mxe(m,a),('    T %s_%s = %sCoord(particles.x, %d);'%(m,a,m,'xyz'.index(a)),)) for m in ('max','min') for a in 'xyz']+[(REM,'void Simulation::resizeGrid(){','''static T maxCoord(const std::vector<TV>& x, int axis){
    auto it = std::max_element(x.begin(), x.end(), [axis](const TV& a, const TV& b){ return a(axis) < b(axis); });
    return (*it)(axis);
}
static T minCoord(const std::vector<TV>& x, int axis){
    T result = x[0](axis);
    for (size_t i = 0; i < x.size(); ++i)
        if (x[i](axis) < result)
            result = x[i](axis);
    return result;
}

void Simulation::resizeGrid(){''')], 'C06')
ref('remesh-edge-lambda', [(REM,'''    T high_x;
    if (max_x < max_x_init){
        unsigned int reduction_factor = std::floor( std::max(0.0,(max_x_init-max_x)/dx - 1e-8*dx) );
        high_x = high_x_init - reduction_factor * dx;
    } else{
        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx + 1e-8*dx) );
        high_x = high_x_init + expansion_factor * dx;
    }
''','''    auto upperEdge = [this](T extreme, T extreme_init, T edge_init){
        if (extreme < extreme_init){
            const unsigned int cells = std::floor( std::max(0.0,(extreme_init-extreme)/dx - 1e-8*dx) );
            return edge_init - cells * dx;
        }
        const unsigned int cells = std::floor( std::max(0.0,(extreme-extreme_init)/dx + 1e-8*dx) );
        return edge_init + cells * dx;
    };
    T high_x = upperEdge(max_x, max_x_init, high_x_init);
'''),(REM,'''    T high_y;
    if (max_y < max_y_init){
        unsigned int reduction_factor = std::floor( std::max(0.0,(max_y_init-max_y)/dx - 1e-8*dx) );
        high_y = high_y_init - reduction_factor * dx;
    } else{
        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx + 1e-8*dx) );
        high_y = high_y_init + expansion_factor * dx;
    }
''','''    T high_y = upperEdge(max_y, max_y_init, high_y_init);
''')], 'C06')
ref('resize-assign', [(REM,'grid.v.resize(grid_nodes);    std::fill( grid.v.begin(),    grid.v.end(),    TV::Zero() );','grid.v.assign(grid_nodes, TV::Zero());'),(REM,'grid.mass.resize(grid_nodes); std::fill( grid.mass.begin(), grid.mass.end(), 0.0        );','grid.mass.assign(grid_nodes, 0.0);')], 'C06 C02 C05')
ref('p2g-weight-array', [(P2G,'''                    T wk_grad = dNdu''','''                    T wk_grad = dNdu''')] if 0 else [(P2G,'''            for(int i = i_base; i < i_base+4; i++){
                T xi = grid.x[i];
                T wi = N((xp(0)-xi)*one_over_dx);
                T wi_grad = dNdu((xp(0) - xi) * one_over_dx)  * one_over_dx;
''','''            T wx[4];
            T wx_grad[4];
            for (int a = 0; a < 4; a++){
                const T u = (xp(0) - grid.x[i_base+a]) * one_over_dx;
                wx[a] = N(u);
                wx_grad[a] = dNdu(u) * one_over_dx;
            }

            for(int i = i_base; i < i_base+4; i++){
                T xi = grid.x[i];
                T wi = wx[i-i_base];
                T wi_grad = wx_grad[i-i_base];
''')], 'C02 C03 C18 C06')
ref('p2g-apic-helper', [(P2G,'''                        if (flip_ratio < 0){ // APIC
                            TV posdiffvec = TV::Zero();
                            posdiffvec(0) = xi-xp(0);
                            posdiffvec(1) = yi-xp(1);
                            grid_v_local[ind(i,j)] += particles.Bmat[p] * posdiffvec * apicDinverse * weight;
                        }
''','''                        if (flip_ratio < 0) // APIC
                            grid_v_local[ind(i,j)] += (apicDinverse * weight) * (particles.Bmat[p] * (TV(xi, yi) - xp));
''')], 'C02 C18')
ref('p2g-normalise-ternary', [(P2G,'''        if (mi > 0)
            grid.v[l] /= mi;
        else
            grid.v[l].setZero();
''','''        grid.v[l] = (mi > 0) ? TV(grid.v[l] / mi) : TV(TV::Zero());
'''),(P2G,'''    for(auto&& m: grid.mass){
        m *= particle_mass;
    }
''','''    for (int l = 0; l < grid_nodes; l++)
        grid.mass[l] *= particle_mass;
''')], 'C02 C18')
ref('p2g-skip', [(P2G,'''                    if (weight > 1e-25){
                        grid_mass_local[ind(i,j)]  += weight;''','''                    if (weight <= 1e-25)
                        continue;
                    {
                        grid_mass_local[ind(i,j)]  += weight;''')], 'C02 C03 C18')
ref('g2p-finish-helper', [(G2P,'''                TM Fe_trial = particles.F[p];
                Fe_trial = Fe_trial + dt * v_grad * Fe_trial;
                particles.F[p] = Fe_trial;
                particles.delta_gamma[p] = 0;

                plasticity(p, plastic_count, Fe_trial);''','''                particles.delta_gamma[p] = 0;
                updateDeformation(p, v_grad, plastic_count);'''),(DEF,'''        TM Fe_trial = particles.F[p];
        Fe_trial = Fe_trial + dt * v_grad * Fe_trial;
        particles.F[p] = Fe_trial;

        plasticity(p, plastic_count, Fe_trial);''','''        updateDeformation(p, v_grad, plastic_count);'''),(DEF,'// Deformation gradient is updated based','void Simulation::updateDeformation(unsigned int p, const TM& v_grad, unsigned int& plastic_count){\n    TM Fe_trial = particles.F[p] + dt * v_grad * particles.F[p];\n    particles.F[p] = Fe_trial;\n    plasticity(p, plastic_count, Fe_trial);\n}\n\n// Deformation gradient is updated based'),(SH,'  void plasticity(','  void updateDeformation(unsigned int p, const TM& v_grad, unsigned int& plastic_count);\n  void plasticity(')], 'C04 C05 C14 C18')
ref('musl-blend-select', [(MUS,'''        if (flip_ratio < -1){ // APIC
            particles.v[p] = particles.pic[p];
        } else if (flip_ratio < 0){ // AFLIP
            particles.v[p] = (-flip_ratio) * ( particles.v[p] + particles.flip[p] ) + (1 - (-flip_ratio)) * particles.pic[p];
        } else{ // PIC-FLIP
            particles.v[p] =   flip_ratio  * ( particles.v[p] + particles.flip[p] ) + (1 -   flip_ratio)  * particles.pic[p];
        }
''','''        if (flip_ratio < -1){ // APIC
            particles.v[p] = particles.pic[p];
            continue;
        }
        const T alpha = (flip_ratio < 0) ? -flip_ratio : flip_ratio;
        const TV updated = particles.v[p] + particles.flip[p];
        particles.v[p] = particles.pic[p] + alpha * (updated - particles.pic[p]);
''')], 'C05 C18')
ref('bc-switch', [(BC_,'''            if (obj->bc == BC::NoSlip) {
                v_rel.setZero();
            } // end BC::NoSlip

            else if (obj->bc == BC::SlipFree) {
                TV n = obj->normal(Xi);''','''            if (obj->bc == BC::NoSlip) {
                v_rel = TV::Zero();
            } // end BC::NoSlip

            else if (obj->bc == BC::SlipFree) {
                const TV n = obj->normal(Xi);'''),(BC_,'''        bool colliding = obj->inside(Xi);
        if (colliding) {
            TV v_rel = vi_orig;
''','''        if (!obj->inside(Xi))
            continue;
        {
            TV v_rel = vi_orig;
''')], 'C08 C09')
ref('euler-collision-order', [(EUL,'grid.flip[index]','grid.flip[index]')] if 0 else [(EUL,'TV dt_gravity = dt * gravity;','const TV dt_gravity = gravity * dt;')], 'C03')
# ---- several edits of the constitutive code at once (they are quicker to run together)
def combo(id, ids, props):
    e = []
    for i in ids: e += [x for r in R if r[0] == i for x in r[1]]
    ref(id, e, props)
combo('combo-plastic-1', 'pl-vm-branch pl-stress-helper pl-dpsoft-else pl-vmv-hard-lambda pl-newton-residual-lambda pl-mui-root pl-dpvisc-elseif pl-mcc-consolidation pl-mcc-recompose rma-early-return rma-clamp rma-yield-lambda rma-impl-bool pl-rebuild-lambda'.split(), 'C12 C13 C14 C15 C16')
combo('combo-plastic-2', 'pl-vmv-while pl-pow-quotient pl-mui-quotient pl-split-member'.split(), 'C12 C13 C14 C15 C16 C20')
