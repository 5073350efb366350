prop('C06', 'The mesh always covers the material; no transfer indexes outside it',
 'After the first meshing and after every later re-meshing, for any particle positions and any history of motion, the grid is uniform with the configured spacing, its node count is consistent with its coordinate arrays, and every particle has at least one node layer below and two above its cell on every axis. The nodal arrays are then resized to the grid and cleared, and therefore no transfer or grid update ever accesses a node outside the arrays.',
 ['inputs', 'histories'], 'all particle positions, all sequences of motions between re-meshings (incl. moves by whole cells), all grid sizes; 2D and 3D',
 'an out-of-range stencil needs a particular motion (for instance by exactly a whole cell) that fixed scenarios do not produce.',
 [SIM+'remesh.cpp', SIM+'simulation.cpp', SIM+'p2g.cpp', SIM+'g2p.cpp', SIM+'musl.cpp'], [('extent tracking and whole-cell growth', SIM+'remesh.cpp remeshFixedCont()'), ('stencil base index', SIM+'p2g.cpp / g2p.cpp'), ('mesh, resize, transfer order', SIM+'simulation.cpp advanceStep()')])
OBJ='src/objects/'
prop('C07', 'Time stepping respects its limits and hits every output frame exactly',
 'For any particle velocities the time step is the largest value that respects the CFL limit, the elastic limit, the end of the current frame and the final time, but never less than the configured minimum. Therefore the clock strictly increases, never passes the end of the current frame by more than rounding of the minimum step, every frame is completed and saved exactly once in order, and the run ends exactly when the last frame is complete unless an error flag stops it. A gravity ramp is linear in time until its ramp time and equals the full gravity afterwards; no other part of a step writes the clock.',
 ['inputs', 'histories'], 'all velocities, frame rates, step limits and numbers of steps; 2D and 3D',
 'clock and frame bookkeeping must hold after any number of steps with any step sizes; tests run only one or two short histories.',
 [SIM+'update_dt.cpp', SIM+'simulation.cpp'], [('step size selection and gravity ramp', SIM+'update_dt.cpp updateDt()'), ('time loop, frame counting, saving', SIM+'simulation.cpp simulate()')])
prop('C08', 'Obstacles are never penetrated: no-slip and slip boundary conditions',
 'A grid node whose next position lies inside an obstacle (terrain or plate) gets, for a no-slip condition, exactly the obstacle velocity; for a slip condition its normal velocity relative to the obstacle is removed when it moves into the obstacle, and for the constrained variant also when it moves away, while in the free variant a separating node is not altered. A node outside all obstacles keeps its velocity, obstacles act one after the other on the velocity left by the previous one, and the treatment changes nothing but the velocity of that node.',
 ['inputs', 'configurations'], 'all node positions, velocities, obstacle lists, plate types and velocities, unit terrain normals; 2D and 3D',
 'a wrong sign for one plate type or one condition shows only for particular directions of motion in particular configurations.',
 [SIM+'boundary_collision.cpp', OBJ+'object_plate.hpp'], [('terrain and plate loops', SIM+'boundary_collision.cpp boundaryCollision()')])
prop('C09', 'Obstacle friction is Coulomb friction; node friction is the mass-weighted mean',
 'For a node pressed onto an obstacle with a slip condition, the tangential velocity relative to the obstacle is set to zero if its magnitude is at most friction coefficient times the removed normal speed, and otherwise keeps its direction and loses exactly that amount; friction never reverses or accelerates sliding, and nodes separating from free-slip obstacles or from terrain feel none. The coefficient is that of the obstacle, or, with material-induced friction, the mass-weighted mean of the internal friction of the particles around the node.',
 ['inputs', 'configurations'], 'all velocities, unit normals, coefficients, plate types, particle sets; 2D and 3D',
 'the stick/slide switch and the direction of sliding depend on real-valued inputs in 2 x (1 + 6) obstacle configurations that no test enumerates.',
 [SIM+'boundary_collision.cpp', SIM+'p2g.cpp'], [('Coulomb reduction', SIM+'boundary_collision.cpp boundaryCollision()'), ('nodal friction', SIM+'p2g.cpp P2G()')])
prop('C10', 'Terrain normals are unit and consistent with the terrain surface',
 'For every built-in terrain shape (ground, curve, bump, gate, ramp, silo) the surface normal is a unit vector at every point, and at every point of the surface that separates inside from outside it is orthogonal to that surface and points to the free side. Boundary condition, friction coefficient and shape parameter are those given at construction.',
 ['inputs'], 'all points of the plane or space, all shape parameters; 2D and 3D',
 'the statement concerns every point of a curved surface.',
 [OBJ+'object_%s.hpp' % n for n in ('ground', 'curve', 'bump', 'gate', 'ramp', 'silo')], [('inside() and normal()', OBJ+'object_*.hpp')])
prop('C11', 'Plates occupy their half-space and move rigidly with the prescribed velocity',
 'A plate occupies exactly the points on or behind its face that lie strictly between its lateral limits. In every time step each plate is moved exactly once, after the grid update that used it: its face advances by the step times its normal velocity and its lateral limits by the step times its tangential velocity, where the velocity is the prescribed one, divided by the start-up divisor while the time is below the start-up factor times the frame duration. Nothing else about a plate changes.',
 ['inputs', 'histories'], 'all plate types, positions, velocities, step sizes and times; 2D and 3D',
 'the motion must be right for each plate type, dimension and history of steps.',
 [OBJ+'object_plate.hpp', SIM+'simulation.cpp'], [('move() and inside()', OBJ+'object_plate.hpp'), ('moveObjects in the step', SIM+'simulation.cpp advanceStep()')])
HLP='src/plasticity_helpers/'
prop('C12', 'The stored stress is the elastic law of the stored elastic deformation',
 'After every constitutive update, for every plasticity model and any trial deformation with principal stretches above 1e-4, the stored Kirchhoff stress is the Hencky-elastic stress (first Lame constant times the volume strain plus twice the shear modulus times the logarithmic strain, in the principal directions) of the stored elastic deformation. The return mapping keeps the principal directions of the trial state, so stress and stored deformation always agree. Without plasticity the trial deformation itself is stored, and the neo-Hookean option then gives the neo-Hookean stress of it.',
 ['inputs', 'configurations'], 'all trial deformations, particle states, material constants, plasticity models and hardening laws; 2D and 3D',
 'stress and deformation must agree on every branch of ten return mappings, most of which no stable test ever executes.',
 [SIM+'plasticity.cpp'], [('return mappings and final stress evaluation', SIM+'plasticity.cpp plasticity()')])
prop('C13', 'Return mapping: admissible states stay, others go to the yield surface',
 'A trial stress inside the yield surface of the selected model is not altered: deformation and plastic strains keep their values and the step is not counted as plastic. A trial stress outside is moved, for von Mises, Drucker-Prager (with or without softening) and rate-independent Cam-clay, onto or into the yield surface (at constant pressure for von Mises and right of the Drucker-Prager tip, otherwise to the tip; onto the Cam-clay ellipse of the hardened consolidation pressure or its tips), and for the capped viscous von Mises model to the stress-free state when the pressure is below the tensile cap. The viscous models leave a state alone only if it is admissible and project to the tip left of the tip.',
 ['inputs', 'configurations'], 'all trial deformations, plastic strains, strengths, hardening laws, options; 2D and 3D',
 'whether a state is admissible depends on real-valued stress and history variables; the branches near tips and caps are never reached by the tests.',
 [SIM+'plasticity.cpp'], [('yield conditions and projections of each model', SIM+'plasticity.cpp plasticity()')])
prop('C14', 'Plastic strains and rates book exactly the elastic strain that is lost',
 'In every constitutive update the increment of the accumulated plastic volume strain is exactly the elastic volume strain removed, the increment of the accumulated plastic shear strain is exactly the norm of the deviatoric elastic strain removed (which keeps its direction), and the stored plastic strain rate is that increment times the conversion factor divided by the time step (left of the mu(I) Drucker-Prager tip the rate is unspecified, and the mu(I) Cam-clay model books no shear below its stress tolerance). The accumulated shear strain of the von Mises and Drucker-Prager models never decreases. The update changes no other particle, no kinematic quantity and no parameter of the simulation.',
 ['inputs', 'configurations'], 'all trial deformations, particle states, material constants, models, hardening laws; 2D and 3D',
 'the balance must close on every branch of every model; tests do not look at plastic strains at all.',
 [SIM+'plasticity.cpp', SIM+'g2p.cpp'], [('updates of the plastic strains and rate', SIM+'plasticity.cpp plasticity()')])
prop('C15', 'Viscous and mu(I) models obey their rate laws',
 'For a sheared state above yield the viscous models satisfy their overstress law (Perzyna or Duvaut-Lions, with the configured exponent and relaxation time) exactly in the linear case and within the iteration tolerance of 0.01 stress units otherwise, or the run is stopped; Cam-clay under Duvaut-Lions relaxes pressure and shear stress by the same fraction towards the return-mapped state. The mu(I) models yield a positive shear rate satisfying the mu(I) overstress law, an internal friction between its static and dynamic value given by mu(I), and the viscosity belonging to it. The internal friction stored for the material-induced boundary friction is the slope of the yield surface through the stress point, and the static value for elastic states.',
 ['inputs', 'configurations'], 'all sheared trial states, rates, exponents, time steps, hardening laws, options; 2D and 3D',
 'the laws hold for a continuum of states and exponents and an iterative solution; tests run none of these models.',
 [SIM+'plasticity.cpp'], [('viscous multiplier and mu(I) solutions', SIM+'plasticity.cpp plasticity()')])
prop('C16', 'Cam-clay return mapping lands on the ellipse of the hardened pressure',
 'For every trial stress and every admissible parameter set the Cam-clay return-mapping routines leave a stress inside the ellipse unchanged and say so. Any other stress is replaced by one with non-negative shear stress and pressure between the tips that lies on the ellipse whose consolidation pressure is the fixed one (explicit routines), or the one the exponential or sinh hardening law gives for the plastic volume strain this very return produces (implicit routines, or at a tip); the result is always a number unless the run is stopped.',
 ['inputs'], 'all trial pressures and shear stresses, slopes, cohesion parameters, moduli, hardening factors, plastic volume strains',
 'the iteration runs through arbitrarily many different intermediate states; no test calls these routines.',
 [HLP+'mcc_rma_explicit.hpp', HLP+'mcc_rma_explicit_onevar.hpp', HLP+'mcc_rma_implicit_exponential_onevar.hpp', HLP+'mcc_rma_implicit_sinh_onevar.hpp'], [('iteration and final projection', HLP+'mcc_rma_*.hpp')])
prop('C17', 'Periodic boundaries: material crosses the seam without loss or copy',
 'With periodic boundaries every particle within four cells of one face contributes to the grid also through exactly one image displaced by one period, identical in mass, velocity, affine velocity, stress, deformation and friction, in both the first transfer and the re-projection; the images are gone before particles are updated, and all particle arrays then have their previous length and content. A particle that leaves through one face re-enters through the opposite one, shifted by exactly one period, and no other particle is shifted. Hence shifting all particles by whole periods, or cells around the seam, leaves the physics unchanged.',
 ['inputs', 'histories', 'configurations'], 'all particle sets, periods of at least eight cells, velocities and histories of steps; 2D and 3D',
 'no test uses periodic boundaries, and the bookkeeping must hold for every distribution of particles near the seam.',
 [SIM+'pbc.cpp', SIM+'position_update.cpp', SIM+'simulation.cpp', SIM+'musl.cpp'], [('creation and removal of images', SIM+'pbc.cpp'), ('wrap-around', SIM+'position_update.cpp'), ('order within the step', SIM+'simulation.cpp advanceStep(), '+SIM+'musl.cpp')])
prop('C18', 'Results do not depend on the number of threads or their schedule',
 'In every parallel part of a time step and of the output, no two threads access the same datum with one of them writing unless both do so inside a critical section or through a declared reduction, loop iterations read no data that other iterations write, and every loop over particles or nodes is executed exactly once in total, not once per thread. Hence for every number of threads and every schedule the state after a step is that of sequential execution up to the order of floating-point additions.',
 ['schedules', 'inputs', 'configurations'], 'all thread counts and interleavings, particle and node numbers, models and options; 2D and 3D',
 'a race shows up only under particular interleavings, and the tests look at none of the results of parallel steps.',
 [SIM+f for f in ('p2g.cpp', 'g2p.cpp', 'explicit_euler_update.cpp', 'musl.cpp', 'deformation_update.cpp', 'position_update.cpp', 'plasticity.cpp', 'boundary_collision.cpp', 'update_dt.cpp', 'save_data.cpp')],
 [('parallel regions and work-sharing loops', SIM+'*.cpp')])
SAM='src/sampling/'
prop('C19', 'Sampling fills exactly the requested region with consistent mass and volume',
 'Regular sampling places one particle in the middle of every cell of the lattice that fits into the box (spacing: cell size over the root of the number of particles per cell), random sampling uses the samples of exactly that box; samples are kept if and only if they lie in the requested shape (box, gate, cylinder, silo or level set). Particle volume is the lattice cell volume or the box volume shared by all samples, mass is density times volume, the cell size gives the requested number of particles per cell, and the recorded extents are those of the box. There is exactly one particle per kept sample, all particle arrays have that length, and new particles are at rest, undeformed, stress-free and without plastic history.',
 ['inputs', 'configurations'], 'all box sizes, cell sizes, particles per cell, densities, shapes and level sets; 2D and 3D',
 'the region, spacing and shape vary continuously; the level-set tests only count particles for three fixed cases.',
 [SAM+'regular_sampling_particles.hpp', SAM+'sampling_particles.hpp', SAM+'regular_sampling_particles_vdb.hpp', SAM+'sampling_particles_vdb.hpp'], [('lattice and Poisson samplers with cropping', SAM+'*.hpp')])
prop('C20', 'Derived constants, initial state and refusals follow from the user input',
 'A run computes its elastic constants, wave speed, elastic time-step limit, frame duration, final time, kernel constants and plastic prefactors from the user parameters by the documented formulas, for every parameter set and dimension, and changes none of the user parameters while it runs. A run that was not initialised, was marked as failed or combines a non-Hencky elastic law with plasticity is refused before any particle is touched. Newly created particles are at rest, undeformed, stress-free and without plastic history, and start with the static internal friction of their model when friction is material-induced.',
 ['inputs', 'configurations'], 'all parameter values and combinations of models and options; 2D and 3D, all kernels',
 'the formulas and refusals depend on a continuum of parameters and on dimension and kernel chosen at compile time; tests look at none of the constants.',
 [SIM+'simulation.cpp', SIM+'simulation.hpp', 'src/data_structures.hpp'], [('derived constants and checks', SIM+'simulation.cpp simulate()'), ('initial particle state', 'src/data_structures.hpp')])
prop('C21', 'Output files hold the current state of all particles and grid nodes',
 'For every state, every row of a particle file holds the position, velocity, pressure, shear stress and elastic volume ratio of the corresponding particle (computed from its current stress and deformation), and, exactly for the models that have them, its plastic strains, plastic rate, internal friction and viscosity. Every row of a grid file holds the coordinates, velocity, mass and (with material-induced friction) friction of one and the same grid node, the info file holds the frame count, rate, cell size, particle number and particle volume, and the volume averages are those of all particles. Every number written is defined, files carry the name of the current frame, and writing changes nothing in the simulation.',
 ['inputs', 'configurations'], 'all particle and grid states, frame numbers, models and options; 2D and 3D',
 'rows and columns must match for every mesh size, particle number and model; tests never read an output file.',
 [SIM+'save_data.cpp'], [('particle, grid, info and average files', SIM+'save_data.cpp')])
