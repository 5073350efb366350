#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (claimed: those with a module in props/)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = 'src/simulation/'
TEST = 'The suite runs a handful of fixed scenarios (three level-set sampling tests here); '
P = []
def prop(id, title, statement, over, text, why, files, mech, note='', state=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=TEST+why,
              anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))), note))

prop('C01', 'Interpolation kernel is the exact B-spline of its degree',
 'For every distance, the interpolation kernel (linear, quadratic or cubic build) equals the cardinal B-spline of that degree and its gradient kernel equals the derivative wherever the kernel is differentiable. Hence, for every particle position, the weights of the surrounding nodes are non-negative, vanish outside the four-node stencil, sum to one and reproduce positions exactly, and gradient weights sum to zero and differentiate linear fields exactly. For quadratic and cubic builds the inverse inertia constant used by the affine transfers is the exact inverse of the second moment of the weights.',
 ['inputs', 'configurations'], 'all real distances / positions; spline degrees 1, 2, 3; all grid spacings',
 'an identity over all reals cannot be sampled, and no test builds another spline degree.',
 ['src/tools.hpp', SIM+'simulation.cpp'], [('N, dNdu piecewise polynomials', 'src/tools.hpp'), ('apicDinverse per degree', SIM+'simulation.cpp simulate()')])
prop('C02', 'Particle-to-grid transfer conserves mass and (affine) momentum',
 'After the particle-to-grid transfer, for any particle set inside the grid, every node holds exactly the kernel-weighted sum of particle masses and of particle momenta (including the affine velocity term when an affine scheme is selected), so total mass, total linear momentum and total affine (angular) momentum of the particles are preserved. Nodes that receive no mass get exactly zero velocity, and particle data are not changed by the transfer (contributions with a weight below 1e-20 may be dropped).',
 ['inputs', 'configurations'], 'all particle numbers, positions, velocities, affine matrices, grid sizes, thread counts; all transfer schemes; 2D and 3D',
 'conservation must hold for every particle configuration, scheme and dimension; tests look at one default configuration in 2D.',
 [SIM+'p2g.cpp', 'src/tools.hpp'], [('scatter with B-spline weights, thread-local grids summed in a critical section, division by nodal mass', SIM+'p2g.cpp P2G()')])
prop('C03', 'Internal forces are self-equilibrated; grid update obeys Newton\'s 2nd law',
 'Each node receives from every particle exactly the particle stress times the gradient of its weight, so the internal forces of any particle sum to zero and a symmetric stress exerts no net torque. The grid update changes the velocity of every node that has mass by exactly time step times (gravity minus initial particle volume times internal force over nodal mass) before boundary conditions act, passes the node\'s own index and position to the boundary treatment, and records new minus old velocity as the increment. Nodes without mass are left untouched.',
 ['inputs', 'configurations'], 'all stresses, positions, forces, masses, gravity vectors, time steps, grid sizes; 2D and 3D',
 'the identity must hold for every node of every grid; tests only compare end results of a few scenarios.',
 [SIM+'p2g.cpp', SIM+'explicit_euler_update.cpp'], [('force scatter', SIM+'p2g.cpp'), ('velocity increment', SIM+'explicit_euler_update.cpp')])
prop('C04', 'Grid-to-particle transfer, blending, advection and deformation update',
 'The grid-to-particle transfer gives every particle the kernel-weighted grid velocity, the kernel-weighted grid velocity increment and the first-moment matrix (when the selected scheme uses them), so affine grid velocity fields are reproduced exactly at particles. Without the MUSL option the deformation gradient becomes (I + dt * velocity gradient) times its old value before the return mapping acts on that same particle. Particles move with the interpolated velocity, and the new particle velocity is ratio*(old velocity + increment) + (1-ratio)*interpolated velocity with ratio the magnitude of the blending parameter, or purely the interpolated velocity when the parameter is below -1.',
 ['inputs', 'configurations'], 'all grid velocity fields, positions, deformation gradients, blending parameters; 2D and 3D',
 'the formulae must hold for every particle and every blending parameter; tests use one or two.',
 [SIM+'g2p.cpp', SIM+'position_update.cpp'], [('gather loop', SIM+'g2p.cpp G2P()'), ('blending and advection', SIM+'position_update.cpp')])
prop('C05', 'MUSL: re-projected grid velocities carry the updated particle momentum',
 'With the MUSL option, the particle velocities are first updated by the blending rule, then every node with mass gets the velocity whose product with the unchanged nodal mass is the kernel-weighted sum of the updated particle momenta (with affine terms for affine schemes), and nodes without mass get zero velocity. The deformation gradient of every particle is then advanced by (I + dt * gradient of these re-projected velocities) and handed to the return mapping of that same particle.',
 ['inputs', 'configurations'], 'all particle sets, schemes and time steps; 2D and 3D',
 'no stable test runs this option at all, and the identity is over all particle sets.',
 [SIM+'musl.cpp', SIM+'deformation_update.cpp'], [('re-projection', SIM+'musl.cpp MUSL()'), ('deformation from re-projected velocities', SIM+'deformation_update.cpp')])
exec(open(os.path.join(HERE, 'tools', 'more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'more.py')) else None

NA = []
exec(open(os.path.join(HERE, 'tools', 'na.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'na.py')) else None

checks = []
ids = [p['id'] for p, _ in P]
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, n in P: f.write(json.dumps(p)+'\n')
for p, note in P:
    if any(x['property'] == p['id'] for x in NA): continue
    assert os.path.exists(os.path.join(HERE, 'props', p['id'].lower()+'.py')), p['id']
    checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py --prop %s --tier quick' % p['id'], thorough_cmd='python3-vt check.py --prop %s --tier thorough' % p['id'],
        technique='contract-based deductive verification: VCs generated from the clang AST of the real functions, discharged by ring normalisation, z3, cvc5',
        level='proof', level_note=note or 'All obligations over exact real arithmetic are discharged for every input; trusted: the VC generator, clang AST, solvers; floating-point rounding is not modelled. A compiled conformance harness of the real code cross-checks the contracts and supplies failing inputs.'))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, sympy; print(z3.get_version_string())" && clang++-18 --version | head -1 && g++ --version | head -1', checks=checks, not_applicable=NA,
  notes='Each check copies /repo/src to a scratch directory, generates and discharges verification conditions, and builds and runs a conformance harness from the same sources.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'claimed')
