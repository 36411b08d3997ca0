# Variants: compile-time configurations of PicoPIC that the harnesses are built for.
VARIANTS = {
    'default': [],
    'nopml': ['-DVERIF_NO_PML'],
    'zigzag': ['-DVERIF_CCS', '-DSWITCH_CCS_ZIGZAG'],
}
for _p in ('BORIS', 'BORIS_RELATIVISTIC', 'VAY', 'HC', 'BORIS_ADAPTIVE'):
    VARIANTS[_p.lower()] = ['-DVERIF_PUSHER', '-DSWITCH_PUSHER_' + _p]
for _p in ('FLAT', 'RANDOM', 'REGULAR', 'CENTERED'):
    VARIANTS['spatial_' + _p.lower()] = ['-DVERIF_SPATIAL', '-DSWITCH_PLASMA_SPATIAL_' + _p]
for _p in ('RECTANGULAR', 'EIGEN'):
    VARIANTS['velocity_' + _p.lower()] = ['-DVERIF_VELOCITY', '-DSWITCH_PLASMA_VELOCITY_' + _p]
for _p in ('TA77S', 'SK98', 'P12'):
    VARIANTS['coll_' + _p.lower()] = ['-DENABLE_COULOMB_COLLISIONS', '-DSWITCH_COULOMB_COLLISIONS_' + _p]
VARIANTS['extfields'] = ['-DENABLE_EXTERNAL_FIELDS']
for _p in ('BORIS', 'BORIS_RELATIVISTIC', 'VAY', 'HC'):
    VARIANTS['extfields_' + _p.lower()] = ['-DENABLE_EXTERNAL_FIELDS', '-DVERIF_PUSHER', '-DSWITCH_PUSHER_' + _p]

# flags for the sources of the repository only (the oracle keeps strict arithmetic): those of configure for the release build
_REL = ['-ffast-math', '-O3', '-march=native', '-funroll-loops', '-freciprocal-math', '-fcx-fortran-rules']
LIBFLAGS = {}
for _v in list(VARIANTS):
    VARIANTS['fast_' + _v], LIBFLAGS['fast_' + _v] = VARIANTS[_v], _REL

PROPS = {}

# builds that select several alternatives at once
VARIANTS['mix1'] = VARIANTS['boris'] + VARIANTS['spatial_random'] + VARIANTS['velocity_rectangular']
VARIANTS['mix2'] = VARIANTS['boris_relativistic'] + VARIANTS['spatial_regular'] + VARIANTS['velocity_eigen']
VARIANTS['mix3'] = VARIANTS['spatial_centered'] + VARIANTS['extfields']
VARIANTS['mix4'] = VARIANTS['vay'] + VARIANTS['zigzag'] + ['-DENABLE_IEEE=true']
VARIANTS['mix5'] = VARIANTS['hc'] + VARIANTS['spatial_regular'] + ['-DENABLE_DEBUG=true']
VARIANTS['avx_default'], LIBFLAGS['avx_default'] = [], ['-O0', '-march=native', '-fno-sanitize=all']

# properties that are decided for the sources built with the release flags too: (quick: variants, thorough: all of them)
RELEASE = {'C02': 0, 'C03': 1, 'C04': 0, 'C05': 1, 'C06': 1, 'C07': 1, 'C08': 1, 'C09': 1, 'C10': 1, 'C11': 1, 'C12': 0, 'C13': 1, 'C14': 0, 'C15': 0, 'C16': 1, 'C22': 3, 'C23': 1, 'C26': 3}


def prop(pid, jobs, bounds, oracle, technique, assumptions=()):
    if pid in RELEASE:
        for j in list(jobs):
            th = j.get('thorough_variants', j['variants'])
            j['thorough_variants'] = list(th) + ['fast_' + v for v in th]
            j['variants'] = list(j['variants']) + ['fast_' + v for v in j['variants'][:RELEASE[pid]]]
        if pid == 'C10':
            jobs.append(dict(harness='h_motion', variants=['avx_default'], flags=[], opt='-O0'))
        n = RELEASE[pid]
        bounds = (bounds[0] + ('; %s again with the optimisation flags of the release build' % ('all builds' if n > 1 else 'the first build') if n else ''), bounds[1] + '; all builds again with the optimisation flags of the release build')
    PROPS[pid] = dict(jobs=jobs, bounds=bounds, oracle=oracle, technique=technique, assumptions=list(assumptions))


prop('C04', [dict(harness='h_overlay', variants=['default'])],
     ('domains {1,2,4}^2 x domain size {2,3,5}^2 cells (halo width 2); every halo and boundary node of every domain as unit impulse for the current, one complete distinct filling for every field, 3 field steps',
      'domains {1,2,4,6}^2 x domain size {2,3,4,5,7}^2'),
     'exact sum per global node (currents); owner value per halo node (fields)',
     'exhaustive enumeration of unit impulses over all bounded domain decompositions, executed on the real halo exchange')

prop('C02', [dict(harness='h_collect', variants=['default'])],
     ('domains {1,2,4}^2, domain sizes {1x1,2x3,3x2} cells; every source domain x every destination cell and one ring outside x 3 species (one of them a beam); all-to-all exchanges; all 5^4 fates of a list of 4 particles; all 25^3 sequences of moves of two particles',
      'domains {1,2,4,6}^2, 5 domain sizes; 5^5 fates; 25^4 sequences'),
     'ownership computed from the position; particles identified by their own values',
     'exhaustive enumeration of hand-overs and move sequences on the real collector')

prop('C03', [dict(harness='h_decomp', variants=['default', 'zigzag', 'vay', 'hc', 'boris', 'boris_relativistic'], thorough_variants=['default', 'zigzag', 'nopml', 'boris', 'boris_relativistic', 'vay', 'hc'])],
     ('grids 8x8, 8x16, 16x8; all divisions {1,2,4}^2; one particle at 6x6 places around the domain borders x 17 directions, 4 crowds of 12 particles of 3 species, impulse and wave fields, with and without absorbing layers; 6 steps; 4 pushers and 2 current schemes',
      '12x12 places, 12 crowds, 12 steps, all pushers and both current schemes'),
     'the undivided area (differential)',
     'exhaustive enumeration of divisions, start places and directions; lock-step comparison of the real code with itself')

prop('C05', [dict(harness='h_current', variants=['default', 'zigzag'])],
     ('8x8 grid, divisions 1x1, 2x2, 4x4; all moves on the lattice r0 in 4 cells x 5 fractions, z0 in 3 cells x 5 fractions, displacements of 17x17 values from 3e-13 up to 63/64 of a cell including exact borders and nodes; dyadic and decimal cells; all pairs of 32 moves; 3 species x 3 weights',
      'cells 6x5, 10x10 fractions, 19x19 displacements'),
     'discrete continuity equation with the charge assignment of the scheme; azimuthal volume weighting; linearity',
     'exhaustive enumeration of a lattice of particle moves on the real deposition code')

prop('C06', [dict(harness='h_yee', variants=['default', 'nopml'])],
     ('grids 8x8 with divisions {1,2,4}^2, 5x7, 6x10 (2 divisions); every unit impulse of E, H and J at every node, 2 steps each; a complete filling for 8 steps',
      'additionally 12x16 with divisions {1,2,4}^2'),
     'independent global implementation of the staggered cylindrical update; divergence of H; tolerance 1e-10 of the maximum',
     'exhaustive enumeration of unit impulses (decides a linear operator) on the real solver')

prop('C07', [dict(harness='h_yee', variants=['default'], args=['--pml'])],
     ('4 grids x layer widths {0,1/8,0.3,1/2} for each of three walls x 4 divisions, every node and component; pulses for 20 steps',
      '6 grids'),
     'decay factor of every node from the configured layer; independent update with conductivity',
     'exhaustive enumeration of layer configurations, divisions and nodes on the real solver')

prop('C08', [dict(harness='h_gather', variants=['default'])],
     ('8x8 grid, divisions 1x1, 2x2, 4x4, dyadic (borders exact) and decimal cells; particle at 8 cells x 5 fractions per direction; unit impulse of every component at every node of the 6x6 neighbourhood, one complete filling',
      '10 fractions per direction'),
     'ring overlap of particle and node over the node volume of the scheme, zero for other components and nodes',
     'exhaustive enumeration of positions x unit impulses on the real field gather')

prop('C09', [dict(harness='h_pusher', variants=['boris_adaptive', 'boris', 'boris_relativistic', 'vay', 'hc'])],
     ('5 pushers x 3 species x 9 speeds (0 .. 0.9999999 c, both sides of the relativistic limit) x 26 directions x 25 electric x 25 magnetic fields x 2 time steps x 2 divisions',
      '131 electric x 131 magnetic fields'),
     'independent vector implementation of the published schemes in extended precision, with the gathered field as input',
     'exhaustive enumeration of a lattice of velocities and fields on the real pushers')

prop('C10', [dict(harness='h_motion', variants=['default'])],
     ('5 radii (down to 1e-9 of a cell) x 10 radial x 10 azimuthal x 3 longitudinal velocities, 5 steps each; complete particle steps for divisions 1x1, 2x2, 4x4',
      '11 radii (including the axis) x 17 x 17 x 3 velocities, 8 steps each'),
     'straight line in space, conservation of speed and angular momentum',
     'exhaustive enumeration of a lattice of initial states, stepped by the real mover')

prop('C11', [dict(harness='h_motion', variants=['default'], args=['--walls'])],
     ('all divisions {1,2,4}^2, every domain, 19x19 positions in, outside of and exactly at the walls (up to several areas away), 4 velocity directions, plasma species and beam; complete particle steps from 5x5 places with 45 velocities, 4 steps',
      '32x32 positions'),
     'independent folding of the coordinate between the reflection planes',
     'exhaustive enumeration of positions, domains and directions on the real reflection')

prop('C12', [dict(harness='h_plasma', variants=['default', 'spatial_random', 'spatial_regular', 'spatial_centered', 'velocity_rectangular', 'velocity_eigen'])],
     ('6 distribution builds; 4 grids (dyadic and decimal cells, square and not) x divisions {1,2,4}^2 x 3 macroparticle amounts x 3 density slopes x 2 generator states; 9 temperatures from 0.01 eV to 1 MeV; domains loaded together and one by one',
      '7 grids, 6 amounts, 6 generator states'),
     'amount, region, weight, total number of particles, uniformity and temperature computed from the configuration',
     'exhaustive enumeration of configurations and generator states on the real loading code')

prop('C13', [dict(harness='h_beam', variants=['default', 'spatial_centered', 'spatial_regular'])],
     ('divisions {1,2,4}^2 x 5 radii x 1..3 bunches x 3 bunch lengths x 3 start times x 3 distances x 2 time steps, every step of the complete injection; pairs of beams',
      '7 radii, 4 bunch amounts, 5 lengths, 5 start times'),
     'injection windows, rate, place, velocity and weight computed from the configuration',
     'exhaustive enumeration of beam configurations; every step of the real injection is compared')

prop('C14', [dict(harness='h_output', variants=['default'], args=['--schedule'])],
     ('10 time steps (binary and not) x 13 schedules 1..300 x 4 probe shapes, 320 steps each with frames compared after every step; all ordered pairs of schedules; all schedules at once; divisions 1x1, 2x2; runs of 70000 steps with every frame compared',
      '14 time steps, 15 schedules up to 1000, 1500 steps; runs of 300000 steps'),
     'frame k holds the field of step k*N: the field value encodes step, component and node; size of datasets; number of writes per element',
     'exhaustive enumeration of time steps, schedules and their pairs; every step of the real output controller with an in-memory data file')

prop('C15', [dict(harness='h_output', variants=['default'], args=['--regions'])],
     ('6 grids with divisions up to 4x2 and 2x4; all rectangles, columns, rows and dots, together and each alone, 9 components, 2 frames',
      '10 grids, divisions up to 4x4 and 6x1'),
     'every element of every dataset equals the node it stands for (values are unique, halos hold junk), written exactly once; path and size of datasets',
     'exhaustive enumeration of probe regions, components and divisions on the real output controller with an in-memory data file')

prop('C16', [dict(harness='h_output', variants=['default'], args=['--maps'])],
     ('8x8 grid, 6 divisions/cell sizes; one particle at 8x8 cells x 5x5 fractions; crowds of up to 46 particles of 4 species: all subsets of 6 maps in 2 orders, all pairs of maps x 4 species x 3 schedules, all columns, rows and dots',
      '9x9 fractions, 12 crowds'),
     'independent computation of volume weights, momenta, energies and temperatures from the particles',
     'exhaustive enumeration of particle places and probe sets on the real output controller with an in-memory data file')

prop('C17', [dict(harness='h_config', variants=['default'])],
     ('27 options with up to 15 values each, one by one and in all pairs; all domain amounts -2..n+1 of 25 grids; all rectangles, columns, rows and dots of a 4x6 grid including one cell outside; every key removed and given every wrong type; the text cut at every byte',
      'the same with all ordered pairs of options'),
     'the generated configuration itself; macroparticle shares from the documented weights; accept/refuse rule',
     'exhaustive enumeration of configurations on the real parser')

prop('C18', [dict(harness='h_config', variants=['default'], args=['--ids'])],
     ('identifiers of all names of up to two characters out of 65 and 14 usual names, for species and beams, read from real configurations; every ordered pair with equal identifiers; 15 other names in all pairs with the particle hand-over of 2x2 domains',
      'additionally 38025 names of three characters'),
     'identifiers of accepted configurations are different and depend on the name only; particles stay with their species',
     'exhaustive enumeration of names and all clashing pairs on the real parser and hand-over')

_WRAP = ['-Wl,--wrap=' + _f for _f in ('sleep', 'usleep', 'nanosleep', 'clock_nanosleep', 'pause', 'exit', '_ZN3SMB13solve_maxvellEv', '_ZN3SMB17advance_particlesEv')]
_PTS = {'/PiCoPiC.cpp': ['-fsanitize=thread']}
prop('C19', [dict(harness='h_signals', variants=['default'], args=['--signals'], link=_WRAP, instr=_PTS, flags=['-g1'])],
     ('a run of 3 steps; delivery points are all accesses of the main program to its globals, all library calls and sleeps: every point x 12 signals, all pairs pause-resume and pause-terminate (also inside of the pause and of the signal handler), triples around the resumption, all pause/resume sequences of up to 6 signals with 7 distances and 4 beginnings',
      'all pairs of pause, resume, terminate; triples from every fourth point; sequences of up to 8 signals; additionally a run with beam and three probes'),
     'files of the undisturbed run; every use of a closed file and double closing is recorded by the data file stand-in; pause closes the file, termination ends the program',
     'exhaustive enumeration of signal schedules over the delivery points of the real main program',
     ['signals are delivered synchronously at the enumerated points; between two points the program touches no state shared with the handler'])

prop('C20', [dict(harness='h_signals', variants=['default'], thorough_variants=['default', 'zigzag', 'boris', 'boris_relativistic', 'vay', 'hc', 'spatial_random', 'spatial_regular', 'spatial_centered', 'velocity_rectangular', 'velocity_eigen'], args=['--files'], link=_WRAP, instr=_PTS, flags=['-g1']), dict(harness='h_signals', variants=['mix1', 'mix2', 'mix3', 'mix4', 'mix5'], args=['--metadata'], link=_WRAP, instr=_PTS, flags=['-g1'])],
     ('all directory depths 1..4 with every existing part and 5 spellings; 12 kinds of existing data; second runs; files in place of directories; 11 configurations and 10 comments read back, the metadata in 5 further builds that select all alternatives',
      'depth 6; all builds'),
     'existing data before the run; the configuration itself; build options from the macros of the build',
     'exhaustive enumeration of directory states and histories on the real main program with an in-memory data file')

prop('C21', [dict(harness='h_reader', variants=['default'], wrap=lambda here, exe, repo, tree: ['python3-vt', here + '/src/reader_check.py', exe, repo])],
     ('12 data files (3 grids, 1..8 domains) with about 5000 probes of all shapes, positions and schedules, all frames, all frame ranges, all columns, rows and dots of every rectangle; conversions for all grids up to 129x259 with 5 sizes, 9 time steps, 9 schedules and 400 frames; 7 ways of access; the metadata tool',
      '24 data files, grids up to 599x1199, 4000 frames'),
     'the coded value of every node that was given to the writer, the configuration, exact arithmetic of the conversions',
     'exhaustive enumeration of data files, probes, frames and ranges: the real Python reader over files of the real C++ writer',
     ['the file format itself is an in-memory stand-in on the writing side and its dump on the reading side (there is no HDF5 here)'])

_RND = ['-Wl,--wrap=' + _f for _f in ('_ZN4math6random7uniformEv', '_ZN4math6random8uniform1Ev', '_ZN4math6random8uniform2Ev', '_ZN4math6random13uniform_angleEv', '_ZN4math6random6normalEd', 'rand', 'srand')]
prop('C22', [dict(harness='h_collide', variants=['coll_ta77s', 'coll_sk98', 'coll_p12'], link=_RND)],
     ('all three schemes: all pairs of velocities of a 3x3x3 lattice at 10 combinations of speeds (10 km/s to 0.98 c) and 7 weights with all enumerated random numbers; all populations up to 4+4 with all assignments of 3 velocities; every cell of 4 decomposed grids with 6 kinds of surroundings; all accepted names and a third specie of 12 kinds',
      'more random numbers, populations up to 5+5 with 10 patterns of random numbers, 2 further grids'),
     'momentum and kinetic energy of the population in long double (relativistic for SK98 and P12, classical for TA77S); the same cell alone in an undivided grid',
     'exhaustive enumeration of velocities, populations and random choices on the real collision operators, whose random source is controlled')

prop('C26', [dict(harness='h_scatter', variants=['coll_ta77s', 'coll_sk98', 'coll_p12'], link=_RND)],
     ('isolated pairs of electron and ion: 4 ions, 3 (5 relativistic) speeds, 6 weights (weak to isotropic scattering), 5 directions, 4 frames of reference, 2 time steps, all enumerated random numbers and azimuths; 2..5 like particles with one of the other kind, each of their collisions made visible alone; every cell of 3 grids',
      '10 weights'),
     'the published formulas in long double, with the Coulomb logarithm known to +-0.7',
     'exhaustive enumeration of pairs and random choices on the real collision operators, whose random source is controlled')

prop('C23', [dict(harness='h_extern', variants=['extfields', 'extfields_vay', 'extfields_hc', 'extfields_boris', 'extfields_boris_relativistic'])],
     ('5 pushers; 2 grids x domains {1,2,4}^2 x 6 electric x 5 magnetic configurations x with and without own fields and absorbing layers; particles at all positions of a lattice of 1/4 cell inside of the area, 3 steps; 4 unknown profiles of each field',
      '2 further grids'),
     'the same field given as the own field of an undivided area without external fields (differential)',
     'exhaustive enumeration of profiles, decompositions and positions on the real field and pusher code')

_SCHED = ['HERE/src/sched.cpp', '-rdynamic', '-ldl', '-pthread'] + ['-Wl,--wrap=' + _f for _f in ('memcpy', 'memmove', 'memset', 'free', 'pthread_mutex_lock', 'pthread_mutex_unlock', '__cxa_guard_acquire', '__cxa_guard_release')]
_T = ['-fsanitize=thread', '-DVERIF_SCHED']
prop('C01', [dict(harness='h_threads', variants=['default', 'zigzag', 'vay', 'hc', 'mix1', 'mix2', 'mix3', 'coll_ta77s', 'coll_sk98', 'coll_p12'], thorough_variants=['default', 'zigzag', 'nopml', 'boris', 'boris_relativistic', 'boris_adaptive', 'vay', 'hc', 'extfields', 'spatial_random', 'spatial_regular', 'spatial_centered', 'velocity_rectangular', 'velocity_eigen', 'coll_ta77s', 'coll_sk98', 'coll_p12'], flags=['-g1'], hflags=_T, instr={'.cpp': _T}, link=_SCHED)],
     ('grids 8x8, 8x16 x domains {1,2,4}^2 x 3 populations with and without absorbing layers x 49 schedules (all orders of 2, 3 and 4 threads, first and last order of 3 to 17 threads) x 3 steps x 3 phases; hand-over of particles at 5 arrangements x every single preemption at the first 24 synchronization points of 2 and 3 threads; every access of every parallel region checked for conflicts; random phases with 2 to 17 threads; 10 builds',
      'further grids, all orders of 5 threads, 6 steps, two preemptions, 17 build variants'),
     'no two threads of one region access the same byte without synchronization, if one of them writes; fields, currents and particles of the same phase with one thread',
     'stateless exploration of thread orders and preemptions of the real parallel regions on a controlled OpenMP runtime with an access-conflict monitor')

_STEP = ['-Wl,--wrap=_ZN3SMB' + _f for _f in ('10distributeEv', '11inject_beamEv', '13solve_maxvellEv', '17advance_particlesEv', '13solve_currentEv')]
prop('C24', [dict(harness='h_run', variants=['default', 'nopml', 'boris', 'boris_relativistic', 'vay', 'hc', 'zigzag', 'mix1', 'mix2', 'mix3', 'coll_ta77s', 'coll_sk98', 'coll_p12', 'extfields'], thorough_variants=['default', 'nopml', 'boris', 'boris_relativistic', 'boris_adaptive', 'vay', 'hc', 'zigzag', 'spatial_random', 'spatial_regular', 'spatial_centered', 'velocity_rectangular', 'velocity_eigen', 'mix1', 'mix2', 'mix3', 'mix4', 'mix5', 'coll_ta77s', 'coll_sk98', 'coll_p12', 'extfields'], link=_STEP)],
     ('complete runs of 16 steps on grids 8x8, 8x16, 16x8 x divisions {1,2,4}^2 x 3 plasmas (1 eV to 100 keV) x 0, 1, 2 beams x with and without absorbing layers, every node and every macroparticle at every step; 96 lengths and steps of runs; 14 builds',
      'runs of 60 steps, 2 further grids, 10 generator states; 22 builds'),
     'discrete law of Gauss at every node outside of layers and walls (charge density of the positions of the particles against the divergence of the electric field); one straight move of its velocity, reflections included, for every macroparticle and step; number of steps and frames from the configuration',
     'exhaustive enumeration of configurations; every state of every run of the real main program is checked',
     ['the law of Gauss is a statement about the Villasenor-Buneman scheme; builds with ZigZag are checked for the rest', 'one state of the random generator per configuration in the quick tier'])

prop('C25', [dict(harness='h_faults', variants=['default'], link=_RND[:5])],
     ('runs of 3 steps with 1 or 6 probes of all shapes, domains 1x1 and 2x2, with and without pause and reopening: every operation of the data file fails, with every error the library raises for it, once and from then on',
      'every kind of error at every operation, all probes with both divisions'),
     'the undisturbed run: a run that ends successfully has the same data and metadata; values written before the failure are the same',
     'exhaustive enumeration of failure points and kinds over complete runs of the real main program with an in-memory data file',
     ['failures are exceptions of the stand-in for the library; failures while the file is being closed can not be reported by the library'])
