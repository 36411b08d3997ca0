#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','Results do not depend on thread count or thread interleaving',
 'For every number of worker threads and every interleaving of them, the field update, the motion of particles with their hand-over between domains, and the current deposition with its exchange leave the same electromagnetic field, current and macroparticles in every domain (up to rounding and the order of particles in a list) as the same phase made by one thread. In these phases, and in those that use random numbers (initial distribution, beam injection, collisions), no two concurrent threads access the same memory without synchronisation when at least one of them writes.',
 ['schedules','configurations'],'all OpenMP team sizes, all assignments of domains to threads and all orders in which concurrent threads may run, for all decompositions and particle placements',
 'The six unit tests look at physical constants; a race shows only under a particular interleaving of domains that exchange particles or halos.',
 ['src/SMB.cpp','include/algo/grid.hpp','src/math/rand.cpp'],
 [('checkerboard loops over domains','src/SMB.cpp'),('particle hand-over between domains','src/SMB.cpp:particles_runaway_collector'),('halo overlays','include/algo/grid.hpp'),('shared random generator','src/math/rand.cpp')],
 ['field, current and particle contents of every domain after each phase of a step'])

p('C02','No macroparticle is lost, duplicated or left in a foreign domain',
 'After particles are handed over between domains, every macroparticle located inside the simulation area is present exactly once, in the domain that owns the cell where it is located, in the list of its own species, with unchanged position, velocity and weight. Particles are removed only when they are located outside of the simulation area.',
 ['inputs','configurations','histories'],'all positions (every source and every destination cell, several particles at once, inside and outside of the area), all domain decompositions',
 'Depends on the pair of source and destination domain, on list order while elements are removed and on several particles leaving in the same step.',
 ['src/SMB.cpp','src/specieP.cpp','include/geometry.hpp'],
 [('runaway collector','src/SMB.cpp:particles_runaway_collector'),('cell binding','src/specieP.cpp:bind_cell_numbers')],
 ['particle lists of all species of all domains before and after the hand-over'])

p('C03','Domain decomposition does not change the simulation',
 'For the same initial particles and fields, every accepted division of the simulation area into domains (at least two cells, the halo width, in each direction) gives, step after step, the same global electric and magnetic field, current and set of particles as the undivided area, up to rounding.',
 ['configurations','histories'],'all accepted domain decompositions of a grid, all sequences of steps up to the bound, all initial particle placements of the enumerated family, with and without absorbing layers',
 'Errors at seams or corners of domains appear only for particular decompositions and particles near these seams.',
 ['src/SMB.cpp','src/domain.cpp','src/maxwellSolver/maxwellSolverYee.cpp','src/current/currentVB.cpp','include/algo/grid.hpp'],
 [('step phases','src/SMB.cpp'),('halo exchange','include/algo/grid.hpp'),('domain geometry','src/SMB.cpp:SMB')],
 ['global field, current and particle state after every step'])

p('C04','Halo exchange delivers every value to every domain that needs it',
 'After the currents are exchanged, every grid node holds the sum of everything that any domain deposited for this node, each contribution counted exactly once. After fields are exchanged, every halo node of a domain equals the value of the domain which owns it, including nodes at domain corners, and no owned value is changed. Domains are at least two cells (the halo width) in each direction.',
 ['inputs','configurations'],'every grid node (interior or halo) of every domain as the only source, all decompositions, square and non-square domains',
 'Corner and anti-diagonal exchange matters only when something crosses the corner of four domains.',
 ['include/algo/grid.hpp','include/algo/grid3d.hpp','src/SMB.cpp'],
 [('overlay_x, overlay_y, overlay_xy, overlay_xy_anti','include/algo/grid.hpp'),('current and field overlays','src/SMB.cpp')],
 ['current and field arrays of all domains before and after the exchange'])

p('C05','Current deposition conserves charge exactly',
 'For every particle move of at most one cell per direction in a step, the current deposited to the grid satisfies the discrete continuity equation at every node: its divergence equals the change of charge the particle assigns to the node. The deposit is proportional to the charge and weight of the particle, contributions of several particles add up, the azimuthal current has the sign and the total of the azimuthal motion, and currents deposited earlier in the step are not changed.',
 ['inputs','configurations'],'all start and end positions on a sub-cell lattice (inside of a cell, on cell boundaries, through corners, along the axis and at walls) for both deposition schemes',
 'Each of the many crossing cases (four to ten boundaries, exact corner, boundary start) is a separate branch.',
 ['src/current/currentVB.cpp','src/current/currentZigZag.cpp','include/current.hpp'],
 [('Villasenor-Buneman deposition','src/current/currentVB.cpp'),('ZigZag deposition','src/current/currentZigZag.cpp')],
 ['current grid of the domain after deposition'])

p('C06','Field update obeys the discrete Maxwell equations',
 'Outside of absorbing layers one step changes the electric field by the discrete curl of the magnetic field and by the current, and the magnetic field by the discrete curl of the electric field, on the staggered cylindrical grid, with regularity at the axis and perfectly conducting outer walls. The update is linear, couples neighbour nodes only, and keeps the discrete divergence of the magnetic field.',
 ['inputs','configurations','histories'],'every field component at every node and every current node as initial impulse (a basis of all fields, as the update is linear), all wall combinations of domains, several steps',
 'A wrong coefficient or range at an edge or at the axis needs a field exactly there.',
 ['src/maxwellSolver/maxwellSolverYee.cpp','include/maxwellSolver/maxwellSolverYee.hpp','src/SMB.cpp'],
 [('E update','src/maxwellSolver/maxwellSolverYee.cpp:calc_field_e'),('H update','src/maxwellSolver/maxwellSolverYee.cpp:calc_field_h'),('order of updates and exchanges','src/SMB.cpp:solve_maxvell')],
 ['field arrays after each update'])

p('C07','Absorbing layers damp fields only where configured, whatever the domains',
 'The absorbing layers occupy exactly the configured fraction of cells (rounded down) at the left, right and outer walls: a node is absorbing if and only if its distance to the wall is less than the layer width; inside of them the conductivity grows from the inner edge towards the wall between the two configured values, and outside of them the field update is lossless. Domain decomposition does not move or change the layers and a decaying layer never amplifies the field.',
 ['configurations','inputs'],'all layer sizes (0, thin, thicker than a domain, overlapping at corners) for the three walls, all decompositions, field impulses at every node',
 'Layer and decomposition interact (layer edges inside of a domain or crossing several domains).',
 ['src/maxwellSolver/maxwellSolverYee.cpp','src/SMB.cpp','src/cfg.cpp','include/geometry.hpp'],
 [('conductivity set-up','src/maxwellSolver/maxwellSolverYee.cpp:set_pml'),('layer sizes per domain','src/SMB.cpp:SMB')],
 ['conductivity map of every domain','field decay per step'])

p('C08','Field acting on a particle is the volume weighting of its own nodes only',
 'The electric and magnetic field acting on a particle is, for every component, the ring-volume weighted sum of this component at the nodes surrounding the particle on the staggered grid of this component. It is linear in the field, does not depend on the domain the particle is in, and no other component or farther node contributes.',
 ['inputs','configurations'],'unit field of every component at every node (a basis of all fields) against a sub-cell lattice of particle positions over the whole domain, in the first and in shifted domains',
 'A swapped index or weight is visible only with a field that differs between neighbour nodes.',
 ['src/maxwellSolver/maxwellSolverYee.cpp','include/algo/weighter.hpp','include/geometry.hpp'],
 [('field gather','src/maxwellSolver/maxwellSolverYee.cpp:get_field_e,get_field_h'),('volume weights','include/algo/weighter.hpp')],
 ['value returned for the particle position'])

p('C09','Every particle pusher integrates the Lorentz force',
 'Each of the selectable pushers (classic, adaptive and relativistic Boris, Vay, Higuera-Cary) changes particle velocity as its published scheme: no field leaves the velocity unchanged, pure magnetic field keeps the speed and turns it in the right direction, electric field changes the momentum by charge times field times time step, and the speed never reaches the speed of light for relativistic pushers. Particles do not influence each other and positions are not changed by the pusher.',
 ['inputs','configurations'],'lattice of velocities (rest to ultra-relativistic, all directions), electric and magnetic field vectors, charges, masses for each pusher build; several particles in the same list',
 'Errors show for particular orientations of velocity and field, or when relativistic particle follows a slow one.',
 ['src/pusher/pusherBoris.cpp','src/pusher/pusherVay.cpp','src/pusher/pusherHC.cpp','src/phys/rel.cpp','include/math/vector3d.hpp'],
 [('pushers','src/pusher'),('Lorentz factor','src/phys/rel.cpp'),('vector algebra','include/math/vector3d.hpp')],
 ['velocity after the push'])

p('C10','Free particles move along straight lines',
 'Without forces and walls a particle moves along a straight line in space: its radius and longitudinal position after each step are those of the straight line, its speed and longitudinal velocity do not change and its angular momentum is kept. This includes particles passing near or exactly through the axis.',
 ['inputs','histories'],'lattice of positions and velocities in all directions, including zero components and trajectories through the axis, over several steps',
 'The rotation back to the rz plane has sign and near-axis cases.',
 ['src/specieP.cpp','src/domain.cpp','src/SMB.cpp'],
 [('mover','src/specieP.cpp:mover_cylindrical'),('return to the rz plane','src/specieP.cpp:back_position_to_rz,back_velocity_to_rz')],
 ['position and velocity of the particle after each step'])

p('C11','Walls reflect particles specularly and confine them',
 'A particle that crosses a wall of the simulation area is mirrored at the plane half a cell inside of the wall: its position is mirrored, the velocity component normal to the wall changes its sign once per reflection and all other components are kept. After the reflection the particle is inside of the walls, whatever number of walls it crossed, and domains without a wall at their side do not reflect. Beam particles are mirrored at the axis only and leave the area through the other walls.',
 ['inputs','configurations'],'all 16 combinations of walls, lattice of start and end positions (including corners, exactly on walls, multiple reflections), velocities of any sign, shifted domains',
 'Corner and multiple reflections need particles crossing two walls in the same step.',
 ['src/specieP.cpp','src/domain.cpp','src/SMB.cpp'],
 [('reflection','src/specieP.cpp:reflect'),('order of reflection and rotation','src/SMB.cpp:advance_particles')],
 ['position and velocity of the particle after the step'])

p('C12','Initial plasma has the configured density and stays inside of the walls',
 'After initialisation each species has as many macroparticles as configured (up to the documented correction of regular and centred placement), placed inside of the walls, each with positive weight, and in every domain the number of real particles they stand for is the configured density times the loaded volume. All velocities are below the speed of light, without drift and preferred direction, their mean square follows from the configured temperature, and loading of one domain or species does not affect another.',
 ['configurations','inputs'],'all spatial and velocity distribution builds, decompositions, macroparticle amounts, densities, temperatures and random generator states of the enumerated family',
 'Depends on the combination of the distribution, domain walls and amounts.',
 ['src/specieP.cpp','src/SMB.cpp','src/cfg.cpp','src/algo/common.cpp','src/math/rand.cpp','src/math/maxwellJuettner.cpp'],
 [('placement','src/specieP.cpp:rectangular_*_placement'),('weights','src/specieP.cpp:set_weight'),('velocities','src/specieP.cpp:*_velocity_distribution')],
 ['particle lists after distribute'])

p('C13','Beams inject the configured bunches, charge and timing',
 'A beam injects nothing before its start time, between its bunches and after the last bunch; during a bunch particles appear at the left wall within the bunch radius with the beam velocity directed along the axis. Every bunch injects its share of the configured macroparticles and of the real particles given by density, radius and length, whatever the decomposition into domains and time step.',
 ['configurations','histories'],'all start times, bunch amounts, lengths, distances, radii, velocities of the enumerated family, decompositions and time steps, over the complete injection',
 'Bunch switching is stateful and differs by domain.',
 ['src/beamP.cpp','src/SMB.cpp','src/domain.cpp'],
 [('injection','src/beamP.cpp:inject'),('beam domains','src/domain.cpp:manage_beam')],
 ['particles added to beam species at every step'])

p('C14','Output frames are written on schedule, once, without gaps',
 'A probe with schedule N gets exactly one frame for every step whose number is a multiple of N, beginning with step 0: frame k holds the data of step k*N. No frame is skipped, written twice or left unwritten, whatever the time step, schedule and simulation length, and probes do not affect frames of each other. Probes that would share a dataset are refused.',
 ['configurations','histories'],'all time steps and lengths of the enumerated family (including steps which are not exact binary fractions), all schedules, all sets of probes',
 'Accumulated floating point time makes step numbers slip at particular step counts.',
 ['src/outController.cpp','src/outWriter.cpp','src/outEngine/outEngineHDF5.cpp','src/PiCoPiC.cpp'],
 [('frame numbering','src/outController.cpp:init_datasets'),('frame write','src/outWriter.cpp')],
 ['datasets of the data file'])

p('C15','Probes record exactly the configured region of the global grid',
 'For every probe shape (rectangle, column, row, dot) and every component the recorded frame contains, at every element, the value of this component at the corresponding global grid node and nothing else, whatever the decomposition into domains. Size and path of the dataset follow from the probe configuration.',
 ['configurations','inputs'],'all rectangles, columns, rows and dots on a small grid, all decompositions, all components',
 'Seams: probes ending at, beginning at or crossing domain boundaries.',
 ['src/outController.cpp','src/outWriter.cpp','src/outEngine/outEngineHDF5.cpp','src/cfg.cpp'],
 [('intersection of probe and domain','src/outController.cpp:OutController'),('region copy','src/outWriter.cpp'),('dataset offsets','src/outEngine/outEngineHDF5.cpp')],
 ['datasets of the data file'])

p('C16','Density, momentum, energy and temperature maps match the particles',
 'The density map assigns every macroparticle to the surrounding nodes by volume weighting and does not depend on the domain decomposition. Momentum, energy and temperature maps are the averages, over the particles of the domain that are assigned to the node, of relativistic momentum, kinetic energy of the mean absolute momentum and energy of chaotic motion, with zero for empty nodes; requesting several probes at once gives the same maps as requesting each alone.',
 ['inputs','configurations','histories'],'particle placements on a sub-cell lattice, velocities from rest to relativistic, decompositions, all sets of probes of the enumerated family',
 'Maps are shared between probes and recomputed in probe order.',
 ['src/specieP.cpp','include/algo/weighter.hpp','src/outController.cpp','src/phys/rel.cpp'],
 [('maps','src/specieP.cpp:calc_density,calc_momentum,calc_energy,calc_temperature'),('scatter','include/algo/weighter.hpp'),('density exchange','src/outController.cpp:init_datasets')],
 ['maps written by probes'])

p('C17','Configuration is taken as written, or rejected',
 'Every accepted configuration yields exactly the geometry, time, species, beams, probes and macroparticle shares that it describes. Configurations which can not be simulated (missing or malformed data, no electrons, repeated names, area, grid size or time step that is not positive, domain amounts that are zero, odd or do not divide the grid, probes that are empty, repeated, have a schedule that is not positive, unknown shape or lie outside of the grid) are refused with an error instead of being run.',
 ['configurations','inputs'],'all single (and pairs of) deviations from a valid configuration of the enumerated family',
 'The space of configurations is combinatorial; refused ones must be refused before anything is run.',
 ['src/cfg.cpp','include/cfg.hpp','include/geometry.hpp'],
 [('parsing','src/cfg.cpp:Cfg'),('limits','src/cfg.cpp:method_limitations_check')],
 ['public members of the configuration','fatal error'])

p('C18','Different species and beams never share an identity',
 'In every accepted configuration all species and beams have different identifiers, so that particles handed over between domains and collected for diagnostics stay with the species they were created for; the identifier depends on the name only. Names, whose identifiers would clash, are refused.',
 ['configurations'],'all names over a small alphabet up to the bounded length, as species and as beams',
 'Identifiers are short hashes; clashes need particular names.',
 ['src/cfg.cpp','src/algo/common.cpp','src/SMB.cpp'],
 [('name hash','src/algo/common.cpp:hash_from_string'),('uniqueness check','src/cfg.cpp:init_particles,init_beam')],
 ['identifiers of the configuration','species list holding the particle'])

p('C19','Pause, resume and termination never lose or corrupt output',
 'Whenever pause, resume and termination signals arrive, in any order and number, the data file is never used while it is closed and never closed twice; a pause request that is not followed by a resume request is always honoured after the current step, and while the simulation is paused the data file is closed and no step is made; a resume request is always honoured. A simulation that was paused and resumed writes exactly the same frames as one that was not, and termination closes the data file once and ends the program.',
 ['schedules','histories'],'all sequences of signals up to the bound, delivered at every point of the run where the main program accesses its global state, calls the data file or sleeps, including the signal handler itself',
 'Signals arrive between any two operations; a test hits one of them.',
 ['src/PiCoPiC.cpp','src/outController.cpp','src/outWriter.cpp'],
 [('signal handler','src/PiCoPiC.cpp:signal_handler'),('pause loop','src/PiCoPiC.cpp:main'),('reopened file','src/outController.cpp:set_file')],
 ['operations on the data file, exit status'])

p('C20','A run never destroys existing data and describes itself completely',
 'A run refuses to start when the data file already exists and leaves its contents unchanged; when the data directory is missing it is created with its parents. The new file carries the complete configuration of the run, so that the configuration can be read back from it, and the software name, version and build options that were in effect.',
 ['configurations','histories'],'all combinations of existing and missing directories and files up to the bounded depth, all configurations of the enumerated family',
 'Needs a second run over the result of the first one.',
 ['src/PiCoPiC.cpp','src/outEngine/outEngineHDF5.cpp','src/algo/common.cpp','src/cfg.cpp'],
 [('exclusive creation','src/PiCoPiC.cpp:main'),('metadata','src/outEngine/outEngineHDF5.cpp:write_metadata'),('directories','src/algo/common.cpp:make_directory')],
 ['data file before and after the run'])

p('C21','The reader library returns exactly what the simulation wrote',
 'For every probe of a run, the Python reader returns, for every frame number and frame range, exactly the values written by the simulation for this probe (rectangle, column, row, dot, and columns, rows and dots cut from a rectangle). The metadata reader reports the configuration of the run, and its conversions between time and frame, radius and row, longitude and column are inverse to each other.',
 ['configurations','inputs'],'all probe shapes and positions on a small grid, all frames and frame ranges, all rows, columns and frames for conversions',
 'Writer and reader are in different languages and agree only through dataset paths and shapes.',
 ['lib/python/picopic/reader.py','lib/python/picopic/h5_reader.py','lib/python/picopic/meta_reader.py','src/cfg.cpp','src/outEngine/outEngineHDF5.cpp'],
 [('dataset path in the reader','lib/python/picopic/reader.py:__path__'),('dataset path in the writer','src/cfg.cpp:init_probes')],
 ['arrays returned by the reader'])

p('C22','Binary collisions conserve particles, momentum and energy',
 'Coulomb collisions of electrons with ions (under every name that the configuration accepts for them) only change velocities: positions, weights and the number of particles stay the same, all velocities stay finite and (for the relativistic schemes) below the speed of light. The collisions of the particles of one cell conserve their total momentum and kinetic energy, when all of them have the same weight (scheme TA77S, which is not relativistic: in the classical sense and for different weights too), for all velocities, also parallel, opposite and equal ones, and all random numbers. In every cell that has both kinds of particles every particle of the more numerous kind collides with one of the other kind, and like particles collide with each other. The outcome in a cell depends only on the contents of this cell, not on other cells or the domain decomposition; particles of further species do not collide as if they were electrons.',
 ['inputs','configurations'],'all collision schemes, all small populations (up to 4+4 particles) on a velocity lattice, all sizes of populations up to 13+13, all cells of decomposed grids, all values of the random numbers of an enumerated set',
 'Odd populations, different species and particular scattering angles take different branches.',
 ['src/collisions.cpp','src/collisions/collisionsTA77S.cpp','src/collisions/collisionsSK98.cpp','src/collisions/collisionsP12.cpp','src/domain.cpp'],
 [('pairing','src/collisions.cpp'),('scattering','src/collisions')],
 ['particles before and after collisions'])

p('C26','Coulomb collisions scatter by the law of their scheme in every frame',
 'A collision of two particles of equal weight turns their relative velocity (for the relativistic schemes SK98 and P12: the momentum in the frame of their center of mass) by the angle that follows from the random number and the published law of the scheme: TA77S and SK98: tangent of the half of the angle is normally distributed with the variance e_a^2 e_b^2 n L dt / (8 pi eps0^2 m_ab^2 u^3) for slow particles (SK98: in the frame where one of the particles rests, with the relativistic momentum there); P12: the distribution of Nanbu and Perez for s12 (or its low temperature limit). Here n is the lower of the densities of both species in the cell (number of real particles over the volume of the cell) and L the Coulomb logarithm (at least 2). The angle does not depend on the motion of the pair as a whole, the azimuth around the relative velocity is the random one and any azimuth is possible, both particles really get opposite changes of momentum: electrons and ions exchange momentum and energy. Every particle collides with like particles for one time step in total: in pairs for the whole step, in the group of three that an odd number of particles needs for the half of the step with each of both others.',
 ['inputs','configurations'],'all collision schemes, electron-ion pairs with ions of 4 kinds, speeds from 300 km/s to 0.8 c, densities from negligible to isotropic scattering, 5 directions, 4 frames of reference, enumerated random numbers; 2..5 like particles; all cells of decomposed grids',
 'Conservation laws hold for any angle: scattering of a wrong strength, or one which is taken back afterwards, is seen by none of them, and tests have no collisions at all.',
 ['src/collisions.cpp','src/collisions/collisionsTA77S.cpp','src/collisions/collisionsSK98.cpp','src/collisions/collisionsP12.cpp','src/phys/plasma.cpp'],
 [('scattering','src/collisions'),('Coulomb logarithm and Debye length','src/phys/plasma.cpp'),('density of the cell','src/collisions.cpp')],
 ['velocities of particles before and after collisions'])

p('C23','External fields act on particles as configured, independent of domains',
 'With external fields enabled, a particle that is further than two cells from the outer walls and the axis feels the self-consistent field plus the configured external electric and magnetic fields (the implemented profiles: none and const_z, a uniform field along z of the configured amplitude), both at once, at every position, on every step and independent of the domain decomposition, with every pusher. Profile none leaves the particle motion unchanged; an unknown profile is rejected.',
 ['configurations','inputs'],'all implemented profiles and parameters of the enumerated family, all decompositions, a lattice of particle positions, all pushers',
 'Particles near domain borders take the field from nodes of the halo.',
 ['src/maxwellSolver/externalFields.cpp','include/maxwellSolver/externalFields.hpp','src/cfg.cpp','doc/external_fields.md'],
 [('profiles','src/maxwellSolver/externalFields.cpp')],
 ['external field arrays and particle velocity'])
p('C24','Complete runs obey the law of Gauss; every particle moves once per step',
 'In a complete run of the program, with every accepted configuration (domains, plasma, beams, absorbing layers, number of macroparticles down to a few) and at every step: every macroparticle moves exactly once, along the straight line of its velocity times the step (reflected at the walls), stays one macroparticle of its specie with its weight inside of the area and in the domain that owns its place; none appears except for the bunches that the configuration injects and none disappears except for beam particles at the edges of the area; with the Villasenor-Buneman current scheme the electric flux out of the volume of every node (outside of the absorbing layers and walls) changes by the change of the charge there, i.e. the discrete law of Gauss holds for the whole run, also in domains which become empty. The run takes as many steps as fit from 0 to the configured end time (one more if the end is a multiple of the step up to rounding is allowed); fields, particles, currents and output are each advanced once per step.',
 ['configurations','histories'],'all steps of runs over the enumerated grids, divisions, plasmas, beams, layers, numbers of macroparticles, time steps and end times',
 'The law holds only if fields, motion, reflection, hand-over, injection, deposition and halo exchange work together in every step; each alone can look right.',
 ['src/PiCoPiC.cpp','src/SMB.cpp','src/domain.cpp','src/current/currentVB.cpp','src/specieP.cpp','src/beamP.cpp'],
 [('main loop','src/PiCoPiC.cpp'),('phases of a step','src/SMB.cpp'),('deposition','src/current/currentVB.cpp')],
 ['fields and macroparticles after every phase of a step','frames in the data file'])
p('C25','A failing data file is never taken for a successful run',
 'Whatever operation on the data file fails (creating or reopening the file, opening its root for the metadata, creating datasets and attributes, opening, extending and writing datasets), at any point of the run and once or permanently, the program ends with an error, or all frames and metadata are complete nevertheless: a run which ends successfully has never lost data. Values that were written before the failure are not changed.',
 ['fault_sequences','histories'],'every operation of runs with all probe shapes, with and without pause and reopening, failing with every error of the library, once and permanently',
 'Failures of the disk do not happen in tests; there is an error handler of its own for every operation.',
 ['src/outEngine/outEngineHDF5.cpp','src/PiCoPiC.cpp','src/outController.cpp','src/outWriter.cpp'],
 [('error handlers','src/outEngine/outEngineHDF5.cpp'),('reopening','src/PiCoPiC.cpp')],
 ['exit of the program, contents of the data file'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
