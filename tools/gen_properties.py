#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the file stays valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))
SS='Sylinder/SylinderSystem.cpp'
p('C01','Particles are conserved: one owner each, attributes intact, inside the box',
 'Through every sequence of initialization, domain decomposition, migration, additions and time steps, the set of particles over all ranks is exactly the initial particles plus those added: none lost, none duplicated, each held by exactly one rank. Each particle keeps its id, radius, length, group and immovable flag. Immediately after a step is prepared, every particle centre lies in the simulation box along each periodic axis, at a periodic image of where it was, and non-periodic coordinates are untouched.',
 ['histories','configurations','inputs'],'all histories of prepare/step/add, rank and thread counts, periodicity settings, particle clouds',
 'The tests that run the system need TRNG and print results; they sample one cloud and one rank count.',
 [SS,'FDPS/particle_system.hpp','FDPS/domain_info.hpp','Sylinder/Sylinder.cpp'],
 [('SylinderSystem::prepareStep','%s:prepareStep'%SS),('SylinderSystem::applyBoxBC','%s:applyBoxBC'%SS),('decomposeDomain / exchangeSylinder',SS),('ParticleSystem::exchangeParticle','FDPS/particle_system.hpp')],
 [('sylinderContainer','the particles this rank owns','Sylinder/SylinderSystem.hpp')],['getContainer() on every rank'])
p('C02','New particles get ids that were never used',
 'Particles added at run time receive globally unique ids, larger than every id already in use on any rank, whichever ranks add how many (including none), and the caller is given exactly the ids assigned to the particles it added, in order. Existing particles keep their ids, and the same holds for repeated additions in one run.',
 ['histories','configurations'],'every distribution of additions over ranks, every number of additions and existing id set',
 'One test adds a fixed number on each rank once and prints; nothing is compared.',
 [SS],[('SylinderSystem::addNewSylinder',SS),('SylinderSystem::getMaxGid',SS)],observe=['return value of addNewSylinder, getContainer()'])
p('C03','Every rank holds the same link map and its exact reverse',
 'After links are read or added from any ranks in any order, all ranks hold the same links: exactly the initial ones plus those added, each as often as it was given, none invented or dropped. The reverse lookup is exactly the inverse relation of the forward lookup, on every rank, throughout the run.',
 ['histories','configurations'],'every distribution of link additions over ranks and calls, every initial link file',
 'The link test adds one pattern and only prints.',
 [SS],[('SylinderSystem::addNewLink',SS),('SylinderSystem::setLinkMapFromFile',SS)],
 [('linkMap, linkReverseMap','prev->next links and the inverse, replicated','Sylinder/SylinderSystem.hpp')],['getLinkMap(), getLinkReverseMap()'])
p('C04','Global indices are contiguous and every vector refers to the right particle',
 'After a step is prepared, the particles carry global indices 0..N-1, contiguous and ascending by rank and by local order, each tagged with its owning rank, also when some ranks own no particle. Every distributed vector and map built over them (six values per particle, and two-block combinations) has exactly those sizes and offsets, so that a value given or read for a particle acts on that particle and no other.',
 ['configurations','inputs'],'all local size distributions over ranks, including empty ranks and empty systems',
 'TMAP and TpetraUtil tests build a few fixed maps and print them.',
 ['Trilinos/TpetraUtil.cpp',SS],[('getTMAPFromLocalSize / getTMAPFromTwoBlockTMAP / getTVFromTwoBlockTV','Trilinos/TpetraUtil.cpp'),('SylinderSystem::updateSylinderMap',SS)],observe=['maps, vectors, globalIndex and rank of each particle'])
p('C05','Distributed directory lookups return what was published',
 'A directory query returns, for each requested id and in the order requested, exactly the data published for that id by whichever rank published it, for any distribution of ids over ranks, any request lists with repeats or none, and repeated rebuilds with changed data. An id nobody published never returns the data of another id.',
 ['inputs','histories','configurations'],'all distributions of published and requested ids over ranks, all rebuild histories',
 'The test publishes one pattern and queries consecutive ids.',
 ['Trilinos/ZDD.hpp'],[('ZDD::buildIndex','Trilinos/ZDD.hpp'),('ZDD::find','Trilinos/ZDD.hpp')],observe=['dataToFind after find()'])
p('C06','All-to-all exchange delivers every item once to its destination',
 'In a many-to-many exchange every item submitted for a destination rank arrives there exactly once and nowhere else, labelled with the rank that sent it, and items from one sender to one receiver keep their order. This holds for any message matrix, including empty messages, self messages and ranks that send nothing, and for any submission order.',
 ['inputs','schedules','configurations'],'all message matrices, submission orders and rank counts',
 'CommMPI_test needs TRNG and is not built; it uses one random pattern.',
 ['MPI/CommMPI.hpp'],[('CommMPI::exchangeAllToAllV','MPI/CommMPI.hpp')],observe=['received sources and data'])
p('C07','Tag sort is a stable ordering that keeps tags and data paired',
 'Sorting data by tags leaves the tags in ascending order and the data permuted with them, every (tag, item) pair preserved exactly once, and items with equal tags in their original order. Sizes 0 and 1 and heavy ties included.',
 ['inputs'],'all tag sequences and payloads','The test sorts one random array.',
 ['Util/SortUtil.hpp'],[('sortDataWithTag','Util/SortUtil.hpp')],observe=['arrays after the call'])
p('C08','Every close pair yields exactly one collision constraint, however distributed',
 'In each step, every unordered pair of particles (or their nearest periodic images) whose surfaces are closer than the collision buffer gives exactly one collision constraint, and pairs further apart give none. The set of constraints does not depend on the number of ranks or threads, on who owns which particle, or on how the domain is cut.',
 ['inputs','configurations'],'all particle configurations, rank and thread counts, periodicity settings',
 'Neighbour search tests run one random cloud on one decomposition with equal sizes.',
 ['Sylinder/SylinderNear.hpp',SS,'FDPS/tree_for_force_impl.hpp'],[('CalcSylinderNearForce','Sylinder/SylinderNear.hpp'),('SylinderNearEP::getRSearch','Sylinder/SylinderNear.hpp'),('SylinderSystem::collectPairCollision',SS)],observe=['constraint pool after a step'])
p('C09','Collision constraints describe the true closest approach',
 'The separation recorded for a colliding pair is the minimum distance between the two bodies (segment to segment, sphere or segment), minus both radii; the contact points lie on the two centre lines at that distance, and the two normals are opposite unit vectors along the line joining them, pointing from the other body to the own one. This holds for parallel, crossing, touching, overlapping and degenerate segments and sphere/rod mixtures, with ids and indices naming the right bodies.',
 ['inputs'],'all pairs of positions, orientations, lengths and radii','The near test compares one random cloud with the same routine.',
 ['Collision/DCPQuery.hpp','Sylinder/SylinderNear.hpp'],[('DCPQuery','Collision/DCPQuery.hpp'),('CalcSylinderNearForce::sp_sp, sp_sy, sy_sy','Sylinder/SylinderNear.hpp')],observe=['distance query results; constraint pool'])
p('C10','Boundary constraints are produced exactly where particles approach walls',
 'A one-sided constraint is created for each end of a rod (or the centre of a sphere-like particle) that is outside a boundary or closer to it than the contact distance, and for no other. Its gap is the signed distance to the boundary minus the particle radius, and its normal is the unit vector pushing the particle back into the allowed side. Walls, tubes and spherical shells, inside or outside, are all covered.',
 ['inputs','configurations'],'all particle placements relative to all boundary types','Boundary tests check projection of random points only, never the constraints.',
 [SS,'Boundary/Boundary.cpp'],[('SylinderSystem::collectBoundaryCollision',SS)],observe=['one-sided constraints in the pool'])
p('C11','Each link yields one bilateral constraint between the linked ends',
 'In each step, every link whose two particles exist gives exactly one two-sided constraint between the plus end of the first and the minus end of the second (nearest periodic image), with the gap measured against the configured link gap and the configured stiffness. It does not depend on how the particles are distributed over ranks.',
 ['inputs','configurations','histories'],'all link sets, placements across the periodic boundary and rank distributions','MixLink test needs TRNG and only prints.',
 [SS],[('SylinderSystem::collectLinkBilateral',SS)],observe=['bilateral constraints in the pool'])
p('C12','Constraint forces obey action and reaction',
 'For any set of constraints, the assembled operator maps a constraint force to opposite forces on the two particles, along the contact normals, with the torque of the force applied at the contact point about each centre; one-sided constraints act on one particle only. The transpose maps particle velocities to the relative velocity along the normal, row for row, with guess, gap and stiffness vectors in the same row order.',
 ['inputs','configurations'],'all constraint sets over all rank and thread distributions, including empty ones','No test looks at the assembled matrix.',
 ['Constraint/ConstraintCollector.cpp'],[('ConstraintCollector::buildConstraintMatrixVector','Constraint/ConstraintCollector.cpp')],observe=['assembled matrix and vectors; solver forces'])
p('C13','The constraint solve ends at a feasible point that meets the tolerance',
 'For any symmetric positive semidefinite bounded quadratic problem that has a solution, including an empty one, the solver terminates within its iteration limit with every unknown inside its bounds and no NaN. When it stops before the limit without reporting stagnation, the complementarity residual of the returned solution (optimal at each unknown: zero gradient inside, right sign on a bound) is below the requested tolerance.',
 ['inputs','configurations'],'all PSD problems, bounds, starting points (feasible or not), tolerances and both methods','The BCQP test runs one random problem and prints residuals.',
 ['Constraint/BCQPSolver.cpp'],[('BCQPSolver::solveBBPGD','Constraint/BCQPSolver.cpp'),('BCQPSolver::solveAPGD','Constraint/BCQPSolver.cpp')],observe=['returned solution and iteration history'])
p('C14','Step forces, velocities and stresses agree with the constraint solution',
 'After a step, the collision and bilateral forces and velocities of each particle equal the sum over its constraints of the solved magnitude times its normal and lever arm, velocities are the mobility applied to the forces, unilateral magnitudes are non-negative, contacts do not overlap further than the tolerance allows, and the stored magnitude and stress of each constraint are those of the solution. Each particle is reported with its own values.',
 ['inputs','configurations','histories'],'all interacting configurations over rank and thread counts','No test checks forces against the solved constraints.',
 ['Constraint/ConstraintSolver.cpp','Constraint/ConstraintOperator.cpp',SS],[('ConstraintSolver::solveConstraints','Constraint/ConstraintSolver.cpp'),('ConstraintSolver::writebackGamma','Constraint/ConstraintSolver.cpp'),('SylinderSystem::resolveConstraints, saveForceVelocityConstraints',SS)],observe=['constraint pool, force and velocity vectors, particles'])
p('C15','A step moves each particle by exactly its total velocity times dt',
 'In one step every mobile particle moves by dt times the sum of its non-Brownian (drag law applied to external force, plus prescribed velocity), Brownian, collision and bilateral velocities, and its orientation rotates by dt times its total angular velocity, staying a unit rotation. External forces and velocities supplied for a step act on exactly the particles they were given for, in that step only; the step counter increases by one.',
 ['inputs','histories'],'all velocities, orientations, time steps, sequences of steps with and without external input','No test checks motion.',
 [SS,'Sylinder/Sylinder.cpp','Util/EquatnHelper.hpp'],[('SylinderSystem::stepEuler, sumForceVelocity, calcVelocityNonCon, calcMobMatrix',SS),('Sylinder::stepEuler','Sylinder/Sylinder.cpp'),('EquatnHelper::rotateEquatn','Util/EquatnHelper.hpp')],observe=['positions and orientations before/after, per-term velocities'])
p('C16','Immovable, fixed and monolayer particles respect their restrictions',
 'A particle marked immovable never moves or turns, whatever forces, contacts or noise act; with the fixed option no particle moves at all. In monolayer mode every particle is on the mid-plane of the box with its axis in that plane after each preparation and stays there through the step, and none gains out-of-plane velocity.',
 ['histories','configurations'],'all runs with immovable particles, the fixed option or monolayer mode','No test uses these modes.',
 [SS,'Sylinder/Sylinder.cpp'],[('SylinderSystem::calcMobMatrix (isImmovable), prepareStep (monolayer), stepEuler (sylinderFixed)',SS)],observe=['positions and orientations over steps'])
p('C17','Snapshots appear on schedule, are numbered without gaps, and tell the truth',
 'Output is written at step 0 and then exactly every snapshot interval (interval divided by dt, to the nearest step, at least one), numbered 0,1,2,... with no gap. Each snapshot holds every particle and every link exactly once with the state it had when written, in the folder its number selects, with per-rank files listed by the parallel index file, and the step-info file names the latest snapshot and step.',
 ['histories','configurations'],'all dt/interval ratios, run lengths, rank counts and contents','Nothing reads the output back.',
 [SS],[('SylinderSystem::getIfWriteResultCurrentStep, writeResult, writeAscii, writeVTK, writeTimeStepInfo, getCurrentResultFolder',SS),('Sylinder::writeVTP','Sylinder/Sylinder.hpp')],
 [('snapID, stepCount','output and step counters','Sylinder/SylinderSystem.hpp')],['files in result/'])
p('C18','Restarting from a snapshot continues the same run',
 'A run restarted from its last snapshot, on the same number of ranks, has the particles (id, size, position, orientation, group, immovability) and links of that snapshot, advanced by the saved velocities, with step and snapshot counters continuing so that no later snapshot overwrites or skips a number, and a different random stream than before.',
 ['histories','crash_points','configurations'],'all stop points, rank and thread counts, particle contents','No test restarts.',
 [SS],[('SylinderSystem::reinitialize, setInitialFromVTKFile',SS)],observe=['getContainer(), link maps, counters, files after restart'])
p('C19','Results do not depend on how work is split over ranks and threads',
 'With the same configuration, initial state and no thermal noise, the evolution of every particle is the same for every number of ranks and threads, up to rounding and solver tolerance. With the same seed, rank and thread counts, a run is reproducible.',
 ['configurations','schedules','inputs'],'all rank/thread counts and interacting configurations','Tests run one decomposition.',
 [SS,'FDPS/tree_for_force_impl.hpp'],[('SylinderSystem::runStep',SS)],observe=['particle trajectories per decomposition'])
p('C20','Boundary projection returns the nearest surface point and the inward vector',
 'For walls, tubes and spherical shells of either facing and any orientation, projecting a point returns a point on the boundary surface that is nearest to the query, a vector from that point into the allowed side: from the projection to the query when the query is inside, and from the query to the projection when it is outside, both with length equal to the distance.',
 ['inputs'],'all query points and boundary parameters','The test samples random points around three boundaries with the same implementation as checker.',
 ['Boundary/Boundary.cpp'],[('SphereShell::project, Wall::project, Tube::project','Boundary/Boundary.cpp')],observe=['projection outputs'])
p('C21','Mixed-pair interaction visits exactly the neighbours within range',
 'The force on each target is computed from exactly the sources within the search radius (symmetric criterion), counting periodic images, each once, whatever the number of ranks and share of each in sources and targets (each particle on the rank whose domain holds it, as FDPS requires); results come back in the order of the local targets, also after targets and sources change or move between calls.',
 ['inputs','configurations','histories'],'all source/target sets, radii, periodicity, rank counts, call sequences','One dataset is verified by a script.',
 ['MPI/MixPairInteraction.hpp'],[('MixPairInteraction::updateSystem, updateTree, computeForce','MPI/MixPairInteraction.hpp')],observe=['getForceResult()'])
p('C22','Random streams are reproducible and never shared',
 'For a given seed, number of ranks and threads, each thread of each rank draws from its own sub-stream of one master sequence: no two of them ever use the same master draw, and together they use all. The same seed and counts give the same numbers, whatever the order in which threads draw, and uniform, normal and log-normal draws come from the calling thread only.',
 ['configurations','schedules','histories'],'all seeds, rank and thread counts, draw interleavings','TRngPool_test prints numbers and needs TRNG.',
 ['Util/TRngPool.hpp'],[('TRngPool::TRngPool, getU01, getN01, getLN','Util/TRngPool.hpp')],observe=['sequence positions drawn by each (rank, thread)'])
p('C23','Binary output encodes exactly the data written',
 'Binary payloads written to visualisation files are valid base64 that decodes to the byte length header followed by exactly the bytes of the array, for every length modulo three and every element type and number of components; single-precision conversion rounds and nothing else. Parallel index files declare the same arrays, types and component counts as the pieces.',
 ['inputs'],'all arrays, lengths, types','The IO helpers have no test.',
 ['Util/Base64.hpp','Util/Base64.cpp','Util/IOHelper.hpp'],[('IOHelper::writeDataArrayBase64 / Base64Enc','Util/IOHelper.hpp'),('B64Converter','Util/Base64.cpp')],observe=['bytes written'])
p('C24','Periodic image helpers return the image in the box or nearest to the target',
 'Wrapping a coordinate into a periodic interval returns an image of it that lies in the half-open interval; with a target, it returns the image nearest to the target. Randomly generated points lie in the requested box, circle or sphere.',
 ['inputs'],'all coordinates (far outside, on and just around the edges), boxes and targets','GeoUtil_test needs TRNG and only prints.',
 ['Util/GeoUtil.hpp'],[('findPBCImage','Util/GeoUtil.hpp'),('getRandPointInCircle, getRandPointOnSphere','Util/GeoUtil.hpp')],observe=['returned values'])
p('C25','Distributing and collecting points loses, duplicates or reorders nothing',
 'Scattering points held by one rank over all ranks and gathering them back (to one rank or to all) yields every point exactly once with its components intact, in the original global order, for any number of points (including none or fewer than ranks) and values per point.',
 ['inputs','configurations'],'all point counts, dimensions, rank counts','Only used by other tests with one size.',
 ['Util/PointDistribution.hpp'],[('PointDistribution::distributePts, collectPts, collectPtsAll','Util/PointDistribution.hpp')],observe=['arrays per rank'])
p('C26','The complementarity solvers return solutions of the problem they were given',
 'For a linear complementarity problem with a symmetric positive definite matrix, each solver returns a vector with no negative entry and, when it stops before the iteration limit without reporting failure, with complementarity residual below the requested tolerance and recorded as such, agreeing with the unique solution and, across solvers, with each other. This holds for any starting guess and number of ranks.',
 ['inputs','configurations'],'all SPD problems, starting guesses, tolerances, rank distributions','CPSolver test runs one random problem and prints.',
 ['Collision/CPSolver.cpp','Collision/CPSolver.hpp'],[('CPSolver::LCP_APGD, LCP_BBPGD, LCP_mmNewton','Collision/CPSolver.cpp')],observe=['returned solution and history'])
p('C27','Configuration and initial data mean what the files say',
 'Every setting in the configuration file reaches the run unchanged, settings that are left out take their documented defaults, and a missing required setting or an array of wrong dimension stops the program instead of running with garbage. Particles and links in the initial position file become exactly those particles and links; randomly generated initial particles lie in the initial region with the configured size, orientation and count.',
 ['inputs','configurations'],'all configuration and position files','No test varies the configuration.',
 ['Sylinder/SylinderConfig.cpp',SS,'Util/YamlHelper.hpp'],[('SylinderConfig::SylinderConfig','Sylinder/SylinderConfig.cpp'),('SylinderSystem::setInitialFromConfig, setInitialFromFile, setInitialCircularCrossSection',SS)],observe=['config values; particles after initialization'])
p('C28','Reported global quantities are those of all particles',
 'The quantities the program reports for the whole system are those of exactly the particles and constraints it holds: the local and global bounding boxes are the tight boxes of the particle ends, the polar and nematic order parameters are means over all particles, volume and volume fraction sum over all particles, and the mean constraint stress sums the stress of every two-sided constraint once, per particle and kT. They do not depend on the number of ranks or threads.',
 ['inputs','configurations','histories'],'all particle sets, positive and negative coordinates, rank and thread counts, ranks without particles','No test compares these numbers with anything.',
 [SS,'Constraint/ConstraintCollector.cpp'],[('SylinderSystem::calcBoundingBox, calcOrderParameter, calcVolFrac, calcConStress',SS),('ConstraintCollector::sumLocalConstraintStress','Constraint/ConstraintCollector.cpp')],observe=['returned boxes; RECORD lines of the log'])
p('C29','Thermal motion obeys the fluctuation-dissipation relation',
 'With a temperature, the Brownian velocity of each mobile particle in each step is a Gaussian of zero mean and covariance 2 kT / dt times its mobility (along and across the axis, and rotation), independent between particles, components and steps; immovable particles and runs at zero temperature have none, and a monolayer has none out of its plane.',
 ['inputs','configurations','schedules'],'all particle shapes, temperatures, time steps, rank and thread counts','No test looks at Brownian velocities.',
 [SS],[('SylinderSystem::calcVelocityBrown',SS)],observe=['velBrown, omegaBrown of each particle after a step'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P), max(len(x['title']) for x in P))
