"""property id -> the function that decides it, the technique and what it assures"""
from lib import simcheck, msgcheck, utilcheck, rngcheck, mixcheck, concheck, equivcheck, noisecheck
CHECKS = {p: simcheck.check for p in simcheck.SYS}
for m in (msgcheck, utilcheck, rngcheck, mixcheck, concheck, equivcheck, noisecheck):
    CHECKS.update(m.CHECKS)
SYS_T = 'TLA+ specification of the whole system (SimSystem), TLC trace validation of runs generated from SimSched'
SYS_N = ('Runs of the real SylinderSystem over several MPI ranks and threads, scheduled by TLC from SimSched, are recorded with all their state and every event '
         'must be a transition of SimSystem that satisfies this property\'s clauses. Trusts the recorder (drivers/drv_sys.cpp), the text form of doubles and the '
         'Java arithmetic under module Flt. Deliberate changes of recorded runs are rejected in each execution of the check. Not exhaustive over inputs.')
NOTE = {p: (SYS_T, SYS_N) for p in simcheck.SYS}
ASSUME = {p: ['the recorder reports the state the program holds', 'IEEE doubles with the tolerances stated in the specification'] for p in simcheck.SYS}
COMP_T = 'TLA+ specification of the component (%s), TLC enumerates the inputs (%s) and validates the recorded calls'
COMP_N = ('Every input of a bounded space described by the specification and larger random ones go through the real code%s; every recorded call must be a step of '
          'the specification. Trusts the recorder and the MPI library. Deliberate changes of recorded calls are rejected in each execution. Not exhaustive beyond the bounded space.')
def comp(ids, spec, gen, where):
    for p in ids:
        NOTE[p] = (COMP_T % (spec, gen), COMP_N % where)
        ASSUME[p] = ['the recorder reports what the calls received and returned']
comp(['C05'], 'Directory', 'DirectoryGen', ' on several MPI ranks')
comp(['C06'], 'Exchange', 'ExchangeGen', ' on several MPI ranks')
comp(['C07'], 'TagSort', 'TagSortGen', ' with several threads')
comp(['C25'], 'Points', 'all sizes around multiples of the number of ranks', ' on several MPI ranks')
comp(['C20'], 'BoundaryMap', 'BoundaryGen', '')
comp(['C23'], 'Codec', 'CodecGen', ' and through the file writers')
comp(['C24'], 'Images', 'edges of the interval and random values', '')
comp(['C22'], 'Streams', 'StreamsGen', ' on several ranks and threads')
comp(['C21'], 'MixPair', 'MixGen', ' on several ranks and threads')
comp(['C12'], 'Constraints', 'ConGen', ' on several ranks and threads')
comp(['C13'], 'QP and Constraints', 'QPGen', ' on several ranks and threads')
comp(['C26'], 'LCP', 'LCPGen', ' on several ranks and threads')
NOTE['C19'] = ('TLA+ specification of the abstract particle table (SimEquiv), TLC compares recorded runs of the same SimSched schedule over ranks and threads event by event',
               'The same scenario is run on several numbers of ranks and threads, and twice on the same numbers with thermal noise; TLC checks that all runs go through the same sequence of particle tables while their solves converge, within tolerances that grow with the number of steps. Schedules without concurrent additions. Not exhaustive over inputs.')
ASSUME['C19'] = ['the recorder reports the state the program holds', 'solves that miss their tolerance promise nothing']
NOTE['C29'] = ('TLA+ specification of thermal motion (Noise), TLC normalizes and judges the recorded Brownian velocities of every particle and step',
               'Hundreds of particles of all shapes over many steps on several ranks and threads; TLC divides the recorded velocities by the deviation the specification gives and compares means, variances, fourth moments and correlations (components, steps, neighbours, ranks) with six deviations, and exact clauses (immovable, plane, no number used twice). A bias below the statistical resolution (about 5 percent of a variance) is not seen.')
ASSUME['C29'] = ['the recorder reports what the step reports', 'the drift correction of the scheme is below the statistical resolution for the chosen parameters']
