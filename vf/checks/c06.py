from ..alg import HARNESS
from ..scen import scenarios_for

FUNCTIONS = ['niapy.algorithms.*: every exported algorithm (run, init_population, run_iteration and all operators), niapy.task.Task, niapy.util.repair']
BOUNDS = ('every exported algorithm in the configurations of vf/algs.py: populations of 1 to 10 members, dimension 1 or 2, asymmetric bounds, one and two iterations, one generation at arbitrary counters (1..1000 iterations, 1..100000 evaluations) with the default repair, one iteration with another repair function (thorough: all of them); '
          'all objective functions (an uninterpreted function of the candidate), all random draws; paths are explored in a seeded order until the time limit of the scenario (6 s quick, 60 s thorough), '
          'scenarios_exhausted counts those whose every path was decided')
OUTSIDE = 'larger populations, dimensions and more iterations; paths not reached within the time limit; NaN or infinite objective values; rounding and signed zeros, except on replay'


def scenarios(tier):
    return scenarios_for('C06', tier)


harness = HARNESS['C06']
