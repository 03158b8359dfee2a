"""writes properties.jsonl and MANIFEST.json (one source for both)"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'src/niapy/algorithms/'
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, observe, level_note=None, na=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None),
                      level_note=level_note, na=na))


TECH = 'symbolic execution of the real Python code (regenerated from source each run) with z3 deciding every assertion over all inputs, random draws and objective values of each path; counterexamples replayed on the unmodified code'
NOTE = 'Bounded: solver verdict for all values on every explored path within the stated bounds; reals instead of floats; paths beyond the time limit are reported as unexplored, not claimed. '

P('C01', 'A task never exceeds its budget and stops exactly when it should',
  'However the methods of a task are called, the objective is evaluated at most as often as the evaluation limit allows, and the task reports that it should stop exactly when the evaluation limit, the iteration limit or the cutoff value has been reached (by minimisation: the best value is at most the cutoff; by maximisation: at least). '
  'Once it should stop, asking it to evaluate a point returns infinity, does not call the problem and changes neither the counters nor the best value.',
  ['inputs', 'histories', 'configurations'], 'every sequence of evaluate / next-iteration / stop-query calls, every objective value, every limit and cutoff, both optimisation directions',
  'Tests run a few fixed sequences of evaluations of Sphere; the guarantee quantifies over all call histories, limits and objective values, including equality with the cutoff.',
  ['src/niapy/task.py'], [('eval guard', 'Task.eval'), ('stopping_condition', 'Task.stopping_condition')], ['Task.eval', 'Task.stopping_condition', 'Task.evals', 'Task.iters'])
P('C02', "A task's best value and convergence data are truthful",
  'The best value kept by a task is the best objective value evaluated so far, in the sign of the problem, for minimisation and maximisation alike. '
  'The convergence data by iteration holds the best value at each iteration and the convergence data by evaluation holds consecutive evaluation numbers with the best value after that evaluation, ending at the best value found.',
  ['inputs', 'histories', 'configurations'], 'every history of evaluations and iterations and all objective values, both directions',
  'Tests compare a few runs of one algorithm by minimisation only; gaps between improvements, ties and maximisation are not covered.',
  ['src/niapy/task.py'], [('improvement log', 'Task.eval'), ('expansion of the log', 'Task.convergence_data')], ['Task.x_f', 'Task.convergence_data'])
P('C03', 'A run respects its evaluation, iteration and cutoff limits',
  'A run of any algorithm evaluates the objective at most as often as the evaluation limit says, wherever in a generation that limit falls, and it never evaluates again after the cutoff value has been reached. '
  'When only an iteration limit is set the run comes to an end after exactly that many iterations, and it always returns instead of looping on an exhausted budget.',
  ['inputs', 'configurations', 'histories'], 'every algorithm, every evaluation budget (also below the population size or inside a generation), every cutoff, all objective values and random draws',
  'Tests use budgets of 1000 evaluations with the default population and check only the counters of the task.',
  [A, 'src/niapy/task.py'], [('run loop', 'Algorithm.run'), ('task guard', 'Task.eval')], ['number of calls of the problem', 'Task.iters', 'return of run'])
P('C04', 'Every repair function returns a feasible point and leaves feasible points alone',
  'For any finite bounds with lower not above upper and any finite vector, every built-in repair function returns a vector of the same length inside the bounds; a vector that already is inside the bounds is returned unchanged; coordinates inside the bounds stay as they are when others are repaired. '
  'Each function follows its documented rule for a coordinate outside (clip to the bound, opposite bound, reflection or wrap-around, random point inside), and the feasibility test of the task says yes exactly for the points inside the bounds.',
  ['inputs', 'configurations'], 'all vectors and bounds, every random draw',
  'Tests feed random vectors near the bounds; far-away points, several ranges away, mixed coordinates and degenerate bounds are not settled by samples.',
  ['src/niapy/util/repair.py', 'src/niapy/task.py'], [('limit, limit_inverse, wang, rand, reflect', 'niapy.util.repair'), ('is_feasible', 'Task.is_feasible')], ['return value of the repair functions', 'Task.repair', 'Task.is_feasible'])
P('C05', 'A run returns the best solution it evaluated, with its true value',
  'For every algorithm in the library, both directions of optimisation and every objective function, a run completes without raising and returns a vector of the problem dimension with finite coordinates inside the bounds together with a scalar. '
  'That scalar is the objective value of the returned vector, in the sign of the problem, and is the best of all the objective values evaluated during the run.',
  ['inputs', 'histories', 'configurations'], 'all objective functions (ties and constants included), all random draws, all algorithms, stopping by iterations or evaluations',
  'Tests run each algorithm with a fixed seed on Sphere-like problems, where values are distinct and positive; the best must be kept on every objective and for every stream of random numbers.',
  [A], [('best tracking', 'Algorithm.get_best'), ('run', 'Algorithm.run'), ('run_iteration of each algorithm', A)], ['return value of Algorithm.run'])
P('C06', 'Only feasible candidates are evaluated',
  'Every candidate an algorithm hands to the objective function is a vector of the problem dimension with finite coordinates, each between the lower and the upper bound of the problem. '
  'This holds for every built-in repair function the task may be configured with.',
  ['inputs', 'histories', 'configurations'], 'all objective functions, all random draws, all algorithms, asymmetric bounds, all repair functions',
  'Tests check feasibility of the final solution on symmetric bounds; the intermediate candidates are never observed.',
  [A, 'src/niapy/util/repair.py'], [('task.repair', 'Task.repair'), ('repair before evaluation', 'run_iteration of each algorithm')], ['argument of Problem.evaluate'])
P('C07', 'A run is reproducible from its seed',
  'Two runs of the same algorithm with the same seed, parameters and problem evaluate the same candidates in the same order and return the same solution, whatever happens to any other source of randomness in the process. '
  'This includes the configurations whose task repairs with random numbers.',
  ['inputs', 'histories', 'configurations'], 'all draws of the seeded generator, all values any other randomness source may take, all objective functions',
  'Tests compare two seeded runs with the default repair function; a draw from another source only shows on the paths that reach it.',
  [A, 'src/niapy/util/repair.py'], [('self.rng', 'Algorithm.__init__'), ('rng handed to repair and helpers', A)], ['sequence of evaluated candidates', 'return value of Algorithm.run'])
P('C08', 'The best solution reported to callbacks is correct in every iteration',
  'At every callback before and after an iteration the reported best fitness belongs to the reported best solution and is the best (internal, minimised) value among all candidates evaluated so far. '
  'It therefore never gets worse from one callback to the next.',
  ['inputs', 'histories', 'configurations'], 'all objective functions, random draws and algorithms, every iteration',
  'Tests look at the final best only; a best that is lost and found again, or aliased with a population member that changes, is invisible.',
  [A, 'src/niapy/callbacks.py'], [('best tracking', 'Algorithm.get_best'), ('notification', 'Algorithm.run')], ['Callback.before_iteration', 'Callback.after_iteration'])
P('C09', 'Maximising f is exactly minimising -f',
  'With the same seed and parameters, maximising -f and minimising f evaluate the same candidates in the same order, and return the same solution with the fitness of opposite sign. '
  'No algorithm treats the two directions differently.',
  ['inputs', 'histories', 'configurations'], 'all objective functions and random draws, all algorithms',
  'No test compares the two directions; each algorithm is only tested by minimisation.',
  [A, 'src/niapy/task.py'], [('sign handling', 'Task.eval'), ('sign of the result', 'Algorithm.run')], ['sequence of evaluated candidates', 'return value of Algorithm.run'])
P('C10', 'The callback protocol and exceptions of a run',
  'A run calls every registered callback, in the order of registration, once before the run, then once before and once after every iteration in alternation, and once after the run, which has the iteration counter of the task advance once per iteration. '
  'The population, fitness and best values given after an iteration are those given before the next one, adding or removing callbacks changes nothing else in the run, and an exception raised anywhere in a run either propagates to the caller or is recorded on the algorithm, never silently lost.',
  ['inputs', 'histories', 'fault_sequences', 'configurations'], 'any number of callbacks, iterations and stopping conditions, an exception at any point',
  'Tests only check that one callback is called; order over all stopping points and fault positions is not explored.',
  [A + 'algorithm.py', 'src/niapy/callbacks.py'], [('CallbackList', 'niapy.callbacks.CallbackList'), ('run loop', 'Algorithm.run')], ['sequence of calls of Callback methods', 'Algorithm.exception'])
P('C11', 'Parameters of an algorithm round-trip',
  'Whatever values an algorithm is constructed with or given by set_parameters are the values get_parameters reports, for every parameter it documents, under the same names. '
  'Setting the reported parameters on another instance makes the two report the same parameters and evaluate the same candidates from the same random stream. (Exempt: parameters whose value a class fixes by design, such as the velocity limits of its swarm variants, and operators stored as bound methods.)',
  ['inputs', 'configurations'], 'all numeric parameter values, all algorithms',
  'Tests only check that some parameters of one configuration are present; names that are dropped, swapped or shared hide until used.',
  [A], [('__init__ / set_parameters / get_parameters', A)], ['Algorithm.get_parameters', 'attributes of the algorithm'])
P('C12', 'An algorithm instance can be used again and runs do not leak into each other',
  'Running an instance a second time gives the same candidates and result as a new instance with the same parameters would from the same random stream, whatever the first run did. '
  'A run changes neither the bounds of the problem nor the parameters the instance reports.',
  ['inputs', 'histories', 'configurations'], 'all first and second objective functions and random draws, all algorithms',
  'Tests create a new instance for every run.',
  [A], [('state kept in init_population instead of on the instance', A)], ['sequence of evaluated candidates', 'Algorithm.get_parameters', 'Problem.lower, Problem.upper'])
P('C13', 'Each benchmark computes its documented formula',
  'For every point and every dimension it supports, each benchmark problem returns the value of the formula its documentation states, with the parameters it was built with. '
  'At the documented optimum this gives the documented optimal value.',
  ['inputs', 'configurations'], 'all points of the domain, all dimensions within the bound',
  'Tests evaluate each function at one or two points, most of them the optimum or a constant vector, where index and weight mistakes vanish.',
  ['src/niapy/problems'], [('_evaluate', 'niapy.problems')], ['Problem.evaluate'])
P('C14', 'Evaluating a problem is a pure function with a checked dimension',
  'Evaluating a problem never changes the point, the bounds or the problem: the same point always gives the same finite value inside the domain, as a scalar. '
  'A point of the wrong dimension is rejected with an error, bounds given as scalars or sequences are expanded to the dimension, and the problems built by name have the class, dimension, bounds and parameters asked for. (Trid and Perm derive their default bounds from the dimension.)',
  ['inputs', 'configurations'], 'all points, bounds and dimensions within the bound, all problems',
  'Tests evaluate once per problem with default bounds.',
  ['src/niapy/problems', 'src/niapy/util/factory.py', 'src/niapy/util/array.py'], [('evaluate', 'Problem.evaluate'), ('full_array', 'niapy.util.array.full_array'), ('get_problem', 'niapy.util.factory.get_problem')], ['Problem.evaluate', 'Problem.lower', 'Problem.upper'])
P('C15', 'The shared helpers and individuals keep their contracts',
  'The helper that picks the best of a population returns the smallest fitness with a copy of its solution, and keeps the current best when it is better. '
  'Copies of an individual have equal solution and fitness but share no memory, equality of individuals is equality of solution and fitness, drawing integers with exclusions never returns an excluded one, arrays are expanded to a dimension by repetition or truncation, and the distance helper is the Euclidean distance. '
  'The population initialisers return as many solutions as asked for, inside the bounds, each with its true objective value.',
  ['inputs'], 'all arrays of the bounded sizes, all values',
  'Tests sample a few fixed arrays.',
  [A + 'algorithm.py', 'src/niapy/util/array.py', 'src/niapy/util/distances.py', 'src/niapy/util/random.py'], [('get_best', 'Algorithm.get_best'), ('Individual', 'niapy.algorithms.Individual'), ('integers', 'Algorithm.integers'), ('full_array, objects_to_array', 'niapy.util.array'), ('euclidean', 'niapy.util.distances')], ['return values of the helpers'])
P('C16', 'The runner collects every run of every pair, independently',
  'For every algorithm and every problem asked for, the runner reports under their names exactly as many results as runs were asked for, each being what the algorithm returned for a task of that problem with the dimension and evaluation limit of the runner, in order. '
  'Every run gets its own fresh task, algorithms given as instances or by name are the ones run, and an unsupported export format is an error.',
  ['inputs', 'histories', 'configurations'], 'any lists of algorithms and problems, any number of runs and limits within the bound, any results returned by the algorithms',
  'Tests run one configuration and look only at the presence of the results.',
  ['src/niapy/runner.py', 'src/niapy/util/factory.py'], [('run', 'Runner.run'), ('task_factory', 'Runner.task_factory')], ['Runner.results', 'tasks handed to the algorithms'])
P('C17', 'Population and fitness handed to callbacks agree',
  'At every callback before and after an iteration the population and the fitness have the same number of members, and the fitness reported for a member is the (internal) objective value of that very member. '
  'Members lie inside the bounds of the problem. (Exempt: comprehensive learning PSO, which by design lets particles leave the bounds without evaluating them there; and members that were never evaluated because the evaluation limit was reached.)',
  ['inputs', 'histories', 'configurations'], 'all objective functions, random draws and algorithms that keep one current solution per member',
  'Tests never look at the population during a run.',
  [A], [('selection and replacement', 'run_iteration of each algorithm')], ['Callback.before_iteration', 'Callback.after_iteration'])
P('C18', 'Exports and plots show the collected data',
  'A frame exported by the runner holds exactly the collected results of every algorithm, problem and run, in every supported format, under the name of the runner. '
  'The convergence plot of a task draws exactly its convergence data, by iterations or by evaluations, and nothing of the collected data is changed by exporting or plotting.',
  ['inputs', 'configurations'], 'all collected results and convergence data of the bounded sizes, all formats',
  'Tests check that the files exist and never look at what they hold.',
  ['src/niapy/runner.py', 'src/niapy/task.py'], [('export', 'Runner.run'), ('plot_convergence', 'Task.plot_convergence')], ['exported frames', 'drawn series'])
P('C19', 'The argument parser takes what the command line says', 'Arguments given on the command line select the algorithm, problem and limits they name.',
  ['inputs'], 'all argument lists', 'No test runs the scripts with arguments.',
  ['src/niapy/util/argparser.py'], [('get_argparser', 'niapy.util.argparser')], ['parsed arguments'],
  na='the deciding code is argparse and string handling over the character level; there is no numeric or branching logic of niapy to encode symbolically')


def main():
    sys.path.insert(0, ROOT)
    claimed = [p for p in PROPS if os.path.exists(os.path.join(ROOT, 'vf', 'checks', p['id'].lower() + '.py')) and not p['na']]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('level_note', 'na')}) + '\n')
    man = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='NIAPY_VERIF', enable='no hooks are needed: the checks import /repo/src as it is', source_commits=[]),
               checks=[dict(property=p['id'], quick_cmd='./check %s' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
                            technique=TECH, level='model_checking', level_note=p['level_note'] or NOTE) for p in claimed],
               not_applicable=[dict(property=p['id'], reason=p['na'] or 'the check for this property is not built yet') for p in PROPS if p not in claimed],
               notes='see DESIGN.md')
    json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(claimed), 'claimed')


main()
