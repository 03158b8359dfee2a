"""Small configurations of every algorithm the library exports."""

P = 'population_size'
RL = {'repair': '@util.repair:limit'}


def c(name, D=2, attrs=None, modes=None, **params):
    d = dict(alg=name, D=D, params=params)
    if attrs:
        d['attrs'] = attrs
    if modes:
        d['modes'] = modes
    return d


LS1, LS1V, LS2, LS3, LS3V = ['@algorithms.other.mts:' + n for n in ('mts_ls1', 'mts_ls1v1', 'mts_ls2', 'mts_ls3', 'mts_ls3v1')]
MT = dict(num_tests=1, num_searches=1, num_searches_best=1, num_enabled=2)


def hybrid(name, pop):
    # the local searches one at a time; a budget ends the (long) later phases
    v1 = name.endswith('v1')
    return [c(name, 1, attrs={'local_searches': (ls,)}, modes=[dict(iters=1, evals=2 * pop + 3, tag='-ls%d' % k)], population_size=pop, **MT)
            for k, ls in enumerate([LS1V, LS2, LS3V] if v1 else [LS1, LS2, LS3])]


def v(tag, name, D=2, attrs=None, **params):
    """another configuration of an algorithm, for branches the default one does not take; run in one mode only"""
    mode = {k: params.pop(k) for k in ('iters', 'evals', 'run_iters') if k in params}
    mode.setdefault('iters', 1)
    return dict(c(name, D, attrs, [dict(mode, tag='+' + tag)], **params), variant=True)


def f(name):
    return '@algorithms.' + name


BASE = [
    c('ArtificialBeeColonyAlgorithm', population_size=4, limit=1),
    c('BatAlgorithm', population_size=3),
    c('BeesAlgorithm', population_size=4, m=2, e=1, nep=2, nsp=1),
    c('BacterialForagingOptimization', population_size=2, n_chemotactic=1, n_swim=1, n_reproduction=1, n_elimination=1),
    c('CamelAlgorithm', population_size=3),
    c('ClonalSelectionAlgorithm', population_size=3, clone_factor=0.4, bits_per_param=3),
    c('CoralReefsOptimization', 1, population_size=2, k=1, phi=0.7, depredation_prob=0.6),
    c('CuckooSearch', population_size=3),
    c('CatSwarmOptimization', population_size=3, smp=2),
    c('DifferentialEvolution', population_size=4),
    c('DynNpDifferentialEvolution', population_size=4, p_max=2, rp=1),
    c('AgingNpDifferentialEvolution', population_size=4),
    c('MultiStrategyDifferentialEvolution', population_size=5),
    c('DynNpMultiStrategyDifferentialEvolution', 1, population_size=6),
    c('EvolutionStrategy1p1', mu=1, k=1),
    c('EvolutionStrategyMp1', mu=2, k=1),
    c('EvolutionStrategyMpL', mu=2, lam=2, k=1),
    c('EvolutionStrategyML', mu=2, lam=3, k=1),
    c('FireflyAlgorithm', population_size=3),
    c('ForestOptimizationAlgorithm', population_size=3, lifetime=1, area_limit=2, local_seeding_changes=1, global_seeding_changes=1),
    c('FlowerPollinationAlgorithm', population_size=3),
    c('FishSchoolSearch', population_size=3),
    c('BareBonesFireworksAlgorithm', num_sparks=3),
    c('FireworksAlgorithm', population_size=2, num_sparks=3, num_gaussian=1),
    c('EnhancedFireworksAlgorithm', population_size=2, num_sparks=3, num_gaussian=1),
    c('DynamicFireworksAlgorithmGauss', population_size=2, num_sparks=3, num_gaussian=1, a=0.3),
    c('DynamicFireworksAlgorithm', population_size=2, num_sparks=3, num_gaussian=1, a=0.3),
    c('GeneticAlgorithm', population_size=3, tournament_size=2),
    c('GravitationalSearchAlgorithm', population_size=3),
    c('GlowwormSwarmOptimization', population_size=3),
    c('GlowwormSwarmOptimizationV1', population_size=3),
    c('GlowwormSwarmOptimizationV2', population_size=3),
    c('GlowwormSwarmOptimizationV3', population_size=3),
    c('GreyWolfOptimizer', population_size=4),
    c('HarrisHawksOptimization', population_size=3),
    c('HarmonySearch', population_size=3),
    c('HarmonySearchV1', population_size=3),
    c('KrillHerd', population_size=3, max_neighbors=2),
    c('LionOptimizationAlgorithm', population_size=10, num_of_prides=2),
    c('MonarchButterflyOptimization', population_size=4),
    c('MothFlameOptimizer', population_size=3),
    c('MonkeyKingEvolutionV1', population_size=3, c=1),
    c('MonkeyKingEvolutionV2', population_size=3, c=1),
    c('MonkeyKingEvolutionV3', population_size=4, c=1),
    c('MantisSearchAlgorithm', population_size=3),
    c('ParticleSwarmAlgorithm', population_size=3, **RL),
    c('ParticleSwarmOptimization', population_size=3, **RL),
    c('OppositionVelocityClampingParticleSwarmOptimization', population_size=3, **RL),
    c('CenterParticleSwarmOptimization', population_size=3, **RL),
    c('MutatedParticleSwarmOptimization', population_size=3, num_mutations=2, **RL),
    c('MutatedCenterParticleSwarmOptimization', population_size=3, num_mutations=2, **RL),
    c('MutatedCenterUnifiedParticleSwarmOptimization', population_size=3, num_mutations=2, **RL),
    dict(c('ComprehensiveLearningParticleSwarmOptimizer', population_size=3, m=1, **RL), skip=['C17']),
    c('SineCosineAlgorithm', population_size=3),
    c('HybridBatAlgorithm', population_size=4),
    *hybrid('DifferentialEvolutionMTS', 4),
    *hybrid('DifferentialEvolutionMTSv1', 4),
    *hybrid('DynNpDifferentialEvolutionMTS', 4),
    *hybrid('DynNpDifferentialEvolutionMTSv1', 4),
    *hybrid('MultiStrategyDifferentialEvolutionMTS', 4),
    *hybrid('MultiStrategyDifferentialEvolutionMTSv1', 4),
    *hybrid('DynNpMultiStrategyDifferentialEvolutionMTS', 4),
    *hybrid('DynNpMultiStrategyDifferentialEvolutionMTSv1', 4),
    c('AdaptiveBatAlgorithm', population_size=3),
    c('SelfAdaptiveBatAlgorithm', population_size=3),
    c('HybridSelfAdaptiveBatAlgorithm', population_size=4),
    c('ParameterFreeBatAlgorithm', attrs={'population_size': 3}),
    c('ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution', population_size=4, hist_mem_size=2, extern_arc_rate=0.5),
    c('SuccessHistoryAdaptiveDifferentialEvolution', population_size=4, hist_mem_size=2, extern_arc_rate=0.5),
    c('LpsrSuccessHistoryAdaptiveDifferentialEvolution', population_size=4, hist_mem_size=2, extern_arc_rate=0.5),
    c('SelfAdaptiveDifferentialEvolution', population_size=4),
    c('MultiStrategySelfAdaptiveDifferentialEvolution', 1, population_size=6),
    c('AnarchicSocietyOptimization', population_size=5),
    c('HillClimbAlgorithm'),
    *[c('MultipleTrajectorySearch', 1, population_size=2, local_searches=(ls,), modes=[dict(iters=1, tag='-ls%d-i1' % k), dict(iters=2, tag='-ls%d-i2' % k)], **MT) for k, ls in enumerate([LS1, LS2, LS3])],
    c('MultipleTrajectorySearch', 1, population_size=1, modes=[dict(iters=1, tag='-i1')], **MT),
    c('MultipleTrajectorySearch', 2, population_size=1, local_searches=(LS1,), modes=[dict(iters=1, tag='-D2')], **MT),
    c('MultipleTrajectorySearchV1', 1, population_size=2, num_tests=1, num_searches=1, num_enabled=1, modes=[dict(iters=1, tag='-i1'), dict(iters=2, tag='-i2')]),
    c('NelderMeadMethod'),
    c('RandomSearch'),
    c('SimulatedAnnealing'),
    # --- further configurations
    v('tracing', 'CatSwarmOptimization', population_size=2, mixture_ratio=0.6, smp=2),
    v('self', 'CatSwarmOptimization', 1, cdc=1.0, population_size=2, mixture_ratio=0.0, smp=3, spc=True),
    v('smp3', 'CatSwarmOptimization', 1, cdc=1.0, population_size=2, mixture_ratio=0.0, smp=3, spc=False),
    *[v(s, 'DifferentialEvolution', n and 1 or 2, population_size=n or 3, strategy=f('basic.de:cross_' + s))
      for s, n in (('best1', 0), ('rand2', 6), ('best2', 5), ('curr2rand1', 5), ('curr2best1', 4))],
    v('reduce', 'DynNpDifferentialEvolution', 1, population_size=4, p_max=2, rp=1, iters=2, evals=13),
    v('reduce', 'DynNpMultiStrategyDifferentialEvolution', 1, population_size=6, p_max=2, rp=1, evals=11),
    v('linear', 'AgingNpDifferentialEvolution', 1, population_size=4, age=f('basic.de:linear'), max_lifetime=2),
    v('bilinear', 'AgingNpDifferentialEvolution', 1, population_size=4, age=f('basic.de:bilinear'), max_lifetime=2),
    v('short', 'AgingNpDifferentialEvolution', 1, population_size=4, min_lifetime=0, max_lifetime=1, iters=2),
    v('roulette', 'GeneticAlgorithm', population_size=3, selection=f('basic.ga:roulette_selection'), crossover=f('basic.ga:two_point_crossover'), mutation=f('basic.ga:mutation_uros')),
    v('multipoint', 'GeneticAlgorithm', population_size=3, tournament_size=2, crossover=f('basic.ga:multi_point_crossover'), crossover_rate=1, mutation=f('basic.ga:creep_mutation')),
    v('uros', 'GeneticAlgorithm', population_size=3, tournament_size=2, crossover=f('basic.ga:crossover_uros'), mutation=f('basic.ga:mutation_uros')),
    v('mu3lam2', 'EvolutionStrategyML', mu=3, lam=2, k=1),
    v('explore', 'HarrisHawksOptimization', population_size=2, iters=3, evals=4),
    v('king', 'MonkeyKingEvolutionV1', population_size=3, c=1, population_rate=0.4),
    v('king', 'MonkeyKingEvolutionV2', population_size=3, c=1, population_rate=0.4),
    v('normal', 'MantisSearchAlgorithm', 1, population_size=3, normalize_space=True),
    v('normalclip', 'MantisSearchAlgorithm', 1, population_size=3, normalize_space=True, use_reflection=False),
    v('clip', 'MantisSearchAlgorithm', 1, population_size=3, use_reflection=False),
    dict(v('gap', 'ComprehensiveLearningParticleSwarmOptimizer', 1, population_size=2, m=0, **RL), skip=['C17']),
    v('reflect', 'ParticleSwarmAlgorithm', 1, population_size=2),
    v('reflect', 'OppositionVelocityClampingParticleSwarmOptimization', 1, population_size=2),
    v('reduce', 'LpsrSuccessHistoryAdaptiveDifferentialEvolution', 1, population_size=6, hist_mem_size=2, extern_arc_rate=0.5, evals=12),
    v('reduce', 'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution', 1, population_size=6, hist_mem_size=2, extern_arc_rate=0.5, evals=12),
    v('archive', 'SuccessHistoryAdaptiveDifferentialEvolution', 1, population_size=4, hist_mem_size=1, extern_arc_rate=0.25, iters=2),
    v('sequential', 'AnarchicSocietyOptimization', population_size=3, combination=f('other.aso:sequential')),
    v('crossover', 'AnarchicSocietyOptimization', population_size=3, combination=f('other.aso:crossover')),
    v('linear', 'SimulatedAnnealing', cooling_method=f('other.sa:cool_linear'), evals=4, iters=2),
    v('broadcast', 'CoralReefsOptimization', 1, population_size=4, k=1, phi=0.7, broadcast_prob=0.6, asexual_reproduction_prob=0.3, depredation_prob=0.3),
    v('close', 'CoralReefsOptimization', population_size=5, k=1, phi=100.0, broadcast_prob=0.8, asexual_reproduction_prob=0.2, depredation_prob=0.2),
    v('noswarm', 'BacterialForagingOptimization', population_size=2, n_chemotactic=1, n_swim=2, n_reproduction=2, n_elimination=2, swarming=False),
    v('limit', 'ArtificialBeeColonyAlgorithm', 1, population_size=4, limit=0),
    v('small', 'LionOptimizationAlgorithm', 1, population_size=4, num_of_prides=1, nomad_ratio=0.5, female_ratio=0.5, roaming_factor=0.0, mating_factor=1.0, mutation_factor=0.0),
    v('roam', 'LionOptimizationAlgorithm', 1, population_size=4, num_of_prides=1, nomad_ratio=0.5, female_ratio=0.5, roaming_factor=1.0, mating_factor=1.0, mutation_factor=0.0),
    v('males', 'LionOptimizationAlgorithm', 1, population_size=4, num_of_prides=1, nomad_ratio=0.5, female_ratio=0.0, roaming_factor=0.5, mating_factor=0.0, mutation_factor=0.0),
    v('noelite', 'BeesAlgorithm', 1, population_size=3, m=0, e=0, nep=2, nsp=1),
    v('cold', 'SimulatedAnnealing', starting_temperature=1, delta_temperature=1, iters=3),
    v('one', 'ArtificialBeeColonyAlgorithm', 1, population_size=2, limit=1),
    v('strategy', 'HybridBatAlgorithm', 1, population_size=3, strategy=f('basic.de:cross_rand1')),
    v('strategy', 'HybridSelfAdaptiveBatAlgorithm', 1, population_size=4, strategy=f('basic.de:cross_rand1')),
    v('sites', 'BeesAlgorithm', 1, population_size=5, m=3, e=2, nep=2, nsp=2),
    v('temperature', 'CamelAlgorithm', 1, population_size=2, burden_factor=0.9, death_rate=1.0, visibility=1.0),
    v('seeding', 'ForestOptimizationAlgorithm', population_size=3, lifetime=1, area_limit=1, local_seeding_changes=2, global_seeding_changes=2, transfer_rate=0.5, iters=2),
    v('local', 'FlowerPollinationAlgorithm', population_size=3, p=0.0),
    v('noabandon', 'CuckooSearch', population_size=3, pa=1.0),
    v('v1', 'MultipleTrajectorySearchV1', 2, population_size=1, num_tests=1, num_searches=1, num_enabled=1, evals=12),
    v('ls2', 'MultipleTrajectorySearch', 2, population_size=1, local_searches=(LS2,), **MT),
    v('ls3', 'MultipleTrajectorySearch', 2, population_size=1, local_searches=(LS3,), evals=9, **MT),
]
