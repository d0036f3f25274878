# Per property: the recorder, the configurations it is built in, and what TLC runs.
AVX2 = ['sse3', 'ssse3', 'sse4.1', 'sse4.2', 'avx', 'avx2', 'fma', 'bmi1', 'bmi2', 'lzcnt', 'popcnt']
CONFIGS = {
    'base':  dict(release=False, features=[]),
    'opt':   dict(release=True, features=AVX2),
    'o1':    dict(release=True, features=[]),
    'ssse3': dict(release=False, features=['ssse3']),
    'sse41': dict(release=False, features=['sse4.1']),
    'sse42': dict(release=False, features=['sse4.2', 'popcnt']),
    'avx':   dict(release=False, features=['avx']),
    'avx2':  dict(release=False, features=['avx2']),
}
STD = dict(quick=['base', 'avx', 'opt'], thorough=['base', 'opt', 'avx', 'o1'])
ALL = dict(quick=['base', 'ssse3', 'sse42', 'avx', 'avx2', 'opt'], thorough=['base', 'o1', 'ssse3', 'sse41', 'sse42', 'avx', 'avx2', 'opt'])
PROPS = {
    'C01': dict(bin='c01', configs=STD, scale=dict(quick=1, thorough=12), mc=[('SimdLaws', 'LawsC01.cfg')]),
    'C02': dict(bin='c02', configs=STD, scale=dict(quick=2, thorough=12), mc=[('SimdLaws', 'LawsC02.cfg')]),
    'C03': dict(bin='c03', configs=STD, scale=dict(quick=1, thorough=12), mc=[('SimdLaws', 'LawsC03.cfg')]),
    'C04': dict(bin='c04', configs=STD, scale=dict(quick=1, thorough=10), mc=[('SimdLaws', 'LawsC04.cfg')]),
    'C05': dict(bin='c05', configs=STD, scale=dict(quick=8, thorough=100), mc=[('SimdLaws', 'LawsC05.cfg')]),
    'C07': dict(bin='c07', configs=STD, scale=dict(quick=8, thorough=100), mc=[('SimdLaws', 'LawsC07.cfg')]),
    'C08': dict(bin='c08', configs=STD, scale=dict(quick=8, thorough=80), mc=[('SimdLaws', 'LawsC08.cfg')]),
    'C15': dict(bin='c15', configs=STD, scale=dict(quick=2, thorough=12), mc=[('SimdLaws', 'LawsC15.cfg')]),
    'C06': dict(bin='c06', configs=ALL, scale=dict(quick=8, thorough=60), mc=[('SimdLaws', 'LawsC06.cfg')]),
    'C12': dict(bin='c12', configs=ALL, scale=dict(quick=8, thorough=40), mc=[('SimdLaws', 'LawsC12.cfg')]),
    'C13': dict(bin='c13', configs=STD, scale=dict(quick=2, thorough=12), mc=[('SimdLaws', 'LawsC13i.cfg'), ('SimdLaws', 'LawsC13f.cfg')]),
    'C14': dict(bin='c14', configs=STD, scale=dict(quick=8, thorough=60), mc=[('SimdLaws', 'LawsC14.cfg')]),
    'C09': dict(bin='c09', configs=STD, scale=dict(quick=3, thorough=20), mc=[('SimdMC', 'MC_reg.cfg')],
                gen=[('SimdGen', 'Gen_reg_each.cfg', None), ('SimdGen', 'Gen_reg_sim.cfg', (60, 30))]),
    'C10': dict(bin='c10', configs=STD, scale=dict(quick=3, thorough=20), mc=[('SimdMC', 'MC_mem.cfg')],
                gen=[('SimdGen', 'Gen_mem_each.cfg', None), ('SimdGen', 'Gen_mem_sim.cfg', (60, 30))]),
    'C11': dict(bin='c11', configs=STD, scale=dict(quick=3, thorough=20), mc=[('SimdMC', 'MC_ptr.cfg')],
                gen=[('SimdGen', 'Gen_ptr_each.cfg', None), ('SimdGen', 'Gen_ptr_sim.cfg', (60, 30))]),
    'C16': dict(bin='c16', configs=STD, scale=dict(quick=4, thorough=60), mc=[('SimdLaws', 'LawsC16.cfg')]),
    'C17': dict(bin='c17', configs=STD, scale=dict(quick=2, thorough=12), mc=[('SimdLaws', 'LawsC17.cfg')]),
    'C19': dict(bin='c19', configs=STD, scale=dict(quick=1, thorough=8), mc=[('SimdLaws', 'LawsC19.cfg')], mathref=True),
    'C18': dict(bin='c18', cross=['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c15', 'c17'],
                cross_scale=dict(quick=2, thorough=8), cross_stateful=['c09', 'c10', 'c11'],
                configs=dict(quick=ALL['quick'] + ['o1'], thorough=ALL['thorough']), scale=dict(quick=1, thorough=12), mc=[],
                gen=[('SimdGen', 'Gen_xi_sim.cfg', (80, 60)), ('SimdGen', 'Gen_xf_sim.cfg', (40, 60))]),
}
