"""Which specification, driver and programs decide which property."""

FAMILIES = {
    'kernel': dict(name='kernel', driver='kernel.py', gen='kernel_gen', mc='KernelMC', trace='TraceKernel',
                   finish=lambda p: p + [{'op': 'obs_all'}]),
    'flow': dict(name='flow', driver='flow.py', gen='flow_gen', mc='FlowMC', trace='TraceFlow', per_program=15, timeout=300),
    'dyn': dict(name='dyn', driver='dyn.py', gen='dyn_gen', mc='DynMC', trace='TraceDyn', per_program=15, timeout=300),
    'plant': dict(name='plant', driver='plant.py', gen='plant_gen', mc='PlantMC', trace='TracePlant', per_program=15, timeout=300),
    'optim': dict(name='optim', driver='optim.py', gen='optim_gen', mc='OptimMC', trace='TraceOptim', per_program=60, timeout=300),
}


FA = ['flowsheets of at most three models; equations over at most nine unknowns', 'a solution is compared with Cramer\'s rule for linear systems of at most four unknowns, otherwise by residuals']


DA = ['the external integrators CVode and IDA (assimulo) are replaced by stand-ins in harness/standin which integrate accurately', 'trajectories are compared where a polynomial solution is known, otherwise grid, labels and initial values']


def mc(focus, dq, cq, dt, ct, eq={}, et={}):
    return dict(quick=(dict(MC_FOCUS=focus, MC_DEPTH=dq, **eq), cq), thorough=(dict(MC_FOCUS=focus, MC_DEPTH=dt, **et), ct))


ASSUME = ['values are compared within the precision of spec/Rat.tla (rationals up to 20000, otherwise 1e-4 absolute on bounded values)',
          'a division by zero or another result that is no real number is outside the claim']

PA = ['the thermodynamic data bank is replaced by a small rational one: what is decided is how the units use it',
      'steady flowsheets are solved from a starting point near the solution: convergence of the nonlinear solvers from afar is not part of the property']

OA = ['the optimisation algorithms of pygmo are used as they are: convergence is not part of the property',
      'objectives are polynomials of the outputs of small algebraic or dynamic simulations']

PROPS = {
    'C01': dict(jobs=[dict(family='kernel', mc=[mc('units', 2, None, 3, 12000)], random=[('units', (300, 25), (6000, 50))])]),
    'C02': dict(jobs=[dict(family='kernel', mc=[mc('nodes', 3, 800, 3, None)], random=[('expr', (220, 25), (4000, 40)), ('types', (60, 25), (1500, 40))])], assumptions=ASSUME),
    'C03': dict(jobs=[dict(family='kernel', mc=[mc('nodes', 3, 1000, 3, None)], random=[('expr', (260, 25), (5000, 40)), ('share', (60, 25), (1500, 40))])], assumptions=ASSUME),
    'C04': dict(jobs=[dict(family='kernel', mc=[mc('nodes', 3, 800, 3, None)], random=[('share', (260, 25), (5000, 40)), ('expr', (60, 25), (1500, 40))])], assumptions=ASSUME),
    'C05': dict(jobs=[dict(family='kernel', mc=[mc('nodes', 3, 800, 3, None), mc('eqs', 3, 300, 3, None)], random=[('types', (260, 25), (5000, 40))])], assumptions=ASSUME),
    'C06': dict(jobs=[dict(family='kernel', mc=[mc('quantities', 2, 1200, 2, None)], random=[('quantities', (300, 25), (6000, 50))])], assumptions=ASSUME),
    'C19': dict(jobs=[dict(family='kernel', mc=[mc('eqs', 3, 500, 3, None)], random=[('eqs', (260, 25), (5000, 40))])], assumptions=ASSUME),
    'C07': dict(jobs=[dict(family='flow', mc=[mc('models', 2, 900, 3, 15000)], random=[('models', (160, 14), (3000, 25)), ('conn', (30, 14), (600, 25))])]),
    'C08': dict(jobs=[dict(family='flow', mc=[mc('models', 3, 1200, 3, None)], random=[('inc', (160, 12), (3000, 25))])]),
    'C09': dict(jobs=[dict(family='flow', mc=[mc('conn', 3, 700, 4, None)], random=[('conn', (160, 14), (3000, 25)), ('solve', (30, 14), (600, 25))])]),
    'C10': dict(jobs=[dict(family='flow', mc=[mc('conn', 3, 500, 5, 12000), mc('solve', 4, 300, 6, 6000)], random=[('conn', (120, 16), (3000, 25)), ('solve', (70, 14), (1000, 25)), ('inc', (40, 14), (1000, 25))])], assumptions=FA),
    'C11': dict(jobs=[dict(family='flow', mc=[mc('solve', 5, 500, 6, 8000)], random=[('solve', (150, 14), (3000, 25)), ('nonlin', (30, 14), (800, 25))])], assumptions=FA),
    'C12': dict(jobs=[dict(family='flow', mc=[mc('solve', 5, 300, 6, 6000)], random=[('solve', (120, 14), (2500, 25)), ('nonlin', (100, 14), (2500, 25))])], assumptions=FA),
    'C13': dict(jobs=[dict(family='dyn', mc=[mc('ode', 3, 250, 5, 5000), mc('dae', 3, 250, 5, 5000)], random=[('ode', (90, 16), (2000, 30)), ('dae', (90, 16), (2000, 30))])], assumptions=DA),
    'C14': dict(jobs=[dict(family='dyn', mc=[mc('domain', 4, 2500, 5, None)], random=[('domain', (250, 25), (5000, 50)), ('rerun', (30, 16), (600, 30))])], assumptions=DA),
    'C15': dict(jobs=[dict(family='dyn', mc=[mc('conf', 3, 2500, 4, 20000), mc('alg', 3, 150, 4, None)], random=[('conf', (200, 25), (4000, 50)), ('rerun', (40, 16), (1000, 30)), ('alg', (50, 16), (1500, 30)), ('ode', (20, 16), (600, 30))])], assumptions=DA),
    'C16': dict(jobs=[dict(family='dyn', mc=[mc('ode', 3, 150, 5, 4000), mc('dae', 3, 150, 5, 4000), mc('alg', 4, 150, 6, 4000)], random=[('rerun', (90, 22), (2000, 40)), ('alg', (40, 22), (1000, 40))]),
                      dict(family='flow', mc=[mc('solve', 5, 150, 6, 4000)], random=[('solve', (40, 18), (1000, 30))])], assumptions=FA + DA),
    'C17': dict(jobs=[dict(family='optim', mc=[mc('forms', 3, 350, 3, 6000, dict(MC_TRIES=1), dict(MC_TRIES=2)), mc('studies', 3, 150, 4, 4000, dict(MC_TRIES=1), dict(MC_TRIES=2))],
                           random=[('study', (90, 8), (1800, 12))])], assumptions=OA),
    'C18': dict(jobs=[dict(family='plant', mc=[mc('unit', 3, 400, 4, 8000), mc('flow', 3, 150, 5, None), mc('stream', 3, 500, 3, None), mc('mix', 3, 400, 4, 15000)],
                           random=[('units', (100, 20), (3000, 30)), ('plant', (80, 30), (2500, 40)), ('streams', (60, 25), (2000, 40)), ('ports', (30, 20), (1000, 30))])], assumptions=PA),
    'C20': dict(jobs=[dict(family='plant', mc=[mc('ports', 3, 1000, 4, 15000)], random=[('ports', (150, 20), (3000, 30)), ('plant', (30, 30), (800, 40))])], assumptions=PA),
    'C21': dict(jobs=[dict(family='flow', mc=[mc('models', 3, 500, 3, 15000), mc('solve', 4, 150, 6, 4000)], random=[('models', (80, 14), (2000, 25)), ('solve', (60, 14), (1500, 25))]),
                      dict(family='dyn', mc=[mc('ode', 3, 100, 4, None)], random=[('ode', (40, 16), (1000, 30)), ('domain', (60, 25), (1500, 50))])], assumptions=FA + DA),
}
