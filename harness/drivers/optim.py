"""Replays optimisation studies on the real library and records every
evaluation of the objective."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import pygmo as pg
import src.sloth.core.template_units as TU
from src.sloth.core.domain import Domain
from src.sloth.model import Model
from src.sloth.problem import Problem
from src.sloth.simulation import Simulation
from src.sloth.optimization import Optimization, OptimizationProblem

LOG = []        # evaluations of the current run: the library works on copies


def fix(x, e):
    try:
        x = float(x)
        y = int(round(Fraction(x) * e))
        return y if abs(y) <= BIG else BIG
    except Exception:
        return BIG


class GModel(Model):
    def __init__(self, ev):
        super().__init__(ev['m'], 'model ' + ev['m'])
        self.k, self.c = ev['k'], [float(x) for x in ev['c']]
        self.y = self.createVariable('y', TU.dimless, 'y')
        self.z = self.createVariable('z', TU.dimless, 'z')
        for p in (('b', 'a') if ev['swap'] else ('a', 'b')):
            o = self.createParameter(p, TU.dimless, p)
            setattr(self, p, o)
            if ev[p]:
                o.setValue(num(ev[p]))
        self.dom = None
        if self.k == 'ode':
            self.t = self.createVariable('t', TU.dimless, 't')
            self.dom = Domain('dom', TU.dimless, self.t, 'time')
            self.y.distributeOnDomain(self.dom)
            self.z.distributeOnDomain(self.dom)

    def DeclareEquations(self):
        a, b, c = self.a, self.b, self.c
        if self.k == 'alg':
            self.createEquation('e1', 'y', self.y() == c[0] * a() + c[1] * b() + c[2] * a() * b())
            self.createEquation('e2', 'z', self.z() == self.y() - c[3] * b() + c[4])
        else:
            self.createEquation('e1', 'y', self.y.Diff(self.t) == c[0] * a() + c[1] * b())
            self.createEquation('e2', 'z', self.z.Diff(self.t) == c[2] * a() * b())


class Objective(OptimizationProblem):
    """the objective as a user writes it"""

    def __init__(self, ev, refs, **kw):
        super().__init__(len(ev['pars']), name=ev['q'], **kw)
        self.refs, self.obj = refs, ev['obj']

    def DeclareObjectiveFunction(self, x):
        s = self.simulation_instance
        for r, v in zip(self.refs, x):
            s[r].setValue(v)
        s.problem.resolve()
        conf = self.simulation_configuration
        kw = {}
        m = [m for m in s.problem.models.values() if m.dom is not None]
        if m and not conf.get('domain'):
            kw['domain'] = m[0].dom
        s.setConfigurations(definition_dict=conf, **kw)
        s.runSimulation(show_output_msg=False, show_final_residuals=False)
        d = s.getResults('dict')
        if m:
            d = list(d.values())[0]
            d = {k: v[-1] for k, v in d.items()}
        s.reset()
        f = sum(c * float(d[v]) ** p for v, c, p in self.obj)
        LOG.append(([float(v) for v in x], [[str(k), fix(v, 10000)] for k, v in d.items() if str(k)[0] in 'yz'], f, int(s.configurations['number_of_time_steps'])))
        return [f]


class World:
    def __init__(self):
        self.m, self.s, self.q, self.o, self.log = {}, {}, {}, {}, {}

    def par(self, name, how):
        p, m = name.split('_')
        return getattr(self.m[m], p) if how == 'obj' else name

    def bounds(self, c, pars):
        f = [[num(lo), num(hi)] for lo, hi in c['b']]
        if c['form'] == 'dict':
            return {n: tuple(b) for n, b in zip(c['names'], f)}
        if c['form'] == 'flat':
            return list(f[0])
        if c['form'] == 'tuple':
            return tuple([b[k] for b in f] for k in (0, 1))
        if c['form'] == 'list':
            return [[b[k] for b in f] for k in (0, 1)]
        return None

    def conf(self, ms, end, n):
        c = dict(number_of_time_steps=n)
        m = self.m[ms[0]]
        if m.k == 'ode':
            c.update(initial_time=0., end_time=num(end), is_dynamic=True, domain=m.dom, time_variable_name=[m.t.name])
        return c

    def do(self, ev):
        op = ev['op']
        if op == 'model':
            m = self.m[ev['m']] = GModel(ev)
            m()
        elif op == 'value':
            getattr(self.m[ev['m']], ev['p']).setValue(num(ev['v']))
        elif op == 'sim':
            p = Problem('p_' + ev['s'], 'problem')
            ms = [self.m[n] for n in ev['ms']]
            p.addModels(ms)
            if ms[0].k == 'ode':
                p.setTimeVariableName([ms[0].t.name])
            p.resolve()
            if ms[0].k == 'ode':
                n = ms[0].name
                p.setInitialConditions({'t_' + n: 0., 'y_' + n: ms[0].c[4], 'z_' + n: ms[0].c[3]})
            s = self.s[ev['s']] = Simulation(ev['s'])
            s.setProblem(p)
            s.ms = ev['ms']
            if ev['conf']:
                s.setConfigurations(**self.conf(ev['ms'], ev['end'], ev['n']))
        elif op == 'oprob':
            kw = {}
            if ev['bounds'] and ev['bform'] != 'set':
                kw['bounds'] = self.bounds(dict(form=ev['bform'], b=ev['bounds']), ev['pars'])
            if ev['max']:
                kw['is_maximization'] = True
            q = self.q[ev['q']] = Objective(ev, [self.par(p, ev['how']) for p in ev['pars']], **kw)
            if ev['bounds'] and ev['bform'] == 'set':
                q.setBounds(self.bounds(dict(form='tuple', b=ev['bounds']), ev['pars']))
            if ev['ready']:
                q()
        elif op == 'ready':
            self.q[ev['q']]()
        elif op == 'study':
            s = self.s[ev['s']]
            kw = {}
            c = ev['conf']
            if c['form'] == 'dict':
                kw['simulation_configuration'] = self.conf(s.ms, c['end'], c['n'])
            elif c['form'] != 'none':
                f = 'conf-%s.json' % ev['o']
                d = self.conf(s.ms, c['end'], c['n'])
                d.pop('domain', None)
                if c['form'] == 'file':
                    json.dump(d, open(f, 'w'))
                else:
                    w = Simulation('w')
                    w.setConfigurations(**d)
                    w.dumpConfigurations(f)
                kw['simulation_configuration'] = f
            oc = dict(number_of_individuals=ev['ind'], number_of_generations=ev['gen'])
            if ev['oform'] == 'file':
                f = 'opt-%s.json' % ev['o']
                json.dump(oc, open(f, 'w'))
                oc = f
            if ev['cons']['form'] != 'none' and not ev['later']:
                kw['constraints'] = self.bounds(ev['cons'], ev['pars'])
            if ev['max']:
                kw['is_maximization'] = True
            o = Optimization(s, self.q[ev['q']], [self.par(p, ev['how']) for p in ev['pars']], optimizer=ev['alg'], optimization_configuration=oc, **kw)
            self.o[ev['o']] = o
            if ev['oform'] == 'saved':
                # the same options by way of a file
                f = 'saved-%s.json' % ev['o']
                o.saveConfigurations(f)
                o = self.o[ev['o']] = Optimization(s, self.q[ev['q']], [self.par(p, ev['how']) for p in ev['pars']], optimizer=ev['alg'], optimization_configuration=f, **kw)
            if ev['cons']['form'] != 'none' and ev['later']:
                o.setConstraints(self.bounds(ev['cons'], ev['pars']))
        elif op == 'cons':
            self.o[ev['o']].setConstraints(self.bounds(ev['cons'], ev['pars']))
        elif op == 'setq':
            self.o[ev['o']].setOptimizationProblem(self.q[ev['q']])
        elif op == 'run':
            LOG.clear()
            pg.set_global_rng_seed(ev['seed'])
            with limited(ev.get('limit', 60)):
                return self.run(ev)
        elif op == 'result':
            x, f = self.o[ev['o']].getResults()
            return dict(x=[fix(v, 10 ** 8) for v in x], f=self.rank(ev['o'], f[0]) if len(f) == 1 else 0, f4=fix(f[0], 10000))
        elif op == 'olog':
            d = self.o[ev['o']].getOptimizationLog()
            c = 'Best' if 'Best' in d.columns else 'gbest'
            m = d['Mean lbest'].tolist() if 'Mean lbest' in d.columns else []
            return dict(best=[self.rank(ev['o'], v) for v in d[c].tolist()], means=[self.place(ev['o'], v) for v in m], evals=[int(v) for v in d['Fevals']], gens=[int(v) for v in d['Gen']])
        elif op == 'look':
            o = self.s[ev['s']][self.par(ev['par'], ev['how'])]
            return dict(same=o is self.par(ev['par'], 'obj'))
        return {}

    def run(self, ev):
        from matplotlib.figure import Figure
        import matplotlib.pyplot as plt
        shots, keep = [], Figure.savefig

        def shot(f, name, *a, **k):
            shots.append([[[int(x) for x in l.get_xdata()], [float(y) for y in l.get_ydata()]] for x in f.axes for l in x.get_lines()])
        Figure.savefig = shot
        try:
            kw = {} if ev['log'] else dict(optimization_log=False)
            if ev['graph']:
                kw['save_optimization_graph'] = True
            self.o[ev['o']].runOptimization(print_output=ev['show'], report_frequency=1 if ev['freq'] else 0, **kw)
        finally:
            Figure.savefig = keep
            plt.close('all')
        return dict(shots=shots)

    def rank(self, o, f):
        l = sorted({v[2] for v in self.log.get(o, [])})
        return l.index(float(f)) + 1 if float(f) in l else 0

    def place(self, o, f):
        # the ranks a value lies between: the last one not above it, the first one not below it
        l = sorted({v[2] for v in self.log.get(o, [])})
        e = 1e-9 * max([abs(v) for v in l] + [abs(f), 1e-9])
        return [sum(v <= f + e for v in l), 1 + sum(v < f - e for v in l)]

    def steps(self, ev):
        r = dict(ev)
        r.update(ok=True, exc='')
        try:
            with quiet():
                r.update(self.do(ev) or {})
        except Timeout:
            r.update(ok=False, exc='Timeout')
        except Exception as x:
            r.update(ok=False, exc=type(x).__name__)
            if os.environ.get('VP_TB'):
                import traceback
                traceback.print_exc()
        if ev['op'] != 'run':
            return [r]
        o = ev['o']
        self.log[o] = list(LOG)
        out = [dict(ev, ok=True)]
        for x, outs, f, n in self.log[o]:
            out.append(dict(op='eval', o=o, x=[fix(v, 10 ** 8) for v in x], out=outs, f=self.rank(o, f), f4=fix(f, 10000), n=n))
        return out + [dict(op='ran', o=o, ok=r['ok'], exc=r['exc'], graph=ev['graph'],
                           shots=[[[x, [self.rank(o, v) for v in y]] for x, y in c] for c in r.get('shots', [])])]


def main(progs):
    out = []
    for p in progs:
        w = World()
        out.append([r for ev in p for r in w.steps(ev)])
    return out


if __name__ == '__main__':
    run(main)
