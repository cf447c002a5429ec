"""Replays programs over the unit operation library (property packages,
streams, units, ports, unit operation objects, flowsheets) on the real
library. The thermodynamic data bank is replaced by small rational data."""
import os, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *

# name -> molar mass, density and heat capacity at the lowest level of T and P
# (one name begins as another one)
BANK = {'w': (125., 7., 3.), 'wa': (500., 2., 1.), 'to': (250., 3., 2.), 'he': (1000., 5., 4.)}


def level(x, cap):
    return min(cap, int(x // 100))


class Chemical:
    def __init__(self, ID, T=298.15, P=101325, autocalc=True):
        self.ID = self.name = ID
        self.MW = BANK[ID][0]
        self.T, self.P = T, P
        self._fill()

    def _fill(self):
        t, p = level(self.T, 9), level(self.P, 9)
        self.rho = BANK[self.ID][1] + t + p
        self.Cp = BANK[self.ID][2] + t + 2 * p
        self.H = self.Hm = 10. * t

    def calculate(self, T=None, P=None):
        if T:
            self.T = T
        if P:
            self.P = P
        self._fill()


class Mixture:
    def __init__(self, IDs=None, zs=None, ws=None, Vfls=None, Vfgs=None, T=None, P=None, **kw):
        if sum(x is not None for x in (zs, ws)) != 1:
            raise ValueError('specify only one of the compositions')
        self.IDs, self.T, self.P = IDs, T, P
        mw = [BANK[i][0] for i in IDs]
        if zs is not None:
            if len(zs) != len(IDs):
                raise ValueError('length of the composition')
            self.zs = [z / sum(zs) for z in zs]
            q = [z * m for z, m in zip(self.zs, mw)]
            self.ws = [x / sum(q) for x in q]
        else:
            if len(ws) != len(IDs):
                raise ValueError('length of the composition')
            self.ws = [w / sum(ws) for w in ws]
            q = [w / m for w, m in zip(self.ws, mw)]
            self.zs = [x / sum(q) for x in q]


_t = types.ModuleType('thermo')
_t.__path__ = []
_c, _m = types.ModuleType('thermo.chemical'), types.ModuleType('thermo.mixture')
_c.Chemical = _t.Chemical = Chemical
_m.Mixture = _t.Mixture = Mixture
_t.chemical, _t.mixture = _c, _m
sys.modules.update({'thermo': _t, 'thermo.chemical': _c, 'thermo.mixture': _m})

import src.sloth.core.template_units as TU
from src.sloth.core.equation_operators import *
from src.sloth.core.property_package import PropertyPackage
from src.sloth.model import Model
from src.sloth.problem import Problem
from src.sloth.simulation import Simulation
from src.sloth import unit_op_library as LIB
from src.sloth.unit_op import UnitOp

BASES = ['m', 'kg', 's', 'A', 'K', 'mol', 'cd']


def dims_of(u):
    d = u.dimension
    if any(k not in BASES for k in d):
        return {b: [9, 0] for b in BASES}
    return {b: obsr(d.get(b, 0)) for b in BASES}


class Bench(Model):
    """a model of the user which relies on the totals over its inlets"""

    def DeclareVariables(self):
        self.y = self.createVariable('y', TU.Pa, 'y')

    def DeclareEquations(self):
        self.createEquation('bench', 'bench', self.y() - 2. * self.P_in())


class Drum(Model):
    """a model of the user with variables named as the quantities of streams"""

    def DeclareVariables(self):
        self.T = self.createVariable('T', TU.K, 'T')
        self.P = self.createVariable('P', TU.Pa, 'P')

    def DeclareEquations(self):
        self.createEquation('drum_T', 'drum', self.T() - 2. * self.T_in())
        self.createEquation('drum_P', 'drum', self.P() == 3. * self.P_in())


USER = {'Bench': Bench, 'Drum': Drum}


class World:
    def __init__(self):
        self.k, self.x, self.u, self.p, self.sim, self.fed = {}, {}, {}, {}, {}, set()

    def name(self, obj):
        for n, o in self.x.items():
            if o is obj:
                return n
        return '?'

    # ---- what can be seen
    def ports(self, o):
        f = lambda d: [[str(k), [self.name(s) for s in v]] for k, v in d.items()]
        r = dict(inp=f(o.ports['inlets']), outp=f(o.ports['outlets']), inl=['-'], outl=['-'])
        for a, b in (('inl', '_inlets'), ('outl', '_outlets')):
            v = getattr(o, b, None)
            if isinstance(v, list):
                r[a] = [self.name(s) for s in v]
        return r

    def dump(self):
        insts = {}
        for n, m in self.x.items():
            r = self.ports(m)
            own = [p for p in m.parameters.values() if str(p.name).endswith('_' + n)]
            r['pk'] = self.package(m.property_package) if m.property_package is not None else []
            r['pars'] = {str(p.name)[:-len(n) - 1]: [1 if p.is_specified else 0] + obs(p.value) for p in own}
            insts[n] = r
        pks = {n: self.package(k) for n, k in self.k.items()}
        return dict(insts=insts, uops={n: self.ports(u) for n, u in self.u.items()}, pks=pks)

    def package(self, k):
        zs, ws = (list(l) if l is not None else [] for l in (k.zs, k.ws))
        names = list(k.phase_names)
        mix = getattr(k, 'mixture', None)
        at = [obs(mix.T), obs(mix.P)] if mix is not None else []
        return [[[str(n), obs(k[n].rho), obs(k[n].Cp), obs(k[n].MW / 1000.), obs(zs[j]) if len(zs) == len(names) else [],
                  obs(ws[j]) if len(ws) == len(names) and zs else []] for j, n in enumerate(names)] + \
            [['?'] + [[0, 0, BIG]] * 3 + [[], []] for n in k.phases if n not in names], at]

    # ---- operations
    def term(self, s, a):
        """the expression of a source: the parameter of a stream or the output of a unit"""
        o = self.x[s]
        return getattr(o, a + '_out')() if hasattr(o, a + '_out') else getattr(o, a)()

    def do(self, ev):
        op = ev['op']
        if op == 'pkg':
            self.k[ev['k']] = PropertyPackage(phases=len(ev['names']), phase_names=list(ev['names'])) if ev['names'] != ['wa'] or not ev['dflt'] else \
                PropertyPackage(phase_names=['wa'])
        elif op == 'pkadd':
            a, b = self.k[ev['k']], self.k[ev['k2']]
            r = a.addPropertyPackage(b) if ev['how'] == 'method' else a + b
            return dict(same=r is a)
        elif op == 'calc':
            kw = {q: num(ev[q]) for q in ('T', 'P') if ev[q]}
            self.k[ev['k']].calculate(**kw)
        elif op == 'mix':
            kw = {q: num(ev[q]) for q in ('T', 'P') if ev[q]}
            if ev['by']:
                kw[ev['by']] = [num(f) for f in ev['f']]
            self.k[ev['k']].resolve_mixture(**kw)
        elif op == 'pset':
            getattr(self.k[ev['k']], 'set_' + ev['a'])(float(num(ev['v'])))
        elif op == 'mk':
            cls = USER[ev['cls']] if ev['cls'] in USER else getattr(LIB, ev['cls'])
            o = cls(ev['x'], 'a ' + ev['cls'], property_package=self.k[ev['k']] if ev['k'] else None)
            self.x[ev['x']] = o
            if ev['show']:
                names = {n[:-len(ev['x']) - 1]: v for n, v in list(o.variables.items()) + list(o.parameters.items())}
                return dict(decl=[[n, dims_of(v.units)] for n, v in names.items()],
                            exp=[sorted(v.name[:-len(ev['x']) - 1] for v in o.exposed_vars[d]) for d in ('input', 'output')])
        elif op == 'set':
            getattr(self.x[ev['x']], ev['a']).setValue(num(ev['v']))
        elif op == 'call':
            self.x[ev['x']]()
        elif op == 'mkuop':
            self.u[ev['u']] = UnitOp(model=self.x[ev['m']])
        elif op in ('inl', 'outl'):
            o = self.x.get(ev['x']) or self.u[ev['x']]
            l = [self.x[s] for s in ev['ss']]
            if ev['single'] and len(l) == 1:
                l = l[0]
            f = o._setInlets if op == 'inl' else o._setOutlets
            if not ev['dport']:
                f(l, ev['port'])
            else:
                f(l)
        elif op == 'ures':
            self.u[ev['u']].resolve()
        elif op == 'eqs':
            m = self.x[ev['x']]
            vals = {k + '_' + ev['x']: num(v) for k, v in ev['vals'].items()}
            res, refs, n = [], set(), 0
            for e in m.equations.values():
                if e.equation_expression.equation_type.get('is_differential') and str(e.type) == 'differential':
                    n += 1
                    refs |= {str(k) for k in e.objects_declared}
                    continue
                mp = {str(k): q.value for k, q in e.equation_expression.symbolic_map.items()}
                mp.update({k: v for k, v in vals.items() if k in mp})
                r = abs(float(e.eval(mp)))
                res.append(0 if r < 1e-8 else 1 if r == r else 2)
                refs |= {str(k) for k in e.objects_declared}
            return dict(zero=res, ndiff=n, refs=sorted(refs))
        elif op == 'prob':
            p = self.p[ev['p']] = Problem(ev['p'], 'plant')
            p.addModels([self.x[n] for n in ev['ms']])
        elif op == 'feed':
            self.feed(ev)
        elif op == 'psolve':
            return self.solve(ev)
        elif op == 'tsolve':
            return self.tsolve(ev)
        return {}

    def feed(self, ev):
        p, u, v, ss = self.p[ev['p']], self.x[ev['u']], ev['v'], ev['ss']
        a = ev['a']
        into = getattr(u, v)
        if ev['how'] == 'var':
            p.createConnection(self.x[ss[0]], u, getattr(self.x[ss[0]], a + '_out'), into)
            return
        t = [self.term(s, a) for s in ss]
        if ev['how'] == 'num':
            e = num(ev['c']) * t[0]
        elif ev['how'] == 'min':
            e = Min(*t) if len(t) > 1 else t[0]
        elif ev['how'] == 'sum':
            e = t[0]
            for y in t[1:]:
                e = e + y
        else:
            w = 'mdot' if a[:2] == 'w_' else 'ndot'
            e = self.term(ss[0], w) * t[0]
            for s, y in zip(ss[1:], t[1:]):
                e = e + self.term(s, w) * y
            p.createConnection('', u, e, getattr(u, w + '_in')() * into())
            return
        p.createConnection('', u, e, into())

    def solve(self, ev):
        p = self.p[ev['p']]
        o = dict(sol=[])
        with limited(ev.get('limit', 30)):
            p.resolve()
            s = Simulation('s_' + ev['p'])
            s.setProblem(p)
            kw = {}
            if ev['guess']:
                kw['initial_guess'] = {k: num(v) for k, v in ev['guess'].items()}
            if ev['solver']:
                kw['nonlinear_solver'] = ev['solver']
            s.setConfigurations(**kw)
            s.runSimulation(show_output_msg=False, show_final_residuals=False)
            o['sol'] = [[str(k), obs(v, 1e-7)] for k, v in s.getResults('dict').items()]
        return o

    def tsolve(self, ev):
        p = self.p[ev['p']]
        u = self.x[ev['u']]
        with limited(ev.get('limit', 30)):
            for v in u.variables.values():
                if v is not u.t and v.name not in u.time_domain.dependent_objs:
                    v.distributeOnDomain(u.time_domain)
            p.time_variable_name = [u.t.name]
            p.resolve()
            p.setInitialConditions({**{k + '_' + ev['u']: num(v) for k, v in ev['ic'].items()}, **{k + '_' + ev['u'] + '_d': num(v) for k, v in ev['sl'].items()}})
            s = Simulation('s_' + ev['p'])
            s.setProblem(p)
            s.setConfigurations(initial_time=0., end_time=num(ev['end']), is_dynamic=True, domain=u.time_domain, number_of_time_steps=ev['n'],
                                time_variable_name=[u.t.name])
            s.runSimulation(show_output_msg=False, show_final_residuals=False)
            d = s.getResults('dict')
            d = d.get('t_' + ev['u'], d)
            return dict(rows=[[str(c), [obs(x, 1e-6)[2] for x in d[c]]] for c in d], t=[obsr(x) for x in d['t_' + ev['u']]])

    def step(self, ev):
        r = dict(ev)
        o = dict(ok=True, exc='')
        try:
            with quiet():
                o.update(self.do(ev) or {})
        except Timeout:
            o.update(ok=False, exc='Timeout')
        except Exception as x:
            o.update(ok=False, exc=type(x).__name__)
            if os.environ.get('VP_TB'):
                import traceback
                traceback.print_exc()
        o.update(self.dump())
        r['o'] = o
        return r


def main(progs):
    out = []
    for p in progs:
        w = World()
        out.append([w.step(ev) for ev in p])
    return out


if __name__ == '__main__':
    run(main)
