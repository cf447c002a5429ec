"""Replays flowsheet programs (models, connections, incorporation, problems,
algebraic simulations, reports) on the real library."""
import os, sys, re, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import sympy as sp
import src.sloth.core.template_units as TU
from src.sloth.core.domain import Domain
from src.sloth.core.equation_operators import *
from src.sloth.core import equation_operators as EO
from src.sloth.core.variable import Variable
from src.sloth.core.parameter import Parameter
from src.sloth.core.constant import Constant
from src.sloth.model import Model
from src.sloth.problem import Problem
from src.sloth.simulation import Simulation
from src.sloth.analysis import Analysis
import src.sloth.solvers as solvers

BASE = ['m', 'kg', 's', 'A', 'K', 'mol', 'cd']
K = 3
STARTED = [False]


def _wrap(cls):
    orig = cls.__dict__['solve']

    def solve(self, *a, **k):
        STARTED[0] = True
        return orig(self, *a, **k)
    cls.solve = solve


for _c in list(vars(solvers).values()):
    if isinstance(_c, type) and _c.__module__ == solvers.__name__ and callable(_c.__dict__.get('solve')):
        _wrap(_c)


def dims_of(u):
    d = u.dimension
    r = {b: obsr(d.get(b, 0)) for b in BASE}
    if any(k not in BASE for k in d):
        r = {b: [9, 0] for b in BASE}
    return r


def str_dims(s):
    r = {b: [0, 1] for b in BASE}
    for w in str(s).split():
        try:
            b, e = w.split('^')
            r[b] = obsr(float(e))
        except Exception:
            return {b: [9, 0] for b in BASE}
    return r


def solobs(x):
    """a reported solution: nearest small rational within 1e-5, and fixed point"""
    o = obs(x, 1e-5)
    try:
        v = complex(x)
        if abs(v.imag) > 1e-9:
            return [0, 0, BIG]
        v = v.real
        if math.isnan(v) or math.isinf(v):
            return [0, 0, BIG]
        f = Fraction(v).limit_denominator(60)
        if abs(f.numerator) <= CAP and abs(float(f) - v) <= 1e-5 * max(1.0, abs(v)):
            return [f.numerator, f.denominator, o[2]]
        return [0, 0, o[2]]
    except Exception:
        return [0, 0, BIG]


def leaves(t):
    if t[0] in 'qd' and len(t[0]) == 1:
        return [t]
    return [x for a in t[1:] if isinstance(a, list) and a and isinstance(a[0], str) for x in leaves(a)]


class GModel(Model):
    """the user's model: its declarations are data"""

    def __init__(self, W, ev):
        self.W, self.ev = W, ev
        self.decl = []
        self.doms = {}
        super().__init__(ev['m'], 'model ' + ev['m'])
        if ev['style'] == 'init':
            for d in ev['objs']:
                self.declare(d)

    def __deepcopy__(self, memo):
        return self

    def declare(self, d):
        unit = getattr(TU, d['unit'])
        v = num(d['val'])
        if d['kind'] == 'Variable':
            kw = dict(is_exposed=True, type=d['exp']) if d['exp'] else {}
            o = self.createVariable(d['base'], unit, d['desc'], value=v, **kw)
        elif d['kind'] == 'Parameter':
            o = self.createParameter(d['base'], unit, d['desc'], value=v)
        else:
            o = self.createConstant(d['base'], unit, d['desc'], value=v)
        setattr(self, d['base'], o)
        if d['set']:
            o.setValue(num(d['set']))

    def kinds(self, k):
        if self.ev['style'] == 'declare':
            for d in self.ev['objs']:
                if d['kind'] == k:
                    self.declare(d)

    def DeclareVariables(self):
        self.kinds('Variable')

    def DeclareParameters(self):
        self.kinds('Parameter')

    def DeclareConstants(self):
        self.kinds('Constant')

    def DeclareEquations(self):
        self.decl = []
        for d in self.ev['eqs']:
            for t in [d['l']] + ([d['r']] if d['two'] else []):
                for x in leaves(t):
                    if x[0] == 'd':
                        v, tt = self.W.obj(x[1], x[2]), self.W.obj(x[1], x[3])
                        if getattr(v, 'domain', None) is None:
                            if x[3] not in self.doms:
                                self.doms[x[3]] = Domain('dom', tt.units, tt)
                            v.distributeOnDomain(self.doms[x[3]])
            try:
                e = self.W.tree(d['l'])
                if d['two']:
                    e = (e == self.W.tree(d['r']))
                setattr(self, d['base'], self.createEquation(d['base'], d['desc'], e))
                self.decl.append(dict(ok=True, exc='', named=True))
            except Exception as x:
                foreign = [y[2] for t in [d['l']] + ([d['r']] if d['two'] else []) for y in leaves(t) if y[1] != self.name]
                try:
                    msg = str(x)
                except Exception:
                    msg = ''
                self.decl.append(dict(ok=False, exc=type(x).__name__, named=bool(msg) and all(f in msg for f in foreign)))


class World:
    def __init__(self):
        self.m, self.p, self.sim = {}, {}, {}
        self.pts, self.base = {}, {}
        self.given = []

    def obj(self, m, n):
        mm = self.m[m]
        for d in (mm.variables, mm.parameters, mm.constants):
            if n in d:
                return d[n]
        raise KeyError(n)

    def tree(self, t):
        k = t[0]
        if k == 'q':
            return self.obj(t[1], t[2])()
        if k == 'd':
            return self.obj(t[1], t[2]).Diff(self.obj(t[1], t[3]))
        if k == 'num':
            return num(t[1])
        if k == 'neg':
            return -self.tree(t[1])
        if k == 'pow':
            return self.tree(t[1]) ** num(t[2], 'i')
        if k == 'fun':
            return getattr(EO, t[1])(self.tree(t[2]))
        a, b = self.tree(t[1]), self.tree(t[2])
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b,
                'min': lambda: Min(a, b), 'max': lambda: Max(a, b)}[k]()

    # ---- values at the samples
    def evaluate(self, expr, k):
        try:
            if isinstance(expr, (int, float)):
                return expr
            if expr.atoms(sp.Derivative):
                return None
            m = {}
            for s in expr.free_symbols:
                if s.name not in self.pts:
                    return None
                m[s] = sp.Rational(*self.pts[s.name][k])
            v = expr.xreplace(m)
            return complex(v) if v.is_Number else complex(v.doit().evalf(15))
        except Exception:
            return None

    def vals(self, expr):
        return [obs(self.evaluate(expr, k)) for k in range(K)]

    def current(self, e, side):
        """an equation evaluated with the current values"""
        try:
            if e.equation_expression.equation_type.get('is_differential') is True:
                return obs(None)
            x = e.eval(side=side)
            if side is None and obs(x) != obs(e.getResidual()):
                return [0, 0, BIG]
            return obs(x if isinstance(x, (int, float)) else complex(x))
        except Exception:
            return obs(None)

    # ---- dumps
    def where(self, n, o):
        for mn, mm in self.m.items():
            for d in (mm.variables, mm.parameters, mm.constants):
                if d.get(n) is o:
                    return mn
        return '?'

    def cls(self, e):
        t = e.equation_expression.equation_type
        on = [k for k in ('is_linear', 'is_nonlinear', 'is_differential') if t.get(k) is True]
        return on[0][3:] if len(on) == 1 else '+'.join(on)

    def dump_model(self, mm):
        objs = []
        for d, kind, cls in ((mm.variables, 'Variable', Variable), (mm.parameters, 'Parameter', Parameter), (mm.constants, 'Constant', Constant)):
            for n, o in d.items():
                b = self.base.get(n)
                objs.append(dict(name=n if o.name == n else n + '!=' + str(o.name), kind=kind if isinstance(o, cls) else type(o).__name__,
                                 dims=dims_of(o.units), val=obs(o.value), spec=o.is_specified is True,
                                 attr=b is None or mm.__dict__.get(b) is o, owner=str(o.owner_model_name), desc=str(o.description)))
        eqs = []
        for n, e in mm.equations.items():
            b = self.base.get(n)
            try:
                ex = e.equation_expression
                vals, rvals = self.vals(ex.symbolic_object), self.vals(ex.repr_symbolic)
                refs = [[str(k), self.where(str(k), o)] for k, o in sorted(e.objects_declared.items(), key=lambda kv: str(kv[0]))]
                for k, o in ex.symbolic_map.items():
                    if e.objects_declared.get(k) is not o:
                        refs.append([str(k), '?'])
                el = e.elementary_equation_expression
                sides = [self.vals(x.symbolic_object) for x in el] if el else []
                for x in el or []:
                    for k, o in x.symbolic_map.items():
                        if e.objects_declared.get(k) is not o:
                            refs.append([str(k), '?'])
                eqs.append(dict(name=n if e.name == n else n + '!=' + str(e.name), cls=self.cls(e), vals=vals, rvals=rvals, refs=refs,
                                sides=sides, cur=[self.current(e, s) for s in [None] + (['lhs', 'rhs'] if el else [])],
                                form=str(e.equation_form), attr=b is None or mm.__dict__.get(b) is e, desc=str(e.description)))
            except Exception as x:
                eqs.append(dict(name=n, cls='?', vals=[[0, 0, BIG]] * K, rvals=[[0, 0, BIG]] * K, refs=[], sides=[], cur=[], form='?', attr=False, desc='?'))
        exp = {}
        for d in ('input', 'output'):
            exp[d] = [(v.name if mm.variables.get(v.name) is v else '!' + v.name) for v in mm.exposed_vars[d]]
        return dict(objs=objs, eqs=eqs, exp=exp)

    def dump_prob(self, p):
        eb = p.equation_block
        return dict(names=[e.name for e in eb.equations], vals=[self.vals(x) for x in eb._equations_list],
                    classes=[self.cls(e) for e in eb.equations], unknowns=[str(x) for x in eb._var_list],
                    params=[str(x) for x in eb.parameter_dict], type=p._getProblemType() or 'none')

    def dumps(self, ev):
        o = dict(models={n: self.dump_model(m) for n, m in self.m.items()}, probs={})
        if ev['op'] in ('resolve', 'run', 'report'):
            for n, p in self.p.items():
                if p.equation_block is not None:
                    o['probs'][n] = self.dump_prob(p)
        return o

    # ---- operations
    def do(self, ev):
        op = ev['op']
        if op == 'env':
            self.pts, self.base = ev['pts'], ev['bases']
        elif op == 'model':
            self.m[ev['m']] = GModel(self, ev)
        elif op == 'exec':
            mm = self.m[ev['m']]
            mm()
            return dict(decl=mm.decl)
        elif op == 'edit':
            self.m[ev['m']].ev = dict(self.m[ev['m']].ev, eqs=ev['eqs'])
        elif op == 'setv':
            self.obj(ev['m'], ev['n']).setValue(num(ev['num']))
        elif op == 'inc':
            self.m[ev['into']].incorporateFromExternalModel(self.m[ev['from']], incorporate_variables=ev['v'], incorporate_parameters=ev['p'],
                                                            incorporate_constants=ev['c'], incorporate_equations=ev['e'], rewrite_name=ev['rw'])
        elif op == 'conn':
            p = self.p[ev['p']]
            g = lambda l: [self.obj(*x) for x in l]
            outs, ins = g(ev['outs']), g(ev['ins'])
            if ev['single']:
                outs, ins = (outs[0] if len(outs) == 1 else outs), (ins[0] if len(ins) == 1 else ins)
            before = set(self.m[ev['m2']].equations)
            kw = dict(expr=self.tree(ev['expr'])) if ev['expr'] else {}
            p.createConnection(self.m[ev['m1']], self.m[ev['m2']], outs, ins, **kw)
            new = [e for n, e in self.m[ev['m2']].equations.items() if n not in before]
            ends = ['']
            if len(new) == 1 and hasattr(new[0], 'output_var_name') and hasattr(new[0], 'input_var_name'):
                ends = [str(new[0].output_var_name).split(','), str(new[0].input_var_name).split(',')]
            return dict(ends=ends)
        elif op == 'inconn':
            p = self.p[ev['p']]
            m1 = self.m[ev['m1']] if ev['src'] == 'model' else ev['m1']
            p.createConnection(m1, self.m[ev['m2']], self.tree(ev['l']), self.tree(ev['r']))
        elif op == 'prob':
            p = self.p[ev['p']] = Problem(ev['p'], 'problem ' + ev['p'])
            ms = [self.m[x] for x in ev['models']]
            if ev['how'] == 'list':
                p.addModels(ms)
            else:
                for x in ms:
                    p.addModels(x)
        elif op == 'resolve':
            self.p[ev['p']].resolve()
        return {}

    def run(self, ev):
        p = self.p[ev['p']]
        s = self.sim.get(ev['sim'])
        if s is None:
            s = self.sim[ev['sim']] = Simulation(ev['sim'])
        o = dict(ok=False, started=False, dof=False, nums=[0, 0, 0, 0], verdict='', sol=[], views=True, table=True, tab=[], res=[], earlier=True, status=True,
                 timeout=False, exc='')
        STARTED[0] = False
        try:
            with limited(ev.get('limit', 20)):
                s.setProblem(p)
                kw = dict(compile_equations=ev['compile'], linear_solver=ev['la'], nonlinear_solver=ev['nla'])
                if ev['guess']:
                    kw['initial_guess'] = {n: num(v) for n, v in ev['guess']}
                if ev['gs']:
                    kw['initial_guess_solver'] = ev['gs']
                s.setConfigurations(**kw)
                with quiet() as out:
                    s.runSimulation(show_output_msg=ev['show'], show_final_residuals=ev['show'])
                shown = out.getvalue()
                d = s.getResults('dict')
                l = s.getResults('list')
            o['ok'] = True
            o['sol'] = [[str(k), solobs(v)] for k, v in d.items()]
            try:
                # the list is in the order of the output, which the table is in as well
                o['views'] = [(str(k), float(v)) for k, v in zip(s.output, l)] == [(str(k), float(d[str(k)])) for k in s.output] and len(l) == len(d)
            except Exception:
                o['views'] = False
            o['status'] = s.getStatus() == 0
            if ev['show']:
                try:
                    o['res'] = [[r[0], solobs(float(r[1]))] for r in table_rows(shown) if r != ['Equation', 'Residual']]
                except Exception:
                    o['res'] = [['?', solobs(1.)]]
            try:
                with quiet() as out:
                    s.showResults()
                rows = table_rows(out.getvalue())
                o['tab'] = [[r[0], str_dims(r[1]), solobs(float(r[2]))] for r in rows[1:]]
                o['table'] = rows[0][:3] == ['Variable', 'Unit', 'Value']
            except Exception:
                o['table'] = False
            o['earlier'] = all(a == b for a, b in self.given)
            self.given.append((d, copy.deepcopy(d)))
        except Timeout:
            o['timeout'] = True
        except Exception as x:
            o['exc'] = type(x).__name__
            m = re.search(r'The system is (OVER|UNDER)-specified \(Nb. Degrees of Freedom = (-?\d+)\)\s*Number of variables:(\d+).*?'
                          r'Number of unspecified params:(\d+).*?Number of equations:(\d+)', str(x), re.S)
            if m:
                o['dof'] = True
                o['verdict'] = m.group(1)
                o['nums'] = [int(m.group(k)) for k in (2, 3, 4, 5)]
            elif 'specified' in str(x) and 'Degrees of Freedom' in str(x):
                o['dof'] = True
        o['started'] = STARTED[0]
        return o

    def report(self, ev):
        w = ev['what']
        if w == 'model':
            with quiet() as out:
                if ev['via'] == 'sim':
                    Simulation('r').report(self.m[ev['m']])
                else:
                    self.m[ev['m']]._infoModelReport_()
            return dict(rep=model_table(out.getvalue()))
        if w == 'problem':
            with quiet() as out:
                if ev['via'] == 'sim':
                    Simulation('r').report(self.p[ev['p']])
                else:
                    self.p[ev['p']]._infoProblemReport_()
            txt = out.getvalue()
            title = re.match(r'Problem: (.*) \((.*)\)', txt)
            parts = re.split(r'\nModel: (.*)\n', txt)
            return dict(title=title.group(1) if title else '?', pmodels=[dict(name=parts[k], rep=model_table(parts[k + 1])) for k in range(1, len(parts), 2)])
        if w == 'exposed':
            i, o = self.m[ev['m']]._infoInputOutputVariables(False)
            return dict(inputs=list(i), outputs=list(o))
        if w == 'dof':
            with quiet() as out:
                r = self.m[ev['m']]._infoDegreesOfFreedom_()
            rows = table_rows(out.getvalue())
            k = [i for i, x in enumerate(rows) if x and x[0] == 'Nb. Equations'][0]
            return dict(counts=[int(x) for x in rows[k + 1][:3]], ret=int(r[0]))


def table_rows(txt):
    return [[c.strip() for c in line.strip().strip('|').split('|')] for line in txt.splitlines() if line.strip().startswith('|')]


def cells(s):
    return [x.strip() for x in s.split(',') if x.strip()]


def model_table(txt):
    out = []
    rows = table_rows(txt)
    for r in rows[1:]:
        if len(r) != 7:
            raise ValueError('row of %d cells' % len(r))
        p, c = cells(r[4]), cells(r[5])
        out.append(dict(name=r[0], desc=r[1], repr=re.findall(r'[A-Za-z_]\w*', r[2]), vars=cells(r[3]),
                        params=[x.replace('(*)', '') for x in p], pstar=[x[:-3] for x in p if x.endswith('(*)')],
                        consts=[x.replace('(*)', '') for x in c], cstar=[x[:-3] for x in c if x.endswith('(*)')], type=r[6]))
    return out


def main(progs):
    res = []
    for prog in progs:
        W = World()
        tr = []
        for ev in prog:
            o = dict(ok=True, exc='', said=True, decl=[], ends=[''])
            with quiet():
                if ev['op'] == 'run':
                    o.update(W.run(ev))
                else:
                    try:
                        with limited(30):
                            o.update((W.report(ev) if ev['op'] == 'report' else W.do(ev)) or {})
                    except Timeout:
                        o.update(ok=False, exc='Timeout')
                    except Exception as x:
                        try:
                            said = bool(str(x).strip())
                        except Exception:
                            said = False
                        o.update(ok=False, exc=type(x).__name__, said=said)
                try:
                    o.update(W.dumps(ev))
                except Exception as x:
                    o.update(models={}, probs={}, dumperr=traceback.format_exc()[-800:])
            e2 = dict(ev)
            e2['o'] = o
            tr.append(e2)
        res.append(tr)
    return res


if __name__ == '__main__':
    run(main)
