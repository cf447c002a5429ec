"""Replays kernel programs (units, quantities, expressions, equations) on the
real library and records what is observable after every operation."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *

import sympy as sp
import src.sloth.core.template_units as TU
from src.sloth.core.unit import Unit
from src.sloth.core.quantity import Quantity
from src.sloth.core.variable import Variable
from src.sloth.core.parameter import Parameter
from src.sloth.core.constant import Constant
from src.sloth.core.equation import Equation
from src.sloth.core.domain import Domain
import src.sloth.core.equation_operators as EO
from src.sloth.core.expression_evaluation import EquationNode

BASE = ['m', 'kg', 's', 'A', 'K', 'mol', 'cd']
TEMPL = ['dimless', 'm', 'kg', 's', 'A', 'K', 'mol', 'cd', '_s', '_m2', '_m3', 'm_s', 'm_s2', 'kg_s',
         'mol_s', 'Force', 'Pa', 'atm', 'J', 'UniversalIdealGasConstant']
KIND = dict(Quantity=Quantity, Variable=Variable, Parameter=Parameter, Constant=Constant)
K = 5
BADNUM = [0, 0, BIG]


def dims_of(u):
    d = u.dimension
    r = {b: obsr(d.get(b, 0)) for b in BASE}
    if any(k not in BASE for k in d):
        r = {b: [9, 0] for b in BASE}
    return r


def str_dims(u):
    r = {b: [0, 1] for b in BASE}
    for w in str(u).split():
        try:
            b, e = w.split('^')
            r[b] = obsr(float(e))
        except Exception:
            return {b: [9, 0] for b in BASE}
    return r


class World:
    def __init__(self):
        self.u, self.q, self.n, self.e = {}, {}, {}, {}
        self.byname = {}       # quantity name -> object
        self.pts = {}          # quantity name -> sample values
        self.dpts = {}         # (variable, independent variable) -> sample values

    # ---- numeric evaluation of symbolic objects at the sample assignments
    def evaluate(self, expr, k, extra=None):
        try:
            if isinstance(expr, (int, float)):
                return expr
            if isinstance(expr, EquationNode):
                expr = expr.symbolic_object
            sub = {}
            for a in expr.atoms(sp.Derivative):
                u, t = str(a.expr), str(a.variables[0])
                if len(a.variables) != 1 or (u, t) not in self.dpts:
                    return None
                sub[a] = sp.Rational(*self.dpts[(u, t)][k])
            if sub:
                expr = expr.xreplace(sub)
            m = {}
            for s in expr.free_symbols:
                if s.name not in self.pts:
                    return None
                m[s] = sp.Rational(*self.pts[s.name][k])
            v = expr.xreplace(m)
            v = complex(v.doit().evalf(15)) if not v.is_Number else complex(v)
            return v
        except Exception:
            return None

    def vals(self, expr, ks):
        return [obs(self.evaluate(expr, k)) for k in ks]

    # ---- observations
    def ob_u(self, h, u):
        return dict(k='u', h=h, dims=dims_of(u), str=str_dims(u))

    def ob_q(self, h):
        q = self.q[h]
        return dict(k='q', h=h, name=str(q.name), dims=dims_of(q.units), spec=bool(q.is_specified), val=obs(q.value))

    def refs(self, m):
        out = []
        for k in sorted(m, key=str):
            v = m[k]
            nm = str(k)
            out.append(nm if self.byname.get(nm) is v else '!' + nm)
        return out

    def syms(self, e):
        try:
            return sorted(s.name for s in e.free_symbols)
        except AttributeError:
            return []

    def cls(self, t):
        on = [k for k in ('is_linear', 'is_nonlinear', 'is_differential') if t.get(k) is True]
        return on[0][3:] if len(on) == 1 else '+'.join(on)

    def ob_n(self, h, ks):
        n = self.n[h]
        return dict(k='n', h=h, dims=dims_of(n.unit_object), refs=self.refs(n.symbolic_map), unk=self.refs(n.variable_map),
                    cls=self.cls(n.equation_type), vals=self.vals(n.symbolic_object, ks),
                    rvals=self.vals(n.repr_symbolic, ks), fs=self.syms(n.symbolic_object), rfs=self.syms(n.repr_symbolic))

    def ob_e(self, h, ks, full=True):
        e = self.e[h]
        ex = e.equation_expression
        names = list(ex.symbolic_map)
        sides = [ex] + list(e.elementary_equation_expression or [])
        has_d = any(not isinstance(x.symbolic_object, (int, float)) and bool(x.symbolic_object.atoms(sp.Derivative)) for x in sides)
        invs = [s for s in self.syms(ex.symbolic_object) if s not in names]

        def ev(k, side=None):
            try:
                m = {nm: num(self.pts[nm][k]) for nm in names + invs}
                if has_d:
                    return self.evaluate(ex.symbolic_object if side is None else
                                         e.elementary_equation_expression[0 if side == 'lhs' else 1].symbolic_object, k)
                return e.eval(m, side)
            except Exception:
                return None

        def fn(k, side=None):
            try:
                if has_d or not hasattr(e, '_convertToFunction'):
                    return ev(k, side)
                f = e._convertToFunction({nm: None for nm in names}, side, 'numpy')
                return f(*[num(self.pts[nm][k]) for nm in names])
            except Exception:
                return None
        two = e.elementary_equation_expression is not None
        o = dict(k='e', h=h, vals=[obs(ev(k)) for k in ks], fvals=[obs(fn(k)) for k in ks[:2]], form=e.equation_form,
                 cls=str(e.type), objs=self.refs(e.objects_declared) if isinstance(e.objects_declared, dict) else ['!none'],
                 lhs=[], rhs=[], flhs=[], frhs=[], call=[], cur=[])
        if two:
            o['lhs'] = [obs(ev(k, 'lhs')) for k in ks]
            o['rhs'] = [obs(ev(k, 'rhs')) for k in ks]
            o['flhs'] = [obs(fn(k, 'lhs')) for k in ks[:2]]
            o['frhs'] = [obs(fn(k, 'rhs')) for k in ks[:2]]
            try:
                o['call'] = self.vals(e().symbolic_object, ks)
            except Exception:
                o['call'] = [BADNUM] * len(ks)
        if not has_d and names and full:
            # evaluation with the current values of the quantities: give the
            # quantities their sample values and compare with those samples
            objs = [self.byname[nm] for nm in names if nm in self.byname]
            if len(objs) == len(names) and not any(o_.is_specified for o_ in objs):
                old = [o_.value for o_ in objs]
                try:
                    for o_, nm in zip(objs, names):
                        o_.value = num(self.pts[nm][2])
                    o['cur'] = [obs(e.getResidual()), obs(e.eval())]
                except Exception:
                    o['cur'] = [BADNUM, BADNUM]
                finally:
                    for o_, v in zip(objs, old):
                        o_.value = v
        return o

    def rest(self, ev):
        """re-observation of the operands of the event"""
        r = []
        op = ev['op']
        ks = [0]
        for f in ('a', 'b'):
            if f in ev:
                h = ev[f]
                if op.startswith('u_'):
                    r.append(self.ob_u(h, self.u[h]))
                elif op == 'q_arith':
                    r.append(self.ob_q(h))
                else:
                    r.append(self.ob_n(h, ks))
        if 'u' in ev:
            r.append(self.ob_u(ev['u'], self.u[ev['u']]))
        for f in ('src', 'q', 't'):
            if f in ev:
                r.append(self.ob_q(ev[f]))
        if op == 'q_set':
            r += [self.ob_q(h) for h in sorted(self.q)]
        for a in ev.get('args', []):
            if a['t'] == 'n':
                r.append(self.ob_n(a['a'], ks))
        return r

    def all(self):
        r = [self.ob_u(h, self.u[h]) for h in sorted(self.u)]
        r += [dict(self.ob_u(h, getattr(TU, h)), k='t') for h in TEMPL]
        r += [self.ob_q(h) for h in sorted(self.q)]
        r += [self.ob_n(h, [0, 1]) for h in sorted(self.n)]
        r += [self.ob_e(h, [0, 1], False) for h in sorted(self.e)]
        return r

    def missing(self, ev):
        op = ev['op']
        for f in ('a', 'b'):
            if f in ev:
                tab = self.u if op in UOPS else self.q if op == 'q_arith' else self.n
                if ev[f] not in tab:
                    return True
        if 'u' in ev and ev['u'] not in self.u:
            return True
        for f in ('src', 'q', 't'):
            if f in ev and ev[f] not in self.q:
                return True
        if op in ('q_set', 'q_dom') and ev['h'] not in self.q:
            return True
        if op == 'e_conv' and ev['h'] not in self.e:
            return True
        return any(a['t'] == 'n' and a['a'] not in self.n for a in ev.get('args', []))

    # ---- the operations
    def do(self, ev):
        op, h = ev['op'], ev.get('h')
        nk = ev.get('nk', 'f')
        if op == 'u_tmpl':
            self.u[h] = getattr(TU, ev['name'])
        elif op == 'u_new':
            self.u[h] = Unit('U' + h, {b: num(e, nk) for b, e in ev['exps'].items()})
        elif op == 'u_copy':
            self.u[h] = Unit('U' + h, self.u[ev['a']])
        elif op in ('u_mul', 'u_div', 'u_add', 'u_sub', 'u_powu'):
            a, b = self.u[ev['a']], self.u[ev['b']]
            self.u[h] = {'u_mul': lambda: a * b, 'u_div': lambda: a / b, 'u_add': lambda: a + b,
                         'u_sub': lambda: a - b, 'u_powu': lambda: a ** b}[op]()
        elif op == 'u_pow':
            self.u[h] = self.u[ev['a']] ** num(ev['num'], nk)
        elif op == 'u_num':
            x = num(ev['num'], nk)
            a = self.u[ev['a']]
            self.q[h] = a * x if ev['how'] == 'mul' else a / x
        elif op == 'q_new':
            k = KIND[ev['kind']]
            self.q[h] = k(ev['name'], self.u[ev['u']], value=num(ev['val'], nk))
            self.byname[ev['name']] = self.q[h]
            self.pts[ev['name']] = ev['pts']
        elif op == 'q_set':
            q = self.q[h]
            if ev['how'] == 'num':
                q.setValue(num(ev['num'], nk))
            elif ev['how'] == 'numunit':
                q.setValue(num(ev['num'], nk), self.u[ev['u']])
            elif ev['how'] == 'qty':
                q.setValue(self.q[ev['src']])
            else:
                q.setValue('not a value')
        elif op == 'q_dom':
            t = self.q[ev['t']]
            if not hasattr(self, 'dom_' + ev['t']):
                setattr(self, 'dom_' + ev['t'], Domain('dom', t.units, t))
            self.q[h].distributeOnDomain(getattr(self, 'dom_' + ev['t']))
        elif op == 'q_arith':
            a, b = self.q[ev['a']], self.q[ev['b']]
            self.q[h] = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b,
                         'div': lambda: a / b, 'pow': lambda: a ** b}[ev['f']]()
            if self.q[h] is a or self.q[h] is b:
                raise RuntimeError('result is an operand')
        elif op == 'call':
            self.n[h] = self.q[ev['q']]()
        elif op == 'n_bin':
            a, b = self.n[ev['a']], self.n[ev['b']]
            self.n[h] = self.bin(ev['f'], a, b)
        elif op == 'n_num':
            a, x = self.n[ev['a']], num(ev['num'], nk)
            self.n[h] = self.bin(ev['f'], a, x) if ev['side'] == 'r' else self.bin(ev['f'], x, a)
        elif op == 'n_fun':
            self.n[h] = getattr(EO, ev['f'])(self.n[ev['a']])
        elif op == 'n_fnum':
            self.n[h] = getattr(EO, ev['f'])(num(ev['num'], nk))
        elif op == 'n_mm':
            self.n[h] = getattr(EO, ev['f'])(*[self.n[a['a']] if a['t'] == 'n' else num(a['num'], nk) for a in ev['args']])
        elif op == 'n_diff':
            q, t = self.q[ev['q']], self.q[ev['t']]
            self.n[h] = q.Diff(t)
            self.dpts[(q.name, t.name)] = ev['pts']
        elif op == 'e_new':
            a = self.n[ev['a']]
            ex = a if ev['form'] == 'res' else (a == self.n[ev['b']]) if ev['form'] == 'elem' else (a == num(ev['num'], nk))
            self.e[h] = Equation('eq' + h, '', ex)
        elif op == 'e_conv':
            e = self.e[h]
            if hasattr(e, '_convertToResidualForm'):
                e._convertToResidualForm()
            else:
                raise Unavailable()
        elif op == 'obs_all':
            pass
        else:
            raise SystemExit('unknown op ' + op)

    def bin(self, f, a, b):
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b,
                'pow': lambda: a ** b}[f]()

    def res(self, ev):
        op, h = ev['op'], ev.get('h')
        if op == 'u_num' or op.startswith('q_'):
            return self.ob_q(h)
        if op in UOPS:
            return self.ob_u(h, self.u[h])
        if op in ('e_new', 'e_conv'):
            o = self.ob_e(h, list(range(K)))
            return o
        if op == 'obs_all':
            return {}
        return self.ob_n(h, list(range(K)))


class Unavailable(Exception):
    pass


UOPS = {'u_tmpl', 'u_new', 'u_copy', 'u_mul', 'u_div', 'u_pow', 'u_powu', 'u_add', 'u_sub', 'u_num'}


def replay(prog):
    w = World()
    out = []
    for ev in prog:
        ev = dict(ev)
        o = dict(skip=False, ok=True, exc='', said=True, res={}, rest=[])
        if w.missing(ev):
            o['skip'] = True
            o['ok'] = False
        else:
            try:
                with limited(20):
                    w.do(ev)
                    o['res'] = w.res(ev)
            except Unavailable:
                o['skip'] = True
            except Timeout:
                o['ok'], o['exc'] = False, 'Timeout'
            except Exception as x:
                o['ok'], o['exc'] = False, type(x).__name__
                try:
                    o['msg'] = str(x)[:200]
                    o['said'] = bool(str(x))
                except Exception:
                    o['said'] = False
                for tab in (w.u, w.q, w.n, w.e):
                    if ev.get('h') in tab and ev['op'] not in ('q_set', 'q_dom', 'e_conv'):
                        del tab[ev['h']]
            try:
                with limited(60):
                    o['rest'] = w.all() if ev['op'] == 'obs_all' else w.rest(ev)
            except (Timeout, Exception) as x:
                o['rest'] = [dict(k='?', h=str(x))]
        ev['o'] = o
        out.append(ev)
    return out


if __name__ == '__main__':
    run(lambda progs: [replay(p) for p in progs])
