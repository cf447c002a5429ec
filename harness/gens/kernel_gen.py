"""Random programs for the kernel family. The generator keeps a rough mirror of
dimensions only to bias towards coherent expressions; it decides nothing."""
import random
from fractions import Fraction as F

BASE = ['m', 'kg', 's', 'A', 'K', 'mol', 'cd']
T = dict(dimless={}, m={'m': 1}, kg={'kg': 1}, s={'s': 1}, A={'A': 1}, K={'K': 1}, mol={'mol': 1}, cd={'cd': 1},
         _s={'s': -1}, _m2={'m': -2}, _m3={'m': -3}, m_s={'m': 1, 's': -1}, m_s2={'m': 1, 's': -2},
         kg_s={'kg': 1, 's': -1}, mol_s={'mol': 1, 's': -1}, Force={'kg': 1, 'm': 1, 's': -2},
         Pa={'kg': 1, 'm': -1, 's': -2}, atm={'kg': 1, 'm': -1, 's': -2}, J={'kg': 1, 'm': 2, 's': -2},
         UniversalIdealGasConstant={'kg': 1, 'm': 2, 's': -2, 'K': -1, 'mol': -1})
NAMES = ['x', 'y', 'x1', 'xx', 'a_x', 'p', 'pp', 'k1', 'k11', 'T_in', 'T', 'u', 'v', 'w', 'z', 'alpha', 'x_M', 'y_M', 'x_M1']
FUNS = ['Log', 'Log10', 'Sqrt', 'Abs', 'Exp', 'Sin', 'Cos', 'Tan']


def vec(d):
    return tuple(F(d.get(b, 0)) for b in BASE)


def r(x):
    x = F(x)
    return [x.numerator, x.denominator]


class Gen:
    def __init__(self, rnd):
        self.R = rnd
        self.ev = []
        self.c = 0
        self.u, self.q, self.n, self.e = {}, {}, {}, {}
        self.names = NAMES[:]
        rnd.shuffle(self.names)

    def h(self, p):
        self.c += 1
        return p + str(self.c)

    def emit(self, **k):
        self.ev.append(k)

    # numbers
    def number(self, nz=True):
        v = self.R.choice([1, 2, 3, 4, 5, -1, -2, F(1, 2), F(3, 2), F(1, 4), 10, -3, F(5, 2)] + ([] if nz else [0]))
        if self.R.random() < .06:
            # more figures than usual
            v = self.R.choice([F(12345, 100), F(9999, 10000), 17389, F(10001, 10000), F(1, 8192), F(-2047, 1024)])
        return F(v), self.R.choice('if')

    # units
    def unit(self):
        R = self.R
        us = list(self.u)
        k = R.choice(['tmpl', 'tmpl', 'new', 'mul', 'div', 'pow', 'add', 'sub', 'copy', 'powu']) if us else 'tmpl'
        h = self.h('u')
        if k == 'tmpl':
            nm = R.choice(list(T))
            self.emit(op='u_tmpl', h=h, name=nm)
            self.u[h] = vec(T[nm])
        elif k == 'new':
            ex = {b: F(R.choice([1, 2, -1, -2, 3, F(1, 2), F(-3, 2), 0])) for b in R.sample(BASE, R.randint(0, 4))}
            if ex and R.random() < 0.35:
                # like an existing unit but for one exponent
                base = self.u[R.choice(us)]
                ex = {b: e for b, e in zip(BASE, base) if e != 0 or R.random() < 0.3}
                b = R.choice(BASE)
                ex[b] = ex.get(b, F(0)) + R.choice([1, -1, F(1, 2), 0, F(1, 16), F(-1, 32)])
            kind = 'i' if all(e.denominator == 1 for e in ex.values()) and R.random() < .5 else 'f'
            self.emit(op='u_new', h=h, exps={b: r(e) for b, e in ex.items()}, nk=kind)
            self.u[h] = vec(ex)
        elif k == 'copy':
            a = R.choice(us)
            self.emit(op='u_copy', h=h, a=a)
            self.u[h] = self.u[a]
        elif k in ('mul', 'div'):
            a, b = R.choice(us), R.choice(us)
            self.emit(op='u_' + k, h=h, a=a, b=b)
            s = 1 if k == 'mul' else -1
            self.u[h] = tuple(x + s * y for x, y in zip(self.u[a], self.u[b]))
        elif k == 'pow':
            a = R.choice(us)
            p = F(R.choice([2, 3, -1, -2, F(1, 2), F(3, 2), F(1, 4), 0, 1, F(-1, 2), F(1, 8), F(17, 16)]))
            if max(abs(x * p) for x in self.u[a]) > 40:
                p = F(0)
            self.emit(op='u_pow', h=h, a=a, num=r(p), nk=R.choice('if'))
            self.u[h] = tuple(x * p for x in self.u[a])
        elif k == 'powu':
            a, b = R.choice(us), R.choice(us)
            self.emit(op='u_powu', h=h, a=a, b=b)
            if not any(self.u[b]):
                self.u[h] = self.u[a]
        else:
            a = R.choice(us)
            same = [x for x in us if self.u[x] == self.u[a]]
            b = R.choice(same) if R.random() < .5 else R.choice(us)
            self.emit(op='u_' + k, h=h, a=a, b=b)
            if self.u[a] == self.u[b]:
                self.u[h] = self.u[a]

    def unum(self):
        h = self.h('q')
        a = self.R.choice(list(self.u))
        x, nk = self.number()
        self.emit(op='u_num', h=h, a=a, num=r(x), nk=nk, how=self.R.choice(['mul', 'div']))
        self.q[h] = dict(d=self.u[a], kind='Quantity', spec=False, name='', val=x, dom=False)

    def dimunit(self, d):
        for h, v in self.u.items():
            if v == d:
                return h
        return None

    # quantities
    def newq(self, kind=None, unit=None):
        R = self.R
        if not self.names:
            return None
        kind = kind or R.choice(['Variable', 'Variable', 'Variable', 'Parameter', 'Parameter', 'Constant', 'Quantity'])
        u = unit or R.choice(list(self.u))
        nm = self.names.pop()
        h = self.h('q')
        p0 = F(R.choice([1, 2, 3, F(1, 2), F(3, 2), -1, 4, -2]))
        d = F(R.choice([1, F(1, 2), -1, F(3, 2), -F(1, 2)]))
        e = F(R.choice([1, F(1, 2), -F(1, 2), 2, -1]))
        pts = [p0, p0 + d, p0 + 2 * d, p0 + e, p0 + 2 * e]
        v = F(R.choice([0, 0, 1, 2, 3, F(1, 2), -1]))
        self.emit(op='q_new', h=h, kind=kind, name=nm, u=u, val=r(v), nk=R.choice('if'), pts=[r(x) for x in pts])
        self.q[h] = dict(d=self.u[u], kind=kind, spec=False, name=nm, val=v, dom=False)
        return h

    def named(self):
        return [h for h in self.q if self.q[h]['name']]

    def setq(self, h=None, how=None, nz=False):
        R = self.R
        h = h or R.choice(list(self.q))
        q = self.q[h]
        how = how or R.choice(['num', 'num', 'numunit', 'numunit', 'qty', 'qty', 'bad'])
        x, nk = self.number(nz)
        if how == 'num':
            self.emit(op='q_set', h=h, how='num', num=r(x), nk=nk)
            q['spec'], q['val'] = True, x
        elif how == 'numunit':
            same = [u for u in self.u if self.u[u] == q['d']]
            u = R.choice(same) if same and R.random() < .5 else R.choice(list(self.u))
            self.emit(op='q_set', h=h, how='numunit', num=r(x), nk=nk, u=u)
            if self.u[u] == q['d']:
                q['spec'], q['val'] = True, x
        elif how == 'qty':
            src = list(self.q)
            same = [s for s in src if self.q[s]['d'] == q['d']]
            s = R.choice(same) if same and R.random() < .6 else R.choice(src)
            self.emit(op='q_set', h=h, how='qty', src=s)
            if self.q[s]['d'] == q['d']:
                q['spec'], q['val'] = True, self.q[s]['val']
        else:
            self.emit(op='q_set', h=h, how='bad')

    def arith(self):
        R = self.R
        f = R.choice(['add', 'sub', 'mul', 'div', 'pow'])
        a = R.choice(list(self.q))
        if f == 'pow':
            c = [b for b in self.q if not any(self.q[b]['d']) and self.q[b]['val'] in (F(1), F(2), F(3), F(-1), F(1, 2), F(0), F(1, 4), F(3, 2))]
        elif f in ('add', 'sub') and R.random() < .6:
            c = [b for b in self.q if self.q[b]['d'] == self.q[a]['d']]
        else:
            c = list(self.q)
        if not c:
            return
        b = R.choice(c)
        h = self.h('q')
        A, B = self.q[a], self.q[b]
        try:
            v = {'add': lambda: A['val'] + B['val'], 'sub': lambda: A['val'] - B['val'], 'mul': lambda: A['val'] * B['val'],
                 'div': lambda: A['val'] / B['val'], 'pow': lambda: F(A['val'] ** B['val']).limit_denominator(1000)}[f]()
        except Exception:
            return
        if abs(v) > 1000 or v.denominator > 100:
            return
        if f == 'pow':
            d = tuple(x * B['val'] for x in A['d'])
        elif f == 'mul':
            d = tuple(x + y for x, y in zip(A['d'], B['d']))
        elif f == 'div':
            d = tuple(x - y for x, y in zip(A['d'], B['d']))
        else:
            d = A['d']
        self.emit(op='q_arith', h=h, f=f, a=a, b=b)
        if f not in ('add', 'sub') or A['d'] == B['d']:
            self.q[h] = dict(d=d, kind=A['kind'], spec=False, name='', val=v, dom=False)

    # expressions
    def call(self, q=None):
        q = q or self.R.choice(self.named())
        h = self.h('n')
        self.emit(op='call', h=h, q=q)
        self.n[h] = dict(d=self.q[q]['d'], known=self.q[q]['spec'], leaf=True, val=self.q[q]['val'], size=1)
        return h

    def node(self, d=None, known=None, leaf=None):
        c = [h for h, n in self.n.items() if (d is None or n['d'] == d) and (known is None or n['known'] == known)
             and (leaf is None or n['leaf'] == leaf) and n['size'] < 9]
        if not c:
            return None
        # prefer recent nodes: deeper expressions
        return self.R.choice(c[-6:]) if self.R.random() < .5 else self.R.choice(c)

    def addn(self, h, d, known, size):
        self.n[h] = dict(d=d, known=known, leaf=False, val=None, size=size)

    def binop(self):
        R = self.R
        f = R.choice(['add', 'sub', 'mul', 'div', 'add', 'sub', 'mul', 'div', 'pow'])
        a = self.node()
        if a is None:
            return
        A = self.n[a]
        if f in ('add', 'sub') and R.random() < .8:
            b = self.node(d=A['d'])
        elif f == 'pow':
            z = vec({})
            b = self.node(d=z, leaf=True) if R.random() < .85 else self.node(leaf=True)
            if b is not None and self.n[b]['d'] == z:
                B = self.n[b]
                if not B['known'] and any(A['d']):
                    return
                if B['known'] and B['val'] not in (1, 2, 3, -1, F(1, 2), 0, -2, F(1, 4), F(3, 2), F(5, 2)):
                    return
                if B['known'] and max([abs(x * B['val']) for x in A['d']]) > 12:
                    return
        else:
            b = self.node()
        if b is None:
            return
        B = self.n[b]
        h = self.h('n')
        self.emit(op='n_bin', h=h, f=f, a=a, b=b)
        kn, sz = A['known'] and B['known'], A['size'] + B['size']
        if f in ('add', 'sub'):
            if A['d'] == B['d']:
                self.addn(h, A['d'], kn, sz)
        elif f == 'pow':
            if not any(B['d']):
                self.addn(h, A['d'] if not any(A['d']) else tuple(x * B['val'] for x in A['d']), kn, sz)
        else:
            s = 1 if f == 'mul' else -1
            self.addn(h, tuple(x + s * y for x, y in zip(A['d'], B['d'])), kn, sz)

    def numop(self):
        R = self.R
        f = R.choice(['add', 'sub', 'mul', 'div', 'pow'])
        side = R.choice('rl') if f != 'pow' else ('r' if R.random() < .95 else 'l')
        a = self.node()
        if a is None:
            return
        A = self.n[a]
        x, nk = self.number(f in ('div', 'pow'))
        d = A['d']
        if f == 'pow':
            x = F(R.choice([2, 3, -1, F(1, 2), 1, 0, -2, F(1, 4), F(3, 2), F(-3, 4)]))
            if max(abs(y * x) for y in d) > 12:
                return
            d = tuple(y * x for y in d)
        if f == 'div' and side == 'l':
            d = tuple(-y for y in d)
        h = self.h('n')
        self.emit(op='n_num', h=h, f=f, a=a, num=r(x), nk=nk, side=side)
        if not (f == 'pow' and side == 'l'):
            self.addn(h, d, A['known'], A['size'] + 1)

    def fun(self):
        R = self.R
        z = vec({})
        a = self.node(d=z, leaf=True) if R.random() < .5 else self.node(d=z) if R.random() < .8 else self.node()
        if a is None:
            a = self.node()
            if a is None:
                return
        h = self.h('n')
        self.emit(op='n_fun', h=h, f=R.choice(FUNS), a=a)
        if self.n[a]['d'] == z:
            self.addn(h, z, self.n[a]['known'], self.n[a]['size'] + 1)

    def fnum(self):
        R = self.R
        h = self.h('n')
        f = R.choice(FUNS)
        x = F(R.choice([1, 2, 4, F(1, 2), 9, 3]))
        self.emit(op='n_fnum', h=h, f=f, num=r(x), nk=R.choice('if'))
        self.addn(h, vec({}), True, 1)

    def mm(self):
        R = self.R
        a = self.node()
        if a is None:
            return
        d = self.n[a]['d']
        args = [dict(t='n', a=a)]
        for _ in range(R.randint(1, 3)):
            if R.random() < .25:
                x, _k = self.number()
                args.append(dict(t='num', num=r(x)))
            else:
                b = self.node(d=d) if R.random() < .85 else self.node()
                args.append(dict(t='n', a=b))
        R.shuffle(args)
        h = self.h('n')
        self.emit(op='n_mm', h=h, f=R.choice(['Min', 'Max']), args=args, nk=R.choice('if'))
        ns = [self.n[x['a']] for x in args if x['t'] == 'n']
        if all(x['d'] == d for x in ns):
            self.addn(h, d, all(x['known'] for x in ns), sum(x['size'] for x in ns) + 1)

    def diff(self):
        R = self.R
        vs = [h for h in self.named() if self.q[h]['kind'] == 'Variable' and not self.q[h]['spec']]
        if len(vs) < 2:
            return
        t = getattr(self, 't', None)
        if t is None:
            t = self.t = R.choice(vs)
        if self.q[t]['spec']:
            return
        q = R.choice(vs)
        if q == t:
            return
        if not self.q[q]['dom'] and R.random() < .9:
            self.emit(op='q_dom', h=q, t=t)
            self.q[q]['dom'] = True
        key = (q, t)
        if not hasattr(self, 'dp'):
            self.dp = {}
        if key not in self.dp:
            p0 = F(R.choice([1, 2, -1, F(1, 2)]))
            self.dp[key] = [r(p0 + F(x)) for x in (0, 1, 2, 3, 6)]
        h = self.h('n')
        self.emit(op='n_diff', h=h, q=q, t=t, pts=self.dp[key])
        if self.q[q]['dom']:
            self.addn(h, tuple(x - y for x, y in zip(self.q[q]['d'], self.q[t]['d'])), False, 1)

    def eq(self):
        R = self.R
        a = self.node()
        if a is None:
            return
        form = R.choice(['res', 'elem', 'elem', 'elemnum'])
        h = self.h('e')
        k = dict(op='e_new', h=h, form=form, a=a)
        if form == 'elem':
            b = self.node(d=self.n[a]['d']) if R.random() < .85 else self.node()
            k['b'] = b
        elif form == 'elemnum':
            x, nk = self.number(False)
            k.update(num=r(x), nk=nk)
        self.emit(**k)
        self.e[h] = form
        if R.random() < .3:
            self.emit(op='e_conv', h=R.choice(list(self.e)))


def pick(R, table):
    tot = sum(w for _, w in table)
    x = R.random() * tot
    for f, w in table:
        x -= w
        if x <= 0:
            return f
    return table[-1][0]


def program(R, profile, n):
    g = Gen(R)
    if profile == 'units':
        for _ in range(3):
            g.unit()
        for _ in range(n):
            pick(R, [(g.unit, 10), (g.unum, 1)])()
    elif profile == 'quantities':
        pool = R.sample(['m', 'kg', 's', 'dimless', 'Pa', 'atm', 'J', 'm_s'], 3)
        for nm in pool:
            h = g.h('u')
            g.emit(op='u_tmpl', h=h, name=nm)
            g.u[h] = vec(T[nm])
        for _ in range(5):
            g.newq()
        for _ in range(n):
            pick(R, [(g.setq, 6), (g.arith, 5), (g.unum, 1), (g.call, 1), (g.newq, .6)])()
    else:
        # expressions: one dominant unit so that most sums are coherent
        main = R.choice(['dimless', 'dimless', 'dimless', 'm', 'kg_s', 'K'])
        for nm in [main, R.choice(['dimless', 'dimless', 'm', 's']), R.choice(['s', 'kg', 'm_s'])]:
            h = g.h('u')
            g.emit(op='u_tmpl', h=h, name=nm)
            g.u[h] = vec(T[nm])
        us = list(g.u)
        for i in range(5):
            g.newq(unit=us[0] if i < 2 else (us[1] if i < 4 else us[2]))
        for h in g.named():
            if R.random() < .35:
                g.setq(h, 'num', nz=R.random() < .75)
        for h in g.named():
            if R.random() < .8:
                g.call(h)
        W = dict(expr=[(g.binop, 8), (g.numop, 5), (g.fun, 2), (g.fnum, .3), (g.mm, 1.2), (g.diff, .8), (g.call, 1.5), (g.newq, .3)],
                 share=[(g.binop, 8), (g.numop, 3), (g.fun, 1), (g.mm, 1), (g.diff, .7), (g.call, 2), (lambda: g.setq(R.choice(g.named()), 'num', R.random() < .75), 1.5), (g.newq, .3)],
                 types=[(g.binop, 7), (g.numop, 4), (g.fun, 1.5), (g.mm, .8), (g.diff, 3), (g.call, 1.5), (g.eq, 1)],
                 eqs=[(g.binop, 5), (g.numop, 3), (g.fun, 1), (g.mm, .6), (g.diff, 1), (g.call, 1.5), (g.eq, 5)])[profile]
        for _ in range(n):
            pick(R, W)()
    g.emit(op='obs_all')
    return g.ev


def programs(seed, profile, count, length):
    return [program(random.Random('%s/%s/%d' % (seed, profile, i)), profile, random.Random('%s%d' % (seed, i)).randint(length // 2, length))
            for i in range(count)]
