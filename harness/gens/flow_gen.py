"""Random flowsheet programs. The generator only knows how to build sensible
flowsheets (mostly square, solvable at a chosen point); it decides nothing."""
import random
from fractions import Fraction as F

MODELS = ['A', 'B', 'C', 'M', 'M1', 'M12', 'A_B', 'tank', 'x', 'L0', 'B_A']
BASES = ['x', 'x1', 'xx', 'y', 'T', 'T_in', 'a', 'a_b', 'k', 'k1', 'k11', 'm_dot', 'P', 'P_in', 'u', 'v', 'w', 'A_x', 'ab', 'rho', 'z1', 'M_w', 'e_x']
EQB = ['eq1', 'eq2', 'eq11', 'bal', 'bal_x', 'energy', 'mom', 'def_T', 'close', 'eq']
DESC = ['', '', 'temperature', 'flow rate of A', 'level (m)', 'balance, total']
UNITS = ['dimless', 'dimless', 'kg', 'kg_s', 'K', 'Pa', 'J', 'mol_s']


def r(x):
    x = F(x)
    return [x.numerator, x.denominator]


class Gen:
    def __init__(self, R, profile):
        self.R, self.profile = R, profile
        self.ev = []
        self.models = {}
        self.np = 0
        self.solved = set()
        self.loose = self.bent = False
        # numbers which are not dyadic
        self.fine = profile == 'solve' and R.random() < .3

    def emit(self, **k):
        self.ev.append(k)
        return k

    def small(self, zero=False):
        if zero and self.profile not in ('solve', 'nonlin') and self.R.random() < .12:
            return F(0)
        if self.fine and self.R.random() < .4:
            return F(self.R.choice([F(1, 10), F(-3, 10), F(6, 5), F(12, 5), F(1, 3)]))
        return F(self.R.choice([1, 2, 3, -1, -2, 4, 5, F(1, 2), F(3, 2), -3, F(5, 2), 6]))

    # -------------------------------------------------------------- models
    def setup(self, n=None, style=None):
        R = self.R
        self.unit = R.choice(UNITS) if self.profile != 'nonlin' and not self.bent else 'dimless'
        n = n or R.choice([1, 2, 2, 2, 3, 3])
        mixed = self.profile in ('solve', 'models', 'inc') and R.random() < .35
        while True:
            names = R.sample(MODELS, n)
            bases = R.sample(BASES, R.randint(7, 11) if getattr(self, 'apart', False) else R.randint(5, 9))
            # a clash of qualified names is the user's own mistake
            q = [b + '_' + m for b in bases + EQB for m in names]
            if len(set(q)) == len(q) and not set(names) & set(bases):
                break
        self.names, self.bases = names, bases
        # each of the models in units of its own, at times
        self.mu = {m: R.choice(UNITS) if mixed else self.unit for m in names}
        pts, bmap = {}, {}
        for b in bases:
            for m in names:
                pts[b + '_' + m] = [r(R.choice([1, 2, 3, 4, -1, -2, F(1, 2), F(3, 2), 5, F(1, 4)])) for _ in range(3)]
                bmap[b + '_' + m] = b
        for b in EQB:
            for m in names:
                bmap[b + '_' + m] = b
        self.bmap = bmap
        self.emit(op='env', pts=pts, bases=bmap)
        for m in names:
            self.plan(m, style)

    def plan(self, m, style):
        R = self.R
        style = style or R.choice(['init', 'init', 'init', 'declare'])
        pool = self.bases[:]
        if getattr(self, 'apart', False):
            # a part of the base names to itself
            i, n = self.names.index(m), len(self.names)
            pool = [b for j, b in enumerate(pool) if j % n == i] or pool
        R.shuffle(pool)
        k = R.randint(min(2, len(pool)), min(5, len(pool)))
        objs = []
        for i, b in enumerate(pool[:k]):
            kind = 'Variable' if i == 0 else R.choice(['Variable'] * 5 + ['Parameter'] * 2 + ['Constant'])
            unit = self.mu[m] if kind == 'Variable' or R.random() < .3 else 'dimless'
            exp = R.choice(['', 'input', 'output']) if kind == 'Variable' and R.random() < .75 else ''
            val = F(R.choice([0, 0, 1, 2, F(1, 2)]))
            st = None
            if kind != 'Variable':
                p = .35 if self.loose else .93 if self.profile in ('solve', 'nonlin') else .7
                if R.random() < p:
                    st = self.small(True)
            elif R.random() < .1 and (style == 'init' or not exp):
                st = self.small()
            objs.append(dict(base=b, kind=kind, unit=unit, exp=exp, val=r(val), set=r(st) if st is not None else [], desc=R.choice(DESC)))
        self.models[m] = dict(style=style, objs=objs, eqs=[], nobj={}, execd=False, eqn=[], made=False, conns=0, inc=False)

    def leafs(self, m, kinds=None, unit=None, spec=None):
        return [o for o in self.models[m]['objs'] if (kinds is None or o['kind'] in kinds) and (unit is None or o['unit'] == unit)
                and (spec is None or bool(o['set']) == spec)]

    def q(self, m, o):
        return ['q', m, o['base'] + '_' + m]

    # ---------------------------------------------------------- expressions
    def eqtree(self, m, solve=None, foreign=None, uses=None):
        """terms of an equation of model m; solve: values -> balance the constant"""
        R = self.R
        vs = [o for o in self.leafs(m, ['Variable']) if o['unit'] == self.mu[m]]
        ad = [o for o in self.leafs(m, ['Parameter', 'Constant'], self.mu[m])]
        co = [o for o in self.leafs(m, ['Parameter', 'Constant'], 'dimless')]
        R.shuffle(vs)
        R.shuffle(co)
        pick = vs[:R.randint(1, min(len(vs), 4))]
        if uses is not None:
            pick = [uses] + [v for v in pick if v is not uses]
        terms, val = [], F(0)
        sv = lambda o: solve[o['base'] + '_' + m] if solve is not None else F(1)
        nonlin = self.profile == 'nonlin'
        for w, o in enumerate(pick):
            c = self.small()
            k = R.random()
            t, v = self.q(m, o), sv(o)
            if self.bent and w == 0:
                t, v = ['pow', t, [2, 1]], v * v
            elif nonlin and k < .35:
                z = R.choice(vs)
                if R.random() < .5 or z is o:
                    t, v = ['pow', t, [2, 1]], v * v
                else:
                    t, v = ['mul', t, self.q(m, z)], v * sv(z)
            elif not nonlin and self.profile not in ('solve',) and self.mu[m] == 'dimless' and k < .12:
                t, v = R.choice([lambda: ['fun', 'Exp', t], lambda: ['fun', 'Abs', t], lambda: ['pow', t, [2, 1]],
                                 lambda: ['min', t, ['num', [2, 1]]], lambda: ['max', ['num', [1, 1]], t]])(), v
            j = R.random()
            if co and j < .3:
                p = co.pop()
                pv = F(*p['set']) if p['set'] else F(1)
                if R.random() < .8:
                    t, v = ['mul'] + R.sample([t, self.q(m, p)], 2), v * pv
                elif pv != 0:
                    t, v = ['div', t, self.q(m, p)], v / pv
            elif j < .75:
                if R.random() < .8:
                    t, v = ['mul', ['num', r(c)], t] if R.random() < .6 else ['mul', t, ['num', r(c)]], v * c
                else:
                    t, v = ['div', t, ['num', r(c)]], v / c
            elif j < .8:
                t, v = ['mul', ['num', [-1, 1]], t], -v
            terms.append((t, v))
        if ad and R.random() < .5:
            o = R.choice(ad)
            terms.append((self.q(m, o), F(*o['set']) if o['set'] else F(1)))
        if foreign:
            terms.append((['q', foreign[0], foreign[1]], F(1)))
        R.shuffle(terms)
        two = R.random() < .4

        def fold(ts):
            t, v = ts[0]
            for x, y in ts[1:]:
                if R.random() < .6:
                    t, v = ['add', t, x], v + y
                else:
                    t, v = ['sub', t, x], v - y
            return t, v
        if two:
            cut = R.randint(1, len(terms))
            l, lv = fold(terms[:cut])
            if cut < len(terms):
                rr, rv = fold(terms[cut:])
                c = lv - rv
                if solve is not None and c == 0 and R.random() < .7:
                    return dict(two=True, l=l, r=rr)
                c = c if solve is not None else self.small()
                return dict(two=True, l=l, r=['add', rr, ['num', r(c)]] if R.random() < .5 else ['sub', rr, ['num', r(-c)]])
            c = lv if solve is not None else self.small()
            return dict(two=True, l=l, r=['num', r(c)])
        l, lv = fold(terms)
        c = lv if solve is not None else self.small()
        if len(terms) == 1 and l[0] == 'q' and R.random() < .2:
            return dict(two=False, l=['sub', l, ['num', r(c)]], r=[])
        l = R.choice([lambda: ['sub', l, ['num', r(c)]], lambda: ['add', l, ['num', r(-c)]], lambda: ['add', ['num', r(-c)], l]])()
        return dict(two=False, l=l, r=[])

    def addeq(self, m, **k):
        mm = self.models[m]
        free = [b for b in EQB if b not in [e['base'] for e in mm['eqs']]]
        if getattr(self, 'apart', False):
            i, n = self.names.index(m), len(self.names)
            free = [b for b in free if EQB.index(b) % n == i]
        if not free or not self.leafs(m, ['Variable']):
            return
        d = self.eqtree(m, **k)
        mm['eqs'].append(dict(base=self.R.choice(free), desc=self.R.choice(DESC), **d))

    def make(self, m):
        mm = self.models[m]
        self.emit(op='model', m=m, style=mm['style'], objs=mm['objs'], eqs=mm['eqs'])
        mm['made'] = True
        if mm['style'] == 'init':
            mm['nobj'] = {o['base'] + '_' + m: o for o in mm['objs']}

    def exec(self, m):
        mm = self.models[m]
        self.emit(op='exec', m=m)
        mm['execd'] = True
        mm['nobj'].update({o['base'] + '_' + m: o for o in mm['objs']})
        for e in mm['eqs']:
            if not any(x[1] != m for x in leaves(e['l']) + (leaves(e['r']) if e['two'] else [])):
                if e['base'] not in mm['eqn']:
                    mm['eqn'].append(e['base'])

    def edit(self):
        """the model writes other equations from now on"""
        R = self.R
        c = [m for m in self.names if self.models[m]['made'] and self.models[m]['execd'] and not self.models[m]['inc']]
        if not c:
            return
        m = R.choice(c)
        mm = self.models[m]
        if mm['eqs'] and R.random() < .6:
            e = R.choice(mm['eqs'])
            if any(x[0] == 'd' for t in [e['l']] + ([e['r']] if e['two'] else []) for x in leaves(t)):
                return
            mm['eqs'] = [x for x in mm['eqs'] if x is not e]
            d = dict(base=e['base'], desc=R.choice(DESC), **self.eqtree(m))
            mm['eqs'].append(d)
        else:
            mm['eqs'] = mm['eqs'][:]
            self.addeq(m)
        self.emit(op='edit', m=m, eqs=mm['eqs'])

    def setv(self, m=None, coeff=False):
        m = m or self.R.choice(self.names)
        mm = self.models[m]
        c = [n for n, o in mm['nobj'].items() if mm['style'] == 'init' or (mm['execd'] and not o['exp'])]
        if self.profile in ('solve', 'nonlin'):
            c = [n for n in c if mm['nobj'][n]['set']]
        dv = {x for y in self.models.values() for e in y['eqs'] for t in [e['l']] + ([e['r']] if e['two'] else []) for z in leaves(t) if z[0] == 'd' for x in z[2:]}
        c = [n for n in c if mm['nobj'][n]['base'] not in {self.bmap.get(x) for x in dv}]
        if not c or mm['style'] == 'declare' and self.R.random() < .7:
            return False
        if coeff:
            # one which scales something
            eb = [z[2] for y in self.models.values() for e in y['eqs'] for t in [e['l']] + ([e['r']] if e['two'] else []) for z in leaves(t)]
            eb = {self.bmap.get(x) for x in eb}
            c = [n for n in c if mm['nobj'][n]['kind'] != 'Variable' and mm['nobj'][n]['base'] in eb] or c
        n = self.R.choice(c)
        self.emit(op='setv', m=m, n=n, num=r(self.small(True)))
        mm['nobj'][n] = dict(mm['nobj'][n], set=[1, 1])
        return True

    def inc(self):
        R = self.R
        if len(self.names) < 2:
            return
        into, frm = R.sample(self.names, 2)
        a, b = self.models[into], self.models[frm]
        if not a['made'] or not b['made'] or b['conns'] or a.get('kept') or b.get('kept'):
            return
        bases = lambda mm: {o['base'] for o in mm['nobj'].values()} | {o['base'] for o in mm['objs']}
        if (bases(a) | set(x['base'] for x in a['eqs']) | set(a['eqn'])) & (bases(b) | set(b['eqn'])):
            return
        allk = R.random() < .6
        v, p, c = (True, True, True) if allk else [R.random() < .6 for _ in range(3)]
        e = allk and R.random() < .8
        rw = R.random() < .75 or any(x[1] == frm for e in a['eqs'] for t in [e['l']] + ([e['r']] if e['two'] else []) for x in leaves(t))
        self.emit(op='inc', into=into, **{'from': frm}, v=v, p=p, c=c, e=e, rw=rw)
        if rw:
            for n, o in b['nobj'].items():
                if dict(Variable=v, Parameter=p, Constant=c)[o['kind']]:
                    a['nobj'][o['base'] + '_' + into] = dict(o)
            if e:
                a['eqn'] += b['eqn']
        else:
            a['kept'] = True
            if e:
                a['eqn'] += b['eqn']
            for n, o in b['nobj'].items():
                if dict(Variable=v, Parameter=p, Constant=c)[o['kind']]:
                    a['nobj'][n] = dict(o)
        a['inc'] = True

    # ---------------------------------------------------------- connections
    def exposed(self, m, d):
        return [n for n, o in self.models[m]['nobj'].items() if o['kind'] == 'Variable' and o['exp'] == d and o['unit'] == self.mu[m]
                and n.endswith('_' + m)]

    def problem(self, ms=None):
        self.np += 1
        p = 'p%d' % self.np
        ms = ms or self.R.sample(self.names, self.R.randint(1, len(self.names)))
        self.emit(op='prob', p=p, models=ms, how=self.R.choice(['list', 'each']))
        return p, ms

    def conn(self, p, wrong=False):
        R = self.R
        if len(self.names) < 2:
            return
        m1, m2 = R.sample(self.names, 2)
        if self.mu[m1] != self.mu[m2]:
            return
        if not self.models[m1]['made'] or not self.models[m2]['made'] or self.models[m1].get('kept') or self.models[m2].get('kept'):
            return
        o, i = self.exposed(m1, 'output'), self.exposed(m2, 'input')
        if wrong:
            w = R.choice(['out', 'in', 'swap', 'third', 'mixed'])
            anyv = lambda m: [n for n, x in self.models[m]['nobj'].items() if x['kind'] == 'Variable' and x['unit'] == self.mu[m] and n.endswith('_' + m)]
            if w == 'swap':
                o, i = self.exposed(m1, 'input'), self.exposed(m2, 'output')
            elif w == 'out':
                o = [n for n in anyv(m1) if n not in o]
            elif w == 'in':
                i = [n for n in anyv(m2) if n not in i]
            if not o or not i:
                return
            outs, ins = [[m1, R.choice(o)]], [[m2, R.choice(i)]]
            if w == 'mixed':
                bad = [n for n in anyv(m2) if n not in i]
                if not bad:
                    return
                ins = R.sample([[m2, R.choice(i)], [m2, R.choice(bad)]], 2)
            if w == 'third':
                if len(self.names) < 3:
                    return
                m3 = [m for m in self.names if m not in (m1, m2)][0]
                o3 = self.exposed(m3, 'output')
                if not o3 or self.mu[m3] != self.mu[m1]:
                    return
                outs = [[m3, R.choice(o3)]]
            self.emit(op='conn', p=p, m1=m1, m2=m2, outs=outs, ins=ins, expr=[], single=R.random() < .4 and len(ins) == 1)
            return
        if not o or not i:
            return
        outs = [[m1, n] for n in R.sample(o, min(len(o), R.choice([1, 1, 1, 2])))]
        ins = [[m2, n] for n in R.sample(i, min(len(i), R.choice([1, 1, 1, 2])))]
        self.connect(p, m1, m2, outs, ins)
        if R.random() < .25:
            # several connections of expressions between the same models
            for _ in range(R.randint(2, 3)):
                self.connect(p, m1, m2, [[m1, n] for n in R.sample(o, min(len(o), R.choice([1, 1, 2])))],
                             [[m2, n] for n in R.sample(i, min(len(i), R.choice([1, 1, 2])))], k=R.choice([.82, .88, .95]))

    def connect(self, p, m1, m2, outs, ins, c=None, k=None):
        R = self.R
        k = R.random() if k is None else k
        lo = lambda l: self.sum([['q'] + x for x in l])
        key = (tuple(map(tuple, outs)), tuple(map(tuple, ins)))
        done = self.__dict__.setdefault('ends', {})
        two = ['num', [2, 1]]
        if R.random() < .3:
            # the factor is a parameter of one of the models
            ps = [(m, n, o) for m in (m1, m1, m2) for n, o in self.models[m]['nobj'].items()
                  if o['kind'] == 'Parameter' and o['unit'] == 'dimless' and n.endswith('_' + m) and (o['set'] or c is None)]
            if ps:
                m, n, o = R.choice(ps)
                two = ['q', m, n]
                if c is not None:
                    c = c * (F(*o['set']) - 1)
        c = c if c is not None else self.small()
        if key in done:
            # the same connection again
            if done[key] is None:
                self.emit(op='conn', p=p, m1=m1, m2=m2, outs=outs, ins=ins, expr=[], single=False)
            return False
        if k < .65:
            done[key] = None
            self.emit(op='conn', p=p, m1=m1, m2=m2, outs=outs, ins=ins, expr=[], single=R.random() < .5)
            kind = 'plain'
        elif k < .8:
            done[key] = 'expr'
            ex = ['sub', lo(ins), ['add', ['mul', two, lo(outs)], ['num', r(c)]]]
            self.emit(op='conn', p=p, m1=m1, m2=m2, outs=outs, ins=ins, expr=ex, single=False)
            kind = 'expr'
        else:
            done[key] = 'in'
            l = ['mul', two, lo(outs)]
            rr = ['sub', lo(ins), ['num', r(c)]]
            self.emit(op='inconn', p=p, m1=R.choice([m1, m1, '', 'feed']) if k > .9 else m1, src='name' if k > .9 else 'model', m2=m2, l=l, r=rr)
            kind = 'expr'
        self.models[m2]['conns'] += 1
        return kind

    def sum(self, ts):
        t = ts[0]
        for x in ts[1:]:
            t = ['add', t, x]
        return t

    def report(self, p=None, ms=None):
        R = self.R
        if not any(e['op'] == 'resolve' and e['p'] == p for e in self.ev):
            p = None
        m = R.choice([m for m in self.names if self.models[m]['made']] or [None])
        if m is None:
            return
        k = R.choice(['model', 'model', 'exposed', 'dof'] + (['problem', 'problem'] if p else []))
        if k == 'problem':
            self.emit(op='report', what='problem', p=p, via=R.choice(['sim', 'self']))
        else:
            self.emit(op='report', what=k, m=m, via=R.choice(['sim', 'self']))

    def run(self, p, kind, sol=None):
        R = self.R
        nla = 'symbolicsys'
        if kind == 'nonlin':
            nla = R.choice(['*', 'symbolicsys', '*', 'sympy'])
        guess = []
        if sol and R.random() < .7 and kind == 'nonlin':
            # some of them are the solution itself
            w = R.choice([0, 1])
            guess = [[n, r(v + w*F(R.choice([0, 1, -1, 1]), 4))] for n, v in sol.items()]
        self.emit(op='run', p=p, sim=R.choice(['s1', 's1', 's2']), la=R.choice(['symbolicsys', 'sympy', 'scipy']), nla=nla, compile=R.random() < .7,
                  guess=guess, gs=R.choice(['', '', 'hybr', 'anderson']) if kind == 'nonlin' else '', show=R.random() < .4, limit=8 if nla == 'sympy' else 20)


def leaves(t):
    if t and t[0] in ('q', 'd'):
        return [t]
    return [x for a in t[1:] if isinstance(a, list) and a and isinstance(a[0], str) for x in leaves(a)]


def foreign(g, m):
    """an object of another model, for an equation of this one; a parameter which no equation has used yet if there is one, mostly"""
    R = g.R
    if R.random() < .2 and len(g.names) > 1:
        m2 = R.choice([x for x in g.names if x != m])
        if g.models[m2]['made'] and g.models[m2]['style'] == 'init':
            c = [o for o in g.models[m2]['objs'] if o['unit'] == g.mu[m] and o['base'] not in [x['base'] for x in g.models[m]['objs']]]
            u = {x[2] for e in g.models[m2]['eqs'] for x in leaves(['+'] + [e[k] for k in ('l', 'r', 'x') if e.get(k)])}
            f = [o for o in c if o['kind'] == 'Parameter' and o['base'] + '_' + m2 not in u]
            if f and R.random() < .7:
                c = f
            if c:
                return m2, R.choice(c)['base'] + '_' + m2


def models_program(g, n, inc=False):
    R = g.R
    g.apart = inc
    g.setup(n=R.choice([2, 2, 3]) if inc else R.choice([1, 2, 2, 3]))
    for m in g.names:
        for _ in range(R.randint(0, 3)):
            g.addeq(m, foreign=foreign(g, m))
        if R.random() < .12 and g.models[m]['style'] == 'init':
            diffeq(g, m)
        g.make(m)
        if R.random() < .8:
            g.exec(m)
    p, ps = None, []
    for _ in range(n):
        k = R.random()
        if k < (.12 if inc else .2):
            g.exec(R.choice(g.names))
        elif k < (.3 if inc else .4):
            g.setv()
        elif k < (.75 if inc else .7):
            g.inc()
        elif k < .85:
            g.report(p)
        elif k < .89:
            g.edit()
        elif k < .94 and ps and R.random() < .5:
            # resolved again after a change of values
            p, _ms = R.choice(ps)
            g.setv(R.choice(_ms))
            g.emit(op='resolve', p=p)
        elif k < .94:
            ms = [m for m in g.names if not g.models[m].get('kept')]
            if ms:
                p, _ms = g.problem(R.sample(ms, R.randint(1, len(ms))))
                g.emit(op='resolve', p=p)
                ps.append((p, _ms))
                for m in _ms:
                    g.models[m]['execd'] = True
                    g.models[m]['nobj'].update({o['base'] + '_' + m: o for o in g.models[m]['objs'] if o['base'] + '_' + m not in g.models[m]['nobj']})
        elif p is None:
            p, _ = g.problem()
            g.conn(p)
        else:
            g.conn(p, R.random() < .3)


def diffeq(g, m):
    vs = [o for o in g.leafs(m, ['Variable']) if not o['set'] and not o['exp']]
    if len(vs) < 2:
        return
    x, t = g.R.sample(vs, 2)
    free = [b for b in EQB if b not in [e['base'] for e in g.models[m]['eqs']]]
    if getattr(g, 'apart', False):
        free = [b for b in free if EQB.index(b) % len(g.names) == g.names.index(m)]
    if not free:
        return
    co = [o for o in g.leafs(m, ['Parameter', 'Constant'], 'dimless')]
    # a derivative of a variable by another of the same unit is dimensionless
    rhs = g.q(m, g.R.choice(co)) if co and g.R.random() < .7 else ['num', r(g.small())]
    l = ['d', m, x['base'] + '_' + m, t['base'] + '_' + m]
    if g.R.random() < .5:
        d = dict(two=True, l=l, r=rhs)
    else:
        d = dict(two=False, l=['sub', l, rhs], r=[])
    g.models[m]['eqs'].append(dict(base=free[0], desc='', **d))


def conn_program(g, n):
    R = g.R
    g.setup(n=R.choice([2, 2, 3]))
    order = g.names[:]
    for m in order:
        for _ in range(R.randint(0, 2)):
            g.addeq(m, foreign=foreign(g, m))
        if R.random() < .15 and g.models[m]['style'] == 'init':
            diffeq(g, m)
        g.make(m)
        if R.random() < .85 or g.models[m]['style'] == 'declare':
            g.exec(m)
    p, ms = g.problem(R.sample(g.names, len(g.names)) if R.random() < .8 else None)
    for _ in range(n):
        k = R.random()
        if k < .35:
            g.conn(p)
        elif k < .55:
            g.conn(p, True)
        elif k < .65:
            g.setv()
        elif k < .85:
            g.emit(op='resolve', p=p)
        elif k < .88:
            g.exec(R.choice(g.names))
        elif k < .93:
            g.edit()
        elif k < .96:
            g.report(p)
        elif g.np < 2:
            p, ms = g.problem(R.sample(g.names, len(g.names)))
    g.emit(op='resolve', p=p)


def kinds_program(g, n):
    """problems of every combination of kinds of equations, the algebraic ones all nonlinear, mostly"""
    R = g.R
    g.bent = True
    g.setup(n=R.choice([1, 1, 2]))
    for m in g.names:
        ks = R.sample('ad', R.randint(1, 2)) + R.choice([[], ['a'], ['d'], ['l']])
        R.shuffle(ks)
        for k in ks:
            if k == 'd':
                if g.models[m]['style'] == 'init':
                    diffeq(g, m)
            else:
                g.bent = k == 'a'
                g.addeq(m)
        g.make(m)
        if R.random() < .8 or g.models[m]['style'] == 'declare':
            g.exec(m)
    ps = []
    for _ in range(R.choice([1, 1, 2])):
        p, _ms = g.problem(R.sample(g.names, R.randint(1, len(g.names))))
        g.emit(op='resolve', p=p)
        ps.append(p)
    for _ in range(n // 6):
        g.setv()
        g.emit(op='resolve', p=R.choice(ps))
    g.report(ps[-1])


def solve_program(g, n, kind, wrap=False):
    """a flowsheet which is square and solvable at a chosen point, mostly"""
    R = g.R
    g.loose = R.random() < .1
    # one model which is incorporated into an empty one, and that one is solved
    wrap = wrap or R.random() < .2
    g.apart = wrap
    g.setup(n=2 if wrap else R.choice([1, 1, 2, 2, 3]))
    sol = {}
    if wrap:
        g.models[g.names[1]]['objs'] = []
    for m in g.names:
        for o in g.models[m]['objs']:
            if o['kind'] == 'Variable':
                sol[o['base'] + '_' + m] = F(*o['set']) if o['set'] else F(R.choice([1, 2, 3, -1, -2, F(1, 2), F(3, 2), 4, F(5, 2), 5, F(-3, 2)]))
    # the connections to be made
    plan = []
    for m2 in g.names:
        ins = [o['base'] + '_' + m2 for o in g.models[m2]['objs'] if o['exp'] == 'input' and not o['set']]
        for i in ins:
            src = [m for m in g.names if m != m2 and g.mu[m] == g.mu[m2] and any(o['exp'] == 'output' for o in g.models[m]['objs'])]
            if src and R.random() < .85:
                m1 = R.choice(src)
                outs = [o['base'] + '_' + m1 for o in g.models[m1]['objs'] if o['exp'] == 'output']
                outs = R.sample(outs, min(len(outs), R.choice([1, 1, 1, 2])))
                plan.append([m1, m2, outs, i])
    for m1, m2, outs, i in plan:
        sol[i] = sum(sol[x] for x in outs)
    used_as_out = {x for pl in plan for x in pl[2]}
    unk = {m: [o for o in g.models[m]['objs'] if o['kind'] == 'Variable' and not o['set']] for m in g.names}
    total = sum(len(v) for v in unk.values())
    need = total - len(plan)
    spoil = R.choice([0, 0, 0, 0, 0, -1, 1])
    # equations: each unknown which is no connected input gets one, mostly
    todo = [(m, o) for m in g.names for o in unk[m] if o['base'] + '_' + m not in [pl[3] for pl in plan]]
    R.shuffle(todo)
    if spoil == -1 and todo:
        todo.pop()
    twin = spoil == 1 and R.random() < .5
    if spoil == 1 and not twin:
        m = R.choice(g.names)
        if unk[m]:
            todo.append((m, R.choice(unk[m])))
    if g.loose:
        # as many more equations as there are quantities without a value, mostly
        n = sum(1 for m in g.names for o in g.models[m]['objs'] if o['kind'] != 'Variable' and not o['set'])
        all_ = [(m, o) for m in g.names for o in unk[m]]
        for _ in range(max(0, n + R.choice([0, 0, -1, 1, -2]))):
            if all_:
                todo.append(R.choice(all_))
    for m, o in todo:
        g.addeq(m, solve=sol, uses=o)
    if twin:
        # the same equation again, under another name
        m = R.choice(g.names)
        free = [b for b in EQB if b not in [e['base'] for e in g.models[m]['eqs']]]
        if g.models[m]['eqs'] and free:
            g.models[m]['eqs'].append(dict(R.choice(g.models[m]['eqs']), base=free[0]))
    order = g.names[:]
    R.shuffle(order)
    for m in order:
        g.make(m)
        if R.random() < .5 or g.models[m]['style'] == 'declare' or wrap and m == g.names[0]:
            g.exec(m)
    if wrap:
        a, w = g.names
        rw = R.random() < .6
        g.emit(op='inc', into=w, **{'from': a}, v=True, p=True, c=True, e=True, rw=rw)
        for q, o in g.models[a]['nobj'].items():
            g.models[w]['nobj'][o['base'] + '_' + w if rw else q] = dict(o)
            if rw and q in sol:
                sol[o['base'] + '_' + w] = sol[q]
        if not rw:
            g.models[w]['kept'] = True
        p, ms = g.problem([a, w] if rw and R.random() < .3 else [w])
        sol = {q: v for q, v in sol.items() if any(q in g.models[m]['nobj'] for m in ms)}
    else:
        p, ms = g.problem(R.sample(g.names, len(g.names)))
    R.shuffle(plan)
    for m1, m2, outs, i in plan:
        g.connect(p, m1, m2, [[m1, x] for x in outs], [[m2, i]], c=-sum(sol[x] for x in outs))
    if R.random() < .2:
        g.conn(p, True)
    g.emit(op='resolve', p=p)
    g.run(p, kind, sol)
    for _ in range(n):
        k = R.random()
        if k < .45:
            g.run(p, kind, sol)
        elif k < .8:
            if g.setv(R.choice(ms) if wrap and R.random() < .7 else None, wrap):
                g.emit(op='resolve', p=p)
                g.run(p, kind, sol)
        elif k < .9:
            g.report(p)
        else:
            g.emit(op='resolve', p=p)


def program(R, profile, n):
    g = Gen(R, profile)
    if profile == 'models':
        models_program(g, n)
    elif profile == 'inc':
        models_program(g, n, True)
    elif profile == 'conn':
        if R.random() < .06:
            kinds_program(g, n)
        elif R.random() < .15:
            solve_program(g, 3, 'solve', True)
        else:
            conn_program(g, n)
    else:
        solve_program(g, max(1, n // 6), profile)
    return g.ev


def programs(seed, profile, count, length):
    return [program(random.Random('%s/%s/%d' % (seed, profile, i)), profile, random.Random('%s%d' % (seed, i)).randint(length // 2, length))
            for i in range(count)]
