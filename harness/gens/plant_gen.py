"""Random programs over the unit operation library. The generator keeps its own
rough account of values to choose samples on and next to the solution set of
the equations, and small numbers; what holds there is decided by the
specification."""
import random
from fractions import Fraction as F

BANK = {'w': (F(1, 8), 7, 3), 'wa': (F(1, 2), 2, 1), 'to': (F(1, 4), 3, 2), 'he': (F(1), 5, 4)}
STREAMS = ['HomogeneousMaterialStream', 'MaterialStream', 'MultiphasicMaterialStream']
FLOW = ['ndot_in', 'mdot_in', 'H_in', 'P_in', 'T_in']
SNAMES = ['s1', 's2', 's3', 's10', 'feed', 'S', 'in1', 'x', 'wa', 'out', 'T', 'rec', 'z', 'b7']
UNAMES = ['M', 'V1', 'V10', 'H', 'X', 'PU', 'U1', 'mix', 'A', 'D', 'K', 'in2', 'E', 'P']
PIV = {'Tank': ['P_Out'], 'Bench': ['y'], 'Drum': ['T', 'P'],
       'Valve': ['ndot_out', 'mdot_out', 'P_out', 'T_out', 'H_out', 'Qdot_out']}
DEFPIV = ['ndot_out', 'mdot_out', 'P_out', 'T_out', 'H_out']
UPARS = {'Valve': ['Delta_P', 'perc_open'], 'SimplePump': ['Delta_P'], 'Heater': ['Delta_P', 'Q'], 'Cooler': ['Delta_P', 'Q'], 'Tank': ['Q', 'area_sec']}
UNITS = ['Mixer', 'Splitter', 'Valve', 'SimplePump', 'Heater', 'Cooler']


def r(x):
    x = F(x)
    return [x.numerator, x.denominator]


SPU = ('Mixer', 'Splitter', 'SimplePump')


def flows(o):
    """what has to be given to a unit from outside"""
    l = list(FLOW)
    for q in o['sp'] if o['cls'] == 'SimplePump' else o['sp'][:-1]:
        l += ['z_%s_in' % q, 'w_%s_in' % q]
    return l


def pivots(o):
    l = list(PIV.get(o['cls'], DEFPIV))
    sp = o['sp']
    if sp:
        if o['cls'] != 'SimplePump':
            l += [k + sp[-1] + '_in' for k in ('z_', 'w_')]
        l += [k + q + '_out' for k in ('z_', 'w_') for q in sp]
    return l


def balance(o, v, f):
    cls, sp = o['cls'], o['sp']
    for q in sp:
        for k in ('z_', 'w_'):
            for d in ('_in', '_out'):
                if v == k + q + d:
                    if cls == 'SimplePump' or q != sp[-1]:
                        return f[k + q + '_in']
                    return 1 - sum(f[k + y + d] for y in sp[:-1])
    if v == 'ndot_out':
        return f['ndot_in']
    if v == 'mdot_out':
        return f['mdot_in']
    if v == 'P_out':
        return f['P_in'] + f['Delta_P'] if cls == 'SimplePump' else f['P_in'] - f['Delta_P'] if cls in ('Valve', 'Heater', 'Cooler') else f['P_in']
    if v == 'T_out':
        return f['T_in'] + f['Q'] / (f['mdot_out'] * f['cp_mix']) if cls in ('Heater', 'Cooler') else f['T_in']
    if v == 'H_out':
        h = f['ndot_in'] * f['H_in']
        return (h + f['Q'] if cls in ('Heater', 'Cooler') else h) / f['ndot_out']
    if v == 'Qdot_out':
        return f['perc_open'] * f['mdot_out'] / f['mix_rho']
    return {'P_Out': lambda: f['P_In'], 'y': lambda: 2 * f['P_in'], 'T': lambda: 2 * f['T_in'], 'P': lambda: 3 * f['P_in']}[v]()


class Gen:
    def __init__(self, R, profile):
        self.R, self.profile = R, profile
        self.ev = []
        self.c, self.k, self.x, self.u = {}, {}, {}, {}
        self.conn = set()           # streams in use: left alone

    def emit(self, **k):
        self.ev.append(k)
        return k

    def coin(self, p):
        return self.R.random() < p

    # ------------------------------------------------------------ packages
    def pkg(self, names=None):
        k = 'k%d' % len(self.k)
        names = names or (['wa'] if self.coin(.5) else [self.R.choice(['to', 'he', 'wa', 'w'])])
        self.emit(op='pkg', k=k, names=names, dflt=self.coin(.3))
        for n in names:
            self.c[k + n] = [n, 2, 9]
        self.k[k] = {n: k + n for n in names}
        return k

    def pick_pkg(self, names=None):
        c = [k for k in vis(self) if (list(self.k[k]) == names if names else len(self.k[k]) == 1)]
        if c and self.coin(.6):
            return self.R.choice(c)
        return self.pkg(names)

    def calc(self, k, t, p):
        for i in self.k[k].values():
            self.c[i][1:] = [2 if t is None else min(9, int(t // 100)), 9 if p is None else min(9, int(p // 100))]

    # ------------------------------------------------------------- objects
    def fresh(self, names):
        c = [n for n in names if n not in self.x]
        return self.R.choice(c) if c else 'q%d' % len(self.x)

    def mk(self, cls, k, names):
        x = self.fresh(names)
        self.emit(op='mk', x=x, cls=cls, k=k, show=self.coin(.5))
        pars = {}
        if cls in STREAMS:
            pars = {a: None for a in ('mdot', 'ndot', 'P', 'H', 'T')}
            if cls != STREAMS[0]:
                for n in self.k[k]:
                    one = cls == 'MaterialStream' and len(self.k[k]) == 1
                    pars['z_' + n] = pars['w_' + n] = F(1) if one else None
        elif cls in UPARS:
            pars = {a: None for a in UPARS[cls]}
        if cls in ('Heater', 'Cooler'):
            n, t, p = self.c[list(self.k[k].values())[-1]]
            pars['cp_mix'] = F(BANK[n][2] + t + 2 * p)
        self.x[x] = dict(cls=cls, k=k, sp=list(self.k[k]) if k and cls in SPU and len(self.k[k]) > 1 else [], par=pars, der='', dv=None, inp={}, built='', ins=[], outs=[])
        return x

    def setp(self, x, a, v):
        v = F(v)
        self.emit(op='set', x=x, a=a, v=r(v))
        o = self.x[x]
        o['par'][a] = v

    def small(self, lo=1, hi=9):
        v = F(self.R.randint(lo, hi))
        return v / 2 if self.coin(.2) else v

    def value(self, a):
        R = self.R
        if a == 'T':
            return F(R.choice([150, 200, 250, 300, 320, 400, 500]))
        if a == 'P':
            return F(R.choice([100, 120, 200, 250, 300, 350, 500]))
        if a == 'H':
            return self.small(-6, 12)
        if a == 'Delta_P':
            return F(R.choice([0, 5, 10, 20, 30, -10]))
        if a == 'Q':
            return F(R.choice([0, 6, 12, -12, 24, 5]))
        if a == 'perc_open':
            return F(R.choice([1, 2, 3, 4])) / 4
        return self.small()

    def call(self, x):
        self.emit(op='call', x=x)
        o = self.x[x]
        o['built'] = 'call'
        p = o['par']
        if o['cls'] in STREAMS:
            if o['k']:
                n = list(self.k[o['k']])
                kg = BANK[n[-1]][0]
                if p['mdot'] is not None and (p['ndot'] is None or (o['der'] == 'ndot' and p['ndot'] == o['dv'])):
                    p['ndot'] = p['mdot'] / kg
                    o['der'], o['dv'] = 'ndot', p['ndot']
                elif p['ndot'] is not None and (p['mdot'] is None or (o['der'] == 'mdot' and p['mdot'] == o['dv'])):
                    p['mdot'] = p['ndot'] * kg
                    o['der'], o['dv'] = 'mdot', p['mdot']
                else:
                    o['der'] = ''
                if p['T'] is not None or p['P'] is not None:
                    self.calc(o['k'], p['T'], p['P'])
        else:
            self.rho(o)

    def rho(self, o):
        if o['cls'] in ('Valve', 'Tank'):
            n, t, p = self.c[list(self.k[o['k']].values())[-1]]
            o['par']['mix_rho'] = F(BANK[n][1] + t + p)

    def stream(self, cls=None, k=None, full=True):
        cls = cls or self.R.choice(STREAMS)
        if k is None:
            k = self.pick_pkg()
        if cls == STREAMS[1] and not k:
            k = self.pick_pkg()
        x = self.mk(cls, k, SNAMES)
        multi = k and len(self.k[k]) > 1
        if full:
            if multi:
                fl = ['mdot', 'ndot']
                parts = [F(i) for i in self.R.choice([(1, 3), (2, 2), (3, 1), (4, 0)])]
                ns = list(self.k[k])
                if len(ns) > 2:
                    parts = [F(1), F(1), F(2)]
                if cls == STREAMS[0]:
                    ns = []
                for n, z in zip(ns, parts):
                    self.setp(x, 'z_' + n, z / 4)
                    self.setp(x, 'w_' + n, parts[-1 - ns.index(n)] / 4)
            else:
                fl = [self.R.choice(['mdot', 'ndot'])]
                if cls == STREAMS[2]:
                    for n in self.k[k]:
                        self.setp(x, 'z_' + n, 1)
                        self.setp(x, 'w_' + n, 1)
                if not k:
                    fl = ['mdot', 'ndot']
            l = fl + ['P', 'T', 'H']
            self.R.shuffle(l)
            for a in l:
                self.setp(x, a, self.value(a))
        else:
            for a in self.R.sample(['mdot', 'ndot', 'P', 'T', 'H'], self.R.randint(0, 4)):
                self.setp(x, a, self.value(a))
        if full or self.coin(.8):
            self.call(x)
        return x

    def stream_edit(self):
        c = [x for x in self.x if self.x[x]['cls'] in STREAMS and x not in self.conn]
        if not c:
            return self.stream(full=self.coin(.5))
        x = self.R.choice(c)
        for _ in range(self.R.randint(1, 2)):
            a = self.R.choice(['mdot', 'ndot', 'mdot', 'ndot', 'T', 'P', 'H'])
            if self.coin(.1) and self.x[x]['par'][a] is not None:
                self.setp(x, a, self.x[x]['par'][a])
            else:
                self.setp(x, a, self.value(a))
        if self.coin(.85):
            self.call(x)

    def unit(self, cls=None, k=None, build=True):
        cls = cls or self.R.choice(UNITS + ['Tank'])
        if k is None:
            k = self.pick_pkg() if cls not in ('Mixer', 'Splitter', 'SimplePump', 'Bench', 'Drum') or self.coin(.6) else ''
        x = self.mk(cls, k, UNAMES)
        for a in UPARS.get(cls, []):
            self.setp(x, a, self.value(a))
        if build:
            self.call(x)
        return x

    # ------------------------------------------------- samples and totals
    def inlets(self, o):
        if o['built'] == 'uop':
            return o['ins']
        s = []
        for l in o['inp'].values():
            s += [i for i in l if i not in s]
        return s

    def totals(self, o):
        S = [self.x[s] for s in self.inlets(o)]
        if not S:
            return {}
        t = dict(P_in=min(s['par']['P'] for s in S), T_in=min(s['par']['T'] for s in S))
        if o['built'] == 'uop':
            for a in ('mdot', 'ndot'):
                t[a + '_in'] = sum(s['par'][a] for s in S)
            for n in self.k[o['k']]:
                for q, a in (('z_', 'ndot'), ('w_', 'mdot')):
                    t[q + n] = sum(s['par'].get(q + n, F(0)) * s['par'][a] for s in S) / t[a + '_in']
        return t

    def eqs(self, x):
        o = self.x[x]
        cls = o['cls']
        tot = self.totals(o)
        piv = pivots(o)
        f = {a: v if v is not None else F(0) for a, v in o['par'].items()}
        if cls == 'Tank':
            for v in ('ndot_in', 'ndot_out', 'mdot_in', 'mdot_out', 'H_in', 'H_out', 'P_In'):
                f[v] = self.small(1, 12)
        else:
            for v in flows(o):
                f[v] = self.value(v[0]) if v[0] in 'TPH' else self.small() / (4 if v[1] == '_' else 1)
        where = self.R.choice([None] * 2 + list(tot) + piv) if self.coin(.75) else None
        d = self.R.choice([F(1), F(-1), F(1, 2), F(2)])
        for v, y in tot.items():
            f[v] = y + (d if v == where else 0)
        for v in piv:
            try:
                f[v] = balance(o, v, f) + (d if v == where else 0)
            except ZeroDivisionError:
                return
        if where in ('ndot_out', 'mdot_out') and f[where] == 0:
            return
        vals = {v: r(y) for v, y in f.items() if v not in o['par']}
        self.emit(op='eqs', x=x, vals=vals)

    def psolve(self, p, ms, fed):
        for x in ms:
            self.rho(self.x[x])
        f = self.steady(ms, fed)
        guess = {}
        if self.coin(.7):
            guess = {v: y.limit_denominator(50) + F(self.R.choice([1, -1, 0]), 8) for v, y in f.items()}
            # not beyond a pole of the balances
            guess = {v: r(g if g * f[v] > 0 or v[:4] not in ('mdot', 'ndot') else f[v].limit_denominator(10000)) for v, g in guess.items()}
        self.emit(op='psolve', p=p, guess=guess, solver=self.R.choice(['', '', 'symbolicsys']), sure=bool(guess))

    def steady(self, ms, fed):
        f = {}
        for _ in range(len(ms) + 2):
            for e in fed + fed:
                def t(s, a):
                    return self.x[s]['par'][a] if self.x[s]['cls'] in STREAMS else f[a + '_out_' + s]
                try:
                    l = [t(s, e['a']) for s in e['ss']]
                    n = [t(s, 'ndot') for s in e['ss']] if e['how'] == 'ent' else []
                    if e['how'] == 'ent' and e['a'][:2] == 'w_':
                        n = [t(s, 'mdot') for s in e['ss']]
                    y = dict(var=lambda: l[0], num=lambda: F(*e['c']) * l[0], min=lambda: min(l), sum=lambda: sum(l),
                             ent=lambda: sum(i * j for i, j in zip(l, n)) / f[('mdot' if e['a'][:2] == 'w_' else 'ndot') + '_in_' + e['u']])[e['how']]()
                    f[e['v'] + '_' + e['u']] = y
                except (KeyError, ZeroDivisionError):
                    pass
            for x in ms:
                o = self.x[x]
                for v, y in self.totals(o).items():
                    f[v + '_' + x] = y
                for v in pivots(o):
                    g = {k[:-len(x) - 1]: y for k, y in f.items() if k.endswith('_' + x)}
                    g.update(o['par'])
                    try:
                        f[v + '_' + x] = balance(o, v, g)
                    except (KeyError, ZeroDivisionError):
                        pass
        return f

    # ---------------------------------------------------------------- ports
    def inl(self, x, ss, port=None):
        port = self.R.choice(['', 'in', 'in_L', 'a', 'b']) if port is None else port
        self.emit(op='inl', x=x, ss=ss, port=port or 'in', dport=not port, single=self.coin(.5))
        o = self.x.get(x) or self.u[x]
        add = x in self.x
        if self.coin(.1):
            self.ev[-1]['ss'] = ss = ss + [ss[0]]
        l = [] if not add else list(o['inp'].get(port or 'in', []))
        for s in ss:
            if s not in l:
                l.append(s)
        o['inp'][port or 'in'] = l

    def mkuop(self, m):
        u = 'u%d' % len(self.u)
        self.emit(op='mkuop', u=u, m=m)
        self.u[u] = dict(m=m, inp={}, outp={}, done=False)
        return u

    def ures(self, u):
        o = self.u[u]
        m = self.x[o['m']]
        ins = []
        for l in o['inp'].values():
            ins += [s for s in l if s not in ins]
        outs = sorted({s for l in o['outp'].values() for s in l})
        self.emit(op='ures', u=u)
        o['done'] = True
        m['ins'], m['outs'] = ins, outs
        self.conn |= set(ins) | set(outs)
        if ins:
            pk = dict(self.k[m['k']])
            for s in ins:
                for n, i in self.k[self.x[s]['k']].items():
                    pk.setdefault(n, i)
            m['k'] = 'of ' + o['m']
            self.k_hidden = getattr(self, 'k_hidden', {})
            self.k[m['k']] = pk
        self.rho(m)
        m['built'] = 'uop'
        if len(outs) == 1:
            self.x[outs[0]]['k'] = m['k']


def vis(g):
    return [k for k in g.k if not k.startswith('of ')]


COMPS = {1: [(1,)], 2: [(F(1, 2), F(1, 2)), (F(1, 4), F(3, 4)), (F(2, 3), F(1, 3)), (1, 0), (F(1, 5), F(4, 5))],
         3: [(F(1, 4), F(1, 4), F(1, 2)), (F(1, 2), F(1, 3), F(1, 6)), (F(1, 2), 0, F(1, 2))], 4: [(F(1, 4),) * 4]}


def mix(g, k):
    """the mixture of a package, by mole, by mass, or of the composition it has already"""
    R, o = g.R, {q: r(g.value(q)) if g.coin(.6) else [] for q in 'TP'}
    if g.coin(.25):
        a = R.choice('TP')
        g.emit(op='pset', k=k, a=a, v=r(g.value(a)))
        if k not in g.mixed:
            return
    if k in g.mixed and g.mixed[k] == len(g.k[k]) and g.coin(.35):
        g.emit(op='mix', k=k, by='', f=[], **o)
    else:
        g.emit(op='mix', k=k, by=R.choice(['zs', 'ws']), f=[r(f) for f in R.choice(COMPS[len(g.k[k])])], **o)
        g.mixed[k] = len(g.k[k])


def compose(g, x):
    """the composition of a stream of several species, by mole or by mass, and one of its fluxes"""
    ns = list(g.k[g.x[x]['k']])
    q = g.R.choice(['z_', 'w_'])
    for n, f in zip(ns, g.R.choice(COMPS[len(ns)])):
        g.setp(x, q + n, f)
    if g.coin(.7):
        g.setp(x, g.R.choice(['mdot', 'ndot']), g.small())
    if g.coin(.9):
        g.call(x)


def p_streams(g, n):
    g.mixed = {}
    for _ in range(g.R.randint(1, 2)):
        g.pkg()
    if g.coin(.5):
        g.pkg(g.R.choice([['wa', 'to'], ['to', 'wa', 'he'], ['he', 'to'], ['w', 'wa']]))
    while len(g.ev) < n:
        q = g.R.random()
        many = [x for x in g.x if g.x[x]['cls'] in STREAMS[1:] and 'z_' + list(g.k[g.x[x]['k']])[-1] in g.x[x]['par'] and 1 < len(g.k[g.x[x]['k']])]
        if g.coin(.15):
            mix(g, g.R.choice(vis(g)))
            continue
        c = [k for k in vis(g) if 1 < len(g.k[k])]
        if c and g.coin(.15):
            if many and g.coin(.5):
                compose(g, g.R.choice(many))
            else:
                compose(g, g.mk(g.R.choice(STREAMS[1:]), g.R.choice(c), SNAMES))
            continue
        if q < .3:
            g.stream(full=g.coin(.4))
        elif q < .8:
            g.stream_edit()
        elif q < .88:
            k = g.R.choice(vis(g))
            ev = dict(op='calc', k=k, T=r(g.value('T')) if g.coin(.7) else [], P=r(g.value('P')) if g.coin(.7) else [])
            g.emit(**ev)
            g.calc(k, F(*ev['T']) if ev['T'] else None, F(*ev['P']) if ev['P'] else None)
        elif q < .93 and len(vis(g)) > 1:
            a, b = g.R.sample(vis(g), 2)
            if a != b:
                g.emit(op='pkadd', k=a, k2=b, how=g.R.choice(['method', 'op']))
                for m, i in g.k[b].items():
                    g.k[a].setdefault(m, i)
        else:
            g.pkg()


def p_units(g, n):
    g.pkg()
    if g.coin(.5):
        g.pkg()
    while len(g.ev) < n:
        q = g.R.random()
        built = [x for x in g.x if g.x[x]['cls'] not in STREAMS and g.x[x]['built'] == 'call']
        if q < .1:
            g.stream()
        elif q < .13:
            g.unit(g.R.choice(SPU), g.pick_pkg(g.R.choice([['wa', 'to'], ['to', 'wa', 'he'], ['he', 'to'], ['w', 'wa'], ['wa', 'w', 'to']])))
        elif q < .35 or not built:
            g.unit()
        elif q < .42:
            x = g.R.choice(built)
            if g.x[x]['cls'] in UPARS:
                a = g.R.choice(UPARS[g.x[x]['cls']])
                g.setp(x, a, g.value(a))
            g.call(x)
        elif q < .46:
            # a unit which takes P and T from inlets of its own
            k = g.pick_pkg()
            x = g.unit(g.R.choice(['Bench', 'Drum', 'Mixer', 'Heater', 'SimplePump']), k, build=False)
            for _ in range(g.R.randint(1, 2)):
                ss = [g.stream() for _ in range(g.R.randint(1, 2))]
                g.inl(x, ss)
                g.conn |= set(ss)
            g.call(x)
        else:
            g.eqs(g.R.choice(built))


def p_ports(g, n):
    g.pkg(['wa'])
    g.pkg([g.R.choice(['to', 'he', 'w'])])
    if g.coin(.4):
        g.pkg(g.R.choice([['wa', 'to'], ['w', 'wa']]))
    ss = [g.stream('MaterialStream', k=g.R.choice(vis(g))) for _ in range(g.R.randint(2, 5))]
    g.conn |= set(ss)
    def free(x):
        return g.x[x]['built'] == '' and x not in [u['m'] for u in g.u.values() if u['inp']]
    start = len(g.ev)
    for _ in range(2 * n):
        if len(g.ev) > start + 4 * n:
            break
        q = g.R.random()
        ms = [x for x in g.x if g.x[x]['cls'] in ('Bench', 'Drum', 'Mixer', 'Splitter') and g.x[x]['built'] == '']
        us = [u for u in g.u if not g.u[u]['done']]
        done = [x for x in g.x if g.x[x]['built'] and g.x[x]['cls'] not in STREAMS]
        if q < .16 or not ms:
            g.unit(g.R.choice(['Bench', 'Drum', 'Mixer', 'Splitter']), g.R.choice(vis(g)), build=False)
        elif q < .26 or not us:
            c = [m for m in ms if m not in [u['m'] for u in g.u.values()]]
            if c:
                g.mkuop(g.R.choice(c))
        elif q < .32:
            s = g.stream('MaterialStream', k=g.R.choice(vis(g)))
            g.conn.add(s)
            ss.append(s)
        elif q < .45:
            g.inl(g.R.choice(ms), g.R.sample(ss, g.R.randint(1, min(4, len(ss)))))
        elif q < .62:
            g.inl(g.R.choice(us), g.R.sample(ss, g.R.randint(1, min(4, len(ss)))))
        elif q < .68:
            u = g.R.choice(us)
            port = g.R.choice(['', 'out', 'out_L'])
            l = g.R.sample(ss, g.R.randint(1, 2))
            g.emit(op='outl', x=u, ss=l, port=port or 'out', dport=not port, single=g.coin(.5))
            g.u[u]['outp'][port or 'out'] = l
        elif q < .84:
            c = [u for u in us if g.u[u]['inp'] and not g.x[g.u[u]['m']]['inp'] and g.x[g.u[u]['m']]['built'] == '']
            if c:
                u = g.R.choice(c)
                outs = {s for l in g.u[u]['outp'].values() for s in l}
                if len(outs) == 1:
                    # the only outlet has all the species, and maybe the totals
                    o = g.u[u]
                    names = list(g.k[g.x[o['m']]['k']])
                    ins = []
                    for l in o['inp'].values():
                        ins += [s for s in l if s not in ins]
                    for s in ins:
                        names += [m for m in g.k[g.x[s]['k']] if m not in names]
                    s = g.mk('MaterialStream', g.pkg(names), SNAMES)
                    t = dict(built='uop', ins=ins, k=None)
                    g.k['tmp'] = {m: 0 for m in names}
                    t['k'] = 'tmp'
                    tot = g.totals(t)
                    del g.k['tmp']
                    for a in ['P', 'T', 'ndot', 'mdot'] + [q + m for m in names for q in ('z_', 'w_')]:
                        g.setp(s, a, tot[a if a[:2] in ('z_', 'w_') else a + '_in'])
                    g.setp(s, 'H', g.value('H'))
                    if g.coin(.3):
                        g.setp(s, g.R.choice(['P', 'T', 'ndot', 'mdot', 'z_' + names[0]]), g.small(1, 3))
                    for p in list(o['outp']):
                        g.emit(op='outl', x=u, ss=[s], port=p, dport=False, single=g.coin(.5))
                        o['outp'][p] = [s]
                    o['hout'] = s
                g.ures(u)
                g.eqs(g.u[u]['m'])
        elif q < .9:
            c = [m for m in ms if g.x[m]['inp'] and not any(u['m'] == m and u['inp'] for u in g.u.values())]
            if c:
                m = g.R.choice(c)
                g.call(m)
                g.conn |= set(g.inlets(g.x[m]))
        elif done:
            for _ in range(2):
                x = g.R.choice(done)
                before = len(g.ev)
                g.eqs(x)
                if len(g.ev) > before and len(g.x[x]['outs']) == 1 and g.coin(.8):
                    g.ev[-1]['vals']['H_in'] = r(g.x[g.x[x]['outs'][0]]['par']['H'])
                    # keep the balance over the enthalpy
                    v = g.ev[-1]['vals']
                    if 'H_out' in v and v['ndot_out'][0]:
                        f = {a: F(*y) for a, y in v.items()}
                        v['H_out'] = r(f['ndot_in'] * f['H_in'] / f['ndot_out'])


def p_plant(g, n):
    R = g.R
    while len(g.ev) < n:
        k = g.pick_pkg()
        ss = []
        units = []
        p = 'p%d' % sum(1 for e in g.ev if e['op'] == 'prob')
        if g.coin(.2):
            tank(g, p, k)
            continue
        for _ in range(R.randint(1, 3)):
            ss.append(g.stream(R.choice(STREAMS[:2]), k=k if g.coin(.7) else g.pick_pkg()))
            g.conn.add(ss[-1])
        nu = R.randint(1, 4)
        own = None
        many = g.coin(.25)
        if many:
            k = g.pick_pkg(R.choice([['wa', 'to'], ['to', 'wa', 'he'], ['w', 'wa'], ['wa', 'w']]))
            ss = [g.stream(STREAMS[1], k=k) for _ in ss]
            g.conn |= set(ss)
        for i in range(nu):
            cls = R.choice(SPU if many else ['Mixer', 'Splitter'] if i == 0 and g.coin(.5) else UNITS)
            if i == 0 and g.coin(.25):
                x = g.unit(R.choice(['Mixer', 'Splitter', 'SimplePump', 'Heater'][:3 if many else 4]) , k, build=False)
                if g.coin(.5) and all(g.x[s]['cls'] == 'MaterialStream' for s in ss) and (g.x[x]['cls'] in ('Mixer', 'Splitter') or all(list(g.k[g.x[s]['k']]) == list(g.k[k]) for s in ss)):
                    u = g.mkuop(x)
                    g.inl(u, ss)
                    g.ures(u)
                else:
                    g.inl(x, ss)
                    g.call(x)
                own = x
            else:
                x = g.unit(cls, k if many or cls not in ('Mixer', 'Splitter', 'SimplePump') or g.coin(.7) else '')
            units.append(x)
            if g.coin(.3):
                g.eqs(x)
        order = list(units)
        if g.coin(.3):
            R.shuffle(order)
        g.emit(op='prob', p=p, ms=order)
        fed = []
        for i, x in enumerate(units):
            tv = g.totals(g.x[x])
            src = [s for s in ss] if i == 0 else None
            for v in flows(g.x[x]):
                if v in tv:
                    continue
                a = v[:-3]
                if i == 0:
                    if len(ss) == 1:
                        fed.append(dict(u=x, v=v, a=a, how=R.choice(['num', 'num', 'ent' if '_' in a else 'sum']), ss=ss, c=[1, 1]))
                    else:
                        how = 'min' if a in 'PT' else 'ent' if a == 'H' or '_' in a else 'sum'
                        fed.append(dict(u=x, v=v, a=a, how=how, ss=ss, c=[1, 1]))
                elif g.coin(.15) and a in ('ndot', 'mdot'):
                    fed.append(dict(u=x, v=v, a=a, how='num', ss=[units[i - 1]], c=R.choice([[1, 2], [2, 1], [1, 1]])))
                elif i > 1 and g.coin(.2):
                    two = R.sample(units[:i], 2)
                    how = 'min' if a in 'PT' else 'ent' if a == 'H' or '_' in a else 'sum'
                    fed.append(dict(u=x, v=v, a=a, how=how, ss=two, c=[1, 1]))
                else:
                    fed.append(dict(u=x, v=v, a=a, how='var', ss=[units[i - 1]], c=[1, 1]))
        if g.coin(.3):
            R.shuffle(fed)
        if g.coin(.08):
            fed.pop(R.randrange(len(fed)))
        for f in fed:
            g.emit(op='feed', p=p, **f)
        g.psolve(p, order, fed)
        if g.coin(.4):
            x = R.choice(units)
            if g.x[x]['cls'] in UPARS:
                a = R.choice(UPARS[g.x[x]['cls']])
                g.setp(x, a, g.value(a))
                g.psolve(p, order, fed)


def tank(g, p, k):
    R = g.R
    x = g.unit('Tank', k)
    s, q = g.stream(R.choice(STREAMS[:2]), k=k), g.stream(R.choice(STREAMS[:2]), k=k)
    g.conn |= {s, q}
    # the streams have their say on the density; the tank keeps its own
    g.emit(op='prob', p=p, ms=[x])
    f = {}
    fed = []
    for v, w in (('ndot_in', s), ('mdot_in', s), ('H_in', s), ('P_In', s), ('ndot_out', q), ('mdot_out', q), ('H_out', q)):
        a = v.rsplit('_', 1)[0]
        c = F(R.choice([1, 1, 1, 2])) / R.choice([1, 1, 2])
        f[v] = c * g.x[w]['par'][a]
        fed.append(dict(u=x, v=v, a=a, how='num', ss=[w], c=r(c)))
    R.shuffle(fed)
    for e in fed:
        g.emit(op='feed', p=p, **e)
    f['P_Out'] = f['P_In']
    o = g.x[x]['par']
    ic = {v: r(g.small(0, 6)) for v in ('N', 'M', 'E', 'level')}
    for v, y in f.items():
        ic[v] = r(y)
    ic['t'] = [0, 1]
    sl = dict(N=f['ndot_in'] - f['ndot_out'], M=f['mdot_in'] - f['mdot_out'],
              E=f['ndot_in'] * f['H_in'] - f['ndot_out'] * f['H_out'] + o['Q'],
              level=(f['mdot_in'] - f['mdot_out']) / (o['mix_rho'] * o['area_sec']))
    g.emit(op='tsolve', p=p, u=x, ic=ic, sl={v: r(y) for v, y in sl.items()}, end=[R.choice([1, 2]), 1], n=R.choice([2, 4]))


PROFILES = dict(streams=p_streams, units=p_units, ports=p_ports, plant=p_plant)


def programs(seed, profile, count, length):
    out = []
    for i in range(count):
        R = random.Random('%s/%s/%s/%d' % (seed, 'plant', profile, i))
        g = Gen(R, profile)
        PROFILES[profile](g, R.randint(max(4, length // 2), length))
        out.append(g.ev)
    return out
