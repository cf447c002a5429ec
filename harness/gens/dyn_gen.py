"""Random programs about domains, options and simulations over time. The
generator writes sensible problems (it plans a polynomial trajectory and writes
equations which it satisfies); whether it is the solution is decided by the
specification."""
import random
from fractions import Fraction as F

MODELS = ['A', 'B', 'M', 'M1', 'M12', 'tank', 'A_B', 'x', 'L0']
BASES = ['u', 'v', 'w', 'x', 'y', 'x1', 'x2', 'T', 'T_in', 'a', 'b_a', 'h', 'z', 'P', 'c']
TIMES = ['t', 't', 't', 'time', 'tau', 'a0', 'zz']
PARS = ['k', 'k1', 'k11', 'q', 'rho', 'aa', 'Z']
EQB = ['eq%d' % i for i in range(12)] + ['bal', 'e_x', 'mass', 'mom']


def r(x):
    x = F(x)
    return [x.numerator, x.denominator]


class Gen:
    def __init__(self, R, profile):
        self.R, self.profile = R, profile
        self.ev = []
        self.tok = {}

    def emit(self, **k):
        self.ev.append(k)
        return k

    # ------------------------------------------------------------- options
    def t_num(self, x):
        s = repr(float(x))
        self.tok[s] = r(x)
        return s

    def t_int(self, n):
        self.tok[str(n)] = [n, 1]
        return str(n)

    def t_nums(self, l):
        s = 'nums:' + ','.join(repr(float(x)) for x in l)
        self.tok[s] = [r(x) for x in l]
        return s

    def t_list(self, l):
        s = 'list:' + ','.join(l)
        self.tok[s] = list(l)
        return s

    def t_map(self, d):
        s = 'map:' + ','.join('%s=%s' % kv for kv in sorted(d.items()))
        self.tok[s] = dict(d)
        return s

    def t_dom(self, d):
        self.tok['d:' + d] = d
        return 'd:' + d

    def anyopt(self, k, file=False):
        """some value of an option"""
        R = self.R
        if k == 'compile_equations' or k == 'is_dynamic' or k == 'print_output':
            return R.choice(['true', 'false'])
        if k == 'domain':
            return self.t_dom(R.choice(self.doms)) if self.doms and R.random() < .8 else 'null'
        if k in ('initial_time', 'end_time'):
            return self.t_num(R.choice([F(0), F(1), F(1, 2), F(2), F(-1), F(10)]))
        if k == 'time_variable_name':
            return self.t_list(R.sample(['t_A', 't_B', 'tau'], R.randint(1, 2)))
        if k == 'arg_names' or k == 'args':
            return self.t_list(R.sample(['a', 'b', 'cc'], R.randint(0, 2)))
        if k in ('initial_guess', 'configuration_args'):
            return self.t_map({n: repr(float(R.choice([1, 2, .5]))) for n in R.sample(['x_A', 'y_A', 'z'], R.randint(0, 2))})
        if k == 'variable_name_map':
            return self.t_map({n: n + '2' for n in R.sample(['x_A', 'y_A', 'z'], R.randint(0, 2))})
        if k == 'linear_solver':
            return 's:' + R.choice(['symbolicsys', 'sympy', 'scipy'])
        if k == 'nonlinear_solver':
            return 's:' + R.choice(['symbolicsys', '*', 'sympy'])
        if k == 'differential_solver':
            return 's:' + R.choice(['ODEINT', 'CVODE'])
        if k == 'differential_algebraic_solver':
            return 's:IDA'
        if k == 'initial_guess_solver':
            return R.choice(['null', 's:de'])
        if k == 'problem_type':
            return R.choice(['null', 's:linear'])
        if k == 'verbosity_solver':
            return self.t_int(R.choice([0, 1, 2]))
        if k in ('number_of_time_steps',):
            return self.t_int(R.choice([1, 2, 5, 10, 100, 3]))
        if k == 'number_parameters_to_optimize':
            return self.t_int(R.choice([0, 1, 2]))
        if k == 'output_headers':
            return self.t_list(R.sample(['time', 'a', 'b', 'cc'], R.randint(1, 4)))
        if k == 'compilation_mechanism':
            return 's:' + R.choice(['numpy', 'sympy'])
        if k == 'times_for_solution':
            return self.t_nums(sorted(R.sample([F(0), F(1, 2), F(1), F(3, 2), F(2), F(3)], R.randint(1, 4))))
        raise KeyError(k)

    OPTS = ['compile_equations', 'domain', 'time_variable_name', 'initial_time', 'end_time', 'is_dynamic', 'arg_names', 'initial_guess', 'initial_guess_solver',
            'linear_solver', 'nonlinear_solver', 'differential_solver', 'differential_algebraic_solver', 'problem_type', 'args', 'verbosity_solver',
            'number_of_time_steps', 'configuration_args', 'print_output', 'output_headers', 'variable_name_map', 'compilation_mechanism',
            'times_for_solution']

    def layers(self, want, s, decoys=True):
        """options with the effective values `want`, given somehow"""
        R = self.R
        expl, dict_, file = {}, {}, {}
        mode = R.choice(['expl', 'dict', 'file', 'mix', 'mix', 'expl'])
        for k, v in want.items():
            j = R.choice(['expl', 'dict', 'file']) if mode == 'mix' else mode
            if k == 'domain' and j == 'file':
                j = 'expl'
            if k == 'number_parameters_to_optimize' and j == 'dict':
                j = 'expl'
            {'expl': expl, 'dict': dict_, 'file': file}[j][k] = v
            if decoys and j in ('expl', 'dict') and k != 'domain' and R.random() < .2:
                file[k] = self.anyopt(k)
            if decoys and j == 'dict' and k != 'number_parameters_to_optimize' and R.random() < .2:
                expl[k] = self.anyopt(k)
        f = ''
        if file or R.random() < .05:
            f = R.choice(['f', 'g'])
            self.emit(op='write', f=f, opts=file)
        items = lambda d: dict(R.sample(list(d.items()), len(d)))
        self.emit(op='conf', s=s, expl=items(expl), dict=items(dict_), file=f)

    # ------------------------------------------------------------- domains
    def p_domain(self, length):
        R = self.R
        names = R.sample(['t', 't1', 's', 'x', 'u', 'v', 'uu', 'u_v', 'w', 'aa'], R.randint(5, 8))
        self.emit(op='vars', names=names)
        nd = R.randint(1, 3)
        D = {}
        for d in R.sample(['D', 'E', 'dom', 'dom1'], nd):
            inds = R.sample(names[:3], R.choice([1, 1, 1, 2]))
            self.emit(op='dom', d=d, inds=inds, how='single' if len(inds) == 1 and R.random() < .6 else 'list')
            D[d] = dict(inds=inds, deps=[], tabs=None)
        base = [0]

        def stamp():
            base[0] += 1
            return F(base[0]) + R.choice([F(0), F(1, 2), F(1, 4)])
        cols = lambda d: D[d]['inds'] + D[d]['deps']
        for _ in range(length):
            d = R.choice(list(D))
            X = D[d]
            k = R.random()
            if k < .22 or not X['deps']:
                v = R.choice(names[3:])
                if v not in X['deps']:
                    X['deps'].append(v)
                X['tabs'] = {i: cols(d) for i in X['inds']}
                self.emit(op='dist', d=d, v=v)
            elif k < .6:
                ind = R.choice([''] + X['inds'] + (['w'] if R.random() < .05 else []))
                w = len(cols(d)) + (R.choice([-1, 1]) if R.random() < .1 else 0)
                n = R.choice([1, 1, 2, 3])
                self.emit(op='reg', d=d, ind=ind if ind in names else '', rows=[[r(stamp()) for _ in range(w)] for _ in range(n)], arr=R.random() < .5)
            elif k < .66:
                X['tabs'] = {i: cols(d) for i in X['inds']}
                self.emit(op='dreset', d=d)
            elif k < .7:
                sub = R.sample(X['inds'], R.randint(1, len(X['inds']))) if R.random() < .5 else []
                X['tabs'] = {i: cols(d) for i in (sub or X['inds'])}
                self.emit(op='call', d=d, inds=sub)
            elif k < .76:
                x = R.choice(cols(d))
                mp = {x: x + '_new'}
                if R.random() < .3:
                    mp['nothing'] = 'zip'
                if len(cols(d)) > 1 and R.random() < .35:
                    # two names exchanged, or passed on
                    x, y = R.sample(cols(d), 2)
                    mp = {x: y, y: R.choice([x, x, y + '_new'])}
                tabs = {i: [mp.get(c, c) for c in cs] for i, cs in X['tabs'].items()}
                if any(len(set(cs)) < len(cs) for cs in tabs.values()):
                    continue
                X['tabs'] = tabs
                self.emit(op='ren', d=d, map=mp)
            else:
                ind = R.choice(list(X['tabs']))
                cs = X['tabs'][ind]
                hs = R.sample(cs, R.randint(1, len(cs)))
                if R.random() < .08:
                    hs = ['nothere']
                if R.random() < .25:
                    self.plot(d, X['inds'][0] if R.random() < .8 else ind, X['tabs'])
                inds = [ind]
                if len(X['tabs']) > 1 and R.random() < .4:
                    inds = R.sample(list(X['tabs']), 2)
                self.emit(op='get', d=d, inds=inds, heads=hs, single=len(inds) == len(hs) == 1 and R.random() < .7)

    def plot(self, d, ind, tabs):
        R = self.R
        if ind not in tabs:
            return
        cs = tabs[ind]
        how = R.choice(['name', 'name', 'array', 'list'])
        xs = R.sample(cs, 1 if how == 'name' or R.random() < .8 else min(2, len(cs)))
        ys = R.sample(cs, R.randint(1, min(3, len(cs))))
        if R.random() < .05:
            ys = ['nothere']
        self.emit(op='plot', d=d, ind=ind, how=how, xs=xs, ys=ys, via=R.choice(['plotter', 'sim']),
                  labels=R.sample(['one', 'two', 'three', 'u'], len(ys)) if R.random() < .6 else [],
                  markers=R.sample(['o', 's', '^', 'x'], len(ys)) if R.random() < .3 else [],
                  axes=R.choice([[], ['time (s)', 'level']]), legend=R.random() < .4,
                  file=R.choice(['', 'a.png', 'b.png']), show=R.random() < .6)

    # ------------------------------------------------------ configurations
    def p_conf(self, length):
        R = self.R
        self.emit(op='vars', names=['t', 'u'])
        self.doms = R.sample(['D', 'E'], R.randint(1, 2))
        for d in self.doms:
            self.emit(op='dom', d=d, inds=['t'], how='single')
            self.emit(op='dist', d=d, v='u')
        sims = R.sample(['s', 'r', 's1'], R.randint(1, 3))
        for s in sims:
            self.emit(op='sim', s=s)
        files, done = [], []

        def some(file=False):
            ks = [k for k in R.sample(self.OPTS, R.choice([0, 1, 1, 2, 3, 6, 12])) if not (file and k == 'domain')]
            return {k: self.anyopt(k) for k in ks}
        for _ in range(length):
            k = R.random()
            s = R.choice(sims)
            if k < .2:
                f = R.choice(['f', 'g', 'h'])
                self.emit(op='write', f=f, opts=some(True))
                files.append(f)
            elif k < .3 and done:
                f = R.choice(['f', 'g', 'h'])
                self.emit(op='dump', s=R.choice(done), f=f)
                files.append(f)
            elif k < .37:
                self.emit(op='sreset', s=s)
            else:
                e = some()
                if R.random() < .1:
                    e['number_parameters_to_optimize'] = self.anyopt('number_parameters_to_optimize')
                self.emit(op='conf', s=s, expl=e, dict=some() if R.random() < .4 else {}, file=R.choice(files) if files and R.random() < .5 else '')
                done.append(s)

    # ------------------------------------------------------- dynamic problems
    def plan(self, dae, alg=False):
        """models with a planned trajectory"""
        R = self.R
        nm = R.choice([1, 1, 1, 2, 2]) if not alg else 1
        while True:
            ms = R.sample(MODELS, nm)
            bases = R.sample(BASES, 6)
            tb = R.choice(TIMES)
            pb = R.sample(PARS, 3)
            q = [b + '_' + m for b in bases + [tb] + pb for m in ms]
            if len(set(q)) == len(q) and not set(ms) & set(bases + pb + [tb]) and len(set(bases + pb + [tb])) == len(bases) + 4:
                break
        self.ms, self.tb = ms, tb
        self.one_t = False
        self.t0 = R.choice([F(0), F(0), F(0), F(1), F(1, 2), F(-1)]) if not alg else F(0)
        self.vars, self.pars = [], {}
        self.f = {}
        self.M = {m: dict(objs=[], eqs=[]) for m in ms}
        self.dae = dae
        self.nonlin = alg and R.random() < .4
        # a simple problem has its solution found by iteration, for any values
        # of the parameters; otherwise it is planned
        self.simple = R.random() < (.5 if self.profile != 'rerun' else .8)
        eqb = R.sample(EQB, len(EQB))
        owner = {}
        for m in ms:
            for b in pb[:R.randint(1, 3)]:
                v = R.choice([F(1), F(2), F(-1), F(1, 2), F(3)])
                kind = R.choice(['p', 'p', 'c'])
                self.pars[b + '_' + m] = (m, v, kind)
                self.M[m]['objs'].append(dict(name=b + '_' + m, base=b, kind=kind, set=r(v), exp=''))
        n = R.randint(1, 3) if nm == 1 else R.randint(2, 4)
        if dae or self.nonlin:
            n = max(n, 2)
        for i in range(n):
            m = ms[i % nm]
            b = bases[i]
            self.vars.append((m, b + '_' + m, b))
        diff = len(self.vars) if not dae else R.randint(1, len(self.vars) - 1)
        if alg:
            diff = 0
        self.diff = self.vars[:diff]
        # in what order the variables depend on each other
        order = self.vars[:]
        R.shuffle(order)
        self.exposed = {}
        k = 0
        for i, (m, x, b) in enumerate(order):
            isd = (m, x, b) in self.diff
            before = [y for y in order[:i] if y[0] == m]
            t, extra = self.simple_rhs(m, before, isd, alg)
            e = dict(base=eqb[k])
            k += 1
            X, rhs = ['q', m, x], t
            if isd:
                lhs = ['d', m, x, self.tb + '_' + self.tm(m)]
            else:
                lhs = X
            form = R.random()
            if isd and not dae:
                e.update(two=True, l=lhs, r=rhs)
            elif form < .5:
                e.update(two=True, l=lhs, r=rhs)
            elif form < .65:
                e.update(two=True, l=rhs, r=lhs)
            elif form < .85:
                e.update(two=False, l=['sub', lhs, rhs], r=[])
            else:
                e.update(two=False, l=['mul', ['num', r(R.choice([2, -1, F(1, 2)]))], ['sub', rhs, lhs]], r=[])
            e.update(x=x, rhs=rhs, dif=isd)
            self.M[m]['eqs'].append(e)
        # links between models
        self.conns = []
        if nm == 2 and R.random() < .7:
            a, b = R.sample(ms, 2)
            src = [v for v in self.vars if v[0] == a]
            if src:
                s = R.choice(src)
                free = [x for x in bases if x + '_' + b not in [v[1] for v in self.vars]]
                z = R.choice(free)
                into = (b, z + '_' + b, z)
                self.exposed[s[1]] = 'output'
                self.exposed[into[1]] = 'input'
                self.conns.append((a, b, s, into))
                # and something which uses it
                y = R.choice([x for x in bases if x + '_' + b not in [v[1] for v in self.vars] and x != z])
                w = (b, y + '_' + b, y)
                c = self.num()
                usesd = R.random() < .5 or not dae
                isd = usesd
                # a connection is an algebraic equation
                self.dae = True
                rhs = ['add', ['mul', ['num', r(c)], ['q', b, into[1]]], self.tpoly(b, 1) if R.random() < .5 and not alg else ['num', r(self.num())]]
                e = dict(base=eqb[k], two=True, l=['d', b, w[1], self.tb + '_' + self.tm(b)] if isd else ['q', b, w[1]], r=rhs, x=w[1], rhs=rhs, dif=isd)
                self.M[b]['eqs'].append(e)
                self.vars += [into, w]
                if isd:
                    self.diff.append(w)
        for m, x, b in self.vars:
            self.M[m]['objs'].append(dict(name=x, base=b, kind='v', set=[], exp=self.exposed.get(x, '')))
        if not alg:
            for m in ms:
                if not self.one_t or m == ms[0]:
                    self.M[m]['objs'].append(dict(name=tb + '_' + m, base=tb, kind='v', set=[], exp=''))
        self.tv = [tb + '_' + m for m in ms if (not self.one_t or m == ms[0])] if not alg else []
        for m in ms:
            R.shuffle(self.M[m]['objs'])
            R.shuffle(self.M[m]['eqs'])

    def tm(self, m):
        return m

    def num(self):
        return self.R.choice([F(1), F(2), F(-1), F(1, 2), F(3), F(-2), F(3, 2)])

    def tpoly(self, m, deg):
        R = self.R
        t = ['q', m, self.tb + '_' + m]
        k = R.random()
        if deg >= 2 and k < .3:
            return R.choice([['mul', t, t], ['pow', t, [2, 1]], ['mul', ['num', r(self.num())], ['pow', t, [2, 1]]]])
        return R.choice([t, ['mul', ['num', r(self.num())], t], ['add', t, ['num', r(self.num())]], ['div', t, ['num', [2, 1]]]])

    def simple_rhs(self, m, before, isd, alg):
        R = self.R
        terms = []
        ps = [n for n, (mm, v, kd) in self.pars.items() if mm == m]
        for _, y, _ in R.sample(before, min(len(before), R.randint(0, 2))):
            t = ['q', m, y]
            k = R.random()
            if k < .3:
                t = ['mul'] + R.sample([['q', m, R.choice(ps)], t], 2)
            elif k < .5:
                t = ['mul', ['num', r(self.num())], t]
            elif k < (.8 if alg and self.nonlin else .6) and (not alg or self.nonlin):
                t = ['mul', t, t] if R.random() < .5 else ['pow', t, [2, 1]]
            elif k < .7:
                t = ['div', t, ['q', m, R.choice(ps)]]
            terms.append(t)
        if not alg and R.random() < .5:
            terms.append(self.tpoly(m, 2))
        if R.random() < .5:
            terms.append(['q', m, R.choice(ps)])
        if not terms or R.random() < .3:
            terms.append(['num', r(self.num())])
        R.shuffle(terms)
        e = terms[0]
        for t in terms[1:]:
            e = [R.choice(['add', 'add', 'sub']), e, t]
        return e, None

    # planned (coupled, possibly nonlinear) systems
    def couple(self):
        # not so unstable that the tolerance of a solver matters
        while True:
            self.plan_couple()
            if self.growth <= 4:
                return

    def plan_couple(self):
        """replaces right hand sides by ones which the planned trajectory
        satisfies"""
        R = self.R
        m = self.ms[0]
        f = {}
        for _, x, _ in self.vars:
            d = R.choice([0, 1, 1, 2, 2])
            f[x] = [R.choice([F(0), F(1), F(-1), F(2), F(1, 2)]) for _ in range(d)] + [R.choice([F(1), F(-1), F(2), F(1, 2)])]
        self.f = f
        T = ['q', m, self.tb + '_' + m]
        eqs = []
        eqb = R.sample(EQB, len(EQB))
        names = [x for _, x, _ in self.vars]
        dn = {x for _, x, _ in self.diff}
        big = {x: max(abs(at(f[x], self.t0 + F(k, 4))) for k in range(9)) for x in f}
        rate, sens = F(0), F(1)
        for i, x in enumerate(names):
            isd = x in dn
            X = ['q', m, x]
            if isd:
                # x' = f' + sum c (y - f_y) + c (y z - f_y f_z)
                pol = dif(f[x])
                e, row = None, F(0)
                for _ in range(R.randint(1, 2)):
                    c = R.choice([F(1), F(-1), F(1, 2), F(-1, 2), F(-2)])
                    y = R.choice(names)
                    if R.random() < .35:
                        z = R.choice(names)
                        t = ['mul', ['num', r(c)], ['mul', ['q', m, y], ['q', m, z]]]
                        pol = sub(pol, scale(mulp(f[y], f[z]), c))
                        row += abs(c) * (big[y] + big[z])
                    else:
                        t = ['mul', ['num', r(c)], ['q', m, y]]
                        pol = sub(pol, scale(f[y], c))
                        row += abs(c)
                    e = t if e is None else ['add', e, t]
                rate = max(rate, row)
                rhs = ['add', e, self.poly(T, pol)] if R.random() < .5 else ['add', self.poly(T, pol), e]
                lhs = ['d', m, x, T[2]]
                if self.dae and R.random() < .3:
                    eqs.append(dict(base=eqb[i], two=False, l=['sub', lhs, rhs], r=[], x=x, rhs=rhs, dif=True))
                else:
                    eqs.append(dict(base=eqb[i], two=True, l=lhs, r=rhs, x=x, rhs=rhs, dif=True))
            else:
                # strictly monotone in x, coupled to the differential ones
                pol, l, slope = [], None, F(1)
                if R.random() < .4 and len(f[x]) <= 2:
                    l = ['add', ['pow', X, [3, 1]], X]
                    pol = addp(mulp(f[x], mulp(f[x], f[x])), f[x])
                else:
                    c = R.choice([F(1), F(2), F(-1), F(1, 2)])
                    l = ['mul', ['num', r(c)], X]
                    pol = scale(f[x], c)
                    slope = abs(c)
                y = R.choice(sorted(dn))
                g = R.choice([F(1), F(-1), F(2)])
                if R.random() < .3:
                    l = ['add', l, ['mul', ['num', r(g)], ['mul', ['q', m, y], ['q', m, y]]]]
                    pol = addp(pol, scale(mulp(f[y], f[y]), g))
                    sens = max(sens, abs(g) * 2 * big[y] / slope)
                else:
                    l = ['add', l, ['mul', ['num', r(g)], ['q', m, y]]]
                    pol = addp(pol, scale(f[y], g))
                    sens = max(sens, abs(g) / slope)
                if R.random() < .5:
                    e = dict(two=True, l=l, r=self.poly(T, pol))
                else:
                    e = dict(two=False, l=['sub', l, self.poly(T, pol)], r=[])
                eqs.append(dict(base=eqb[i], x='', rhs=['num', [0, 1]], dif=False, **e))
        R.shuffle(eqs)
        self.growth = rate * sens * 2
        self.M[m]['eqs'] = eqs

    def poly(self, T, c):
        e = None
        for i, a in enumerate(c):
            if a == 0:
                continue
            t = ['num', r(a)] if i == 0 else (T if a == 1 else ['mul', ['num', r(a)], T]) if i == 1 else ['mul', ['num', r(a)], ['pow', T, [i, 1]]]
            e = t if e is None else ['add', e, t]
        return e or ['mul', ['num', [0, 1]], T]

    def ics(self, jitter=False):
        R = self.R
        items = []
        for t in self.tv:
            items.append((t, r(self.t0)))
        dn = {x for _, x, _ in self.diff}
        for _, x, _ in self.vars:
            if x in self.f:
                v = at(self.f[x], self.t0)
                if jitter and x in dn and R.random() < .5:
                    v += 1
            else:
                v = R.choice([F(0), F(1), F(-1), F(2), F(1, 2)])
            items.append((x, r(v)))
        R.shuffle(items)
        slopes = {}
        for _, x, _ in self.diff:
            slopes[x + '_d'] = r(at(dif(self.f[x]), self.t0)) if x in self.f else r(R.choice([F(0), F(1)]))
        return dict(items), slopes if (self.dae or R.random() < .1) else {}

    def problem(self, dae, alg=False):
        R = self.R
        self.plan(dae, alg)
        if not self.simple and not alg and len(self.ms) == 1:
            self.couple()
        self.need_t()
        for m in self.ms:
            self.emit(op='dmodel', m=m, objs=self.M[m]['objs'], eqs=self.M[m]['eqs'])
        self.doms = []
        if not alg:
            for d in R.sample(['D', 'E'], R.randint(1, 2)):
                self.emit(op='dom', d=d, inds=[self.tv[0]], how='single')
                vs = [x for _, x, _ in self.vars]
                R.shuffle(vs)
                if self.doms and R.random() < .08 and len(vs) > 1:
                    vs = vs[1:]
                for v in vs:
                    self.emit(op='dist', d=d, v=v)
                self.doms.append(d)
        order = R.sample(self.ms, len(self.ms))
        self.emit(op='dprob', p='p', ms=order, tv=R.sample(self.tv, len(self.tv)), single=R.random() < .3)
        for a, b, s, into in self.conns:
            self.emit(op='dconn', p='p', m1=a, m2=b, **{'from': ['q', a, s[1]], 'into': ['q', b, into[1]]})
        self.emit(op='dresolve', p='p')
        if not alg:
            c, s = self.ics()
            self.emit(op='ic', p='p', conds=c, slopes=s)
        self.sims = R.sample(['s', 'r', 's1'], R.choice([1, 1, 2]) if self.profile != 'rerun' else R.choice([2, 2, 3]))
        for s in self.sims:
            self.emit(op='sim', s=s)
            self.emit(op='setprob', s=s, p='p')

    def need_t(self):
        if self.one_t:
            # the time of the first model, everywhere
            m0 = self.ms[0]

            def fix(t):
                if t and t[0] == 'q' and t[2] == self.tb + '_' + t[1]:
                    return ['q', m0, self.tb + '_' + m0]
                if t and t[0] == 'd':
                    return ['d', t[1], t[2], self.tb + '_' + m0]
                return [fix(x) if isinstance(x, list) else x for x in t]
            for m in self.ms:
                for e in self.M[m]['eqs']:
                    for k in ('l', 'r', 'rhs'):
                        e[k] = fix(e[k])

    def dynconf(self, s):
        R = self.R
        w = dict(domain=self.t_dom(R.choice(self.doms)))
        end = self.t0 + R.choice([F(1), F(1), F(2), F(1, 2)])
        if R.random() < .25:
            pts = sorted({self.t0} | {self.t0 + R.choice([F(1, 4), F(1, 2), F(1), F(3, 4), F(3, 2)]) for _ in range(3)})
            w['times_for_solution'] = self.t_nums(pts)
            if R.random() < .8 or self.t0 != 0:
                w['initial_time'] = self.t_num(self.t0)
            w['end_time'] = self.t_num(pts[-1])
        else:
            if self.t0 != 0 or R.random() < .7:
                w['initial_time'] = self.t_num(self.t0)
            w['end_time'] = self.t_num(end)
            if R.random() < .92:
                w['number_of_time_steps'] = self.t_int(R.choice([1, 2, 4, 5]))
        if R.random() < .75:
            w['is_dynamic'] = 'true'
        if 'is_dynamic' not in w or R.random() < .3:
            w['time_variable_name'] = self.t_list(self.tv)
        w['differential_solver'] = 's:' + R.choice(['ODEINT', 'CVODE', 'ODEINT'])
        if R.random() < .4:
            del w['differential_solver']
        if R.random() < .5:
            w['compile_equations'] = R.choice(['true', 'false'])
        if R.random() < .3:
            k = R.choice([x for _, x, _ in self.vars] + [self.tv[0]])
            w['variable_name_map'] = self.t_map({k: k + '_new'})
        if R.random() < .4:
            w['output_headers'] = self.t_list(['time'] + ['c%d' % i for i in range(len(self.vars))])
            if R.random() < .3:
                w['print_output'] = 'true'
        k = R.random()
        if k < .03:
            w.pop('domain')
        elif k < .06:
            w.pop('end_time')
            w.pop('times_for_solution', None)
        elif k < .08:
            w.update(differential_solver='s:EULER', differential_algebraic_solver='s:EULER')
        elif k < .1:
            w.pop('is_dynamic', None)
            w.pop('time_variable_name', None)
        self.layers(w, s)
        self.cur[s] = w

    def p_dyn(self, length, dae):
        R = self.R
        self.cur = {}
        self.problem(dae)
        for s in self.sims:
            self.dynconf(s)
        self.ran = {}
        stale = False
        while len(self.ev) < length + 12:
            s = R.choice(self.sims)
            k = R.random()
            if s not in self.ran and k < .7 or k < .3:
                if stale:
                    self.emit(op='dresolve', p='p')
                    stale = False
                self.run(s)
            elif k < .5:
                if s in self.ran:
                    self.emit(op='results', s=s, type=R.choice(['list', 'dict', 'dict']))
                    if R.random() < .25:
                        self.plot(R.choice(self.doms), self.tv[0], {self.tv[0]: [x + R.choice(['', '', '', '_new']) for x in [self.tv[0]] + [x for _, x, _ in self.vars]]})
                    if R.random() < .3 and 'output_headers' in self.cur[s]:
                        self.emit(op='show', s=s)
            elif k < .62 and self.profile == 'rerun' or k < .52:
                ps = [(n, x) for n, x in self.pars.items()]
                n, (m, v, kd) = R.choice(ps)
                self.emit(op='setp', m=m, n=n, num=r(R.choice([F(1), F(2), F(3), F(-1), F(1, 2), F(3, 2)])))
                stale = R.random() < .9
                if R.random() < .3:
                    self.emit(op='dresolve', p='p')
                    stale = False
            elif k < .7:
                c, sl = self.ics(True)
                if R.random() < .2:
                    c.pop(R.choice(list(c)))
                self.emit(op='ic', p='p', conds=c, slopes=sl)
            elif k < .82:
                self.dynconf(s)
            elif k < .88:
                self.emit(op='sreset', s=s)
            elif k < .92:
                self.emit(op='dresolve', p='p')
                stale = False
            elif k < .94:
                self.emit(op='results', s=s, type=R.choice(['table', 'dict']))
            elif k < .96:
                self.emit(op='dreset', d=R.choice(self.doms))
            else:
                self.emit(op='dump', s=s, f='h')
                if R.random() < .6:
                    q = R.choice(self.sims)
                    w = self.cur[s]
                    self.emit(op='conf', s=q, expl=dict(domain=w['domain']) if 'domain' in w else {}, dict={}, file='h')
                    self.cur[q] = dict(w)

    def run(self, s):
        wit = {k: [r(x) for x in trim(v)] for k, v in self.f.items()}
        self.emit(op='run', s=s, wit=wit, show=self.R.random() < .3, limit=30)
        self.ran[s] = True

    # ---------------------------------------------------- algebraic problems
    def p_alg(self, length):
        R = self.R
        self.cur = {}
        self.problem(False, True)
        self.ran = {}

        def conf(s):
            w = {}
            for k in ('linear_solver', 'nonlinear_solver', 'compile_equations', 'initial_guess_solver'):
                if R.random() < .4 and k != 'initial_guess_solver':
                    w[k] = self.anyopt(k)
            q = R.random()
            if q < .36:
                # a mechanism which does not exist, for one or for both kinds of problem
                bad = ('linear_solver', 'nonlinear_solver') if q < .06 else ('linear_solver',) if q < .18 else ('nonlinear_solver',)
                for k in ('linear_solver', 'nonlinear_solver'):
                    if k in bad:
                        w[k] = 's:simplex'
                    elif R.random() < .8:
                        w[k] = self.anyopt(k)
            self.layers(w, s)
        for s in self.sims:
            conf(s)
        while len(self.ev) < length + 8:
            s = R.choice(self.sims)
            k = R.random()
            if k < .35:
                self.run(s)
            elif k < .55:
                self.emit(op='results', s=s, type=R.choice(['list', 'dict', 'dict'])) if s in self.ran else None
            elif k < .75:
                n, (m, v, kd) = R.choice(list(self.pars.items()))
                self.emit(op='setp', m=m, n=n, num=r(R.choice([F(1), F(2), F(3), F(-1), F(1, 2)])))
                if R.random() < .9:
                    self.emit(op='dresolve', p='p')
            elif k < .85:
                conf(s)
            elif k < .93:
                self.emit(op='sreset', s=s)
            else:
                self.emit(op='dresolve', p='p')

    def program(self, length):
        p = self.profile
        self.doms = []
        if p == 'domain':
            self.p_domain(length)
        elif p == 'conf':
            self.p_conf(length)
        elif p == 'alg':
            self.p_alg(length)
        else:
            self.p_dyn(length, {'ode': False, 'dae': True}.get(p, self.R.random() < .4))
        self.tok.update({'0.0': [0, 1], '100': [100, 1], 'map:': {}, 'list:': [], 'null': []})
        return [dict(op='env', tok=self.tok)] + self.ev


def trim(a):
    a = list(a)
    while a and a[-1] == 0:
        a.pop()
    return a


def dif(a):
    return [i * x for i, x in enumerate(a)][1:]


def addp(a, b):
    n = max(len(a), len(b))
    g = lambda c, i: c[i] if i < len(c) else F(0)
    return [g(a, i) + g(b, i) for i in range(n)]


def scale(a, c):
    return [c * x for x in a]


def sub(a, b):
    return addp(a, scale(b, -1))


def mulp(a, b):
    res = [F(0)] * max(len(a) + len(b) - 1, 0)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            res[i + j] += x * y
    return res


def at(a, t):
    return sum((x * t ** i for i, x in enumerate(a)), F(0))


def programs(seed, profile, count, length):
    R = random.Random('%s/%s/%s' % (seed, profile, length))
    out = []
    for _ in range(count):
        out.append(Gen(random.Random(R.random()), profile).program(length))
    return out
