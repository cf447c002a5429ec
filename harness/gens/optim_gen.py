"""Random optimisation studies."""
import random

F = [[-2, 1], [-3, 2], [-1, 1], [-1, 2], [-1, 5], [0, 1], [1, 5], [1, 2], [1, 1], [3, 2], [2, 1], [5, 2], [3, 1]]
LOWEST = dict(de=5, pso=2, sade=7, ga=6)


class Gen:
    def __init__(self, R, prof):
        self.R, self.prof, self.ev = R, prof, []
        self.m, self.s, self.q, self.o = {}, {}, {}, {}

    def coin(self, p):
        return self.R.random() < p

    def emit(self, **kw):
        self.ev.append(kw)

    def model(self, m, k):
        R = self.R
        c = [R.choice([-2, -1, 1, 2, 3]), R.choice([-3, -2, 1, 2]), R.choice([0, 0, 1, -1]), R.choice([-2, 1, 2, 3]), R.choice([-1, 0, 1, 2])]
        while c[0] == c[1]:
            c[1] = R.choice([-3, -2, 1, 2])
        v = [R.choice(F) if self.coin(.75) else [] for _ in 'ab']
        self.m[m] = dict(k=k, v=dict(a=v[0], b=v[1]))
        self.emit(op='model', m=m, k=k, c=c, a=v[0], b=v[1], swap=self.coin(.3))

    def sim(self, s, ms, conf=True):
        R = self.R
        self.s[s] = dict(ms=ms, conf=conf)
        self.emit(op='sim', s=s, ms=ms, end=R.choice([[1, 1], [2, 1], [1, 2]]), n=R.choice([3, 5, 9]), conf=conf)

    def span(self):
        a, b = sorted(self.R.sample(F, 2), key=lambda r: r[0] / r[1])
        return [a, b]

    def prob(self, q, s, pars, bounded, ready=True):
        R = self.R
        outs = ['%s_%s' % (v, m) for m in self.s[s]['ms'] for v in 'yz']
        obj = [[v, R.choice([-2, -1, 1, 2, 3]), 1] for v in R.sample(outs, R.randint(1, min(3, len(outs))))]
        if self.coin(.5):
            obj[0][2], obj[0][1] = 2, R.choice([1, -1])
        self.q[q] = dict(pars=pars, s=s, ready=ready, bounded=bounded)
        self.emit(op='oprob', q=q, pars=pars, obj=obj, how=R.choice(['obj', 'name']), bounds=[self.span() for _ in pars] if bounded else [],
                  bform=R.choice(['tuple', 'list', 'set'] + (['flat'] * 2 if len(pars) == 1 else [])), max=self.coin(.3), ready=ready)

    def cons(self, pars, allow_none):
        R = self.R
        forms = ['tuple', 'list', 'dict', 'dict'] + (['flat'] * 2 if len(pars) == 1 else []) + (['none'] * 3 if allow_none else [])
        f = R.choice(forms)
        c = dict(form=f, names=[], b=[])
        if f == 'none':
            return c
        c['b'] = [self.span() for _ in pars]
        if f == 'dict':
            names = list(pars)
            if self.coin(.6):
                R.shuffle(names)
            if self.coin(.25):
                names.append('c_M')
                c['b'].append(self.span())
            if self.coin(.06) and len(names) > 1:
                names.pop()
                c['b'].pop()
            c['names'] = names
        return c

    def study(self, o, q):
        R = self.R
        d = self.q[q]
        alg = R.choice(['de', 'pso', 'sade', 'ga'])
        cf = R.choice(['none', 'none', 'dict', 'file', 'dump'])
        if not self.s[d['s']]['conf'] and self.coin(.7):
            cf = 'dict'
        c = self.cons(d['pars'], d['bounded'] or self.coin(.06))
        self.emit(op='study', o=o, q=q, s=d['s'], pars=d['pars'], how=R.choice(['obj', 'name']),
                  conf=dict(form=cf, end=R.choice([[1, 1], [2, 1], [3, 2]]), n=R.choice([4, 6, 8])), cons=c, later=self.coin(.25), max=self.coin(.3), alg=alg,
                  oform=R.choice(['dict', 'dict', 'file', 'saved']), ind=2 * R.randint((LOWEST[alg] + 1) // 2, 5), gen=R.randint(1, 3))
        if self.s[d['s']]['conf'] or cf != 'none':
            self.o[o] = q

    def run(self, o):
        self.emit(op='run', o=o, seed=self.R.randint(1, 10 ** 6), show=self.coin(.5), freq=self.coin(.4), log=self.coin(.8), graph=self.coin(.35))
        self.emit(op='result', o=o)
        if self.coin(.5):
            self.emit(op='olog', o=o)


def p_study(g, length):
    R = g.R
    k = R.choice(['alg', 'alg', 'alg', 'ode'])
    ms = ['M'] if k == 'ode' or g.coin(.5) else ['M', 'N']
    for m in ms:
        g.model(m, k)
    if g.coin(.3):
        R.shuffle(ms)
    g.sim('s', ms, g.coin(.93))
    every = [p + '_' + m for m in ms for p in 'ab']
    for p in every:
        if g.coin(.5):
            g.emit(op='look', s='s', par=p, how=R.choice(['obj', 'name']))
    free = [p for p in every if not g.m[p[2:]]['v'][p[0]]]
    for i, q in enumerate('qr'[:R.choice([1, 1, 2])]):
        rest = [p for p in every if p not in free]
        pars = free + R.sample(rest, R.randint(0 if free else 1, len(rest)))
        R.shuffle(pars)
        g.prob(q, 's', pars, g.coin(.35), g.coin(.93))
    for i, o in enumerate('xyz'[:R.choice([1, 2, 2, 3])]):
        g.study(o, R.choice(list(g.q)))
    for _ in range(length):
        if not g.o:
            break
        o = R.choice(list(g.o))
        x = R.random()
        if x < .5:
            g.run(o)
        elif x < .62:
            g.emit(op='result', o=o)
        elif x < .72:
            pars = g.q[g.o[o]]['pars']
            c = g.cons(pars, False)
            g.emit(op='cons', o=o, cons=c, pars=pars)
        elif x < .82:
            other = [q for q in g.q if g.q[q]['pars'] == g.q[g.o[o]]['pars']]
            q = R.choice(other)
            g.o[o] = q
            g.emit(op='setq', o=o, q=q)
        elif x < .92:
            p = R.choice(every)
            v = R.choice(F)
            g.emit(op='value', m=p[2:], p=p[0], v=v)
            g.m[p[2:]]['v'][p[0]] = v
        else:
            q = R.choice(list(g.q))
            if not g.q[q]['ready']:
                g.q[q]['ready'] = True
                g.emit(op='ready', q=q)
    if g.o and not any(e['op'] == 'run' for e in g.ev):
        g.run(R.choice(list(g.o)))


PROFILES = dict(study=p_study)


def programs(seed, profile, count, length):
    out = []
    for i in range(count):
        R = random.Random('%s/%s/%s/%d' % (seed, 'optim', profile, i))
        g = Gen(R, profile)
        PROFILES[profile](g, R.randint(2, length))
        out.append(g.ev)
    return out
