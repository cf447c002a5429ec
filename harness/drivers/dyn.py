"""Replays programs about domains, options and dynamic simulations on the real
library."""
import os, sys, re, json, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import numpy as np
from src.sloth.core.template_units import dimless
from src.sloth.core.domain import Domain
from src.sloth.core.equation_operators import *
from src.sloth.core import equation_operators as EO
from src.sloth.core.variable import Variable
from src.sloth.model import Model
from src.sloth.problem import Problem
from src.sloth.simulation import Simulation

# TLC writes an empty function as an empty sequence
MAPS = ('tok', 'map', 'conds', 'slopes', 'expl', 'dict', 'opts', 'wit')
SCRATCH = os.environ.get('VERIF_SCRATCH', '.')


def fix(x):
    return obs(x)[2]


# ---- options: tokens of the specification <-> values
def dec(tok, W):
    if tok == 'null':
        return None
    if tok in ('true', 'false'):
        return tok == 'true'
    for pre in ('s:', 'd:', 'list:', 'nums:', 'map:'):
        if tok.startswith(pre):
            b = tok[len(pre):]
            if pre == 's:':
                return b
            if pre == 'd:':
                return W.doms[b]
            if pre == 'list:':
                return b.split(',') if b else []
            if pre == 'nums:':
                return [number(x) for x in b.split(',')]
            r = {}
            for kv in (b.split(',') if b else []):
                k, v = kv.split('=')
                try:
                    r[k] = number(v)
                except ValueError:
                    r[k] = v
            return r
    return number(tok)


def number(s):
    return int(s) if re.fullmatch(r'-?\d+', s) else float(s)


def enc(v, W):
    if v is None:
        return 'null'
    if isinstance(v, (bool, np.bool_)):
        return 'true' if v else 'false'
    if isinstance(v, str):
        return 's:' + v
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, Domain):
        for n, d in W.doms.items():
            if d is v:
                return 'd:' + n
        return 'd:?'
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        if all(isinstance(x, (int, float)) for x in v) and v:
            return 'nums:' + ','.join(repr(x) for x in v)
        return 'list:' + ','.join(str(x) for x in v)
    if isinstance(v, dict):
        return 'map:' + ','.join('%s=%s' % (k, x if isinstance(x, str) else repr(x)) for k, x in sorted(v.items()))
    return '?' + type(v).__name__


def plain(v):
    """a copy of a result which was handed out, to compare it later"""
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


class GModel(Model):
    def __init__(self, W, ev):
        self.W, self.ev = W, ev
        super().__init__(ev['m'], 'model ' + ev['m'])
        for d in ev['objs']:
            if d['kind'] == 'v':
                kw = dict(is_exposed=True, type=d['exp']) if d.get('exp') else {}
                o = self.createVariable(d['base'], dimless, d['base'], **kw)
            elif d['kind'] == 'c':
                o = self.createConstant(d['base'], dimless, d['base'])
            else:
                o = self.createParameter(d['base'], dimless, d['base'])
            setattr(self, d['base'], o)
            W.objs[d['name']] = o
            if d['set']:
                o.setValue(num(d['set']))

    def __deepcopy__(self, memo):
        return self

    def DeclareEquations(self):
        for d in self.ev['eqs']:
            e = self.W.tree(d['l'])
            if d['two']:
                e = (e == self.W.tree(d['r']))
            setattr(self, d['base'], self.createEquation(d['base'], d['base'], e))


class World:
    def __init__(self):
        self.objs, self.doms, self.m, self.p, self.sims = {}, {}, {}, {}, {}
        self.handed = []

    def tree(self, t):
        k = t[0]
        if k == 'q':
            return self.objs[t[2]]()
        if k == 'd':
            return self.objs[t[2]].Diff(self.objs[t[3]])
        if k == 'num':
            return num(t[1])
        if k == 'pow':
            return self.tree(t[1]) ** num(t[2], 'i')
        if k == 'fun':
            return getattr(EO, t[1])(self.tree(t[2]))
        a, b = self.tree(t[1]), self.tree(t[2])
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b}[k]()

    def hand(self, v):
        self.handed.append((v, plain(v)))

    def tables(self):
        r = {}
        for n, d in self.doms.items():
            l = []
            if d.values is not None:
                for i, df in d.values.items():
                    l.append(dict(ind=str(i), cols=[str(c) for c in df.columns], rows=[[fix(x) for x in row] for row in df.values.tolist()]))
            r[n] = l
        return r

    def confs(self):
        r = {}
        for n, s in self.sims.items():
            if s.configurations is not None:
                r[n] = {str(k): enc(v, self) for k, v in s.configurations.items()}
        return r

    def fpath(self, f):
        return os.path.join(SCRATCH, f + '.json')

    def do(self, ev):
        ev = {k: ({} if k in MAPS and not v else v) for k, v in ev.items()}
        op = ev['op']
        if op == 'vars':
            for n in ev['names']:
                self.objs[n] = Variable(n, dimless, n)
        elif op == 'dom':
            inds = [self.objs[n] for n in ev['inds']]
            self.doms[ev['d']] = Domain(ev['d'], dimless, inds[0] if ev['how'] == 'single' else inds, 'domain ' + ev['d'])
        elif op == 'dist':
            self.objs[ev['v']].distributeOnDomain(self.doms[ev['d']])
        elif op == 'reg':
            rows = [[num(x) for x in r] for r in ev['rows']]
            kw = dict(var=self.objs[ev['ind']]) if ev['ind'] else {}
            self.doms[ev['d']]._register(np.array(rows) if ev['arr'] else rows, **kw)
        elif op == 'dreset':
            self.doms[ev['d']]._reset()
        elif op == 'call':
            if ev['inds']:
                self.doms[ev['d']]([self.objs[n] for n in ev['inds']])
            else:
                self.doms[ev['d']]()
        elif op == 'ren':
            self.doms[ev['d']]._renameHeaders(ev['map'])
        elif op == 'get':
            hs = ev['heads'][0] if ev['single'] else ev['heads']
            v = self.doms[ev['d']][(ev['inds'][0] if ev['single'] or len(ev['inds']) == 1 and len(hs) % 2 else ev['inds'], hs)]
            self.hand(v)
            return dict(got=[[fix(x) for x in r] for r in np.asarray(v).tolist()])
        elif op == 'dmodel':
            self.m[ev['m']] = GModel(self, ev)
        elif op == 'setp':
            self.objs[ev['n']].setValue(num(ev['num']))
        elif op == 'dprob':
            p = self.p[ev['p']] = Problem(ev['p'], ev['p'])
            p.addModels([self.m[x] for x in ev['ms']])
            if ev['tv']:
                p.setTimeVariableName(ev['tv'][0] if len(ev['tv']) == 1 and ev['single'] else list(ev['tv']))
        elif op == 'dconn':
            self.p[ev['p']].createConnection(self.m[ev['m1']], self.m[ev['m2']], self.objs[ev['from'][2]], self.objs[ev['into'][2]])
        elif op == 'dresolve':
            self.p[ev['p']].resolve()
        elif op == 'ic':
            self.p[ev['p']].setInitialConditions({k: num(v) for k, v in list(ev['conds'].items()) + list(ev['slopes'].items())})
        elif op == 'sim':
            self.sims[ev['s']] = Simulation(ev['s'], 'simulation ' + ev['s'])
        elif op == 'setprob':
            self.sims[ev['s']].setProblem(self.p[ev['p']])
        elif op == 'conf':
            kw = {k: dec(v, self) for k, v in ev['expl'].items()}
            if ev['dict']:
                kw['definition_dict'] = {k: dec(v, self) for k, v in ev['dict'].items()}
            if ev['file']:
                kw['configurations_file'] = self.fpath(ev['file'])
            self.sims[ev['s']].setConfigurations(**kw)
        elif op == 'write':
            json.dump({k: dec(v, self) for k, v in ev['opts'].items()}, open(self.fpath(ev['f']), 'w'))
        elif op == 'dump':
            self.sims[ev['s']].dumpConfigurations(self.fpath(ev['f']))
            return dict(file={k: enc(v, self) for k, v in json.load(open(self.fpath(ev['f']))).items()})
        elif op == 'run':
            with limited(ev.get('limit', 30)):
                self.sims[ev['s']].runSimulation(show_output_msg=ev['show'], show_final_residuals=ev['show'])
        elif op == 'results':
            v = self.sims[ev['s']].getResults(ev['type'])
            self.hand(v)
            if isinstance(v, dict):
                if all(isinstance(x, dict) for x in v.values()):
                    tabs = []
                    for i, t in v.items():
                        cols = list(t)
                        n = max([len(t[c]) for c in cols] or [0])
                        tabs.append(dict(ind=str(i), cols=[str(c) for c in cols], rows=[[fix(t[c][k]) if k < len(t[c]) else BIG for c in cols] for k in range(n)]))
                    return dict(tabs=tabs, sol=[], kind='tabs')
                return dict(tabs=[], sol=[[str(k), fix(x)] for k, x in v.items()], kind='sol')
            if v and isinstance(v[0], np.ndarray):
                return dict(tabs=[dict(ind='', cols=[], rows=[[fix(x) for x in r] for r in a.tolist()]) for a in v], sol=[], kind='tabs')
            return dict(tabs=[], sol=[['', fix(x)] for x in v], kind='sol')
        elif op == 'show':
            with quiet() as out:
                self.sims[ev['s']].showResults()
            lines = [l for l in out.getvalue().splitlines() if l.startswith('|')]
            cells = [[c.strip() for c in l.strip('|').split('|')] for l in lines]
            return dict(heads=cells[0] if cells else [], cells=[[fix(c) for c in r] for r in cells[1:]])
        elif op == 'plot':
            return self.plot(ev)
        elif op == 'sreset':
            self.sims[ev['s']].reset()
        return {}

    def plot(self, ev):
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        from src.sloth.plotter import Plotter
        D, shots = self.doms[ev['d']], []

        def shot(how):
            f = plt.gcf()
            r = dict(how=how, curves=[], lim=[], axes=[], legend=[])
            for a in f.axes:
                for l in a.get_lines():
                    name, mark = str(l.get_label()), str(l.get_marker())
                    r['curves'].append([[fix(x) for x in l.get_xdata()], [fix(x) for x in l.get_ydata()],
                                        '' if name.startswith('_') else name, '' if mark == 'None' else mark])
                r['lim'].append([fix(x) for x in a.get_xlim()])
                r['axes'].append([a.get_xlabel(), a.get_ylabel()])
                if a.get_legend():
                    r['legend'] += [t.get_text() for t in a.get_legend().get_texts()]
            shots.append(r)
        keep = Figure.savefig, plt.show
        Figure.savefig = lambda f, name, *a, **k: shot('file ' + os.path.basename(str(name)))
        plt.show = lambda *a, **k: shot('show')
        try:
            kw = {}
            if ev['how'] == 'name':
                x, y = ev['xs'][0], list(ev['ys'])
                kw['data'] = D
            else:
                x, y = D[(ev['ind'], ev['xs'] if len(ev['xs']) > 1 else ev['xs'][0])], D[(ev['ind'], list(ev['ys']))]
                if ev['how'] == 'list':
                    x, y = list(x), list(y)
            for k in ('labels', 'markers'):
                if ev[k]:
                    kw[k] = list(ev[k])
            if ev['axes']:
                kw['x_label'], kw['y_label'] = ev['axes']
            if ev['file']:
                kw['save_file'] = os.path.join(SCRATCH, ev['file'])
            P = Plotter() if ev['via'] == 'plotter' else Simulation('drawn', '')
            P.plotTimeSeries(x, y, show_plot=ev['show'], legend=ev['legend'], **kw)
        finally:
            Figure.savefig, plt.show = keep
            left = sum(len(a.get_lines()) for a in plt.gcf().axes)
            plt.close('all')
        return dict(shots=shots, left=left)

    def step(self, ev):
        o = dict(ok=True, exc='')
        try:
            with quiet():
                o.update(self.do(ev) or {})
        except Timeout:
            o.update(ok=False, exc='Timeout')
        except Exception as x:
            o.update(ok=False, exc=type(x).__name__)
            if os.environ.get('DBG'):
                traceback.print_exc()
        if not o['ok']:
            for k, v in dict(tabs=[], sol=[], kind='', heads=[], cells=[], got=[], file={}, shots=[], left=0).items():
                o.setdefault(k, v)
        o['doms'] = self.tables()
        o['confs'] = self.confs()
        o['held'] = all(self.same(plain(v), w) for v, w in self.handed)
        return o

    @staticmethod
    def same(a, b):
        return repr(a) == repr(b)


def main(progs):
    res = []
    for prog in progs:
        W = World()
        tr = []
        for ev in prog:
            e2 = dict(ev)
            e2['o'] = W.step(ev)
            tr.append(e2)
        res.append(tr)
    return res


if __name__ == '__main__':
    run(main)
