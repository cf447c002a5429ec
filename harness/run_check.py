#!/usr/bin/env python3
"""Decides one property: run_check.py C01 [--tier quick|thorough]
   Replays one recorded violation: run_check.py --replay FILE

1. TLC explores the specification of the property's families exhaustively
   within small bounds, checks its invariants and emits every transition
   as a history;
2. the histories and seeded random programs are replayed on the real code
   of /repo by a driver, which records what the code did;
3. TLC checks the recorded traces against the specification; every clause
   of the specification that does not hold is printed with the properties
   it belongs to.
Exit 0: held on everything explored; 1: VIOLATION; 2: machinery error."""
import os, sys, json, re, time, random, shutil, subprocess, tempfile, argparse, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/venv/bin/python'
CPU = os.cpu_count() or 4
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'gens'))
sys.dont_write_bytecode = True
from families import FAMILIES, PROPS

TLCJ = ['java', '-XX:+UseParallelGC', '-Xss64m',
        '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC']


class Machinery(Exception):
    pass


def unq(line, tag):
    """a PrintT'ed JSON string: @@H[...] within TLA+ quotes"""
    s = json.loads(line)
    return json.loads(s[len(tag):])


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.states = self.transitions = self.validated = self.events = 0
        self.samples, self.notes, self.bad = [], [], []
        self.nmeta = 0
        self.crashes = []
        self.jobstats = []

    def log(self, *a):
        print(*a, flush=True)

    # -------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env, workers, heap='3g', timeout=1500, simulate=None):
        self.nmeta += 1
        meta = os.path.join(self.work, 'meta%d_%d' % (self.nmeta, random.getrandbits(40)))
        e = dict(os.environ)
        e.update(env)
        cmd = TLCJ[:1] + ['-Xmx' + heap] + TLCJ[1:] + ['-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg]
        if simulate:
            cmd += simulate
        cmd += [module + '.tla']
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        return p.stdout

    def mc(self, fam, env):
        """exhaustive exploration; returns the programs"""
        out = self.tlc(fam['mc'], fam['mc'] + '.cfg', {k: str(v) for k, v in env.items()}, CPU, heap='6g')
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
        if 'Model checking completed. No error has been found' not in out or not m:
            self.log(out[-3000:])
            raise Machinery('model checking of %s %s failed' % (fam['mc'], env))
        g, d = (int(x.replace(',', '')) for x in m[-1])
        self.states += d
        self.transitions += g
        pre, hist = [], []
        for line in out.splitlines():
            if line.startswith('"@@P'):
                pre = unq(line, '@@P')
            elif line.startswith('"@@H'):
                hist.append(unq(line, '@@H'))
        fin = fam.get('finish')
        # a transition from a state reached by several orders is reported once
        progs = [(pre + h) for h in hist]
        if fin:
            progs = [fin(p) for p in progs]
        return progs, d, g

    # ----------------------------------------------------------- driver
    def drive(self, fam, progs, name, timeout):
        i, o = os.path.join(self.work, name + '.in.json'), os.path.join(self.work, name + '.out.json')
        json.dump(progs, open(i, 'w'))
        tmp = os.path.join(self.work, name + '.d')
        os.makedirs(tmp, exist_ok=True)
        env = dict(os.environ)
        env.update(PYTHONPATH=os.pathsep.join([REPO, os.path.join(HERE, 'standin')]), PYTHONDONTWRITEBYTECODE='1',
                   MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(self.work, 'mpl'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   PYTHONHASHSEED='0', VERIF_SCRATCH=tmp)
        try:
            p = subprocess.run([PY, '-W', 'ignore', os.path.join(HERE, 'drivers', fam['driver']), i, o], cwd=tmp, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
            rc, txt = p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            rc, txt = 'timeout', (x.stdout or b'')[-2000:]
        shutil.rmtree(tmp, ignore_errors=True)
        if rc == 0 and os.path.exists(o):
            out = json.load(open(o))
            os.remove(o)
            return out
        if len(progs) > 1:           # find the one which brings the driver down
            mid = len(progs) // 2
            return self.drive(fam, progs[:mid], name + 'a', timeout) + self.drive(fam, progs[mid:], name + 'b', timeout)
        self.crashes.append((fam['name'], progs[0], rc, str(txt)[-1500:]))
        return [None]

    # ------------------------------------------------- trace validation
    def validate(self, fam, traces, name):
        f = os.path.join(self.work, name + '.tr.json')
        json.dump(traces, open(f, 'w'))
        out = self.tlc(fam['trace'], fam['trace'] + '.cfg', {'TRACE_FILE': f}, 2, heap='4g')
        os.remove(f)
        res = {}
        for line in out.splitlines():
            if line.startswith('"@@V'):
                ti, bad = unq(line, '@@V')
                res[ti - 1] = bad
        if len(res) != len(traces) or 'No error has been found' not in out:
            miss = [k for k in range(len(traces)) if k not in res]
            keep = os.path.join(VERIF, 'evidence', 'machinery')
            os.makedirs(keep, exist_ok=True)
            json.dump([traces[k] for k in miss[:40]], open(os.path.join(keep, self.prop + '.json'), 'w'))
            self.log(out[-2500:])
            raise Machinery('trace validation of %s gave %d verdicts for %d traces' % (fam['trace'], len(res), len(traces)))
        return [res[k] for k in range(len(traces))]

    def batch(self, fam, progs, label):
        if not progs:
            return
        n = max(1, min(fam.get('chunk', 150), -(-len(progs) // CPU)))
        chunks = [progs[k:k + n] for k in range(0, len(progs), n)]
        tmo = fam.get('timeout', 120) + n * fam.get('per_program', 4)

        with ThreadPoolExecutor(CPU) as ex:
            outs = list(ex.map(lambda kv: self.drive(fam, kv[1], '%s%d' % (label, kv[0]), tmo), enumerate(chunks)))
        flat = [t for o in outs for t in o]
        ok = [(p, t) for p, t in zip(progs, flat) if t is not None]
        # a few TLC processes of bounded trace volume
        vs, cur, size = [], [], 0
        cap = max(4000, sum(len(t) for _, t in ok) // 4)
        for pt in ok:
            cur.append(pt)
            size += len(pt[1])
            if size >= min(cap, fam.get('events_per_tlc', 12000)):
                vs.append(cur)
                cur, size = [], 0
        if cur:
            vs.append(cur)
        with ThreadPoolExecutor(max(1, CPU // 2)) as ex:
            res = list(ex.map(lambda kv: self.validate(fam, [t for _, t in kv[1]], '%s%d' % (label, kv[0])), enumerate(vs)))
        for grp, verdicts in zip(vs, res):
            for (p, t), bad in zip(grp, verdicts):
                self.validated += 1
                self.events += len(t)
                for ei, clause in bad:
                    self.bad.append((fam['name'], clause, ei, p, t))
        if ok and len(self.samples) < 6:
            p = ok[self.seed % len(ok)][0]
            self.samples.append(dict(family=fam['name'], source=label, program=p if len(p) < 30 else p[:30]))

    # ------------------------------------------------------------- main
    def go(self):
        spec = PROPS[self.prop]
        quick = self.tier == 'quick'
        for job in spec['jobs']:
            fam = FAMILIES[job['family']]
            for m in job.get('mc', []):
                env, cap = (m['quick'] if quick else m['thorough'])
                if env is None:
                    continue
                t0 = time.time()
                progs, d, g = self.mc(fam, env)
                total = len(progs)
                if cap is not None and total > cap:
                    R = random.Random('%s/%s/%s' % (self.seed, self.prop, sorted(env.items())))
                    progs = R.sample(progs, cap)
                t1 = time.time()
                self.batch(fam, progs, 'mc_' + '_'.join(str(v) for v in env.values()))
                self.jobstats.append('%s %s: %d states, %d transitions, %d of %d emitted histories replayed (TLC %.0f s, replay and validation %.0f s)'
                                     % (fam['mc'], env, d, g, len(progs), total, t1 - t0, time.time() - t1))
                self.log(self.jobstats[-1])
            for prof, q, th in job.get('random', []):
                count, length = q if quick else th
                if not count:
                    continue
                t1 = time.time()
                gen = __import__(fam['gen'])
                if not quick:
                    seeds = [self.seed * 1000 + k for k in range(-(-count // 1500))]
                    parts = [(s, min(1500, count - 1500 * k)) for k, s in enumerate(seeds)]
                else:
                    parts = [(self.seed, count)]
                for s, c in parts:
                    self.batch(fam, gen.programs(s, prof, c, length), 'rnd_%s_%s' % (prof, s))
                self.jobstats.append('%s random %s: %d programs up to %d steps (%.0f s)' % (fam['name'], prof, count, length, time.time() - t1))
                self.log(self.jobstats[-1])

    def mine(self, clause):
        pre = clause.split('.')[0].split('+')
        return self.prop in pre

    def verdict(self, t0):
        known = load_known()
        ev = os.path.join(VERIF, 'evidence')
        rp = os.path.join(ev, 'replays')
        os.makedirs(rp, exist_ok=True)
        for f in os.listdir(rp):
            if f.startswith(self.prop + '-'):
                os.remove(os.path.join(rp, f))
        harness = sorted({c for _, c, _, _, _ in self.bad if c.startswith('HARNESS')})
        others = sorted({c for _, c, _, _, _ in self.bad if not self.mine(c) and not c.startswith('HARNESS')})
        viol, seen_known = {}, {}
        for fam, clause, ei, p, t in self.bad:
            if not self.mine(clause):
                continue
            k = match_known(known, self.prop, clause, t[ei - 1] if ei else {})
            if k is not None:
                seen_known.setdefault(k, 0)
                seen_known[k] += 1
                continue
            key = (fam, clause)
            if key not in viol or len(viol[key][1]) > len(p):
                viol[key] = (ei, p, t)
        for fam, p, rc, txt in self.crashes:
            viol[(fam, self.prop + '.driver_down')] = (0, p, [dict(rc=rc, text=txt)])
        for k in known:
            if k['property'] == self.prop and (k['id'] in seen_known):
                print('KNOWN-FINDING: property=%s %s (%d observations)' % (self.prop, k['what'], seen_known[k['id']]))
        n = 0
        for (fam, clause), (ei, p, t) in sorted(viol.items()):
            n += 1
            path = os.path.join(rp, '%s-%d.json' % (self.prop, n))
            json.dump(dict(property=self.prop, family=fam, clause=clause, event=ei, program=p, observed=t[ei - 1] if ei and ei <= len(t) else t[:1]),
                      open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  clause %s at step %d of a %s program of %d steps' % (clause, ei, fam, len(p)))
        if others:
            print('note: clauses of other properties failed too:', ', '.join(others[:20]))
        json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                       coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                                     trace_events=self.events, samples=self.samples or [dict(note='none')], parts=self.jobstats),
                       assumptions=PROPS[self.prop].get('assumptions', []),
                       wall_s=round(time.time() - t0, 1), violations=n),
                  open(os.path.join(ev, self.prop + '.json'), 'w'), indent=1)
        if n:
            return 1
        if harness:
            print('machinery error:', harness)
            return 2
        print('%s held: %d states, %d transitions, %d traces (%d events) validated, %.0f s'
              % (self.prop, self.states, self.transitions, self.validated, self.events, time.time() - t0))
        return 0


def load_known():
    out = []
    f = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(f):
        for k in json.load(open(f)).get('known', []):
            out.append(k)
    return out


def match_known(known, prop, clause, event):
    for k in known:
        if k['property'] == prop and clause == k['clause'] and all(event.get(a) == b for a, b in k['where'].items()):
            return k['id']
    return None


def replay(path):
    d = json.load(open(path))
    r = Run(d['property'], 'quick', 1)
    try:
        fam = FAMILIES[d['family']]
        r.batch(fam, [d['program']], 'replay')
        for f, c, ei, p, t in r.bad:
            print(c, 'at step', ei, json.dumps(t[ei - 1] if ei else {})[:1500])
        if r.crashes:
            print(r.crashes[0][2:])
        return 1 if r.bad or r.crashes else 0
    finally:
        shutil.rmtree(r.work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    r = Run(a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick', seed)
    try:
        r.go()
        return r.verdict(t0)
    except Machinery as x:
        print('machinery error:', x)
        if any(r.mine(c) for _, c, _, _, _ in r.bad):
            return r.verdict(t0) or 2
        return 2
    finally:
        shutil.rmtree(r.work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
