"""Shared helpers of the drivers (they run inside a subprocess, against /repo)."""
import os, sys, json, signal, math, io, contextlib, warnings, traceback
from fractions import Fraction

warnings.simplefilter('ignore')
CAP = 20000
BIG = 2000000000


class Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


@contextlib.contextmanager
def limited(seconds):
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout, sys.stderr = so, se


def num(r, kind='f'):
    """the Python number for a rational <<n,d>> of the specification"""
    n, d = r
    if kind == 'i' and d == 1:
        return n
    return n / d if d != 1 else float(n)


def obs(x, tol=1e-10):
    """observation of a float: <<n, d, s>> (see spec/Rat.tla)"""
    try:
        if isinstance(x, bool):
            return [0, 0, BIG]
        if isinstance(x, complex):
            if abs(x.imag) > 1e-9:
                return [0, 0, BIG]
            x = x.real
        x = float(x)
    except Exception:
        return [0, 0, BIG]
    if math.isnan(x) or math.isinf(x):
        return [0, 0, BIG]
    s = int(round(x * 10000)) if abs(x) < 150000 else BIG
    if abs(x) > CAP + 1:
        return [1, 0, s]
    f = Fraction(x).limit_denominator(CAP)
    if abs(float(f) - x) <= tol * max(1.0, abs(x)) and abs(f.numerator) <= CAP:
        return [f.numerator, f.denominator, s]
    return [2, 0, s]


def obsr(x):
    return obs(x)[:2]


def run(main):
    """driver main: argv = in.json out.json"""
    progs = json.load(open(sys.argv[1]))
    out = main(progs)
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)
