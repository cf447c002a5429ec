import numpy as np

_s6 = 6.0 ** 0.5
_C = np.array([(4 - _s6) / 10, (4 + _s6) / 10, 1.0])
_A = np.array([
    [(88 - 7 * _s6) / 360, (296 - 169 * _s6) / 1800, (-2 + 3 * _s6) / 225],
    [(296 + 169 * _s6) / 1800, (88 + 7 * _s6) / 360, (-2 - 3 * _s6) / 225],
    [(16 - _s6) / 36, (16 + _s6) / 36, 1.0 / 9]])


class SolverError(Exception):
    pass


def _newton(fun, x, tol=1e-12, maxit=60):
    x = np.array(x, dtype=float)
    f = fun(x)
    for _ in range(maxit):
        n = x.size
        J = np.empty((f.size, n))
        for j in range(n):
            h = 1e-7 * max(1.0, abs(x[j]))
            xp = x.copy()
            xp[j] += h
            xm = x.copy()
            xm[j] -= h
            J[:, j] = (fun(xp) - fun(xm)) / (2 * h)
        if not np.all(np.isfinite(J)) or not np.all(np.isfinite(f)):
            raise SolverError("not finite")
        dx = np.linalg.lstsq(J, -f, rcond=None)[0]
        x = x + dx
        f = fun(x)
        if np.max(np.abs(dx)) <= tol * max(1.0, np.max(np.abs(x))):
            break
    if not np.all(np.isfinite(f)) or np.max(np.abs(f)) > 1e-6 * max(1.0, np.max(np.abs(x))):
        raise SolverError("no convergence")
    return x


class _Base(object):
    def __init__(self, problem):
        self.problem = problem
        self.t = problem.t0
        self.y = problem.y0.copy()
        self.verbosity = 30

    def _times(self, tfinal, ncp, ncp_list):
        if ncp_list is not None:
            return [float(x) for x in ncp_list]
        n = ncp if ncp else 100
        return list(np.linspace(self.t, tfinal, n + 1))


class CVode(_Base):
    def simulate(self, tfinal, ncp=0, ncp_list=None):
        out_t, out_y = [], []
        times = self._times(tfinal, ncp, ncp_list)
        f = lambda t, y: np.array([float(v) for v in self.problem.rhs(t, y)], dtype=float)
        t, y = self.t, self.y.copy()
        for tn in times:
            if tn > t:
                y = self._advance(f, t, y, tn)
                t = tn
            out_t.append(tn)
            out_y.append(y.copy())
        return out_t, np.array(out_y)

    def _advance(self, f, t, y, tn, sub=4):
        n = y.size
        h = (tn - t) / sub
        for k in range(sub):
            t0 = t + k * h
            def g(K):
                K = K.reshape(3, n)
                return np.concatenate([K[i] - f(t0 + _C[i] * h, y + h * (_A[i] @ K)) for i in range(3)])
            k0 = f(t0, y)
            K = _newton(g, np.concatenate([k0, k0, k0])).reshape(3, n)
            y = y + h * (_A[2] @ K)
        return y


class IDA(_Base):
    def __init__(self, problem):
        _Base.__init__(self, problem)
        self.yd = problem.yd0.copy()

    def _res(self, t, y, yd):
        return np.array([float(v) for v in self.problem.res(t, y, yd)], dtype=float).reshape(-1)

    def make_consistent(self, method):
        # differential components of y are kept, the algebraic ones and the
        # derivatives of the differential ones are computed
        assert method == 'IDA_YA_YDP_INIT'
        alg = [float(a) == 0.0 for a in self.problem.algvar]
        if len(alg) != self.y.size:
            raise SolverError("algvar must be of length %d" % self.y.size)
        def put(x):
            y, yd = self.y.copy(), self.yd.copy()
            for i, a in enumerate(alg):
                if a:
                    y[i] = x[i]
                else:
                    yd[i] = x[i]
            return y, yd
        x0 = np.array([self.y[i] if a else self.yd[i] for i, a in enumerate(alg)])
        x = _newton(lambda v: self._res(self.t, *put(v)), x0)
        self.y, self.yd = put(x)
        return [0, self.y, self.yd]

    def simulate(self, tfinal, ncp=0, ncp_list=None):
        out_t, out_y, out_yd = [], [], []
        t, y, yd = self.t, self.y.copy(), self.yd.copy()
        for tn in self._times(tfinal, ncp, ncp_list):
            if tn > t:
                y, yd = self._advance(t, y, yd, tn)
                t = tn
            out_t.append(tn)
            out_y.append(y.copy())
            out_yd.append(yd.copy())
        return out_t, np.array(out_y), np.array(out_yd)

    def _advance(self, t, y, yd, tn, sub=2):
        n = y.size
        h = (tn - t) / sub
        for k in range(sub):
            t0 = t + k * h
            def g(K):
                K = K.reshape(3, n)
                return np.concatenate([self._res(t0 + _C[i] * h, y + h * (_A[i] @ K), K[i]) for i in range(3)])
            K = _newton(g, np.concatenate([yd, yd, yd])).reshape(3, n)
            y = y + h * (_A[2] @ K)
            yd = K[2].copy()
        return y, yd
