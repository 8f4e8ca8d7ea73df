"""Independent execution of the documented training algorithm.

Nothing of the estimators is used here: bins are collected row by row in
dictionaries, every bin is estimated on its own from the rows it contains, and
the cyclic loop, the learning-rate damping, the factor limits and the stop
criteria follow the documentation.  Smoothing is switched off or delegated to
the smoother objects given by ``smoother_for``.
"""
import math

import numpy as np
from scipy import special, stats

from cbv import gen, minim


class Diverged(Exception):
    """The loss exceeded twice the loss of the constant prediction."""


class Borderline(Exception):
    """A stop criterion was met or missed by rounding only."""


class RefFeature:
    def __init__(self, group, props, X, external=False):
        self.group = tuple(group)
        self.external = external
        self.key = " ".join(group) + ("_external" if external else "")
        self.missing_not_learned = any((p & 48) == 48 for p in props)
        rows = X[list(group)].values.astype(float)
        ok = np.all(np.isfinite(rows) & (rows >= 0), axis=1)
        self.size = [int(rows[ok, j].max()) + 1 if ok.any() else 0 for j in range(len(group))]
        self.n = int(np.prod(self.size))
        self.bins = self.index(rows)
        self.members = [np.flatnonzero(self.bins == b) for b in range(self.n + 1)]
        self.total = np.zeros(self.n + 1)
        self.step = np.zeros(self.n + 1)
        self.smoother = None

    def index(self, rows):
        """Cell number of each row; ``n`` for missing values."""
        out = []
        for r in rows:
            b = 0
            for v, s in zip(r, self.size):
                if not math.isfinite(v) or v < 0 or v >= s:
                    b = None
                    break
                b = b * s + int(v)
            out.append(self.n if b is None else b)
        return np.array(out, dtype=int)

    def coords(self):
        return np.array([c for c in np.ndindex(*self.size)], dtype=float).reshape(self.n, len(self.size))

    def contribution(self, X):
        """Link-space contribution of each row to predict (0 for never-seen bins)."""
        out = []
        for r in X[list(self.group)].values.astype(float):
            if any((not math.isfinite(v)) or v < 0 for v in r):
                out.append(self.total[self.n])
            elif any(v >= s for v, s in zip(r, self.size)):
                out.append(0.0)
            else:
                b = 0
                for v, s in zip(r, self.size):
                    b = b * s + int(v)
                out.append(self.total[b])
        return np.array(out)


def gamma_estimate(alpha, beta):
    """Logarithm of the posterior median and its uncertainty."""
    if alpha <= 1e12 and beta <= 1e12:
        fac = special.gammaincinv(alpha, 0.5) / beta
    else:
        fac = alpha / beta
    return math.log(fac), math.sqrt(math.log(1 + alpha) - math.log(alpha))


def nbinom_loss(y, mu, c, gamma):
    """Negative log likelihood of counts with mean ``mu`` and dispersion ``c``, plus penalty."""
    with np.errstate(all="ignore"):
        p = np.minimum(1 / (1 + c * mu), 1 - 1e-8)
        n = mu * p / (1 - p)
        v = -(special.gammaln(n + y) - special.gammaln(y + 1) - special.gammaln(n) + n * np.log(p) + y * np.log(1 - p))
    return np.where(np.isfinite(v), v, 400.0) + gamma * np.abs(c)


class Exponents:
    """Newton steps with bisection for the scaling of the exponent in the bins of one external feature."""

    def __init__(self, f, y, factors, x, k, prior, s, var):
        self.bins = []
        for rows in f.members:
            self.bins.append((y[rows], factors[rows], x[rows], k[rows], prior[rows], s[rows]))
        self.var = var

    def derivatives(self, b, l):
        y, fac, x, k, prior, s = self.bins[b]
        n = len(y)
        if n == 0:
            return 0.0, 0.0
        w = k * x
        mu = fac * np.exp(k * l * x)
        lkp = np.log(k / prior)
        jd = -2 * w * mu * (y - mu) * s
        jp = 2 * (k * (k * l - prior) + l - 1 + (lkp + 2 * math.log(l)) / l) / self.var / n
        hd = 2 * w * w * mu * mu * s + w * jd
        hp = 2 * (k * k + 1 + (2 - (lkp + 2 * math.log(l))) / l / l) / self.var / n
        return float(np.sum(jd + jp)), float(np.sum(hd + hp))

    def solve(self, wsum):
        eps = 0.01
        m = len(self.bins)
        used = [w > 0 for w in wsum]
        left, right = [0.0] * m, [2.0] * m
        for b in range(m):
            if used[b]:
                for _ in range(10):
                    if self.derivatives(b, right[b])[0] >= 0:
                        break
                    right[b] *= 2
        l, hess = [1.0] * m, [0.0] * m
        for _ in range(10):
            jac, nxt = [0.0] * m, [0.0] * m
            for b in range(m):
                jac[b], hess[b] = self.derivatives(b, l[b])
                nxt[b] = l[b] - jac[b] / hess[b] if hess[b] != 0 else math.nan
                used[b] = used[b] and math.isfinite(jac[b] + hess[b] + nxt[b])
            done = True
            for b in range(m):
                if used[b]:
                    for d in (abs(jac[b]), abs(l[b] - left[b]), abs(right[b] - l[b])):
                        if abs(d - eps) < 1e-8:
                            raise Borderline("convergence of the exponent")
                    done = done and (abs(jac[b]) < eps or abs(l[b] - left[b]) < eps or abs(right[b] - l[b]) < eps)
            if done:
                break
            for b in range(m):
                if not used[b]:
                    l[b], hess[b] = 1.0, 1.0
                    continue
                if jac[b] < 0:
                    left[b] = l[b]
                else:
                    right[b] = l[b]
                if left[b] <= nxt[b] <= right[b]:
                    l[b] = nxt[b]
                else:
                    l[b] = (left[b] + right[b]) / 2
        out = []
        for b in range(m):
            v = 1 / hess[b] if hess[b] != 0 else math.inf
            if v <= 0:
                v = 1.0
            beta = l[b] / v
            out.append(gamma_estimate(2.0 + beta * l[b], 1.67834 + beta))
        return out


def wmean(x, w):
    return float(np.sum(x * w) / np.sum(w))


class RefModel:
    def __init__(self, case, smoother_for=None, tol_stop=1e-9):
        self.case = case
        self.mode = case["mode"]
        self.p = case["params"]
        self.smoother_for = smoother_for
        self.tol_stop = tol_stop

    # ---- base value
    def base(self, X):
        if self.case.get("prior") is None:
            return np.full(len(X), self.base_link)
        pr = X["PRIOR"].values.astype(float)
        if self.mode == "nbinomc":
            pr = np.clip(pr, 0, 1)
        with np.errstate(all="ignore"):
            v = gen.link(self.mode, pr) + self.offset
        return np.where(np.isfinite(v), v, self.base_link)

    def init_base(self, X, y, w):
        if self.mode in ("gbs", "nbinomc"):
            self.base_link = wmean(y, w) if self.mode == "gbs" else 0.0
            self.offset = 0.0
            return
        if self.mode in ("mquantile", "aquantile"):
            from checks import pinball

            q = pinball.weighted_quantile(y, w, self.p.get("quantile", 0.5))
            self.base_link = float(gen.link(self.mode, q))
        else:
            m = wmean(y, w) + 0.001
            if self.mode in gen.LOGIT:
                m = min(m, 0.999)
            self.base_link = float(gen.link(self.mode, m))
        self.offset = 0.0
        if self.case.get("prior") is not None:
            pr = X["PRIOR"].values.astype(float)
            f = np.isfinite(pr)
            if not np.sum(w[f]) > 0:
                raise Borderline("no valid prior with weight")
            self.offset = self.base_link - float(gen.link(self.mode, wmean(pr[f], w[f])))

    # ---- one bin
    def estimate(self, f, rows, y, w, p):
        """Link-space parameter and uncertainty of one bin."""
        m = self.mode
        y, w, p = y[rows], w[rows], p[rows]
        if m in gen.SLOW:
            return self.minimise(y, w, p), self.posterior_width(y, w)
        if m in ("poisson", "nbinom", "exponential"):
            a, c = (self.p.get("a", 1.0), self.p.get("c", 0.0)) if m != "poisson" else (1.0, 0.0)
            v = a + c * p
            alpha = 2.0 + math.fsum(w * y / v)
            beta = 1.67834 + math.fsum(w * p / v)
            return gamma_estimate(alpha, beta)
        if m == "classifier":
            bw = np.where(y == 1, 1 - p, p)
            bw = np.where(y == 1, np.where(p == 0, 1 - 1e-12, np.where(p == 1, 1e-12, bw)), bw)
            bw = np.where(y == 0, np.where(p == 0, 1e-12, np.where(p == 1, 1 - 1e-12, bw)), bw)
            A = 1.001 + math.fsum(w * bw * y)
            B = 1.001 + math.fsum(w * bw * (1 - y))
            return self.beta_match(A, B)
        if m == "gbs":
            r = 1 + self.p.get("regalpha", 0.0)
            n, d = (y - p) * w, w * r
            sn, sd = math.fsum(n), math.fsum(d) + 1
            var = (
                sd**2 * math.fsum(n * n)
                - 2 * sn * sd * math.fsum(n * d)
                + sn**2 * (math.fsum(d * d) + 1)
            ) / sd**4
            return sn / sd, math.sqrt(var) if var > 0 else self.spread
        if m == "location":
            var = self.bin_variance(f, rows)
            sw = math.fsum(w) / var
            mean = math.fsum(w * (y - p)) / var / (sw + 0.01)
            return mean, math.sqrt((math.fsum(w * w) / var + 0.01) / (sw + 0.01) ** 2)
        if m == "locpoisson":
            pp = np.where(p > 0, p, 0.0)
            var = np.where(pp > 0, pp, 1.0)
            num, den = math.fsum(w * (y - pp) / var), math.fsum(w / var)
            s = num / den if den > 0 else num
            u = math.fsum(w * w / var) / (den if den > 0 else 1.0)
            std = self.spread
            if not u > 0:
                u = std
            n = math.fsum(w)
            return (n * s / u**2) / (n / u**2 + 1 / std**2), u
        raise KeyError(m)

    def cost(self, pred, y, w):
        if self.mode in ("mquantile", "aquantile"):
            from checks import pinball

            return pinball.loss(pred, y, w, self.p.get("quantile", 0.5))
        return gen.COSTS[self.p.get("cost", "logloss" if self.mode == "gclassifier" else "quadratic")](pred, y, w)

    def minimise(self, y, w, p):
        """Link-space parameter of one bin of a model with numerically minimised cost."""
        if not np.sum(w) > 0:
            return 0.0
        m = self.mode
        kind = "shift" if m in gen.ADD else "scale"
        start = {"shift": 0.0, "scale": 1.0 if m in gen.MULT else 0.5}[kind]
        name = self.p.get("cost", "logloss" if m == "gclassifier" else "quadratic")
        if m in ("mquantile", "aquantile"):
            name = "pinball"
        try:
            e = minim.solve(name, self.cost, kind, start, p, y, w, self.p.get("quantile", 0.5))
        except minim.Unclear as u:
            raise Borderline("minimum: %s" % u)
        return e if kind == "shift" else math.log(max(e, 1e-5))

    def posterior_width(self, y, w):
        m = self.mode
        if m in gen.MULT:
            a = 2 + math.fsum(w * y)
            return math.sqrt(math.log(1 + a) - math.log(a))
        if m == "gclassifier":
            return self.beta_match(1.001 + math.fsum(w * y), 1.001 + math.fsum(w * (1 - y)))[1]
        n = math.fsum(w)
        ss = math.fsum(w * (y - (math.fsum(w * y) / n if n > 0 else 0.0)) ** 2)
        prior = ss / (n if n > 0 else 1.0)
        if prior <= 1e-9:
            prior = 1.0
        var = (0.5 * prior + 0.5 * ss) / (0.5 + 0.5 * n)
        return math.sqrt((math.fsum(w * w) / var + 0.01) / (n / var + 0.01) ** 2)

    @staticmethod
    def beta_match(A, B):
        """Normal distribution in link space that matches two quantiles of a beta distribution."""
        s = 0.4 * (A / (A + B) - 0.5)
        p1, p2 = 0.75 - s, 0.25 - s
        d = stats.beta(A, B)
        q1, q2 = (math.log(x / (1 - x)) for x in (d.ppf(p1), d.ppf(p2)))
        a1, a2 = stats.norm.ppf(p1), stats.norm.ppf(p2)
        sig = (q1 - q2) / (a1 - a2)
        return q1 - sig * a1, sig

    def estimate_bins(self, f, y, w, link_pred, it):
        """Parameters and uncertainties of all bins of a feature."""
        if self.mode == "nbinomc":
            return self.search_bins(f, y, link_pred, it)
        if f.external:
            k = self.exponents()
            p = np.exp(link_pred)
            s = self.w_ext / (self.p.get("a", 1.0) * p + self.p.get("c", 0.0) * p * p)
            e = Exponents(f, y, np.exp(self.std_link), self.ext_x, k, self.prior_exp, s, self.p.get("var_prior_exponent", 0.1))
            return e.solve([float(np.sum(self.w_ext[r])) for r in f.members])
        p = gen.unlink(self.mode, link_pred)
        return [self.estimate(f, rows, y, w, p) for rows in f.members]

    def search_bins(self, f, y, link_pred, it):
        """Best or likelihood-weighted step of the search grid of this iteration."""
        n = self.p.get("n_steps", 15) // (it + 1)
        half = [10 ** (-3 + (1 / (it + 1) + 3) * i / (n - 1)) for i in range(n)] if n > 1 else [1e-3] * n
        grid = [-v for v in reversed(half)] + [0.0] + half
        out = []
        for rows in f.members:
            if len(rows) == 0:
                out.append((0.0, 1.0))
                continue
            losses = []
            for g in grid:
                c = gen.unlink("nbinomc", link_pred[rows] + g)
                losses.append(math.fsum(nbinom_loss(y[rows], self.mu[rows], c, self.p.get("gamma", 0.0))))
            best = min(losses)
            if self.p.get("bayes"):
                lik = [math.exp(best - v) for v in losses]
                val = sum(a * g for a, g in zip(lik, grid)) / sum(lik)
            else:
                order = sorted(range(len(grid)), key=lambda i: (losses[i], i))
                val = grid[order[0]]
                if len(order) > 1 and losses[order[1]] - best <= 1e-9 * max(1.0, abs(best)):
                    raise Borderline("equally good steps")
            out.append((val, 1 / math.sqrt(len(rows))))
        return out

    def exponents(self):
        return self.prior_exp * np.exp(self.ext_link)

    def external(self, X):
        """External value minus one (zero where missing), validity and prior exponent of each row."""
        v = X["PR"].values.astype(float)
        ok = np.isfinite(v)
        prior = X["PEXP"].values.astype(float) if "PEXP" in X else np.full(len(X), -1.0)
        return np.where(ok, v - 1, 0.0), ok, prior

    def bin_variance(self, f, rows):
        """Posterior expectation of the target variance within a bin."""
        y, w = self.y[rows], self.w[rows]
        prior = wmean((self.y - wmean(self.y, self.w)) ** 2, self.w)
        if prior <= 1e-9:
            prior = 1.0
        sw = math.fsum(w)
        ss = math.fsum(w * (y - (math.fsum(w * y) / sw if sw > 0 else 0.0)) ** 2)
        return (0.5 * prior + 0.5 * ss) / (0.5 + 0.5 * sw)

    def loss(self, pred):
        y, w = self.y, self.w
        if self.mode == "nbinomc":
            return float(np.mean(nbinom_loss(y, self.mu, pred, self.p.get("gamma", 0.0))))
        if self.mode == "gbs":
            return float(np.sum(w * (pred - y) ** 2) / np.sum(w[y != 0]))
        if self.mode in gen.SLOW:
            return float(self.cost(pred, y, w))
        return wmean((pred - y) ** 2, w)

    def limits(self, f):
        if f.external:
            return (0.05, 20.0) if len(f.group) == 1 else (0.1, 5.0)
        return (0.01, 1000.0) if len(f.group) == 1 else (0.1, 100.0)

    # ---- training
    def fit(self):
        case = self.case
        X = gen.frame(case)
        y = self.y = gen.target(case)
        w = self.w = np.asarray(case["w"], dtype=float) if case.get("w") is not None else np.ones(len(y))
        m = self.mode
        std = math.sqrt(max(wmean((y - wmean(y, w)) ** 2, w), 0.0))
        self.spread = std if std > 1e-9 else 1.0
        if 1e-10 < std < 1e-8:
            raise Borderline("spread of the target")
        self.init_base(X, y, w)
        log_link = m in gen.MULT
        self.features = [RefFeature(g, [case["props"].get(c, 4) for c in g], X) for g in case["groups"]]
        if m == "exponential":
            self.features += [
                RefFeature(g, [case["props"].get(c, 4) for c in g], X, external=True) for g in case["ext"]
            ]
            self.ext_x, ok, self.prior_exp = self.external(X)
            self.w_ext = w * ok
            self.ext_link = np.zeros(len(y))
        if m == "nbinomc":
            self.mu = X["MU"].values.astype(float)
        hier = self.p.get("hier")
        lr_fct = gen.get_learn_rate(self.p.get("lr"))
        if lr_fct is None:
            lr_fct = lambda it, mx: min(1.0, it / (0.5 * mx))  # noqa: E731
        if hier:
            lr_fct = lambda it, mx: 1.0  # noqa: E731
        link_pred = self.base(X)
        aggregate = self.p.get("aggregate", True) or m in ("nbinomc", "exponential")
        if m == "exponential":
            self.std_link = link_pred
            link_pred = self.std_link + self.exponents() * self.ext_x
        L0 = L = self.loss(gen.unlink(m, link_pred))
        self.losses = [L]
        self.deltas = []
        it = 0
        mx = self.p["max_iter"]
        if self.smoother_for is not None:
            for f in self.features:
                f.smoother = self.smoother_for(f.group)
        for f in self.features:
            f.fitted = False
        self.stop = (it >= mx, False, False)
        while not (any(self.stop) and not (hier and it <= 3)):
            lr = float(lr_fct(it + 1, mx))
            change = []
            for f in self.features:
                if hier and it < 3 and list(f.group) not in hier:
                    change.append(0.0)
                    continue
                if not aggregate:
                    link_pred = link_pred - f.step[f.bins]
                est = self.estimate_bins(f, y, w, link_pred, it)
                par = np.array([e[0] for e in est])
                unc = np.array([e[1] for e in est])
                new = np.empty(f.n + 1)
                if f.n and f.smoother is not None:
                    wf = self.w_ext if f.external else w
                    wsum = np.array([math.fsum(wf[r]) for r in f.members])
                    c = f.coords()
                    f.smoother.fit(np.c_[c, wsum[:-1], unc[:-1]], par[:-1].copy())
                    new[:-1] = lr * f.smoother.predict(c.copy())
                    new[:-1] = np.where(np.isfinite(new[:-1]), new[:-1], 0.0)
                elif f.n:
                    new[:-1] = lr * par[:-1]
                new[-1] = 0.0 if f.missing_not_learned else lr * par[-1]
                if m == "location":
                    wsum = np.array([math.fsum(w[r]) for r in f.members])
                    if f.missing_not_learned:
                        if np.sum(wsum[:-1]) > 0:
                            new[:-1] -= np.sum(new[:-1] * wsum[:-1]) / np.sum(wsum[:-1])
                    else:
                        new -= np.sum(new * wsum) / np.sum(wsum)
                if log_link and aggregate:
                    new = np.clip(new, math.log(0.5), math.log(2.0))
                    if f.fitted:
                        lo, hi = self.limits(f)
                        new = np.clip(new, math.log(lo) - f.total, math.log(hi) - f.total)
                change.append(float(np.mean(np.abs(new - f.step))))
                f.step = new
                f.total = f.total + new if aggregate else new.copy()
                f.fitted = True
                if m == "exponential":
                    if f.external:
                        self.ext_link = self.ext_link + new[f.bins]
                    else:
                        self.std_link = self.std_link + new[f.bins]
                    link_pred = self.std_link + self.exponents() * self.ext_x
                else:
                    link_pred = link_pred + new[f.bins]
            old, L = L, self.loss(gen.unlink(m, link_pred))
            self.losses.append(L)
            if abs(L - 2 * L0) <= 1e-9 * abs(L0):
                raise Borderline("divergence")
            if L > 2 * L0:
                raise Diverged
            rel = (old - L) / old if old != 0 else old - L
            delta = float(np.mean(change))
            self.deltas.append(delta)
            mf, ml = self.p.get("min_factor", 1e-4), self.p.get("min_loss", 1e-6)
            for val, thr in ((delta, mf), (abs(rel), ml)):
                if thr >= 0 and abs(val - thr) <= self.tol_stop:
                    raise Borderline("stop criterion")
            it += 1
            self.stop = (it >= mx, delta <= mf, abs(rel) <= ml)
        self.n_iter = it
        self.in_sample = gen.unlink(m, link_pred)
        return self

    def contributions(self, X):
        return {f.key: f.contribution(X) for f in self.features}

    def predict(self, X):
        v = self.base(X)
        for f in self.features:
            if not f.external:
                v = v + f.contribution(X)
        if self.mode == "exponential":
            x, _, k = self.external(X)
            for f in self.features:
                if f.external:
                    k = k * np.exp(f.contribution(X))
            v = v + k * x
        v = gen.unlink(self.mode, v)
        if self.mode == "locpoisson":
            v = np.where(v > 0, v, 0.0)
        return v
