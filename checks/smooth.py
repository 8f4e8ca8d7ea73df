"""Independent estimates of the smoothers (C25, C26)."""
import numpy as np


def lookup(values, x):
    """Stored value of the nearest bin; NaN outside."""
    out = np.full(len(x), np.nan)
    for i, v in enumerate(x):
        if np.isfinite(v) and v >= 0:
            k = int(np.rint(v))
            if k < len(values):
                out[i] = values[k]
    return out


def to_prior(y, s, prior, t=2.5):
    y = np.asarray(y, dtype=float)
    prior = prior * np.ones(len(y))
    out = prior.copy()
    for i in range(len(y)):
        sig = (y[i] - prior[i]) / s[i]
        if abs(sig) > t:
            out[i] = prior[i] + np.sign(sig) * s[i] * np.sqrt(sig**2 - t**2)
    return out


def to_mean(y, s, prior=None):
    y = np.asarray(y, dtype=float)
    if prior is None and len(y) == 1:
        return y.copy()
    w = 1 / np.asarray(s, dtype=float) ** 2
    m = np.sum(w * y) / np.sum(w) if prior is None else prior
    v = np.sum(w * (y - m) ** 2) / np.sum(w)
    if v <= 0:
        return np.full(len(y), m)
    return (w * y + m / v) / (w + 1 / v)


def to_neighbours(y, s):
    if len(y) < 3:
        return to_mean(y, s)
    y, s = np.asarray(y, dtype=float), np.asarray(s, dtype=float)
    out = np.empty(len(y))
    for i in range(len(y)):
        a, b = max(0, i - 1), min(len(y), i + 2)
        w = 1 / s[a:b] ** 2
        m = np.sum(w * y[a:b]) / np.sum(w)
        v = np.sum(w * (y[a:b] - m) ** 2) / np.sum(w)
        out[i] = m if v <= 0 else (y[i] / s[i] ** 2 + m / v) / (1 / s[i] ** 2 + 1 / v)
    return out


def wls(A, y, w):
    r = np.sqrt(w)
    return np.linalg.lstsq(A * r[:, None], y * r, rcond=None)[0]


def polynomial(x, y, w, deg, at):
    """Weighted least squares polynomial in a centred variable."""
    c, h = x.mean(), max(np.ptp(x) / 2, 1e-300)
    A = np.vander((x - c) / h, deg + 1)
    return np.vander((at - c) / h, deg + 1) @ wls(A, y, w)


def orthogonal(x, y, s, at):
    """Polynomial of significant degree; returns None when a decision is borderline."""
    n = len(x)
    w = 1 / s**2
    deg = min(21, n)
    c, h = x.mean(), max(np.ptp(x) / 2, 1e-300)
    A = np.vander((x - c) / h, deg, increasing=True) * np.sqrt(w)[:, None]
    Q, R = np.linalg.qr(A)
    d = Q.T @ (y * np.sqrt(w))
    chi = [max(0.0, float(np.sum((y * np.sqrt(w) - Q[:, : k + 1] @ d[: k + 1]) ** 2))) for k in range(deg)]
    close = lambda a, b: abs(a - b) <= 1e-6 * (1 + abs(b))  # noqa: E731
    k = deg
    if deg >= 3:
        poor = 0
        for i in range(2, deg):
            k = i + 1
            if close(chi[i], n - (i + 1)) or close(d[i] ** 2, 3.84) or close(d[i] ** 2 + d[i - 1] ** 2, 6.0):
                return None
            if chi[i] < n - (i + 1):
                break
            poor += int(d[i] ** 2 < 3.84) + int(d[i] ** 2 + d[i - 1] ** 2 < 6.0)
            if poor >= 4:
                break
    if k == n:
        k = min(max(int(n * 0.2), 2), 21) if n > 2 else 1
    at = np.clip(at, x.min(), x.max())
    return polynomial(x, y, w, k - 1, at)


def pava(y, w, increasing):
    """Weighted isotonic regression by pooling adjacent violators."""
    v = np.asarray(y, dtype=float) * (1 if increasing else -1)
    blocks = []
    for a, b in zip(v, w):
        blocks.append([a, b, 1])
        while len(blocks) > 1 and blocks[-2][0] >= blocks[-1][0]:
            p, q = blocks[-2], blocks.pop()
            blocks[-1] = [(p[0] * p[1] + q[0] * q[1]) / (p[1] + q[1]), p[1] + q[1], p[2] + q[2]]
    out = np.concatenate([[b[0]] * b[2] for b in blocks])
    return out if increasing else -out


def fourier(x, order):
    c = [np.ones(len(x))]
    for k in range(1, order + 1):
        c += [np.sin(k * x), np.cos(k * x)]
    return np.stack(c, axis=1)
