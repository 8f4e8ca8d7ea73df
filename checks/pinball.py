"""Reference values for quantile regression."""
import numpy as np

from cbv.core import Discard


def weighted_quantile(y, w, q):
    """Smallest value whose cumulative weight reaches the level; tied values are spread over one unit."""
    y, w = np.asarray(y, dtype=float), np.asarray(w, dtype=float)
    total = float(np.sum(w))
    below = 0.0
    for v in sorted(set(y.tolist())):
        here = (y == v) & (w > 0)
        mass = float(np.sum(w[here]))
        upto = below + mass
        if abs(upto - total * q) <= 1e-9 * total and mass > 0:
            raise Discard("quantile falls on a boundary")
        if upto >= total * q and mass > 0:
            return v + (total * q - below) / mass if here.sum() > 1 else v
        below = upto
    raise Discard("no weight")


def loss(pred, y, w, q):
    pred = np.asarray(pred, dtype=float)
    return float(np.sum(w * np.where(y < pred, (1 - q) * (pred - y), q * (y - pred))) / np.sum(w))
