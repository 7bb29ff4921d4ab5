"""module level functions for simulations in other processes"""
import numpy as np

from . import mc


def sos(q, data):
    u = data.user_defined_object[0]
    v = mc.make_ss(u['tgt'])(np.array(q, dtype=float))
    return float(v[0]) if u['tgt'].get('ret') == 'scalar' else v


def prior(th, mu, sigma):
    return float(((np.asarray(th) - 0.5) ** 2).sum())
