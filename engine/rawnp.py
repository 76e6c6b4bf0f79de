"""the unpatched numpy functions (imported before npshim.install patches the module)"""
import types
import numpy as _n

np = types.SimpleNamespace(**{k: v for k, v in vars(_n).items()})
np.linalg = types.SimpleNamespace(**vars(_n.linalg))
np.random = types.SimpleNamespace(**vars(_n.random))
