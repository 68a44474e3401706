"""Concrete lattices, their point groups and BZ grids built by the code under
test (extension calls go through the active context)."""
import copy
import itertools

import numpy as np

from engine import expr as X
from engine.pyshim import concrete
from .common import Mock

_cache = {}


def bzgrid(mesh, lattice=None, rotations=None, **k):
    """BZGrid of concrete arguments; built once per worker and context kind."""
    import phono3py.phonon.grid as g

    if isinstance(lattice, str):
        lattice = LATS[lattice]
    key = (X.CTX[0].symbolic, np.array(mesh).tobytes(), np.shape(mesh), np.array(lattice).tobytes(), None if rotations is None else np.array(rotations).tobytes(), repr(sorted(k.items(), key=lambda v: v[0])) if "symmetry_dataset" not in k else None)
    if key[-1] is None or key not in _cache:
        with concrete():
            if rotations is not None:
                k["symmetry_dataset"] = Mock(rotations=rotations)
            bz = g.BZGrid(mesh, lattice=lattice, **k)
        if key[-1] is None:
            return bz
        _cache[key] = bz
    return copy.deepcopy(_cache[key])


LATS = {
    "cubic": np.eye(3),
    "fccp": np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / 2.0,
    "hex": np.array([[1, 0, 0], [-0.5, np.sqrt(3) / 2, 0], [0, 0, 1.2]]),
    "tric": np.array([[1, 0, 0], [0.2, 1.1, 0], [0.1, 0.3, 0.9]]),
    "bccp": np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) / 2.0,
}


def point_group(lat):
    """rotations of a lattice (rows = basis) acting on direct coordinates"""
    Gm = lat @ lat.T
    out = []
    for m in itertools.product((-1, 0, 1), repeat=9):
        R = np.array(m).reshape(3, 3)
        if abs(round(np.linalg.det(R))) != 1:
            continue
        if np.allclose(R.T @ Gm @ R, Gm, atol=1e-6):
            out.append(R)
    return np.array(out, dtype="intc")


_PG = {}




def pg(name):
    if name not in _PG:
        _PG[name] = point_group(LATS[name])
    return _PG[name]


