"""Small input alphabets shared by the checks (all finite, deterministic)."""
import itertools
import numpy as np

# constraint menu: name -> (n, kwargs)
CONS = {
 2: {
  "simplex": {},
  "shorts_box": dict(long_only=False, bounds=(-0.5, 1.5)),
  "box": dict(bounds=[(0.25, 1.0), (0.0, 0.625)]),
  "dict": dict(bounds={1: (0.25, None)}),
  "capdict": dict(bounds={0: (None, 0.5)}),
  "rel": dict(relative_bounds=[(0, 1, 0.25)]),
  "group": dict(group_constraints={"g": ([1], 0.25, 0.5)}),
  "ineq": dict(additional_G_h=[([2.0, 1.0], 1.5)]),
  "eq": dict(additional_A_b=[([1.0, -1.0], 0.25)]),
  "point": dict(bounds=[(0.5, 0.5), (None, None)]),
  "tw2": dict(total_weight=2.0, bounds=(None, 1.5)),
  "free_budget": dict(total_weight=None, bounds=(0.25, 0.75)),
  "free_short": dict(long_only=False, total_weight=1.0),
  "neutral": dict(long_only=False, total_weight=0.0, bounds=(-0.5, 0.75)),
  "netshort": dict(long_only=False, total_weight=-0.5, bounds=(-0.75, 0.5)),
 },
 3: {
  "simplex": {},
  "shorts_box": dict(long_only=False, bounds=(-0.5, 1.0)),
  "box": dict(bounds=[(0.125, 1.0), (0.0, 0.5), (0.0, 0.625)]),
  "dict": dict(bounds={1: (0.25, None), 2: (None, 0.5)}),
  "rel": dict(relative_bounds=[(0, 1, 0.25), (2, 0, 0.125)]),
  "group": dict(group_constraints={"g": ([0, 2], 0.25, 0.5), "h": ([1, 2], 0.125, 0.75)}),
  "ineq": dict(additional_G_h=[([1.0, 2.0, 0.0], 1.0), ([0.0, -1.0, -1.0], -0.25)]),
  "eq": dict(additional_A_b=[([1.0, -1.0, 0.0], 0.125)]),
  "eq2": dict(long_only=False, bounds=(-1.0, 2.0), additional_A_b=[([0.0, 1.0, 2.0], 0.5)]),
  "mix": dict(bounds=(None, 0.75), relative_bounds=[(1, 2, 0.5)], group_constraints={"g": ([0, 1], 0.25, 0.875)},
              additional_G_h=[([1.0, 0.0, -1.0], 0.5)]),
  "tw2": dict(total_weight=2.0, bounds=(None, 1.5)),
  "free_budget": dict(total_weight=None, bounds=(0.25, 0.75)),
  "free_short": dict(long_only=False, total_weight=1.0),
  "neutral": dict(long_only=False, total_weight=0.0, bounds=(-0.5, 0.75)),
  "netshort": dict(long_only=False, total_weight=-0.5, bounds=(-0.75, 0.5)),
 },
}
CONS[4] = {
  "simplex": {},
  "shorts_box": dict(long_only=False, bounds=(-0.25, 0.75)),
  "dict": dict(bounds={1: (0.25, None), 3: (None, 0.25)}),
  "rel": dict(relative_bounds=[(0, 1, 0.25), (2, 3, 0.125)]),
  "group": dict(group_constraints={"g": ([0, 2], 0.25, 0.5), "h": ([1, 3], 0.125, 0.625)}),
  "eq": dict(additional_A_b=[([1.0, -1.0, 0.0, 0.5], 0.125)]),
  "ineq": dict(additional_G_h=[([1.0, 2.0, 0.0, 1.0], 1.0)]),
  "tw2": dict(total_weight=2.0, bounds=(None, 1.5)),
}
INFEASIBLE = {
 2: {
  "cap": dict(bounds=(None, 0.4)),
  "floor": dict(bounds=(0.6, None)),
  "rel": dict(relative_bounds=[(0, 1, -0.5), (1, 0, -0.5)]),
  "group": dict(group_constraints={"g": ([0, 1], 0.0, 0.5)}),
  "eq": dict(additional_A_b=[([1.0, 1.0], 0.5)]),
  "ineq": dict(additional_G_h=[([1.0, 1.0], 0.75)]),
 },
 3: {
  "cap": dict(bounds=(None, 0.3)),
  "floor": dict(bounds={0: (0.6, None), 2: (0.6, None)}),
  "rel": dict(relative_bounds=[(0, 1, -0.75), (1, 2, -0.75)]),
  "group": dict(group_constraints={"g": ([0, 1], 0.0, 0.25), "h": ([1, 2], 0.0, 0.25)}),
  "ineq": dict(additional_G_h=[([1.0, 1.0, 1.0], 0.75)]),
 },
}

COV = {
 2: {
  "id": [[1, 0], [0, 1]],
  "pos": [[1, 1.5], [1.5, 4]],
  "neg": [[1, -1.2], [-1.2, 4]],
  "hi": [[1, 7.2], [7.2, 64]],
  "sing": [[1, 2], [2, 4]],
  "cash": [[0, 0], [0, 4]],
 },
 3: {
  "diag": [[1, 0, 0], [0, 2, 0], [0, 0, 5]],
  "pos": [[1, 0.5, 0.3], [0.5, 2, 0.9], [0.3, 0.9, 3]],
  "neg": [[2, -1, 0.5], [-1, 3, -1.5], [0.5, -1.5, 4]],
  "hi": [[1, 2.5, 4], [2.5, 9, 10], [4, 10, 25]],
  "sing": [[1, 1, 1], [1, 2, 3], [1, 3, 5]],
  "dup": [[4, 4, 1], [4, 4, 1], [1, 1, 2]],
 },
}
MU = {
 2: {"up": [0.25, 1.0], "down": [1.0, 0.25], "tie": [0.5, 0.5], "neg": [-0.5, -1.0], "mix": [-0.25, 0.5]},
 3: {"up": [0.25, 0.5, 1.0], "perm": [1.0, 0.25, 0.75], "tie": [0.5, 1.0, 1.0], "neg": [-1.0, -0.5, -0.75], "mix": [-0.25, 0.75, 0.0], "flat": [0.5, 0.5, 0.5]},
}
COV[4] = {
  "pos": [[1, 0.5, 0.3, 0.2], [0.5, 2, 0.9, 0.4], [0.3, 0.9, 3, 1.1], [0.2, 0.4, 1.1, 4]],
  "neg": [[2, -1, 0.5, 0.3], [-1, 3, -1.5, 0.2], [0.5, -1.5, 4, -1], [0.3, 0.2, -1, 2]],
  "blk": [[4, 3.5, 0, 0], [3.5, 4, 0, 0], [0, 0, 1, -0.5], [0, 0, -0.5, 1]],
}
MU[4] = {"up": [0.25, 0.5, 0.75, 1.0], "mix": [-0.25, 0.75, 0.0, 0.5], "tie": [0.5, 0.5, 1.0, 1.0]}
SCALE = {"std": 1.0, "daily": 1e-4}

# scenario matrices (T x n), integer valued (scaled by 1/8 or 1/100 where used)
SCEN = {
 2: {
  "A": [[1, 3], [-2, 1], [0, -4], [3, 2]],
  "B": [[4, 1], [2, 2], [1, 5], [3, 1]],          # every scenario gains
  "C": [[-1, -3], [-2, -1], [-3, 2], [1, -2], [2, 1]],
  "D": [[0, 0], [1, -1], [-1, 1]],
  "E": [[2, 2], [-1, -1], [3, 3]],                 # duplicated asset
 },
 3: {
  "A": [[1, 3, -1], [-2, 1, 2], [0, -4, 1], [3, 2, -2]],
  "B": [[4, 1, 2], [2, 2, 3], [1, 5, 1], [3, 1, 4]],
  "C": [[-1, -3, 2], [-2, -1, 0], [-3, 2, 1], [1, -2, -1], [2, 1, 3]],
  "D": [[1, 0, 2], [0, 1, 2], [2, -3, 1], [-2, 4, -3], [1, 1, -1], [0, -1, 3]],
 },
}
SCEN[4] = {
  "A": [[1, 3, -1, 0], [-2, 1, 2, 1], [0, -4, 1, 3], [3, 2, -2, -1]],
  "D": [[1, 0, 2, -1], [0, 1, 2, 3], [2, -3, 1, 0], [-2, 4, -3, 1], [1, 1, -1, 2], [0, -1, 3, -2]],
}


def prob_grid(T, k):
    """All probability vectors with denominators k (compositions, zeros allowed)."""
    from .ref import simplex_lattice
    return simplex_lattice(T, k)


def perms(n):
    return list(itertools.permutations(range(n)))
