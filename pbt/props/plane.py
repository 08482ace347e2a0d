"""P33 neighbourhood graphs, P34 distance matrices, P35 rotations, P36
splittings."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

import graphicle as gcl
from graphicle import matrix, transform

from ..core import RULES, Skip, Violation, require, sub
from ..gen import close, expand, momenta, seeds, size_of
from .kinematics import in_bounds, mom, ref_delta, rows

# ------------------------------------------------------------------- P33
RULES["P33"] = "Affinity matrices, thresholds, and options."


@st.composite
def affinities(draw):
    return {
        "num": draw(st.integers(1, 12)),
        "style": draw(st.sampled_from(
            ["dist", "asym", "ints", "points", "zeros", "dups", "near"])),
        "diag": draw(st.sampled_from(["zero", "zero", "any"])),
        "dtype": draw(st.sampled_from(["<f8", "<f8", "<f4", "<i8"])),
        "layout": draw(st.sampled_from(["c", "f", "strided"])),
        "seed": draw(seeds),
        "unit": draw(st.sampled_from(
            [1.0] * 6 + [2.0**-25, 2.0**-9, 2.0**11, 2.0**30])),
    }


def affinity_of(case):
    rng = np.random.default_rng(case["seed"])
    num = case["num"]
    if case["style"] == "dist":
        pos = rng.normal(0, 2, size=(num, 2))
        mat = np.hypot(*(pos[:, None] - pos[None, :]).T)
    elif case["style"] == "asym":
        mat = rng.uniform(0, 5, size=(num, num))
    elif case["style"] == "ints":
        mat = rng.integers(0, 5, size=(num, num)).astype(float)
    elif case["style"] == "points":
        mat = rng.normal(0, 3, size=(num, num))
    elif case["style"] == "zeros":
        mat = np.zeros((num, num))
    elif case["style"] == "near":  # differences beyond single precision
        mat = 0.5 + 1e-12 * rng.permuted(
            np.tile(np.arange(num), (num, 1)), axis=1)
    else:
        pos = rng.normal(0, 2, size=(num, 2))[rng.integers(0, num, num)]
        mat = np.hypot(*(pos[:, None] - pos[None, :]).T)
    if case["diag"] == "zero":
        np.fill_diagonal(mat, 0.0)
    mat = (mat * case.get("unit", 1.0)).astype(case["dtype"])
    if case["layout"] == "f":
        mat = np.asfortranarray(mat)
    if case["layout"] == "strided":
        big = np.full((2 * num, 2 * num), 9, mat.dtype)
        big[::2, ::2] = mat
        mat = big[::2, ::2]
    return mat


@sub("P33",
     st.fixed_dictionaries({
         "matrix": affinities(),
         "cut": st.one_of(st.sampled_from([0.0, 1.0, 2.0]),
                          st.floats(-3.0, 6.0), st.just("element")),
         "mode": st.sampled_from(["max", "min", "default"]),
         "holes": st.booleans(),
         "self_loop": st.booleans(), "weighted": st.booleans()}),
     quick=800, nontrivial=lambda c: c["matrix"]["num"] > 1,
     rule="more than one particle")
def cut(case):
    mat = affinity_of(case["matrix"])
    if case.get("holes") and mat.dtype.kind == "f":  # undefined and infinite
        rng = np.random.default_rng(case["matrix"]["seed"] + 1)
        odd = rng.choice([np.nan, np.inf, -np.inf], mat.shape)
        np.copyto(mat, odd, where=rng.random(mat.shape) < 0.25,
                  casting="same_kind")
    before, num = mat.copy(), len(mat)
    limit = case["cut"]
    if limit == "element":  # strictly beyond, so not the element itself
        limit = mat.ravel()[case["matrix"]["seed"] % mat.size].item()
    kwargs = {} if case["mode"] == "default" else {"mode": case["mode"]}
    got = matrix.cut_adj(mat, limit, self_loop=case["self_loop"],
                         weighted=case["weighted"], **kwargs)
    keep = mat > limit if case["mode"] == "min" else mat < limit
    want = np.where(keep, mat if case["weighted"] else 1, 0).astype(float)
    np.fill_diagonal(want, 1.0 if case["self_loop"] else 0.0)
    require(got.shape == (num, num), "shape", got.shape)
    require(np.array_equal(np.asarray(got, float), want), "adjacency", got,
            "not", want)
    if not case["weighted"]:
        require(got.dtype == np.bool_, "dtype", got.dtype)
    require(np.array_equal(mat, before, equal_nan=mat.dtype.kind == "f"),
            "matrix was changed")
    same_graph(got, case["weighted"])


@sub("P33",
     st.fixed_dictionaries({
         "matrix": affinities(),
         "bad": st.sampled_from([{"mode": "mean"}, {"mode": "MAX"},
                                 {"mode": ""}, {"mode": None}])}),
     quick=30, rule="every case")
def cut_refuses(case):
    try:
        matrix.cut_adj(affinity_of(case["matrix"]), 1.0, **case["bad"])
    except ValueError:
        return
    raise Violation("accepted", str(case["bad"]))


def same_graph(adj_matrix, weighted):
    """The edge list made from the matrix describes the same graph."""
    adj = gcl.AdjacencyList.from_matrix(adj_matrix, weighted=weighted)
    want = {tuple(map(int, ij)) for ij in np.argwhere(adj_matrix)}
    require({tuple(map(int, e)) for e in adj} == want and
            len(adj) == len(want), "edges of the matrix")


@sub("P33",
     st.fixed_dictionaries({
         "matrix": affinities(), "k": st.integers(0, 10),
         "self_loop": st.booleans(), "weighted": st.booleans(),
         "row": st.booleans(),
         "dtype": st.sampled_from([None, None, "<f4", "<f8", "<i4"])}),
     quick=1500, nontrivial=lambda c: c["matrix"]["num"] > 2,
     rule="more than two particles")
def nearest(case):
    mat = affinity_of(case["matrix"])
    before, num = mat.copy(), len(mat)
    most = num if case["self_loop"] else num - 1
    if most < 1:
        raise Skip("no neighbours")
    k = 1 + case["k"] % most
    loop = case["self_loop"]
    kwargs = {} if case["dtype"] is None else {"dtype": case["dtype"]}
    if case["weighted"] and case["dtype"] == "<i4":
        try:
            matrix.knn_adj(mat, k, loop, True, case["row"], "<i4")
        except ValueError:
            return False
        raise Violation("weights were accepted as integers")
    got = matrix.knn_adj(mat, k, self_loop=loop, weighted=case["weighted"],
                         row=case["row"], **kwargs)
    require(got.shape == (num, num), "shape", got.shape)
    require(np.array_equal(mat, before), "matrix was changed")
    if not case["weighted"]:
        require(got.dtype == np.bool_, "dtype", got.dtype)
    adj = got if case["row"] else got.T
    for i in range(num):
        own = mat[i].astype(float)
        others = np.arange(num) if loop else np.delete(np.arange(num), i)
        mine = np.flatnonzero(adj[i])
        if not loop:
            require(not adj[i, i], "self-loop at", i)
        limit = np.sort(own[others])[k - 1]
        sure = others[own[others] < limit]
        maybe = others[own[others] <= limit]
        if case["weighted"]:
            # zero affinities cannot be told from no edge
            sure = sure[own[sure] != 0]
            zeros = int(np.sum(own[others] == 0))
            require(len(mine) <= k and len(mine) >= k - zeros, "particle", i,
                    "has", mine, "for k", k, own)
            require(np.allclose(adj[i][mine], own[mine], rtol=1e-6),
                    "weights", adj[i][mine], "not", own[mine])
        else:
            require(len(mine) == k, "particle", i, "has", mine, "for k", k,
                    own)
        require(set(sure) <= set(mine) <= set(maybe), "particle", i, "has",
                mine, "not the nearest", k, "of", own)
    return None


@sub("P33",
     st.fixed_dictionaries({
         "num": st.integers(0, 12),
         "self_loop": st.sampled_from([True, False, None]),
         "dtype": st.sampled_from([None, "<f8", "<i4", "?"])}),
     quick=60, rule="every case")
def complete(case):
    kwargs = {} if case["dtype"] is None else {"dtype": case["dtype"]}
    num = case["num"]
    if case["self_loop"] is not None:
        kwargs["self_loop"] = case["self_loop"]
    got = matrix.fc_adj(num, **kwargs)
    want = np.ones((num, num))
    if not case["self_loop"]:
        want -= np.eye(num)
    require(got.dtype == np.dtype(case["dtype"] or "?"), "dtype", got.dtype)
    require(np.array_equal(got.astype(float), want), "adjacency", got)


@sub("P33",
     st.fixed_dictionaries({
         "pmu": momenta(2, 25, ("phys", "massless", "collimated", "dup",
                                "back")),
         "k": st.integers(1, 6),
         "radius": st.one_of(st.sampled_from([0.4, 1.0, 2.0]),
                             st.floats(0.01, 20.0))}),
     quick=200, rule="every case")
def graphs_of_particles(case):
    """From particles, by distance: as the definitions say."""
    pmu = expand(case["pmu"])
    pmu[np.hypot(pmu[:, 0], pmu[:, 1]) < 1e-5] = [1.0, 0.0, 0.5, 2.0]
    aff = matrix.delta_R_aff(mom(pmu))
    low, high, tol = ref_delta(pmu, pmu, True)
    num = len(pmu)
    near = np.eye(num, dtype=bool)
    sure = (np.abs(low - case["radius"]) > tol) | near
    want = (low < case["radius"]) & ~near
    got = matrix.cut_adj(aff, case["radius"])
    require(np.all((got == want) | ~sure), "cut graph", got, want)
    k = min(case["k"], num - 1)
    got = matrix.knn_adj(aff, k)
    require(np.all(got.sum(axis=1) == k), "neighbours", got.sum(axis=1))
    for i in range(num):
        mine, rest = low[i][got[i]], low[i][~got[i] & ~near[i]]
        if len(rest):
            require(mine.max() <= rest.min() + 2 * tol[i].max(), "particle",
                    i, "has neighbours at", mine, "but not", rest)


# ------------------------------------------------------------------- P34
RULES["P34"] = "Two sets of particles and the power of pT."


@sub("P34",
     st.fixed_dictionaries({
         "one": momenta(0, 20), "two": momenta(0, 30),
         "power": st.one_of(
             st.sampled_from([None, -0.1, 0.0, 1.0, -1.0, 0.5, 2, -2.0]),
             st.floats(-3.0, 3.0)),
     }),
     quick=600, rule="both sets hold particles",
     nontrivial=lambda c: size_of(c["one"]) > 0 and size_of(c["two"]) > 0)
def parton_hadron(case):
    one, two = expand(case["one"]), expand(case["two"])
    one[np.hypot(one[:, 0], one[:, 1]) < 1e-5] = [1.0, 0.0, 0.5, 2.0]
    first, second = mom(one), mom(two)
    args = () if case["power"] is None else (case["power"],)
    got = matrix.parton_hadron_distance(first, second, *args)
    power = -0.1 if case["power"] is None else case["power"]
    low, high, tol = ref_delta(one, two, True)
    weight = (np.hypot(one[:, 0], one[:, 1]) ** power)[:, None]
    require(got.shape == (len(one), len(two)), "shape", got.shape)
    ok = in_bounds(got / weight, low, high, tol)
    bad = np.argwhere(~ok)
    require(len(bad) == 0, "pair", bad[:1], got[~ok][:1],
            (weight * low)[~ok][:1])
    require(np.array_equal(rows(first), one)
            and np.array_equal(rows(second), two), "momenta changed")
    # each row is that of its parton alone
    for i in range(min(3, len(one))):
        alone = matrix.parton_hadron_distance(mom(one[i:i + 1]), second, *args)
        require(np.allclose(alone[0], got[i], rtol=1e-12, equal_nan=True),
                "parton", i, "alone", alone[0], "not", got[i])


@sub("P34", momenta(0, 30), quick=400, rule="at least two particles",
     nontrivial=lambda c: size_of(c) > 1)
def affinity(case):
    arr = expand(case)
    obj = mom(arr)
    got = matrix.delta_R_aff(obj)
    low, high, tol = ref_delta(arr, arr, True)
    require(got.shape == (len(arr),) * 2, "shape", got.shape)
    ok = in_bounds(got, low, high, tol) | np.eye(len(arr), dtype=bool)
    bad = np.argwhere(~ok)
    require(len(bad) == 0, "pair", bad[:1], got[~ok][:1], low[~ok][:1])
    require(np.array_equal(got, got.T), "not symmetric")
    require(np.all(np.diagonal(got) == 0), "diagonal", np.diagonal(got))
    require(np.array_equal(rows(obj), arr), "momenta changed")


# ------------------------------------------------------------------- P35
RULES["P35"] = "Angles, axes by inclination and azimuth, vectors."

_angle = st.one_of(
    st.floats(-7.0, 7.0), st.floats(-60.0, 60.0),
    st.sampled_from([0.0, np.pi, -np.pi, np.pi / 2, 2 * np.pi, 1e-8, 0.3]),
)
_axes = st.tuples(
    st.one_of(st.floats(0.0, float(np.pi)),
              st.sampled_from([0.0, float(np.pi), float(np.pi) / 2, 1e-9])),
    st.one_of(st.floats(-float(np.pi), float(np.pi)), st.floats(-9.0, 9.0),
              st.sampled_from([0.0, float(np.pi), -float(np.pi) / 2])),
).map(list)


def unit(axis):
    theta, phi = axis
    return np.array([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi),
                     np.cos(theta)])


def rotated(vec, angle, axis):
    """Right-handed, by splitting the vector along and across the axis."""
    along = np.dot(vec, axis) * axis
    across = vec - along
    return (along + np.cos(angle) * across
            + np.sin(angle) * np.cross(axis, across))


@sub("P35",
     st.fixed_dictionaries({
         "angle": _angle, "other": _angle, "axis": _axes,
         "vec": st.lists(st.floats(-5.0, 5.0), min_size=3, max_size=3)}),
     quick=1200, rule="every case")
def rotation(case):
    axis = transform.SphericalAngle(*case["axis"])
    vec, naxis = np.array(case["vec"]), unit(case["axis"])
    angle = case["angle"]
    rot = transform.rotation_matrix(angle, axis)
    require(isinstance(rot, np.ndarray) and rot.shape == (3, 3), "shape")
    require(np.allclose(rot @ rot.T, np.eye(3), atol=1e-12), "not orthogonal",
            rot)
    require(abs(np.linalg.det(rot) - 1.0) < 1e-12, "determinant")
    require(np.allclose(rot @ naxis, naxis, atol=1e-12), "axis moves to",
            rot @ naxis)
    require(np.allclose(rot @ vec, rotated(vec, angle, naxis), atol=1e-11),
            "rotated", rot @ vec, "not", rotated(vec, angle, naxis))
    two = transform.rotation_matrix(case["other"], axis)
    both = transform.rotation_matrix(angle + case["other"], axis)
    require(np.allclose(two @ rot, both, atol=1e-11), "angles do not add")
    back = transform.rotation_matrix(-angle, axis)
    require(np.allclose(back, rot.T, atol=1e-12), "inverse")
    flip = transform.SphericalAngle(np.pi - axis.theta, axis.phi + np.pi)
    require(np.allclose(transform.rotation_matrix(-angle, flip), rot,
                        atol=1e-11), "opposite axis")


@sub("P35",
     st.fixed_dictionaries({
         "pmu": momenta(2, 15, ("phys", "massless", "forward", "back", "grid",
                                "collimated")),
         "angle": _angle, "seed": seeds}),
     quick=700, rule="the plane is well defined (counted at run time)")
def normal_axis(case):
    arr = expand(case["pmu"])
    pt = np.hypot(arr[:, 0], arr[:, 1])
    order = np.sort(pt)
    gap = 1e-9 * order[-1]
    if order[1] - order[0] <= gap or order[-1] - order[-2] <= gap:
        raise Skip("no single hardest and softest")
    soft, hard = arr[pt.argmin(), :3], arr[pt.argmax(), :3]
    normal = np.cross(soft, hard)
    size = np.linalg.norm(normal)
    if size < 1e-6 * np.linalg.norm(soft) * np.linalg.norm(hard) or size == 0:
        raise Skip("no plane")
    obj = mom(arr)
    axis = transform.soft_hard_axis(obj)
    require(0.0 <= axis.theta <= np.pi and -np.pi <= axis.phi <= np.pi,
            "angles", axis)
    require(np.allclose(unit((axis.theta, axis.phi)), normal / size,
                        atol=1e-9), "axis", unit((axis.theta, axis.phi)),
            "not", normal / size)
    require(np.array_equal(rows(obj), arr), "momenta changed")
    # turning about it keeps the plane, and from soft to hard is positive
    opening = np.arctan2(size, np.dot(soft, hard))
    turn = transform.rotation_matrix(opening, axis) @ soft
    require(np.allclose(turn / np.linalg.norm(soft),
                        hard / np.linalg.norm(hard), atol=1e-7),
            "soft does not turn into hard")
    return True


# ------------------------------------------------------------------- P36
RULES["P36"] = "Parents, fraction, angle and axis."

_frac = st.one_of(st.sampled_from([0.5, 0.1, 0.25, 1e-6]),
                  st.floats(1e-6, 0.5))


def expect_split(parent, z, angle, axis):
    first = z * parent
    first = np.concatenate([rotated(first[:3], angle, unit(axis)), first[3:]])
    return np.stack([first, parent - first])


@sub("P36",
     st.fixed_dictionaries({
         "pmu": momenta(1, 1), "z": _frac, "angle": _angle, "axis": _axes,
         "named": st.booleans()}),
     quick=1200, rule="every case")
def splitting(case):
    parent = expand(case["pmu"])
    obj = mom(parent)
    axis = tuple(case["axis"])
    if case["named"]:
        axis = transform.SphericalAngle(*axis)
    got = transform.split_momentum(obj, case["z"], case["angle"], axis)
    require(isinstance(got, gcl.MomentumArray) and len(got) == 2, "children")
    want = expect_split(parent[0], case["z"], case["angle"], case["axis"])
    scale = 1e-12 * (1.0 + np.abs(parent).max())
    require(close(rows(got), want, 1e-10, 10 * scale), "children", rows(got),
            "not", want)
    require(close(rows(got).sum(axis=0), parent[0], 1e-12, scale),
            "not conserved")
    require(np.array_equal(rows(obj), parent), "parent was changed")


@sub("P36",
     st.fixed_dictionaries({
         "pmu": momenta(1, 20), "z": _frac, "angle": _angle,
         "axis": st.one_of(st.none(), _axes), "times": st.integers(1, 3)}),
     quick=900, rule="more than one particle",
     nontrivial=lambda c: size_of(c["pmu"]) > 1)
def split_the_hardest(case):
    arr = expand(case["pmu"])
    z, angle = case["z"], case["angle"]
    obj = mom(arr)
    for _ in range(case["times"]):
        arr = rows(obj)
        kwargs = {} if case["axis"] is None else {"axis": tuple(case["axis"])}
        if case["axis"] is None and len(arr) < 2:
            try:
                transform.split_hardest(obj, z, angle)
            except ValueError:
                return False
            raise Violation("one particle has no plane")
        pt = np.hypot(arr[:, 0], arr[:, 1])
        hard = int(pt.argmax())
        ties = np.flatnonzero(pt >= pt[hard] * (1 - 1e-9))
        if len({tuple(arr[i]) for i in ties}) > 1:
            raise Skip("no single hardest")
        if case["axis"] is None:
            soft = int(pt.argmin())
            low = np.flatnonzero(pt <= pt[soft] * (1 + 1e-9) + 1e-12)
            normal = np.cross(arr[soft, :3], arr[hard, :3])
            size = np.linalg.norm(normal)
            lengths = (np.linalg.norm(arr[soft, :3])
                       * np.linalg.norm(arr[hard, :3]))
            if (len({tuple(arr[i]) for i in low}) > 1
                    or size <= 1e-5 * lengths):
                raise Skip("no plane")
            normal /= size
            axis = (np.arccos(np.clip(normal[2], -1, 1)),
                    np.arctan2(normal[1], normal[0]))
        else:
            axis = case["axis"]
        got = transform.split_hardest(obj, z, angle, **kwargs)
        after = rows(got)
        require(len(got) == len(arr) + 1, "length", len(got))
        tied = [i for i in ties.tolist()]
        rest_options = [np.delete(arr, i, axis=0) for i in tied]
        require(any(np.array_equal(after[:-2], r) for r in rest_options),
                "other particles", after[:-2], "of", arr)
        want = expect_split(arr[hard], z, angle, axis)
        scale = 1e-12 * (1.0 + np.abs(arr[hard]).max())
        tol = 1e-6 if case["axis"] is None else 1e-10
        require(close(after[-2:], want, tol,
                      tol * np.abs(arr[hard]).max() + scale),
                "children", after[-2:], "not", want)
        require(close(after.sum(axis=0), arr.sum(axis=0), 1e-11,
                      1e-12 * (1.0 + np.abs(arr).sum())), "not conserved")
        require(np.array_equal(rows(obj), arr), "particles were changed")
        obj = got
    return None


@sub("P36", st.fixed_dictionaries({"num": st.integers(2, 9), "seed": seeds}),
     quick=30, rule="every case")
def several_parents(case):
    """Only one momentum can be split at a time."""
    obj = mom(expand({"gen": ["phys", case["num"], case["seed"]]}))
    try:
        transform.split_momentum(obj, 0.3, 0.1, (0.2, 0.3))
    except ValueError:
        return
    raise Violation("several momenta were split as one")


@sub("P36",
     st.fixed_dictionaries({
         "z": st.one_of(st.sampled_from([0.0, -0.1, 0.50001, 1.0, 2.0,
                                         float("nan"), float("inf"),
                                         -float("inf")]),
                        st.floats(0.500001, 5.0), st.floats(-5.0, 0.0)),
         "seed": seeds}),
     quick=100, rule="every case")
def bad_fractions(case):
    obj = mom(expand({"gen": ["phys", 4, case["seed"]]}))
    try:
        transform.split_hardest(obj, case["z"], 0.1)
    except ValueError:
        return
    raise Violation("fraction was accepted")
