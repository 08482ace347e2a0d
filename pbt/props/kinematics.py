"""P08 kinematics, P09 frame shifts, P11 distances, P12 clustering
coefficients, P13 aggregates, P14 event shapes, P38 sampling."""
from __future__ import annotations

import itertools
import math
import warnings

import numba as nb
import numpy as np
from hypothesis import strategies as st

import graphicle as gcl
from graphicle import calculate

from ..core import RULES, Skip, Violation, require, sub
from ..gen import (STYLES, UNITS, angle_close, close, expand, momenta, seeds,
                   size_of)

LD = np.longdouble
PMU = np.dtype([(n, "<f8") for n in "xyze"])


def mom(arr) -> gcl.MomentumArray:
    return gcl.MomentumArray(np.array(arr, dtype=np.float64))


def rows(obj) -> np.ndarray:
    data = np.asarray(obj.data)
    return np.stack([data[n] for n in "xyze"], axis=1).reshape(-1, 4)


def ref_eta(arr):
    x, y, z = (arr[:, i].astype(LD) for i in range(3))
    with np.errstate(all="ignore"):
        return np.arcsinh(z / np.hypot(x, y))


# ------------------------------------------------------------------- P08
RULES["P08"] = "Sets of momenta: drawn rows, or a style, size and seed."


@st.composite
def any_momenta(draw):
    case = dict(draw(momenta(0, 150)))
    case["off_shell"] = draw(st.sampled_from(["no", "no", "no", "yes"]))
    case["scale"] = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e4, -1.0]))
    case["perm"] = draw(seeds)
    # orders of magnitude between particles of the same set
    case["spread"] = draw(st.sampled_from([0, 0, 0, 3, 9]))
    return case


@sub(
    "P08",
    any_momenta(),
    quick=1200,
    rule="at least one particle which is not at rest",
    nontrivial=lambda c: size_of(c) > 0 and bool(expand(c)[:, :3].any()),
    examples=[
        {"rows": [[0, 0, 5, 5], [0, 0, -5, 5], [0, 0, 0, 1], [0, 0, 3, 5],
                  [0, 0, -3, 5], [1, 0, 0, 1], [-1, 0, 0, 1], [0, 0, 0, 0]],
         "off_shell": "no", "scale": 1.0, "perm": 1},
    ],
)
def definitions(case):
    arr = expand(case)
    arr[:, :3] *= case["scale"]
    arr[:, 3] *= abs(case["scale"])
    if case.get("spread"):
        rng = np.random.default_rng(case["perm"] + 1)
        power = rng.uniform(-case["spread"], case["spread"], size=len(arr))
        arr *= (10.0**power)[:, None]
    if case["off_shell"] == "yes" and len(arr):  # virtual and space-like
        rng = np.random.default_rng(case["perm"])
        arr[:, 3] *= rng.uniform(0.3, 1.2, size=len(arr))
    obj = mom(arr)
    num = len(arr)
    x, y, z, e = (arr[:, i].astype(LD) for i in range(4))
    pt = np.hypot(x, y)
    mag = np.hypot(pt, z)
    for name, want in (("x", 0), ("y", 1), ("z", 2), ("energy", 3)):
        require(np.array_equal(getattr(obj, name), arr[:, want]), name)
    got = {
        n: np.asarray(getattr(obj, n))
        for n in ("pt", "eta", "phi", "theta", "mass", "mass_t", "rapidity")
    }
    for name, val in got.items():
        require(val.shape == (num,) and val.dtype == np.float64, name, val)
    require(close(got["pt"], pt, 1e-13, 0.0), "pt", got["pt"], pt)
    # azimuth
    off_axis = pt > 1.1e-10
    on_axis = pt < 0.9e-10
    phi = np.arctan2(y, x)
    require(
        angle_close(got["phi"][off_axis], phi[off_axis], 1e-12), "phi",
        got["phi"], phi,
    )
    require(np.all(np.isnan(got["phi"][on_axis])), "phi on axis", got["phi"])
    require(np.all(np.abs(got["phi"][off_axis]) <= np.pi), "phi range")
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        again = mom(arr).phi
    require(np.array_equal(again, got["phi"], equal_nan=True), "phi again")
    said = any(issubclass(w.category, gcl.base.NumericalStabilityWarning)
               for w in caught)
    require(said == bool(np.isnan(again).any()), "warned" if said else
            "did not warn", "of undefined azimuths", again)
    # polar angle
    theta = np.arctan2(pt, z)
    require(
        np.all(np.abs(got["theta"] - theta) < 1e-12), "theta", got["theta"],
        theta,
    )
    require(np.all((got["theta"] >= 0) & (got["theta"] <= np.pi)), "range")
    # pseudorapidity
    eta = ref_eta(arr)
    for idx in range(num):
        val, ref = got["eta"][idx], eta[idx]
        if mag[idx] == 0:
            continue  # no direction
        if pt[idx] == 0:
            require(np.isinf(val) and val * z[idx] > 0, "eta on axis", val)
        elif abs(ref) > 16:
            require(val * z[idx] > 0 and abs(val) > 15.5, "far eta", val, ref)
        else:
            tol = 1e-12 + 2e-15 * math.exp(2 * abs(float(ref)))
            require(abs(val - ref) <= tol, "eta", idx, val, ref)
    # rapidity
    for idx in range(num):
        val = got["rapidity"][idx]
        diff = e[idx] - abs(z[idx])
        if diff < -0.5e-10 or (0.5e-10 < diff < 2e-10):
            continue  # not physical, or next to the documented tolerance
        if diff <= 0.5e-10:
            if e[idx] > 1e-8:  # the tolerance is absolute
                require(np.isinf(val) and val * z[idx] > 0, "rap.", val)
            continue
        ref = 0.5 * np.log((e[idx] + abs(z[idx])) / diff)
        ref = math.copysign(float(ref), float(z[idx]))
        tol = 1e-12 + 4e-16 * float(e[idx] / diff)
        require(abs(val - ref) <= tol, "rapidity", idx, val, ref)
    # masses
    for name, other in (("mass", mag), ("mass_t", np.abs(z))):
        square = e * e - other * other
        signed = got[name].astype(LD)
        signed = np.sign(signed) * signed**2
        tol = 1e-14 * (e * e + other * other) + 1e-300
        bad = np.abs(signed - square) > tol
        require(not bad.any(), name, got[name], np.sqrt(np.abs(square)))
    # no cancellation, however far forward
    ref = np.sqrt(np.abs(e - np.abs(z)) * (e + np.abs(z)))
    require(close(np.abs(got["mass_t"]), ref, 1e-11, 0.0), "mass_t",
            got["mass_t"], ref)
    # each value belongs to its own particle
    if num:
        perm = np.random.default_rng(case["perm"]).permutation(num)
        perm = perm[: max(1, num - 2)]
        part = mom(arr[perm])
        for name, val in got.items():
            again = getattr(part, name)
            want = val[perm]
            scale = 1e-9 * (1 + np.abs(arr[perm, 3]))
            if name in ("eta", "rapidity"):
                with np.errstate(all="ignore"):
                    scale = 1e-9 + 1e-14 * np.exp(2 * np.abs(want))
            same = (again == want) | (np.isnan(again) & np.isnan(want))
            with np.errstate(all="ignore"):
                near = np.abs(again - want) <= scale
            require(np.all(same | near), name, "depends on other particles")
    # reflection
    mirror = arr.copy()
    mirror[:, 2] *= -1.0
    other = mom(mirror)
    keep = mag > 0
    for name in ("eta", "rapidity"):
        one, two = getattr(other, name)[keep], -got[name][keep]
        same = (one == two) | (np.isnan(one) & np.isnan(two))
        with np.errstate(all="ignore"):
            near = np.abs(one - two) < 1e-9
        require(np.all(same | near), name, "under reflection", one, two)
    require(close(other.pt, got["pt"], 1e-13), "pt under reflection")
    require(np.array_equal(rows(obj), arr), "momenta were changed")


# ------------------------------------------------------------------- P09
RULES["P09"] = "Momenta, and a sequence of shifts with their amounts."


@st.composite
def shift_cases(draw):
    case = dict(draw(momenta(1, 40, ("phys", "massless", "dup", "back",
                                     "collimated", "grid", "soft"))))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["phi", "rapidity", "eta", "exp_eta"]))
        amount = draw(st.one_of(
            st.integers(-12, 12).map(lambda v: v / 4),
            st.floats(-3, 3, allow_nan=False),
        ))
        if kind == "phi":
            amount *= draw(st.sampled_from([1, 3, 12]))
        if kind == "rapidity":
            amount *= draw(st.sampled_from([1, 1, 1, 4]))
        shape = draw(st.sampled_from(["scalar", "npscalar", "array"]))
        steps.append([kind, amount, shape, draw(seeds)])
    case["steps"] = steps
    return case


def shift_value(amount, shape, seed, num):
    if shape == "scalar":
        return float(amount)
    if shape == "npscalar":
        return np.float64(amount)
    return amount * np.random.default_rng(seed).uniform(-1, 1, size=num)


@sub("P09", shift_cases(), quick=800, rule="some shift is not zero",
     nontrivial=lambda c: any(s[1] for s in c["steps"]))
def shifts(case):
    obj = mom(expand(case))
    for kind, amount, shape, seed in case["steps"]:
        arr = rows(obj).copy()
        if np.abs(arr).max() > 1e7:
            return
        # values read before must not be carried over
        _ = obj.eta, obj.phi, obj.mass, obj.rapidity, obj.pt, obj.theta
        _ = obj.mass_t
        if kind == "eta":
            amount = float(amount)
            shift = amount
        else:
            shift = shift_value(amount, shape, seed, len(arr))
        func = {
            "phi": obj.shift_phi,
            "rapidity": obj.shift_rapidity,
            "eta": obj.shift_eta,
            "exp_eta": lambda s: obj.shift_eta(s, experimental=True),
        }[kind]
        if kind == "eta":
            total = arr.sum(axis=0)
            tot_pt = math.hypot(total[0], total[1])
            if tot_pt < 1e-3 * np.abs(arr).max() or tot_pt == 0:
                continue
            eta_mid = math.asinh(total[2] / tot_pt)
            if abs(eta_mid) + abs(amount) > 4:
                continue
        new = func(shift)
        require(type(new) is gcl.MomentumArray and new is not obj, "type")
        require(np.array_equal(rows(obj), arr), kind, "changed the original")
        got = rows(new)
        require(got.shape == arr.shape, "shape")
        size = np.abs(arr).max(axis=1)
        if kind == "phi":
            pol = (arr[:, 0] + 1j * arr[:, 1]) * np.exp(1j * np.asarray(shift))
            require(np.all(np.abs(got[:, 0] - pol.real) <= 1e-13 * size), "x")
            require(np.all(np.abs(got[:, 1] - pol.imag) <= 1e-13 * size), "y")
            require(np.array_equal(got[:, 2:], arr[:, 2:]), "z, e")
            back = rows(new.shift_phi(-shift))
            require(np.all(np.abs(back - arr) <= 1e-12 * size[:, None]),
                    "opposite shift")
            off = np.hypot(arr[:, 0], arr[:, 1]) > 1e-9
            require(
                angle_close(new.phi[off], (obj.phi + shift)[off], 1e-9), "phi"
            )
        elif kind == "rapidity":
            check_boost(arr, got, np.broadcast_to(shift, len(arr)))
            back = rows(new.shift_rapidity(-shift))
            tol = 1e-13 * size * np.exp(2 * np.abs(shift))
            require(np.all(np.abs(back - arr) <= tol[:, None]), "opposite")
            diff = arr[:, 3] - np.abs(arr[:, 2])
            diff_2 = got[:, 3] - np.abs(got[:, 2])
            ok = (diff > 1e-6 * arr[:, 3]) & (diff_2 > 1e-6 * got[:, 3])
            ok &= (diff > 1e-8) & (diff_2 > 1e-8)
            # the boost cancels up to the square of its own size
            tol = 1e-7 + 1e-15 * np.exp(
                2 * np.abs(np.broadcast_to(shift, len(arr)))[ok])
            off = np.abs(new.rapidity - (obj.rapidity + shift))[ok]
            require(np.all(off <= tol), "rapidity", off)
        elif kind == "eta":
            total = got.sum(axis=0)
            mid = math.asinh(total[2] / math.hypot(total[0], total[1]))
            require(abs(mid - (eta_mid + amount)) < 1e-6, "resultant at", mid,
                    "not", eta_mid + amount)
            # one boost for all particles
            heavy = arr[:, 3] - np.abs(arr[:, 2]) > 1e-6 * arr[:, 3]
            if heavy.any():
                ratio = ((got[:, 3] + got[:, 2]) / (arr[:, 3] + arr[:, 2]))
                boost = math.log(float(np.median(ratio[heavy])))
                check_boost(arr, got, np.full(len(arr), boost), 1e-9)
            back = rows(new.shift_eta(-amount))
            require(np.all(np.abs(back - arr) <= 1e-5 * size.max()),
                    "opposite eta shift")
        else:
            require(np.array_equal(got[:, :2], arr[:, :2]), "x, y")
            require(np.all(np.isnan(got[:, 3])), "energy")
            pt = np.hypot(arr[:, 0], arr[:, 1])
            eta = np.asarray(ref_eta(arr), float) + shift
            ok = (pt > 1e-9) & (np.abs(eta - shift) < 8)
            want = pt * np.sinh(eta)
            require(
                np.all(np.abs(got[ok, 2] - want[ok])
                       <= 1e-7 * (np.abs(want[ok]) + pt[ok])),
                "z", got[:, 2], want,
            )
            continue
        # masses survive true boosts and rotations
        m_old = arr[:, 3] ** 2 - (arr[:, :3] ** 2).sum(axis=1)
        m_new = got[:, 3] ** 2 - (got[:, :3] ** 2).sum(axis=1)
        scale = np.maximum(arr[:, 3] ** 2, got[:, 3] ** 2)
        tol = 1e-11 * scale
        if kind == "rapidity":  # a boost back cancels what it rounds
            size = np.cosh(np.broadcast_to(shift, len(arr))) * arr[:, 3]
            tol = tol + 1e-14 * size**2
        require(np.all(np.abs(m_old - m_new) <= tol), "masses")
        obj = new


@st.composite
def convergence_cases(draw):
    case = dict(draw(momenta(1, 30, ("phys", "massless", "back", "grid",
                                     "collimated"))))
    case["shift"] = draw(st.one_of(
        st.integers(-10, 10).map(lambda v: v / 4),
        st.floats(-2.5, 2.5, allow_nan=False)))
    case["limit"] = draw(st.sampled_from([0, 1, 1, 2, 3, 10, None]))
    case["tol"] = draw(st.sampled_from([1e-9, 1e-6, 1e-3, 0.3]))
    return case


@sub("P09", convergence_cases(), quick=500,
     rule="at least one correction allowed, and a shift to do",
     nontrivial=lambda c: c["limit"] != 0 and abs(c["shift"]) > c["tol"])
def convergence(case):
    """The warning of shift_eta tells whether the target was reached."""
    arr = expand(case)
    total = arr.sum(axis=0)
    tot_pt = math.hypot(total[0], total[1])
    if tot_pt < 1e-3 * np.abs(arr).max() or tot_pt == 0:
        raise Skip("the resultant is along the beam")
    start = math.asinh(total[2] / tot_pt)
    if abs(start) + abs(case["shift"]) > 4:
        raise Skip("too far forward")
    kwargs = {"abs_tol": case["tol"]}
    if case["limit"] is not None:
        kwargs["max_corrections"] = case["limit"]
    obj = mom(arr)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        new = obj.shift_eta(case["shift"], **kwargs)
    said = any(issubclass(w.category, gcl.base.NumericalStabilityWarning)
               for w in caught)
    total = rows(new).sum(axis=0)
    mid = math.asinh(total[2] / math.hypot(total[0], total[1]))
    off = abs(mid - start - case["shift"])
    if off > 1.01 * case["tol"] + 1e-10:
        require(said, "missed the target by", off, "without a warning")
    if off < 0.99 * case["tol"] - 1e-10:
        require(not said, "warned, but reached the target within", off)
    if case["limit"] == 0 or abs(case["shift"]) < 0.99 * case["tol"]:
        require(np.array_equal(rows(new), arr), "moved the momenta")
    else:  # one boost is enough, so any number of them is
        require(off < 1e-6 + case["tol"], "missed the target by", off)
    require(np.array_equal(rows(obj), arr), "changed the original")


def check_boost(arr, got, shift, rtol=1e-13):
    require(np.array_equal(got[:, :2], arr[:, :2]), "transverse components")
    cosh, sinh = np.cosh(shift), np.sinh(shift)
    want_e = cosh * arr[:, 3] + sinh * arr[:, 2]
    want_z = cosh * arr[:, 2] + sinh * arr[:, 3]
    tol = rtol * (cosh + np.abs(sinh)) * (arr[:, 3] + np.abs(arr[:, 2]))
    tol = tol + 1e-300
    require(np.all(np.abs(got[:, 3] - want_e) <= tol), "energy", got[:, 3],
            want_e)
    require(np.all(np.abs(got[:, 2] - want_z) <= tol), "z", got[:, 2], want_z)


# ------------------------------------------------------------------- P11
RULES["P11"] = "Two sets of momenta, the rapidity kind and thread count."


@st.composite
def pair_sets(draw, max_n=120):
    return {
        "one": draw(momenta(0, max_n)),
        "two": draw(momenta(0, max_n)),
        "pseudo": draw(st.booleans()),
        "threads": draw(st.integers(1, 4)),
        "other": draw(st.sampled_from(["same", "copy", "turned", "heavier",
                                       "two", "two", "two"])),
        "set_threads": draw(st.integers(0, 4)),  # global, 0 for the default
    }


def related(arr, how):
    """A set with the same (pseudo)rapidities, bit for bit, as another."""
    arr = arr.copy()
    if how == "turned":  # by a right angle: exact
        arr[:, 0], arr[:, 1] = -arr[:, 1].copy(), arr[:, 0].copy()
    elif how == "heavier":
        arr[:, 3] = 2.0 * arr[:, 3] + 1.0
    return arr


def with_threads(num, func):
    """Calls with a global number of threads, which must survive it."""
    usual = nb.get_num_threads()
    try:
        if num:
            nb.set_num_threads(num)
        before = nb.get_num_threads()
        out = func()
        require(nb.get_num_threads() == before, "threads setting changed",
                before, "to", nb.get_num_threads())
        return out
    finally:
        nb.set_num_threads(usual)


def ref_rapidity(arr, pseudo):
    """As documented: infinite along the beam."""
    if pseudo:
        x, y, z = arr[:, 0], arr[:, 1], arr[:, 2]
        with np.errstate(all="ignore"):
            return np.asarray(ref_eta(arr), float)
    e, z = arr[:, 3].astype(LD), np.abs(arr[:, 2].astype(LD))
    with np.errstate(all="ignore"):
        rap = 0.5 * np.log((e + z) / (e - z))
        rap = np.where(np.abs(e - z) <= 1e-10, np.inf, rap)
    return np.copysign(np.asarray(rap, float), arr[:, 2])


def ref_delta(one, two, pseudo):
    """Distance bounds (low, high) for every pair."""
    rap_1, rap_2 = ref_rapidity(one, pseudo), ref_rapidity(two, pseudo)
    with np.errstate(all="ignore"):
        drap = rap_1[:, None] - rap_2[None, :]
    drap[np.isnan(drap)] = 0.0
    phi_1 = np.arctan2(one[:, 1], one[:, 0])
    phi_2 = np.arctan2(two[:, 1], two[:, 0])
    dphi = np.angle(np.exp(1j * (phi_1[:, None] - phi_2[None, :])))
    vague_1 = np.hypot(one[:, 0], one[:, 1]) < 1e-9
    vague_2 = np.hypot(two[:, 0], two[:, 1]) < 1e-9
    vague = vague_1[:, None] | vague_2[None, :]
    low = np.hypot(drap, np.where(vague, 0.0, dphi))
    high = np.hypot(drap, np.where(vague, np.pi, dphi))
    # precision to which the rapidities can be known in double precision
    def unsure(arr, rap):
        with np.errstate(all="ignore"):
            if pseudo:
                out = 2e-15 * np.exp(2 * np.abs(rap))
            else:
                diff = arr[:, 3] - np.abs(arr[:, 2])
                out = 4e-16 * arr[:, 3] / np.abs(diff)
                out[np.abs(diff) < 5e-10] = np.inf
                out[(diff == 0)] = 0.0
        out[np.isinf(rap)] = 0.0
        return np.nan_to_num(out, nan=0.0)

    tol = 1e-9 + unsure(one, rap_1)[:, None] + unsure(two, rap_2)[None, :]
    return low, high, tol


def in_bounds(got, low, high, tol):
    with np.errstate(all="ignore"):
        ok = (got >= low - tol) & (got <= high + tol)
    # never negative or undefined, however uncertain
    return (got >= 0) & (ok | (np.isinf(low) & np.isinf(got)) | ~(tol < 1e-3))


@sub("P11", pair_sets(), quick=700, rule="both sets hold particles",
     nontrivial=lambda c: size_of(c["one"]) > 0 and (
         c["other"] != "two" or size_of(c["two"]) > 0))
def distances(case):
    one = expand(case["one"])
    two = one if case["other"] != "two" else expand(case["two"])
    two = related(two, case["other"])
    obj = mom(one)
    other = obj if case["other"] == "same" else mom(two)
    got = with_threads(case["set_threads"], lambda: obj.delta_R(
        other, case["pseudo"], case["threads"]))
    require(got.shape == (len(one), len(two)), "shape", got.shape)
    low, high, tol = ref_delta(one, two, case["pseudo"])
    ok = in_bounds(got, low, high, tol)
    if case["other"] == "same":
        diag = np.diagonal(got)
        require(np.all(diag == 0.0), "diagonal", diag)
        require(np.array_equal(got, got.T), "symmetry")
        ok |= np.eye(len(one), dtype=bool)
    bad = np.argwhere(~ok)
    require(len(bad) == 0, "pair", bad[:1], got[~ok][:1], low[~ok][:1],
            one[bad[0, 0]] if len(bad) else "",
            two[bad[0, 1]] if len(bad) else "")
    back = other.delta_R(obj, pseudo=case["pseudo"], threads=1)
    with np.errstate(all="ignore"):
        gap = np.abs(back.T - got)
    sharp = (high - low) < 1e-12
    require(np.all((gap < 1e-9) | (back.T == got) | ~sharp), "swapped sets")
    if case["pseudo"]:
        require(np.array_equal(got, obj.delta_R(other, threads=1))
                or np.allclose(got, obj.delta_R(other), equal_nan=True),
                "default arguments")
    require(np.array_equal(rows(obj), one), "momenta changed")
    require(np.array_equal(rows(other), two), "momenta changed")


# ------------------------------------------------------------------- P12
RULES["P12"] = "A set of momenta, a radius, rapidity kind and threads."


@st.composite
def cluster_cases(draw):
    return {
        "mom": draw(momenta(0, 90, ("phys", "massless", "dup", "collimated",
                                    "back", "grid"))),
        "radius": draw(st.one_of(
            st.sampled_from([1.0, 0.8, 1.5, 2.5, 0.4, 0.1, 4.0, 50.0]),
            st.floats(0.5, 2.5),
        )),
        "pseudo": draw(st.booleans()),
        "threads": draw(st.integers(1, 4)),
        "set_threads": draw(st.integers(0, 4)),
    }


def ref_clustering(arr, radius, pseudo):
    low, high, tol = ref_delta(arr, arr, pseudo)
    near = np.eye(len(arr), dtype=bool)
    if np.any((low - tol < radius) & (high + tol >= radius) & ~near):
        raise Skip()
    adj = (low < radius) & ~near
    mat = adj.astype(np.int64)
    deg = mat.sum(axis=1)
    tri = np.einsum("ij,jk,ki->i", mat, mat, mat, optimize=True)
    pairs = deg * (deg - 1)
    return np.where(pairs > 0, tri / np.maximum(pairs, 1), 0.0), adj


@sub("P12", cluster_cases(), quick=600,
     rule="coefficients are neither all 0 nor all 1 (counted at run time)")
def clustering(case):
    arr = expand(case["mom"])
    want, adj = ref_clustering(arr, case["radius"], case["pseudo"])
    obj = mom(arr)
    got = with_threads(
        case["set_threads"], lambda: calculate.cluster_coeff_distbn(
            obj, case["radius"], case["pseudo"], case["threads"]))
    require(got.shape == (len(arr),), "shape", got.shape)
    require(close(got, want, 1e-5, 1e-6), "coefficients", got, want)
    if case["pseudo"]:
        again = calculate.cluster_coeff_distbn(obj, case["radius"])
        require(close(again, want, 1e-5, 1e-6), "defaults", again, want)
    require(np.array_equal(rows(obj), arr), "momenta changed")
    return bool(len(arr)) and not np.all((want == 0) | (want == 1))


def at_radius(tier, seed):
    """Transverse particles along the axes: all distances are pi / 2, or pi."""
    rng = np.random.default_rng(seed)
    for _ in range(40 if tier == "quick" else 400):
        yield {
            "turns": rng.integers(0, 4, size=int(rng.integers(3, 12))).tolist(),
            "scale": int(rng.integers(-3, 4)),
            "half": bool(rng.integers(2)),
            "pseudo": bool(rng.integers(2)),
        }


@sub("P12", enum=at_radius, rule="coefficients are not all the same")
def radius_is_excluded(case):
    size = 2.0 ** case["scale"]
    turns = np.array(case["turns"])
    arr = np.zeros((len(turns), 4))
    arr[:, 0] = np.array([1.0, 0.0, -1.0, 0.0])[turns] * size
    arr[:, 1] = np.array([0.0, 1.0, 0.0, -1.0])[turns] * size
    arr[:, 3] = size
    radius = np.pi if case["half"] else np.pi / 2
    gap = np.abs(turns[:, None] - turns)
    gap = np.minimum(gap, 4 - gap)
    adj = (gap < (2 if case["half"] else 1)) & ~np.eye(len(turns), dtype=bool)
    mat = adj.astype(np.int64)
    deg = mat.sum(axis=1)
    tri = np.diag(mat @ mat @ mat)
    pairs = deg * (deg - 1)
    want = np.where(pairs > 0, tri / np.maximum(pairs, 1), 0.0)
    got = calculate.cluster_coeff_distbn(mom(arr), radius, case["pseudo"])
    require(close(got, want, 1e-5, 1e-6), "coefficients", got, "not", want,
            "with a radius which is the distance of pairs")
    return len(set(want.tolist())) > 1


# ------------------------------------------------------------------- P13
RULES["P13"] = "A set of momenta with masks, or weights."


@st.composite
def aggregate_cases(draw):
    case = {"mom": draw(momenta(1, 60)), "seed": draw(seeds)}
    case["masks"] = draw(st.integers(0, 5))
    case["how"] = draw(
        st.sampled_from(["list", "generator", "values", "numpy"])
    )
    case["weight"] = draw(
        st.sampled_from(["none", "column", "full", "structured", "row"])
    )
    case["flip"] = draw(st.booleans())
    return case


@sub("P13", aggregate_cases(), quick=800, rule="two particles or more",
     nontrivial=lambda c: size_of(c["mom"]) > 1)
def aggregates(case):
    arr = expand(case["mom"])
    rng = np.random.default_rng(case["seed"])
    num = len(arr)
    obj = mom(arr)
    probs = rng.choice([0.0, 0.2, 0.7, 1.0], size=case["masks"])
    bits = [rng.random(num) < p for p in probs]
    masks = [gcl.MaskArray(b) for b in bits]
    given = {
        "list": lambda: masks,
        "generator": lambda: (m for m in masks),
        "values": lambda: gcl.MaskGroup(
            {f"m{i}": m for i, m in enumerate(masks)}).values(),
        "numpy": lambda: bits,
    }[case["how"]]()
    if case["masks"]:
        got = calculate.aggregate_momenta(obj, given)
        require(type(got) is gcl.MomentumArray, "type", type(got))
        want = np.array([arr[b].sum(axis=0) for b in bits])
        tol = 1e-12 * (np.abs(arr).sum() + 1)
        require(rows(got).shape == want.shape, "one element for each mask")
        require(np.all(np.abs(rows(got) - want) <= tol), "sums", rows(got),
                want)
    # combined mass
    how = case["weight"]
    weight = None
    plain = np.ones((num, 4))
    if how == "column":
        plain = weight = rng.random((num, 1))
    elif how == "full":
        plain = weight = rng.random((num, 4))
    elif how == "row":
        plain = weight = rng.random((1, 4))
    elif how == "structured":
        plain = rng.random((num, 4))
        order = rng.permutation(4)
        if case["flip"]:  # fields of another order
            weight = np.empty(num, [("xyze"[i], "<f8") for i in order])
            for i, name in enumerate("xyze"):
                weight[name] = plain[:, i]
        else:
            weight = plain.copy().view(PMU).reshape(-1)
    args = () if weight is None else (weight,)
    total = (plain * arr).astype(LD).sum(axis=0)
    square = total[3] ** 2 - (total[:3] ** 2).sum()
    scale = float((np.abs(plain * arr).sum(axis=0) ** 2).sum())
    mixed = ["xyze"[i] for i in rng.permutation(4)]
    for source in (obj, obj.data, obj.data[mixed]):
        got = calculate.combined_mass(source, *args)
        require(np.ndim(got) == 0 and got >= 0, "mass", got)
        want_sq = max(float(square), 0.0)
        require(abs(float(got) ** 2 - want_sq) <= 1e-12 * scale + 1e-300,
                "combined mass", got, want_sq**0.5)
    if weight is None and case["flip"]:  # space-like sum
        bad = mom(arr * np.array([1, 1, 1, 0.01]))
        tot = rows(bad).sum(axis=0)
        if tot[3] ** 2 < 0.9 * (tot[:3] ** 2).sum():
            require(calculate.combined_mass(bad) == 0.0, "negative square")
    # coordinates of the sum
    total = arr.astype(LD).sum(axis=0)
    tot_pt = float(np.hypot(total[0], total[1]))
    for pseudo in (True, False):
        got = calculate.resultant_coords(obj, pseudo)
        require(len(got) == 2, "a pair", got)
        if tot_pt < 1e-6 * np.abs(arr).sum() or tot_pt < 1e-6:
            continue
        require(angle_close(got[1], math.atan2(total[1], total[0]), 1e-7),
                "azimuth of sum", got)
        low = ref_rapidity(np.asarray(total, float)[None], pseudo)[0]
        if abs(low) < 8:
            require(abs(got[0] - low) < 1e-6, "rapidity of sum", got, low)
    require(calculate.resultant_coords(obj)
            == calculate.resultant_coords(obj, pseudo=True)
            or np.isnan(calculate.resultant_coords(obj)).any(), "default")
    # centroid
    pt = np.hypot(arr[:, 0], arr[:, 1])
    for pseudo in (True, False):
        rap = ref_rapidity(arr, pseudo)
        if np.any(pt < 1e-7) or not np.all(np.abs(rap) < 8):
            continue
        phi = np.arctan2(arr[:, 1], arr[:, 0])
        want_rap = (rap * pt).sum() / pt.sum()
        # x < 0, y = 0: either sign of pi is right
        if np.any((arr[:, 1] == 0) & (arr[:, 0] < 0)):
            continue
        want_phi = (phi * pt).sum() / pt.sum()
        got = calculate.weighted_centroid(obj, pseudo)
        require(abs(got[0] - want_rap) < 1e-6, "centroid", got, want_rap)
        require(angle_close(got[1], want_phi, 1e-9), "centroid phi", got,
                want_phi)
        require(abs(got[1]) <= np.pi + 1e-12, "range", got)
        if pseudo:
            require(calculate.weighted_centroid(obj) == got, "default")
    require(np.array_equal(rows(obj), arr), "momenta changed")


# ------------------------------------------------------------------- P14
RULES["P14"] = "A non-empty set of momenta, and seeds of the search."


@st.composite
def shape_cases(draw, max_n=12):
    kind = draw(st.sampled_from(["gauss", "jets", "rows", "phys", "plane"]))
    case = {"kind": kind, "n": draw(st.integers(1, max_n)),
            "seed": draw(seeds), "start": draw(st.integers(0, 2**31))}
    if kind == "rows":
        case["rows"] = draw(st.lists(
            st.tuples(*[st.integers(-5, 5)] * 3).map(list),
            min_size=1, max_size=8))
        if not any(map(any, case["rows"])):
            case["rows"].append([1, 2, -3])
    case["rest"] = draw(st.integers(0, 2))
    case["unit"] = draw(st.sampled_from((*UNITS, 2.0**-20, 2.0**20)))
    return case


def shape_momenta(case):
    return unit_shape_momenta(case) * case.get("unit", 1.0)


def unit_shape_momenta(case):
    rng = np.random.default_rng(case["seed"])
    num = case["n"]
    kind = case["kind"]
    if kind == "rows":
        xyz = np.array(case["rows"], dtype=float)
        num = len(xyz)
    elif kind == "gauss":
        xyz = rng.normal(size=(num, 3)) * 10
    elif kind == "phys":
        from ..gen import make_momenta

        return make_momenta("phys", num, case["seed"])
    elif kind == "plane":
        xyz = rng.normal(size=(num, 3)) * [10, 10, 0]
    else:
        axis = rng.normal(size=3)
        axis /= np.linalg.norm(axis)
        sign = rng.choice([-1, 1], size=(num, 1))
        xyz = sign * rng.exponential(20, size=(num, 1)) * axis
        xyz += rng.normal(size=(num, 3))
    energy = np.sqrt((xyz**2).sum(axis=1))
    return np.concatenate([xyz, energy[:, None]], axis=1)


def thrust_at(axis, xyz):
    return np.abs(xyz @ axis).sum() / np.linalg.norm(xyz, axis=1).sum()


def spherocity_at(axis, xyz):
    ratio = (np.linalg.norm(np.cross(xyz, axis), axis=1).sum()
             / np.linalg.norm(xyz, axis=1).sum())
    return (4.0 / np.pi * ratio) ** 2


def thrust_exact(xyz):
    best = 0.0
    for signs in itertools.product((-1.0, 1.0), repeat=len(xyz) - 1):
        vec = xyz[0] + np.array(signs) @ xyz[1:] if signs else xyz[0]
        best = max(best, float(np.linalg.norm(vec)))
    return best / np.linalg.norm(xyz, axis=1).sum()


def _sphere(num):
    idx = np.arange(num) + 0.5
    z = 1 - idx / num
    phi = np.pi * (1 + 5**0.5) * idx
    r = np.sqrt(1 - z * z)
    return np.stack([r * np.cos(phi), r * np.sin(phi), z], axis=1)


GRID = _sphere(1500)


def around(axis, angle):
    """Axes turned from the given one by a small angle."""
    helper = np.eye(3)[np.argmin(np.abs(axis))]
    u = np.cross(axis, helper)
    u /= np.linalg.norm(u)
    v = np.cross(axis, u)
    for turn in np.linspace(0, 2 * np.pi, 12, endpoint=False):
        side = np.cos(turn) * u + np.sin(turn) * v
        yield np.cos(angle) * axis + np.sin(angle) * side


def shape_ok(val, axis, xyz, functional):
    """The value is the functional at the unit axis."""
    axis = np.asarray(axis, float)
    require(axis.shape == (3,), "axis", axis)
    require(abs(np.linalg.norm(axis) - 1) < 1e-9, "unit axis", axis)
    at_axis = functional(axis, xyz)
    require(abs(val - at_axis) < 1e-9, "value", val, "at its axis", at_axis)


def local_gain(val, axis, xyz, functional, sign):
    """What a small rotation of the axis gains."""
    return max(
        sign * (functional(near, xyz) - val) for near in around(axis, 0.02)
    )


def shape_call(func, pmu, seed):
    out = func(pmu, return_axis=True, rng_seed=seed)
    require(isinstance(out, tuple) and len(out) == 2, "pair", out)
    return out


@sub("P14", shape_cases(), quick=350, rule="two particles or more",
     nontrivial=lambda c: c["n"] > 1 or c["kind"] == "rows")
def axis_shapes(case):
    arr = shape_momenta(case)
    xyz = arr[:, :3]
    seed = case["start"]
    rng = np.random.default_rng(case["seed"] + 1)
    moving = np.linalg.norm(xyz, axis=1) > 0
    if not moving.any():
        raise Skip()
    base = mom(arr)
    rescale = 4.0 ** rng.integers(-12, 12)
    twins = {"energies": mom(arr), "scale": mom(arr * rescale),
             "reflection": mom(arr * [-1, -1, -1, 1])}
    changed = arr.copy()
    changed[:, 3] = rng.random(len(arr)) * 100
    twins["energies"] = mom(changed)
    rest = np.zeros((case["rest"] + 1, 4))
    rest[:, 3] = 1.0
    twins["particles at rest"] = mom(np.concatenate([arr, rest]))
    for name, func, functional, sign, low in (
        ("thrust", calculate.thrust, thrust_at, 1, 0.5),
        ("spherocity", calculate.spherocity, spherocity_at, -1, 0.0),
    ):
        val, axis = shape_call(func, base, seed)
        shape_ok(val, axis, xyz, functional)
        require(-1e-9 <= val <= (1 + 1e-9 if name == "thrust" else 1.7), name,
                val)
        again = func(base, rng_seed=seed)
        require(np.ndim(again) == 0 and again == val, name, "same seed",
                again, val)
        for what, twin in twins.items():
            other = func(twin, rng_seed=seed)
            require(abs(other - val) < 1e-7, name, "changed with", what, val,
                    other)
        perm = rng.permutation(len(arr))
        val_p, axis_p = shape_call(func, mom(arr[perm]), seed)
        shape_ok(val_p, axis_p, xyz, functional)
        # the optimum over all axes is reached, and not beaten
        if name == "thrust" and len(xyz) <= 11:
            best = thrust_exact(xyz)
        else:
            cand = [sign * functional(ax, xyz) for ax in GRID]
            for vec in xyz[moving]:
                cand.append(sign * functional(vec / np.linalg.norm(vec), xyz))
            best = sign * max(cand)
        if name == "thrust" and len(xyz) <= 11:
            require(val <= best + 1e-9, "thrust beats the maximum", val, best)
            require(best >= low - 1e-9)
        reached = sign * val
        tries = 0
        while reached < sign * best - 3e-3 and tries < 300:
            tries += 1
            out = func(base, rng_seed=seed + tries)
            reached = max(reached, sign * out)
        require(reached >= sign * best - 3e-3, name, "never got to", best,
                "only to", sign * reached)
        free, axis = func(base, return_axis=True)
        shape_ok(free, axis, xyz, functional)
        if case["kind"] not in ("gauss", "phys", "jets"):
            continue  # degenerate: a search may end on a flat spot
        short = 0
        for more in range(8):
            val, axis = shape_call(func, base, seed + more)
            shape_ok(val, axis, xyz, functional)
            gain = local_gain(val, axis, xyz, functional, sign)
            short += gain > 1e-3
        require(short <= 3, name, "is not locally optimal for", short,
                "of 8 starts")
    require(np.array_equal(rows(base), arr), "momenta changed")


def kinked(tier, seed):
    """Optima at a kink, where line searches fail."""
    yield {"seed": 133791344, "rows": [
        [-1, 2, -2], [0, 3, 2], [3, 4, -1], [0, 0, -5], [0, -1, -4],
        [-2, 5, 0], [-1, 5, 1], [4, 2, -5]]}
    rng = np.random.default_rng(seed)
    for _ in range(150 if tier == "quick" else 1500):
        rows = rng.integers(-5, 6, size=(int(rng.integers(2, 9)), 3))
        rows[0, :2] = 0
        if not rows[0].any():
            rows[0, 2] = 9
        yield {"seed": int(rng.integers(1 << 30)), "rows": rows.tolist()}


@sub("P14", enum=kinked, rule="every case")
def value_at_axis(case):
    xyz = np.array(case["rows"], float)
    obj = mom(np.c_[xyz, np.linalg.norm(xyz, axis=1)])
    for more in range(5):
        for func, functional in ((calculate.thrust, thrust_at),
                                 (calculate.spherocity, spherocity_at)):
            val, axis = shape_call(func, obj, case["seed"] + more)
            shape_ok(val, axis, xyz, functional)
            again = func(obj, rng_seed=case["seed"] + more)
            require(abs(again - val) < 1e-12, "value alone", again, val)


@sub("P14", shape_cases(max_n=60), quick=800, rule="two particles or more",
     nontrivial=lambda c: c["n"] > 1 or c["kind"] == "rows")
def c_parameter(case):
    arr = shape_momenta(case)
    xyz = arr[:, :3]
    norm = np.linalg.norm(xyz, axis=1)
    keep = norm > 0
    if not keep.any():
        raise Skip()
    p, n = xyz[keep], norm[keep]
    dot = p @ p.T
    nn = n[:, None] * n[None, :]
    want = 1.5 * (nn - dot**2 / nn).sum() / n.sum() ** 2
    got = calculate.c_parameter(mom(arr))
    require(abs(got - want) < 1e-9, "C-parameter", got, want)
    require(-1e-9 <= got <= 1 + 1e-9, "range", got)
    rng = np.random.default_rng(case["seed"] + 1)
    rot, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    turned = np.concatenate([xyz @ rot.T, arr[:, 3:]], axis=1)
    rest = np.array([[0, 0, 0, 1.0]])
    other_e = arr.copy()
    other_e[:, 3] = rng.random(len(arr))
    for what, twin in (
        ("rotation", turned), ("scale", arr * 3.7), ("units", arr * 1e-7),
        ("order", arr[rng.permutation(len(arr))]),
        ("energies", other_e),
        ("reflection", arr * [-1, -1, -1, 1]),
        ("particles at rest", np.concatenate([rest, arr, rest])),
    ):
        other = calculate.c_parameter(mom(twin))
        require(abs(other - got) < 1e-8, "changed with", what, got, other)


# ------------------------------------------------------------------- P38
RULES["P38"] = "Sample size, energy bound, massless fraction and seed."


@sub(
    "P38",
    st.fixed_dictionaries({
        "size": st.one_of(st.integers(0, 5), st.integers(0, 300)),
        "energy": st.one_of(
            st.sampled_from([0.5, 1.0, 13.0, 1e3, 1e5, 1e-6]),
            st.floats(0.01, 1e4)),
        "massless": st.one_of(
            st.sampled_from([0.0, 0.0, 0.3, 0.9, 1.0]), st.floats(0.0, 1.0)),
        "seed": st.integers(0, 2**31),
    }),
    quick=500,
    rule="at least one sample",
    nontrivial=lambda c: c["size"] > 0,
)
def sampling(case):
    make = gcl.MomentumArray.from_spherical_uniform
    args = (case["size"], case["energy"], case["massless"])
    obj = make(*args, seed=case["seed"])
    arr = rows(obj)
    require(arr.shape == (case["size"], 4), "shape", arr.shape)
    again = make(*args, seed=case["seed"])
    require(np.array_equal(rows(again), arr), "same seed, other momenta")
    if case["size"] > 1:
        other = rows(make(*args, seed=case["seed"] + 1))
        require(not np.array_equal(other, arr), "another seed, same momenta")
        require(len(np.unique(arr[:, 3])) == case["size"], "energies repeat")
    e = arr[:, 3]
    mag = np.linalg.norm(arr[:, :3], axis=1)
    require(np.all((e >= 0) & (e <= case["energy"])), "energy range", e)
    require(np.all(mag <= e * (1 + 1e-9)), "space-like", e, mag)
    if case["massless"] == 1.0:
        require(np.all(mag >= e * (1 - 1e-9)), "massive", e, mag)
    if case["massless"] == 0.0 and case["size"] > 50:
        light = np.mean(mag > e * (1 - 1e-9))
        require(light < 0.2, "massless fraction", light)
    heavy = mag[mag < e * (1 - 1e-6)] / e[mag < e * (1 - 1e-6)]
    require(len(heavy) < 9 or np.ptp(heavy) > 1e-9, "masses all alike", heavy)
    for bad in (-0.1, 1.1):
        try:
            make(3, 1.0, massless=bad)
        except ValueError:
            continue
        raise Violation(f"massless={bad} was taken")


@sub(
    "P38",
    st.fixed_dictionaries({
        "energy": st.sampled_from([1.0, 50.0]),
        "massless": st.sampled_from([0.0, 0.25, 0.6, 1.0]),
        "seed": st.integers(0, 2**31),
    }),
    quick=25,
    rule="every case (40000 momenta each)",
)
def isotropy(case):
    num = 40_000
    obj = gcl.MomentumArray.from_spherical_uniform(
        num, case["energy"], case["massless"], seed=case["seed"]
    )
    arr = rows(obj)
    mag = np.linalg.norm(arr[:, :3], axis=1)
    unit = arr[:, :3] / mag[:, None]
    # 7 sigma, on uniform marginals and second moments
    sigma = 7 / math.sqrt(num)
    rng = np.random.default_rng(case["seed"])
    axes = np.concatenate([np.eye(3), rng.normal(size=(4, 3))])
    for axis in axes:
        cos = unit @ (axis / np.linalg.norm(axis))
        for cut in (-0.8, -0.5, 0.0, 0.5, 0.8):
            frac = np.mean(cos < cut)
            require(abs(frac - (cut + 1) / 2) < sigma, "axis", axis, "cos <",
                    cut, "for", frac)
    frac = np.mean(arr[:, 3] < case["energy"] / 3)
    require(abs(frac - 1 / 3) < sigma, "energies are not uniform", frac)
    half = arr[:, 3] > case["energy"] / 2  # directions apart from energies
    require(abs(np.mean(unit[half, 2] < 0) - 0.5) < 1.5 * sigma,
            "direction depends on energy")
    frac = np.mean(mag > arr[:, 3] * (1 - 1e-9))
    require(abs(frac - case["massless"]) < sigma, "massless fraction", frac)


@sub(
    "P38",
    enum=lambda tier, seed: (
        [massless, seed * 1000 + i]
        for i in range(1 if tier == "quick" else 40)
        for massless in (None, 0.0, 0.5, 1.0)
    ),
    rule="every case (two million momenta each)",
)
def fine_distribution(case):
    """Harmonics and bins, for all momenta and for the massless ones."""
    massless, seed = case
    num = 2_000_000
    make = gcl.MomentumArray.from_spherical_uniform
    if massless is None:
        obj, massless = make(num, 10.0, seed=seed), 0.0
    else:
        obj = make(num, 10.0, massless, seed)
    arr = rows(obj)
    mag = np.sqrt((arr[:, :3] ** 2).sum(axis=1))
    light = mag > arr[:, 3] * (1 - 1e-9)
    unit = arr[:, :3] / mag[:, None]
    phi, height = np.arctan2(unit[:, 1], unit[:, 0]), unit[:, 2]
    groups = {"all": slice(None)}
    if 0.0 < massless < 1.0:
        groups.update(light=light, heavy=~light, hot=arr[:, 3] > 6.0,
                      soft=arr[:, 3] < 2.0)
    for name, part in groups.items():
        count = len(phi[part])
        tol = 7 / math.sqrt(2 * count)
        for order in (1, 2, 3):
            for func in (np.cos, np.sin):
                mean = func(order * phi[part]).mean()
                require(abs(mean) < tol, "azimuth is not uniform", name, order,
                        mean)
        bins = np.histogram(height[part], 20, (-1, 1))[0] / count
        require(np.all(np.abs(bins - 0.05) < 7 * math.sqrt(0.05 / count)),
                "cosines are not uniform", name, bins)
        if name in ("hot", "soft"):
            mean = light[part].mean()
            require(abs(mean - massless) < 3.5 / math.sqrt(count),
                    "massless fraction", name, mean)
            continue
        bins = np.histogram(arr[part, 3], 20, (0, 10))[0] / count
        require(np.all(np.abs(bins - 0.05) < 7 * math.sqrt(0.05 / count)),
                "energies are not uniform", name, bins)
    require(abs(light.mean() - massless) <= 3.5 / math.sqrt(num) + 1e-6,
            "massless fraction", light.mean())
