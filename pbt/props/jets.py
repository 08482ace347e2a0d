"""P29 matching, P30 jet clustering, P31 pruning."""
from __future__ import annotations

import itertools
import os
import sys

import numpy as np
from hypothesis import strategies as st
from mcpid.lookup import PdgRecords

import graphicle as gcl
from graphicle import calculate, select

from ..core import RULES, Skip, Violation, require, sub
from ..events import hard_names
from ..gen import expand, make_momenta, momenta, seeds, size_of
from .graphs import bits
from .kinematics import mom, rows

_NAMES = PdgRecords().table["name"].to_dict()


# ------------------------------------------------------------------- P29
RULES["P29"] = "Two sets of momenta, the second at least as large."


def ref_cost(focus, cand):
    """The documented cost: distance, and similarity in pT."""
    def rapidity(arr):
        return np.arctanh(arr[:, 2] / arr[:, 3])

    phi_1, phi_2 = (np.arctan2(a[:, 1], a[:, 0]) for a in (focus, cand))
    dphi = np.angle(np.exp(1j * (phi_1[:, None] - phi_2[None, :])))
    dist = np.hypot(rapidity(focus)[:, None] - rapidity(cand)[None, :], dphi)
    pt_1, pt_2 = (np.hypot(a[:, 0], a[:, 1]) for a in (focus, cand))
    dpt = pt_1[:, None] - pt_2[None, :]

    def recip(var, scale):
        # too small to tell from rounding
        if np.any((var > 0) & (var < 1e-12 * (scale + 1e-6))):
            raise Skip("variance of rounding errors")
        return np.divide(1.0, var, out=np.zeros_like(var), where=var > 0)

    w_pt = recip(np.atleast_1d(np.var(pt_2)), np.max(pt_2, initial=0) ** 2)
    w_dr = recip(np.var(dist, axis=1), np.max(dist, axis=1, initial=0) ** 2)
    return -(
        np.expm1(-0.5 * w_dr[:, None] * dist**2)
        + np.expm1(-0.5 * w_pt * dpt**2)
    )


def best_total(cost):
    num, size = cost.shape
    # dynamic programme over subsets of the candidates
    states = {0: 0.0}
    for i in range(num):
        new = {}
        for used, val in states.items():
            for j in range(size):
                if used & (1 << j):
                    continue
                key, tot = used | (1 << j), val + cost[i, j]
                if tot < new.get(key, np.inf):
                    new[key] = tot
        states = new
    return min(states.values())


STYLES = ("phys", "massless", "dup", "back", "soft", "collimated", "grid")


@st.composite
def matchings(draw):
    num = draw(st.integers(1, 5))
    cand = draw(st.integers(num, 8))
    return {
        "focus": draw(momenta(num, num, styles=STYLES)),
        "cand": draw(momenta(cand, cand, styles=STYLES)),
        "relate": draw(st.sampled_from(["free", "near", "same", "equal"])),
        "threads": draw(st.integers(1, 4)),
        "seed": draw(seeds),
    }


def matching_of(case):
    focus, cand = expand(case["focus"]), expand(case["cand"])
    rng = np.random.default_rng(case["seed"])
    num = len(focus)
    if case["relate"] in ("near", "same"):
        place = rng.permutation(len(cand))[:num]
        scale = rng.uniform(0.7, 1.3, (num, 1)) if case["relate"] == "near" else 1
        cand[place] = focus * scale
    if case["relate"] == "equal":
        cand[:] = cand[0]
    for arr in (focus, cand):
        bad = (np.hypot(arr[:, 0], arr[:, 1]) < 1e-5) | (
            arr[:, 3] - np.abs(arr[:, 2]) < 1e-7 * arr[:, 3]
        )
        arr[bad] = [1.0, 0.0, 0.5, 2.0]
    return focus, cand


@sub("P29", matchings(), quick=900,
     nontrivial=lambda c: size_of(c["cand"]) > 1, rule="a choice exists")
def matching(case):
    focus, cand = matching_of(case)
    one, two = mom(focus), mom(cand)
    cost = ref_cost(focus, cand)
    got = select.arg_closest(one, two, case["threads"])
    require(isinstance(got, list) and all(type(i) is int for i in got),
            "not integers", got)
    require(len(got) == len(focus) and len(set(got)) == len(got)
            and all(0 <= i < len(cand) for i in got), "not a matching", got)
    total = cost[np.arange(len(focus)), got].sum()
    best = best_total(cost)
    require(total <= best + 1e-6, "cost", total, "of", got, "but", best,
            "is possible", cost)
    require(np.array_equal(rows(one), focus) and
            np.array_equal(rows(two), cand), "momenta were changed")
    # the rounding, and so the choice among ties, may depend on the threads
    again = select.arg_closest(one, two)
    require(cost[np.arange(len(focus)), again].sum() <= best + 1e-6,
            "default threads give", again, "cost", cost)
    # permuted candidates and targets
    rng = np.random.default_rng(case["seed"] + 1)
    perm, order = rng.permutation(len(cand)), rng.permutation(len(focus))
    other = select.arg_closest(mom(focus[order]), mom(cand[perm]))
    back = [int(perm[i]) for i in other]
    total = cost[order, back].sum()
    require(total <= best + 1e-6, "permuted gives", total, "not", best)


def improvable(cost, got):
    """How much is gained by the best rearrangement, if any.

    Rows may move to the columns of other rows in a cycle, or along a path
    which ends at a free column.  A matching is optimal if and only if none of
    these gains anything (shortest paths in the residual graph).
    """
    num, size = cost.shape
    got = np.asarray(got)
    free = np.setdiff1d(np.arange(size), got)
    # step[i, j]: row i takes the column of row j; the last is a free column
    step = np.full((num + 1, num + 1), np.inf)
    own = cost[np.arange(num), got]
    step[:num, :num] = cost[:, got] - own[:, None]
    if len(free):
        step[:num, num] = cost[:, free].min(axis=1) - own
        step[num, :num] = 0.0  # so that paths are cycles through it
    for mid in range(num + 1):
        step = np.minimum(step, step[:, mid:mid + 1] + step[mid:mid + 1])
        worst = np.diag(step).min()
        if worst < -1e-6:
            return -worst
    return 0.0


def large_matching(case):
    """Optimal also if there are too many to try all of the matchings."""
    rng = np.random.default_rng(case["seed"])
    focus = make_momenta("phys", case["num"], case["seed"])
    cand = make_momenta("massless", case["cand"], case["seed"] + 1)
    near = min(len(focus), len(cand) // 2)
    cand[:near] = focus[:near] * rng.uniform(0.8, 1.2, (near, 1))
    cand = cand[rng.permutation(len(cand))]
    for arr in (focus, cand):
        bad = (np.hypot(arr[:, 0], arr[:, 1]) < 1e-5) | (
            arr[:, 3] - np.abs(arr[:, 2]) < 1e-7 * arr[:, 3])
        arr[bad] = [1.0, 0.0, 0.5, 2.0]
    got = select.arg_closest(mom(focus), mom(cand), case["threads"])
    require(len(got) == len(focus) and len(set(got)) == len(got)
            and all(0 <= i < len(cand) for i in got), "not a matching", got)
    gain = improvable(ref_cost(focus, cand), got)
    require(gain == 0.0, "a rearrangement gains", gain)


@sub("P29",
     st.fixed_dictionaries({
         "num": st.integers(1, 7), "extra": st.integers(0, 4), "seed": seeds,
         "spread": st.sampled_from([0.01, 0.1])}),
     quick=400, rule="more than one target",
     nontrivial=lambda c: c["num"] > 1)
def obvious_matching(case):
    """Targets far from each other, each with a candidate next to it."""
    rng = np.random.default_rng(case["seed"])
    num = case["num"]
    phi = 2 * np.pi * (np.arange(num) + rng.random()) / num
    rap = rng.uniform(-2, 2) + 0.0 * phi
    pt = 100.0 + 0.0 * phi

    def make(rap, phi, pt):
        return np.stack([pt * np.cos(phi), pt * np.sin(phi),
                         pt * np.sinh(rap), pt * np.cosh(rap)], axis=1)

    focus = make(rap, phi, pt)
    noise = case["spread"] * rng.uniform(-1, 1, size=(3, num))
    cand = make(rap + noise[0], phi + noise[1], pt * (1 + noise[2]))
    far = make(rng.choice([-1, 1], case["extra"]) * 4.5,
               rng.uniform(-3, 3, case["extra"]), np.full(case["extra"], 3.0))
    cand = np.concatenate([cand, far])
    perm = rng.permutation(len(cand))
    if len(cand) < 2:
        return
    got = select.arg_closest(mom(focus), mom(cand[perm]))
    cost = ref_cost(focus, cand)
    if cost.trace() > best_total(cost) + 1e-9:
        return False
    require(perm[got].tolist() == list(range(num)), "matched",
            perm[got].tolist())


# ---------------------------------------------------- tagging of jets
TAG_PDGS = [1, -1, 2, -2, 5, -5, 6, -6, 21, 24, -24, 11, -11, 12, 13, 22]


@st.composite
def tags(draw):
    # many partons of few kinds, or any
    codes = draw(st.one_of(
        st.just(TAG_PDGS), st.lists(st.sampled_from(TAG_PDGS), min_size=1,
                                    max_size=3)))
    stage = draw(st.one_of(st.just([21, 22, 23, 24]), st.just([23])))
    return {
        "hard": draw(st.lists(
            st.tuples(st.sampled_from(codes), st.sampled_from(stage),
                      st.booleans()).map(list), min_size=1, max_size=7)),
        "jets": draw(st.integers(1, 8)),
        "num": draw(st.integers(1, 25)),
        "kind": draw(st.sampled_from(["none", "black", "white"])),
        "list": draw(st.lists(st.sampled_from(TAG_PDGS), max_size=3)),
        "sign": draw(st.booleans()),
        "intermediate": draw(st.booleans()),
        "outgoing": draw(st.booleans()),
        "own_pmu": draw(st.booleans()),
        "omit": draw(st.booleans()),  # arguments at their default
        "seed": draw(seeds),
    }


@sub("P29", tags(), quick=500, rule="some jets were tagged")
def tagging(case):
    rng = np.random.default_rng(case["seed"])
    num = case["num"]
    hard = case["hard"]
    size = num + len(hard)
    place = rng.permutation(size)
    spots = np.sort(place[: len(hard)])  # hard partons, in this order
    rest = np.sort(place[len(hard):])
    pdg = rng.choice([211, -211, 22, 130], size=size)
    status = rng.choice([83, -51, 91], size=size)
    final = np.ones(size, bool)
    for spot, (code, stat, neg) in zip(spots, hard):
        pdg[spot], status[spot] = code, -stat if neg else stat
        final[spot] = False
    pmu = expand({"gen": ["phys", size, case["seed"]]})
    inputs = pmu[rest]
    clustered = None
    if case["own_pmu"]:
        inputs = expand({"gen": ["massless", num + 3, case["seed"] + 1]})
        clustered = mom(inputs)
    owner = rng.integers(0, case["jets"] + 1, size=len(inputs))
    owner[: case["jets"]] = np.arange(case["jets"])[: len(owner)]
    jets = [owner == i for i in range(case["jets"])]
    jets = [j for j in jets if j.any()]
    masks = [gcl.MaskArray(j.copy()) for j in jets]
    particles = gcl.ParticleSet.from_numpy(
        pdg=pdg, pmu=pmu, status=status, final=final
    )
    stages = {22} if case["intermediate"] else set()
    stages |= {23} if case["outgoing"] else set()
    norm = (lambda p: p) if case["sign"] else abs
    listed = {norm(p) for p in case["list"]}
    chosen = []
    for spot, (code, stat, _) in zip(spots, hard):
        if stat not in stages:
            continue
        inside = norm(code) in listed
        if case["kind"] == "black" and inside:
            continue
        if case["kind"] == "white" and not inside:
            continue
        chosen.append((int(spot), code))
    kwargs = {}
    if case["kind"] == "black":
        kwargs["blacklist"] = list(case["list"])
    if case["kind"] == "white":
        kwargs["whitelist"] = list(case["list"])
    for key, arg, default in (("intermediate", "intermediate", False),
                              ("outgoing", "outgoing", True),
                              ("sign", "sign_sensitive", False)):
        if case[key] is not default or not case.get("omit"):
            kwargs[arg] = case[key]
    call = lambda: select.monte_carlo_tag(  # noqa: E731
        particles, masks, clustered, **kwargs)
    bad = (
        ValueError if not stages else
        IndexError if not chosen else
        ValueError if len(chosen) > len(masks) else None
    )
    if bad is not None:
        try:
            call()
        except bad:
            return False
        raise Violation(f"expected {bad.__name__}")
    got = call()
    names = hard_names([c for _, c in chosen], _NAMES.__getitem__)
    require(list(got.keys()) == names, "names", list(got.keys()), "not", names)
    sums = np.array([inputs[j].sum(axis=0) for j in jets])
    focus = pmu[[s for s, _ in chosen]]
    cost = ref_cost(focus, sums)
    total, used = 0.0, set()
    for i, name in enumerate(names):
        mask = bits(got[name])
        hits = [k for k, j in enumerate(jets) if np.array_equal(j, mask)]
        require(len(hits) == 1, name, "is not one of the jets")
        require(hits[0] not in used, "jet was tagged twice")
        used.add(hits[0])
        total += cost[i, hits[0]]
    best = best_total(cost)
    require(total <= best + 1e-6, "cost", total, "but", best, "is possible")
    agg = np.any([jets[i] for i in used], axis=0)
    require(np.array_equal(np.asarray(got.data), agg), "aggregate")
    for mask, jet in zip(masks, jets):
        require(np.array_equal(bits(mask), jet), "jets were changed")
    return True


@sub("P29", st.fixed_dictionaries({"seed": seeds, "which": st.integers(0, 5)}),
     quick=18, rule="every case",
     examples=[{"seed": 0, "which": i} for i in range(6)])
def tagging_refuses(case):
    pmu = expand({"gen": ["phys", 5, case["seed"]]})
    particles = gcl.ParticleSet.from_numpy(
        pdg=[5, -5, 211, 211, 22], pmu=pmu, status=[-23, -23, 83, 83, 91],
        final=[0, 0, 1, 1, 1])
    masks = [gcl.MaskArray([1, 0, 0]), gcl.MaskArray([0, 1, 1])]
    kwargs = {}
    if case["which"] == 0:
        masks = []
    if case["which"] == 1:
        kwargs = {"blacklist": [5], "whitelist": [5]}
    if case["which"] == 2:
        masks = [gcl.MaskArray([1, 0]), gcl.MaskArray([0, 1])]
    if case["which"] == 3:
        kwargs = {"clustered_pmu": mom(pmu[:2])}
    if case["which"] == 4:
        kwargs = {"blacklist": [5], "whitelist": []}
    if case["which"] == 5:
        kwargs = {"blacklist": [], "whitelist": [5]}
    try:
        select.monte_carlo_tag(particles, masks, **kwargs)
    except ValueError:
        return
    raise Violation("not refused", str(case["which"]))


# ------------------------------------------------------------------- P30
RULES["P30"] = "Particle sets, radius, power and cuts."


class Quiet:
    """FastJet greets on standard output, at file descriptor level."""

    def __enter__(self):
        sys.stdout.flush()
        self.saved = os.dup(1)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.close(null)

    def __exit__(self, *_):
        sys.stdout.flush()
        os.dup2(self.saved, 1)
        os.close(self.saved)


def ref_jets(pmu, radius, power):
    """Sequential recombination with summed momenta, the slow way."""
    items = [(pmu[i].copy(), frozenset([i])) for i in range(len(pmu))]
    jets = []
    margin = 1e-9
    while items:
        arr = np.array([p for p, _ in items])
        pt2 = arr[:, 0] ** 2 + arr[:, 1] ** 2
        # stable form of the rapidity
        m2 = np.maximum(
            0.0, arr[:, 3] ** 2 - (arr[:, :3] ** 2).sum(axis=1))
        rap = np.log((arr[:, 3] + np.abs(arr[:, 2]))
                     / np.sqrt(pt2 + m2)) * np.sign(arr[:, 2])
        phi = np.arctan2(arr[:, 1], arr[:, 0])
        scale = pt2 ** power
        dphi = np.abs(phi[:, None] - phi[None, :])
        dphi = np.minimum(dphi, 2 * np.pi - dphi)
        dist = ((rap[:, None] - rap[None, :]) ** 2 + dphi**2) / radius**2
        dist = dist * np.minimum(scale[:, None], scale[None, :])
        np.fill_diagonal(dist, scale)
        upper = np.triu_indices(len(items))
        vals = dist[upper]
        order = np.argsort(vals)
        k = int(order[0])
        if len(order) > 1:
            gap = vals[order[1]] - vals[k]
            if gap <= margin * max(vals[order[1]], 1e-300):
                raise Skip("ties in the recombination")
        i, j = int(upper[0][k]), int(upper[1][k])
        if i == j:
            jets.append(items.pop(i))
        else:
            b, a = items.pop(j), items.pop(i)
            items.append((a[0] + b[0], a[1] | b[1]))
    return jets


@st.composite
def jet_cases(draw):
    return {
        "pmu": draw(momenta(0, 30, rows_max=4,
                            styles=("phys", "massless", "collimated", "back",
                                    "soft"))),
        "radius": draw(st.one_of(
            st.sampled_from([0.05, 0.4, 0.8, 1.0, 1.5]),
            st.floats(0.03, 3.0))),
        "p": draw(st.one_of(
            st.sampled_from([-1, 0, 1, -1.0, 0.0, 1.0, -0.5, 0.5, 2, -2]),
            st.floats(-2.0, 2.0))),
        "pt_cut": draw(st.sampled_from([None, None, 0.0, 5.0, 20.0])),
        "eta_cut": draw(st.sampled_from([None, None, None, 0.0, 0.5, 2.0, 3.0])),
        "top_k": draw(st.sampled_from([None, None, 1, 2, 3, 40])),
        "seed": draw(seeds),
    }


@sub("P30", jet_cases(), quick=500, rule="some jet of several particles")
def jet_clusters(case):
    pmu = expand(case["pmu"])
    pt = np.hypot(pmu[:, 0], pmu[:, 1])
    pmu = pmu[(pt > 1e-7) & (pmu[:, 3] - np.abs(pmu[:, 2]) > 1e-9 * pmu[:, 3])]
    if len(pmu) == 0:
        if case["pmu"].get("rows", 1) != []:
            raise Skip("only beam particles")
    jets = ref_jets(pmu, case["radius"], case["p"])
    jet_pt = np.array([np.hypot(j[0][0], j[0][1]) for j in jets])
    order = np.argsort(-jet_pt)
    if np.any(np.abs(np.diff(jet_pt[order])) <= 1e-9 * jet_pt[order][1:]):
        raise Skip("equal jets")
    want = [jets[i] for i in order]

    def edge(val, cut):
        if abs(val - cut) <= 1e-9 * cut:
            raise Skip("on the cut")

    kept = []
    for total, members in want:
        tot_pt = np.hypot(total[0], total[1])
        if case["pt_cut"] is not None:
            edge(tot_pt, case["pt_cut"])
            if tot_pt < case["pt_cut"]:
                continue
        if case["eta_cut"] is not None:
            eta = abs(np.arcsinh(total[2] / tot_pt))
            edge(eta, case["eta_cut"])
            if eta > case["eta_cut"]:
                continue
        kept.append(sorted(members))
    kept = kept[: case["top_k"]]
    kwargs = {k: case[k] for k in ("pt_cut", "eta_cut", "top_k")
              if case[k] is not None}
    arr = mom(pmu)
    with Quiet():
        got = select.fastjet_clusters(arr, case["radius"], case["p"], **kwargs)
    require(isinstance(got, list), "not a list", type(got))
    found = [np.flatnonzero(bits(m)).tolist() for m in got]
    require(all(len(m) == len(pmu) for m in got), "lengths of masks")
    require(found == kept, "jets", found, "not", kept)
    require(np.array_equal(rows(arr), pmu), "momenta were changed")
    if not kwargs and len(pmu):
        total = np.sum([bits(m).astype(int) for m in got], axis=0)
        require(np.all(total == 1), "not a partition", total)
    perm = np.random.default_rng(case["seed"]).permutation(len(pmu))
    with Quiet():
        other = select.fastjet_clusters(
            mom(pmu[perm]), case["radius"], case["p"], **kwargs)
    back = [sorted(perm[np.flatnonzero(bits(m))].tolist()) for m in other]
    require(back == kept, "permuted", back, "not", kept)
    return any(len(k) > 1 for k in kept)


def against_fastjet(case):
    """The jets of many particles are those which FastJet itself finds."""
    import fastjet as fj

    pmu = make_momenta(case["style"], case["num"], case["seed"])
    pt = np.hypot(pmu[:, 0], pmu[:, 1])
    pmu = pmu[(pt > 1e-7) & (pmu[:, 3] - np.abs(pmu[:, 2]) > 1e-9 * pmu[:, 3])]
    with Quiet():
        given = []
        for idx, row in enumerate(pmu.tolist()):
            given.append(fj.PseudoJet(*row))
            given[-1].set_user_index(idx)
        names = {-1: fj.antikt_algorithm, 0: fj.cambridge_algorithm,
                 1: fj.kt_algorithm}
        if case["p"] in names:
            how = fj.JetDefinition(names[case["p"]], case["radius"])
        else:
            how = fj.JetDefinition(fj.genkt_algorithm, case["radius"],
                                   float(case["p"]))
        found = fj.ClusterSequence(given, how)
        jets = [(j.pt(), j.eta(),
                 tuple(sorted(c.user_index() for c in j.constituents())))
                for j in found.inclusive_jets(0.0)]
    jets.sort(reverse=True)
    pts = np.array([j[0] for j in jets])
    if np.any(np.abs(np.diff(pts)) <= 1e-9 * pts[1:]):
        raise Skip("equal jets")
    cut = float(np.median(pts) * 1.01)
    for kwargs in ({}, {"pt_cut": cut}, {"eta_cut": 1.0}, {"top_k": 7},
                   {"pt_cut": cut, "eta_cut": 2.0, "top_k": 11}):
        want = [j[2] for j in jets
                if j[0] >= kwargs.get("pt_cut", 0.0)
                and abs(j[1]) < kwargs.get("eta_cut", np.inf)]
        want = want[: kwargs.get("top_k")]
        with Quiet():
            got = select.fastjet_clusters(
                mom(pmu), case["radius"], case["p"], **kwargs)
        got = [tuple(np.flatnonzero(bits(m)).tolist()) for m in got]
        require(got == want, len(got), "jets instead of", len(want), "with",
                kwargs, [(len(a), len(b)) for a, b in zip(got, want)
                         if a != b][:3])


@sub("P30",
     st.sampled_from([{"pt_cut": -1.0}, {"eta_cut": -0.5}, {"radius": -1.0},
                      {"top_k": 0}, {"top_k": -2}, {"top_k": 1.5}]),
     quick=6, rule="every case")
def jets_refuse(case):
    kwargs = {"radius": 0.4, "p_val": -1, **case}
    try:
        with Quiet():
            select.fastjet_clusters(
                mom(expand({"gen": ["phys", 5, 0]})), **kwargs)
    except ValueError:
        return
    raise Violation("not refused", str(case))


# ------------------------------------------------------------------- P31
RULES["P31"] = "Particle sets, radius, centre and mask."


@st.composite
def prunes(draw):
    return {
        "pmu": draw(momenta(1, 40, rows_max=3,
                            styles=("phys", "massless", "dup", "back", "soft",
                                    "collimated", "grid"))),
        "radius": draw(st.one_of(
            st.sampled_from([0.4, 1.0, 1.7, 2.5, 0.1, 4.0, 0.0, 30.0]),
            st.floats(0.01, 12.0))),
        "centre": draw(st.sampled_from(["none", "particle", "particle",
                                        "random", "far"])),
        "turns": draw(st.integers(-1, 1)),
        "mask": draw(st.sampled_from(["none", "some", "some", "all",
                                      "nothing"])),
        "kind": draw(st.sampled_from(["mask", "group"])),
        "seed": draw(seeds),
    }


@sub("P31", prunes(), quick=1200, rule="some particles inside, some outside")
def pruning(case):
    pmu = expand(case["pmu"])
    pt = np.hypot(pmu[:, 0], pmu[:, 1])
    pmu[pt < 1e-5] = [1.0, 0.0, 0.5, 2.0]
    rng = np.random.default_rng(case["seed"])
    num = len(pmu)
    keep = {
        "none": np.ones(num, bool),
        "some": rng.random(num) < 0.6,
        "all": np.ones(num, bool),
        "nothing": np.zeros(num, bool),
    }[case["mask"]]
    eta = np.arcsinh(pmu[:, 2] / np.hypot(pmu[:, 0], pmu[:, 1]))
    phi = np.arctan2(pmu[:, 1], pmu[:, 0])
    kwargs = {}
    tol = 1e-9
    if case["centre"] == "none":
        tot = pmu[keep].sum(axis=0)
        tot_pt = np.hypot(tot[0], tot[1])
        if tot_pt < 1e-6 * np.abs(pmu[keep]).sum() + 1e-9:
            raise Skip("no direction")
        centre = (np.arcsinh(tot[2] / tot_pt), np.arctan2(tot[1], tot[0]))
        tol = 1e-7
    else:
        if case["centre"] == "particle":
            idx = int(rng.integers(num))
            centre = (float(eta[idx]), float(phi[idx]))
        elif case["centre"] == "random":
            centre = (float(rng.normal(0, 1.5)), float(rng.uniform(-3.2, 3.2)))
        else:
            centre = (12.0, 0.3)
        centre = (centre[0], centre[1] + 2 * np.pi * case["turns"])
        kwargs["centre"] = centre
    if case["mask"] != "none":
        mask = gcl.MaskArray(keep.copy())
        if case["kind"] == "group":
            half = np.arange(num) % 2 == 0
            mask = gcl.MaskGroup({"a": keep & half, "b": keep & ~half},
                                 agg_op="or")
        kwargs["mask"] = mask
    dphi = np.angle(np.exp(1j * (phi - centre[1])))
    dist = np.hypot(eta - centre[0], dphi)
    if np.any(np.abs(dist - case["radius"]) < tol * (1 + dist)):
        if case["radius"] > 0 or case["centre"] != "particle":
            raise Skip("on the edge")
    want = keep & (dist < case["radius"])
    if case["radius"] == 0.0:
        want[:] = False
    arr = mom(pmu)
    got = bits(select.centroid_prune(arr, case["radius"], **kwargs))
    require(np.array_equal(got, want), "kept", np.flatnonzero(got), "not",
            np.flatnonzero(want), "distances", dist)
    require(np.array_equal(rows(arr), pmu), "momenta were changed")
    if "mask" in kwargs:
        require(np.array_equal(np.asarray(mask.data), keep),
                "mask was changed")
    return bool(want.any() and (keep & ~want).any())
