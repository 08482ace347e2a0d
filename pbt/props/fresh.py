"""P39: answers follow the data, also if it is replaced between questions."""
from __future__ import annotations

from itertools import product

import numpy as np
from hypothesis import strategies as st

import graphicle as gcl

from ..core import require, sub
from ..events import events
from ..gen import seeds
from .purity import (_EVENT, QUERIES, alike, freeze, run_query, warm,
                     world_of)


def new_momenta(arr, rng):
    """Other momenta of the same number of particles."""
    out = arr[rng.permutation(len(arr))].copy()
    out[:, :3] *= rng.choice([-1.0, 1.0], size=3)
    out = out[:, [1, 0, 2, 3]] if rng.random() < 0.5 else out
    return out * rng.uniform(0.5, 2.0, size=(len(arr), 1))


def put_momenta(obj, rng):
    data = np.asarray(obj.data)
    arr = np.stack([data[n] for n in "xyze"], axis=1).reshape(-1, 4)
    obj.data = new_momenta(arr, rng)


FLAVOURS = {1: 2, 2: 1, 3: 4, 4: 3, 11: 13, 13: 11, 21: 22, 22: 21,
            211: 321, 321: 211}


def put_codes(obj, rng):
    new = np.asarray(obj.data).copy()
    for idx, code in enumerate(new.tolist()):
        new[idx] = FLAVOURS.get(abs(code), abs(code)) * (
            -1 if code < 0 else 1)
    assign(obj, new, rng)


def assign(obj, new, rng):
    """Through the property, or in place."""
    if rng.random() < 0.5 or not obj.data.flags.writeable:
        obj.data = new
    else:
        obj.data[...] = new


def put_status(obj, rng):
    new = np.asarray(obj.data).copy()
    soft = (np.abs(new) < 20) | (np.abs(new) > 29)
    pick = soft & (rng.random(len(new)) < 0.3)
    new[pick] = rng.choice([1, -1, 51, 83, -84, 62], size=pick.sum())
    assign(obj, new, rng)


def put_color(obj, rng):
    new = np.asarray(obj.data).copy()
    shift = int(rng.integers(1, 40))
    for name in ("color", "anticolor"):
        new[name] = np.where(new[name] > 0, new[name] + shift, 0)
    pick = rng.random(len(new)) < 0.1
    new["color"][pick] = 0
    obj.data = np.stack([new["color"], new["anticolor"]], axis=1)


def put_mask(obj, rng):
    num = len(obj)
    new = rng.random(num) < 0.5
    how = int(rng.integers(3))
    if how == 0:
        obj.data = new
    elif how == 1:
        obj[:] = new
    elif num:
        spot = int(rng.integers(num))
        obj[spot] = not obj[spot]


def put_final(obj, rng):
    new = np.asarray(obj.data).copy()
    on = np.flatnonzero(new)
    if len(on):
        new[rng.choice(on)] = False
    obj[...] = new


def put_group(group, rng):
    key = list(group)[int(rng.integers(len(group)))]
    item = group[key]
    if isinstance(item, gcl.MaskGroup):
        if len(item) and rng.random() < 0.8:
            put_group(item, rng)
        else:
            group.agg_op = "and" if str(group.agg_op).endswith("OR") else "or"
    elif rng.random() < 0.5:
        put_mask(item, rng)
    else:
        group[key] = gcl.MaskArray(rng.random(len(item)) < 0.5)


def put_edges(graph, rng):
    """The same topology under other vertex names, or fewer links."""
    edges = np.asarray(graph.adj.edges)
    pairs = np.stack([edges["src"], edges["dst"]], axis=1)
    if rng.random() < 0.5:
        shift = int(rng.integers(1, 1000))
        pairs = np.where(pairs < 0, pairs - shift, pairs + shift)
    else:  # one link of the chain is cut
        spot = int(rng.integers(len(pairs)))
        pairs[spot, 1] = (np.abs(pairs).max() + 1) * np.sign(pairs[spot, 1])
    graph.adj = gcl.AdjacencyList(pairs)


def put_weights(adj, rng):
    new = rng.random(len(adj)) + 2.0
    if rng.random() < 0.5:
        adj.weights = new
    else:
        adj.weights[...] = new


CHANGES = {
    "links": lambda w, r: put_weights(w["links"], r),
    "pmu": lambda w, r: put_momenta(w["pmu"], r),
    "mini": lambda w, r: put_momenta(w["mini"], r),
    "cand": lambda w, r: put_momenta(w["cand"], r),
    "single": lambda w, r: put_momenta(w["single"], r),
    "event pmu": lambda w, r: put_momenta(w["graph"].pmu, r),
    "event pdg": lambda w, r: put_codes(w["graph"].pdg, r),
    "event status": lambda w, r: put_status(w["graph"].status, r),
    "event color": lambda w, r: put_color(w["graph"].color, r),
    "event final": lambda w, r: put_final(w["graph"].final, r),
    "event edges": lambda w, r: put_edges(w["graph"], r),
    "new pmu": lambda w, r: setattr(
        w["graph"].particles, "pmu", gcl.MomentumArray(new_momenta(
            np.array(w["graph"].pmu.data.tolist()).reshape(-1, 4), r))),
    "masks": lambda w, r: [put_mask(m, r) for m in w["masks"]],
    "jets": lambda w, r: [put_mask(m, r) for m in w["jets"]],
    "group": lambda w, r: put_group(w["group"], r),
    "desc": lambda w, r: put_group(w["desc"], r) if len(w["desc"]) else None,
    "bools": lambda w, r: w["bools"].__setitem__(
        ..., r.random(w["bools"].shape) < 0.5),
    "weights": lambda w, r: w["weights"].__setitem__(
        ..., r.random(w["weights"].shape) + 0.1),
    "matrix": lambda w, r: w["matrix"].__setitem__(
        ..., w["matrix"][::-1, ::-1].copy() * 1.5),
    "codes": lambda w, r: w["codes"].__setitem__(
        ..., r.choice([1, -2, 4, 22, -11, 211], size=4)),
}
# what each query looks at, as far as it is to be replaced
USES = {
    "weighted_centroid": "pmu", "resultant_coords": "pmu",
    "combined_mass": "pmu weights", "cluster_coeff": "pmu",
    "aggregate": "pmu masks", "thrust": "pmu", "spherocity": "pmu",
    "c_parameter": "pmu", "jaccard": "bools weights masks group",
    "delta_R": "pmu mini cand", "shift_phi": "pmu", "shift_rapidity": "pmu",
    "shift_eta": "pmu", "arithmetic": "pmu mini",
    "comparison": "pmu mini codes", "pdg_mask": "codes", "flatten": "group",
    "drop": "group", "group_algebra": "group bools masks",
    "serialize": "group", "subset": "bools group",
    "from_matrix": "matrix", "links": "links bools", "display": "group pmu", "any_overlap":
    "desc group", "prune": "pmu masks", "arg_closest": "mini cand",
    "jets": "pmu", "tag": "jets pmu", "cut_adj": "matrix",
    "knn_adj": "matrix", "delta_R_aff": "pmu", "parton_hadron": "mini pmu",
    "split": "single", "split_hardest": "pmu cand", "axis": "cand",
    "hierarchy_desc": "desc",
}
EVENT_USES = ("event pmu", "event pdg", "event status", "event color",
              "event final", "event edges", "new pmu")
OF_EVENT = ("comparison", "pdg_mask", "in_range", "serialize", "subset",
            "adjacency", "display", "find_vertex", "vertex_descendants",
            "edge_descendants", "hadron_vertices", "hard_descendants",
            "hard_targets", "hierarchy", "hierarchy_desc", "partition",
            "color_singlets", "clusters", "tag")


def answer(name, world, part):
    """Result of a query, or how it refuses; changed events may be odd."""
    try:
        return freeze(run_query(name, world, part))
    except Exception as err:
        return ("refused", type(err).__name__)


def uses(name):
    out = [u for u in CHANGES if u in USES.get(name, "").split()]
    return out + (list(EVENT_USES) if name in OF_EVENT else [])


@st.composite
def refresh_cases(draw):
    name = draw(st.sampled_from(sorted(n for n in QUERIES if uses(n))))
    return {
        "event": draw(events()),
        "seed": draw(seeds),
        "warm": draw(st.booleans()),
        "query": name,
        "part": draw(st.sampled_from([None, 0, 1, 2, 3, 4, 5])),
        "changes": [[draw(st.sampled_from(uses(name))), draw(seeds)]
                    for _ in range(draw(st.integers(1, 3)))],
    }


def every_change(tier, seed):
    """Every query, with each of the things it looks at replaced."""
    for num in range(1 if tier == "quick" else 30):
        for name in sorted(QUERIES):
            parts = QUERIES[name]
            parts = len(parts) if isinstance(parts, tuple) else 1
            for change, part in product(uses(name), range(parts)):
                yield {"event": dict(_EVENT, seed=seed * 100 + num),
                       "seed": seed + num, "warm": num % 2 == 1,
                       "query": name, "part": part,
                       "changes": [[change, seed + num]]}


def judge(case):
    name, part = case["query"], case["part"]
    world = world_of(case)
    if case["warm"]:
        warm(world)
    first = answer(name, world, part)
    told = False
    for idx in range(len(case["changes"])):
        for (what, seed) in case["changes"][idx: idx + 1]:
            CHANGES[what](world, np.random.default_rng(seed))
        got = answer(name, world, part)
        other = world_of(case)
        for what, seed in case["changes"][: idx + 1]:
            CHANGES[what](other, np.random.default_rng(seed))
        want = answer(name, other, part)
        require(alike(got, want), name, "after replacing",
                case["changes"][: idx + 1], "gives", got, "not", want,
                "(at first", first, ")")
        told = told or not alike(got, first)
    return told


@sub("P39", refresh_cases(), quick=60, thorough=5000,
     rule="the replaced data changes the answer")
def refreshed(case):
    return judge(case)


@sub("P39", enum=every_change, rule="the replaced data changes the answer")
def each_refreshed(case):
    return judge(case)
