"""P04: copies are independent, and queries leave their arguments alone."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

import graphicle as gcl
from graphicle import calculate, matrix, select, transform

from ..core import RULES, require, sub
from ..events import build, events
from ..gen import seeds
from .arrays import values
from .masks import mask_trees, to_group
from .records import event_of, record_cases, record_parts

RULES["P04"] = (
    "A structure, and mutations of it and of its copy; an event, and a chain"
    " of read-only calls on it."
)
DERIVED = {
    "MomentumArray": ("x", "y", "z", "energy", "pt", "eta", "rapidity", "phi",
                      "theta", "mass", "mass_t"),
    "PdgArray": ("name", "charge", "mass", "quarks"),
    "StatusArray": ("hard_mask",),
    "AdjacencyList": ("nodes", "roots", "leaves", "edges",
                      "matrix"),
    "ColorArray": ("color", "anticolor"),
}
ATTRS = ("pdg", "pmu", "color", "helicity", "status", "final")


def freeze(obj, derived=False):
    """Everything there is to see in an object, as comparable plain data."""
    kind = type(obj).__name__
    if obj is None or isinstance(obj, (bool, int, str, bytes, slice)):
        return obj
    if isinstance(obj, (float, np.generic)):
        return ("num", repr(obj.item() if isinstance(obj, np.generic)
                            else obj))
    if isinstance(obj, np.ndarray):
        return ("nd", str(obj.dtype), obj.shape, obj.tolist().__repr__())
    if isinstance(obj, gcl.MaskGroup):
        return ("group", obj.agg_op if derived else str(obj.agg_op),
                [(k, freeze(v, derived)) for k, v in obj.items()])
    if isinstance(obj, (gcl.ParticleSet, gcl.Graphicle)):
        out = [kind] + [(a, freeze(getattr(obj, a), derived)) for a in ATTRS]
        if isinstance(obj, gcl.Graphicle):
            out.append(freeze(obj.adj, derived))
        return out
    if isinstance(obj, gcl.AdjacencyList):
        out = [kind, freeze(np.asarray(obj.edges)), freeze(obj.weights)]
        derived = derived and len(obj) > 0
    elif hasattr(obj, "serialize") and hasattr(obj, "data"):
        out = [kind, freeze(np.asarray(obj.data))]
    elif hasattr(obj, "toarray"):
        return (kind, freeze(obj.toarray()))
    elif isinstance(obj, dict):
        return ("dict", [(k, freeze(v, derived)) for k, v in obj.items()])
    elif isinstance(obj, (list, tuple)):
        return (kind, [freeze(v, derived) for v in obj])
    elif isinstance(obj, (set, frozenset)):
        return (kind, sorted(map(repr, obj)))
    else:
        raise TypeError(kind)
    if derived:
        for attr in DERIVED.get(kind, ()):
            out.append((attr, freeze(getattr(obj, attr))))
    return out


_NUMBERS = {"nan": float("nan"), "inf": float("inf")}


def alike(one, two):
    """The same answer, where the last digits may depend on the threads."""
    if one == two:
        return True
    if type(one) is not type(two) or not isinstance(one, (tuple, list)):
        return False
    if len(one) != len(two):
        return False
    if one and one[0] in ("num", "nd"):
        if one[:-1] != two[:-1]:
            return False
        nums = [eval(item[-1], {"__builtins__": {}}, _NUMBERS)
                for item in (one, two)]
        try:
            return bool(np.allclose(*nums, rtol=1e-9, atol=1e-12,
                                    equal_nan=True))
        except TypeError:  # records
            return False
    return all(alike(a, b) for a, b in zip(one, two))


def warm(obj):
    freeze(obj, True)


# ----------------------------------------------------------------- copies
KINDS = ("pdg", "pmu", "color", "helicity", "status", "mask", "edges",
         "weighted", "group", "group", "pset", "graph", "graph", "event")


@st.composite
def copy_cases(draw):
    kind = draw(st.sampled_from(KINDS))
    case = {"kind": kind, "seed": draw(seeds), "warm": draw(st.booleans()),
            "num": draw(st.integers(1, 12)),
            "steps": draw(st.lists(
                st.tuples(st.sampled_from(["orig", "copy"]),
                          st.integers(0, 7), seeds).map(list),
                min_size=1, max_size=6))}
    if kind == "group":
        case["tree"] = draw(mask_trees())
    if kind in ("pset", "graph"):
        case["record"] = draw(record_cases(1, 12))
    if kind == "event":
        case["event"] = draw(events())
    return case


def make(case):
    kind = case["kind"]
    if kind == "group":
        return to_group(case["tree"]["tree"])
    if kind == "event":
        return build(case["event"]).graph()
    if kind in ("pset", "graph"):
        graph = event_of(record_parts(case["record"]))
        return graph if kind == "graph" else graph.particles
    if kind == "weighted":
        rng = np.random.default_rng(case["seed"])
        return gcl.AdjacencyList(
            values("edges", case["num"], case["seed"]),
            rng.normal(size=case["num"]))
    cls = {"pdg": gcl.PdgArray, "pmu": gcl.MomentumArray,
           "color": gcl.ColorArray, "helicity": gcl.HelicityArray,
           "status": gcl.StatusArray, "mask": gcl.MaskArray,
           "edges": gcl.AdjacencyList}[kind]
    return cls(values(kind, case["num"], case["seed"]))


def kind_of(obj):
    return {"PdgArray": "pdg", "MomentumArray": "pmu", "ColorArray": "color",
            "HelicityArray": "helicity", "StatusArray": "status",
            "MaskArray": "mask", "AdjacencyList": "edges"}[type(obj).__name__]


def mutate(obj, how, seed):
    """Change the object in place, somewhere."""
    rng = np.random.default_rng(seed)
    if isinstance(obj, gcl.MaskGroup):
        keys = list(obj.keys())
        if how == 0 or not keys:
            size = 6
            for val in obj.values():
                size = len(np.asarray(val.data))
                break
            obj[f"new{seed}"] = gcl.MaskArray(rng.random(size) < 0.5)
            return
        key = keys[int(rng.integers(len(keys)))]
        if how == 1 and len(keys) > 1:
            del obj[key]
        elif how == 2:
            obj.agg_op = "and" if str(obj.agg_op).lower().endswith("or") \
                else "or"
        elif how == 3:
            size = len(np.asarray(obj[key].data))
            obj[key] = gcl.MaskArray(rng.random(size) < 0.5)
        elif how == 4:
            obj.recursive_drop(key, inplace=True) if len(keys) > 1 else None
        else:
            mutate(obj[key], how, seed + 1)
        return
    if isinstance(obj, gcl.Graphicle):
        if how == 0:
            obj.particles = gcl.ParticleSet()
        elif how == 1:
            obj.adj = gcl.AdjacencyList(values("edges", 3, seed))
        elif how in (2, 3):
            mutate(obj.adj, how, seed)
        else:
            mutate(obj.particles, how - int(rng.integers(5)), seed)
        return
    if isinstance(obj, gcl.ParticleSet):
        attr = ATTRS[int(rng.integers(len(ATTRS)))]
        if how == 0:
            setattr(obj, attr, type(getattr(obj, attr))(
                values("mask" if attr == "final" else attr, len(obj), seed)))
        else:
            mutate(getattr(obj, attr), how, seed)
        return
    num = len(obj)
    if isinstance(obj, gcl.AdjacencyList) and how in (1, 2) and len(
        obj.weights
    ):
        obj.weights[...] = rng.normal(size=num)
        return
    new = values(kind_of(obj), num, seed)
    if how in (3, 4) and num:
        inner = obj.data if hasattr(obj, "data") else obj.edges
        if inner.flags.writeable:
            inner[...] = inner[rng.permutation(num)] if how == 3 else inner[0]
            return
    if how == 5 and kind_of(obj) == "mask" and num:
        obj[int(rng.integers(num))] = bool(rng.integers(2))
    elif how == 6 and kind_of(obj) == "pmu" and num:
        np.multiply(obj, 2.0, out=obj)
    elif not isinstance(obj, gcl.AdjacencyList):
        obj.data = new


@sub("P04", copy_cases(), quick=200, thorough=20000, rule="something was changed")
def copies(case):
    orig, twin = make(case), make(case)
    if case["warm"]:
        warm(orig)
    dup = orig.copy()
    require(type(dup) is type(orig), "copy of", type(orig), "is a", type(dup))
    want = freeze(twin, True)
    require(freeze(dup, True) == want, "the copy differs", freeze(dup, True),
            "from", want)
    require(freeze(orig, True) == want, "copying changed the original")
    live = {"orig": orig, "copy": dup}
    seen = {"orig": want, "copy": want}
    changed = False
    for side, how, seed in case["steps"]:
        mutate(live[side], how, seed)
        other = "copy" if side == "orig" else "orig"
        now = freeze(live[other], True)
        require(now == seen[other], f"change of the {side} shows in the",
                other, now, "not", seen[other])
        fresh = freeze(live[side])  # derived values may be stale by design
        changed = changed or fresh != freeze(twin)
        # go on from data which is certainly in step
        live[side] = live[side].copy()
        seen[side] = freeze(live[side], True)
    return changed


# ------------------------------------------------------------------- queries
def some_of(group, rng):
    """Descendants from which some particles have been taken away."""
    return gcl.MaskGroup(
        {k: m.data & (rng.random(len(m)) < 0.6) for k, m in group.items()},
        agg_op="or")


def world_of(case):
    """Objects to be queried.  The same case gives equal worlds."""
    event = build(case["event"])
    graph = event.graph()
    rng = np.random.default_rng(case["seed"])
    num = len(event)
    final = event.final
    some = rng.random((4, num)) < 0.5
    hier = select.hierarchy(build(case["event"]).graph())
    pmu = event.pmu[final]
    mini = event.pmu[event.hard >= 0]
    dist = np.abs(rng.normal(size=(6, 6)))
    cand = np.concatenate([mini, event.pmu[final][:4]])
    return {
        "graph": graph,
        "pmu": gcl.MomentumArray(pmu.copy()),
        "mini": gcl.MomentumArray(mini.copy()),
        "cand": gcl.MomentumArray(cand.copy()),
        "single": gcl.MomentumArray(mini[:1].copy()),
        "masks": [gcl.MaskArray(m[final].copy()) for m in some],
        "jets": [gcl.MaskArray((np.arange(final.sum()) % 8) == k)
                 for k in range(8)],
        "group": gcl.MaskGroup(
            {"a": some[0].copy(), "b": some[1].copy(),
             "in": gcl.MaskGroup({"c": some[2].copy(), "d": some[3].copy(),
                                  "latent": some[0].copy()},
                                 agg_op="or")}, agg_op="or"),
        "links": gcl.AdjacencyList(
            np.array(graph.adj.edges.tolist()).reshape(-1, 2),
            rng.random(num) + 0.5),
        "flat": gcl.MaskGroup({"a": some[0].copy(), "b": some[1].copy()}),
        "whole": [gcl.MaskArray(np.ones(final.sum(), bool))] * 2,
        "whole_1": [gcl.MaskArray(np.ones(min(len(mini), 1), bool))],
        "hier": hier,
        "desc": select.hard_descendants(build(case["event"]).graph()),
        "desc_part": some_of(
            select.hard_descendants(build(case["event"]).graph()), rng),
        "bools": some.copy(),
        "weights": rng.random(num) + 0.1,
        "matrix": dist + dist.T,
        "codes": np.array([5, -5, 11, 21], "<i4"),
        "rotate": float(rng.uniform(0.1, 3.0)),
        "seed": int(case["seed"] % 1000),
    }


def _leaves_only(w):
    return gcl.select.leaf_masks(w["hier"])


def _colors(w, invert=False):
    leaves = select.leaf_masks(w["hier"])
    leaves = gcl.MaskGroup(
        {k: v for k, v in leaves.items() if k != "latent"}, agg_op="or")
    return select.color_singlets(leaves, w["graph"].status, w["graph"].color,
                                 invert)


def _lone_colors(w):
    return _colors(w, True)


def _edge(w):
    edge = w["graph"].edges[w["seed"] % len(w["graph"])]
    return select.edge_descendants(
        w["graph"].adj, gcl.VertexPair(int(edge["src"]), int(edge["dst"])))


QUERIES = {
    "weighted_centroid": tuple(
        (lambda w, p=p: calculate.weighted_centroid(w["pmu"], p))
        for p in (True, False)),
    "resultant_coords": tuple(
        (lambda w, p=p: calculate.resultant_coords(w["pmu"], p))
        for p in (True, False)),
    "combined_mass": (
        lambda w: calculate.combined_mass(w["pmu"]),
        lambda w: calculate.combined_mass(w["pmu"], w["weights"][: len(w["pmu"])]),
        lambda w: calculate.combined_mass(
            w["pmu"], w["weights"][: len(w["pmu"]), None]),
        lambda w: calculate.combined_mass(
            w["pmu"], np.outer(w["weights"][: len(w["pmu"])], np.ones(4))),
        lambda w: calculate.combined_mass(w["single"], 2.0),
    ),
    "cluster_coeff": tuple(
        (lambda w, p=p: calculate.cluster_coeff_distbn(w["pmu"], 0.8, p, 1))
        for p in (True, False)),
    "aggregate": (
        lambda w: calculate.aggregate_momenta(w["pmu"], w["masks"]),
        lambda w: calculate.aggregate_momenta(w["pmu"], w["whole"]),
        lambda w: calculate.aggregate_momenta(w["single"], w["whole_1"]),
    ),
    "thrust": lambda w: calculate.thrust(w["pmu"], True, w["seed"]),
    "spherocity": lambda w: calculate.spherocity(w["pmu"], True, w["seed"]),
    "c_parameter": lambda w: calculate.c_parameter(w["pmu"]),
    "jaccard": (
        lambda w: calculate.jaccard_distance(w["bools"][0], w["bools"][1], w["weights"]),
        lambda w: calculate.jaccard_distance(w["masks"][0], w["masks"][1]),
        lambda w: calculate.jaccard_distance(w["group"], w["bools"][1], w["weights"]),
    ),
    "delta_R": (
        lambda w: w["pmu"].delta_R(w["mini"]),
        lambda w: w["pmu"].delta_R(w["pmu"], False),
        lambda w: w["mini"].delta_R(w["cand"], pseudo=False),
    ),
    "shift_phi": tuple(
        (lambda w, s=s: w["pmu"].shift_phi(s * w["rotate"]))
        for s in (1.0, 0.0, -1.0)),
    "shift_rapidity": tuple(
        (lambda w, s=s: w["pmu"].shift_rapidity(s * w["rotate"]))
        for s in (1.0, 0.0, -1.0)),
    "shift_eta": tuple(
        (lambda w, s=s: w["pmu"].shift_eta(s * w["rotate"]))
        for s in (1.0, 0.0, -1.0)),
    "arithmetic": (
        lambda w: w["pmu"] + w["pmu"],
        lambda w: w["pmu"] * 2.0,
        lambda w: -w["mini"],
        lambda w: np.abs(w["mini"]),
        lambda w: np.sum(w["pmu"], axis=0),
        lambda w: np.add.reduce(w["pmu"]),
    ),
    "comparison": (
        lambda w: w["pmu"] == w["pmu"],
        lambda w: w["mini"] != w["mini"],
        lambda w: w["graph"].pdg == 21,
        lambda w: w["graph"].pdg != w["codes"][:1],
    ),
    "pdg_mask": tuple(
        (lambda w, b=b, s=s, n=n: w["graph"].pdg.mask(
            w["codes"][:n], blacklist=b, sign_sensitive=s))
        for b in (True, False) for s in (True, False) for n in (4, 1, 0)),
    "in_range": (
        lambda w: w["graph"].status.in_range(20, 30),
        lambda w: w["graph"].status.hard_mask,
        lambda w: w["graph"].status.in_range(-30, -20, True),
        lambda w: w["graph"].status.in_range(),
        lambda w: w["graph"].status.in_range(0, None),
    ),
    "flatten": tuple(
        (lambda w, g=g, h=h: w[g].flatten(h))
        for g in ("group", "hier", "flat")
        for h in ("rise", "agg", "leaves")),
    "drop": (
        lambda w: w["group"].recursive_drop("latent"),
        lambda w: w["hier"].recursive_drop("b"),
        lambda w: w["group"].recursive_drop("missing"),
        lambda w: w["flat"].recursive_drop("missing"),
    ),
    "group_algebra": (
        lambda w: w["group"].data,
        lambda w: ~w["group"],
        lambda w: w["group"] & w["bools"][0],
        lambda w: w["group"] | w["group"],
        lambda w: w["group"].equal_to(w["group"]),
        lambda w: w["group"].bitwise_or(),
        lambda w: w["group"].bitwise_and(),
        lambda w: w["group"]["in"]["c"],
        lambda w: w["group"][["a", "in"]],
        lambda w: w["masks"][0] & w["masks"][1],
        lambda w: ~w["masks"][2],
        lambda w: w["masks"][0] | w["masks"][3],
    ),
    "serialize": (
        lambda w: w["group"].serialize(),
        lambda w: w["graph"].pmu.serialize(),
        lambda w: w["graph"].pdg.serialize(),
        lambda w: w["graph"].adj.serialize(),
    ),
    "subset": (
        lambda w: w["graph"][w["bools"][0]],
        lambda w: w["graph"].particles[::-1],
        lambda w: w["graph"][w["group"]],
        lambda w: w["graph"].adj[w["bools"][1]],
        lambda w: w["graph"].adj[np.ones(len(w["graph"]), bool)],
        lambda w: w["graph"][np.ones(len(w["graph"]), bool)],
        lambda w: w["graph"][np.zeros(len(w["graph"]), bool)],
        lambda w: w["pmu"][w["whole"][0]],
        lambda w: w["graph"].pmu[w["graph"].final],
    ),
    "adjacency": (
        lambda w: w["graph"].adj.matrix,
        lambda w: w["graph"].adj.to_sparse(),
        lambda w: w["graph"].adj.nodes,
        lambda w: w["graph"].adj.roots,
        lambda w: w["graph"].adj.leaves,
    ),
    "links": (
        lambda w: w["links"].matrix,
        lambda w: w["links"].to_sparse(),
        lambda w: w["links"][w["bools"][0]],
        lambda w: w["links"][::-1].matrix,
        lambda w: w["links"].copy(),
        lambda w: w["links"].serialize(),
        lambda w: w["links"].weights,
        lambda w: w["links"].edges,
    ),
    "from_matrix": tuple(
        (lambda w, a=a, b=b: gcl.AdjacencyList.from_matrix(w["matrix"], weighted=a, self_loop=b))
        for a in (True, False) for b in (True, False)),
    "display": (
        lambda w: str(w["graph"]),
        lambda w: repr(w["graph"]),
        lambda w: w["graph"]._repr_html_(),
        lambda w: str(w["group"]),
        lambda w: repr(w["group"]),
        lambda w: str(w["pmu"]),
    ),
    "find_vertex": (
        lambda w: select.find_vertex(w["graph"], {21}, None),
        lambda w: select.find_vertex(w["graph"], None, {22}),
    ),
    "vertex_descendants": lambda w: select.vertex_descendants(
        w["graph"].adj, int(w["graph"].edges["dst"][0])),
    "edge_descendants": _edge,
    "hadron_vertices": lambda w: select.hadron_vertices(
        w["graph"].adj, w["graph"].status),
    "hard_descendants": lambda w: select.hard_descendants(w["graph"]),
    "hard_targets": lambda w: select.hard_descendants(
        w["graph"], {1, 2, 5, 21}),
    "hierarchy": lambda w: select.hierarchy(w["graph"]),
    "hierarchy_part": lambda w: select.hierarchy(w["graph"], w["desc_part"]),
    "hierarchy_desc": lambda w: select.hierarchy(w["graph"], w["desc"]),
    "partition": lambda w: select.partition_descendants(
        w["graph"], w["hier"], -0.1),
    "leaf_masks": _leaves_only,
    "any_overlap": (
        lambda w: select.any_overlap(w["desc"]),
        lambda w: select.any_overlap(w["group"]),
    ),
    "prune": (
        lambda w: select.centroid_prune(w["pmu"], 0.9),
        lambda w: select.centroid_prune(w["pmu"], 0.9, w["masks"][0]),
        lambda w: select.centroid_prune(w["pmu"], 0.9, w["masks"][1], (0.1, 0.2)),
        lambda w: select.centroid_prune(w["pmu"], 1e6, w["masks"][2]),
        lambda w: select.centroid_prune(w["pmu"], 1e6, w["whole"][0]),
        lambda w: select.centroid_prune(w["pmu"], 0.0, w["whole"][0]),
    ),
    "color_singlets": _colors,
    "lone_partons": _lone_colors,
    "clusters": (
        lambda w: select.clusters(w["graph"], 0.9),
        lambda w: select.clusters(w["graph"], 1e6),
    ),
    "arg_closest": (
        lambda w: select.arg_closest(w["mini"], w["cand"]),
        lambda w: select.arg_closest(w["mini"], w["mini"]),
        lambda w: select.arg_closest(w["single"], w["cand"]),
        lambda w: select.arg_closest(w["single"], w["single"]),
    ),
    "jets": (
        lambda w: select.fastjet_clusters(w["pmu"], 0.7, -1),
        lambda w: select.fastjet_clusters(w["pmu"], 0.4, 0, 1.0, 2.0, 3),
    ),
    "tag": lambda w: select.monte_carlo_tag(
        w["graph"].particles, w["jets"], w["pmu"]),
    "cut_adj": tuple(
        (lambda w, m=m, a=a, b=b, c=c: matrix.cut_adj(w["matrix"], c, m, a, b))
        for m in ("max", "min") for a in (True, False) for b in (True, False)
        for c in (0.8, 1e9, -1.0)),
    "knn_adj": tuple(
        (lambda w, a=a, b=b, k=k: matrix.knn_adj(
            w["matrix"], k, self_loop=a, weighted=b))
        for a in (True, False) for b in (True, False) for k in (2, 1, 5)),
    "delta_R_aff": lambda w: matrix.delta_R_aff(w["pmu"]),
    "parton_hadron": lambda w: matrix.parton_hadron_distance(
        w["mini"], w["pmu"], -0.5),
    "split": lambda w: transform.split_momentum(
        w["single"], 0.3, w["rotate"], (0.4, 1.1)),
    "split_hardest": (
        lambda w: transform.split_hardest(w["pmu"], 0.3, w["rotate"], (0.4, 1.1)),
        lambda w: transform.split_hardest(w["cand"], 0.4, w["rotate"]),
        lambda w: transform.split_hardest(w["single"], 0.5, 0.0),
    ),
    "axis": lambda w: transform.soft_hard_axis(w["cand"][:2]),
}


def run_query(name, world, part=None):
    """The answers of all parts of a query, or of one of them."""
    todo = QUERIES[name]
    if not isinstance(todo, tuple):
        todo = (todo,)
    if part is not None:
        return todo[part % len(todo)](world)
    return [func(world) for func in todo]


def ask(name, world):
    """Result of a query, or how it refuses."""
    try:
        return freeze(run_query(name, world))
    except (ValueError, IndexError, KeyError) as err:
        return ("refused", type(err).__name__)


@st.composite
def query_cases(draw):
    return {
        "event": draw(events()),
        "seed": draw(seeds),
        "warm": draw(st.booleans()),
        "queries": draw(st.lists(st.sampled_from(sorted(QUERIES)),
                                 min_size=3, max_size=8)),
    }


def run_queries(case):
    world = world_of(case)
    before = freeze(world_of(case))
    require(freeze(world) == before, "the event cannot be built twice")
    if case["warm"]:
        warm(world)
    done = False
    for name in case["queries"]:
        first = ask(name, world)
        now = freeze(world)
        if now != before:
            for (key, new), (_, old) in zip(now[1], before[1]):
                require(new == old, name, "changed its", key, new, "not", old)
        again = ask(name, world)
        require(alike(again, first), name, "gives", again, "after", first)
        alone = ask(name, world_of(case))
        require(alike(alone, first), name, "depends on what was asked before",
                first, "but alone", alone)
        done = done or first[0] != "refused"
    fresh = freeze(world_of(case), True)
    now = freeze(world, True)
    if not alike(now, fresh):
        for (key, new), (_, old) in zip(now[1], fresh[1]):
            require(alike(new, old), case["queries"],
                    "changed what derives from", key, new, "not", old)
    return done


@sub("P04", query_cases(), quick=40, thorough=4000,
     rule="some query gave an answer")
def queries(case):
    return run_queries(case)


_EVENT = {
    "hard": [[6, [[5, []], [24, [[2, []], [-1, []]]]]], [21, []]],
    "copies": 1, "splits": 3, "ue": 2, "mix": 0.5, "hadrons": 4,
    "decays": 0.4, "lines": "parent", "shuffle": True, "seed": 11,
}


def every_query(tier, seed):
    """Every query, on a few events, at first and after its derived values."""
    for num in range(1 if tier == "quick" else 40):
        for name in sorted(QUERIES):
            for is_warm in (False, True):
                yield {"event": dict(_EVENT, seed=seed * 100 + num),
                       "seed": seed + num, "warm": is_warm,
                       "queries": [name]}


@sub("P04", enum=every_query, rule="the query gave an answer")
def each_query(case):
    return run_queries(case)
