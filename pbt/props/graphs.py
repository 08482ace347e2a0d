"""P20 topology, P21 matrices, P22 descendants, P23 vertex search."""
from __future__ import annotations

import itertools

import numpy as np
from hypothesis import strategies as st

import graphicle as gcl
from graphicle import select

from ..core import RULES, Violation, require, sub
from ..events import build, events, reach
from ..gen import seeds


def bits(mask):
    arr = np.asarray(mask.data)
    require(arr.dtype == np.bool_ and arr.ndim == 1, "not a mask", arr)
    return arr


# --------------------------------------------------------------- generation
_vertex = st.integers(-6, 6)
_pairs = st.lists(st.tuples(_vertex, _vertex).map(list), min_size=1, max_size=9)


@st.composite
def multigraphs(draw):
    """Any directed graph: repeats, loops, cycles, isolated parts."""
    if draw(st.booleans()):
        return {"edges": draw(_pairs)}
    num = draw(st.integers(1, 60))
    return {
        "gen": [num, draw(st.integers(1, 40)), draw(seeds)],
        "signs": draw(st.sampled_from(["any", "neg", "pos", "leaf"])),
        "labels": draw(st.sampled_from(["plain", "plain", "gaps", "huge"])),
    }


def maybe_weights(edges):
    """Weights for some of the graphs: only their matrix depends on them."""
    num = len(edges)
    if (num + int(edges.sum())) % 3:
        return None
    return np.random.default_rng(num).choice(
        [0.0, 1.0, -1.0, 0.5, 2.0], size=num)


def list_of(edges):
    weights = maybe_weights(edges)
    if weights is None:
        return gcl.AdjacencyList(edges.copy())
    return gcl.AdjacencyList(edges.copy(), weights)


def edges_of(case) -> np.ndarray:
    if "edges" in case:
        return np.array(case["edges"], dtype="<i4").reshape(-1, 2)
    num, span, seed = case["gen"]
    rng = np.random.default_rng(seed)
    if case.get("dag"):
        order = rng.permutation(np.arange(1, span + 2))
        pair = np.sort(
            np.stack(
                [
                    rng.integers(0, span, size=num),
                    rng.integers(1, span + 1, size=num),
                ],
                axis=1,
            ),
            axis=1,
        )
        pair[pair[:, 0] == pair[:, 1], 1] += 1
        pair = np.minimum(pair, span)
        pair[pair[:, 0] == pair[:, 1], 0] -= 1
        if case["dag"] == "tree":  # each vertex has one way in
            child = np.arange(1, span + 1)
            pair = np.stack([rng.integers(0, child), child], axis=1)
        if case["dag"] == "chain":
            child = np.arange(1, span + 1)
            pair = np.stack([child - 1, child], axis=1)
        edges = order[pair]
        edges = edges[rng.permutation(len(edges))]
    else:
        edges = rng.integers(1, span + 1, size=(num, 2))
    style = case.get("signs", "any")
    if style == "any":
        sign = rng.choice([-1, 1], size=edges.max() + 1)
    elif style == "neg":
        sign = np.full(edges.max() + 1, -1)
    elif style == "pos":
        sign = np.full(edges.max() + 1, 1)
    else:
        sign = np.full(edges.max() + 1, 1)
        sign[edges[:, 0]] = -1
    edges = sign[edges] * edges
    if case.get("zero"):  # zero is a vertex too
        edges[np.abs(edges) == 1] = 0
    labels = case.get("labels", "plain")
    if labels == "gaps":
        edges = edges * 40_009
    elif labels == "huge":  # one may not tell these in single precision
        edges = np.sign(edges) * (2**31 - 1 - np.abs(edges))
    return edges.astype("<i4")


@st.composite
def dags(draw):
    case = {
        "gen": [
            draw(st.integers(1, 70)),
            draw(st.integers(1, 45)),
            draw(seeds),
        ],
        "dag": draw(st.sampled_from(["any", "any", "tree", "chain"])),
        "signs": draw(st.sampled_from(["any", "neg", "pos", "leaf"])),
        "labels": draw(st.sampled_from(["plain", "plain", "gaps", "huge"])),
        "zero": draw(st.booleans()),
    }
    return case


small_dags = st.lists(
    st.tuples(st.integers(0, 6), st.integers(1, 4)), min_size=1, max_size=8
).flatmap(
    lambda pairs: st.permutations([-4, 7, 0, 2, -1, -9, 5, 3, 11, -12, 13]).map(
        lambda names: {"edges": [[names[a], names[a + d]] for a, d in pairs]}
    )
)


# ------------------------------------------------------------------- P20
RULES["P20"] = "Directed graphs: drawn edges, or counts and a seed."


@sub("P20", st.one_of(multigraphs(), dags(), small_dags), quick=2500,
     nontrivial=lambda c: len(edges_of(c)) > 1,
     rule="more than one edge")
def topology(case):
    edges = edges_of(case)
    adj = list_of(edges)
    src, dst = edges.T
    require(np.array_equal(adj.edges["src"], src), "sources changed")
    require(np.array_equal(adj.edges["dst"], dst), "destinations changed")
    nodes = np.asarray(adj.nodes)
    require(sorted(nodes.tolist()) == sorted(set(edges.ravel().tolist())),
            "nodes", nodes, "of", edges)
    require(np.all(np.diff(np.abs(nodes)) >= 0), "nodes not in order", nodes)
    starts, ends = set(src.tolist()), set(dst.tolist())
    roots = np.array([v not in ends for v in src.tolist()])
    leaves = np.array([v not in starts for v in dst.tolist()])
    require(np.array_equal(bits(adj.roots), roots), "roots", adj.roots, edges)
    require(np.array_equal(bits(adj.leaves), leaves), "leaves", adj.leaves,
            edges)
    graph = gcl.Graphicle(adj=adj)
    require(np.array_equal(graph.nodes, nodes), "nodes of the event")
    require(np.array_equal(graph.edges, adj.edges), "edges of the event")
    # the same, when read again, and from a copy and a permutation
    again = adj.copy()
    require(np.array_equal(bits(again.leaves), leaves), "leaves of a copy")
    require(np.array_equal(bits(adj.roots), roots), "roots on second reading")
    perm = np.random.default_rng(len(edges)).permutation(len(edges))
    other = adj[perm]
    require(np.array_equal(bits(other.roots), roots[perm]), "roots, permuted")
    require(np.array_equal(bits(other.leaves), leaves[perm]),
            "leaves, permuted")


@sub("P20", st.tuples(st.one_of(multigraphs(), dags()), seeds).map(list),
     quick=700, nontrivial=lambda c: len(edges_of(c[0])) > 2,
     rule="more than two edges before the selection")
def topology_of_selection(case):
    """Queries after subsetting describe the remaining edges."""
    edges = edges_of(case[0])
    rng = np.random.default_rng(case[1])
    keep = rng.random(len(edges)) < 0.6
    if not keep.any():
        keep[0] = True
    adj = list_of(edges)
    adj.roots, adj.leaves, adj.nodes  # read before the selection
    part = adj[gcl.MaskArray(keep)]
    src, dst = edges[keep].T
    require(np.array_equal(bits(part.roots),
                           [not np.any(dst == v) for v in src]), "roots")
    require(np.array_equal(bits(part.leaves),
                           [not np.any(src == v) for v in dst]), "leaves")
    require(sorted(part.nodes.tolist())
            == sorted(set(edges[keep].ravel().tolist())), "nodes")


# ------------------------------------------------------------------- P21
RULES["P21"] = "Edge lists with or without weights; matrices of all dtypes."


def weights_of(num, seed):
    rng = np.random.default_rng(seed)
    return np.round(rng.normal(0, 3, size=num), 3) + 5.0 * (
        rng.random(num) < 0.1
    )


@sub("P21",
     st.fixed_dictionaries({
         "graph": st.one_of(multigraphs(), dags(), small_dags),
         "weights": st.one_of(st.none(), seeds)}),
     quick=1500, nontrivial=lambda c: len(edges_of(c["graph"])) > 1,
     rule="more than one edge")
def edges_to_matrix(case):
    edges = edges_of(case["graph"])
    weights = None
    adj = gcl.AdjacencyList(edges)
    if case["weights"] is not None:
        weights = weights_of(len(edges), case["weights"])
        adj = gcl.AdjacencyList(edges, weights)
    labels = sorted(set(edges.ravel().tolist()))
    want = np.zeros((len(labels), len(labels)))
    for idx, (a, b) in enumerate(edges.tolist()):
        want[labels.index(a), labels.index(b)] += (
            1 if weights is None else weights[idx]
        )
    got = adj.matrix
    require(isinstance(got, np.ndarray), "not a dense array", type(got))
    require(got.shape == want.shape and np.allclose(got, want, atol=1e-12),
            "matrix", got, "not", want)
    if weights is None:
        require(np.issubdtype(got.dtype, np.integer), "counts as", got.dtype)
    got = adj.matrix  # again
    require(np.allclose(got, want, atol=1e-12), "second reading", got)
    # sparse views
    sparse = adj.to_sparse()
    require(sparse.shape == want.shape, "shape", sparse.shape)
    pos = {lab: i for i, lab in enumerate(labels)}
    rows = [pos[a] for a in edges[:, 0].tolist()]
    cols = [pos[b] for b in edges[:, 1].tolist()]
    require(np.array_equal(sparse.row, rows), "sparse rows", sparse.row)
    require(np.array_equal(sparse.col, cols), "sparse columns", sparse.col)
    require(np.array_equal(np.asarray(sparse.data, bool), edges[:, 1] > 0),
            "final flags", sparse.data)
    data = np.arange(1, len(edges) + 1) * 0.5
    sparse = adj.to_sparse(data)
    require(np.array_equal(sparse.row, rows) and
            np.array_equal(sparse.col, cols) and
            np.array_equal(sparse.data, data), "data on the edges")


@st.composite
def matrices(draw):
    num = draw(st.integers(1, 9))
    return {
        "num": num,
        "density": draw(st.sampled_from([0.0, 0.2, 0.5, 1.0])),
        "dtype": draw(st.sampled_from(["<f8", "<i4", "?", "<f4", "<i8"])),
        "diag": draw(st.sampled_from(["none", "some", "all"])),
        "weighted": draw(st.booleans()),
        "self_loop": draw(st.booleans()),
        "layout": draw(st.sampled_from(["c", "f", "strided"])),
        "seed": draw(seeds),
    }


def matrix_of(case):
    rng = np.random.default_rng(case["seed"])
    num = case["num"]
    if case["dtype"] == "?":
        vals = np.ones((num, num), bool)
    elif case["dtype"].startswith("<i"):
        vals = rng.integers(1, 9, size=(num, num)) * rng.choice([-1, 1])
    else:
        vals = np.round(rng.normal(0, 2, size=(num, num)), 2) + 10.0
    mat = np.where(rng.random((num, num)) < case["density"], vals, 0)
    if case["diag"] == "none":
        np.fill_diagonal(mat, 0)
    if case["diag"] == "all":
        np.fill_diagonal(mat, vals.diagonal())
    mat = mat.astype(case["dtype"])
    if case["layout"] == "f":
        mat = np.asfortranarray(mat)
    if case["layout"] == "strided":
        big = np.zeros((2 * num, 2 * num), mat.dtype)
        big[::2, ::2] = mat
        mat = big[::2, ::2]
    return mat


@sub("P21", matrices(), quick=1500, nontrivial=lambda c: c["num"] > 1 and
     c["density"] > 0, rule="more than one node, and some edge")
def matrix_to_edges(case):
    mat = matrix_of(case)
    before = mat.copy()
    adj = gcl.AdjacencyList.from_matrix(
        mat, weighted=case["weighted"], self_loop=case["self_loop"]
    )
    require(np.array_equal(mat, before), "matrix was changed")
    want = {}
    for i, j in itertools.product(range(case["num"]), repeat=2):
        if mat[i, j] != 0 or (i == j and case["self_loop"]):
            want[(i, j)] = float(mat[i, j])
    got = [tuple(map(int, e)) for e in adj]
    require(len(got) == len(set(got)), "repeated edges", got)
    require(set(got) == set(want), "edges", sorted(got), "not", sorted(want))
    if not case["weighted"]:
        require(len(adj.weights) == 0, "weights", adj.weights)
        weights = None
    else:
        require(len(adj.weights) == len(got), "weights", adj.weights)
        for edge, weight in zip(got, adj.weights.tolist()):
            require(abs(weight - want[edge]) < 1e-12, "weight of", edge, weight,
                    "not", want[edge])
    # there and back again
    used = np.array(sorted({v for e in got for v in e}), int)
    if len(used) == 0:
        return False
    ref = np.zeros((case["num"],) * 2)
    for edge, weight in want.items():
        ref[edge] = weight if case["weighted"] else 1
    require(np.allclose(adj.matrix, ref[np.ix_(used, used)]),
            "round trip", adj.matrix, "not", ref)
    return None


# ------------------------------------------------------------------- P22
RULES["P22"] = "Acyclic graphs and synthetic events, and their vertices."


def expect_descendants(edges, vertex):
    src, dst = edges.T
    if not np.any(src == vertex):
        return dst == vertex
    return reach(src, dst, int(vertex))


def check_descendants(adj, edges, rng, tries):
    labels = sorted(set(edges.ravel().tolist()))
    picks = labels if len(labels) <= tries else rng.choice(
        labels, tries, replace=False
    ).tolist()
    for vertex in picks + [max(labels) + 3]:
        got = bits(select.vertex_descendants(adj, vertex))
        want = expect_descendants(edges, vertex)
        require(np.array_equal(got, want), "vertex", vertex, "gave",
                np.flatnonzero(got), "not", np.flatnonzero(want))
    picks = range(len(edges)) if len(edges) <= tries else rng.choice(
        len(edges), tries, replace=False
    ).tolist()
    for idx in picks:
        edge = tuple(edges[idx].tolist())
        given = gcl.VertexPair(*edge) if idx % 2 else edge
        got = bits(select.edge_descendants(adj, given))
        want = expect_descendants(edges, edge[1])
        want = want | np.all(edges == edge, axis=1)
        require(np.array_equal(got, want), "edge", edge, "gave",
                np.flatnonzero(got), "not", np.flatnonzero(want))


@sub("P22", st.one_of(dags(), small_dags), quick=900,
     nontrivial=lambda c: len(edges_of(c)) > 2, rule="more than two edges")
def descendants(case):
    edges = edges_of(case)
    adj = list_of(edges)
    rng = np.random.default_rng(0)
    check_descendants(adj, edges, rng, 14)
    require(np.array_equal(rows_2d(adj), edges), "edges were changed")
    # after a selection, only the remaining edges carry
    keep = rng.random(len(edges)) < 0.7
    if keep.any():
        check_descendants(adj[keep], edges[keep], rng, 4)


def rows_2d(adj):
    data = np.asarray(adj.edges)
    return np.stack([data["src"], data["dst"]], axis=1)


@sub("P22", events(), quick=120, rule="every event")
def descendants_in_events(case):
    event = build(case)
    graph = event.graph()
    check_descendants(graph.adj, event.edges, np.random.default_rng(1), 12)


# ------------------------------------------------------------------- P23
RULES["P23"] = "Graphs with particle codes, and two sets of codes to find."


def search_case(case):
    """Edges, codes, and the two search sets."""
    if "event" in case:
        event = build(case["event"])
        edges, pdg = event.edges, event.pdg
    else:
        edges = edges_of(case["graph"])
        rng = np.random.default_rng(case["seed"])
        pool = [1, -1, 2, 21, 22, 211, -211]
        if case.get("odd"):  # unknown particles and nuclei
            pool = [1, 0, -1, 1000010020, 0, 21, -1000010020]
        pdg = rng.choice(pool[: case["codes"]],
                         size=len(edges)).astype("<i4")
    rng = np.random.default_rng(case["seed"] + 1)
    src, dst = edges.T
    labels = sorted(set(edges.ravel().tolist()))
    vertex = labels[int(rng.integers(len(labels)))]

    def pick(arrive, style):
        if style == "none":
            return None
        if style == "empty":
            return set()
        pool = pdg[arrive] if style == "vertex" else pdg
        if len(pool) == 0:
            return set()
        num = int(rng.integers(1, 4))
        return {int(p) for p in rng.choice(pool, size=num)}

    return (edges, pdg, pick(dst == vertex, case["ins"]),
            pick(src == vertex, case["outs"]))


_styles = st.sampled_from(["none", "empty", "vertex", "vertex", "any"])


@st.composite
def searches(draw):
    case = {
        "graph": draw(st.one_of(dags(), multigraphs(), small_dags)),
        "codes": draw(st.integers(1, 7)),
        "odd": draw(st.booleans()),
        "ins": draw(_styles),
        "outs": draw(_styles),
        "seed": draw(seeds),
    }
    return case


def judge_search(case):
    edges, pdg, ins, outs = search_case(case)
    graph = gcl.Graphicle.from_numpy(
        edges=edges, pdg=pdg, weights=maybe_weights(edges))
    kwargs = {}
    if ins is not None:
        kwargs["pdgs_in"] = set(ins)
    if outs is not None:
        kwargs["pdgs_out"] = set(outs)
    if not kwargs:
        try:
            select.find_vertex(graph)
        except ValueError:
            return False
        raise Violation("a search for nothing was not refused")
    got = np.asarray(select.find_vertex(graph, **kwargs))
    want = set()
    src, dst = edges.T
    for vertex in set(edges.ravel().tolist()):
        arrive = set(pdg[dst == vertex].tolist())
        leave = set(pdg[src == vertex].tolist())
        if (ins or set()) <= arrive and (outs or set()) <= leave:
            want.add(vertex)
    require(len(got) == len(set(got.tolist())), "repeated vertices", got)
    require(set(got.tolist()) == want, "found", sorted(got.tolist()), "not",
            sorted(want), "for", ins, outs)
    require(np.array_equal(graph.pdg.data, pdg), "codes were changed")
    return bool(want) and bool(ins or outs)


@sub("P23", searches(), quick=350, rule="something to find, and it exists")
def vertex_search(case):
    return judge_search(case)


@sub("P23",
     st.fixed_dictionaries({"event": events(), "ins": _styles,
                            "outs": _styles, "seed": seeds}),
     quick=70, rule="something to find, and it exists")
def vertex_search_in_events(case):
    return judge_search(case)
