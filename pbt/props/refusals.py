"""P44: what cannot be answered is refused, and nothing else happens."""
from __future__ import annotations

import warnings

import numba as nb
import numpy as np
from hypothesis import strategies as st

import graphicle as gcl
from graphicle import calculate, matrix, select, transform

from ..core import RULES, require, sub
from ..events import events
from ..gen import seeds
from .defaults import _EVENT, world
from .purity import alike, freeze

RULES["P44"] = (
    "A request outside of, or at the edge of what the documentation allows,"
    " on the objects of an event."
)

ANY = (ValueError, IndexError, KeyError, TypeError)


# ------------------------------------------------------------ bad arguments
def below_zero(w, rng):
    return float(rng.choice([-1e-9, -0.1, -1.0, -50.0, -np.inf]))


def no_count(w, rng):
    return [0, -1, -7, 1.0, 2.5, 0.5, float("nan")][rng.integers(7)]


def no_probability(w, rng):
    return [-1e-9, 1.0 + 1e-9, -1.0, 2.0, float("nan"), float("inf"),
            100][rng.integers(7)]


def no_fraction(w, rng):
    return [0.0, -0.1, 0.5 + 1e-9, 1.0, 0, 1, float("nan"), float("inf"),
            -0.5][rng.integers(9)]


def other_length(num, rng, one=False):
    """Not the one asked for, nor one (which numpy may broadcast)."""
    options = [n for n in (num - 1, num + 1, num + 5, 2 * num, num // 2, 1)
               if n != num and n > 0 and (one or n > 1)]
    return int(options[rng.integers(len(options))])


def bools(num, rng):
    out = rng.random(num) < 0.5
    if num and rng.random() < 0.3:
        out[:] = False
    return out


def as_mask(data, rng):
    kind = rng.integers(3)
    if kind == 0:
        return data
    if kind == 1:
        return gcl.MaskArray(data)
    return gcl.MaskGroup({"a": data, "b": data}, ["and", "or"][len(data) % 2])


def mask_for(attr):
    def make(w, rng):
        return as_mask(bools(other_length(len(w[attr]), rng, True), rng), rng)
    return make


def wrong_mask(w, rng):
    return gcl.MaskArray(bools(other_length(len(w["bools"][0]), rng), rng))


def some_wrong_mask(w, rng):
    """One of several masks has another length."""
    out = [m.copy() for m in w["masks"]]
    pos = rng.integers(len(out))
    out[pos] = gcl.MaskArray(bools(other_length(len(w["pmu"]), rng, True),
                                   rng))
    return out


def wrong_jets(w, rng):
    out = [m.copy() for m in w["jets"]]
    pos = int(rng.choice([0, 1, len(out) - 1]))
    out[pos] = gcl.MaskArray(bools(other_length(len(w["pmu"]), rng, True),
                                   rng))
    return out


def no_mask(w, rng):
    row = [bool(v) for v in w["bools"][0]]
    return [row, tuple(row), True, None, "mask", {"a": row}, 1.0,
            iter(row)][rng.integers(8)]


def no_key(w, rng):
    return [3, 0, None, ("a",), 1.5, b"a", True][rng.integers(7)]


def absent_key(w, rng):
    return ["zz", "", "A", "latent", "c", "a "][rng.integers(6)]


def past_end(attr):
    def make(w, rng):
        num = len(w[attr])
        return [num, -num - 1, num + 7, [0, num], np.array([-num - 1]),
                [num] * 3, np.int64(num), -num - 2][rng.integers(8)]
    return make


def columns(right):
    def make(w, rng):
        wrong = [n for n in range(2, 7) if n != right]
        shape = (int(rng.integers(2, 6)), wrong[rng.integers(len(wrong))])
        return rng.integers(1, 5, shape)
    return make


def hard_codes(w):
    mask = w["graph"].hard_mask
    del mask["incoming"]
    return sorted(set(map(int, w["graph"].pdg[mask].data)))


def absent_codes(w, rng):
    found = {abs(c) for c in hard_codes(w)}
    absent = [c for c in (3, 13, 15, 25, 23, 4, 211, 39) if c not in found]
    out = absent[rng.integers(len(absent)):][:2]
    return [c * int(rng.choice([1, -1])) for c in out]


def some_absent(w, rng):
    out = hard_codes(w) + absent_codes(w, rng)[:1]
    rng.shuffle(out)
    return [int(c) for c in out]


def other_sign(w, rng):
    """Signed targets of which only the opposite is there."""
    codes = hard_codes(w)
    out = [-c for c in codes if -c not in codes]
    return out or absent_codes(w, rng)


def no_names(w, rng):
    return [["b", "nothing"], ["b", ""], ["bb", "b", "b"], "nothing", "", [5],
            ["b", 5], [None], ["b", None], 5, None, [b"b"],
            [["b"]], 2.5][rng.integers(14)]


def no_mode(w, rng):
    return ["MAX", "Min", "maximum", "", None, 0, True, "maxmin", "minimum",
            "mi", "min ", "cut", "mean", b"min"][rng.integers(14)]


def no_flag(w, rng):
    return [None, 1, 0, "yes", 2.0, "weighted"][rng.integers(6)]


def no_float(w, rng):
    return [int, bool, "<i2", "<u4", complex, np.int64, np.bool_, object][
        rng.integers(8)]


def no_array(w, rng):
    num = len(w["heavy"])
    return [[1.0] * num, (1.0,) * num, [0.5] * num, 2.0, "weights",
            range(num)][rng.integers(6)]


def numbers(attr):
    def make(w, rng):
        return rng.random(other_length(len(w[attr]), rng)) + 0.1
    return make


def no_momenta(w, rng):
    pmu = w["pmu"]
    return [np.array(pmu.data), np.array(pmu.data.tolist()), None,
            [[1.0, 2.0, 3.0, 4.0]], w["graph"].pdg, 5][rng.integers(6)]


def threads(w, rng):
    return [0, -1, -8, 10**4][rng.integers(4)]


def unknown_code(w, rng):
    out = [5, -11, 21]
    out.insert(rng.integers(4), int(rng.choice([99999999, -7777777, 123456])))
    return out


def always(*options):
    return lambda w, rng: options[rng.integers(len(options))]


# ---------------------------------------------------------------- requests
def jets(w, rng, **bad):
    """Jet clustering, with other arguments of all kinds."""
    args = dict(radius=float(rng.choice([0.4, 1.0, 0.01])),
                p_val=[-1, 0, 1, 0.5][rng.integers(4)])
    if rng.random() < 0.5:
        args["pt_cut"] = float(rng.choice([0.0, 1.0, 1e7]))
    if rng.random() < 0.5:
        args["eta_cut"] = float(rng.choice([0.0, 2.5, 1e-9]))
    if rng.random() < 0.5:
        args["top_k"] = int(rng.choice([1, 3, 1000]))
    args.update(bad)
    return select.fastjet_clusters(w["pmu"], **args)


def tag(w, rng, jets=None, **bad):
    args = dict(sign_sensitive=bool(rng.random() < 0.5))
    if rng.random() < 0.3:
        args["clustered_pmu"] = w["pmu"]
    args.update(bad)
    return select.monte_carlo_tag(
        w["graph"].particles, w["jets"] if jets is None else jets, **args)


def setting(obj, attr, val):
    setattr(obj, attr, val)


def del_item(obj, key):
    del obj[key]


def set_item(obj, key, val):
    obj[key] = val


def few_jets(w, rng):
    """Fewer than partons."""
    num = int(w["graph"].status.hard_mask["outgoing"].data.sum())
    return w["jets"][: max(0, min(num - 1, rng.integers(0, 8)))]


def ruleless(w, rng):
    rows = {"a": w["bools"][0], "b": w["bools"][1]}
    out = gcl.MaskGroup(rows, "none")
    if rng.random() < 0.3:
        out = gcl.MaskGroup({"c": w["bools"][0], "n": out}, "or")
    return out


ask_ruleless = {
    0: lambda w, g: g.data, 1: lambda w, g: np.asarray(g),
    2: lambda w, g: g & w["bools"][0], 3: lambda w, g: g | w["group"],
    4: lambda w, g: g == w["bools"][0], 5: lambda w, g: ~g,
    6: lambda w, g: w["graph"][g], 7: lambda w, g: w["graph"].pdg[g],
    8: lambda w, g: gcl.MaskArray(w["bools"][0]) & g,
}

ask_mask = {
    0: lambda m, x: m & x, 1: lambda m, x: m | x, 2: lambda m, x: m == x,
    3: lambda m, x: m != x,
}

# name: request(w, x, rng), x(w, rng), the refusals allowed
REFUSED = {
    "jets radius": (lambda w, x, r: jets(w, r, radius=x), below_zero,
                    ValueError),
    "jets pt cut": (lambda w, x, r: jets(w, r, pt_cut=x), below_zero,
                    ValueError),
    "jets eta cut": (lambda w, x, r: jets(w, r, eta_cut=x), below_zero,
                     ValueError),
    "jets number": (lambda w, x, r: jets(w, r, top_k=x), no_count,
                    ValueError),
    "vertex of nothing": (
        lambda w, x, r: select.find_vertex(w["graph"], *x),
        always((), (None,), (None, None)), ValueError),
    "targets absent": (
        lambda w, x, r: select.hard_descendants(
            w["graph"], x, bool(r.random() < 0.5), bool(r.random() < 0.5)),
        absent_codes, ValueError),
    "targets partly absent": (
        lambda w, x, r: select.hard_descendants(
            w["graph"], x, bool(r.random() < 0.5), True),
        some_absent, ValueError),
    "targets of other sign": (
        lambda w, x, r: select.hard_descendants(
            w["graph"], x, True, bool(r.random() < 0.5)),
        other_sign, ValueError),
    "no targets": (
        lambda w, x, r: select.hard_descendants(
            w["graph"], x, bool(r.random() < 0.5), bool(r.random() < 0.5)),
        always([], (), set()), ValueError),
    "tag without stages": (
        lambda w, x, r: tag(w, r, outgoing=False, **x),
        always({}, {"intermediate": False}), ValueError),
    "tag without jets": (
        lambda w, x, r: tag(w, r, jets=x), always([], ()), ValueError),
    "tag both lists": (
        lambda w, x, r: tag(w, r, blacklist=x[0], whitelist=x[1]),
        always(([5], [5]), ([5], [11]), ([21], [1, 2]), ([], [5]), ([5], [])),
        ValueError),
    "tag few jets": (
        lambda w, x, r: tag(w, r, jets=x), few_jets, (ValueError, IndexError)),
    "tag other length": (
        lambda w, x, r: tag(w, r, jets=x), wrong_jets,
        (ValueError, IndexError)),
    "tag absent": (
        lambda w, x, r: tag(w, r, whitelist=x), absent_codes, IndexError),
    "tag nobody left": (
        lambda w, x, r: tag(w, r, blacklist=hard_codes(w) + x), absent_codes,
        IndexError),
    "sampling massless": (
        lambda w, x, r: gcl.MomentumArray.from_spherical_uniform(
            int(r.integers(0, 5)), 10.0, x, 1), no_probability, ValueError),
    "names": (lambda w, x, r: gcl.PdgArray.from_name(x), no_names,
              ValueError),
    "unknown codes": (
        lambda w, x, r: getattr(gcl.PdgArray(x), [
            "name", "mass", "charge", "mass_bounds", "width", "quarks"][
                r.integers(6)]),
        unknown_code, KeyError),
    "split hardest fraction": (
        lambda w, x, r: transform.split_hardest(w["pmu"], x, 0.3, (0.5, 1.0)),
        no_fraction, ValueError),
    "split hardest no axis": (
        lambda w, x, r: transform.split_hardest(w["single"], x, 0.3),
        always(0.1, 0.5), ValueError),
    "split several": (
        lambda w, x, r: transform.split_momentum(x, 0.2, 0.3, (0.5, 1.0)),
        lambda w, r: w["heavy"][: int(r.integers(2, 7))], ValueError),
    "cut mode": (lambda w, x, r: matrix.cut_adj(w["matrix"], 0.5, mode=x),
                 no_mode, ValueError),
    "cut weighted": (
        lambda w, x, r: matrix.cut_adj(w["matrix"], 0.5, weighted=x), no_flag,
        ValueError),
    "nearest type": (
        lambda w, x, r: matrix.knn_adj(w["matrix"], 2, weighted=True, dtype=x),
        no_float, ValueError),
    "mass weights": (
        lambda w, x, r: calculate.combined_mass(w["heavy"], x), no_array,
        ValueError),
    "mass weights number": (
        lambda w, x, r: calculate.combined_mass(
            w["heavy"], np.repeat(x[:, None], r.choice([1, 4]), axis=1)),
        numbers("heavy"), ANY),
    "jaccard length": (
        lambda w, x, r: calculate.jaccard_distance(
            *((x, w["bools"][0]) if r.random() < 0.5 else (w["bools"][0], x)),
            None if r.random() < 0.5 else np.ones(len(x.data))),
        wrong_mask, ANY),
    "jaccard weights number": (
        lambda w, x, r: calculate.jaccard_distance(
            w["bools"][0], w["bools"][1], x), numbers("graph"), ANY),
    "shift_rapidity number": (
        lambda w, x, r: w["heavy"].shift_rapidity(x), numbers("heavy"), ANY),
    "shift_phi number": (
        lambda w, x, r: w["heavy"].shift_phi(x), numbers("heavy"), ANY),
    "aggregate length": (
        lambda w, x, r: calculate.aggregate_momenta(w["pmu"], x),
        some_wrong_mask, ANY),
    "prune what": (
        lambda w, x, r: select.centroid_prune(x, 1.0), no_momenta,
        ValueError),
    "prune length": (
        lambda w, x, r: select.centroid_prune(
            w["pmu"], 1.0, gcl.MaskArray(np.asarray(x))), mask_for("pmu"),
        ANY),
    "threads": (
        lambda w, x, r: [
            lambda: w["mini"].delta_R(w["cand"], threads=x),
            lambda: calculate.cluster_coeff_distbn(w["pmu"], 1.0, threads=x),
        ][r.integers(2)](), threads, ANY),
    "mask with no mask": (
        lambda w, x, r: ask_mask[r.integers(4)](
            [gcl.MaskArray(w["bools"][0]), w["group"]][r.integers(2)], x),
        no_mask, ANY),
    "masks of other length": (
        lambda w, x, r: ask_mask[r.integers(4)](
            [gcl.MaskArray(w["bools"][0]), w["group"]][r.integers(2)], x),
        wrong_mask, ANY),
    "masks of one": (
        lambda w, x, r: ask_mask[2 + r.integers(2)](
            gcl.MaskArray(w["bools"][0]), x),
        always(gcl.MaskArray([True]), np.array([False])), ANY),
    "group of other lengths": (
        lambda w, x, r: gcl.MaskGroup(
            {"a": w["bools"][0], "b": x.data},
            ["and", "or"][r.integers(2)]).data, wrong_mask, ANY),
    "group key": (
        lambda w, x, r: set_item(w["group"], x, w["bools"][0]), no_key, ANY),
    "group absent": (
        lambda w, x, r: w["group"][x], absent_key, KeyError),
    "group absent deleted": (
        lambda w, x, r: del_item(w["group"], x), absent_key, KeyError),
    "group absent popped": (
        lambda w, x, r: w["group"].pop(x), absent_key, KeyError),
    "group without rule": (
        lambda w, x, r: ask_ruleless[r.integers(9)](w, x), ruleless,
        ValueError),
    "select particles": (
        lambda w, x, r: w["graph"].particles[x], mask_for("graph"), ANY),
    "select graph": (lambda w, x, r: w["graph"][x], mask_for("graph"), ANY),
    "select edges": (lambda w, x, r: w["links"][x], mask_for("links"), ANY),
    "select momenta": (lambda w, x, r: w["pmu"][x], mask_for("pmu"), ANY),
    "select codes": (
        lambda w, x, r: getattr(w["graph"], ["pdg", "status", "final",
                                             "color", "helicity"][
            r.integers(5)])[x], mask_for("graph"), ANY),
    "beyond particles": (
        lambda w, x, r: w["graph"].particles[x], past_end("graph"),
        IndexError),
    "beyond graph": (
        lambda w, x, r: w["graph"][x], past_end("graph"), IndexError),
    "beyond edges": (
        lambda w, x, r: w["links"][x], past_end("links"), IndexError),
    "beyond momenta": (
        lambda w, x, r: w["pmu"][x], past_end("pmu"), IndexError),
    "beyond codes": (
        lambda w, x, r: getattr(w["graph"], ["pdg", "status", "final",
                                             "color", "helicity"][
            r.integers(5)])[x], past_end("graph"), IndexError),
    "beyond group": (
        lambda w, x, r: w["group"][x],
        lambda w, r: [len(w["graph"]), -len(w["graph"]) - 1][r.integers(2)],
        ANY),
    "momentum columns": (
        lambda w, x, r: gcl.MomentumArray(x), columns(4), ValueError),
    "colour columns": (
        lambda w, x, r: gcl.ColorArray(x), columns(2), ValueError),
    "edge columns": (
        lambda w, x, r: gcl.AdjacencyList(x), columns(2), ValueError),
    "code columns": (
        lambda w, x, r: [gcl.PdgArray, gcl.StatusArray, gcl.HelicityArray,
                         gcl.MaskArray][r.integers(4)](x), columns(1),
        ValueError),
    "momentum columns assigned": (
        lambda w, x, r: setting(w["pmu"], "data", x), columns(4), ValueError),
    "colour columns assigned": (
        lambda w, x, r: setting(w["graph"].color, "data", x), columns(2),
        ValueError),
    "code columns assigned": (
        lambda w, x, r: setting(getattr(w["graph"], [
            "pdg", "status", "helicity"][r.integers(3)]), "data", x),
        columns(1), ValueError),
    "record columns": (
        lambda w, x, r: [
            lambda: gcl.ParticleSet.from_numpy(pmu=x),
            lambda: gcl.Graphicle.from_numpy(pmu=x),
        ][r.integers(2)](), columns(4), ValueError),
    "graph columns": (
        lambda w, x, r: gcl.Graphicle.from_numpy(edges=x), columns(2),
        ValueError),
}

# name: request(w, x, rng), x(w, rng)
ANSWERED = {
    "jets radius": (lambda w, x, r: jets(w, r, radius=x), always(1e-9, 0.0)),
    "jets pt cut": (lambda w, x, r: jets(w, r, pt_cut=x),
                    always(0.0, 0, None, 1e9)),
    "jets eta cut": (lambda w, x, r: jets(w, r, eta_cut=x),
                     always(0.0, 0, None, 1e-12)),
    "jets number": (lambda w, x, r: jets(w, r, top_k=x),
                    always(1, 10**6, None)),
    "vertex of no codes": (
        lambda w, x, r: select.find_vertex(w["graph"], *x),
        always((set(),), (None, set()), (set(), set()), (None, {5}),
               ({5},))),
    "targets": (
        lambda w, x, r: select.hard_descendants(
            w["graph"], x, bool(r.random() < 0.5), bool(r.random() < 0.5)),
        lambda w, r: hard_codes(w)),
    "targets partly absent": (
        lambda w, x, r: select.hard_descendants(
            w["graph"], x, bool(r.random() < 0.5), False), some_absent),
    "targets of other sign": (
        lambda w, x, r: select.hard_descendants(
            w["graph"], [-c for c in x], False, bool(r.random() < 0.5)),
        lambda w, r: hard_codes(w)),
    "sampling massless": (
        lambda w, x, r: gcl.MomentumArray.from_spherical_uniform(
            int(r.integers(0, 5)), 10.0, x, 1), always(0.0, 1.0, 0, 1, 1e-9)),
    "names": (lambda w, x, r: gcl.PdgArray.from_name(x),
              always("b", ["b"], [], ("b", "b"), ["b~", "t"])),
    "split hardest fraction": (
        lambda w, x, r: transform.split_hardest(w["pmu"], x, 0.3, (0.5, 1.0)),
        always(0.5, 1e-12, 0.25)),
    "split hardest lone": (
        lambda w, x, r: transform.split_hardest(w["single"], x, 0.3,
                                                (0.5, 1.0)),
        always(0.5, 0.1)),
    "cut mode": (lambda w, x, r: matrix.cut_adj(w["matrix"], 0.5, mode=x),
                 always("max", "min")),
    "nearest type": (
        lambda w, x, r: matrix.knn_adj(w["matrix"], 2, weighted=True, dtype=x),
        always(float, "<f4", np.float64, None, "<f2")),
    "nearest type unweighted": (
        lambda w, x, r: matrix.knn_adj(w["matrix"], 2, dtype=x),
        always(float, int, bool, None)),
    "nearest number": (
        lambda w, x, r: matrix.knn_adj(w["matrix"], len(w["matrix"]) - 1),
        always(None)),
    "masks alike": (
        lambda w, x, r: ask_mask[r.integers(4)](
            [gcl.MaskArray(w["bools"][0]), w["group"]][r.integers(2)], x),
        lambda w, r: as_mask(w["bools"][r.integers(4)].copy(), r)),
    "group by rule": (
        lambda w, x, r: ask_ruleless[r.integers(9)](w, gcl.MaskGroup(
            {"a": w["bools"][0], "b": w["bools"][1]}, x)),
        always("and", "or")),
    "ends": (
        lambda w, x, r: (w["graph"][x], w["graph"].particles[x],
                         w["links"][x], w["graph"].pdg[x]),
        lambda w, r: [-len(w["graph"]), len(w["graph"]) - 1, -1, 0][
            r.integers(4)]),
}


def settings():
    return (np.geterr(), list(warnings.filters), nb.get_num_threads(),
            str(np.random.get_state()))


def frozen(w):
    return freeze(w, False)


@st.composite
def refusal_cases(draw):
    names = sorted(REFUSED) * 3 + sorted(ANSWERED)
    pos = draw(st.integers(0, len(names) - 1))
    return {"event": draw(events()), "seed": draw(seeds),
            "call": names[pos], "refused": pos < 3 * len(REFUSED),
            "value": draw(st.integers(0, 10**6)),
            "next": draw(st.integers(0, 10**6))}


def attempt(name, w, num, exc=None):
    rng = np.random.default_rng(num)
    request, values = (REFUSED if exc else ANSWERED)[name][:2]
    given = values(w, rng)
    shown = repr(given)[:200]
    before = frozen(w)
    around = settings()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if exc is None:
            try:
                out = request(w, given, rng)
            except Exception as err:
                require(False, name, shown, "is refused with", repr(err))
        else:
            try:
                got = request(w, given, rng)
            except exc:
                out = None
            except Exception as err:
                require(False, name, shown, "is refused by", repr(err))
            else:
                require(False, name, shown, "is not refused:",
                        repr(got)[:300])
    if name != "tag few jets":  # some of the requests change what is asked
        require(frozen(w) == before, name, shown, "changed an object")
    require(settings() == around, name, shown, "changed settings")
    return out


def applies(name, w):
    """Whether the request is one of its kind for this event."""
    hard = w["graph"].status.hard_mask
    num = int(hard["outgoing"].data.sum())
    if name.startswith(("targets", "no targets")):
        return bool(hard_codes(w))
    if name == "tag few jets":
        return num >= 1
    if name.startswith("tag "):
        if num < 1:
            return name in ("tag without stages", "tag without jets")
        return num <= len(w["jets"])
    if name.startswith("split hardest no axis") or "lone" in name:
        return len(w["single"]) == 1
    if name.startswith(("split hardest", "jets")):
        return len(w["pmu"]) > 0
    return len(w["graph"]) > 3 and len(w["pmu"]) > 3


def run_refusal(case):
    name = case["call"]
    w = world(case)
    if not applies(name, w):
        return False
    exc = REFUSED[name][2] if case["refused"] else None
    attempt(name, w, case["value"], exc)
    # what was asked for in vain leaves no trace in what follows
    follow = sorted(ANSWERED)[case["next"] % len(ANSWERED)]
    if case["value"] % 2 and applies(follow, w):
        got = attempt(follow, w, case["next"])
        want = attempt(follow, world(case), case["next"])
        require(alike(freeze(got, True), freeze(want, True)), follow,
                "is answered differently after", name)
    return True


@sub("P44", refusal_cases(), quick=250, thorough=20000,
     rule="the request applies to the event")
def some_refusals(case):
    return run_refusal(case)


def each_refusal(tier, seed):
    for num in range(1 if tier == "quick" else 30):
        for refused, table in ((True, REFUSED), (False, ANSWERED)):
            for pos, name in enumerate(sorted(table)):
                for val in range(7):
                    yield {"event": dict(_EVENT, seed=seed * 100 + num),
                           "seed": 1000 * seed + num, "call": name,
                           "refused": refused, "value": val + 97 * seed,
                           "next": pos * 7 + val * 11}


@sub("P44", enum=each_refusal, rule="the request applies to the event")
def each_request(case):
    return run_refusal(case)
