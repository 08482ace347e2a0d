"""P40: arrays and records are sequences of their elements."""
from __future__ import annotations

from itertools import islice

import numpy as np
from hypothesis import strategies as st

import graphicle as gcl

from ..core import RULES, require, sub
from ..gen import seeds
from .arrays import KINDS, same_rows, values
from .records import (ATTRS, check_event, check_record, event_of,
                      record_cases, record_parts)

RULES["P40"] = "Kind, length and contents of arrays; records as for P03."


def natives(kind, arr):
    """The elements which the array ought to have, as Python natives."""
    return [tuple(row) if isinstance(row, list) else row
            for row in arr.tolist()]


def is_native(item, want):
    if isinstance(want, tuple):
        return (isinstance(item, tuple) and len(item) == len(want)
                and all(type(a) is type(b) for a, b in zip(item, want)))
    return type(item) is type(want)


def drain(iterator, size):
    """At most two more elements than there should be."""
    return list(islice(iterator, size + 2))


@st.composite
def array_cases(draw):
    return {
        "kind": draw(st.sampled_from(sorted(KINDS))),
        "num": draw(st.one_of(st.integers(0, 6), st.integers(0, 60))),
        "style": draw(st.sampled_from(["small", "small", "any"])),
        "origin": draw(st.sampled_from(["new", "sliced", "assigned",
                                        "reversed", "copy"])),
        "seed": draw(seeds),
    }


def array_of(case):
    """The array, made in one of several ways, and what it should hold."""
    cls = KINDS[case["kind"]][0]
    arr = values(case["kind"], case["num"], case["seed"], case["style"])
    arr = np.asarray(arr)
    how = case["origin"]
    if how == "sliced":
        obj = cls(values(case["kind"], 2 * case["num"], case["seed"],
                         case["style"]))
        arr = rows_np(obj)[::2]
        return obj[::2], arr
    if how == "assigned" and case["kind"] != "edges":
        obj = cls(arr[::-1].copy())
        list(islice(iter(obj), 3))
        obj.data = arr.copy()
        return obj, arr
    if how == "reversed":
        return cls(arr.copy())[::-1], arr[::-1]
    if how == "copy" and hasattr(cls, "copy"):
        return cls(arr.copy()).copy(), arr
    return cls(arr.copy()), arr


def rows_np(obj):
    data = np.asarray(obj.data if hasattr(obj, "data") else obj.edges)
    if data.dtype.names is None:
        return data
    if not len(data):
        return np.zeros((0, len(data.dtype.names)))
    return np.stack([data[n] for n in data.dtype.names], axis=1)


@sub("P40", array_cases(), quick=500, nontrivial=lambda c: c["num"] > 1,
     rule="more than one element")
def array_sequence(case):
    obj, arr = array_of(case)
    want = natives(case["kind"], arr)
    size = len(want)
    require(len(obj) == size, "length", len(obj), "not", size)
    first = drain(iter(obj), size)
    require(first == want, "iterating gives", first, "not", want)
    require(all(map(is_native, first, want)), "elements are not native",
            [type(x) for x in first[:1]])
    require(drain(iter(obj), size) == want, "iterating again differs")
    one, two = iter(obj), iter(obj)
    pairs = [(a, b) for a, b in zip(islice(one, size), islice(two, size))]
    require(pairs == list(zip(want, want)), "two iterators interfere")
    back = drain(reversed(obj), size)
    require(back == want[::-1], "reversed gives", back, "not", want[::-1])
    require(all(map(is_native, back, want[::-1])), "reversed not native")
    rng = np.random.default_rng(case["seed"])
    probes = [want[i] for i in rng.integers(size, size=min(size, 4))] \
        if size else []
    # elements which are likely to be missing
    other = natives(case["kind"], np.asarray(
        values(case["kind"], 3, case["seed"] + 5, case["style"])))
    for item in probes + other:
        found = item in obj
        require(bool(found) == (item in want), item, "in array says", found)
        require(obj.count(item) == want.count(item), "count of", item, "is",
                obj.count(item), "not", want.count(item))
        if item in want:
            require(obj.index(item) == want.index(item), "index of", item,
                    "is", obj.index(item), "not", want.index(item))
        else:
            try:
                pos = obj.index(item)
            except ValueError:
                continue
            require(False, "index of", item, "which is missing, is", pos)
    for pos in sorted(set(rng.integers(-size, size, size=3).tolist())
                      if size else ()):
        same_rows(obj[pos], np.asarray(arr[pos])[None], "element", pos)
    for pos in (size, size + 3, -size - 1):
        try:
            got = obj[pos]
        except IndexError:
            continue
        require(False, "element", pos, "of", size, "is", got)
    same_rows(obj, arr, "afterwards")


@st.composite
def equal_cases(draw):
    return {
        "record": draw(record_cases()),
        "change": draw(st.sampled_from(
            ["none", "none", "value", "value", "weight", "drop", "length",
             "order", "unset"])),
        "what": draw(st.integers(0, 6)),
        "seed": draw(seeds),
    }


@sub("P40", record_cases(), quick=250,
     nontrivial=lambda c: c["num"] > 1 and bool(c["attrs"]),
     rule="more than one particle, and some attribute")
def record_sequence(case):
    parts = record_parts(case)
    graph = event_of(parts)
    only = {k: v for k, v in parts.items() if k in ATTRS}
    for obj, ref, check in ((graph, parts, check_event),
                            (graph.particles, only, check_record)):
        size = max([len(v) for v in ref.values()], default=0)
        require(len(obj) == size, "length", len(obj), "not", size)
        got = drain(iter(obj), size)
        require(len(got) == size, "iterating a record of", size, "gives",
                len(got), "or more")
        for idx, item in enumerate(got):
            check(item, {k: v[idx:idx + 1] for k, v in ref.items()},
                  "element", idx)
        for pos in (size, size + 7, -size - 1):
            try:
                item = obj[pos]
            except IndexError:
                continue
            require(False, "element", pos, "of", size, "is", item)
        if size:
            for pos in (0, -1, -size, size - 1):
                check(obj[pos], {k: v[pos:][:1] for k, v in ref.items()},
                      "element", pos)


def altered(parts, case):
    """Parts of another record, and whether it is equal to the first."""
    new = {k: v.copy() for k, v in parts.items()}
    names = sorted(k for k in new if len(new[k]))
    change = case["change"]
    rng = np.random.default_rng(case["seed"])
    if change == "none" or not names:
        return new
    name = names[case["what"] % len(names)]
    if change == "weight":
        if "weights" not in names:
            return new
        name = "weights"
    if change in ("value", "weight"):
        flat = new[name].reshape(-1)
        spot = int(rng.integers(flat.size))
        flat[spot] = (not flat[spot] if flat.dtype == bool
                      else flat[spot] + 1)
        if name == "color":
            new[name] = np.abs(new[name])
    elif change == "drop":
        del new[name]
        if name == "edges":
            new.pop("weights", None)
    elif change == "length":
        new = {k: v[:-1] for k, v in new.items()}
    elif change == "order":
        new = {k: v[::-1] for k, v in new.items()}
    elif change == "unset":
        new = {}
    return new


def alike_parts(one, two):
    keys = {k for k in one if len(one[k])} | {k for k in two if len(two[k])}
    return all(k in one and k in two and np.array_equal(one[k], two[k])
               for k in keys)


@sub("P40", equal_cases(), quick=400,
     nontrivial=lambda c: c["record"]["num"] > 0
     and bool(c["record"]["attrs"]),
     rule="there are particles with some attribute")
def record_equality(case):
    parts = record_parts(case["record"])
    changed = altered(parts, case)
    for pick in (lambda p: p,
                 lambda p: {k: v for k, v in p.items() if k in ATTRS}):
        want = alike_parts(pick(parts), pick(changed))
        one, two = event_of(pick(parts)), event_of(pick(changed))
        pairs = [(one, two), (two, one)]
        if pick(parts) == {} or "edges" not in pick(parts):
            pairs.append((one.particles, two.particles))
        for left, right in pairs:
            same, differ = left == right, left != right
            require(isinstance(same, bool) and isinstance(differ, bool),
                    "comparison gives", same, differ)
            require(same == want and differ == (not want),
                    "with change", case["change"], "== says", same,
                    "and != says", differ)
        require((one == one) is True and (one == one.copy()) is True,
                "an event differs from itself, or from its copy")
    graph = event_of(parts)
    for stranger in (None, 1, "event", graph.particles):
        require((graph == stranger) is False, "equals", stranger)
        require((graph != stranger) is True, "not differing from", stranger)


def every_short_array(tier, seed):
    for kind in sorted(KINDS):
        for num in (0, 1, 2, 3):
            for origin in ("new", "sliced", "assigned", "reversed", "copy"):
                yield {"kind": kind, "num": num, "style": "small",
                       "origin": origin, "seed": seed}


@sub("P40", enum=every_short_array, rule="all kinds, up to three elements")
def short_arrays(case):
    array_sequence(case)
    return case["num"] > 1


def every_empty_record(tier, seed):
    for attrs in [[], *[[a] for a in ATTRS], list(ATTRS)]:
        for edges in ("none", "edges", "weights"):
            for num in (0, 1):
                yield {"num": num, "attrs": attrs, "edges": edges,
                       "style": "any", "seed": seed}


@sub("P40", enum=every_empty_record, rule="a particle, and some attribute")
def short_records(case):
    record_sequence(case)
    return case["num"] > 0 and bool(case["attrs"])
