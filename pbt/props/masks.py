"""P05 mask algebra, P06 mask groups, P07 mask trees, P15, P32."""
from __future__ import annotations

import collections
import itertools
import json

import numpy as np
from hypothesis import strategies as st

import graphicle as gcl
from graphicle import calculate, select

from ..core import RULES, Violation, require, sub
from ..gen import bools, seeds

MaskArray, MaskGroup = gcl.MaskArray, gcl.MaskGroup


def same_bits(got, want) -> bool:
    arr = np.asarray(got.data if hasattr(got, "data") else got)
    want = np.asarray(want, dtype=bool)
    return arr.dtype == np.bool_ and arr.shape == want.shape and bool(
        np.all(arr == want)
    )


def refused(func, *args) -> bool:
    try:
        func(*args)
    except Exception:
        return True
    return False


# ------------------------------------------------------------------- P05
RULES["P05"] = "Pairs of bit patterns of equal length, with operand kinds."


@st.composite
def bit_pairs(draw):
    num = draw(st.one_of(st.integers(0, 12), st.integers(0, 150)))
    if num <= 12:
        left, right = draw(bools(num)), draw(bools(num))
    else:
        rng = np.random.default_rng(draw(seeds))
        prob = draw(st.sampled_from([0.05, 0.5, 0.95]))
        left = (rng.random(num) < prob).tolist()
        right = (rng.random(num) < 0.5).tolist()
    kinds = ("mask", "numpy", "and", "or", "nested")
    return {
        "left": left,
        "right": right,
        "kinds": [
            draw(st.sampled_from(kinds)),
            draw(st.sampled_from(kinds)),
        ],
    }


def as_kind(bits, kind):
    """Something which stands for the bits."""
    arr = np.array(bits, dtype=bool)
    if kind == "numpy":
        return arr
    if kind == "mask":
        return MaskArray(arr)
    half = np.arange(len(arr)) % 2 == 0
    if kind == "and":
        return MaskGroup({"a": arr | half, "b": arr | ~half}, agg_op="and")
    if kind == "or":
        return MaskGroup({"a": arr & half, "b": arr & ~half}, agg_op="or")
    inner = MaskGroup({"a": arr & half, "b": arr & ~half}, agg_op="or")
    return MaskGroup({"in": inner, "all": np.ones_like(arr)}, agg_op="and")


@sub(
    "P05",
    bit_pairs(),
    quick=900,
    rule="operands differ from each other and are non-empty",
    nontrivial=lambda c: c["left"] != c["right"],
)
def operators(case):
    bits_l = np.array(case["left"], dtype=bool)
    bits_r = np.array(case["right"], dtype=bool)
    kind_l, kind_r = case["kinds"]
    left, right = as_kind(bits_l, kind_l), as_kind(bits_r, kind_r)
    both_numpy = kind_l == kind_r == "numpy"
    if both_numpy:
        left = MaskArray(bits_l)
    ops = {
        "and": (lambda x, y: x & y, bits_l & bits_r),
        "or": (lambda x, y: x | y, bits_l | bits_r),
        "eq": (lambda x, y: x == y, bits_l == bits_r),
        "ne": (lambda x, y: x != y, bits_l != bits_r),
    }
    for name, (func, want) in ops.items():
        if isinstance(left, np.ndarray) and isinstance(right, MaskGroup):
            continue  # numpy takes over, and knows nothing of groups
        got = func(left, right)
        require(same_bits(got, want), name, "of", left, right, "gave", got)
        if not isinstance(left, np.ndarray):
            require(isinstance(got, MaskArray), name, "gave a", type(got))
    for obj, bits in ((left, bits_l), (right, bits_r)):
        if isinstance(obj, np.ndarray):
            continue
        require(same_bits(~obj, ~bits), "not", obj, ~obj)
        require(same_bits(obj, bits), "an operand was changed", obj)
        require(same_bits(np.asarray(obj), bits), "np.asarray", obj)
    # numpy functions over plain masks
    mask = MaskArray(bits_l)
    other = MaskArray(bits_r)
    require(same_bits(np.logical_xor(mask, other), bits_l ^ bits_r), "xor")
    require(same_bits(np.bitwise_and(mask, bits_r), bits_l & bits_r), "ufunc")
    require(same_bits(np.bitwise_or(bits_l, other), bits_l | bits_r), "ufunc")
    require(same_bits(np.invert(mask), ~bits_l), "ufunc invert")
    require(list(mask) == bits_l.tolist(), "iteration")
    require(len(mask) == len(bits_l), "length")
    require(bool(mask) == (len(bits_l) > 0), "truthiness")
    if len(bits_l):
        require(bool(np.any(mask.data)) == bool(bits_l.any()), "any")
        require(np.sum(mask) == bits_l.sum(), "sum", np.sum(mask))


@sub(
    "P05",
    st.tuples(
        st.integers(0, 9),
        st.integers(0, 9),
        st.sampled_from(["mask", "numpy", "and", "or"]),
        seeds,
    ).map(list),
    quick=150,
    rule="the two lengths differ",
    nontrivial=lambda c: c[0] != c[1],
)
def refusals(case):
    num_l, num_r, kind, seed = case
    rng = np.random.default_rng(seed)
    left = MaskArray(rng.random(num_l) < 0.5)
    right = as_kind(rng.random(num_r) < 0.5, kind)
    for mask in (left, MaskGroup({"a": left}), MaskGroup({"a": left}, "or")):
        if num_l != num_r:
            require(refused(lambda: mask == right), "== of lengths", case)
            require(refused(lambda: mask != right), "!= of lengths", case)
            if 1 not in (num_l, num_r):
                require(refused(lambda: mask & right), "& of lengths", case)
                require(refused(lambda: mask | right), "| of lengths", case)
        for junk in (True, 1, "mask", None, [True] * num_l):
            require(refused(lambda: mask & junk), "& with", junk)
            require(refused(lambda: mask | junk), "| with", junk)
            require(refused(lambda: mask == junk), "== with", junk)
            require(refused(lambda: mask != junk), "!= with", junk)


@st.composite
def index_case(draw):
    num = draw(st.integers(1, 30))
    bits = draw(bools(num))
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(
            st.sampled_from(["mask", "and", "or", "nested", "numpy", "slice",
                             "ints", "int", "int_list", "bool_list"])
        )
        if kind in ("mask", "numpy", "and", "or", "nested", "bool_list"):
            key = draw(bools(num))
        elif kind == "slice":
            key = [
                draw(st.one_of(st.none(), st.integers(-num - 2, num + 2))),
                draw(st.one_of(st.none(), st.integers(-num - 2, num + 2))),
                draw(st.sampled_from([None, 1, 2, 3, -1, -2])),
            ]
        elif kind in ("ints", "int_list"):
            key = draw(st.one_of(
                st.lists(st.integers(-num, num - 1), max_size=8),
                st.lists(st.integers(-num, num - 1), min_size=num,
                         max_size=num)))
        else:
            key = draw(st.integers(-num, num - 1))
        value = draw(st.sampled_from([True, False, "random"]))
        steps.append([kind, key, value, draw(seeds)])
    return {"bits": bits, "steps": steps}


def make_key(kind, key):
    """The key given to graphicle, and the one for plain numpy."""
    if kind == "slice":
        return slice(*key), slice(*key)
    if kind == "ints":
        arr = np.array(key, dtype=int)
        return arr, arr
    if kind == "int":
        return key, key
    if kind.endswith("_list"):
        return list(key), np.array(key, dtype=kind[:-5])
    arr = np.array(key, dtype=bool)
    return as_kind(arr, kind), arr


@sub("P05", index_case(), quick=500, rule="every case")
def indexing(case):
    model = np.array(case["bits"], dtype=bool)
    mask = MaskArray(model.copy())
    for kind, raw, value, seed in case["steps"]:
        key, np_key = make_key(kind, raw)
        want = model[np_key]
        got = mask[key]
        require(
            same_bits(got, np.atleast_1d(want)), "read", kind, raw, got, want
        )
        if kind == "int":
            val = np_val = bool(seed % 2)
            if seed % 3 == 0:
                val = np.bool_(val)
        elif value == "random":
            np_val = np.random.default_rng(seed).random(want.shape) < 0.5
            val = (np_val, MaskArray(np_val).data, MaskArray(np_val),
                   as_kind(np_val, ("and", "or", "nested")[seed % 3])
                   )[seed // 3 % 4]
        else:
            val = np_val = value
        mask[key] = val
        model[np_key] = np_val
        require(same_bits(mask, model), "assign", kind, raw, mask, model)


# ------------------------------------------------------------------- P06
RULES["P06"] = "Operation sequences over a mask group and a plain model."

NAMES = ["a", "b", "t", "tbar", "W+", "latent", "b0", "", "x y", "\u03c0"]


@st.composite
def group_ops(draw):
    num = draw(st.integers(1, 8))
    agg = draw(st.sampled_from(["and", "or", "none", "AND", "Or"]))
    name = st.sampled_from(NAMES)
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        kind = draw(
            st.sampled_from(
                ["set", "set", "set", "setlist", "nest", "nest", "del", "get",
                 "keys", "slice", "mask", "copy", "agg", "update", "pop",
                 "reorder", "share"]
            )
        )
        arg = None
        if kind in ("set", "setlist", "update"):
            arg = [draw(name), draw(bools(num))]
        elif kind == "nest":
            arg = [
                draw(name),
                draw(st.sampled_from(["and", "or", "and", "or", "none"])),
                [
                    [draw(name), draw(bools(num))]
                    for _ in range(draw(st.integers(1, 3)))
                ],
            ]
        elif kind in ("del", "get", "pop"):
            arg = draw(name)
        elif kind == "share":
            arg = [draw(name), draw(name)]
        elif kind in ("keys", "reorder"):
            arg = draw(st.lists(name, max_size=4, unique=True))
        elif kind == "slice":
            arg = [
                draw(st.integers(-9, 9)),
                draw(st.integers(-9, 9)),
                draw(st.sampled_from([1, 2, -1])),
            ]
        elif kind == "mask":
            arg = draw(bools(num))
        elif kind == "agg":
            arg = draw(st.sampled_from(["and", "or", "none"]))
        ops.append([kind, arg])
    return {"num": num, "agg": agg, "ops": ops}


class Model:
    """Insertion ordered mapping, with an aggregation rule."""

    def __init__(self, agg, items=()):
        self.agg = agg
        self.items = collections.OrderedDict(items)

    def ruled(self):
        """Whether each nested group has a rule."""
        return all(
            val.agg.lower() != "none" and val.ruled()
            for val in self.items.values() if isinstance(val, Model)
        )

    def data(self):
        parts = [
            val.data() if isinstance(val, Model) else val
            for val in self.items.values()
        ]
        if self.agg.lower() == "and":
            return np.all(parts, axis=0)
        return np.any(parts, axis=0)

    def each(self, func):
        return Model(
            self.agg,
            [
                (k, v.each(func) if isinstance(v, Model) else func(v))
                for k, v in self.items.items()
            ],
        )


def contained(group, key):
    """Membership; keys which can't be hashed may be refused."""
    try:
        return key in group
    except TypeError:
        return False


def compare(group, model, where):
    require(isinstance(group, MaskGroup), where, "is a", type(group))
    require(
        list(group) == list(model.items), where, "keys", list(group),
        list(model.items),
    )
    require(list(group.keys()) == list(model.items), where, "keys()")
    require(len(group) == len(model.items), where, "length")
    require(
        group.agg_op.value == model.agg.lower(), where, "rule", group.agg_op,
        model.agg,
    )
    for (key, got), want in zip(group.items(), model.items.values()):
        require(group[key] is got or not isinstance(got, MaskArray), where)
        require(key in group, where, "membership")
        if isinstance(want, Model):
            compare(got, want, f"{where}/{key}")
        else:
            require(isinstance(got, MaskArray), where, "value", type(got))
            require(same_bits(got, want), where, key, got, want)
    for key in (0, slice(None), None, ["a"], 1.5, ()):
        require(contained(group, key) is False, where, key, "is contained")
    for key in NAMES:
        require((key in group) is (key in model.items), where, "membership")
    if not model.items:
        require(not bool(group), where, "an empty group is true")
        return
    if model.agg.lower() == "none" or not model.ruled():
        require(refused(lambda: group.data), where, "data without a rule")
        require(refused(lambda: ~group), where, "inverse without a rule")
        if not model.ruled():
            require(refused(group.bitwise_or), where, "or without a rule")
            require(refused(group.bitwise_and), where, "and without a rule")
        return
    want = model.data()
    require(same_bits(group.data, want), where, "data", group.data, want)
    require(same_bits(~group, ~want), where, "invert")
    require(same_bits(np.asarray(group), want), where, "asarray")
    for kind in ("?", "i4", "f8"):
        got = np.asarray(group, dtype=kind)
        require(got.dtype == np.dtype(kind) and same_bits(got != 0, want),
                where, "asarray as", kind, "gives", got)
    require(bool(group) == (len(want) > 0), where, "truthiness")
    parts = [
        v.data() if isinstance(v, Model) else v for v in model.items.values()
    ]
    require(same_bits(group.bitwise_or(), np.any(parts, axis=0)), where, "or")
    require(
        same_bits(group.bitwise_and(), np.all(parts, axis=0)), where, "and"
    )


@sub(
    "P06",
    group_ops(),
    quick=900,
    rule="at least three operations, one of them an insertion",
    nontrivial=lambda c: len(c["ops"]) > 2
    and any(k in ("set", "nest", "update", "setlist") for k, _ in c["ops"]),
)
def stateful(case):
    group = MaskGroup(agg_op=case["agg"])
    model = Model(case["agg"])
    num = case["num"]
    compare(group, model, "at first")
    compare(MaskGroup(), Model("and"), "default")
    for key in (1, None, ("a",)):
        require(refused(group.__setitem__, key, [True] * num),
                "a key which is no string", key)
    kept = []  # earlier copies, which must not change
    for kind, arg in case["ops"]:
        if kind in ("set", "setlist", "update"):
            name, bits = arg
            bits = np.array(bits, dtype=bool)[:num]
            if len(bits) != num:
                bits = np.resize(bits, num) if len(bits) else np.zeros(num, bool)
            if kind == "set":
                group[name] = MaskArray(bits.copy())
            elif kind == "setlist":
                group[name] = bits.tolist()
            else:
                group.update({name: MaskArray(bits.copy())})
            model.items[name] = bits
        elif kind == "nest":
            name, agg, items = arg
            pairs = collections.OrderedDict(
                (k, np.resize(np.array(v, dtype=bool), num)) for k, v in items
            )
            child = MaskGroup({k: v.copy() for k, v in pairs.items()}, agg)
            group[name] = child
            model.items[name] = Model(agg, pairs)
        elif kind == "share":
            # The same mask under another name.  Replacing one of the two
            # later is no business of the other.
            if arg[0] not in model.items or isinstance(
                    model.items[arg[0]], Model):
                continue
            group[arg[1]] = group[arg[0]]
            model.items[arg[1]] = model.items[arg[0]]
        elif kind in ("del", "pop"):
            if arg not in model.items:
                require(refused(group.__delitem__, arg), "delete missing", arg)
                require(arg not in group, "membership of missing", arg)
                continue
            if kind == "del":
                del group[arg]
            else:
                group.pop(arg)
            del model.items[arg]
        elif kind == "get":
            if arg not in model.items:
                require(refused(group.__getitem__, arg), "get missing", arg)
                require(group.get(arg) is None, "get default")
        elif kind in ("keys", "reorder"):
            names = [k for k in arg if k in model.items]
            if kind == "reorder":
                names += [k for k in model.items if k not in names]
            if len(names) != len(arg) and kind == "keys" and arg:
                require(refused(group.__getitem__, arg), "missing keys", arg)
            got = group[names]
            want = Model(model.agg, [(k, model.items[k]) for k in names])
            compare(got, want, "selected keys")
            if kind == "reorder":
                group, model = got, want
        elif kind in ("slice", "mask"):
            if kind == "slice":
                key = slice(*arg)
                np_key = key
            else:
                np_key = np.resize(np.array(arg, dtype=bool), num)
                key = MaskArray(np_key)
            got = group[key]
            compare(got, model.each(lambda v: v[np_key]), f"{kind} of group")
        elif kind == "copy":
            kept.append((group, model.each(np.copy)))
            group = group.copy()
            model = model.each(np.copy)
        elif kind == "agg":
            group.agg_op = arg
            model.agg = arg
        compare(group, model, f"after {kind}")
    for old, old_model in kept:
        compare(old, old_model, "the original of a copy")


# ------------------------------------------------------------------- P07
RULES["P07"] = "Random mask trees, judged against a plain recursive model."


# a number is added to each, so that none of them is the latent mask
TREE_NAMES = ["t", "b", "W", "g", "q", "latent", "latent ", "not latent",
              "Latent:", "masks.", " ", "[b]", "data", "\u03c0"]


@st.composite
def mask_trees(draw, unique=True, latent=True, empty=False):
    num = draw(st.integers(1, 6))
    counter = itertools.count()

    def build(depth):
        width = draw(st.integers(1, 4))
        items = []
        for _ in range(width):
            name = f"{draw(st.sampled_from(TREE_NAMES))}{next(counter)}"
            if not unique:
                name = name[0]
            if depth < 3 and draw(st.integers(0, 3)) == 0:
                items.append([name, build(depth + 1)])
            else:
                items.append([name, draw(bools(num))])
        if latent and depth and draw(st.booleans()):
            spot = draw(st.integers(0, len(items)))
            items.insert(spot, ["latent", draw(bools(num))])
        return {"agg": draw(st.sampled_from(["and", "or"])), "items": items}

    return {"num": num, "tree": build(0)}


def to_group(tree):
    return MaskGroup(
        collections.OrderedDict(
            (k, to_group(v) if isinstance(v, dict) else np.array(v, bool))
            for k, v in tree["items"]
        ),
        agg_op=tree["agg"],
    )


def to_model(tree):
    return Model(
        tree["agg"],
        [
            (k, to_model(v) if isinstance(v, dict) else np.array(v, bool))
            for k, v in tree["items"]
        ],
    )


def rise(model):
    for key, val in model.items.items():
        if key == "latent":
            continue
        if isinstance(val, Model):
            yield key, val.data()
            yield from rise(val)
        else:
            yield key, val


def leaves(model, top=True):
    for key, val in model.items.items():
        if isinstance(val, Model):
            yield from leaves(val, False)
        elif key != "latent":
            yield key, val


def dropped(model, key):
    return Model(
        model.agg,
        [
            (k, dropped(v, key) if isinstance(v, Model) else v)
            for k, v in model.items.items()
            if k != key
        ],
    )


def has_group(case):
    return any(isinstance(v, dict) for _, v in case["tree"]["items"])


@sub("P07", mask_trees(), quick=700, nontrivial=has_group,
     rule="the tree has a nested group")
def flattening(case):
    group, model = to_group(case["tree"]), to_model(case["tree"])
    for how, items, agg in (
        ("rise", list(rise(model)), model.agg),
        ("leaves", list(leaves(model)), model.agg),
        (
            "agg",
            [
                (k, v.data() if isinstance(v, Model) else v)
                for k, v in model.items.items()
            ],
            "or",
        ),
    ):
        got = group.flatten(how)
        want = Model(agg, items)
        compare(got, want, f"flatten({how!r})")
    compare(group.flatten(), Model(model.agg, list(rise(model))), "flatten()")
    compare(
        select.leaf_masks(group), Model(model.agg, list(leaves(model))),
        "leaf_masks",
    )
    compare(group, model, "the flattened original")


@sub("P07", mask_trees(), quick=500, nontrivial=has_group,
     rule="the tree has a nested group")
def dropping(case):
    model = to_model(case["tree"])
    names = {"latent", "absent"}
    stack = [case["tree"]]
    while stack:
        for name, val in stack.pop()["items"]:
            names.add(name)
            if isinstance(val, dict):
                stack.append(val)
    for name in sorted(names):
        group = to_group(case["tree"])
        want = dropped(model, name)
        if not all_filled(want):
            continue
        got = group.recursive_drop(name)
        compare(got, want, f"drop {name}")
        compare(group, model, f"original of drop {name}")
        for mask in got.values():
            if isinstance(mask, MaskArray):
                mask[:] = ~mask.data
        compare(group, model, f"original, changing the result of drop {name}")
        got = group.recursive_drop(name, inplace=True)
        compare(group, want, f"drop {name} in place")
        compare(got, want, f"result of drop {name} in place")
    group = to_group(case["tree"])
    compare(group.recursive_drop(), dropped(model, "latent"), "default drop")


def all_filled(model):
    return bool(model.items) and all(
        all_filled(v) for v in model.items.values() if isinstance(v, Model)
    )


def equal_model(one, two, order):
    if isinstance(one, Model) != isinstance(two, Model):
        return False
    if not isinstance(one, Model):
        return bool(np.array_equal(one, two))
    keys = (list(one.items), list(two.items))
    if (keys[0] != keys[1]) if order else (set(keys[0]) != set(keys[1])):
        return False
    return all(equal_model(one.items[k], two.items[k], order) for k in keys[0])


@st.composite
def tree_pairs(draw):
    case = draw(mask_trees())
    edits = draw(
        st.lists(
            st.sampled_from(
                ["shuffle", "flip", "rename", "drop", "wrap", "agg", "nest"]
            ),
            max_size=2,
        )
    )
    return {"tree": case["tree"], "edits": edits, "seed": draw(seeds)}


def edit_tree(tree, edits, seed):
    rng = np.random.default_rng(seed)
    tree = json.loads(json.dumps(tree))
    for edit in edits:
        node = tree
        while rng.random() < 0.6:
            below = [v for _, v in node["items"] if isinstance(v, dict)]
            if not below:
                break
            node = below[rng.integers(len(below))]
        items = node["items"]
        spot = int(rng.integers(len(items)))
        if edit == "shuffle":
            node["items"] = [items[i] for i in rng.permutation(len(items))]
        elif edit == "flip" and not isinstance(items[spot][1], dict):
            pos = int(rng.integers(len(items[spot][1])))
            items[spot][1][pos] = not items[spot][1][pos]
        elif edit == "rename":
            items[spot][0] += "_"
        elif edit == "drop" and len(items) > 1:
            del items[spot]
        elif edit == "wrap":
            items[spot][1] = {"agg": "or", "items": [list(items[spot])]}
        elif edit == "nest":
            items.append(["extra", items[0][1]])
        elif edit == "agg":
            node["agg"] = "or" if node["agg"] == "and" else "and"
    return tree


@sub("P07", tree_pairs(), quick=700, rule="the two trees were edited apart",
     nontrivial=lambda c: bool(c["edits"]))
def equality(case):
    other = edit_tree(case["tree"], case["edits"], case["seed"])
    one, two = to_group(case["tree"]), to_group(other)
    mod_1, mod_2 = to_model(case["tree"]), to_model(other)
    for order in (False, True):
        want = equal_model(mod_1, mod_2, order)
        for left, right in ((one, two), (two, one)):
            got = left.equal_to(right, check_order=order)
            require(
                bool(got) == want, "equal_to gave", got, "not", want, "order:",
                order, case["edits"],
            )
    require(one.equal_to(two) == equal_model(mod_1, mod_2, False), "default")
    require(one.equal_to(one.copy(), check_order=True), "copy not equal")
    require(
        one.equal_to(MaskGroup(one.serialize()), check_order=True),
        "rebuilt from serialized is not equal",
    )


# ------------------------------------------------------------------- P15
RULES["P15"] = "Pairs or triples of sets, with or without weights."


@st.composite
def jaccard_cases(draw):
    num = draw(st.one_of(st.integers(0, 10), st.integers(0, 120)))
    rng = np.random.default_rng(draw(seeds))
    sets = []
    for _ in range(3):
        prob = draw(st.sampled_from([0.5, 0.3, 0.7, 0.1, 0.9, 0.5, 0.0, 1.0]))
        sets.append((rng.random(num) < prob).tolist())
    special = draw(st.integers(0, 11))
    if special == 10:
        sets[1] = sets[0]
    if special == 11:
        sets[1] = [not b for b in sets[0]]
    weights = draw(st.sampled_from(
        ["random", "none", "zeros", "ints", "tiny", "small"]))
    if weights == "none":
        vals = None
    elif weights == "random":
        vals = rng.random(num).tolist()
    elif weights == "ints":
        vals = rng.integers(0, 4, size=num).astype(float).tolist()
    elif weights == "tiny":
        vals = (10.0 ** rng.uniform(-12, 12, size=num)).tolist()
    elif weights == "small":  # all of them
        vals = (rng.random(num) * 10.0 ** rng.uniform(-40, -8)).tolist()
    else:
        vals = np.where(rng.random(num) < 0.5, 0.0, 2.0).tolist()
    kinds = [
        draw(st.sampled_from(["mask", "numpy", "and", "or", "nested"]))
        for _ in range(2)
    ]
    return {"sets": sets, "weights": vals, "kinds": kinds,
            "strided": draw(st.booleans())}


def jaccard_ref(one, two, weights):
    import math

    either = [w for a, b, w in zip(one, two, weights) if a or b]
    apart = [w for a, b, w in zip(one, two, weights) if a != b]
    total = math.fsum(either)
    return math.fsum(apart) / total if total else 0.0


@sub(
    "P15",
    jaccard_cases(),
    quick=1500,
    rule="the sets overlap but are not equal",
    nontrivial=lambda c: c["sets"][0] != c["sets"][1]
    and any(a and b for a, b in zip(*c["sets"][:2])),
)
def jaccard(case):
    one, two, three = (np.array(s, dtype=bool) for s in case["sets"])
    weights = case["weights"]
    plain = np.ones(len(one)) if weights is None else np.array(weights)
    arg = () if weights is None else (plain.copy(),)
    dist = calculate.jaccard_distance
    obj_1 = as_kind(one, case["kinds"][0])
    obj_2 = as_kind(two, case["kinds"][1])
    got = dist(obj_1, obj_2, *arg)
    want = jaccard_ref(one, two, plain)
    require(np.isclose(got, want, rtol=1e-9, atol=1e-12), "got", got, want)
    require(np.isclose(dist(obj_2, obj_1, *arg), got, rtol=1e-12), "symmetry")
    require(abs(dist(obj_1, obj_1, *arg)) < 1e-12, "equal sets")
    require(abs(dist(one, one.copy(), *arg)) < 1e-12, "equal sets")
    if plain[one].sum() + plain[~one].sum() > 0:
        require(abs(dist(one, ~one, *arg) - 1.0) < 1e-12, "disjoint sets")
    far = dist(one, three, *arg)
    require(far <= got + dist(two, three, *arg) + 1e-12, "triangle", case)
    require(-1e-12 <= got <= 1.0 + 1e-12, "range", got)
    if arg:
        require(np.array_equal(arg[0], plain), "weights were changed")
        by_name = dist(one, two, weights=plain)
        require(np.isclose(by_name, want, rtol=1e-9, atol=1e-12), "keyword")


# ------------------------------------------------------------------- P32
RULES["P32"] = "Groups of sparse masks, flat or nested."


@st.composite
def overlap_cases(draw):
    num = draw(st.one_of(st.integers(1, 8), st.integers(1, 80)))
    width = draw(st.integers(0, 6))
    rng = np.random.default_rng(draw(seeds))
    owner = rng.integers(-1, max(width, 1), size=num)
    masks = [(owner == i) for i in range(width)]
    touched = draw(st.sampled_from(["apart", "one", "many"]))
    if width > 1 and touched == "one":
        low, high = rng.choice(width, size=2, replace=False)
        spot = int(rng.integers(num))
        masks[low][spot] = masks[high][spot] = True
    if touched == "many":
        masks = [rng.random(num) < 0.3 for _ in range(width)]
    nest = [draw(st.sampled_from(["flat", "or", "and"])) for _ in range(width)]
    return {
        "masks": [m.tolist() for m in masks],
        "nest": nest,
        "agg": draw(st.sampled_from(["and", "or", "none"])),
    }


@sub(
    "P32",
    overlap_cases(),
    quick=1500,
    rule="at least two masks, and one of them marks something",
    nontrivial=lambda c: len(c["masks"]) > 1 and any(map(any, c["masks"])),
    examples=[{"masks": [], "nest": [], "agg": "and"},
              {"masks": [[True]], "nest": ["flat"], "agg": "and"}],
)
def overlap(case):
    group = MaskGroup(agg_op=case["agg"])
    for idx, (bits, nest) in enumerate(zip(case["masks"], case["nest"])):
        group[f"p{idx}"] = (
            MaskArray(bits) if nest == "flat" else as_kind(bits, nest)
        )
    count = np.sum(np.array(case["masks"], dtype=int), axis=0)
    want = bool(np.any(count > 1))
    got = select.any_overlap(group)
    require(bool(got) == want, "any_overlap gave", got, "not", want)
    back = MaskGroup(
        dict(reversed(list(group.items()))), agg_op=case["agg"]
    )
    require(bool(select.any_overlap(back)) == want, "order of masks")
