"""P01 construction, P02 serialization, P10 numpy, P39 freshness."""
from __future__ import annotations

import json
import operator as op
import pickle
from copy import deepcopy

import numpy as np
from hypothesis import strategies as st
from numpy.lib import recfunctions as rfn

import graphicle as gcl

from ..core import RULES, Violation, require, sub
from ..gen import bools, close, expand, make_momenta, seeds

KINDS = {
    "pmu": (gcl.MomentumArray, 4, "<f8", ("x", "y", "z", "e")),
    "color": (gcl.ColorArray, 2, "<i4", ("color", "anticolor")),
    "edges": (gcl.AdjacencyList, 2, "<i4", ("src", "dst")),
    "pdg": (gcl.PdgArray, 1, "<i4", None),
    "helicity": (gcl.HelicityArray, 1, "<i2", None),
    "status": (gcl.StatusArray, 1, "<i2", None),
    "mask": (gcl.MaskArray, 1, "<?", None),
}
ALIASES = {
    "x": ("x", "px"),
    "y": ("y", "py"),
    "z": ("z", "pz"),
    "e": ("e", "pe", "E"),
    "src": ("src", "in"),
    "dst": ("dst", "out"),
}
PDGS = [1, -1, 2, -2, 3, 5, -5, 6, -6, 11, -11, 13, 21, 22, 23, 24, -24, 25,
        111, 211, -211, 321, 2212, -2212, 2112, 130, 310, 443]


def values(kind, num, seed, style="any"):
    """Reference content, one row per element."""
    rng = np.random.default_rng(seed)
    cols = KINDS[kind][1]
    if kind == "mask":
        return rng.random(num) < 0.5
    if kind == "pdg":
        return rng.choice(PDGS, size=num).astype("<i4")
    if kind == "pmu":
        if style == "small":
            return rng.integers(-3, 4, size=(num, 4)).astype("<f8")
        return make_momenta("wild" if style == "wild" else "phys", num, seed)
    high = 3 if style == "small" else 120
    if kind == "color":
        low = 0
    elif kind == "status":
        low = -high
    else:
        low = -high
    shape = (num, cols) if cols > 1 else (num,)
    return rng.integers(low, high + 1, size=shape).astype(KINDS[kind][2])


def rows_of(obj):
    """What the object holds, through its public data."""
    data = obj.data if hasattr(obj, "data") else obj.edges
    data = np.asarray(data)
    if data.dtype.names is not None:
        if len(data) == 0:
            return np.zeros((0, len(data.dtype.names)))
        return np.stack([data[name] for name in data.dtype.names], axis=1)
    return data


def same_rows(obj, want, *where):
    got = rows_of(obj)
    want = np.asarray(want)
    ok = got.shape == want.shape and bool(
        np.all((got == want) | ((got != got) & (want != want)))
    )
    require(ok, *where, "holds", got, "not", want)


def unstruct(arr):
    arr = np.asarray(arr)
    if arr.dtype.names is None:
        return arr
    if arr.size == 0:
        return np.zeros((0, len(arr.dtype.names)))
    return rfn.structured_to_unstructured(arr)


# ------------------------------------------------------------------- P01
RULES["P01"] = "Array kind, length, seed of the values, and input layout."

LAYOUTS_ANY = ["list", "tuples", "c", "strided", "reversed", "wide", "endian",
               "own", "copyless", "memoryview", "masked"]
LAYOUTS_2D = ["fortran", "transposed", "columns", "struct", "struct_alias",
              "struct_perm", "struct_strided", "struct_extra_pad",
              "struct_narrow", "struct_mixed", "record", "dataframe", "rowlists", "elements"]
LAYOUTS_1D = ["column", "generator_list", "npscalars"]


@st.composite
def layouts(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    two_d = KINDS[kind][1] > 1
    layout = draw(
        st.sampled_from(LAYOUTS_ANY + (LAYOUTS_2D if two_d else LAYOUTS_1D))
    )
    num = draw(st.one_of(st.integers(0, 6), st.integers(0, 90)))
    return {
        "kind": kind,
        "layout": layout,
        "num": num,
        "style": draw(st.sampled_from(["any", "small", "wild"])),
        "seed": draw(seeds),
        "assign": draw(st.booleans()),
    }


def field_names(kind, layout, rng):
    names = list(KINDS[kind][3])
    order = list(range(len(names)))
    if layout in ("struct_perm", "struct_strided", "record"):
        order = list(rng.permutation(len(names)))
    if layout in ("struct_alias", "struct_perm", "record"):
        names = [str(rng.choice(ALIASES.get(n, (n,)))) for n in names]
    return names, order


def mixed_types(case):
    """Types of the fields of a structured array, in order."""
    rng = np.random.default_rng(case["seed"] + 3)
    pool = ["<i2", "<i4", "<f4", "<f8", ">f8", "<i8"]
    if KINDS[case["kind"]][2] != "<f8":
        pool = ["<i2", "<i4", ">i4", "<i8", "<f8"]
    return [str(rng.choice(pool)) for _ in range(KINDS[case["kind"]][1])]


def laid_out(case, vals):
    kind, layout = case["kind"], case["layout"]
    cls, cols, dtype, _ = KINDS[kind]
    rng = np.random.default_rng(case["seed"] + 1)
    num = len(vals)
    if layout in ("c", "copyless"):
        return vals.copy()
    if layout == "list" or layout == "rowlists":
        return vals.tolist()
    if layout == "generator_list":
        return [v for v in vals.tolist()]
    if layout == "npscalars":
        return [v for v in vals]
    if layout == "tuples":
        if cols == 1:
            return tuple(vals.tolist())
        return tuple(tuple(r) for r in vals.tolist())
    if layout == "strided":
        big = np.repeat(vals, 3, axis=0)
        big[1::3] = big[2::3] = 0
        return big[::3]
    if layout == "reversed":
        return np.ascontiguousarray(vals[::-1])[::-1]
    if layout == "wide":
        wide = {"<f8": "<f4", "<i4": "<i8", "<i2": "<i8", "<?": "<?"}[dtype]
        if wide == "<f4":
            return np.round(vals).astype("<f4")
        return vals.astype(wide)
    if layout == "endian":
        return vals.astype(np.dtype(dtype).newbyteorder(">"))
    if layout == "masked":  # with nothing masked
        return np.ma.array(vals.copy())
    if layout == "own":
        return cls(vals.copy())
    if layout == "memoryview":
        return np.frombuffer(vals.tobytes(), dtype=vals.dtype).reshape(
            vals.shape
        )
    if layout == "fortran":
        return np.asfortranarray(vals)
    if layout == "transposed":
        return np.ascontiguousarray(vals.T).T
    if layout == "columns":
        big = np.zeros((num, cols + 3), dtype=vals.dtype)
        big[:, 2 : 2 + cols] = vals
        return big[:, 2 : 2 + cols]
    if layout == "column":
        return vals.reshape(-1, 1)
    if layout == "elements":
        return list(cls(vals.copy()))
    if layout == "dataframe":
        import pandas as pd

        return pd.DataFrame(
            {i: vals[:, i] for i in range(cols)}, columns=range(cols)
        ).values
    # structured layouts
    names, order = field_names(kind, layout, rng)
    if layout == "struct_mixed":  # each field has a type of its own
        dt = np.dtype(list(zip(names, mixed_types(case))))
        view = np.zeros(num, dtype=dt)
        for i in range(cols):
            view[names[i]] = vals[:, i]
        return view
    base_dtype = dtype
    if layout == "struct_narrow":
        base_dtype = "<f4" if dtype == "<f8" else "<i8"
    spec = [(names[i], base_dtype) for i in order]
    dt = np.dtype(spec, align=True)
    if layout == "struct_extra_pad":
        dt = np.dtype(
            {
                "names": names,
                "formats": [base_dtype] * cols,
                "offsets": [16 * i + 8 for i in range(cols)],
                "itemsize": 16 * cols + 24,
            }
        )
    arr = np.zeros(num * (2 if layout == "struct_strided" else 1), dtype=dt)
    view = arr[::2] if layout == "struct_strided" else arr
    for i in range(cols):
        col = vals[:, i]
        view[names[i]] = np.round(col) if layout == "struct_narrow" else col
    return view.view(np.recarray) if layout == "record" else view


@sub(
    "P01",
    layouts(),
    quick=1500,
    rule="non-empty and not a plain contiguous array",
    nontrivial=lambda c: c["num"] > 0 and c["layout"] not in ("c", "copyless"),
)
def layout_independence(case):
    kind, layout, num = case["kind"], case["layout"], case["num"]
    cls, cols, dtype, names = KINDS[kind]
    want = values(kind, num, case["seed"], case["style"])
    if layout in ("wide", "struct_narrow") and dtype == "<f8":
        want = np.round(want).astype("<f4").astype("<f8")
    if layout == "struct_mixed":
        want = np.clip(want, -30_000, 30_000)
        types = map(np.dtype, mixed_types(case))
        for idx, of_field in enumerate(types):
            want[:, idx] = want[:, idx].astype(of_field)
    given = laid_out(case, want)
    before = np.array(given, copy=True) if isinstance(given, np.ndarray) else None
    if case["assign"] and kind != "edges":
        obj = cls(values(kind, 3, case["seed"] + 2))
        obj.data = given
    else:
        obj = cls(given)
    check_object(obj, want, kind)
    if before is not None:
        require(
            np.array_equal(unstruct(given), unstruct(before)), "input changed"
        )


def check_object(obj, want, kind):
    cls, cols, dtype, names = KINDS[kind]
    num = len(want)
    require(type(obj) is cls, "type", type(obj))
    same_rows(obj, want, kind)
    require(len(obj) == num, "length", len(obj), num)
    require(bool(obj) == (num > 0), "truthiness")
    require(obj.dtype == obj.data.dtype, "dtype", obj.dtype)
    plain = unstruct(np.asarray(obj))
    require(
        plain.shape == want.shape and np.array_equal(plain, want),
        "np.asarray gave", plain,
    )
    items = list(obj)
    require(len(items) == num, "iteration length")
    for item, row in zip(items, want.tolist()):
        if cols == 1:
            require(item == row, "iterated", item, row)
        else:
            require(tuple(item) == tuple(row), "iterated", item, row)
    if names:
        for idx, name in enumerate(names):
            comp = obj.data[name]
            require(np.array_equal(comp, want[:, idx]), name, comp)
            attr = "energy" if name == "e" else name
            if kind == "edges":
                comp = obj.edges[name]
            else:
                comp = getattr(obj, attr)
            require(
                comp.shape == (num,) and np.array_equal(comp, want[:, idx]),
                attr, comp,
            )
            if num:
                first = items[-1]
                require(
                    getattr(first, attr, None) == want[-1, idx]
                    or getattr(first, name, None) == want[-1, idx],
                    "element field", name, first,
                )


@sub(
    "P01",
    st.tuples(
        st.sampled_from(sorted(KINDS)), seeds,
        st.sampled_from(["list", "tuple", "array", "array2d", "object"])
    ).map(list),
    quick=300,
    rule="every case",
)
def single_row(case):
    kind, seed, how = case
    cls, cols, dtype, _ = KINDS[kind]
    want = values(kind, 1, seed)
    row = want[0]
    given = {
        "list": lambda: row.tolist(),
        "tuple": lambda: tuple(row.tolist()) if cols > 1 else row.item(),
        "array": lambda: np.array(row),
        "array2d": lambda: want.copy(),
        "object": lambda: cls(want.copy())[0],
    }[how]()
    check_object(cls(given), want, kind)
    check_object(cls(values(kind, 5, seed))[3],
                 values(kind, 5, seed)[3:4], kind)


@sub(
    "P01",
    st.tuples(
        st.sampled_from(["pmu", "color", "edges", "pdg", "status", "mask",
                         "helicity"]),
        st.integers(1, 9),
        st.integers(2, 9),
    ).map(list),
    quick=200,
    rule="every case",
)
def wrong_columns(case):
    kind, num, width = case
    cls, cols, dtype, _ = KINDS[kind]
    if width == cols or (num == 0):
        raise_skip()
    bad = np.ones((num, width), dtype=dtype)
    for given in (bad, bad.tolist(), np.asfortranarray(bad)):
        try:
            obj = cls(given)
        except Exception:
            continue
        raise Violation(f"{kind} took {width} columns, and became {obj!r}")


def raise_skip():
    from ..core import Skip

    raise Skip()


@sub("P01", enum=lambda tier, seed: sorted(KINDS), rule="every case")
def empties(kind):
    cls, cols, dtype, _ = KINDS[kind]
    given = [(), [], np.array([], dtype=dtype)]
    if cols > 1:
        given.append(np.zeros((0, cols), dtype=dtype))
    for item in given:
        obj = cls(item)
        require(len(obj) == 0 and not bool(obj), "empty", kind)
        require(list(obj) == [], "iteration of empty", kind)
    obj = cls()
    require(len(obj) == 0 and not bool(obj) and list(obj) == [], "default")
    require(tuple(obj.serialize()) == (), "serialized empty")


# ------------------------------------------------------------------- P02
RULES["P02"] = "Array kind or mask tree or record, with its contents."


@sub(
    "P02",
    st.tuples(
        st.sampled_from(sorted(KINDS)),
        st.one_of(st.integers(0, 5), st.integers(0, 150)),
        seeds,
        st.sampled_from(["any", "small", "wild"]),
    ).map(list),
    quick=1000,
    rule="the array is not empty",
    nontrivial=lambda c: c[1] > 0,
)
def array_round_trip(case):
    kind, num, seed, style = case
    cls, cols, dtype, _ = KINDS[kind]
    want = values(kind, num, seed, style)
    obj = cls(want.copy())
    ser = obj.serialize()
    plain_scalar = {"<f8": float, "<i4": int, "<i2": int, "<?": bool}[dtype]
    require(isinstance(ser, tuple) and len(ser) == num, "container", ser)
    for item in ser:
        parts = item if cols > 1 else (item,)
        require(len(parts) == max(cols, 1), "element", item)
        require(
            all(type(p) is plain_scalar for p in parts), "scalars of", item
        )
    check_object(cls(ser), want, kind)
    check_object(cls(json.loads(json.dumps(ser))), want, kind)
    check_object(cls(list(obj)), want, kind)
    check_object(cls(np.array(obj.data)), want, kind)
    check_object(cls(np.asarray(obj)), want, kind)
    check_object(obj, want, kind)
    again = cls(ser).serialize()
    require(again == ser, "serialized twice", again, ser)


def tree_model(tree):
    return {
        k: tree_model(v) if isinstance(v, dict) else list(v)
        for k, v in tree["items"]
    }


def plain_tree(ser):
    out = {}
    for key, val in ser.items():
        require(type(key) is str, "key type", key)
        if isinstance(val, dict):
            out[key] = plain_tree(val)
        else:
            require(isinstance(val, tuple), "leaf", val)
            require(all(type(v) is bool for v in val), "leaf scalars", val)
            out[key] = list(val)
    return out


def ordered(tree):
    return [
        (k, ordered(v) if isinstance(v, dict) else list(v))
        for k, v in tree.items()
    ]


from .masks import mask_trees, to_group  # noqa: E402


@sub(
    "P02",
    mask_trees(unique=False),
    quick=500,
    rule="the tree is nested",
    nontrivial=lambda c: any(
        isinstance(v, dict) for _, v in c["tree"]["items"]
    ),
)
def mask_tree_round_trip(case):
    want = ordered(tree_model(case["tree"]))
    group = to_group(case["tree"])
    ser = group.serialize()
    require(ordered(plain_tree(ser)) == want, "serialized", ser)
    for source in (ser, json.loads(json.dumps(ser))):
        again = gcl.MaskGroup(source)
        require(ordered(plain_tree(again.serialize())) == want, "rebuilt")
        require(again.equal_to(group, check_order=True), "not equal_to")
        require(group.equal_to(again, check_order=True), "not equal_to")


@sub("P02",
     st.tuples(st.lists(st.sampled_from("abcdefgh"), unique=True, min_size=1,
                        max_size=8),
               st.one_of(st.integers(0, 5), st.integers(0, 60)), seeds,
               st.integers(1, 3)).map(list),
     quick=200, rule="several masks", nontrivial=lambda c: len(c[0]) > 1)
def structured_masks(case):
    """A structured numpy array of masks is a group of that layout."""
    names, num, seed, step = case
    rng = np.random.default_rng(seed)
    arr = np.zeros(num * step, dtype=[(n, "<?") for n in names])
    for name in names:
        arr[name] = rng.random(num * step) < 0.5
    arr = arr[::step]
    group = gcl.MaskGroup.from_numpy_structured(arr)
    want = [(n, arr[n].tolist()) for n in names]
    require(list(group) == names == list(group.keys()), "names",
            list(group))
    for name, bits in want:
        require(isinstance(group[name], gcl.MaskArray)
                and np.array(group[name].data).tolist() == bits, "mask", name)
    require(ordered(plain_tree(group.serialize())) == want, "serialized")


@sub("P02",
     st.tuples(st.sampled_from(sorted(KINDS)), st.integers(0, 40), seeds,
               st.booleans()).map(list),
     quick=200, rule="the array is not empty", nontrivial=lambda c: c[1] > 0)
def pickled(case):
    kind, num, seed, read = case
    want = values(kind, num, seed, "any")
    obj = KINDS[kind][0](want.copy())
    if read and kind == "pmu":
        obj.pt, obj.eta, obj.mass
    for again in (pickle.loads(pickle.dumps(obj)), deepcopy(obj)):
        check_object(again, want, kind)
        if num and kind == "pmu":
            fresh = gcl.MomentumArray(want.copy())
            for name in ("pt", "eta", "phi", "mass", "rapidity"):
                require(np.array_equal(getattr(again, name),
                                       getattr(fresh, name), equal_nan=True),
                        name, "of the pickled")


@sub("P02", mask_trees(unique=False), quick=100, rule="every case")
def pickled_tree(case):
    want = ordered(tree_model(case["tree"]))
    group = to_group(case["tree"])
    for again in (pickle.loads(pickle.dumps(group)), deepcopy(group)):
        require(ordered(plain_tree(again.serialize())) == want, "pickled")
        require(again.agg_op == group.agg_op, "rule", again.agg_op)
        require(np.array_equal(again.data, group.data), "aggregate")


# ------------------------------------------------------------------- P10
RULES["P10"] = "Array kind, operand kinds, operation, contents."

NUM_KINDS = ("pmu", "color", "pdg", "helicity", "status", "edges")
BINARY = ("add", "subtract", "multiply", "maximum", "minimum", "true_divide",
          "floor_divide")


@st.composite
def ufunc_cases(draw):
    kind = draw(st.sampled_from(NUM_KINDS))
    return {
        "kind": kind,
        "num": draw(st.one_of(st.integers(1, 6), st.integers(1, 60))),
        "seed": draw(seeds),
        "ufunc": draw(st.sampled_from(BINARY)),
        "other": draw(st.sampled_from(["own", "array", "scalar", "list"])),
        "side": draw(st.sampled_from(["left", "right"])),
        "how": draw(st.sampled_from(["ufunc", "operator", "out", "inplace"])),
        "style": draw(st.sampled_from(["any", "small"])),
    }


PY_OPS = {
    "add": op.add, "subtract": op.sub, "multiply": op.mul,
    "true_divide": op.truediv, "floor_divide": op.floordiv,
}


@sub("P10", ufunc_cases(), quick=1000, rule="at least two elements",
     nontrivial=lambda c: c["num"] > 1)
def arithmetic(case):
    kind, num = case["kind"], case["num"]
    cls, cols, dtype, _ = KINDS[kind]
    name = case["ufunc"]
    if kind != "pmu" and name in ("true_divide", "floor_divide"):
        name = "multiply"
    if kind in ("status", "helicity") and name == "multiply":
        name = "subtract"
    vals = values(kind, num, case["seed"], case["style"])
    if name in ("true_divide", "floor_divide"):
        vals = np.where(vals == 0, 1.0, vals)
    if case["other"] == "own":
        other_vals = values(kind, num, case["seed"] + 5, case["style"])
        if name in ("true_divide", "floor_divide"):
            other_vals = np.where(other_vals == 0, 1.0, other_vals)
        other = cls(other_vals.copy())
    elif case["other"] == "array":
        other = other_vals = values(kind, num, case["seed"] + 5, case["style"])
        if name in ("true_divide", "floor_divide"):
            other = other_vals = np.where(other_vals == 0, 1.0, other_vals)
        if cols > 1 and case["seed"] % 3 == 0:  # one factor per row
            other = other_vals = other_vals[:, :1]
    elif case["other"] == "list":
        other_vals = np.arange(1, cols + 1) if cols > 1 else (
            np.arange(1, num + 1)
        )
        other = other_vals.tolist()
    else:
        other = other_vals = 2 if case["seed"] % 2 else (
            1.5 if kind == "pmu" else 3
        )
    ufunc = getattr(np, name)
    obj = cls(vals.copy())
    left, right = (obj, other) if case["side"] == "left" else (other, obj)
    v_left, v_right = (
        (vals, other_vals) if case["side"] == "left" else (other_vals, vals)
    )
    want = ufunc(v_left, v_right)
    how = case["how"]
    if how == "inplace" and (case["side"] != "left" or name not in PY_OPS
                             or kind == "edges"):
        how = "operator"
    if how == "operator" and name not in PY_OPS:
        how = "ufunc"
    if how == "ufunc":
        got = ufunc(left, right)
    elif how == "operator":
        if isinstance(left, list):
            got = ufunc(left, right)
        else:
            got = PY_OPS[name](left, right)
    elif how == "out":
        got = cls(np.zeros_like(vals))
        casting = {"casting": "unsafe"}
        res = ufunc(left, right, out=got, **casting)
        same_rows(res, want.astype(dtype), "result of out=")
    else:
        got = obj
        got = getattr(op, {"add": "iadd", "subtract": "isub",
                           "multiply": "imul", "true_divide": "itruediv",
                           "floor_divide": "ifloordiv"}[name])(got, right)
    require(type(got) is cls, name, how, "gave a", type(got))
    same_rows(got, want.astype(dtype), name, how, case["other"], case["side"])
    if how != "inplace":
        same_rows(obj, vals, "operand after", name)
    if case["other"] == "own":
        same_rows(other, other_vals, "other operand after", name)


def check_components(obj, vals, cls, seed):
    """Booleans for each component, and products with vectors."""
    num, cols = vals.shape
    rng = np.random.default_rng(seed)
    other = np.where(rng.random(vals.shape) < 0.5, vals, vals + 1)
    for func in (np.less, np.greater_equal, np.equal, np.not_equal):
        want = func(vals, other)
        for got in (func(obj, other), func(obj, cls(other))):
            require(type(got) is np.ndarray and np.array_equal(got, want),
                    func.__name__, "gave", got)
        got = func(other, obj)
        require(np.array_equal(got, func(other, vals)), func.__name__,
                "reflected", got)
        got = func(obj, vals[0, 0].item())
        require(np.array_equal(got, func(vals, vals[0, 0])), func.__name__,
                "with a number", got)
    for func in (np.isfinite, np.logical_not, np.signbit):
        if func is np.signbit and vals.dtype.kind != "f":
            continue
        require(np.array_equal(func(obj), func(vals)), func.__name__)
    for func in (np.all, np.any):
        want = func(vals, axis=1)
        for axis in (1, -1):
            got = func(obj, axis=axis)
            require(type(got) is gcl.MaskArray and
                    np.array_equal(got.data, want), func, "gave", got)
        require(bool(func(obj)) == bool(func(vals)), func)
    weights = rng.integers(-2, 3, size=cols).astype(vals.dtype)
    want = vals @ weights
    for vec in (weights, weights.tolist()):
        got = np.matmul(obj, vec)
        require(type(got) is np.ndarray and got.shape == (num,) and
                close(got, want, 1e-9, 1e-9), "product with a vector", got)
    weights = rng.integers(-2, 3, size=num).astype(vals.dtype)
    got = np.matmul(weights, obj)
    require(type(got) is cls and close(rows_of(got)[0], weights @ vals, 1e-9,
                                       1e-9), "weighted sum", got)
    square = rng.integers(-2, 3, size=(cols, cols)).astype(vals.dtype)
    got = np.matmul(obj, square)
    require(type(got) is cls and close(rows_of(got), vals @ square, 1e-9,
                                       1e-9), "matrix product", got)


@sub(
    "P10",
    st.tuples(
        st.sampled_from(NUM_KINDS), st.integers(1, 40), seeds,
        st.sampled_from(["any", "small"]),
    ).map(list),
    quick=500,
    rule="at least two elements",
    nontrivial=lambda c: c[1] > 1,
)
def reductions(case):
    kind, num, seed, style = case
    cls, cols, dtype, _ = KINDS[kind]
    vals = values(kind, num, seed, style)
    obj = cls(vals.copy())
    if cols > 1:
        for func in (np.sum, np.max, np.min):
            if kind == "edges" and func is not np.sum:
                continue
            got = func(obj, axis=0)
            want = func(vals, axis=0)
            require(type(got) is cls and len(got) == 1, func, "gave", got)
            require(
                close(rows_of(got)[0], want, rtol=1e-12, atol=1e-9),
                func, got, want,
            )
            # over the components, however this is spelled
            axis = (1, -1, (1,), (-1,))[seed % 4]
            keep = {"keepdims": True} if seed % 3 == 0 else {}
            flat = func(obj, axis=axis, **keep)
            want = func(vals, axis=1, **keep)
            require(type(flat) is np.ndarray and flat.shape == want.shape
                    and close(flat, want, 1e-12, 1e-9), func, axis, "gave",
                    flat, "not", want)
            flat = func(obj, axis=(None, (0, 1), (1, 0))[seed % 3])
            require(np.ndim(flat) == 0 and close(flat, func(vals), 1e-12,
                                                 1e-9), func, "gave", flat)
            flat = func(obj, axis=(None, (0, 1), (1, -2))[seed % 3],
                        keepdims=True)
            require(type(flat) is np.ndarray and flat.shape == (1, 1)
                    and close(flat[0, 0], func(vals), 1e-12, 1e-9), func,
                    "with keepdims gave", flat)
        run = np.add.accumulate(obj, axis=0)
        require(type(run) is cls, "accumulate gave", type(run))
        require(
            close(rows_of(run), np.add.accumulate(vals, axis=0), 1e-9, 1e-9),
            "accumulate",
        )
    else:
        for func in (np.sum, np.max, np.min, np.prod):
            if func is np.prod and style != "small":
                continue
            got = func(obj)
            require(np.ndim(got) == 0, func, "gave", got)
            require(got == func(vals), func, got, func(vals))
        got = np.add.reduceat(obj, [0, num // 2])
        require(
            np.array_equal(
                rows_of(got), np.add.reduceat(vals, [0, num // 2])
            ),
            "reduceat",
        )
    require(type(np.negative(obj)) is cls, "negative")
    same_rows(np.negative(obj), -vals, "negative")
    same_rows(-obj, -vals, "unary minus")
    same_rows(np.abs(obj), np.abs(vals), "abs")
    if cols > 1:
        check_components(obj, vals, cls, seed)
    low, high = np.modf(vals.astype(float))
    if kind == "pmu":
        parts = np.modf(obj)
        require(isinstance(parts, tuple) and len(parts) == 2, "modf")
        same_rows(parts[0], low, "modf fraction")
        same_rows(parts[1], high, "modf whole")
    # comparisons by ufunc give masks on flat arrays
    if cols == 1:
        other = values(kind, num, seed + 1, style)
        for name in ("less", "greater_equal", "equal", "not_equal"):
            got = getattr(np, name)(obj, other)
            require(type(got) is gcl.MaskArray, name, "gave", type(got))
            require(
                np.array_equal(got.data, getattr(np, name)(vals, other)), name
            )
        got = obj > 2
        require(np.array_equal(got.data, vals > 2), "operator >")
        got = obj <= cls(other)
        require(np.array_equal(got.data, vals <= other), "operator <=")
        # in-place at
        copy = obj.copy()
        np.add.at(copy, [0, num - 1, 0], 1)
        model = vals.copy()
        np.add.at(model, [0, num - 1, 0], 1)
        same_rows(copy, model, "add.at")
    same_rows(obj, vals, "operand after reductions")


@st.composite
def eq_cases(draw):
    kind = draw(st.sampled_from(sorted(set(KINDS) - {"mask"})))
    num = draw(st.one_of(st.integers(1, 6), st.integers(1, 80)))
    return {
        "kind": kind,
        "num": num,
        "seed": draw(seeds),
        "edits": draw(st.lists(st.tuples(st.integers(0, num - 1),
                                         st.integers(0, 3)).map(list),
                               max_size=4)),
        "other": draw(st.sampled_from(["own", "array", "element", "list"])),
        "tuple": draw(st.booleans()),
    }


@sub("P10", eq_cases(), quick=1000, rule="at least two elements",
     nontrivial=lambda c: c["num"] > 1)
def equality(case):
    kind, num = case["kind"], case["num"]
    cls, cols, dtype, names = KINDS[kind]
    vals = values(kind, num, case["seed"], "small")
    other_vals = vals.copy()
    for row, col in case["edits"]:
        if cols > 1:
            other_vals[row, col % cols] += 1
        else:
            other_vals[row] += 1
    obj = cls(vals.copy())
    how = case["other"]
    if how == "own":
        other = cls(other_vals.copy())
    elif how == "array":
        other = other_vals
        if cols > 1:
            other = np.ascontiguousarray(other_vals).view(
                np.dtype([(n, dtype) for n in names])
            ).reshape(-1)
    elif how == "element":
        row = other_vals[case["seed"] % num]
        other_vals = np.broadcast_to(row, vals.shape)
        other = row.item() if cols == 1 else tuple(row.tolist())
        if cols > 1 and case["tuple"]:
            other = list(other)
    else:
        if cols > 1:
            raise_skip()
        other = other_vals.tolist()
    equal = vals == other_vals
    if cols > 1:
        equal = equal.all(axis=1)
    got_eq, got_ne = obj == other, obj != other
    for got, want, name in ((got_eq, equal, "=="), (got_ne, ~equal, "!=")):
        require(type(got) is gcl.MaskArray, name, "gave", type(got))
        require(
            got.data.shape == (num,) and np.array_equal(got.data, want),
            name, how, "gave", got.data, "not", want,
        )
    if how == "own":
        require(np.array_equal((other == obj).data, equal), "swapped")
        require(np.array_equal((other != obj).data, ~equal), "swapped")
    require(bool(np.all((obj == obj).data)), "reflexive")
    require(not bool(np.any((obj != obj.copy()).data)), "copy differs")
    same_rows(obj, vals, "operand")


NOT_NUMBERS = {"none": None, "dict": {1: 2}, "set": {1, 2}, "object": object()}


@sub("P10",
     st.tuples(st.sampled_from(NUM_KINDS), st.integers(2, 30),
               st.integers(2, 30), st.sampled_from(sorted(NOT_NUMBERS)),
               st.integers(1, 6), seeds).map(list),
     quick=200, rule="every case")
def refusals(case):
    """Nothing is made up where operands do not fit each other."""
    kind, num, other, junk, width, seed = case
    cls, cols, dtype, names = KINDS[kind]
    vals = values(kind, num, seed, "small")
    obj = cls(vals.copy())
    bad = NOT_NUMBERS[junk]
    tries = []
    if kind != "edges":
        tries += [("add", lambda: obj + bad), ("radd", lambda: bad + obj),
                  ("less", lambda: obj < bad)]
        for strange in NUM_KINDS:
            if strange in (kind, "edges"):
                continue
            alien = KINDS[strange][0](values(strange, num, seed, "small"))
            tries += [
                ("add " + strange, lambda alien=alien: obj + alien),
                ("multiply " + strange, lambda alien=alien: alien * obj),
                ("less " + strange, lambda alien=alien: np.less(obj, alien))]
        tries.append(("add mask", lambda: np.add(
            obj, gcl.MaskArray(np.ones(num, bool)))))
    if other != num:
        wrong = values(kind, other, seed, "small")
        tries += [("==", lambda: obj == cls(wrong)),
                  ("!=", lambda: obj != cls(wrong))]
        if kind != "edges":
            tries += [("add", lambda: obj + cls(wrong)),
                      ("multiply", lambda: wrong * obj)]
    if cols > 1 and width != cols:
        tries += [("==", lambda: obj == tuple(range(width))),
                  ("!=", lambda: obj != list(range(width)))]
    if cols > 1:
        tries += [("== number", lambda: obj == 1),
                  ("!= number", lambda: obj != 1)]
    for name, func in tries:
        try:
            got = func()
        except Exception:
            continue
        raise Violation(f"{name} of {kind} ({num} elements) with operands "
                        f"which do not fit ({other}, {junk}, {width}) gave "
                        f"{got!r}")
    same_rows(obj, vals, "operand after refusals")


# ------------------------------------------------------------------- P39
RULES["P39"] = "Histories of reads, assignments, copies and transforms."

PMU_PROPS = ("x", "y", "z", "energy", "pt", "eta", "rapidity", "phi", "theta",
             "mass", "mass_t")
PDG_PROPS = ("name", "charge", "mass", "width", "isospin", "g_parity",
             "space_parity", "charge_parity", "quarks", "latex")


@st.composite
def histories(draw):
    kind = draw(st.sampled_from(["pmu", "pmu", "pmu", "pdg", "color",
                                 "status"]))
    ops = []
    for _ in range(draw(st.integers(2, 12))):
        what = draw(
            st.sampled_from(["read", "read", "read", "assign", "assign",
                             "copy", "subset", "shift", "swap", "inplace",
                             "readall"])
        )
        ops.append([what, draw(st.integers(0, 12)), draw(seeds)])
    return {"kind": kind, "num": draw(st.integers(1, 12)), "seed": draw(seeds),
            "ops": ops}


def derived(obj, kind):
    if kind == "pmu":
        return PMU_PROPS
    if kind == "pdg":
        return PDG_PROPS
    if kind == "color":
        return ("color", "anticolor")
    return ()


def same_values(one, two):
    one, two = np.asarray(one), np.asarray(two)
    if one.shape != two.shape:
        return False
    if one.dtype.kind == "f":
        return bool(np.all((one == two) | ((one != one) & (two != two))))
    return bool(np.all(one == two))


def fresh(obj, kind):
    """A new object with the contents the given one has now."""
    return type(obj)(np.array(rows_of(obj), copy=True))


def check_fresh(obj, kind, which=None):
    new = fresh(obj, kind)
    for name in which or derived(obj, kind):
        got, want = getattr(obj, name), getattr(new, name)
        require(
            same_values(got, want), name, "is", got, "but a new array gives",
            want,
        )
    if kind == "status":
        same_rows(obj.in_range(5, 30), new.in_range(5, 30).data, "in_range")
        for key, mask in obj.hard_mask.items():
            same_rows(mask, new.hard_mask[key].data, key)


@sub(
    "P39",
    histories(),
    quick=600,
    rule="something is read before data is assigned",
    nontrivial=lambda c: any(
        o[0] in ("assign", "inplace", "swap")
        and any(p[0].startswith("read") for p in c["ops"][:i])
        for i, o in enumerate(c["ops"])
    ),
)
def freshness(case):
    kind = case["kind"]
    obj = KINDS[kind][0](values(kind, case["num"], case["seed"]))
    old = []
    expected = rows_of(obj).copy()
    for what, num, seed in case["ops"]:
        props = derived(obj, kind)
        if what == "read" and props:
            check_fresh(obj, kind, [props[num % len(props)]])
        elif what == "readall" or what == "read":
            check_fresh(obj, kind)
        elif what == "assign":
            vals = values(kind, num, seed)
            if kind == "pmu" and seed % 2:
                vals = np.ascontiguousarray(vals).view(
                    np.dtype([(n, "<f8") for n in "xyze"])
                ).reshape(-1)
                obj.data = vals.copy()
            else:
                obj.data = vals.tolist() if seed % 3 == 0 else vals.copy()
            expected = np.array(unstruct(vals)).reshape(rows_of(obj).shape)
        elif what == "swap":  # same length, other values
            vals = values(kind, len(obj), seed)
            obj.data = vals.copy()
            expected = vals
        elif what == "inplace" and kind == "pmu" and seed % 2 and len(obj):
            obj *= 2.0  # gives a new wrapper
            expected = expected * 2.0
        elif what == "copy":
            old.append((obj, expected.copy()))
            obj = obj.copy()
        elif what == "subset" and len(obj):
            mask = np.random.default_rng(seed).random(len(obj)) < 0.7
            old.append((obj, expected.copy()))
            obj = obj[mask] if seed % 2 else obj[gcl.MaskArray(mask)]
            expected = expected[mask]
        elif what == "shift" and kind == "pmu":
            old.append((obj, expected.copy()))
            if seed % 2:
                obj = obj.shift_phi(0.5)
            else:
                obj = obj.shift_rapidity(0.5)
            expected = rows_of(obj).copy()
        same_rows(obj, expected, "contents after", what)
        if kind != "pdg":
            check_fresh(obj, kind)
    check_fresh(obj, kind)
    for item, rows in old:
        same_rows(item, rows, "earlier object")
        check_fresh(item, kind)
