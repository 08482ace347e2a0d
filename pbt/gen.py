"""Strategies: every case is plain data, expanded to numpy by the checks."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2**32 - 1)

STYLES = (
    "phys",
    "massless",
    "grid",
    "wild",
    "dup",
    "forward",
    "back",
    "soft",
    "collimated",
)


# powers of two, so that they change no significant digit
UNITS = (1.0,) * 6 + (2.0**-14, 2.0**-10, 2.0**10, 2.0**17)


def make_momenta(style: str, num: int, seed: int) -> np.ndarray:
    """Columns x, y, z, e."""
    rng = np.random.default_rng(seed)
    if style == "grid":  # many zeros, ties, and particles at rest
        xyz = rng.integers(-3, 4, size=(num, 3)).astype(float)
        mass = rng.integers(0, 3, size=num).astype(float)
    elif style == "wild":
        mag = 10.0 ** rng.uniform(-5, 5, size=(num, 3))
        xyz = mag * rng.choice([-1.0, 1.0], size=(num, 3))
        mass = 10.0 ** rng.uniform(-3, 3, size=num)
    else:
        pt = rng.exponential(20.0, size=num) + 0.1
        eta = rng.normal(0.0, 1.7, size=num)
        phi = rng.uniform(-np.pi, np.pi, size=num)
        mass = rng.choice([0.0, 0.14, 0.49, 0.94, 4.7, 80.0], size=num)
        if style == "massless":
            mass = np.zeros(num)
        if style == "forward":
            eta = rng.uniform(3.0, 7.0, size=num) * rng.choice([-1, 1], num)
        if style == "back":  # negative z, and around phi = pi
            eta = -np.abs(eta) - 0.1
            phi = np.pi + rng.normal(0.0, 0.3, size=num)
        if style == "soft":
            pt = 10.0 ** rng.uniform(-6, -1, size=num)
        if style == "collimated":
            eta = rng.uniform(-2, 2) + rng.normal(0, 0.2, size=num)
            phi = rng.uniform(-4, 4) + rng.normal(0, 0.2, size=num)
        xyz = np.stack(
            [pt * np.cos(phi), pt * np.sin(phi), pt * np.sinh(eta)], axis=1
        )
    if style == "dup" and num > 1:
        src = rng.integers(0, num, size=num)
        xyz, mass = xyz[src], mass[src]
    energy = np.sqrt((xyz**2).sum(axis=1) + mass**2)
    return np.concatenate([xyz, energy[:, None]], axis=1)


def expand(case: dict) -> np.ndarray:
    """The (n, 4) array of a momentum case."""
    if "rows" in case:
        return np.array(case["rows"], dtype=np.float64).reshape(-1, 4)
    return make_momenta(*case["gen"]) * case.get("unit", 1.0)


def physical_row(coord):
    def on_shell(item):
        x, y, z, mass = item
        return [x, y, z, float(np.sqrt(x * x + y * y + z * z + mass * mass))]

    return st.tuples(coord, coord, coord, st.sampled_from([0.0, 0.5, 2.0, 30.0])).map(
        on_shell
    )


_coarse = st.integers(-40, 40).map(lambda v: v / 4)
_fine = st.floats(-200.0, 200.0, allow_nan=False, width=32).map(
    lambda v: v if abs(v) > 1e-3 else 0.0
)


def momenta(min_n: int = 0, max_n: int = 40, styles=STYLES, rows_max: int = 6):
    """Physical momenta: E >= |p|."""
    options = []
    if min_n <= rows_max:
        hi = min(rows_max, max_n)
        options.append(
            st.one_of(
                st.lists(physical_row(_coarse), min_size=min_n, max_size=hi),
                st.lists(physical_row(_fine), min_size=min_n, max_size=hi),
            ).map(lambda rows: {"rows": rows})
        )
    middle = min_n + (max_n - min_n) // 4
    for low, high in ((min_n, max_n), (middle, max_n), (middle, max_n)):
        options.append(
            st.tuples(
                st.sampled_from(styles), st.integers(low, high), seeds,
                st.sampled_from(UNITS),
            ).map(lambda item: {"gen": list(item[:3]), "unit": item[3]})
        )
    return st.one_of(options)


def size_of(case: dict) -> int:
    return len(case["rows"]) if "rows" in case else case["gen"][1]


def close(got, want, rtol=1e-9, atol=1e-9) -> bool:
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    return bool(np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=True))


def angle_close(got, want, atol=1e-9) -> bool:
    """Compare angles modulo 2 pi."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    diff = np.angle(np.exp(1j * (got - want)))
    return bool(np.all(np.abs(diff) <= atol))


def bools(num: int):
    return st.lists(st.booleans(), min_size=num, max_size=num)
