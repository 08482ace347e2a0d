"""P41: answers depend on the arguments only, whatever goes on around."""
from __future__ import annotations

import json
import os
import random
import subprocess
import sys
import tempfile
import threading
import warnings

import numba as nb
import numpy as np
from hypothesis import strategies as st

import graphicle as gcl

from ..core import RULES, Skip, Violation, require, sub
from ..events import events
from ..gen import make_momenta, seeds
from .jets import Quiet
from .purity import (_EVENT, QUERIES, alike, ask, freeze, run_query, warm,
                     world_of)

RULES["P41"] = "A world, queries, and what is different around them."

NAMES = sorted(QUERIES)
SHOWN = {"display"}  # looks as numpy is told to show arrays


def settings():
    """Global state which calls have no business to change."""
    return {
        "numpy error handling": np.geterr(),
        "numpy print options": repr(np.get_printoptions()),
        "numpy random state": repr(np.random.get_state()),
        "python random state": hash(random.getstate()),
        "numba threads": nb.get_num_threads(),
        "warnings filters": len(warnings.filters),
        "first filter": repr(warnings.filters[:3]),
        "working directory": os.getcwd(),
        "environment": hash(tuple(sorted(os.environ.items()))),
        "recursion limit": sys.getrecursionlimit(),
    }


class Around:
    """Another state of the process, which is put back afterwards."""

    def __init__(self, how, seed):
        self.how, self.rng = how, np.random.default_rng(seed)

    def __enter__(self):
        self.errors = np.geterr()
        self.random = random.getstate(), np.random.get_state()
        self.threads = nb.get_num_threads()
        self.printing = np.get_printoptions()
        self.called = np.geterrcall()
        self.catch = warnings.catch_warnings()
        self.catch.__enter__()
        rng = self.rng
        for how in self.how:
            if how == "ignore":
                np.seterr(all="ignore")
            elif how == "call":
                np.seterrcall(lambda *_: None)
                np.seterr(all="call")
            elif how == "printing":
                np.set_printoptions(threshold=7, edgeitems=1, precision=3,
                                    suppress=True, linewidth=40)
            elif how == "warn":
                np.seterr(all="warn")
                warnings.simplefilter("ignore")
            elif how == "always":
                warnings.resetwarnings()
                warnings.simplefilter("ignore", append=True)
            elif how == "random":
                np.random.seed(int(rng.integers(1 << 31)))
                random.seed(int(rng.integers(1 << 31)))
            elif how == "threads":
                nb.set_num_threads(int(rng.integers(1, 5)))
            elif how == "calls":  # something else was calculated before
                other = gcl.MomentumArray(make_momenta(
                    "phys", int(rng.integers(1, 40)), int(rng.integers(1000))))
                freeze(other, True)
                gcl.calculate.thrust(other, rng_seed=1)
                gcl.matrix.delta_R_aff(other)
                gcl.calculate.cluster_coeff_distbn(other, 0.7)
                gcl.PdgArray([11, 22, 211]).name
        return self

    def __exit__(self, *_):
        np.seterr(**self.errors)
        np.seterrcall(self.called)
        np.set_printoptions(**self.printing)
        random.setstate(self.random[0])
        np.random.set_state(self.random[1])
        nb.set_num_threads(self.threads)
        self.catch.__exit__(None, None, None)


STATES = ("ignore", "warn", "call", "printing", "always", "random", "threads", "calls")


@st.composite
def around_cases(draw):
    return {
        "event": draw(events()),
        "seed": draw(seeds),
        "how": draw(st.lists(st.sampled_from(STATES), min_size=1, max_size=3,
                             unique=True)),
        "queries": draw(st.lists(st.sampled_from(NAMES), min_size=4,
                                 max_size=10)),
    }


def run_around(case):
    done = False
    with Quiet():
        for name in case["queries"]:
            want = ask(name, world_of(case))
            world = world_of(case)
            with Around(case["how"], case["seed"]):
                before = settings()
                got = ask(name, world)
                after = settings()
            if "printing" not in case["how"] or name not in SHOWN:
                require(alike(got, want), name, "gives", got, "instead of",
                        want, "when", case["how"])
            for key, val in before.items():
                require(after[key] == val, name, "changed the", key, val,
                        "to", after[key])
            done = done or got[0] != "refused"
    return done


@sub("P41", around_cases(), quick=30, thorough=3000,
     rule="some query gave an answer")
def settings_around(case):
    return run_around(case)


@sub("P41", enum=lambda tier, seed: (
    {"event": dict(_EVENT, seed=seed * 100 + num), "seed": seed + num,
     "how": [how], "queries": NAMES}
    for num in range(1 if tier == "quick" else 25) for how in STATES),
    rule="some query gave an answer")
def each_setting(case):
    return run_around(case)


# -------------------------------------------------------- light-like sums
@sub("P41", st.fixed_dictionaries({
    "num": st.integers(1, 6), "seed": seeds,
    "how": st.lists(st.sampled_from(STATES), min_size=1, max_size=3,
                    unique=True),
    "off": st.sampled_from([0.0, 0.5, -0.5])}),
    quick=150, rule="every case")
def odd_values_around(case):
    """Undefined values come out the same, whether numpy warns or not."""
    rng = np.random.default_rng(case["seed"])
    arr = rng.integers(-3, 4, size=(case["num"], 4)).astype(float)
    arr[:, 3] = np.sqrt((arr[:, :3] ** 2).sum(axis=1)) * (1 - case["off"])
    if case["seed"] % 4 == 0:
        arr[0] = 0.0

    def questions():
        pmu = gcl.MomentumArray(arr.copy())
        for attr in ("pt", "eta", "rapidity", "phi", "theta", "mass",
                     "mass_t", "energy"):
            yield attr, lambda: getattr(pmu, attr)
        yield "combined_mass", lambda: gcl.calculate.combined_mass(pmu)
        yield "weighted mass", lambda: gcl.calculate.combined_mass(
            pmu, np.linspace(-1, 2, len(arr))[:, None])
        yield "c_parameter", lambda: gcl.calculate.c_parameter(pmu)
        yield "delta_R", lambda: pmu.delta_R(pmu)
        yield "sum", lambda: np.add.reduce(pmu)

    def answers():
        out = []
        for name, func in questions():
            try:
                out.append((name, freeze(func())))
            except (ValueError, ZeroDivisionError) as err:
                out.append((name, type(err).__name__))
        return out

    want = answers()
    with Around(case["how"], case["seed"]):
        before = settings()
        got = answers()
        after = settings()
    for one, two in zip(got, want):
        require(alike(one, two), one, "instead of", two, "when", case["how"])
    for key, val in before.items():
        require(after[key] == val, "changed the", key, val, "to", after[key])


# ------------------------------------------------------------- afterwards
def run_stays(case):
    """What was given is not changed by what is asked later."""
    kept = []
    with Quiet():
        world = world_of(case)
        for name in case["queries"]:
            try:
                given = run_query(name, world)
            except (ValueError, IndexError, KeyError):
                continue
            kept.append((name, given, freeze(given)))
        other = world_of({"event": case["later"], "seed": case["seed"] + 1})
        for name in case["queries"]:
            ask(name, other)
            ask(name, world)
        for name, given, before in kept:
            after = freeze(given)
            require(after == before, "what", name, "gave was", before,
                    "and has become", after)
    return bool(kept)


@sub("P41", st.fixed_dictionaries({
    "event": events(), "later": events(), "seed": seeds,
    "queries": st.lists(st.sampled_from(NAMES), min_size=4, max_size=10)}),
    quick=20, thorough=2500, rule="some query gave an answer")
def results_stay(case):
    return run_stays(case)


@sub("P41", enum=lambda tier, seed: (
    {"event": dict(_EVENT, seed=seed * 100 + num),
     # of the same size at first, as what is reused may depend on it
     "later": dict(_EVENT, seed=seed * 100 + num,
                   **({} if num % 2 else {"shuffle": False})),
     "seed": seed + num, "queries": NAMES}
    for num in range(2 if tier == "quick" else 40)),
    rule="some query gave an answer")
def each_result_stays(case):
    return run_stays(case)


# ------------------------------------------------------------ concurrently
@st.composite
def threaded_cases(draw):
    return {
        "event": draw(events()),
        "seed": draw(seeds),
        "shared": draw(st.booleans()),
        "warm": draw(st.booleans()),
        "workers": [
            draw(st.lists(st.sampled_from(NAMES), min_size=4, max_size=9))
            for _ in range(draw(st.integers(2, 4)))],
    }


def use_threads():
    """So that it is known how numba runs its threads."""
    gcl.MomentumArray([[1.0, 2.0, 3.0, 4.0]]).delta_R(
        gcl.MomentumArray([[1.0, 2.0, 3.0, 4.0]]), threads=2)


def run_threads(case):
    use_threads()
    if nb.threading_layer() == "workqueue":
        raise Skip("the threading layer of numba is not safe for threads")
    asked = sorted({n for names in case["workers"] for n in names})
    with Quiet():
        want = {name: ask(name, world_of(case)) for name in asked}
        world = world_of(case)
        if case["warm"]:
            warm(world)
        found, wrong = [], []
        start = threading.Barrier(len(case["workers"]))

        def work(names, idx):
            own = world if case["shared"] else world_of(case)
            nb.set_num_threads(1 + idx % 4)
            start.wait(60)
            for name in names:
                try:
                    found.append((name, ask(name, own)))
                except Exception as err:
                    wrong.append((name, repr(err)))
                if nb.get_num_threads() != 1 + idx % 4:
                    wrong.append((name, "changed the number of threads"))

        before = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            workers = [threading.Thread(target=work, args=(names, idx))
                       for idx, names in enumerate(case["workers"])]
            for worker in workers:
                worker.start()
            for worker in workers:
                worker.join(100)
        finally:
            sys.setswitchinterval(before)
    require(not wrong, "while other threads were asking", wrong[:2])
    require(len(found) == sum(map(len, case["workers"])), "lost answers")
    for name, got in found:
        require(alike(got, want[name]), name, "gives", got, "instead of",
                want[name], "while other threads ask", case["workers"])
    return any(got[0] != "refused" for _, got in found)


@sub("P41", threaded_cases(), quick=25, thorough=2500,
     rule="some query gave an answer")
def threads_around(case):
    return run_threads(case)


def every_pair(tier, seed):
    """All queries in two threads, and the same in the opposite order."""
    for num in range(2 if tier == "quick" else 40):
        order = NAMES[:]
        random.Random(seed * 100 + num).shuffle(order)
        yield {"event": dict(_EVENT, seed=seed * 100 + num),
               "seed": seed + num, "shared": num % 2 == 0, "warm": False,
               "workers": [order, order[::-1], order[7:] + order[:7]]}


@sub("P41", enum=every_pair, rule="some query gave an answer")
def each_in_threads(case):
    return run_threads(case)


def different_worlds(tier, seed):
    for num in range(1 if tier == "quick" else 12):
        for name in NAMES:
            yield {"query": name, "repeats": 5, "seed": seed + num, "events": [
                dict(_EVENT, seed=seed * 100 + num),
                dict(_EVENT, seed=seed * 100 + num + 1, hard=[
                    [6, [[5, []], [24, [[2, []], [-1, []]]]]],
                    [-6, [[-5, []], [-24, [[1, []], [-2, []]]]]]]),
                dict(_EVENT, seed=seed * 100 + num, shuffle=False)]}


@sub("P41", enum=different_worlds, rule="the query gave an answer")
def same_in_threads(case):
    """The same question about different things, at the same time."""
    use_threads()
    if nb.threading_layer() == "workqueue":
        raise Skip("the threading layer of numba is not safe for threads")
    name = case["query"]
    with Quiet():
        worlds, want = [], []
        for num, item in enumerate(case["events"]):
            part = {"event": item, "seed": case["seed"] + num}
            want.append(ask(name, world_of(part)))
            worlds.append(part)
        wrong, given = [], []
        start = threading.Barrier(len(worlds))

        def work(idx):
            mine = [world_of(worlds[idx]) for _ in range(case["repeats"])]
            start.wait(60)
            for world in mine:
                try:
                    got = ask(name, world)
                    given.append(got[0] != "refused")
                    if not alike(got, want[idx]):
                        wrong.append((worlds[idx], got, want[idx]))
                except Exception as err:
                    wrong.append((worlds[idx], repr(err)))

        interval = sys.getswitchinterval()
        sys.setswitchinterval(2e-6)
        try:
            workers = [threading.Thread(target=work, args=(idx,))
                       for idx in range(len(worlds))]
            for worker in workers:
                worker.start()
            for worker in workers:
                worker.join(100)
        finally:
            sys.setswitchinterval(interval)
    require(not wrong, name, "in several threads", wrong[:1])
    require(len(given) == case["repeats"] * len(worlds), "lost answers")
    return any(given)


CALLS = {
    "eta": lambda pmu, seed: pmu.eta,
    "rapidity": lambda pmu, seed: pmu.rapidity,
    "phi": lambda pmu, seed: pmu.phi,
    "theta": lambda pmu, seed: pmu.theta,
    "mass": lambda pmu, seed: pmu.mass,
    "mass_t": lambda pmu, seed: pmu.mass_t,
    "arithmetic": lambda pmu, seed: np.add(pmu, pmu) / 2.0,
    "combined_mass": lambda pmu, seed: gcl.calculate.combined_mass(pmu),
    "weighted_centroid": lambda pmu, seed: gcl.calculate.weighted_centroid(
        pmu[:9]),
    "resultant": lambda pmu, seed: gcl.calculate.resultant_coords(pmu),
    "shift_rapidity": lambda pmu, seed: pmu.shift_rapidity(0.5),
    "shift_eta": lambda pmu, seed: pmu.shift_eta(0.5),
    "experimental": lambda pmu, seed: pmu.shift_eta(0.5, experimental=True),
    "too_few": lambda pmu, seed: pmu.shift_eta(9.0, max_corrections=1),
    "codes": lambda pmu, seed: (lambda pdg: (
        pdg.name, pdg.mass, pdg.charge, pdg.mask([11]), repr(pdg)))(
        gcl.PdgArray(np.resize([11, -211, 22, 2212], len(pmu)))),
    "masks": lambda pmu, seed: (lambda mask: (
        mask & ~mask, mask | mask.data, mask == mask, repr(mask)))(
        gcl.MaskArray(pmu.z > 0.0)),
    "adjacency": lambda pmu, seed: (lambda adj: (
        adj.matrix, adj.nodes, adj.roots, adj.leaves, repr(adj)))(
        gcl.AdjacencyList(np.arange(2 * min(len(pmu), 300)).reshape(-1, 2))),
    "matrix": lambda pmu, seed: gcl.matrix.cut_adj(
        gcl.matrix.delta_R_aff(pmu[:50]), 0.5, weighted=True),
    "shift_phi": lambda pmu, seed: pmu.shift_phi(0.5),
    "delta_R": lambda pmu, seed: pmu[:300].delta_R(pmu[:200], threads=2),
    "delta_R_aff": lambda pmu, seed: gcl.matrix.delta_R_aff(pmu[:300]),
    "cluster_coeff": lambda pmu, seed: gcl.calculate.cluster_coeff_distbn(
        pmu[:200], 0.8),
    "thrust": lambda pmu, seed: gcl.calculate.thrust(pmu[:200], rng_seed=seed),
    "spherocity": lambda pmu, seed: gcl.calculate.spherocity(
        pmu[:200], rng_seed=seed),
    "c_parameter": lambda pmu, seed: gcl.calculate.c_parameter(pmu[:200]),
    "prune": lambda pmu, seed: gcl.select.centroid_prune(pmu, 1.0),
    "closest": lambda pmu, seed: len(pmu) < 100 or gcl.select.arg_closest(
        pmu[1:21], pmu[21:81]),
    "from_spherical_uniform":
        lambda pmu, seed: gcl.MomentumArray.from_spherical_uniform(
            len(pmu), 10.0, 0.2, seed),
    "split": lambda pmu, seed: gcl.transform.split_momentum(
        pmu[:1], 0.3, 0.2, (0.4, 0.5)),
    "repr": lambda pmu, seed: repr(pmu),
}
LIBRARIES = {"codes"}  # the table of particles alters warnings filters itself
RETOLD = {"repr", "codes", "masks", "adjacency"}  # shown as numpy is told to


@sub("P41", enum=lambda tier, seed: (
    {"call": name, "how": [how], "style": style, "num": num,
     "seed": seed + num}
    for num in (1, 300) for name in CALLS for how in STATES
    for style in ("phys", "forward")), rule="every case")
def each_call_around(case):
    rows = make_momenta(case["style"], case["num"], case["seed"])
    rows[0] = (0.0, 0.0, 1.0, 1.0)

    def made():
        given = CALLS[case["call"]](gcl.MomentumArray(rows.copy()),
                                    case["seed"])
        return freeze(given) if case["call"] not in RETOLD else given

    with Quiet():
        want = made()
    with Around(case["how"], case["seed"]):
        warnings.filterwarnings(
            "ignore", category=gcl.base.NumericalStabilityWarning)
        before = settings()
        got = made()
        after = settings()
    if case["call"] not in RETOLD:
        require(alike(got, want), case["call"], "gives", got, "instead of",
                want, "when", case["how"])
    for key, val in before.items():
        require(after[key] == val, case["call"], "changed the", key, val,
                "to", after[key])


@sub("P41", enum=lambda tier, seed: (
    {"call": name, "style": style, "num": num, "seed": seed + num,
     "repeats": 15 if tier == "quick" else 60}
    for num in (1, 20000) for name in CALLS if name not in LIBRARIES
    for style in (("phys", "forward") if tier == "thorough" or num > 1
                  else ("phys",))),
    rule="every case")
def settings_elsewhere(case):
    """A thread looks on at what is common to all threads, while another
    makes a call."""
    rows = make_momenta(case["style"], case["num"], case["seed"])
    rows[0] = (0.0, 0.0, 1.0, 1.0)
    rows[-1] = (3.0, 0.0, 0.0, 3.0)
    seen, done = [], threading.Event()

    def look():
        state = np.random.get_state()
        return {
            "warnings filters": list(warnings.filters),
            "way of showing warnings": warnings.showwarning,
            "random state": (state[2], int(state[1][:8].sum()), state[3]),
            "state of random": random.getstate()[1][-1],
            "environment": len(os.environ),
            "recursion limit": sys.getrecursionlimit(),
            "print options": np.get_printoptions()["threshold"],
        }

    errors = []

    def work():
        try:
            for _ in range(case["repeats"]):
                CALLS[case["call"]](gcl.MomentumArray(rows.copy()),
                                    case["seed"])
        except Exception as err:
            errors.append(repr(err))
        finally:
            done.set()

    interval = sys.getswitchinterval()
    with Quiet():
        before = look()
        sys.setswitchinterval(1e-6)
        try:
            worker = threading.Thread(target=work)
            worker.start()
            while not done.is_set() and not seen:
                now = look()
                seen += [key for key in now if now[key] != before[key]]
            worker.join(100)
        finally:
            sys.setswitchinterval(interval)
        now = look()
        seen += [key for key in now if now[key] != before[key]]
    require(not errors, case["call"], "raised", errors)
    require(not seen, "while", case["call"], "was called in another thread, "
            "the", seen, "changed")


# --------------------------------------------------------- other processes
def answers_of(cases):
    """What another process is to find out."""
    out = []
    with Quiet():
        for case in cases:
            world = world_of(case)
            out.append([[name, repr(ask(name, world))] for name in NAMES])
    return out


def answers_at_once(cases):
    """The same by several threads, none of which has asked before."""
    out = [None] * len(cases)
    start = threading.Barrier(len(cases))

    def work(idx):
        start.wait(60)
        order = NAMES[idx % 2::2] + NAMES[1 - idx % 2::2]
        got = {}
        for name in order:
            got[name] = repr(ask(name, world_of(cases[idx])))
        out[idx] = [[name, got[name]] for name in NAMES]

    sys.setswitchinterval(1e-5)
    with Quiet():
        workers = [threading.Thread(target=work, args=(idx,))
                   for idx in range(len(cases))]
        for worker in workers:
            worker.start()
        for worker in workers:
            worker.join()
    return out


PROGRAM = """
import json, sys
from pbt.props import surroundings
import warnings
warnings.simplefilter("ignore")
answers = getattr(surroundings, sys.argv[3])
json.dump(answers(json.load(open(sys.argv[1]))), open(sys.argv[2], "w"))
"""


def processes(tier, seed):
    for num in range(1 if tier == "quick" else 8):
        yield {"cases": [
            {"event": dict(_EVENT, seed=seed * 100 + num * 20 + i,
                           hard=hard), "seed": seed + i}
            for i, hard in enumerate((
                _EVENT["hard"],
                [[6, [[5, []], [24, [[2, []], [-1, []]]]]],
                 [-6, [[-5, []], [-24, [[1, []], [-2, []]]]]], [21, []]],
                [[21, []], [21, []], [1, []], [-1, []], [21, []]],
                [[25, [[5, []], [-5, []]]], [23, [[11, []], [-11, []]]]],
            ))], "hashes": [seed % 1000 + 1 + num, 4242, seed % 100 + 77,
                         num + 5]}


@sub("P41", enum=processes, rule="every case")
def other_processes(case):
    """Another process, where strings have other hashes, says the same."""
    want = answers_of(case["cases"])
    use_threads()
    with tempfile.TemporaryDirectory() as folder:
        given = os.path.join(folder, "cases.json")
        with open(given, "w") as file:
            json.dump(case["cases"], file)
        running = []
        how = ["answers_of"] * len(case["hashes"])
        if nb.threading_layer() != "workqueue":
            how[-1] = "answers_at_once"
        for num, func in zip(case["hashes"], how):
            out = os.path.join(folder, f"{num}.json")
            env = dict(os.environ, PYTHONHASHSEED=str(num))
            running.append((num, out, subprocess.Popen(
                [sys.executable, "-c", PROGRAM, given, out, func], env=env,
                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        for num, out, proc in running:
            try:
                _, err = proc.communicate(timeout=100)
            except subprocess.TimeoutExpired:
                proc.kill()
                raise Skip("too slow") from None
            if proc.returncode != 0:
                raise Violation("no answers from a process with hash seed",
                                num, err.decode()[-300:])
            with open(out) as file:
                got = json.load(file)
            for one, two, item in zip(got, want, case["cases"]):
                for (name, ans), (_, exp) in zip(one, two):
                    if ans != exp and not alike(eval_of(ans), eval_of(exp)):
                        raise Violation(
                            name, "gives", ans[:300], "instead of", exp[:300],
                            "with hash seed", num, "for", str(item))


def eval_of(text):
    """Answers are nested tuples of plain data."""
    import ast

    try:
        return ast.literal_eval(text)
    except ValueError:
        return text
