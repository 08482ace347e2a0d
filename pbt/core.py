"""Runner: sub-checks, generation, shrinking, replay files and evidence.

A property is decided by several sub-checks.  Each one has a hypothesis
strategy (or an explicit enumeration) which makes JSON-able cases, and a plain
function which judges a case and raises on a violation.  Since the cases are
plain data, the shrunk case is the replay file.
"""
from __future__ import annotations

import hashlib
import json
import os
import pathlib
import random
import signal
import sys
import time
import traceback
import typing as ty
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("GRAPHICLE_REPO", "/repo")
OUT = pathlib.Path(os.environ.get("PBT_OUT", VERIF))  # evidence and replays


class Violation(AssertionError):
    """The code under test broke the property."""


class Skip(Exception):
    """The case is outside the domain of the property."""


def require(cond: ty.Any, *msg: ty.Any) -> None:
    if not bool(cond):
        raise Violation(" ".join(_show(m) for m in msg) or "condition failed")


def _show(item: ty.Any) -> str:
    text = item if isinstance(item, str) else repr(item)
    return text if len(text) < 1500 else text[:1500] + "..."


class Sub(ty.NamedTuple):
    name: str
    prop: ty.Callable[[ty.Any], ty.Any]
    strategy: ty.Any
    quick: int
    thorough: int
    nontrivial: ty.Callable[[ty.Any], bool]
    rule: str
    examples: ty.Sequence[ty.Any]
    enum: ty.Optional[ty.Callable[[str, int], ty.Iterable[ty.Any]]]


REGISTRY: ty.Dict[str, ty.List[Sub]] = {}
RULES: ty.Dict[str, str] = {}
# how many times the base number of cases is drawn in the quick tier
QUICK_SCALE = {"P07": 1, "P14": 1, "P39": 1, "P20": 2, "P29": 2}


def sub(
    pid: str,
    strategy: ty.Any = None,
    quick: int = 100,
    thorough: ty.Optional[int] = None,
    nontrivial: ty.Optional[ty.Callable[[ty.Any], bool]] = None,
    rule: str = "every generated case",
    examples: ty.Sequence[ty.Any] = (),
    enum: ty.Optional[ty.Callable[[str, int], ty.Iterable[ty.Any]]] = None,
):
    """Register a sub-check of property ``pid``.

    The judged function may return ``False`` to say that the case turned out
    to be trivial (it is then not counted as non-trivial).
    """

    def deco(func):
        REGISTRY.setdefault(pid, []).append(
            Sub(
                func.__name__,
                func,
                strategy,
                quick,
                thorough if thorough is not None else quick * 25,
                nontrivial or (lambda case: True),
                rule,
                examples,
                enum,
            )
        )
        return func

    return deco


class _Timeout(BaseException):
    pass


class Runner:
    def __init__(self, pid: str, tier: str, seed: int) -> None:
        self.pid, self.tier, self.seed = pid, tier, seed
        self.start = time.monotonic()
        default = 240.0 if tier == "quick" else 780.0
        self.budget = float(os.environ.get("PBT_BUDGET", default))
        self.evaluations = 0
        self.distinct: ty.Set[bytes] = set()
        self.samples: ty.List[ty.Any] = []
        self.per_sub: ty.Dict[str, ty.Dict[str, ty.Any]] = {}
        self.skipped = 0

    def judge(self, subc: Sub, case: ty.Any, count: bool = True) -> None:
        """Run one case, and raise if it is a violation."""
        stats = self.per_sub.setdefault(
            subc.name,
            {"evaluations": 0, "nontrivial": 0, "rule": subc.rule},
        )
        if count:
            self.evaluations += 1
            stats["evaluations"] += 1
        signal.alarm(120)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                verdict = subc.prop(case)
        except Skip:
            self.skipped += 1
            return
        finally:
            signal.alarm(0)
        if not count or verdict is False or not subc.nontrivial(case):
            return
        text = json.dumps(case, sort_keys=True, default=str)
        digest = hashlib.blake2b(
            (subc.name + text).encode(), digest_size=12
        ).digest()
        if digest in self.distinct:
            return
        self.distinct.add(digest)
        stats["nontrivial"] += 1
        if stats["nontrivial"] in (1, 7):
            self.samples.append(
                {
                    "check": subc.name,
                    "case": case if len(text) < 1500 else text[:1500] + "...",
                }
            )

    # -- one sub-check -----------------------------------------------------
    def run_sub(self, subc: Sub) -> ty.Optional[ty.Tuple[ty.Any, str]]:
        """Returns the (shrunk) failing case and the reason, if any."""
        last: ty.Dict[str, ty.Any] = {}

        def attempt(case: ty.Any) -> None:
            try:
                self.judge(subc, case)
            except (Exception, _Timeout) as err:
                last["case"] = json.loads(json.dumps(case))
                last["why"] = describe(err)
                if isinstance(err, _Timeout):
                    raise Violation("no answer within 120 s") from None
                raise

        cases: ty.List[ty.Any] = list(subc.examples)
        try:
            for case in cases:
                attempt(case)
            if subc.enum is not None:
                for case in subc.enum(self.tier, self.seed):
                    if self.out_of_time():
                        self.per_sub[subc.name]["cut_short"] = True
                        break
                    attempt(case)
        except Exception:
            return last["case"], last["why"]
        if subc.strategy is None:
            return None
        return self._hypothesis(subc, attempt, last)

    def _hypothesis(self, subc: Sub, attempt, last):
        """Independent random draws from the strategy, then hypothesis' own
        search (which favours small and repetitive cases)."""
        num = subc.quick if self.tier == "quick" else subc.thorough
        if self.tier == "quick":
            num *= QUICK_SCALE.get(self.pid, 3)
        scale = float(os.environ.get("PBT_SCALE", "1"))
        num = max(1, int(num * scale))
        salt = int.from_bytes(
            hashlib.blake2b(
                f"{self.pid}/{subc.name}".encode(), digest_size=4
            ).digest(),
            "big",
        )
        seed = self.seed * 1_000_003 + salt
        found = self._independent(subc, attempt, last, num, seed)
        if found is None:
            found = self._search(subc, attempt, last, max(1, num // 3), seed)
        return found

    def _independent(self, subc: Sub, attempt, last, num, seed):
        from hypothesis.control import BuildContext
        from hypothesis.errors import HypothesisException
        from hypothesis.internal.conjecture.data import ConjectureData, StopTest

        for idx in range(num):
            if self.out_of_time():
                self.per_sub.setdefault(subc.name, {})["cut_short"] = num - idx
                return None
            data = ConjectureData(random=random.Random(f"{seed}/{idx}"))
            try:
                with BuildContext(
                    data, is_final=False, wrapped_test=lambda: None
                ):
                    case = data.draw(subc.strategy)
            except (StopTest, HypothesisException):  # too large, or filtered
                continue
            data.freeze()
            try:
                attempt(case)
            except Exception:
                self._shrink(subc, attempt, last, data.choices)
                return last["case"], last["why"]
        return None

    def _shrink(self, subc: Sub, attempt, last, choices) -> None:
        """Leaves the smallest failing case found in ``last``."""
        import hypothesis as hyp
        from hypothesis.control import BuildContext
        from hypothesis.internal.conjecture.data import ConjectureData
        from hypothesis.internal.conjecture.engine import ConjectureRunner

        first = dict(last)
        deadline = time.monotonic() + 60.0

        def draw(data):
            with BuildContext(data, is_final=False, wrapped_test=lambda: None):
                return data.draw(subc.strategy)

        def test(data):
            case = draw(data)
            if time.monotonic() > deadline:
                return
            try:
                attempt(case)
            except Exception:
                data.mark_interesting(Violation)

        try:
            runner = ConjectureRunner(
                test,
                settings=hyp.settings(
                    database=None,
                    deadline=None,
                    max_examples=100,
                    suppress_health_check=list(hyp.HealthCheck),
                    phases=(hyp.Phase.shrink,),
                ),
                random=random.Random(0),
            )
            runner.cached_test_function(choices)
            runner.shrink_interesting_test_cases()
            best = list(runner.interesting_test_cases.values())[0]
            deadline = float("inf")
            attempt(draw(ConjectureData.for_choices(best.choices)))
        except Violation:
            return
        except Exception:
            if last.get("case") is None:
                last.update(first)
            return
        last.clear()
        last.update(first)

    def _search(self, subc: Sub, attempt, last, num, seed):
        import hypothesis as hyp

        runner = self
        cut = {"n": 0, "failed_at": None}

        @hyp.seed(seed)
        @hyp.settings(
            max_examples=num,
            database=None,
            deadline=None,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(hyp.HealthCheck),
            phases=(hyp.Phase.generate, hyp.Phase.shrink),
        )
        @hyp.given(case=subc.strategy)
        def search(case):
            now = time.monotonic()
            if cut["failed_at"] is None:
                if runner.out_of_time():
                    cut["n"] += 1
                    return
            elif now - cut["failed_at"] > 60.0 and case != last["case"]:
                return  # enough shrinking
            try:
                attempt(case)
            except Exception:
                if cut["failed_at"] is None:
                    cut["failed_at"] = now
                raise

        try:
            search()
        except BaseException as err:
            if isinstance(err, (KeyboardInterrupt, SystemExit)):
                raise
            if "case" in last:
                return last["case"], last["why"]
            raise
        finally:
            if cut["n"]:
                self.per_sub.setdefault(subc.name, {})["cut_short"] = cut["n"]
        return None

    def out_of_time(self) -> bool:
        return time.monotonic() - self.start > self.budget

    # -- whole property ----------------------------------------------------
    def run(self) -> int:
        known = load_known(self.pid)
        for item in known:
            if item["kind"] != "finding":
                continue
            subc = find_sub(self.pid, item["check"])
            try:
                self.judge(subc, item["case"], count=False)
            except Exception:
                print(f"KNOWN-FINDING: property={self.pid} {item['what']}")
        violations = []
        only = os.environ.get("PBT_ONLY")
        for subc in REGISTRY[self.pid]:
            if only and subc.name not in only.split(","):
                continue
            began = time.monotonic()
            found = self.run_sub(subc)
            self.per_sub.setdefault(subc.name, {})["wall_s"] = round(
                time.monotonic() - began, 2
            )
            if found is None:
                continue
            case, why = found
            if any(
                item["kind"] == "finding"
                and item["check"] == subc.name
                and item["case"] == case
                for item in known
            ):
                continue
            violations.append((subc.name, case, why))
            break
        for name, case, why in violations:
            path = self.write_replay(name, case, why)
            print(f"{self.pid}/{name}: {why}")
            print(f"case: {_show(json.dumps(case))}")
            print(f"VIOLATION property={self.pid} replay={path}")
        self.write_evidence(len(violations))
        total = time.monotonic() - self.start
        print(
            f"{self.pid} {self.tier} seed={self.seed}: "
            f"{self.evaluations} cases, {len(self.distinct)} distinct "
            f"non-trivial, {len(violations)} violations, {total:.1f} s"
        )
        return 1 if violations else 0

    def write_replay(self, name: str, case: ty.Any, why: str) -> str:
        folder = OUT / "replays"
        folder.mkdir(exist_ok=True)
        text = json.dumps(case, sort_keys=True)
        tag = hashlib.blake2b(text.encode(), digest_size=5).hexdigest()
        path = folder / f"{self.pid}-{name}-{tag}.json"
        path.write_text(
            json.dumps(
                {
                    "property": self.pid,
                    "check": name,
                    "seed": self.seed,
                    "why": why,
                    "case": case,
                },
                indent=1,
            )
        )
        return str(path)

    def write_evidence(self, num_violations: int) -> None:
        out = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.distinct),
                "rule": RULES.get(self.pid, "")
                + " Cases are drawn by the listed sub-checks; a case counts"
                " once, by its full content, if its sub-check's rule says it"
                " is non-trivial.",
                "samples": self.samples[:16],
                "outside_domain": self.skipped,
                "sub_checks": self.per_sub,
            },
            "wall_s": round(time.monotonic() - self.start, 2),
            "violations": num_violations,
        }
        folder = OUT / "evidence"
        folder.mkdir(exist_ok=True)
        (folder / f"{self.pid}.json").write_text(json.dumps(out, indent=1))


def describe(err: BaseException) -> str:
    if isinstance(err, Violation):
        return str(err)
    frames = traceback.extract_tb(err.__traceback__)
    where = [f for f in frames if f.filename.startswith(REPO)] or frames
    last = where[-1]
    return (
        f"unexpected {type(err).__name__}: {_show(str(err))} "
        f"[{last.filename}:{last.lineno} {last.name}]"
    )


def load_known(pid: str) -> ty.List[ty.Dict[str, ty.Any]]:
    path = VERIF / "known_findings.json"
    if not path.exists():
        return []
    return [it for it in json.loads(path.read_text()) if it["property"] == pid]


def find_sub(pid: str, name: str) -> Sub:
    for subc in REGISTRY[pid]:
        if subc.name == name:
            return subc
    raise KeyError(f"{pid} has no sub-check {name}")


def _on_alarm(*_):
    raise _Timeout()


def main(argv: ty.Sequence[str]) -> int:
    signal.signal(signal.SIGALRM, _on_alarm)
    warnings.simplefilter("ignore")
    from . import props  # noqa: F401  (registers everything)

    import graphicle

    if not graphicle.__file__.startswith(REPO.rstrip("/") + "/"):
        print(f"wrong graphicle: {graphicle.__file__}")
        return 3
    if argv and argv[0] == "replay":
        spec = json.loads(pathlib.Path(argv[1]).read_text())
        subc = find_sub(spec["property"], spec["check"])
        runner = Runner(spec["property"], "quick", 0)
        try:
            runner.judge(subc, spec["case"], count=False)
        except Exception as err:
            print(f"{spec['property']}/{spec['check']}: {describe(err)}")
            print(f"VIOLATION property={spec['property']} replay={argv[1]}")
            return 1
        print("the case does not violate the property")
        return 0
    if argv and argv[0] == "list":
        for pid, subs in sorted(REGISTRY.items()):
            print(pid, *[s.name for s in subs])
        return 0
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return Runner(pid, tier, seed).run()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
