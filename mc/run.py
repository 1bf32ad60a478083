"""Runs the check of one property: explores all its scenarios in parallel and writes the evidence file."""

from __future__ import annotations

import concurrent.futures as cf
import gc
import importlib
import io
import json
import logging
import multiprocessing
import os
import pathlib
import sys
import time
import warnings
from typing import Any

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO_SRC = os.environ.get("MC_REPO_SRC", "/repo/src")

from . import explore  # noqa: E402
from .explore import Scenario, Stats  # noqa: E402

WORKERS = int(os.environ.get("MC_WORKERS", "8"))
BUDGET = 300


class _Formatting(logging.Handler):
    """Formats every record (as an application's handler would) and throws the text away."""

    def emit(self, record: logging.LogRecord) -> None:
        record.getMessage()


def setup() -> None:
    sys.path.insert(0, REPO_SRC)
    warnings.simplefilter("ignore")
    logging.lastResort = _Formatting(logging.WARNING)
    logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)
    sys.unraisablehook = lambda *_: None
    import frequenz.channels  # pylint: disable=import-outside-toplevel

    assert frequenz.channels.__file__.startswith(REPO_SRC + "/"), frequenz.channels.__file__


_scenarios: list[Scenario] = []


def _work(idx: int, prefixes: list[list[int]]) -> tuple[int, Stats, list[list[int]], str | None]:
    stats = Stats()
    try:
        rest = explore.explore(_scenarios[idx], prefixes, stats, budget=BUDGET)
        return idx, stats, rest, None
    except BaseException as exc:  # pylint: disable=broad-except
        import traceback  # pylint: disable=import-outside-toplevel

        return idx, stats, [], f"{_scenarios[idx].name}: {type(exc).__name__}: {exc}\n{traceback.format_exc()}"


def _work_many(jobs: list[tuple[int, list[list[int]]]]) -> list[tuple[int, Stats, list[list[int]], str | None]]:
    return [_work(i, p) for i, p in jobs]


def load(prop: str) -> Any:
    return importlib.import_module(f"mc.props.{prop.lower()}")


def known_findings(prop: str) -> dict[str, str]:
    """The listed (not fixed) findings of a property: id -> description."""
    path = VERIF / "known_findings.json"
    if not path.exists():
        return {}
    data = json.loads(path.read_text())
    return {f["id"]: f["what"] for f in data["findings"] if f["property"] == prop}


def run_check(prop: str, tier: str, seed: int) -> int:
    start = time.monotonic()
    setup()
    module = load(prop)
    scenarios: list[Scenario] = module.scenarios(tier)
    names = [s.name for s in scenarios]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:5]
    if only := os.environ.get("MC_ONLY"):
        scenarios = [s for s in scenarios if only in s.name]
    _scenarios[:] = scenarios
    listed = known_findings(prop)
    explore.LISTED = set(listed)
    limit = float(os.environ.get("MC_DEADLINE", "420" if tier == "quick" else "840"))
    gc.collect()
    gc.freeze()
    gc.disable()

    total = Stats()
    per: dict[int, Stats] = {i: Stats() for i in range(len(scenarios))}
    samples: list[Any] = []
    errors: list[str] = []
    stopped = False
    ctx = multiprocessing.get_context("fork")
    with cf.ProcessPoolExecutor(WORKERS, mp_context=ctx) as pool:
        outstanding: set[Any] = set()
        queue: list[tuple[int, list[list[int]]]] = [(i, [[]]) for i in range(len(scenarios) - 1, -1, -1)]
        chunk = max(1, min(8, len(queue) // (WORKERS * 6)))

        def submit() -> None:
            while queue and len(outstanding) < WORKERS * 3:
                jobs = [queue.pop() for _ in range(min(chunk, len(queue)))]
                outstanding.add(pool.submit(_work_many, jobs))

        submit()
        while outstanding:
            done, _ = cf.wait(outstanding, return_when=cf.FIRST_COMPLETED)
            for fut in done:
                outstanding.discard(fut)
                for idx, stats, rest, error in fut.result():
                    if error:
                        errors.append(error)
                    acc = per[idx]
                    if stats.sample and len(samples) < 3 and acc.executions == 0 and idx % 7 == 0:
                        samples.append({"scenario": scenarios[idx].name, "trace": stats.sample[:60]})
                    stats.sample = None if not stats.found else stats.sample
                    acc.merge(stats)
                    if len(acc.states) > 4_000_000:
                        acc.capped = True
                    if rest and not stopped:
                        n = 1 if len(rest) < 4 else min(4, len(rest))
                        for k in range(n):
                            queue.append((idx, rest[k::n]))
                if any(p.found for p in per.values()) or errors:
                    stopped = True
            if time.monotonic() - start > limit and not stopped:
                stopped = True
                total.capped = True
            if stopped:
                queue.clear()
            submit()
    gc.enable()

    states = sum(len(p.states) for p in per.values())
    outcomes = sum(len(p.outcomes) for p in per.values())
    single = [scenarios[i].name for i, p in per.items() if len(p.outcomes) == 1 and p.executions > 1]
    if os.environ.get("MC_VERBOSE"):
        for i, p in sorted(per.items(), key=lambda e: -e[1].executions)[:15]:
            print(f"{p.executions:8} {len(p.states):8} {scenarios[i].name}")
    for p in per.values():
        p.states = set()
        p.outcomes = set()
        total.merge(p)

    found = sorted(total.found, key=lambda f: (len([c for c in f.choices if c]), len(f.choices)))
    for ident in sorted(total.known.keys() & listed.keys()):
        print(f"KNOWN-FINDING: property={prop} {listed[ident]} ({total.known[ident]} executions)")

    bounds = sorted({s.bound for s in scenarios})
    evidence: dict[str, Any] = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": total.transitions,
            "traces_validated_against_impl": total.executions,
            "scenarios": len(scenarios),
            "distinct_observed_histories": outcomes,
            "quiescent_states_checked": total.quiescent,
            "deterministic_replays_compared": total.replays,
            "longest_choice_sequence": total.max_choices,
            "deviation_bounds": bounds,
            "scenarios_with_a_single_history": len(single),
            "divergent_replays": total.divergences,
            "executions_that_break_another_property": total.pruned,
            "exhaustive": not total.capped and not stopped and not total.divergences,
            "exploration": (
                "All executions of the real code in every scenario whose number of deviations from run-to-completion "
                "(resuming an application task between two event loop steps, firing a due timer late, a non-default position of a "
                "task in a set of tasks) is within the bound; order of application operations, data and time choices unbounded "
                "within the scenario. Each execution is a trace of the implementation checked against the reference model. "
                "states = distinct (observable history, pending steps) pairs, transitions = event loop steps executed."
            ),
            "rule": getattr(module, "__doc__", ""),
            "samples": samples or [{"scenario": names[0]}],
        },
        "assumptions": [
            "CPython asyncio semantics: FIFO ready queue; no threads (the channels are documented as not thread-safe)",
            "bounded programs: the scenarios of mc/props and their deviation bounds",
        ],
        "wall_s": round(time.monotonic() - start, 2),
        "violations": len(found),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")
    cov = evidence["coverage"]
    print(
        f"{prop} {tier}: {len(scenarios)} scenarios, {total.executions} executions, {states} states, {total.transitions} transitions, "
        f"{outcomes} distinct histories, {total.replays} replays, {len(single)} scenarios with one history, bounds {bounds}, "
        f"exhaustive={cov['exhaustive']}, {evidence['wall_s']} s"
    )
    if errors and not found:
        print("ERROR of the check:\n" + errors[0])
        return 2
    if found:
        first = found[0]
        path = VERIF / "evidence" / f"{prop}-violation.json"
        path.write_text(
            json.dumps(
                {"property": prop, "tier": tier, "scenario": first.scenario, "message": first.message, "choices": first.choices},
                indent=1,
            )
            + "\n"
        )
        print(f"scenario {first.scenario}: {first.message}")
        scenario = next(s for s in scenarios if s.name == first.scenario)
        x, _ = explore.run_one(scenario, first.choices, trace=True)
        for line in (x.trace or [])[-60:]:
            print("   ", line)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def replay(path: str) -> int:
    """Re-execute a recorded violation, without the explorer."""
    setup()
    data = json.loads(pathlib.Path(path).read_text())
    module = load(data["property"])
    explore.LISTED = set(known_findings(data["property"]))
    scenario = next(s for s in module.scenarios(data["tier"]) if s.name == data["scenario"])
    x, message = explore.run_one(scenario, data["choices"], trace=True)
    print("\n".join(x.trace or []))
    print("result:", message or "no violation")
    return 1 if message else 0


def main() -> None:
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B", "-m", "mc", *sys.argv[1:]])
    if sys.argv[1] == "replay":
        raise SystemExit(replay(sys.argv[2]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    raise SystemExit(run_check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
