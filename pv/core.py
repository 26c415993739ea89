"""
The property runner.

A property module (pv/checks/cNN.py) exposes SUBCHECKS, a list of Sub objects.
A Sub has a Hypothesis strategy that generates one JSON-able case (a dict) and
a function run(case) which executes the real code on it and raises Violation
(or lets an exception of the code escape) when the property is broken. run
returns a dict of labels for the case; the case counts as non-trivial when
labels["nontrivial"] is true.
"""

import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback


class Violation(Exception):
    pass


class Hang(Exception):
    """The code used an absurd amount of CPU time on one small case."""


class StopShrinking(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, shards=8,
                 rule="", hang=120, shrink_s=45):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 8
        self.shards = shards
        self.rule = rule
        self.hang = hang
        self.shrink_s = shrink_s


class Skip(Exception):
    """The generated case lies outside of the property's domain."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def canonical(case):
    return json.dumps(case, sort_keys=True, default=str)


def case_hash(case):
    return hashlib.blake2b(canonical(case).encode(), digest_size=8).hexdigest()


def derive_seed(*parts):
    h = hashlib.blake2b("/".join(map(str, parts)).encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


def _on_prof(signum, frame):
    raise Hang("no answer after the CPU time limit for one case")


def run_case(sub, case):
    """Run one case; returns labels, raises Violation."""
    import numpy as np

    # whatever the code does with the global random state is a function of
    # the case alone
    np.random.seed(derive_seed("np", canonical(case)) % (2 ** 32))

    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, sub.hang)
    try:
        labels = sub.run(case)
    except (Violation, Skip):
        raise
    except Hang as e:
        raise Violation("does not terminate: %s\n%s" % (e, _tail()))
    except (KeyboardInterrupt, SystemExit, StopShrinking):
        raise
    except MemoryError:
        raise
    except Exception as e:
        raise Violation(
            "unexpected %s: %s\n%s" % (type(e).__name__, e, _tail())
        )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return labels or {}


def _tail():
    lines = traceback.format_exc().strip().split("\n")
    return "\n".join(lines[-14:])


def run_shard(prop, sub, seed, shard, nshards, n, deadline):
    """Generate and run n cases; returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    res = dict(sub=sub.name, shard=shard, evaluations=0, skipped=0,
               hashes=[], nontrivial_hashes=[], labels={}, samples=[],
               failure=None, timeout=False, error=None, wall=0.0)
    t0 = time.time()
    state = dict(failing=None, msg=None, t_fail=None)
    nontrivial = set()
    everything = set()

    def body(case):
        now = time.time()
        if state["failing"] is None:
            if now > deadline:
                res["timeout"] = True
                return
        elif now - state["t_fail"] > sub.shrink_s:
            raise StopShrinking()
        try:
            labels = run_case(sub, case)
        except Skip:
            res["skipped"] += 1
            return
        except Violation as e:
            res["evaluations"] += 1
            if state["failing"] is None:
                state["t_fail"] = now
            # prefer the smallest failing case seen
            if (
                state["failing"] is None
                or len(canonical(case)) <= len(canonical(state["failing"]))
            ):
                state["failing"] = case
                state["msg"] = str(e)
            if "does not terminate" in str(e):
                raise StopShrinking()
            raise
        if state["failing"] is not None:
            return
        res["evaluations"] += 1
        h = case_hash(case)
        everything.add(h)
        if labels.pop("nontrivial", False):
            nontrivial.add(h)
            if len(res["samples"]) < 2 and len(canonical(case)) < 4000:
                res["samples"].append(case)
        for k, v in labels.items():
            if hasattr(v, "item"):
                v = v.item()
            if isinstance(v, bool) or v is None:
                if v:
                    res["labels"][k] = res["labels"].get(k, 0) + 1
            elif isinstance(v, (int, float)):
                res["labels"][k] = res["labels"].get(k, 0) + v
            else:
                kk = "%s=%s" % (k, v)
                res["labels"][kk] = res["labels"].get(kk, 0) + 1

    test = hypothesis.seed(derive_seed(seed, prop, sub.name, shard))(
        settings(
            max_examples=n,
            database=None,
            deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
            print_blob=False,
            report_multiple_bugs=False,
        )(hypothesis.given(sub.strategy)(body))
    )
    try:
        test()
    except StopShrinking:
        pass
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if state["failing"] is None:
            res["error"] = "%s: %s\n%s" % (type(e).__name__, e, _tail())
    if state["failing"] is not None:
        res["failure"] = dict(case=state["failing"], message=state["msg"])
    res["hashes"] = list(everything)
    res["nontrivial_hashes"] = list(nontrivial)
    res["wall"] = time.time() - t0
    return res
