"""Concrete replays against the real, un-instrumented code.

    python -m symx.replay CASES.json      list of {property, unit, tier, values}
Prints one JSON line per case."""

from __future__ import annotations

import importlib
import json
import logging
import signal
import sys


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def load_units(prop, tier):
    mod = importlib.import_module(f"props.{prop}")
    return mod, {u[0]: u for u in mod.units(tier)}


def main():
    from .env import run_concrete

    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    data = json.load(open(sys.argv[1]))
    cases = data if isinstance(data, list) else [data]
    known = frozenset(sys.argv[2].split(",")) if len(sys.argv) > 2 and sys.argv[2] else frozenset()
    cap = 20
    signal.signal(signal.SIGALRM, _alarm)
    cache = {}
    bad = False
    for c in cases:
        key = (c["property"], c.get("tier", "quick"))
        if key not in cache:
            cache[key] = load_units(*key)
        mod, units = cache[key]
        name, fn, kw = units[c["unit"]][:3]
        signal.alarm(c.get("cap", cap))
        try:
            r = run_concrete(fn, kw, c["values"], key[1], known)
        except Hang:
            r = {"verdict": "timeout", "msg": "no termination", "obs": [], "tags": [], "known": []}
        except BaseException as e:  # noqa: BLE001
            r = {"verdict": "error", "msg": repr(e), "obs": [], "tags": [], "known": []}
        signal.alarm(0)
        bad |= r["verdict"] == "violation"
        print(json.dumps(r), flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
