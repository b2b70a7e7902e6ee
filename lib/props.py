"""Which bounded checks stand beside each property's contracts, and what each property assumes."""
import json, subprocess, sys, time
from base import *
import base

BUDGET = 300 if DEEP else 25  # seconds of extra rounds


def _rounds(fn, start, budget, least=1):
    k = 0
    while k < least or (time.time() - start < budget and k < 200):
        fn(k)
        k += 1


def harness(check):
    def f(rep, notes):
        b, log = build_harness()
        if not b:
            raise Undecided("the harness does not build against the current tree: " + log[-300:])
        _tool(b, check, rep)
    return f


def cmdh(check):
    def f(rep, notes):
        b, log = build_cmdh()
        if not b:
            raise Undecided("the command harness does not build against the current tree: " + log[-300:])
        _tool(b, check, rep)
    return f


def _tool(b, check, rep):
    start = time.time()

    def once(seed):
        with Scratch() as d:
            rc, out, err = run([b, check, str(seed), TIER, d], cwd=d, timeout=600)
            if rc is None:
                raise Violation("%s: the code under test does not terminate (harness %s, seed %s)" % (check, check, seed), {}, [b, check, seed, TIER])
            if rc != 0:
                raise Violation("%s: the code under test panics or aborts (status %s): %s" % (check, rc, err[-1500:]), {}, [b, check, seed, TIER])
            r = json.loads(out.splitlines()[-1])
            rep.absorb(r)
            if r["violation"]:
                raise Violation(r["violation"], {}, ["wimbd-harness", check, seed, TIER])
    once(SEED)
    _rounds(lambda k: parallel(once, [SEED + 1000 * (8 * k + j) for j in range(1, 5)], 4), start, BUDGET / 3, 1)


def cli(check):
    def f(rep, notes):
        import cli as c
        b, log = build_cli()
        if not b:
            raise Undecided("wimbd does not build: " + log[-300:])
        start = time.time()

        def one(k):
            c.SEED = SEED + 1000 * k
            c.CLI[check](c.Env(rep, b), TIER)
        _rounds(one, start, BUDGET, 1)
    return f


def py(check):
    def f(rep, notes):
        import pyprops
        pyprops.PY[check](rep, TIER)
    return f


GEN = "seeded random and enumerated inputs for the real code; a case is non-trivial when it exercises the property's mechanism (see lib/cli.py, harness/src, cmdh/src, lib/pyprops.py), counted distinct by full input"
RUST = ["contracts of std and third-party crates as listed in trusted_base", "the extraction rewrites listed in extraction_rewrites"]

PYTHON = ["packages that are not installed are replaced by the stand-ins in pystubs/", "a recording stand-in for the Elasticsearch client"]


def P(*bounded, assumes=RUST):
    return dict(bounded=list(bounded), rule=GEN, assumes=list(assumes))


PROPS = {
    "C01": P(harness("C01")), "C02": P(harness("C02")), "C03": P(harness("C03")),
    "C04": P(harness("C04"), cli("C04")), "C05": P(harness("C05")), "C06": P(harness("C06")),
    "C07": P(harness("C07")), "C08": P(harness("C08")), "C09": P(harness("C09")),
    "C10": P(cli("C10"), harness("C10race")), "C11": P(cli("C11")), "C12": P(cli("C12"), harness("C12")),
    "C13": P(cli("C13")), "C14": P(cli("C14")), "C15": P(cli("C15")), "C16": P(cli("C16")), "C17": P(cli("C17")),
    "C18": P(cmdh("C18"), cli("C18")), "C19": P(cmdh("C19"), cli("C19")), "C20": P(cmdh("C20"), cli("C20")),
    "C21": P(cli("C21")), "C22": P(cli("C22")), "C23": P(cli("C23")),
    "C24": P(cmdh("C24"), cli("C24")), "C25": P(cmdh("C25"), cli("C25")), "C26": P(cli("C26")),
    **{c: P(py(c), assumes=PYTHON) for c in ("C31", "C32", "C33", "C34", "C35", "C36", "C37")},
}
