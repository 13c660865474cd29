"""Shared runner for the monitors which watch the Python package: the same protocol as common.hpp"""
import stub_matplotlib  # noqa: F401  (matplotlib is not installed here)
import hashlib
import json
import os
import random
import struct
import sys
import traceback
import warnings

import numpy as np

warnings.filterwarnings("ignore")
if not hasattr(np, "row_stack"):  # pybinding predates numpy 2
    np.row_stack = np.vstack
for _name, _value in (("NaN", float("nan")), ("Inf", float("inf"))):
    if not hasattr(np, _name):
        setattr(np, _name, _value)


class CaseFailed(Exception):
    pass


class CaseSkipped(Exception):
    pass


def hash64(*args):
    return int.from_bytes(hashlib.blake2b(repr(args).encode(), digest_size=8).digest(), "little")


class Rng(random.Random):
    def q(self, a, b, den=64):
        """A multiple of 1/den: exact in single precision"""
        return round(self.uniform(a, b) * den) / den

    def p(self, prob):
        return self.random() < prob

    def i(self, lo, hi):
        return self.randint(lo, hi)

    def np(self):
        return np.random.RandomState(self.getrandbits(32))


class Context:
    def __init__(self, prop, seed):
        self.prop, self.seed = prop, seed
        self.counters, self.distinct, self.samples, self.violations = {}, {}, [], []
        self.evaluations = self.skipped = 0
        self.verbose = False

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, name, value):
        s = self.distinct.setdefault(name, set())
        if len(s) < 200000:
            s.add(hash64(value) >> 12)

    def sig(self, *value):
        self.signature = hash64(self.signature, value)
        self.nontrivial = True

    def note(self, *text):
        text = " ".join(str(t) for t in text)
        self.describe += text + " "
        if self.verbose:
            print(text, file=sys.stderr)

    def violation(self, what):
        if len(self.violations) < 20:
            self.violations.append(dict(key=self.case_name, what=str(what)[:1500], case=self.describe[:3000]))
        if self.verbose:
            print("violation in", self.case_name, ":", what, file=sys.stderr)
        raise CaseFailed()

    def check(self, ok, what):
        self.counters["monitor_checks"] = self.counters.get("monitor_checks", 0) + 1
        if not ok:
            self.violation(what() if callable(what) else what)

    def equal(self, got, expected, what):
        """Same shape, same values (exactly), NaN equal to NaN"""
        got, expected = np.asarray(got), np.asarray(expected)
        ok = got.shape == expected.shape and np.array_equal(got, expected, equal_nan=got.dtype.kind in "fc" and expected.dtype.kind in "fc")
        self.check(ok, lambda: "%s: got %s, expected %s" % (what, show(got), show(expected)))

    def close(self, got, expected, what, tol=1e-6, scale=None):
        got, expected = np.asarray(got), np.asarray(expected)
        if got.shape != expected.shape:
            self.check(False, "%s: shape %s, expected %s" % (what, got.shape, expected.shape))
        if got.size == 0:
            self.check(True, what)
            return
        if scale is None:
            scale = max(1e-3, float(np.max(np.abs(expected))))
        with np.errstate(all="ignore"):
            err = np.abs(got - expected)
        err = np.where((got == expected) | (np.isnan(got.astype(complex)) & np.isnan(expected.astype(complex))), 0, err)
        worst = float(np.max(err))
        self.check(worst <= tol * scale, lambda: "%s: off by %.3g (allowed %.3g): got %s, expected %s" % (
            what, worst, tol * scale, show(got), show(expected)))

    def raises(self, types, what, f, *args, **kwargs):
        try:
            f(*args, **kwargs)
        except types:
            self.check(True, what)
            return
        except Exception as e:
            self.violation("%s: raised %s: %s" % (what, type(e).__name__, e))
        self.check(False, "%s: nothing was raised" % what)


def show(a):
    return np.array2string(np.asarray(a), threshold=12, edgeitems=4, precision=7).replace("\n", " ")[:300]


def run_case(prop, c, name, fn, progress):
    c.case_name, c.describe, c.nontrivial, c.signature = name, "", False, 0
    c.rng = Rng(hash64(c.seed, prop, name))
    np.random.seed(hash64(c.seed, name) % 2**32)
    if progress is not None:
        os.pwrite(progress, ("%-240s\n" % name).encode(), 0)
    c.evaluations += 1
    try:
        fn(c)
    except CaseFailed:
        return
    except CaseSkipped as e:
        c.skipped += 1
        c.count("skipped: %s" % e)
        return
    except Exception as e:
        c.describe += "\n" + traceback.format_exc()[-1500:]
        try:
            c.violation("unexpected exception: %s: %s" % (type(e).__name__, e))
        except CaseFailed:
            pass
        return
    if c.nontrivial:
        c.seen("cases", c.signature)
        if len(c.samples) < 3:
            c.samples.append(name + ": " + c.describe[:700])


def main(prop, random_case, pinned, rule):
    args = sys.argv[1:]
    opt = lambda key, default: args[args.index(key) + 1] if key in args else default
    if "--list-pinned" in args:
        for name in pinned:
            print("p:" + name)
        return 0
    c = Context(prop, int(opt("--seed", "1")))
    progress = opt("--progress", None)
    if progress:
        progress = os.open(progress, os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o644)
    only = opt("--case", None)
    if only:
        c.verbose = "--out" not in args
        run_case(prop, c, only, pinned[only[2:]] if only.startswith("p:") else random_case, progress)
        if c.verbose:
            print(c.describe, file=sys.stderr)
    else:
        for k in range(int(opt("--from", "0")), int(opt("--to", "10")), int(opt("--step", "1"))):
            run_case(prop, c, "r%d" % k, random_case, progress)
    if progress is not None:
        os.pwrite(progress, ("%-240s\n" % "done").encode(), 0)
    out = opt("--out", None)
    if out:
        with open(out, "w") as f:
            json.dump(dict(prop=prop, rule=rule, evaluations=c.evaluations, skipped=c.skipped, counters=c.counters,
                           distinct={k: sorted(v) for k, v in c.distinct.items()}, samples=c.samples, violations=c.violations), f)
    sys.stdout.flush()
    sys.stderr.flush()
    rc = 1 if c.violations else 0
    os._exit(rc)  # no interpreter shutdown: what happens there is not the subject
