"""C30: a parallelized function gives the results of a plain loop, in order and once each, whatever the number of threads"""
import pymon
import io
import itertools
import os
import shutil
import sys
import tempfile
import threading
import time

import numpy as np
import pybinding as pb
import pygen
from pybinding import parallel
from pybinding.support.pickle import load
from pymon import CaseSkipped


class Boom(Exception):
    pass


class Scratch:
    """Results, logs and plots are written to the working directory"""
    def __enter__(self):
        self.old, self.dir = os.getcwd(), tempfile.mkdtemp(prefix="c30_")
        os.chdir(self.dir)
        return self

    def __exit__(self, *_):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)

    def files(self):
        return sorted(os.listdir(self.dir))


class Log:
    """Events of one run; the GIL orders them"""
    def __init__(self):
        self.events = []

    def __call__(self, *what):
        self.events.append(what + (threading.get_ident(),))

    def of(self, kind):
        return [e[1:-1] for e in self.events if e[0] == kind]


class Work:
    """What is computed at each point: the LDOS of a small model, with the reference from a plain loop"""
    def __init__(self, c, num_vars):
        r = c.rng
        self.c = c
        self.lat = pygen.Lat(c, ndim=r.choice([1, 2, 2]), max_sub=2, multi=r.p(0.25))
        self.lattice = self.lat.build()
        self.shape = pb.primitive(*[r.i(2, 4) for _ in range(self.lat.ndim)])
        names = list(self.lat.subs)
        self.sub = r.choice(["", names[0]])
        self.energy = np.sort(np.array([r.q(-2, 2) for _ in range(r.i(1, 5))]))
        self.broadening = r.q(0.3, 1)
        self.slow = r.p(0.6)
        self.kw = dict(silent=True) if r.p(0.5 if not self.slow else 0.2) else {}
        self.kw["energy_range"] = (-25, 25)
        if r.p(0.8):
            self.kw["num_threads"] = r.i(1, 3)
        self.shared = r.p(0.2)     # models share their lattice in any case; this one shares the modifiers too
        self.num_vars = num_vars
        self.multi = any(v[2] > 1 for v in self.lat.subs.values())
        self.modifier = self.make_modifier([0.25] * num_vars)

    def make_modifier(self, v):
        total = sum((k + 1) * x for k, x in enumerate(v))

        @pb.onsite_energy_modifier
        def shift(energy, x, sub_id):
            return energy + total * sub_id.eye
        return shift

    def model(self, v):
        parts = [self.shape, self.make_modifier(v)]
        if self.shared:
            parts.append(self.modifier)
        return pb.Model(self.lattice, *parts)

    def deferred(self, v):
        kw = dict(self.kw)
        if self.slow and "silent" not in kw:
            pause = self.c.rng_late.choice([0, 0, 0.002, 0.006])
            kw["progress_callback"] = lambda delta, total: time.sleep(pause)  # while it's computed
        kpm = pb.kpm(self.model(v), **kw)
        d = kpm.deferred_ldos(self.energy, self.broadening, [0.0, 0.0], self.sub) if self.sub else \
            kpm.deferred_ldos(self.energy, self.broadening, [0.0, 0.0])
        if self.c.rng_late.random() < 0.1:
            kpm.model = self.model([x + 1 for x in v])  # the computation may not have started
            return None, d
        return kpm, d

    def reference(self, v):
        """Dense and in double precision is judged by C31: here a plain sequence of independent objects"""
        kpm = pb.kpm(self.model(v), **dict(self.kw, silent=True))
        return kpm.calc_ldos(self.energy, self.broadening, [0.0, 0.0], self.sub).data


def delay(rng):
    if rng.random() < 0.1:
        time.sleep(rng.random() * 0.002)


def run(c):
    r = c.rng
    kind = r.choice(["sweep", "sweep", "ndsweep", "parallel_for", "plain", "raw"])
    fail = r.choice([None] * 11 + ["produce", "compute", "retire", "value", "first"])
    num_vars = 1 if kind in ("sweep", "raw") else r.i(1, 3)
    w = Work(c, num_vars)
    import random
    c.rng_late = random.Random(r.getrandbits(32))
    variables = [np.array([r.q(-1, 1) for _ in range(r.i(1, [12, 4, 3][num_vars - 1]))]) for _ in range(num_vars)]
    threads, queue = r.choice([1, 1, 2, 3, 4, 8]), r.choice([1, 2, 3, 8, 100, 0])
    c.note(kind, fail, "threads", threads, "queue", queue, [len(v) for v in variables], w.kw, "energies", len(w.energy))
    sequence = list(itertools.product(*variables))
    n = len(sequence)
    log, slow = Log(), random.Random(r.getrandbits(32))
    bad = r.i(0, n - 1)
    alive = [] if r.p(0.3) else None
    talk = r.p(0.3)
    counter = itertools.count()

    def produce(*v):
        k = next(counter)
        log("produce", k, v)
        delay(slow)
        if talk:
            print("producing", k)
        if fail == "produce" and k == bad:
            raise Boom("produce")
        if fail == "value" and k == bad:
            return [None, 5, "text"][k % 3]
        if fail == "compute" and k == bad:
            d = pb.kpm(w.model(v), silent=True).deferred_ldos(w.energy, w.broadening, [0, 0], "no such name")
        else:
            kpm, d = w.deferred(v)
            if kpm is None:
                moved.add(k)
        if alive is not None:
            alive.append(d)
        return d

    def retire(d, idx):
        log("retire", idx)
        delay(slow)
        if fail == "retire" and idx == bad:
            raise Boom("retire")
        return np.array(d.result)

    moved = set()
    kept = {}
    want = [w.reference(v) for v in sequence]
    before = sys.stdout, sys.stderr

    with Scratch() as scratch:
        def call():
            if kind == "raw":
                def store(d, idx):
                    kept[idx] = retire(d, idx)
                one = lambda v: produce(v)
                seq = list(variables[0])
                if threads == 1 and r.p(0.5):
                    parallel._sequential_for(seq, one, store)
                else:
                    parallel._parallel_for(seq, one, store, threads, queue)
                return None
            names = ["p", "q", "s"][:num_vars]
            space = dict(produce=produce, energy=w.energy)
            exec("def factory(%s, energy=energy, fixed=3):\n    assert fixed == 3\n    return produce(%s)" % (", ".join(names), ", ".join(names)), space)
            decorate = pb.parallelize(num_threads=threads, queue_size=queue, **dict(zip(names, variables))) if queue else \
                pb.parallelize(num_threads=threads, **dict(zip(names, variables)))
            f = decorate(space["factory"])
            c.equal(len(f.sequence), n, "length of the sequence")
            f.config.filename = name
            f.config.pbar_fd = stream
            if save_every:
                f.config.save_every = save_every
            if not status:
                f.hooks.status.clear()
            f.hooks.status.append(lambda d, idx, count: (log("status", idx, count), retire(d, idx)))
            f.hooks.first.append(lambda d: (log("first"), fail == "first" and boom()))
            if plot:
                f.hooks.plot.append(lambda result: (log("plot"), plot == "bad" and boom()))
            labels = dict(title="T", x="X") if r.p(0.5) else None
            tags = dict(tag=5) if r.p(0.5) else None
            if kind == "sweep":
                return parallel.sweep(f, plot=None, labels=labels, tags=tags, silent=mute)
            if kind == "ndsweep":
                return parallel.ndsweep(f, labels=labels, tags=tags)
            if kind == "parallel_for":
                return parallel.parallel_for(f, gather)
            return parallel.parallel_for(f)

        def boom():
            raise Boom("hook")

        def gather(data):
            made.append(sum(x is not None for x in data))
            return [None if x is None else np.array(x) for x in data]

        made = []

        name = r.choice(["result", "result", None, ""])
        status = r.p(0.5)
        mute = kind == "sweep" and fail != "retire" and r.p(0.2)  # takes all of the status hooks away
        plot = r.choice([None, None, "good", "bad"])
        save_every = r.choice([None, 10.0, 25.0, 50.0, 100.0])
        stream = io.StringIO() if r.p(0.6) else None
        if kind == "raw":
            stream = None
        result, error = None, None
        try:
            result = call()
        except Exception as e:
            error = e
        c.check((sys.stdout, sys.stderr) == before, "the output streams were not restored")
        c.count("runs: " + kind)
        c.count("threads: %d" % threads)
        order = [e[0] for e in log.of("retire")]
        c.count("runs retired out of order", int(order != sorted(order)))

        expected_failure = fail and not (kind == "raw" and fail == "first")
        if expected_failure:
            c.check(error is not None, lambda: "an exception in '%s' did not reach the caller" % fail)
            if fail in ("produce", "retire", "first"):
                c.check(isinstance(error, Boom), lambda: "'%s' raised Boom, the caller got %r" % (fail, error))
            c.count("failures: " + fail)
            done = [e[0] for e in log.of("retire")]
            c.check(len(done) == len(set(done)), "a result was retired twice")
            c.sig(c.describe)
            return
        if error is not None:
            raise error

        # events
        produced = log.of("produce")
        c.check([e[0] for e in produced] == list(range(n)) and all(np.allclose(e[1], s) for e, s in zip(produced, sequence)),
                lambda: "the function was called with %s, expected %s" % ([e[1] for e in produced], sequence))
        c.check(mute or sorted(e[0] for e in log.of("retire")) == list(range(n)), lambda: "retired %s of %d jobs" % (log.of("retire"), n))
        c.check(not mute or not log.of("retire"), "a silent sweep called the status hooks")
        if threads == 1 and not mute:
            c.check([e[0] for e in log.of("retire")] == list(range(n)), "one thread retires in order")
        if kind != "raw" and not mute:
            c.equal(len(log.of("first")), 1, "calls of the hook after the first job")
            c.check([e[1] for e in log.of("status")] == list(range(1, n + 1)), lambda: "counts given to the status hook: %s" % log.of("status"))
            c.check(sorted(e[0] for e in log.of("status")) == list(range(n)), "indices given to the status hook")
            first = [k for k, e in enumerate(log.events) if e[0] == "first"][0]
            c.check(first < [k for k, e in enumerate(log.events) if e[0] == "status"][0], "the first status came before the first hook")

        if kind == "parallel_for":  # the partial results: how far apart, and what is in them
            step = max(1, int(np.ceil(n * (save_every or 10.0) / 100 - 1e-9)))
            c.check(made[-1] == n and all(0 < b - a <= step for a, b in zip([0] + made, made)),
                    lambda: "results of %s out of %d jobs were put together, an interval of %s%% was asked for" % (made, n, save_every))
            c.count("partial_results", len(made) - 1)
            if name and plot:
                plots = len(log.of("plot"))
                c.check(plots == len(made), lambda: "%d plots of %d results" % (plots, len(made)))

        # values: those whose KPM was given another model before the computation can be either
        ne = len(w.energy)

        def same(k, got, what):
            if k in moved:
                return
            c.close(np.asarray(got).reshape(-1), np.asarray(want[k]).reshape(-1), what + " of job %d" % k, 1e-5)
            c.count("results_compared")
        if kind == "raw":
            for k in range(n):
                same(k, kept[k], "result")
        elif kind == "sweep":
            c.equal(result.x, variables[0], "Sweep.x")
            c.equal(result.y, w.energy, "Sweep.y")
            c.equal(np.asarray(result.data).shape, (n, ne), "Sweep.data")
            for k in range(n):
                same(k, result.data[k], "row")
        elif kind == "ndsweep":
            c.equal(np.asarray(result.data).shape, tuple(len(v) for v in variables) + (ne,), "NDSweep.data")
            for k, idx in enumerate(itertools.product(*[range(len(v)) for v in variables])):
                same(k, result.data[idx], "element")
        else:
            c.equal(len(result), n, "number of results")
            for k in range(n):
                same(k, result[k], "result")

        # files
        files = scratch.files()
        if kind != "raw" and name:
            c.check("result.pbz" in files and "result.log" in files, lambda: "files written: %s" % files)
            back = load("result")
            got, exp = (back.data, result.data) if kind in ("sweep", "ndsweep") else (back, result)
            for k, (a, b) in enumerate(zip(got, exp)):
                c.equal(np.asarray(a), np.asarray(b), "saved result %d" % k)
            c.check(len(got) == len(exp), "length of the saved result")
        else:
            c.equal(files, [], "files written without a name")
        if kind != "raw" and stream is not None:
            text = stream.getvalue()
            if talk and (w.kw.get("silent") or not w.multi):  # the bars of the calculations show it otherwise
                for k in range(n):
                    c.check("producing %d" % k in text, lambda: "the output 'producing %d' was lost" % k)
                c.count("prints_forwarded", n)
            c.check("100%" in text, "the progress did not reach 100%")
            if status and kind != "sweep":
                c.check(text.count("|") >= n, "the default status is missing")
        c.sig(c.describe)
        c.seen("schedules", tuple(e[0] for e in log.of("retire")) + tuple(e[0][0] for e in log.events))


def quiet():
    if not getattr(quiet, "done", False) and "--out" in sys.argv:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    quiet.done = True


def random_case(c):
    quiet()
    run(c)


def p_same_exception(c):
    """Any number of threads, the same exception"""
    lat = pb.Lattice([1, 0], [0, 1])
    lat.add_sublattices(("A", [0, 0], 0.5))
    lat.add_hoppings(([1, 0], "A", "A", 1.0))
    m = pb.Model(lat, pb.primitive(3, 3))
    kpm = pb.kpm(m, energy_range=(-5, 5), silent=True)
    for threads in (1, 2, 8):
        for where in ("produce", "compute", "retire"):
            def produce(v):
                if where == "produce" and v == 3:
                    raise KeyError("produce")
                k = pb.kpm(m, energy_range=(-5, 5), silent=True)
                return k.deferred_ldos(np.array([0.1]), 0.5, [0, 0], "Q" if where == "compute" and v == 3 else "A")

            def retire(d, idx):
                if where == "retire" and idx == 3:
                    raise KeyError("retire")
            c.raises(KeyError if where != "compute" else Exception, "%s on %d threads" % (where, threads),
                     parallel._parallel_for, list(range(10)), produce, retire, threads, 4)
    c.sig(1)


if __name__ == "__main__":
    pymon.main("C30", random_case, {"same-exception": p_same_exception},
               "random functions run by parallel_for, sweep and ndsweep on 1 to 8 threads with random queue sizes, delays, hooks, files and failures at each stage; events and "
               "results are compared with a plain loop; the stand-in for pybind11 aborts when a reference count changes without the GIL; a case counts by its description")
