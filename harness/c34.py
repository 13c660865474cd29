"""C34: names stand for exactly the sites and hoppings which carry them, wherever ids are compared with names"""
import pymon
import copy
import itertools
import pickle

import numpy as np
import scipy.sparse as sp
import pybinding as pb
from pymon import CaseSkipped
from pybinding.support.alias import AliasArray, AliasCSRMatrix, AliasIndex, SplitName
from pybinding.support.fuzzy_set import FuzzySet


def names_pool(c, n, hops=False):
    """Names, some of which share their first part with others (which is not a name by itself)"""
    r = c.rng
    first = r.sample(["A", "B", "Cu", "t", "A1", "x y", "Bb"], 3)
    result = []
    while len(result) < n:
        f = r.choice(first)
        kind = r.choice(["plain", "split", "split", "double"])
        name = {"plain": f + "_" + str(len(result)), "split": "%s|%d" % (f, len(result)), "double": "%s|%d|z" % (f, len(result))}[kind]
        result.append(name)
    return result


def queries(c, names):
    """Names to ask for and which of the given names answer"""
    r = c.rng
    q = set(names) | {n.split("|")[0] for n in names} | {"no such", "", names[0][:1] + "~"}
    if "|" in names[-1]:
        q.add(names[-1].split("|", 1)[1])  # the second part alone is not a name
    for query in q:
        yield query, {n for n in names if n == query or n.split("|")[0] == query}


def compare(c, arr, ids, mapping, what):
    ids = np.asarray(ids)
    c.equal(np.asarray(arr), ids, what + ": ids")
    by_id = {}
    for k, v in mapping.items():
        by_id.setdefault(v, set()).add(k)
    for query, answer in queries(c, list(mapping)):
        want = np.array([bool(by_id.get(i, set()) & answer) for i in ids.reshape(-1).tolist()], dtype=bool).reshape(ids.shape)
        given = c.rng.choice([query, query, SplitName(query), np.str_(query)])
        if isinstance(given, SplitName) and "|" in query:
            given = query
        c.equal(np.asarray(arr == given), want, "%s == %r" % (what, query))
        c.equal(np.asarray(arr != given), ~want, "%s != %r" % (what, query))
        c.count("name comparisons", 2)
        if want.any():
            c.count("comparisons with matches")
    some = c.rng.choice(ids.reshape(-1).tolist() or [0])
    c.equal(np.asarray(arr == some), ids == some, "%s == %r" % (what, some))
    c.equal(np.asarray(arr != some), ids != some, "%s != %r" % (what, some))


def derive(c, a, x):
    """The same thing done to an alias array and to a plain one"""
    r = c.rng
    ops = ["copy", "ravel", "pickle", "deepcopy", "slice", "reverse", "astype", "reshape", "T", "view", "repeat"]
    if x.ndim and x.shape[0]:
        ops += ["mask", "fancy", "take"]
    op = r.choice(ops)
    n = x.shape[0] if x.ndim else 0
    if op == "mask":
        m = np.array([r.p(0.6) for _ in range(n)], dtype=bool)
        return a[m], x[m], op
    if op == "fancy":
        idx = [r.i(0, n - 1) for _ in range(r.i(1, 6))]
        return a[idx], x[idx], op
    if op == "take":
        idx = [r.i(0, n - 1) for _ in range(r.i(1, 6))]
        return a.take(idx, axis=0), x.take(idx, axis=0), op
    if op == "slice":
        s = slice(r.choice([None, 1, -3]), r.choice([None, 5, -1]), r.choice([None, 2]))
        return (a[s], x[s], op) if x.ndim else (a[...], x[...], op)
    if op == "reverse":
        return (a[::-1], x[::-1], op) if x.ndim else (a, x, op)
    if op == "reshape":
        shape = r.choice([(-1, 1), (1, -1), (x.size,), x.shape + (1,)]) if x.size else x.shape
        return a.reshape(shape), x.reshape(shape), op
    if op == "pickle":
        return pickle.loads(pickle.dumps(a, r.i(2, pickle.HIGHEST_PROTOCOL))), x, op
    if op == "deepcopy":
        return copy.deepcopy(a), x, op
    if op == "view":
        return a[...], x, op
    if op == "astype":
        return a.astype(r.choice([np.int64, np.int16])), x, op
    if op == "repeat":
        return a.repeat(2, axis=0 if x.ndim else None), x.repeat(2, axis=0 if x.ndim else None), op
    return {"copy": a.copy, "ravel": a.ravel, "T": lambda: a.T}[op](), {"copy": x.copy, "ravel": x.ravel, "T": lambda: x.T}[op](), op


def arrays(c):
    r = c.rng
    names = names_pool(c, r.i(1, 5))
    ids = r.sample(range(8), len(names))
    mapping = dict(zip(names, ids))
    shape = r.choice([(r.i(0, 12),), (r.i(1, 12),), (r.i(1, 4), r.i(1, 4)), (2, 1, 3), ()])
    x = np.array([r.choice(ids + [9]) for _ in range(int(np.prod(shape)))], dtype=r.choice([np.int32, np.int8, np.int64])).reshape(shape)
    c.note("array", x.tolist(), mapping)
    a = AliasArray(x, mapping)
    compare(c, a, x, mapping, "AliasArray")
    what = "AliasArray"
    for _ in range(r.i(1, 4)):
        a, x, op = derive(c, a, x)
        what += " " + op
        if not isinstance(a, AliasArray):
            raise CaseSkipped("a scalar")
        compare(c, a, x, mapping, what)
    c.count("arrays")
    c.sig(what, mapping, x.tolist())


def dense_ids(m):
    m = m.tocoo()
    return sorted(zip(m.row.tolist(), m.col.tolist(), np.asarray(m.data).tolist()))


def matrices(c):
    r = c.rng
    names = names_pool(c, r.i(1, 4))
    ids = r.sample(range(1, 8), len(names))
    mapping = dict(zip(names, ids))
    n, k = r.i(1, 7), r.i(1, 7)
    x = np.array([[r.choice(ids + [0, 0, 9]) for _ in range(k)] for _ in range(n)])
    plain = sp.csr_matrix(x)
    m = AliasCSRMatrix(r.choice([plain, x, sp.coo_matrix(x)]), mapping=mapping)
    c.note("matrix", x.tolist(), mapping)
    what = "matrix"
    for step in range(r.i(1, 4)):
        compare(c, m.data, plain.data, mapping, what)
        coo = m.tocoo()
        compare(c, coo.data, plain.tocoo().data, mapping, what + " coo")
        c.check(dense_ids(m) == dense_ids(plain), what + ": elements")
        c.check(m.format == "csr", "format")
        compare(c, m.tocsr().data, plain.data, mapping, what + " csr")
        n, k = plain.shape
        rows = sorted(r.sample(range(n), r.i(1, n)))
        op = r.choice(["slice", "rows", "columns", "both", "mask", "copy", "copy.copy", "deepcopy", "pickle", "same", "getrow", "astype"])
        what += " " + op
        if op == "slice":
            s = slice(rows[0], rows[-1] + 1)
            m, plain = m[s], plain[s]
        elif op == "rows":
            m, plain = m[rows], plain[rows]
        elif op == "columns":
            cols = sorted(r.sample(range(k), r.i(1, k)))
            m, plain = m[:, cols], plain[:, cols]
        elif op == "both":
            idx = [q for q in rows if q < k] or [0]
            m, plain = m[idx][:, idx], plain[idx][:, idx]
        elif op == "mask":
            mask = np.isin(np.arange(n), rows)
            m, plain = m[mask], plain[mask]
        elif op == "getrow":
            m, plain = m.getrow(rows[0]), plain.getrow(rows[0])
        elif op == "astype":
            m = m.astype(np.int64)
        else:
            m = {"copy": lambda: m.copy(), "copy.copy": lambda: copy.copy(m), "deepcopy": lambda: copy.deepcopy(m),
                 "pickle": lambda: pickle.loads(pickle.dumps(m)), "same": lambda: AliasCSRMatrix(m)}[op]()
    compare(c, m.data, plain.data, mapping, what)
    c.check(dense_ids(m) == dense_ids(plain), what + ": elements")
    c.count("matrices")
    c.sig(what, mapping, x.tolist())


def indices(c):
    """AliasIndex: every element carries the one name"""
    r = c.rng
    names = names_pool(c, 3)
    name = names[0]
    n = r.i(1, 6)
    shape = r.choice([n, (n,), (n, 1, 1)])
    orbs = r.choice([(1, 1), (2, 2), (2, 3)])
    ai = AliasIndex(SplitName(name), shape, orbs)
    c.note("index", name, shape)
    c.check(str(ai) == name and hash(ai) == hash(name), "the name of an index")
    c.equal(ai.eye, np.eye(*orbs), "identity matrix of an index")
    x = np.arange(n, dtype=float).reshape(shape)
    for query, answer in queries(c, names):
        want = name in answer
        c.check(bool(ai == query) is want and bool(ai != query) is (not want), "%r == %r" % (name, query))
        full = np.full(x.shape, want)
        c.equal(np.asarray(ai == query), full, "as an array")
        c.equal(np.asarray(ai != query), ~full, "as an array")
        c.equal(x[ai == query], x[full], "selection by the name")
        c.equal(x[ai != query], x[~full], "selection by another name")
        half = np.arange(n).reshape(x.shape) % 2 == 0
        c.equal(np.logical_and(half, ai == query), half & full, "and")
        c.equal(np.logical_or(half, ai != query), half | ~full, "or")
        y = x.copy()
        y[ai == query] += 1
        c.equal(y, x + full, "assignment to the selection")
        c.count("name comparisons", 2)
    s = SplitName(name)
    for query, answer in queries(c, names):
        c.check((s == query) is (name in answer) and (s != query) is (name not in answer), "SplitName %r == %r" % (name, query))
    c.check(hash(s) == hash(name) and {name: 1}[s] == 1 and {s: 1}[name] == 1 and s.first == name.split("|")[0], "SplitName as a key")
    c.count("indices")
    c.sig("index", name, shape, orbs)


def fuzzy(c):
    r = c.rng
    rtol, atol = r.choice([(1e-3, 1e-5), (0, 0.1), (0.1, 0)])
    item = lambda: r.choice([lambda: r.q(-2, 2, 4), lambda: np.array([r.q(-1, 1, 4) + r.choice([0, 1e-6, 0.05]) for _ in range(3)])])
    scalar = r.p(0.5)
    make = (lambda: r.q(-2, 2, 4) + r.choice([0, 1e-6, 0.05])) if scalar else (lambda: np.array([r.q(-1, 1, 2) + r.choice([0, 1e-6, 0.05]) for _ in range(3)]))
    close = lambda a, b: bool(np.allclose(a, b, rtol=rtol, atol=atol))

    def reference(items):
        kept = []
        for i in items:
            if not any(close(i, k) for k in kept):
                kept.append(i)
        return kept
    xs, ys = [make() for _ in range(r.i(0, 8))], [make() for _ in range(r.i(0, 8))]
    a, b = FuzzySet(xs, rtol, atol), FuzzySet(ys, rtol, atol)
    same = lambda s, want: len(s) == len(want) and all(np.array_equal(p, q) for p, q in zip(s, want))
    rx, ry = reference(xs), reference(ys)
    c.check(same(a, rx) and same(b, ry), "items of a fuzzy set")
    u = a + b
    c.check(same(u, reference(rx + ry)), "union of two fuzzy sets")
    c.check(same(a, rx) and same(b, ry), "fuzzy sets which were added")
    u.add(1000.0 if scalar else np.array([1000.0, 0, 0]))
    c.check(same(a, rx) and len(u) == len(reference(rx + ry)) + 1, "a set which was made by adding")
    c.check(same(sum([a, b]), reference(rx + ry)) and same(a, rx), "sum of fuzzy sets")
    for i in xs + ys:
        c.check((i in a) == any(close(i, k) for k in rx), "membership")
    a += ys
    c.check(same(a, reference(rx + ys)), "items added in place")
    c.note("fuzzy", len(xs), len(ys))
    c.count("fuzzy sets")
    c.sig("fuzzy", len(rx), len(ry), rtol, np.round(np.array(rx + ry, dtype=float), 6).tolist())


def models(c):
    """Sites, bonds and the arguments of modifiers selected by name"""
    r = c.rng
    nsub, nfam = r.i(1, 4), r.i(1, 3)
    subs, fams = names_pool(c, nsub), names_pool(c, nfam, True)
    a, b = r.q(0.8, 1.2), r.q(0.8, 1.2)
    lat = pb.Lattice(a1=[a, 0], a2=[0, b])
    pos = {}
    for k, s in enumerate(subs):
        pos[s] = np.array([0.125 * k * a, r.q(-0.3, 0.3), r.q(-0.2, 0.2)], dtype=np.float32)
        lat.add_one_sublattice(s, pos[s], 0.25 * k)
    lat.register_hopping_energies({f: 1.0 + k for k, f in enumerate(fams)})
    bonds = set()
    for _ in range(r.i(1, 5)):
        rel, s, t, f = (r.i(-1, 1), r.i(-1, 1)), r.choice(subs), r.choice(subs), r.choice(fams)
        key = (rel, s, t)
        if (rel == (0, 0) and s == t) or any(key == q or (tuple(-x for x in rel), t, s) == q for q in bonds):
            continue
        bonds.add(key)
        lat.add_one_hopping(rel, s, t, f)
    used = {f for f in fams if len(lat.hoppings[f].terms)}
    calls = {"onsite": [], "hop": [], "pos": [], "state": []}

    @pb.onsite_energy_modifier
    def onsite(energy, x, sub_id):
        for s in subs:
            energy[sub_id == s] += 10.0 * (1 + subs.index(s))
        calls["onsite"].append({q: bool(sub_id == q) for q, _ in queries(c, subs)} | {"": str(sub_id)})
        return energy

    @pb.hopping_energy_modifier
    def hop(energy, hop_id):
        for f in fams:
            energy[hop_id == f] += 10.0 * (1 + fams.index(f))
        calls["hop"].append({q: bool(hop_id == q) for q, _ in queries(c, fams)} | {"": str(hop_id)})
        return energy

    drop = r.choice(sorted({s.split("|")[0] for s in subs} | set(subs)))
    right = r.q(0, 1)

    @pb.site_state_modifier
    def state(state, x, sub_id, sites):
        calls["state"].append({q: bool(sub_id == q) for q, _ in queries(c, subs)} | {"": str(sub_id)})
        c.equal(np.asarray(sites.ids == drop).all(), sites.ids[0] == drop, "ids of the sites argument")
        state[np.logical_and(sub_id == drop, x > right)] = False
        return state

    parts = [pb.primitive(r.i(2, 4), r.i(2, 4))]
    mods = [m for m in (onsite, hop, state) if r.p(0.6)]
    if r.p(0.4):
        parts.append(pb.translational_symmetry(True, r.p(0.5)))
    try:
        model = pb.Model(lat, *parts, *mods)
        system = model.system
        h = model.hamiltonian
    except RuntimeError as e:
        if "no" in str(e).lower():
            raise CaseSkipped("empty system")
        raise
    c.note("subs", subs, "fams", fams, "bonds", sorted(bonds), "drop", drop, right, [m for m in calls if calls[m]])
    for kind, pool in (("onsite", subs), ("hop", fams), ("state", subs)):
        for call in calls[kind]:
            name = call[""]
            c.check(name in pool, "name given to a modifier: %r" % name)
            for q, answer in queries(c, pool):
                if q:
                    c.check(call[q] == (name in answer), "%s modifier: %r == %r gave %s" % (kind, name, q, call[q]))
                    c.count("name comparisons")
    mapping = {s: lat.sublattices[s].unique_id for s in subs}
    ids = np.asarray(system.sublattices)
    xyz = system.xyz
    # which sublattice each site belongs to: by its position
    which = []
    for p in xyz:
        hits = [s for s in subs if np.allclose(np.round((p[:2] - pos[s][:2]) / [a, b]), (p[:2] - pos[s][:2]) / [a, b], atol=1e-3)
                and abs(p[2] - pos[s][2]) < 1e-4]
        c.check(len(hits) == 1, "site at %s is of no sublattice or of several: %s" % (p, hits))
        which.append(hits[0])
    which = np.array(which)
    for q, answer in queries(c, subs):
        want = np.isin(which, list(answer)) if answer else np.zeros(len(which), dtype=bool)
        c.equal(np.asarray(system.sublattices == q), want, "sites which are called %r" % q)
        c.equal(np.asarray(system.sub != q), ~want, "sites which are not called %r" % q)
        sub = system[want] if want.any() else None
        if sub is not None:
            c.equal(np.asarray(sub.sublattices == q), np.ones(int(want.sum()), dtype=bool), "the names in a slice")
            near = xyz[r.i(0, len(xyz) - 1)]
            d = np.linalg.norm(xyz - near, axis=1)
            c.close(d[system._sites.find_nearest(near, q)], d[want].min(), "distance of the nearest site called %r" % q, 1e-5)
            order = system._sites.argsort_nearest(near, q)
            c.check(all(want[order[:int(want.sum())]]), "sites called %r do not come first when ordered by distance" % q)
            if q in subs:
                got = system.find_nearest(near, q)
                c.check(bool(want[got]), "nearest site of %r is of another sublattice" % q)
                c.close(d[got], d[want].min(), "distance of the nearest site", 1e-5)
        c.count("name comparisons", 3)
        state_drop = drop in (q,) and state in mods
        if state_drop:
            c.check(not np.any(want & (xyz[:, 0] > right + 1e-5)), "removed sites are still there")
    order = np.argsort(ids, kind="stable")
    # bonds by name: the family which connects the two sublattices with this cell distance
    fam_of = {}
    for f in fams:
        for t in lat.hoppings[f].terms:
            names = {lat.sublattices[s].unique_id: s for s in subs}
            s1, s2, rel = names[t.from_id], names[t.to_id], tuple(int(q) for q in t.relative_index[:2])
            fam_of[(s1, s2, rel)] = f
            fam_of[(s2, s1, tuple(-q for q in rel))] = f
    groups = [(system.hoppings, np.zeros(3))] + [(q.hoppings, q.shift) for q in system.boundaries]
    for hoppings, shift in groups:
        coo = hoppings.tocoo()
        if not coo.nnz:
            continue
        truth = []
        for i, j in zip(coo.row, coo.col):
            d = (xyz[j] - shift - pos[which[j]]) - (xyz[i] - pos[which[i]])
            rel = tuple(int(q) for q in np.round(d[:2] / [a, b]))
            truth.append(fam_of[(which[i], which[j], rel)])
        truth = np.array(truth)
        csr = hoppings.tocsr()
        for q, answer in queries(c, fams):
            want = np.isin(truth, list(answer)) if answer else np.zeros(len(truth), dtype=bool)
            c.equal(np.asarray(coo.data == q), want, "bonds which are called %r" % q)
            c.equal(np.asarray(coo.data != q), ~want, "bonds which are not called %r" % q)
            c.equal(np.asarray(csr.data == q), want, "bonds which are called %r (csr)" % q)
            c.count("name comparisons", 3)
    # and what the modifiers did through the names
    if onsite in mods:
        want = np.array([0.25 * subs.index(s) for s in which]) + sum(
            10.0 * (1 + subs.index(s)) * np.array([w == s or w.split("|")[0] == s for w in which]) for s in subs)
        if not groups[1:]:
            c.close(h.diagonal(), want, "onsite energies after the modifier", 1e-5)
    if hop in mods and not groups[1:]:
        coo = system.hoppings.tocoo()
        base = lambda f: 1.0 + fams.index(f) + sum(10.0 * (1 + fams.index(g)) for g in fams if f == g or f.split("|")[0] == g)
        id_of = {lat.hoppings[f].family_id: f for f in fams}
        want = sp.csr_matrix(([base(id_of[int(k)]) for k in coo.data], (coo.row, coo.col)), shape=h.shape).toarray()
        want = want + want.T
        got = h.toarray().copy()
        np.fill_diagonal(got, 0)
        c.close(got, want, "hopping energies after the modifier", 1e-5)
    c.count("models")
    c.seen("models", c.describe)
    c.sig(c.describe)


def random_case(c):
    r = c.rng
    r.choice([arrays, arrays, matrices, matrices, indices, fuzzy, models, models, models])(c)


def p_examples(c):
    a = AliasArray([0, 1, 0, 2], mapping={"A|1": 0, "B": 1, "A|2": 2})
    compare(c, a, [0, 1, 0, 2], {"A|1": 0, "B": 1, "A|2": 2}, "example")
    compare(c, a.reshape(2, 2), [[0, 1], [0, 2]], {"A|1": 0, "B": 1, "A|2": 2}, "2D example")
    m = AliasCSRMatrix(sp.csr_matrix(np.array([[1, 2], [2, 1]])), mapping={"A": 1, "B|x": 2})
    for q in (m, m.copy(), m[:], m.tocsr(), pickle.loads(pickle.dumps(m))):
        compare(c, q.data, [1, 2, 2, 1], {"A": 1, "B|x": 2}, "example matrix")
    c.sig("examples")


PINNED = {"examples": p_examples}
if __name__ == "__main__":
    pymon.main("C34", random_case, PINNED, "random names (some sharing their first part) for random id arrays, hopping matrices, modifier arguments and models; every comparison with a "
               "known, partial or unknown name must select exactly the elements which carry it, also after the array was sliced, copied or pickled; a case counts by its data")
