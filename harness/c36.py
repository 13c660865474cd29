"""C36: what is drawn is what is there: every site, bond, image and result appears in the plots where it belongs"""
import pymon
from pyplotrec import REC, LineCollection, Line3DCollection, Obj, rgb
import itertools
import math

import numpy as np
import pybinding as pb
import pygen
from pybinding import pltutils, system as pbsystem
from pybinding.results import Bands, Eigenvalues, NDSweep, Series, SpatialMap, Sweep
from pybinding.support.collections import Circle3DCollection, CircleCollection
from pymon import CaseSkipped
from scipy.sparse import coo_matrix
from scipy.spatial import cKDTree

TOL = 2e-4


def order(axes):
    axes = axes + "".join(a for a in "xyz" if a not in axes)
    return ["xyz".index(a) for a in axes]


def counts(points, among):
    if len(points) == 0 or len(among) == 0:
        return np.zeros(len(points), dtype=int)
    return np.asarray(cKDTree(among).query_ball_point(points, TOL, p=np.inf, return_length=True))


def same_multiset(c, got, want, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    c.check(got.shape == want.shape, "%s: %s drawn, %s expected" % (what, got.shape, want.shape))
    if len(want):
        a, b = counts(want, got), counts(want, want)
        c.check(np.all(a == b), "%s: %s drawn %s times instead of %s" % (
            what, want[np.argmax(a != b)], a[np.argmax(a != b)], b[np.argmax(a != b)]))


def both_ways(rows, dim):
    """Segments (p, q, extra...) in both directions"""
    rows = np.asarray(rows, float)
    return rows if len(rows) == 0 else np.vstack([rows, np.hstack([rows[:, dim:2 * dim], rows[:, :dim], rows[:, 2 * dim:]])])


def included(c, rows, among, dim, what):
    if len(rows) == 0:
        return
    n = counts(np.asarray(rows, float), both_ways(among, dim))
    c.check(np.all(n > 0), "%s: %s (%d of %d)" % (what, np.asarray(rows)[np.argmin(n)], np.sum(n == 0), len(rows)))


def images(shifts, levels):
    """Every image which can be reached in at most so many steps across a boundary, with the number of steps"""
    found = [(np.zeros(3), 0)]
    for level in range(1, levels + 1):
        for s, l in list(found):
            if l != level - 1:
                continue
            for b in shifts:
                for sign in (1, -1):
                    t = s + sign * b
                    if not any(np.allclose(t, f, atol=1e-3) for f, _ in found):
                        found.append((t, level))
    return found


class Thing:
    """Positions, ids, bonds and boundaries of something which can be plotted"""
    def subset(self, mask):
        t = Thing.__new__(Thing)
        new = {int(k): i for i, k in enumerate(np.flatnonzero(mask))}
        part = lambda hops: [(new[i], new[j], h) for i, j, h in hops if i in new and j in new]
        t.pos, t.ids, t.bonds = self.pos[mask], self.ids[mask], part(self.bonds)
        t.boundaries = [(b, part(hops)) for b, hops in self.boundaries]
        return t

    def __init__(self, s):
        self.pos = np.array(s.positions, dtype=float).T.reshape(-1, 3)
        self.ids = np.array(s.sublattices, dtype=float)
        coo = s.hoppings.tocoo()
        self.bonds = list(zip(coo.row.tolist(), coo.col.tolist(), np.asarray(coo.data).tolist()))
        self.boundaries = []
        for b in s.boundaries:
            coo = b.hoppings.tocoo()
            self.boundaries.append((np.array(b.shift, dtype=float),
                                    list(zip(coo.row.tolist(), coo.col.tolist(), np.asarray(coo.data).tolist()))))


def site_rows(cols, dim):
    """(coordinates, value, radius) of every circle"""
    rows = []
    for col in cols:
        if dim == 2:
            xy = np.asarray(col.get_offsets(), float)
        else:
            xy = np.array(col._offsets3d, float).T
        rad = np.broadcast_to(np.asarray(col.radius, float), (len(xy),))
        rows.append(np.column_stack([xy, np.asarray(col.get_array(), float), rad]))
    return np.vstack(rows) if rows else np.zeros((0, dim + 2))


def check_zorder(c, thing, col, o, shift):
    """Circles drawn later are nearer"""
    z = thing.pos[:, o[2]]
    if len(np.unique(z)) < 2:
        return
    xy = np.asarray(col.get_offsets(), float)
    where = thing.pos[:, o[:2]] + np.asarray(shift)[o[:2]]
    current = -np.inf
    used = set()
    for p in xy:
        near = [k for k in np.flatnonzero(np.all(np.abs(where - p) < TOL, axis=1)) if k not in used and z[k] >= current - 1e-6]
        if not near:
            c.violation("the circle at %s is drawn after one which is in front of it" % p)
        k = min(near, key=lambda i: z[i])
        used.add(k)
        current = max(current, z[k])
    c.count("z orders checked")


def verify_structure(c, thing, axes, dim, levels, radius, values, draw_only_ids, with_ids, site_on=True, hop_on=True,
                     colors=None, lead_length=None, ax=None):
    """Everything on the current axes against what is there"""
    ax = ax or REC.ax
    o = order(axes)
    circles = [k for k in ax.collections if isinstance(k, CircleCollection)]
    lines = [k for k in ax.collections if isinstance(k, LineCollection)]
    imgs = images([b[0] for b in thing.boundaries], levels)
    n = len(thing.pos)
    # sites
    want = []
    for s, _ in imgs:
        p = (thing.pos + s)[:, o][:, :dim]
        want.append(np.column_stack([p, values, radius * np.ones(n)]))
    want = np.vstack(want)
    got = site_rows(circles, dim)
    if not site_on:
        c.check(len(circles) == 0, "sites drawn although their radius is zero")
    else:
        if dim == 2 and np.isscalar(radius):
            if len(got):
                c.check(np.all((got[:, -1] >= 0.849 * radius) & (got[:, -1] <= 1.301 * radius)),
                        "a radius of %s was asked for: drawn with %s" % (radius, got[:, -1]))
            same_multiset(c, got[:, :-1], want[:, :-1], "sites (position, value)")
        else:
            if dim == 3:
                want[:, -1] /= 8
            same_multiset(c, got, want, "sites (position, value, radius)")
        for col in circles:
            xy = site_rows([col], dim)
            shift = None
            for s, _ in imgs:  # the image of this collection
                p = (thing.pos + s)[:, o][:, :dim]
                if len(xy) == n and np.all(counts(p, xy[:, :dim]) > 0):
                    shift = s
            c.check(shift is not None, "one collection is not one image")
            if dim == 2:
                check_zorder(c, thing, col, o, shift)
        c.count("sites compared", len(want))
        c.count("images compared", len(imgs))
    # bonds
    inner, inner_ok, cross, cross_needed = [], [], [], []
    keep = lambda h: draw_only_ids is None or h in draw_only_ids
    for s, level in imgs:
        p = (thing.pos + s)[:, o][:, :dim]
        inner += [np.concatenate([p[i], p[j], [h]]) for i, j, h in thing.bonds if keep(h)]
    for (s, ls), (b, hops) in itertools.product(imgs, thing.boundaries):
        other = [(t, lt) for t, lt in imgs if np.allclose(t, s + b, atol=1e-3)]
        if not other:
            continue
        p, q = (thing.pos + s + b)[:, o][:, :dim], (thing.pos + s)[:, o][:, :dim]
        rows = [np.concatenate([p[i], q[j], [h]]) for i, j, h in hops if keep(h)]
        cross += rows
        if min(ls, other[0][1]) < levels:
            cross_needed += rows
    drawn_in, drawn_cross, every = [], [], []
    for col in lines:
        m = len(col.lines)
        if m == 0:
            continue
        seg = col.lines.reshape(m, -1)
        c.check(seg.shape[1] == 2 * dim, "segments in %d dimensions" % (seg.shape[1] / 2))
        ids = np.asarray(col.get_array(), float) if with_ids else np.zeros(m)
        rows = np.column_stack([seg, ids])
        every.append(rows)
        if colors is not None:
            col_rgb = np.asarray(rgb(col.kwargs["colors"]), float)
            red = col_rgb[0] > col_rgb[1] + 0.05
            (drawn_cross if red else drawn_in).append(rows)
    strip = (lambda rows: np.asarray(rows, float)) if with_ids else \
        (lambda rows: np.hstack([np.asarray(rows, float)[:, :-1], np.zeros((len(rows), 1))]) if len(rows) else np.zeros((0, 2 * dim + 1)))
    inner, cross, cross_needed = strip(inner), strip(cross), strip(cross_needed)
    every = np.vstack(every) if every else np.zeros((0, 2 * dim + 1))
    if not hop_on:
        c.check(len(every) == 0, "bonds drawn although their width is zero")
        return
    if colors is not None:
        drawn_in = np.vstack(drawn_in) if drawn_in else np.zeros((0, 2 * dim + 1))
        drawn_cross = np.vstack(drawn_cross) if drawn_cross else np.zeros((0, 2 * dim + 1))
        same_multiset(c, both_ways(drawn_in, dim), both_ways(inner, dim), "bonds inside the images")
        included(c, drawn_cross, cross, dim, "a bond between images is drawn which is not there")
        included(c, cross_needed, drawn_cross, dim, "a bond between images is missing")
    else:
        among = np.vstack([k for k in (inner, cross) if len(k)]) if len(inner) + len(cross) else np.zeros((0, 2 * dim + 1))
        included(c, every, among, dim, "a bond is drawn which is not there")
        included(c, inner, every, dim, "a bond inside an image is missing")
        included(c, cross_needed, every, dim, "a bond between images is missing")
    c.count("bonds compared", len(inner) + len(cross_needed))


def verify_limits(c):
    """Whatever is drawn is inside the limits of the axes"""
    ax = REC.ax
    pts = ax.points()
    if ax.name == "3d" or not len(pts):
        return
    for i, k in enumerate("xy"):
        lo, hi = ax.lim[k]
        c.check(lo <= pts[:, i].min() + 1e-9 and hi >= pts[:, i].max() - 1e-9,
                "%s limits (%s, %s) leave out something in [%s, %s]" % (k, lo, hi, pts[:, i].min(), pts[:, i].max()))
    c.count("limits compared")


def small_model(c, ndim=None, periodic=None):
    r = c.rng
    lat = pygen.Lat(c, ndim=ndim, multi=False, max_sub=3, max_hop=4)
    if lat.ndim == 2 and r.p(0.3):  # as on a triangular lattice: images which touch the original one also touch each other
        sub = r.choice(list(lat.subs))
        there = {(h[0], h[1], h[2]) for h in lat.hops}
        for rel in ((1, 0, 0), (0, 1, 0), r.choice([(1, -1, 0), (1, 1, 0)])):
            if (rel, sub, sub) not in there and (tuple(-k for k in rel), sub, sub) not in there:
                lat.hops.append((rel, sub, sub, r.q(0.5, 2)))
        c.note("as on a triangular lattice", sub)
    periodic = r.p(0.6) if periodic is None else periodic
    if periodic:
        args = [r.choice([True, True, False, 2]) if i < lat.ndim else False for i in range(3)]
        if not any(args):
            args[0] = True
        c.note("symmetry", args)
        n = [r.i(1, 3) for _ in range(lat.ndim)]
        sym = pb.translational_symmetry(*[False if a is False else True if a is True else a * lat.vectors[i][i] * 1.2
                                          for i, a in enumerate(args)][:3])
        items = [sym]
        if any(a is False for a in args[:lat.ndim]):
            items.append(pb.primitive(*n))
    else:
        items = [pb.primitive(*[r.i(1, 4 if lat.ndim < 3 else 2) for _ in range(lat.ndim)])]
    if r.p(0.2):
        items.append(pb.force_double_precision())
    try:
        m = pb.Model(lat.build(), *items)
        if m.system.num_sites == 0:
            raise CaseSkipped("no sites")
    except RuntimeError as e:
        raise CaseSkipped("refused: %s" % str(e)[:60])
    return lat, m


def rand_axes(c):
    return c.rng.choice(["xy", "xy", "xy", "yx", "xz", "yz", "zx", "zy", "xyz", "zyx"])


def structure_case(c):
    r = c.rng
    lat, m = small_model(c)
    s = m.system
    dim = 3 if r.p(0.15) else 2
    axes = rand_axes(c)
    levels = r.choice([1, 1, 2]) if lat.ndim < 3 else 1
    kind = r.choice(["system", "model", "slice", "map", "map", "cropped"])
    c.note(kind, axes, "dim", dim, "levels", levels)
    thing = Thing(s)
    mask = np.array([r.p(0.7) for _ in range(s.num_sites)])
    mask[0] = True
    if kind == "slice":
        thing_obj = s[r.choice([mask, np.flatnonzero(mask)])]
        thing = thing.subset(mask)
    elif kind == "cropped":
        lo, hi = sorted([r.q(-3, 3), r.q(-3, 3)])
        mask = (s.x >= lo) & (s.x < hi)
        if not mask.any():
            raise CaseSkipped("nothing left after cropping")
        thing_obj = s.cropped(x=[lo, hi])
        thing = thing.subset(mask)
    elif kind == "map":
        data = np.array([r.choice([r.q(-2, 2), 1.0, 0.0, -0.5]) for _ in range(s.num_sites)]) if r.p(0.8) else np.full(s.num_sites, 0.5)
        thing_obj = s.with_data(data)
        if r.p(0.3):
            thing_obj = thing_obj[mask]
            thing = thing.subset(mask)
    else:
        thing_obj = s
    before = [thing.pos.copy(), thing.ids.copy(), list(thing.bonds), [list(b[1]) for b in thing.boundaries]]
    kwargs = dict(axes=axes, num_periods=levels)
    site, hopping, boundary = {}, {}, {}
    site_on = hop_on = True
    n = len(thing.pos)
    values, radius = thing.ids, None
    if kind == "map":
        values = np.asarray(thing_obj.data, float)
        if r.p(0.6):
            lo, hi = sorted([r.q(0.01, 0.1, 1024), r.q(0.02, 0.2, 1024)])
            kwargs["site_radius"] = r.choice([tuple, list])([lo, hi])
        else:
            lo, hi = 0.03, 0.05
        if r.p(0.2):
            radius = kwargs["site_radius"] = r.q(0.02, 0.1, 1024)
        elif np.ptp(values) < 1e-8:
            radius = hi
        else:
            radius = lo + (hi - lo) * (values - values.min()) / np.ptp(values)
        if r.p(0.3):
            kwargs["cmap"] = "viridis"
        elif r.p(0.3):
            kwargs["cmap"] = ["#%06x" % (k * 4000) for k in range(n)]
    else:
        if r.p(0.3):
            radius = site["radius"] = r.q(0.02, 0.1, 1024)
        elif r.p(0.3):
            radius = site["radius"] = np.array([r.q(0.02, 0.2, 1024) for _ in range(n)])
        elif r.p(0.1):
            radius = site["radius"] = 0
            site_on = False
        if r.p(0.3):
            site["cmap"] = r.choice(["auto", "pairs", ["red", "green", "blue", "#123456", "#654321", "#abcdef"], "viridis"])
    if radius is None:
        radius = float(m.lattice.site_radius_for_plot())
    with_ids = False
    if r.p(0.4):
        hopping["cmap"] = r.choice(["auto", "viridis", ["red", "green"]])
        with_ids = True
    draw_only_ids = None
    names = dict(m.lattice.hoppings)
    if r.p(0.3) and names:
        chosen = r.sample(sorted(names), r.i(1, len(names)))
        hopping["draw_only"] = chosen
        draw_only_ids = {float(names[k].family_id) for k in chosen}
        c.note("draw_only", chosen)
    if r.p(0.1):
        hopping["width"], hop_on = 0, False
    elif r.p(0.3):
        hopping["width"] = r.q(0.2, 3)
    colors = True
    if kind == "map" and "cmap" in hopping or "cmap" in hopping:
        colors = None  # drawn with the colors of the map
    if r.p(0.1):
        boundary["color"] = "#123456"
        colors = None
    kwargs["sites" if r.p(0.3) else "site"] = site
    kwargs["hoppings" if r.p(0.3) else "hopping"] = hopping
    if boundary:
        kwargs["boundary"] = boundary
    given = [dict(site), dict(hopping), dict(boundary)]
    REC.new("3d" if dim == 3 else "rectilinear")
    (m if kind == "model" else thing_obj).plot(**kwargs)
    c.check([list(site), list(hopping), list(boundary)] == [list(g) for g in given] and
            all(np.all(a[k] == b[k]) for a, b in zip((site, hopping, boundary), given) for k in a),
            "plotting changed the arguments which it was given: %s %s" % (site, hopping))
    verify_structure(c, thing, axes, dim, levels, radius, values, draw_only_ids, with_ids, site_on, hop_on, colors)
    verify_limits(c)
    if dim == 2 and REC.ax.collections:
        check_colors(c, thing, kind, site, kwargs)
    after = Thing(thing_obj)
    c.check(np.array_equal(after.pos, before[0]) and np.array_equal(after.ids, before[1]) and after.bonds == before[2] and
            [b[1] for b in after.boundaries] == before[3], "plotting changed the structure")
    labels = dict((n_, a[0]) for n_, a, _ in REC.calls if n_ in ("xlabel", "ylabel"))
    if dim == 2:
        c.equal([labels.get("xlabel"), labels.get("ylabel")], ["%s (nm)" % axes[0], "%s (nm)" % axes[1]], "axis labels")
    c.count("structures plotted")
    c.count("plots: %s" % kind)
    c.sig(kind, axes, dim, levels, n, len(thing.bonds), len(thing.boundaries), with_ids, site_on, hop_on)
    c.nontrivial = True


PALETTE = ['#377ec8', '#ff7f00', '#41ae76', '#e41a1c', '#984ea3', '#ffff00', '#a65628', '#f781bf']


def check_colors(c, thing, kind, site, kwargs):
    """Sites of one sublattice have one color, sites of different sublattices different ones"""
    circles = [k for k in REC.ax.collections if isinstance(k, CircleCollection)]
    if kind == "map":
        for col in circles:  # a list of colors: one for each of the different values, in order
            if isinstance(kwargs.get("cmap"), list):
                idx = col.kwargs["norm"].index(np.asarray(col.get_array(), float))
                value = np.unique(np.asarray(col.get_array()))
                c.equal(idx, np.searchsorted(value, np.asarray(col.get_array())), "colors of the values")
                c.count("maps with discrete colors")
        return
    if not circles or site.get("cmap") == "viridis":
        return
    for col in circles:
        cmap, norm = col.kwargs["cmap"], col.kwargs["norm"]
        idx = norm.index(np.asarray(col.get_array(), float))
        c.check(np.all(idx >= 0) and np.all(idx < len(cmap.colors)), "colors %s for ids %s" % (idx, np.unique(col.get_array())))
        seen = {}
        for i, k in zip(np.asarray(col.get_array()).tolist(), idx.tolist()):
            c.check(seen.setdefault(i, k) == k, "one sublattice, two colors")
        c.check(len(set(seen.values())) == len(seen), "two sublattices have the same color: %s" % seen)
        c.check(all(seen[i] == int(i) for i in seen), "sublattice ids %s get colors number %s" % (list(seen), list(seen.values())))
    first = circles[0].kwargs["cmap"].colors
    if "cmap" not in site or site["cmap"] == "auto":
        for i, k in enumerate(first):
            c.close(rgb(k), rgb(PALETTE[i]), "color number %d" % i, 1e-6)
    c.count("colors checked")


def model_case(c):
    """Model.plot and Lead.plot: the system and the repeated leads"""
    r = c.rng
    lat = pygen.Lat(c, ndim=2, multi=False, max_sub=2, max_hop=4)
    w = r.q(2, 4)
    try:
        m = pb.Model(lat.build(), pb.rectangle(w, w))
        if m.system.num_sites == 0:
            raise CaseSkipped("no sites")
        for axis in ([1, -1, 2, -2] if r.p(0.5) else [r.choice([1, -1, 2, -2])]):
            n = len(m.leads)
            line = pb.line([0, -w / 3], [0, w / 3]) if abs(axis) == 1 else pb.line([-w / 3, 0], [w / 3, 0])
            m.attach_lead(axis, line)
            list(m.leads)
    except RuntimeError as e:
        raise CaseSkipped("refused: %s" % str(e)[:60])
    axes = r.choice(["xy", "yx"])
    length = r.i(1, 4)
    o = order(axes)
    lead_only = r.p(0.5)
    c.note("leads", len(m.leads), axes, length, "lead only", lead_only)
    ax = REC.new()
    if lead_only:
        lead = r.choice(list(m.leads))
        lead.plot(lead_length=length, axes=axes)
        parts, system = [lead], None
    else:
        m.plot(lead_length=length, axes=axes)
        parts, system = list(m.leads), Thing(m.system)
    rad = float(m.lattice.site_radius_for_plot())
    want, bonds = [], []
    if system:
        want.append(np.column_stack([system.pos[:, o[:2]], system.ids]))
        bonds += [np.concatenate([system.pos[i, o[:2]], system.pos[j, o[:2]]]) for i, j, _ in system.bonds]
    for lead in parts:
        t = Thing(lead.system)
        shift = t.boundaries[0][0]
        for k in range(length):
            p = (t.pos + k * shift)[:, o[:2]]
            want.append(np.column_stack([p, t.ids]))
            bonds += [np.concatenate([p[i], p[j]]) for i, j, _ in t.bonds]
        # between one unit and the one before it (the first also reaches back into the system)
        for k in range(length):
            for b, hops in t.boundaries:
                along = np.dot(b, shift) > 0
                at = t.pos + (k - 1 if along else k) * shift
                bonds += [np.concatenate([(at + b)[i, o[:2]], at[j, o[:2]]]) for i, j, _ in hops]
    rows = site_rows([k for k in ax.collections if isinstance(k, CircleCollection)], 2)
    c.check(np.all((rows[:, -1] >= 0.849 * rad) & (rows[:, -1] <= 1.301 * rad)), "radius of the sites")
    same_multiset(c, rows[:, :-1], np.vstack(want), "sites of the system and its leads")
    drawn = [k.lines.reshape(len(k.lines), -1) for k in ax.collections if isinstance(k, LineCollection) and len(k.lines)]
    drawn = np.vstack(drawn) if drawn else np.zeros((0, 4))
    same_multiset(c, both_ways(drawn, 2), both_ways(np.array(bonds).reshape(-1, 4), 2), "bonds of the system and its leads")
    labels = [a[0] for a, _ in REC.of("annotate")]
    c.equal(sorted(labels), sorted("lead %d" % k.index for k in parts), "labels of the leads")
    verify_limits(c)
    if parts:
        lead = r.choice(parts)
        REC.new()
        lead.plot_contact()
        poly = REC.ax.patches
        a, b = (np.asarray(v, float)[:2] for v in lead.impl.spec.shape.vertices)
        c.check(len(poly) == 2, "two patches for the contact")
        c.close(poly[0].xy, [a, b], "contact line", 1e-5)
        w = 0.3 * np.array(REC.of("arrow")[0][0][2:4])
        c.close(poly[1].xy, [a - w, a + w, b + w, b - w], "shade of the contact", 1e-5)
        (args, _), = REC.of("arrow")
        vec = np.array(lat.vectors[lead.impl.spec.axis], float)[:2] * lead.impl.spec.sign
        c.close(args[:2], (a + b) / 2, "the arrow starts in the middle of the contact", 1e-5)
        c.close(np.cross(np.append(args[2:4], 0), np.append(vec, 0)), np.zeros(3), "the arrow points along the lead", 1e-5, scale=1)
        c.check(np.dot(args[2:4], vec) > 0, "the arrow points away from the lead")
        c.close(np.linalg.norm(args[2:4]), 0.5 * np.linalg.norm(a - b), "length of the arrow", 1e-5)
    c.count("leads plotted", len(parts))
    c.sig("model", axes, length, len(parts), len(want))
    c.nontrivial = True


def direct_case(c):
    """plot_sites and plot_hoppings called directly: offsets, and nothing of the caller's is changed"""
    r = c.rng
    n = r.i(1, 8)
    pos = tuple(np.array([r.q(-3, 3) for _ in range(n)]) for _ in range(3))
    if r.p(0.4):
        pos = pos[:2] + (np.zeros(n),)
    dim = 3 if r.p(0.3) else 2
    axes, offset = rand_axes(c), np.array([r.q(-2, 2) for _ in range(3)]) if r.p(0.7) else (0, 0, 0)
    o = order(axes)
    data = np.array([r.i(0, 4) for _ in range(n)]) if r.p(0.5) else np.array([r.q(-1, 1) for _ in range(n)])
    radius = r.q(0.01, 0.2, 1024) if r.p(0.5) else np.array([r.q(0.01, 0.2, 1024) for _ in range(n)])
    copies = [v.copy() for v in pos], data.copy(), np.copy(radius)
    ax = REC.new("3d" if dim == 3 else "rectilinear")
    col = pbsystem.plot_sites(pos, data, radius=radius, offset=offset, axes=axes, cmap="viridis")
    c.check(ax.collections == [col], "the returned collection is the one drawn")
    c.check(all(np.array_equal(a, b) for a, b in zip(pos, copies[0])) and np.array_equal(data, copies[1]) and
            np.array_equal(radius, copies[2]), "plot_sites changed its arguments")
    rows = site_rows([col], dim)
    want = np.column_stack([(np.array(pos).T + np.asarray(offset))[:, o][:, :dim], data,
                            np.asarray(radius) / (8 if dim == 3 else 1) * np.ones(n)])
    if dim == 2 and np.isscalar(radius):
        rows, want = rows[:, :-1], want[:, :-1]
    same_multiset(c, rows, want, "sites")
    if dim == 3:  # as seen from somewhere: everything is reordered together
        view = np.array([[r.q(-1, 1) for _ in range(3)] for _ in range(3)]) + 2 * np.eye(3)
        for _ in range(2):  # drawing twice changes nothing
            col.do_3d_projection(Obj(M=view))
            xyz = np.array(want[:, :3]) @ view.T
            got = np.column_stack([np.asarray(col.get_offsets(), float), np.asarray(col.get_array(), float),
                                   np.broadcast_to(np.asarray(col.radius, float), (n,))])
            same_multiset(c, got, np.column_stack([xyz[:, :2], want[:, 3:]]), "projected circles (position, value, radius)")
        c.count("projections")
    k = r.i(0, 10)
    pairs = r.sample(list(itertools.product(range(n), repeat=2)), min(k, n * n))
    ids = np.array([r.i(0, 3) for _ in pairs])
    hop = coo_matrix((ids, ([p[0] for p in pairs], [p[1] for p in pairs])), shape=(n, n))
    given = hop if r.p(0.7) else hop.tocsr()
    before = hop.copy(), given.nnz
    only = r.sample(range(4), r.i(1, 3)) if r.p(0.5) else ()
    boundary = (r.choice([1, -1]), np.array([r.q(-3, 3) for _ in range(3)])) if r.p(0.5) else ()
    c.note(n, axes, "bonds", pairs, ids.tolist(), "draw only", only, "boundary", boundary)
    ax = REC.new("3d" if dim == 3 else "rectilinear")
    col = pbsystem.plot_hoppings(pos, given, offset=offset, axes=axes, boundary=boundary, draw_only=only, cmap="auto")
    c.check(given.nnz == before[1] and np.array_equal(hop.data, before[0].data) and np.array_equal(hop.row, before[0].row) and
            np.array_equal(hop.col, before[0].col), "plot_hoppings changed the matrix which it was given")
    if not pairs:
        c.check(not ax.collections, "nothing to draw")
    else:
        full = np.array(pos).T + np.asarray(offset)
        a, b = full.copy(), full.copy()
        if boundary:
            if boundary[0] > 0:
                a = a + boundary[1]
            else:
                b = b - boundary[1]
        want = [np.concatenate([a[i][o][:dim], b[j][o][:dim], [h]]) for (i, j), h in zip(pairs, ids) if not only or h in only]
        got = np.column_stack([col.lines.reshape(len(col.lines), -1), np.asarray(col.get_array(), float)]) if len(col.lines) else []
        same_multiset(c, np.asarray(got).reshape(-1, 2 * dim + 1), np.array(want).reshape(-1, 2 * dim + 1), "bonds")
    f, fore, back = r.q(0, 1), tuple(r.q(0, 1) for _ in range(3)), tuple(r.q(0, 1) for _ in range(3))
    c.close(np.array(pltutils.blend_colors(fore, back, f)), f * np.array(fore) + (1 - f) * np.array(back), "blended color", 1e-6)
    if pairs:
        REC.new("rectilinear")
        col = pbsystem.plot_hoppings(pos, given, color=fore, blend=f)
        c.close(np.array(col.kwargs["colors"], float).reshape(-1, 3)[0], f * np.array(fore) + (1 - f), "color of the bonds", 1e-6)
        REC.new("rectilinear")
        many = [tuple(r.q(0, 1) for _ in range(3)) for _ in range(int(ids.max()) + 1)]
        col = pbsystem.plot_hoppings(pos, given, cmap=many, blend=f)
        got = np.array(col.kwargs["cmap"].colors, float)
        c.check(len(got) >= len(many), "one color for each hopping")
        for k in range(len(many)):
            c.close(got[k], f * np.array(many[k]) + (1 - f), "color of hopping %d" % k, 1e-6)
    c.count("direct plots")
    c.sig("direct", n, axes, dim, len(pairs), bool(boundary), bool(only))
    c.nontrivial = True


def labels_case(c):
    """plot_site_indices, plot_hopping_values and the labels of Lattice.plot"""
    r = c.rng
    lat, m = small_model(c, ndim=r.choice([1, 2]))
    s = m.system
    t = Thing(s)
    REC.new()
    pbsystem.plot_site_indices(s)
    got = [(a[0], tuple(a[1])) for a, _ in REC.of("annotate")]
    c.check(len(got) == len(t.pos), "one label for each site")
    for i, (text, xy) in enumerate(got):
        c.check(int(text) == i, "label %s of site %d" % (text, i))
        c.close(xy, t.pos[i, :2], "place of label %d" % i, 1e-5)
    REC.new()
    pbsystem.plot_hopping_values(s)
    name = {h.family_id: k for k, h in m.lattice.hoppings.items()}
    want = [(name[int(h)], (t.pos[i] + t.pos[j])[:2] / 2) for i, j, h in t.bonds]
    for b, hops in t.boundaries:
        for i, j, h in hops:
            want += [(name[int(h)], (t.pos[i] + t.pos[j] + b)[:2] / 2), (name[int(h)], (t.pos[i] + t.pos[j] - b)[:2] / 2)]
    texts = sorted(set(w[0] for w in want))
    row = lambda text, xy: [texts.index(text) if text in texts else -1, xy[0], xy[1]]
    same_multiset(c, np.array([row(str(a[0]), a[1]) for a, _ in REC.of("annotate")]).reshape(-1, 3),
                  np.array([row(*w) for w in want]).reshape(-1, 3), "labels of the bonds")
    REC.new()
    latt = m.lattice
    latt.plot(vector_position=r.choice(["center", None, [0.5, 0.25]]))
    texts = [str(a[0]) for a, _ in REC.of("annotate")]
    for sub, (pos, _, _) in lat.subs.items():
        if sub in latt._visible_sublattices("xy"):
            at = [a[1] for a, _ in REC.of("annotate") if str(a[0]) == sub]
            c.check(len(at) == 1, "one label for sublattice %s: %s" % (sub, texts))
            c.close(np.asarray(at[0]), np.array(pos[:2]), "place of the label of %s" % sub, 1e-5)
    for h in latt.hoppings.values():
        for term in h.terms:
            rel = np.array(term.relative_index)
            if tuple(rel[:2]) != (0, 0):
                for v in (rel, -rel):
                    text = "[" + ", ".join(str(k) for k in v[:latt.ndim]) + "]"
                    at = [np.asarray(a[1], float) for a, _ in REC.of("annotate") if str(a[0]) == text]
                    c.check(len(at) >= 1, "no label for the neighboring cell %s: %s" % (text, texts))
                    center = sum(np.array(p[0], float) for p in lat.subs.values()) / len(lat.subs)
                    to = center + sum(float(k) * np.array(w, float) for k, w in zip(v, lat.vectors))
                    c.check(any(np.allclose(p, 1.05 * to[:2], atol=1e-4) for p in at), "place of the label of cell %s" % text)
    verify_limits(c)
    vectors_case(c, lat, latt)
    c.count("labels compared", len(got) + len(want))
    c.sig("labels", len(got), len(want))
    c.nontrivial = True


def check_arrows(c, vectors, position, scale, name):
    arrows, texts = [a for a, _ in REC.of("arrow")], [(str(a[0]), np.asarray(a[1], float)) for a, _ in REC.of("annotate")]
    seen = [(i, np.array(v, float)[:2] * scale) for i, v in enumerate(vectors) if np.linalg.norm(np.array(v, float)[:2]) > 1e-6]
    c.check(len(arrows) == len(seen), "%d arrows for %d vectors" % (len(arrows), len(seen)))
    for args, (i, v) in zip(arrows, seen):
        c.close(args[:2], position, "start of arrow %d" % i, 1e-5, scale=1)
        c.close(args[2:4], v, "arrow %d" % i, 1e-5, scale=1)
        at = [xy for t, xy in texts if t == "${}_{}$".format(name, i + 1)]
        c.check(len(at) == 1, "label of arrow %d" % i)
        c.close(at[0], np.asarray(position) + v / 2, "place of the label of arrow %d" % i, 1e-5, scale=1)


def vectors_case(c, lat, latt):
    """Lattice.plot_vectors and plot_brillouin_zone"""
    r = c.rng
    at, scale = [r.q(-2, 2), r.q(-2, 2)], r.q(0.2, 2)
    REC.new()
    latt.plot_vectors(at, scale)
    check_arrows(c, lat.vectors, at, scale, "a")
    up = pb.Lattice(lat.vectors[0], [0.0, 0.0, r.q(0.5, 2)]) if lat.ndim == 1 else None
    if up is not None:  # only what has a length in the plane is drawn
        REC.new()
        up.plot_vectors(at, scale)
        check_arrows(c, up.vectors, at, scale, "a")
    REC.new()
    decorate = r.p(0.7)
    latt.plot_brillouin_zone(**({} if decorate else dict(decorate=False)))
    bz = latt.brillouin_zone()
    if lat.ndim == 1:
        (args, _), = REC.of("plot")
        c.close(args[0], bz, "ends of the Brillouin zone", 1e-9)
        (args, _), = REC.of("xticks")
        c.close(args[0], [bz[0], 0, bz[1]], "ticks", 1e-9)
        return
    (poly,) = REC.ax.patches
    c.close(poly.xy, np.array(bz), "outline of the Brillouin zone", 1e-9)
    texts = [a for a, _ in REC.of("annotate")]
    if decorate:
        check_arrows(c, latt.reciprocal_vectors(), [0, 0], 1, "b")
        for v in bz:
            text = "[" + ", ".join(pb.utils.x_pi(k) for k in v) + "]"
            c.check(any(str(a[0]) == text and np.allclose(a[1], 1.05 * v, atol=1e-6) for a in texts), "no label %s: %s" % (text, texts))
    else:
        c.check(not texts and not REC.of("arrow"), "decorations although there should be none")
    for i, k in enumerate("xy"):
        lo, hi = REC.ax.lim[k]
        c.check(hi - lo >= 2 * np.ptp(np.array(bz)[:, i]) - 1e-6, "the Brillouin zone is cut off")


def series_case(c):
    r = c.rng
    n, k = r.i(2, 8), r.i(0, 3)
    x = np.sort(np.array([r.q(-3, 3) for _ in range(n)])) if r.p(0.5) else np.array([r.q(-3, 3) for _ in range(n)])
    y = np.array([[r.q(-3, 3) for _ in range(k)] for _ in range(n)]) if k else np.array([r.q(-3, 3) for _ in range(n)])
    REC.new()
    s = Series(x, y, labels=dict(variable="E", data="DOS", title="t", columns="orbitals") if r.p(0.5) else None)
    s.plot(lw=2)
    (args, kwargs), = REC.of("plot")
    c.equal(args[0], x, "x of the line")
    c.equal(args[1], y, "y of the line")
    c.check(kwargs == dict(lw=2), "forwarded arguments %s" % kwargs)
    c.equal(REC.ax.lim["x"], [x.min(), x.max()] if x.min() < x.max() else [x.min() - 0.05, x.max() + 0.05], "limits")
    c.equal([REC.of("xlabel")[0][0][0], REC.of("ylabel")[0][0][0]], [s.labels["variable"], s.labels["data"]], "labels")
    c.check(len(REC.of("legend")) == (1 if k else 0), "legend")
    if k:
        (_, kw), = REC.of("legend")
        c.equal(kw["labels"], [str(i) for i in range(k)], "legend")
        c.equal(kw["title"], s.labels["columns"], "title of the legend")
        c.equal(s.reduced().data, y.sum(axis=1), "reduced")
    c.sig("series", n, k)


def bands_case(c):
    r = c.rng
    d = r.i(1, 3)
    pts = [np.array([r.q(-3, 3) for _ in range(d)]) for _ in range(r.i(2, 4))]
    if any(np.allclose(a, b) for a, b in zip(pts, pts[1:])):
        raise CaseSkipped("a segment of length zero")
    path = pb.results.make_path(*pts, step=r.q(0.1, 0.7))
    e = np.sort(np.array([[r.q(-3, 3) for _ in range(r.i(1, 1) * 3)] for _ in range(len(path))]), axis=1)
    b = Bands(path, e)
    REC.new()
    names = ["P%d" % i for i in range(len(pts))]
    b.plot(**(dict(point_labels=names) if r.p(0.5) else {}))
    (args, kw), = REC.of("plot")
    c.equal(args[1], e, "energies")
    xs = np.asarray(args[0], float).ravel()
    c.check(len(xs) == len(path), "one x for each k point")
    if len(pts) == 2:
        c.check(np.all(np.diff(xs) > 0) or np.all(np.diff(xs) < 0), "the path runs one way: %s" % xs)
        axis = np.flatnonzero(np.asarray(pts[1] - pts[0]))[0]
        c.close(xs, np.asarray(path)[:, axis], "x of a simple path", 1e-9)
    else:
        c.equal(xs, np.arange(len(path)), "x of a path")
    (args, _), = REC.of("xticks")
    at = [int(np.argmin([np.linalg.norm(np.asarray(path)[i] - p) for i in range(len(path))])) for p in pts]
    c.close(np.asarray(args[0], float).ravel(), xs[list(path.point_indices)], "ticks", 1e-9)
    for i, p in zip(path.point_indices, pts):
        c.close(np.asarray(path)[i], p, "the ticks are at the significant points", 1e-9)
    c.check(len(args[1]) == len(pts), "one label per tick")
    lines = REC.of("axvline")
    c.close([float(np.asarray(a[0]).ravel()[0]) for a, _ in lines], xs[list(path.point_indices)], "vertical lines", 1e-9)
    lo, hi = REC.ax.lim["y"]
    for (_, kw), i in zip(lines, path.point_indices):
        c.close(kw["ymax"] * (hi - lo) + lo, e[i].max(), "height of a vertical line", 1e-6)
    if d == 2:
        REC.new()
        b.plot_kpath(point_labels=names)
        (args, _), = REC.of("quiver")
        p = np.array(pts)
        c.close(np.array(args), [p[:-1, 0], p[:-1, 1], np.diff(p[:, 0]), np.diff(p[:, 1])], "arrows along the path", 1e-9)
        got = [(a[0], np.asarray(a[1], float)) for a, _ in REC.of("annotate")]
        c.equal([g[0] for g in got], names, "labels")
        for (_, at), q in zip(got, pts):
            c.close(at, 1.05 * q, "place of the label", 1e-9)
    c.sig("bands", d, len(pts), len(path))


def eigen_case(c):
    r = c.rng
    n = r.i(1, 10)
    v = np.sort(np.array([r.choice([-1.0, 0.0, 0.5, 2.0]) if r.p(0.5) else r.q(-3, 3) for _ in range(n)]))
    heat, mark, numbers = r.p(0.5), r.p(0.5), r.p(0.5)
    prob = np.array([r.q(0, 1) for _ in range(n)])
    REC.new()
    e = Eigenvalues(v, prob) if heat else Eigenvalues(v)
    kw = dict(mark_degenerate=mark, show_indices=numbers)
    if heat:
        ret = e.plot_heatmap(**kw)
    else:
        e.plot(**kw) if r.p(0.7) else e.plot_heatmap(**kw)
    (args, kwargs), = REC.of("scatter")
    if heat and prob.any():
        idx = np.asarray(args[0]).astype(int)
        c.equal(np.sort(idx), np.arange(n), "every state once")
        c.equal(np.asarray(args[1]), v[idx], "energies")
        c.equal(np.asarray(kwargs["c"]), prob[idx], "probabilities")
        c.check(np.all(np.diff(prob[idx]) >= 0), "more probable states are drawn above")
        size = np.asarray(kwargs["s"], float)
        c.close(size, 7 + 77 * prob[idx] / prob.max(), "sizes", 1e-9)
        c.close(ret, prob.max(), "returned maximum", 1e-12)
    else:
        c.equal(args[0], np.arange(n), "states")
        c.equal(args[1], v, "energies")
    if mark:
        (col,) = REC.ax.collections
        groups = [list(g) for _, g in itertools.groupby(range(n), key=lambda i: v[i])]
        want = [[(g[0], v[g[0]]), (g[-1], v[g[-1]])] for g in groups if len(g) > 1]
        near = any(0 < b - a < 1e-3 for a, b in zip(v, v[1:]))
        if not near:
            c.equal(np.asarray(col.lines).reshape(-1, 2, 2), np.array(want, dtype=float).reshape(-1, 2, 2), "degenerate states")
    got = [(int(a[0]), tuple(a[1])) for a, _ in REC.of("annotate")]
    c.check(got == ([(i, (i, v[i])) for i in range(n)] if numbers else []), "numbers of the states: %s" % got)
    c.equal(REC.ax.lim["x"], (-1, n), "limits")
    lo, hi = REC.ax.lim["y"]
    c.sig("eigen", n, heat, mark, numbers)


def sweep_case(c):
    r = c.rng
    nx, ny = r.i(1, 6), r.i(1, 6)
    x = np.sort(np.array(r.sample(range(-50, 50), nx)) / 8.0)
    y = np.sort(np.array(r.sample(range(-50, 50), ny)) / 8.0)
    data = np.array([[r.q(-3, 3) for _ in range(ny)] for _ in range(nx)])
    s = Sweep(x, y, data, labels=dict(title="T", x="energy (eV)", y="B", data="LDOS"))
    REC.new()
    s.plot()
    (args, _), = REC.of("pcolormesh")
    c.equal(args[0], x, "x")
    c.equal(args[1], y, "y")
    c.equal(args[2], data.T, "rows of a color mesh go along y")
    wide = lambda v: [v.min(), v.max()] if v.min() < v.max() else [v.min() - 0.05, v.max() + 0.05]
    c.equal(REC.ax.lim["x"], wide(x), "x limits")
    c.equal(REC.ax.lim["y"], wide(y), "y limits")
    at = r.q(-7, 7)
    REC.new()
    if r.p(0.5):
        i = int(np.argmin(np.abs(x - at)))
        s.plot_slice_x(at)
        (args, _), = REC.of("plot")
        c.equal(args[0], y, "x slice: along y")
        c.equal(args[1], data[i], "x slice: data")
        title, label, value, unit = REC.of("title")[0][0][0], "energy", x[i], "eV"
        c.equal(REC.of("xlabel")[0][0][0], "B", "x slice: label")
    else:
        i = int(np.argmin(np.abs(y - at)))
        s.plot_slice_y(at)
        (args, _), = REC.of("plot")
        c.equal(args[0], x, "y slice: along x")
        c.equal(args[1], data[:, i], "y slice: data")
        title, label, value, unit = REC.of("title")[0][0][0], "B", y[i], ""
        c.equal(REC.of("xlabel")[0][0][0], "energy (eV)", "y slice: label")
    c.equal(REC.of("ylabel")[0][0][0], "LDOS", "slice: label of the data")
    c.equal(title, "T, %s = %s %s" % (label, "{:.2g}".format(value), unit), "slice: title")
    c.sig("sweep", nx, ny)


def spatial_case(c):
    r = c.rng
    n = r.i(3, 12)
    pos = [np.array([r.q(-3, 3) for _ in range(n)]) for _ in range(3)]
    data = np.array([r.q(-3, 3) for _ in range(n)])
    m = SpatialMap(data, pos)
    for f, name in ((m.plot_pcolor, "tripcolor"), (m.plot_contourf, "tricontourf"), (m.plot_contour, "tricontour")):
        REC.new()
        f()
        (args, kw), = REC.of(name)
        c.check(len(args) == 3, "%s: three arguments" % name)
        for a, b, what in zip(args, (pos[0], pos[1], data), "xyd"):
            c.equal(a, b, "%s: %s" % (name, what))
        if name == "tricontourf":
            c.close([min(kw["levels"]), max(kw["levels"])], [data.min(), data.max()], "levels cover the data", 1e-12)
            c.check(len(kw["levels"]) == 50, "number of levels")
    c.sig("spatial", n)


def shape_case(c):
    r = c.rng
    kind = r.choice(["polygon", "circle", "rectangle", "composite", "line"])
    REC.new()
    if kind == "line":
        a, b = [r.q(-3, 3), r.q(-3, 3)], [r.q(-3, 3), r.q(-3, 3)]
        pb.line(a, b).plot()
        (args, _), = REC.of("plot")
        c.close(np.array(args), np.array([a, b]).T, "ends of the line", 1e-6)
    elif kind in ("polygon", "rectangle"):
        p = pb.regular_polygon(r.i(3, 8), r.q(0.5, 3), r.q(0, 3)) if kind == "polygon" else pb.rectangle(r.q(0.5, 3), r.q(0.5, 3))
        p.plot()
        (args, _), = REC.of("plot")
        v = np.array(p.vertices, float)[:, :2]
        c.close(np.array(args).T, np.vstack([v, v[:1]]), "the outline is closed", 1e-6)
    else:
        ctr = [r.q(-2, 2), r.q(-2, 2)]
        rad = r.q(0.5, 3)
        s = pb.circle(rad, ctr)
        inside = lambda x, y: (x - ctr[0])**2 + (y - ctr[1])**2 - rad**2
        if kind == "composite":
            w, h = r.q(0.5, 4), r.q(0.5, 4)
            rect = pb.rectangle(w, h)
            op = r.choice("|&-")
            s = {"|": s | rect, "&": s & rect, "-": s - rect}[op]
        res = (r.i(20, 40), r.i(20, 40))
        im = s.plot(resolution=res)
        (args, kw), = REC.of("imshow")
        area = np.ma.filled(args[0], False).astype(bool)
        c.check(area.shape == (res[1], res[0]), "shape of the image %s for resolution %s" % (area.shape, res))
        x0, x1, y0, y1 = kw["extent"]
        v = np.array(s.vertices, float)
        c.close([x0, x1, y0, y1], [v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max()], "extent", 1e-6)
        for k in range(60):  # the first row of an image is at the top
            i, j = r.i(0, res[1] - 1), r.i(0, res[0] - 1)
            x, y = x0 + (x1 - x0) * j / (res[0] - 1), y1 - (y1 - y0) * i / (res[1] - 1)
            g = inside(x, y)
            if abs(g) < 1e-3:
                continue
            want = g < 0
            if kind == "composite":
                if min(abs(abs(x) - w / 2), abs(abs(y) - h / 2)) < 1e-3:
                    continue
                box = abs(x) < w / 2 and abs(y) < h / 2
                want = {"|": want or box, "&": want and box, "-": want and not box}[op]
            c.check(area[i, j] == want, "pixel at (%s, %s) is %s" % (x, y, area[i, j]))
        c.check(np.array_equal(np.ma.getmaskarray(args[0]), ~area), "only the shape itself is visible")
    c.sig("shape", kind)


def limits_case(c):
    """The helpers which adjust the limits keep the center and never cut anything off"""
    r = c.rng
    ax = REC.new()
    x, y = sorted([r.q(-5, 5), r.q(-5, 5) + 0.01]), sorted([r.q(-5, 5), r.q(-5, 5) + 0.01])
    ax.set_xlim(*x)
    ax.set_ylim(*y)
    kind = r.choice(["length", "ratio", "margin"])
    before = dict(ax.lim)
    if kind == "length":
        length, axis = r.q(0.1, 8), r.choice(["x", "y", "xy"])
        pltutils.set_min_axis_length(length, axis)
        want = {k: max(before[k][1] - before[k][0], length if k in axis else 0) for k in "xy"}
    elif kind == "margin":
        m, axis = r.q(0, 1), r.choice(["x", "y", "xy"])
        pltutils.add_margin(m, axis)
        want = {k: (before[k][1] - before[k][0]) * (1 + m if k in axis else 1) for k in "xy"}
    else:
        ratio = r.q(0.1, 1)
        pltutils.set_min_axis_ratio(ratio)
        lx, ly = (before[k][1] - before[k][0] for k in "xy")
        want = dict(x=max(lx, ratio * ly), y=max(ly, ratio * lx))
    for k in "xy":
        lo, hi = ax.lim[k]
        c.close(hi - lo, want[k], "%s: length of %s" % (kind, k), 1e-6)
        c.close((lo + hi) / 2, sum(before[k]) / 2, "%s: center of %s" % (kind, k), 1e-6)
    c.sig("limits", kind)


def result_case(c):
    f = c.rng.choice([series_case, bands_case, eigen_case, sweep_case, spatial_case, shape_case, limits_case])
    c.note(f.__name__)
    f(c)
    c.count("plots: %s" % f.__name__)
    c.nontrivial = True


def random_case(c):
    f = c.rng.choice([structure_case] * 5 + [model_case, direct_case, direct_case, labels_case] + [result_case] * 3)
    f(c)


pymon.main("C36", random_case, {}, "what the recording axes hold equals every site (once per image), every bond and boundary bond"
           " of the structure, and the arrays of the plotted results")
