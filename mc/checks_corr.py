"""C14-C18: groups of corresponding targets, choice of groups, full correspondence, epipolar search and lines."""
import itertools
import math

import numpy as np

from . import rigs
from openptv_python import correspondences as co, epi
from openptv_python.constants import MAXCAND
from openptv_python.find_candidate import find_candidate
from openptv_python.tracking_frame_buf import Frame, Target, match_coords, n_tupel_dtype

LEVELS = {"C16": "model_checking"}


# ------------------------------------------------------------------ C14
# qualities of single edges: chosen so that sums of different groups differ and thresholds can be hit exactly
def edge_q(c1, i, c2, k):
    return float(1 + (7 * c1 + 5 * i + 3 * c2 + 11 * k) % 9), (0.5, 1.0, 2.0)[(c1 + i + 2 * c2 + k) % 3]


def edges_of(cams, counts):
    return [(a, i, b, k) for a in range(cams) for b in range(a + 1, cams) for i in range(counts[a]) for k in range(counts[b])]


def build(cams, counts, edges, order=1, tail="zero"):
    """Candidate lists as the pair search stores them."""
    cl = co.safely_allocate_adjacency_lists(cams, counts)
    a = np.asarray(cl)
    lists = {}
    for e in edges:
        lists.setdefault(e[:3], []).append(e[3])
    for c1 in range(cams):
        for c2 in range(c1 + 1, cams):
            for i in range(counts[c1]):
                row = a[c1, c2, i]
                row["p1"] = i
                l = lists.get((c1, i, c2), [])[::order]
                if tail == "other":  # what an earlier, longer list left behind
                    row["p2"][:] = counts[c2] - 1
                    row["corr"][:] = 500.0
                    row["dist"][:] = 0.01
                row["n"] = len(l)
                for s, k in enumerate(l):
                    row["p2"][s] = k
                    row["corr"][s], row["dist"][s] = edge_q(c1, i, c2, k)
    return cl


def ref_groups(cams, edges, size, accept, used=(), quality=edge_q):
    """All groups of `size` cameras whose every pair is an edge: {(target per camera, -2 if none): quality}."""
    es = set(edges)
    out = {}
    for cs in itertools.combinations(range(cams), size):
        nodes = [sorted({(e[0], e[1]) for e in es if e[0] == c} | {(e[2], e[3]) for e in es if e[2] == c}) for c in cs]
        for g in itertools.product(*nodes):
            if any(n in used for n in g):
                continue
            pairs = [a + b for a, b in itertools.combinations(g, 2)]
            if any(p not in es for p in pairs):
                continue
            qs = [quality(*p) for p in pairs]
            den = sum(q[1] for q in qs)
            q = sum(q[0] for q in qs) / den if den else math.inf
            if q > accept:
                p = [-2] * 4
                for c, t in g:
                    p[c] = t
                out[tuple(p)] = q
    return out


def ref_pairs(cams, counts, edges, accept, used=(), quality=edge_q):
    """Pairs whose first target has only one candidate in the other camera."""
    out = {}
    for a in range(cams):
        for b in range(a + 1, cams):
            for i in range(counts[a]):
                l = [e for e in edges if e[:3] == (a, i, b)]
                if len(l) != 1 or (a, i) in used or (b, l[0][3]) in used:
                    continue
                c, d = quality(*l[0])
                q = c / d if d else math.inf
                if q > accept:
                    p = [-2] * 4
                    p[a], p[b] = i, l[0][3]
                    out[tuple(p)] = q
    return out


def norm(p, cams):
    return tuple(int(x) if c < cams and x >= 0 else -2 for c, x in enumerate(p))


def compare(scratch, matched, ref, cams, r, case, what, size=None):
    rows = np.asarray(scratch)[:matched]
    got = [(norm(x["p"], cams), float(x["corr"])) for x in rows]
    r.ev(bool(ref))
    r.outcome((what, len(ref)))
    if size is not None and len(ref) >= size:
        ok = matched == size and len({g for g, _ in got}) == size and all(g in ref and abs(q - ref[g]) < 1e-9 for g, q in got)
    else:
        ok = len(got) == len(ref) and {g for g, _ in got} == set(ref) and all(abs(q - ref[g]) < 1e-9 for g, q in got)
        if ok and any(not all(v == -2 for v, w in zip(x["p"][:cams], norm(x["p"], cams)[:cams]) if w == -2) for x in rows):
            ok = False
    if not ok:
        r.fail(f"{what} matcher does not report the consistent groups", sorted(ref.items()), got, case)


def new_scratch(n=64):
    s = np.zeros((n,), dtype=n_tupel_dtype).view(np.recarray)
    return s


def c14_four(item, r):
    m0, m1 = item
    counts = [2, 2, 2, 2]
    base = [(0, b, k) for b in (1, 2, 3) for k in (0, 1)]
    rest = [e for e in edges_of(4, counts) if e[0] > 0]
    order = 1 if sum(m0) % 2 else -1
    es0 = [(0, 0, b, k) for (z, b, k), m in zip(base, m0) if m] + [(0, 1, b, k) for (z, b, k), m in zip(base, m1) if m]
    for mask in itertools.product((0, 1), repeat=len(rest)):
        es = es0 + [e for e, m in zip(rest, mask) if m]
        ref = ref_groups(4, es, 4, 0.0)
        accept = 0.0
        if ref and sum(mask) % 2:  # a threshold that one group meets exactly
            accept = sorted(ref.values())[len(ref) // 2]
            ref = {g: q for g, q in ref.items() if q > accept}
        cl = build(4, counts, es, order, "other" if sum(mask) % 3 == 0 else "zero")
        s = new_scratch()
        size = 64 if sum(mask) % 4 else max(1, len(ref) - 1)
        m = co.four_camera_matching(cl, 2, accept, s, size)
        compare(s, m, ref, 4, r, (es, accept, order, size), "four-camera", size)
    r.sample(dict(base_edges=[list(m0), list(m1)], enumerated="all 4096 edge sets between the other cameras"))


def used_sets(nodes, most):
    return [set(u) for k in range(most + 1) for u in itertools.combinations(nodes, k)]


def c14_three(item, r):
    cams, counts, mask_hi, most, usage_all = item
    all_e = edges_of(cams, counts)
    nodes = [(c, i) for c in range(cams) for i in range(counts[c])]
    lo = len(all_e) - len(mask_hi)
    for mask in itertools.product((0, 1), repeat=lo):
        es = [e for e, m in zip(all_e, tuple(mask_hi) + mask) if m]
        n = sum(mask)
        order = 1 if n % 2 else -1
        cl = build(cams, counts, es, order, "other" if n % 3 == 0 else "zero")
        for u in (used_sets(nodes, most) if usage_all or n >= lo - 2 else used_sets(nodes, 1)):
            tus = np.zeros((cams, 4), dtype=np.int32)
            for c, i in u:
                tus[c, i] = 1
            ref = ref_groups(cams, es, 3, 0.0, u)
            accept = 0.0
            if ref and (n + len(u)) % 2:
                accept = sorted(ref.values())[len(ref) // 2]
                ref = {g: q for g, q in ref.items() if q > accept}
            s = new_scratch()
            size = 64 if (n + len(u)) % 4 else max(1, len(ref) - 1)
            m = co.three_camera_matching(cl, cams, counts, accept, s, size, tus)
            compare(s, m, ref, cams, r, (cams, counts, es, sorted(u), accept, order, size), "three-camera", size)


def c14_pairs(item, r):
    cams, counts, mask_hi, most = item
    all_e = edges_of(cams, counts)
    nodes = [(c, i) for c in range(cams) for i in range(counts[c])]
    lo = len(all_e) - len(mask_hi)
    for mask in itertools.product((0, 1), repeat=lo):
        es = [e for e, m in zip(all_e, tuple(mask_hi) + mask) if m]
        n = sum(mask)
        cl = build(cams, counts, es, 1, "other" if n % 3 == 0 else "zero")
        for u in used_sets(nodes, most):
            tus = np.zeros((cams, 4), dtype=np.int32)
            for c, i in u:
                tus[c, i] = 1
            ref = ref_pairs(cams, counts, es, 0.0, u)
            accept = 0.0
            if ref and (n + len(u)) % 2:
                accept = sorted(ref.values())[len(ref) // 2]
                ref = {g: q for g, q in ref.items() if q > accept}
            s = new_scratch()
            s.p = 1  # left over from an earlier stage
            size = 64 if (n + len(u)) % 4 else max(1, len(ref) - 1)
            m = co.consistent_pair_matching(cl, cams, counts, accept, s, size, tus)
            compare(s, m, ref, cams, r, (cams, counts, es, sorted(u), accept, size), "two-camera", size)


def C14(ctx):
    th = ctx.thorough
    base = list(itertools.product((0, 1), repeat=6))
    ones = [m for m in base if (m[0] or m[1]) and (m[2] or m[3]) and (m[4] or m[5])]
    empty = (0,) * 6
    items = [(m, tuple(1 - x for x in m)) for m in (base if th else ones)]
    if th:
        items += [(a, b) for a in ones for b in ones[::3]]
    ctx.cases(c14_four, items if th else items[::2] + [((1,) * 6, (1,) * 6), (empty, (1,) * 6)], batch=1)
    hi3 = list(itertools.product((0, 1), repeat=5))
    ctx.cases(c14_three, [(3, [2, 2, 2], h, 6 if th else 2, th) for h in hi3], batch=1, group="three_of_three")
    ctx.cases(c14_three, [(4, c, h, 2, th) for c in ([2, 1, 1, 2], [1, 2, 2, 1], [2, 2, 1, 1], [1, 1, 2, 2])[:4 if th else 2] for h in hi3], batch=1, group="three_of_four")
    ctx.cases(c14_pairs, [(2, [3, 3], h, 3 if th else 2) for h in itertools.product((0, 1), repeat=4)], batch=1, group="pairs_of_two")
    ctx.cases(c14_pairs, [(3, [2, 2, 2], h, 2 if th else 1) for h in itertools.product((0, 1), repeat=4)], batch=1, group="pairs_of_three")
    ctx.cases(c14_pairs, [(4, [2, 1, 1, 2], h, 2 if th else 1) for h in itertools.product((0, 1), repeat=5)], batch=1, group="pairs_of_four")
    ctx.rule = "all candidate graphs over 1-3 targets per camera (every subset of the possible pairs; the first camera's edges thinned for four cameras in quick), both list orders, zero or stale list tails, used-target sets, thresholds met exactly, scratch sizes below the number of groups"
    ctx.assumptions = ["candidate lists hold each candidate once, as the pair search writes them"]


# ------------------------------------------------------------------ C15
def check_choice(cands, taken, used, cams, r, case, what):
    """cands {group: quality} offered; taken: accepted groups in order with quality; used: targets taken before. Greedy best first."""
    free = set(used)
    offered = dict(cands)
    prev = math.inf
    for g, q in taken:
        ts = {(c, t) for c, t in enumerate(g) if t >= 0 and c < cams}
        if g not in offered or abs(offered[g] - q) > 1e-9 * max(1, abs(q)) and not (math.isinf(q) and math.isinf(offered[g])):
            return r.fail(f"{what}: a group that was not offered (or another quality) was accepted", sorted(offered.items()), taken, case)
        if ts & free:
            return r.fail(f"{what}: a target is used by two groups", sorted(offered.items()), taken, case)
        if q > prev + 1e-9 * max(1, abs(q)):
            return r.fail(f"{what}: groups not in descending order of quality", sorted(offered.items()), taken, case)
        prev = q
        free |= ts
    acc = {g for g, _ in taken}
    for g, q in offered.items():
        if g in acc:
            continue
        ts = {(c, t) for c, t in enumerate(g) if t >= 0 and c < cams}
        if ts & set(used):
            continue
        if not any(ts & {(c, t) for c, t in enumerate(h) if t >= 0} and hq >= q - 1e-9 * max(1, abs(q)) for h, hq in taken):
            return r.fail(f"{what}: a group none of whose targets is taken by a better one was refused", (g, q), taken, case)


def c15_take(item, r):
    cams, alpha, first, n, marks = item
    groups = [g for g in itertools.product([-2] + list(range(alpha)), repeat=cams) if sum(t >= 0 for t in g) >= 2]
    for k in range(n):
        for rest in itertools.product(groups, repeat=k):
            gs = (first,) + rest
            if len(set(gs)) < len(gs):
                continue
            for qs in QS[len(gs)]:
                src = np.zeros(len(gs), dtype=n_tupel_dtype).view(np.recarray)
                for i, (g, q) in enumerate(zip(gs, qs)):
                    src[i].p = list(g) + [-2] * (4 - cams)
                    src[i].corr = q
                for u in marks:
                    s = src.copy().view(np.recarray)
                    dst = np.zeros(len(gs) + 1, dtype=n_tupel_dtype).view(np.recarray)
                    dst.p = 77
                    tus = np.zeros((cams, alpha), dtype=np.int32)
                    for c, t in u:
                        tus[c, t] = 1
                    cnt = co.take_best_candidates(s, dst, cams, tus)
                    d = np.asarray(dst)
                    taken = [(tuple(int(x) for x in d["p"][i][:cams]), float(d["corr"][i])) for i in range(cnt)]
                    case = (cams, gs, qs, u)
                    r.ev(len(gs) > 1)
                    r.outcome((cams, len(gs), cnt))
                    if len(gs) != len(set(gs)):
                        continue
                    check_choice(dict(zip(gs, qs)), taken, u, cams, r, case, "take_best_candidates")
                    want = {(c, t) for c, t in u} | {(c, t) for g, _ in taken for c, t in enumerate(g) if t >= 0}
                    if {(int(c), int(t)) for c, t in zip(*np.nonzero(tus))} != want:
                        r.fail("take_best_candidates leaves wrong use marks", sorted(want), tus.tolist(), case)
                    if not (d["p"][cnt:] == 77).all():
                        r.fail("take_best_candidates writes beyond the accepted groups", None, d["p"].tolist(), case)


QS = {1: [(5.0,)], 2: [(5.0, 8.0), (8.0, 5.0), (3.0, 3.0)], 3: [(2.0, 9.0, 4.0)]}
QS4 = {3: [p for p in itertools.permutations((2.0, 4.0, 9.0))] + [(4.0, 4.0, 4.0), (4.0, 9.0, 4.0)]}


# scenes through the whole procedure
def make_targets(cals, cp, points, orders=None, sees=None, feats=None):
    """Targets per camera from the reference projection, in the given order; returns targets and particle of each target."""
    ts, who = [], []
    for c, cal in enumerate(cals):
        idx = [i for i in range(len(points)) if sees is None or sees[i][c]]
        if orders is not None:
            idx = orders[c](idx)
        l = []
        for k, i in enumerate(idx):
            x, y = rigs.ref_pixel(points[i], cal, cp)
            n, nx, ny, g = feats[i] if feats else (25, 5, 5, 100 + 13 * i)
            l.append(Target(k, float(x), float(y), n, nx, ny, g, -1))
        ts.append(l)
        who.append(idx)
    return ts, who


def frame_of(ts):
    f = Frame(len(ts), 8)
    for c, l in enumerate(ts):
        f.targets[c] = list(l)
        f.num_targets[c] = len(l)
    return f


def flat_lists(ts, cals, cp):
    return [match_coords(l, cp, cal) for l, cal in zip(ts, cals)]


def lists_to_graph(cl, cams, counts):
    a = np.asarray(cl)
    edges, q = [], {}
    for c1 in range(cams):
        for c2 in range(c1 + 1, cams):
            for i in range(counts[c1]):
                row = a[c1, c2, i]
                for s in range(int(row["n"])):
                    e = (c1, i, c2, int(row["p2"][s]))
                    edges.append(e)
                    q[e] = (float(row["corr"][s]), float(row["dist"][s]))
    return edges, lambda *e: q[e]


def scene_lattice(step):
    return [(x * step, y * step, z * 8.0) for z in (-1, 1) for y in (-1, 0, 1) for x in (-1, 0, 1)]


def c15_scene(item, r):
    """Every stage of the whole procedure takes from what the candidate lists offer."""
    cams, flag, eps, corrmin, idxs, step = item
    cals, cp = rigs.rig(cams)
    cp.all_cam_flag = flag
    lat = scene_lattice(step)
    pts = [lat[i] for i in idxs]
    vp = rigs.volume(eps0=eps)
    vp.corrmin = corrmin
    rev = lambda l: l[::-1]
    ts, who = make_targets(cals, cp, pts, orders=[(lambda l: l), rev, (lambda l: l[1:] + l[:1]), (lambda l: l)][:cams])
    counts = [len(l) for l in ts]
    flat = flat_lists(ts, cals, cp)
    cl = co.safely_allocate_adjacency_lists(cams, counts)
    co.match_pairs(cl, flat, frame_of(ts), vp, cp, cals)
    edges, q = lists_to_graph(cl, cams, counts)
    frm = frame_of(ts)
    mc = [0] * 4
    con = np.asarray(co.correspondences(frm, flat, vp, cp, cals, mc))
    case = (cams, flag, eps, corrmin, pts)
    got = [(norm(x["p"], cams), float(x["corr"])) for x in con[:sum(mc[:3])]]
    r.ev(len(edges) > 0)
    r.outcome((cams, flag, tuple(mc)))
    if mc[3] != sum(mc[:3]):
        r.fail("the counts do not add up", sum(mc[:3]), mc, case)
    used, pos = set(), 0
    stages = [(4, cams == 4), (3, cams == 3 or cams == 4 and flag == 0), (2, flag == 0)]
    for (size, active), n in zip(stages, mc[:3]):
        part = got[pos:pos + n]
        pos += n
        if not active:
            if n:
                r.fail(f"groups of {size} although they are switched off", 0, part, case)
            continue
        ref = ref_groups(cams, edges, size, corrmin, used, q) if size > 2 else ref_pairs(cams, counts, edges, corrmin, used, q)
        check_choice(ref, part, used, cams, r, case, f"correspondences, groups of {size}")
        used |= {(c, t) for g, _ in part for c, t in enumerate(g) if t >= 0}
    for c in range(cams):
        want = [-1] * counts[c]
        for n, (g, _) in enumerate(got):
            if g[c] >= 0:
                want[int(flat[c][g[c]].pnr)] = n
        have = [int(t.tnr) for t in frm.targets[c]]
        if have != want:
            r.fail("targets are not numbered with their group", want, have, case)


def C15(ctx):
    th = ctx.thorough
    for cams, alpha in ((2, 2), (3, 2), (4, 2)):
        groups = [g for g in itertools.product([-2] + list(range(alpha)), repeat=cams) if sum(t >= 0 for t in g) >= 2]
        marks = [(), ((0, 0),), ((0, 1), (1, 0))] if cams < 4 or th else [()]
        n = 3 if cams < 4 or th else 2
        ctx.cases(c15_take, [(cams, alpha, g, n, marks) for g in groups], batch=1, group=f"take_{cams}cams")
    if not th:
        groups = [g for g in itertools.product((-2, 0, 1), repeat=4) if sum(t >= 0 for t in g) >= 2]
        ctx.cases(c15_take3, groups, batch=1)
    ctx.cases(c15_long, [(cams, b, t0) for cams in (2, 3, 4) for b in ((2, 4, 6) if not th else (2, 3, 4, 5, 6, 8)) for t0 in [-2] + list(range(b + 1))], batch=1, group="a rival in a longer list")
    sub = [s for k in (1, 2, 3) for s in itertools.combinations(range(18), k)]
    items = []
    for cams in (2, 3, 4):
        for flag in (0, 1):
            for n, s in enumerate(sub if th else sub[::5]):
                eps = (0.3, 1.2, 0.02)[n % 3]
                items.append((cams, flag, eps, (33.0, 600.0)[n % 2], s, (3.0, 9.0)[n // 2 % 2]))
    ctx.cases(c15_scene, items, batch=8)
    ctx.rule = "take_best_candidates: all ordered lists of up to 3 different groups over 2 targets per camera with quality orders, ties and use marks, and lists of up to 6 disjoint groups with every possible rival; whole procedure: subsets of an 18-point lattice of particles with tolerances wide enough for ambiguities, each stage against the candidate lists"
    ctx.assumptions = ["groups of equal quality may be taken in any order"]


def c15_long(item, r):
    """b groups without common targets and one rival, at every place of the order of quality."""
    cams, b, t0 = item
    own = [tuple((i + c) % b for c in range(cams)) for i in range(b)]
    for rest in itertools.product([-2] + list(range(b + 1)), repeat=cams - 1):
        rival = (t0,) + rest
        if sum(t >= 0 for t in rival) < 2 or rival in own:
            continue
        for place in range(b + 1) if cams < 4 else (b, b - 1, sum(rival) % b):
            gs = own[:place] + [rival] + own[place:]
            src = np.zeros(b + 1, dtype=n_tupel_dtype).view(np.recarray)
            qs = {}
            for i, g in enumerate(gs):
                k = (i * 5 + 3) % (b + 1) if (b + 1) % 5 else i  # where it stands in the list
                src[k].p = list(g) + [-2] * (4 - cams)
                src[k].corr = qs[g] = 90.0 - 7.5 * i
            dst = np.zeros(b + 2, dtype=n_tupel_dtype).view(np.recarray)
            tus = np.zeros((cams, b + 1), dtype=np.int32)
            cnt = co.take_best_candidates(src, dst, cams, tus)
            d = np.asarray(dst)
            taken = [(tuple(int(x) for x in d["p"][i][:cams]), float(d["corr"][i])) for i in range(cnt)]
            case = (gs, place)
            r.ev()
            r.outcome((cams, b, cnt))
            check_choice(qs, taken, (), cams, r, case, "take_best_candidates")
            want = {(c, t) for g, _ in taken for c, t in enumerate(g) if t >= 0}
            if {(int(c), int(t)) for c, t in zip(*np.nonzero(tus))} != want:
                r.fail("the use marks differ from the targets of the groups taken", sorted(want), tus.tolist(), case)


def c15_take3(first, r):
    """Three groups of four cameras, the last two from every second group."""
    groups = [g for g in itertools.product((-2, 0, 1), repeat=4) if sum(t >= 0 for t in g) >= 2]
    for i, a in enumerate(groups):
        for b in groups[i % 4::4]:
            gs = (first, a, b)
            if len(set(gs)) < 3:
                continue
            qs = QS4[3][(i + groups.index(first)) % len(QS4[3])]
            src = np.zeros(3, dtype=n_tupel_dtype).view(np.recarray)
            src.p = np.array(gs)
            src.corr = np.array(qs)
            dst = np.zeros(4, dtype=n_tupel_dtype).view(np.recarray)
            tus = np.zeros((4, 2), dtype=np.int32)
            cnt = co.take_best_candidates(src, dst, 4, tus)
            d = np.asarray(dst)
            taken = [(tuple(int(x) for x in d["p"][j]), float(d["corr"][j])) for j in range(cnt)]
            r.ev()
            check_choice(dict(zip(gs, qs)), taken, (), 4, r, (gs, qs), "take_best_candidates")


# ------------------------------------------------------------------ C16
def ambiguous(cals, cp, ts, who, flats, eps):
    """Would any target be a candidate of a foreign one (with a margin)?"""
    for a, b in itertools.combinations(range(len(cals)), 2):
        for i, fa in enumerate(flats[a]):
            s = ref_segment(fa, cals[a], cals[b], cp.mm, -20.0, 20.0)
            for k, fb in enumerate(flats[b]):
                if who[a][i] == who[b][k]:
                    continue
                if seg_dist(fb, s) < eps * 2.0 + 0.01:
                    return True
    return False


def ref_segment(f, cal1, cal2, mm, zmin, zmax):
    p, v = rigs.ref_trace(f, cal1, mm)[-1]
    out = []
    for z in (zmin, zmax):
        out.append(rigs.ref_flat(p + v * ((z - p[2]) / v[2]), cal2, mm))
    return out


def seg_dist(p, s):
    a, b = np.asarray(s[0]), np.asarray(s[1])
    d = b - a
    t = min(1.0, max(0.0, float((np.asarray(p) - a) @ d / (d @ d)))) if d @ d > 0 else 0.0
    return float(np.linalg.norm(np.asarray(p) - a - t * d))


ORD = [lambda l: l, lambda l: l[::-1], lambda l: l[1:] + l[:1]]
C16_CFG = {}


def c16_rig(name, cams):
    if (name, cams) not in C16_CFG:
        kw = dict(air={}, water=dict(mm=rigs.WATER), dist=dict(dist=(1e-5, 0, 0, 1e-5, -1e-5, 1.001, 0.001), xh=0.1, yh=-0.05), tilt=dict(mm=rigs.WATER, glass=(8.0, -5.0, 100.0), roll=0.4), shifted=dict(xh=0.5, yh=-0.8),
                  shiftedwater=dict(mm=rigs.WATER, xh=-0.6, yh=0.7))[name]
        C16_CFG[name, cams] = rigs.rig(cams, **kw)
    return C16_CFG[name, cams]


def c16(item, r):
    """One scene: particles, who sees what, order of the targets."""
    name, cams, pts, sees, orders, flag, api = item[:7]
    only = item[7] if len(item) > 7 else None  # the one feature in which the particles differ
    cals, cp = c16_rig(name, cams)
    cp.all_cam_flag = flag
    feats = None
    if only is not None:
        feats = [tuple(v * (4 ** i if j == only else 1) for j, v in enumerate((25, 5, 5, 100))) for i in range(len(pts))]
    ts, who = make_targets(cals, cp, pts, [ORD[o] for o in orders], sees, feats)
    vp = rigs.volume(eps0=0.02)
    if only is not None:
        vp.cn = vp.cnx = vp.cny = vp.csumg = 0.6
    vp.z_min_lay, vp.z_max_lay = [-20.0, -20.0], [20.0, 20.0]
    flats = [[rigs.ref_flat(pts[i], cals[c], cp.mm) for i in who[c]] for c in range(cams)]
    if only is None and ambiguous(cals, cp, ts, who, flats, 0.02):
        r.add("ambiguous_scenes_left_out")
        return
    case = (name, cams, pts, sees, orders, flag, api, only)
    want = {}
    for i in range(len(pts)):
        cs = [c for c in range(cams) if sees[i][c]]
        if len(cs) >= 2 and (flag == 0 or len(cs) == cams and cams > 2):
            want[i] = tuple(who[c].index(i) if c in cs else -1 for c in range(cams))
    sizes = [sum(1 for g in want.values() if sum(t >= 0 for t in g) == k) for k in (4, 3, 2)]
    r.add("states")
    r.ev(bool(want))
    r.add("transitions", sum(len(l) for l in ts))
    r.add("traces_validated_against_impl")
    r.outcome((cams, tuple(sizes), flag))
    flat = flat_lists(ts, cals, cp)
    if api == "py":
        pos, ids, total = co.py_correspondences(ts, flat, cals, vp, cp)
        counts = [0] * (4 - cams) + [a.shape[1] for a in ids]
        groups = []
        for p, d in zip(pos, ids):
            for k in range(d.shape[1]):
                groups.append(tuple(int(x) for x in d[:, k]))
                for c in range(cams):
                    t = groups[-1][c]
                    if t >= 0 and tuple(p[c, k]) != (ts[c][t].x, ts[c][t].y):
                        r.fail("py_correspondences: position is not that of the target", (ts[c][t].x, ts[c][t].y), tuple(p[c, k]), case)
        tnrs = [[int(t.tnr) for t in l] for l in ts]
    else:
        frm = frame_of(ts)
        mc = [0] * 4
        con = np.asarray(co.correspondences(frm, flat, vp, cp, cals, mc))
        counts, total = mc[:3], mc[3]
        groups = [tuple(int(flat[c][int(con["p"][k][c])].pnr) if con["p"][k][c] >= 0 else -1 for c in range(cams)) for k in range(total)]
        tnrs = [[int(t.tnr) for t in l] for l in frm.targets]
    if counts[:3] != sizes:
        r.fail("wrong number of groups of four, three, two", sizes, counts, case)
        return
    if total != sum(sizes):
        r.fail("wrong total number of groups", sum(sizes), total, case)
    if sorted(groups) != sorted(want.values()):
        r.fail("groups do not match the particles", sorted(want.values()), sorted(groups), case)
        return
    # listed under the number of cameras that saw it, quads first
    if [sum(t >= 0 for t in g) for g in groups] != sorted((sum(t >= 0 for t in g) for g in groups), reverse=True):
        r.fail("groups are not listed by size", None, groups, case)
    for c in range(cams):
        exp = [-1] * len(ts[c])
        for k, g in enumerate(groups):
            if g[c] >= 0:
                exp[g[c]] = k
        if tnrs[c] != exp:
            r.fail("targets are not numbered with their group", exp, tnrs[c], case)


def c16_single(n, r):
    """A single camera: every target is its own group, in the order of the flat list."""
    cals, cp = c16_rig("air", 1)
    pts = [(x * 7.0 - 10, y * 5.0 - 8, 0.0) for x in range(3) for y in range(3)][:n]
    for o in range(3):
        ts, who = make_targets(cals, cp, pts, [ORD[o]])
        flat = [match_coords(ts[0], cp, cals[0])]
        pos, ids, total = co.py_correspondences(ts, flat, cals, rigs.volume(), cp)
        r.ev(n > 0)
        want = sorted(range(n), key=lambda k: flat[0][k].x)
        got = [int(x) for x in ids[0][0]]
        if total != n or sorted(got) != list(range(n)) or any(tuple(pos[0][0, k]) != (ts[0][t].x, ts[0][t].y) or ts[0][t].tnr != k for k, t in enumerate(got)):
            r.fail("single camera: targets not passed through", n, (total, got), (n, o))


def C16(ctx):
    th = ctx.thorough
    A = [(-14.0, -9.0, 3.0), (11.0, 6.0, -6.0), (1.0, 13.0, 12.0), (-4.0, 2.0, -15.0)]
    items = []
    for cams in (2, 3, 4):
        masks = list(itertools.product((0, 1), repeat=cams))
        for name in ("air", "water", "dist", "tilt"):
            # one particle: every set of cameras; two: every pair of sets; three: sets with at least two cameras
            for m in masks:
                items.append((name, cams, A[:1], [m], (0,) * cams, 0, "buf"))
            for n, ms in enumerate(itertools.product(masks, repeat=2)):
                if cams == 4 and name != "air" and not th and n % 4:
                    continue
                items.append((name, cams, A[:2], ms, tuple((n >> c) % 2 for c in range(cams)), 0, "buf"))
            good = [m for m in masks if sum(m) >= 2]
            for n, ms in enumerate(itertools.product(good, repeat=3)):
                if cams == 4 and not th and n % (4 if name == "air" else 16):
                    continue
                items.append((name, cams, A[:3] if n % 2 else A[1:], ms, tuple((n // 2 + c * n) % 3 for c in range(cams)), 0, "buf"))
            # every order of the targets
            for o in itertools.product(range(3), repeat=cams):
                items.append((name, cams, A[:3], [(1,) * cams] * 3, o, 0, "buf"))
        # all cameras required
        for ms in itertools.product(masks, repeat=2):
            if cams < 4 or sum(ms[0]) >= 3 or th:
                items.append(("air", cams, A[:2], ms, (0,) * cams, 1, "buf"))
        for n, ms in enumerate(itertools.product(masks, repeat=2)):
            if cams < 4 or n % 3 == 0 or th:
                items.append(("air", cams, A[:2], ms, tuple((n >> c) % 2 for c in range(cams)), 0, "py"))
    # larger scenes: lattices of n particles
    rng = (4, 6, 9, 12) if th else (5, 9)
    for cams in (2, 3, 4):
        for name in ("air", "tilt"):
            for n in rng:
                pts = [(-18 + 11.0 * (i % 4) + 1.3 * (i // 4), -14 + 9.7 * (i // 4) + 2.1 * (i % 4), -9 + 4.1 * ((i * 5) % 7)) for i in range(n)]
                for o in range(3):
                    items.append((name, cams, pts, [(1,) * cams] * n, tuple((o + c) % 3 for c in range(cams)), 0, "buf"))
    ctx.cases(c16, items, batch=20)
    # particles that differ in size or brightness only: told apart by the ratio limits, also where they hide each other
    same_row = [(-14.0, -2.0, 3.0), (-3.0, -2.0, -6.0), (9.0, -2.0, 12.0)]
    items = []
    for cams in (2, 3, 4):
        for name in ("air", "water", "dist", "tilt"):
            for pts in (A[:3], same_row):
                for only in range(4):
                    for n, o in enumerate(itertools.product(range(3), repeat=cams)):
                        if cams < 4 and name != "dist" or th or n % 9 == only:
                            items.append((name, cams, pts, [(1,) * cams] * 3, o, 0, "py" if sum(o) % 2 else "buf", only))
                    masks = [m for m in itertools.product((0, 1), repeat=cams) if sum(m) >= 2]
                    for n, ms in enumerate(itertools.product(masks, repeat=3)):
                        if th or n % (1, 1, 7, 61)[cams - 1] == only:
                            items.append((name, cams, pts, ms, tuple((n + c) % 3 for c in range(cams)), 0, "buf", only))
    ctx.cases(c16, items, batch=20, group="features")
    # particles at the border of an image, principal points far apart
    items = []
    for cams in (2, 3, 4):
        for name in ("shifted", "shiftedwater"):
            cals, cp = c16_rig(name, cams)
            n = 0
            for c, (u, v), z in itertools.product(range(cams), itertools.product((4.0, 330.0, 640.0, 950.0, 1276.0), (4.0, 270.0, 512.0, 760.0, 1020.0)), (-16.0, 0.0, 13.0)):
                if 4 < u < 1276 and 4 < v < 1020:
                    continue
                p, d = rigs.ref_trace(((u - 640) * 0.012 - float(cals[c].int_par["xh"]), (512 - v) * 0.012 - float(cals[c].int_par["yh"])), cals[c], cp.mm)[-1]
                P = p + d * ((z - p[2]) / d[2])
                px = [rigs.ref_pixel(P, k, cp) for k in cals]
                see = tuple(int(1 < a < 1279 and 1 < b < 1023) for a, b in px)
                n += 1
                if sum(see) >= 2 and (th or n % 3 == 0 or 4 < u < 1276):
                    items.append((name, cams, [tuple(P), A[n % 4]], [see, (1,) * cams], tuple((n + k) % 2 for k in range(cams)), 0, "py" if n % 2 else "buf"))
    ctx.cases(c16, items, batch=10, group="borders")
    ctx.cases(c16_single, list(range(0, 10)), batch=1)
    ctx.rule = "1-3 particles x every assignment of seeing cameras (2, 3, 4 cameras) x target orders x four rigs (air, water, distortion, tilted glass), no two cameras alike; particles at the borders of each image; all cameras required or not; lattices of up to 12 particles; single camera pass-through"
    ctx.assumptions = ["scenes in which a foreign target lies near an epipolar segment are left out and counted"]


# ------------------------------------------------------------------ C17
CP17 = rigs.control(2, imx=100, imy=80, pix=(0.1, 0.1))  # sensor +-5 x +-4 mm


def ref_candidates(pts, feats, seg, me, vp, sensor):
    """(index in list, distance, quality) of targets in the band around the segment."""
    (xa, ya), (xb, yb) = seg
    e = vp.eps0
    x0, x1, y0, y1 = min(xa, xb), max(xa, xb), min(ya, yb), max(ya, yb)
    near = False
    sx0, sx1, sy0, sy1 = sensor
    if x1 <= sx0 or x0 >= sx1 or y1 <= sy0 or y0 >= sy1:
        return [], False
    L = math.hypot(xb - xa, yb - ya)
    out = []
    for j, (x, y, pnr) in enumerate(pts):
        d = abs((xb - xa) * (y - ya) - (yb - ya) * (x - xa)) / L if L else abs(y - ya)
        m = (x - x0 + e, x1 + e - x, y - y0 + e, y1 + e - y, e - d)
        if any(abs(v) < 1e-8 for v in m):
            near = True  # on the very edge of the band
        if min(m) <= 0:
            continue
        f = feats[pnr]
        q = [min(a, b) / max(a, b) if a or b else 0.0 for a, b in zip(me, f)]
        if q[0] < vp.cn or q[1] < vp.cnx or q[2] < vp.cny or q[3] <= vp.csumg:
            continue
        out.append((j, d, (4 * q[3] + 2 * q[0] + q[1] + q[2]) * (me[3] + f[3])))
    return out[:MAXCAND], near


def crd_of(pts):
    a = np.zeros(len(pts), dtype=epi.Coord2d_dtype).view(np.recarray)
    for i, (x, y, p) in enumerate(pts):
        a[i].x, a[i].y, a[i].pnr = x, y, p
    return a


def run_search(pts, feats, seg, me, vp, cp, cal, crd=None, pix=None):
    pix = pix or [Target(i, 0.0, 0.0, *f, -1) for i, f in enumerate(feats)]
    crd = crd if crd is not None else crd_of(pts)
    c = find_candidate(crd, pix, len(pts), seg[0][0], seg[0][1], seg[1][0], seg[1][1], *me, vp, cp, cal)
    if len(c) == 0:
        return []
    return [(int(a["pnr"]), float(a["tol"]), float(a["corr"])) for a in np.asarray(c)]


def same(got, ref):
    return [g[0] for g in got] == [x[0] for x in ref] and all(abs(g[1] - x[1]) < 1e-7 and abs(g[2] - x[2]) < 1e-6 * max(1, x[2]) for g, x in zip(got, ref))


def sensor_of(cp, cal):
    w, h = cp.imx * cp.pix_x / 2, cp.imy * cp.pix_y / 2
    xh, yh = float(cal.int_par["xh"]), float(cal.int_par["yh"])
    return -w - xh, w - xh, -h - yh, h - yh


LAT17 = [(-3.1, -2.0), (-3.1, 1.0), (-1.0, 0.0), (-0.9, 2.05), (0.0, 0.0), (0.0, -0.35), (0.3, 0.31), (1.0, 1.0), (1.0, 3.0), (2.0, -1.5), (2.0, 2.1), (4.0, 0.05)]
ENDS = [(-4.0, -2.5), (-2.0, 2.0), (0.0, 0.0), (0.0, 2.0), (2.0, 2.0), (3.0, -2.0), (2.0, 0.0)]


def c17_small(item, r):
    idx, eps = item
    cal = rigs.camera((0, 0, 100))
    vp = rigs.volume(eps0=eps)
    pts = sorted((LAT17[i][0], LAT17[i][1], k) for k, i in enumerate(idx[::-1]))
    feats = [(9 + k, 3, 3, 50 + 7 * k) for k in range(len(pts))]
    me = (10, 3, 3, 55)
    crd = crd_of(pts)
    pix = [Target(i, 0.0, 0.0, *f, -1) for i, f in enumerate(feats)]
    for a in ENDS:
        for b in ENDS:
            ref, near = ref_candidates(pts, feats, (a, b), me, vp, sensor_of(CP17, cal))
            got = run_search(pts, feats, (a, b), me, vp, CP17, cal, crd, pix)
            r.ev(bool(ref))
            r.outcome(len(ref))
            if near:
                r.add("on_the_edge")
                continue
            if not same(got, ref):
                r.fail("candidates along the segment are not those of an exhaustive search", ref, got, (pts, a, b, eps))


def c17_quality(item, r):
    cn, cnx, cny, cs = item
    cal = rigs.camera((0, 0, 100))
    vp = rigs.volume(eps0=0.5)
    vp.cn, vp.cnx, vp.cny, vp.csumg = cn, cnx, cny, cs
    al = [(0, 1, 4, 8), (1, 2), (2, 4), (0, 10, 40)]
    for me in ((4, 2, 2, 10), (0, 1, 4, 40), (8, 1, 2, 0)):
        feats = list(itertools.product(*al))
        for k in range(0, len(feats), 6):
            fs = feats[k:k + 6]
            pts = [(-1.0 + 0.3 * i, 0.1, i) for i in range(len(fs))]
            seg = ((-2.0, 0.0), (2.0, 0.0))
            ref, _ = ref_candidates(pts, fs, seg, me, vp, sensor_of(CP17, cal))
            got = run_search(pts, fs, seg, me, vp, CP17, cal)
            r.ev(bool(ref))
            if not same(got, ref):
                r.fail("size and brightness limits are not applied as defined", ref, got, (item, me, fs))


def c17_sizes(item, r):
    """Long sorted lists: the start of the search skips nothing."""
    n, eps, dup = item
    cal = rigs.camera((0, 0, 100))
    vp = rigs.volume(eps0=eps)
    w = 9.0 / n
    # x sorted, with runs of equal x when dup
    pts = [(-4.5 + w * (i // dup * dup), 0.0 if i % 2 else 0.01, i) for i in range(n)]
    feats = [(9, 3, 3, 50 + i % 7) for i in range(n)]
    crd = crd_of(pts)
    pix = [Target(i, 0.0, 0.0, *f, -1) for i, f in enumerate(feats)]
    me = (9, 3, 3, 53)
    marks = range(n) if n < 70 else sorted({0, 1, 2, 5, 12, 13, 25, n // 4, n // 2 - 1, n // 2, n // 2 + 1, n - 30, n - 13, n - 2, n - 1} | set(range(0, n, max(1, n // 60))))
    xs = np.array([p[0] for p in pts])
    for m in marks:
        xa = pts[m][0] + eps * 0.9
        seg = ((xa, -0.2), (xa + min(2.5 * w, 0.3), 0.2))
        lo, hi = np.searchsorted(xs, xa - 2 * eps), np.searchsorted(xs, seg[1][0] + 2 * eps, side="right")
        ref, near = ref_candidates(pts[lo:hi], feats, seg, me, vp, sensor_of(CP17, cal))
        ref = [(j + int(lo), d, q) for j, d, q in ref]
        got = run_search(pts, feats, seg, me, vp, CP17, cal, crd, pix)
        r.ev(bool(ref))
        if near:
            continue
        if not same(got, ref):
            r.fail("long list: candidates are not those of an exhaustive search", ref[:5], got[:5], (n, eps, dup, m))
    r.sample(dict(list_length=n, start_positions=len(list(marks))))


def c17_capacity(n, r):
    cal = rigs.camera((0, 0, 100))
    vp = rigs.volume(eps0=0.2)
    pts = [(-2.0 + 0.03 * i, 0.0, i) for i in range(n)]
    feats = [(9, 3, 3, 50)] * n
    for seg in (((-3.0, 0.01), (3.0, 0.02)), ((3.0, 0.02), (-3.0, 0.01))):
        ref, _ = ref_candidates(pts, feats, seg, (9, 3, 3, 50), vp, sensor_of(CP17, cal))
        got = run_search(pts, feats, seg, (9, 3, 3, 50), vp, CP17, cal)
        r.ev()
        if not same(got, ref):
            r.fail("the capacity of candidates is not used", len(ref), len(got), n)


def c17_sensor(item, r):
    """Segments on, beside and across the sensor, with principal point and distortion."""
    xh, yh, ap = item
    cal = rigs.camera((0, 0, 100), xh=xh, yh=yh, dist=ap)
    vp = rigs.volume(eps0=0.6)
    sx0, sx1, sy0, sy1 = sensor_of(CP17, cal)
    clear = 0.35 if tuple(ap) != (0, 0, 0, 0, 0, 1, 0) else 1e-6
    for a in itertools.product((sx0 - 2, sx0 - .4, sx0 + .4, 0, sx1 - .4, sx1 + .4, sx1 + 2), (sy0 - 2, sy0 - .4, sy0 + .4, 0, sy1 - .4, sy1 + .4, sy1 + 2)):
        for d in ((0.05, 0.02), (-0.05, 0.9), (0.9, -0.05), (0.0, 0.03)):
            b = (a[0] + d[0], a[1] + d[1])
            x0, x1, y0, y1 = min(a[0], b[0]), max(a[0], b[0]), min(a[1], b[1]), max(a[1], b[1])
            margins = (x1 - sx0, sx1 - x0, y1 - sy0, sy1 - y0)
            if any(abs(m) < clear for m in margins):
                continue
            pts = sorted([(a[0], a[1], 0), ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2 + .01, 1)])
            feats = [(9, 3, 3, 50), (9, 3, 3, 50)]
            ref, near = ref_candidates(pts, feats, (a, b), (9, 3, 3, 50), vp, (sx0, sx1, sy0, sy1))
            got = run_search(pts, feats, (a, b), (9, 3, 3, 50), vp, CP17, cal)
            r.ev(bool(ref))
            if not near and not same(got, ref):
                r.fail("segment beside or on the sensor treated wrongly", ref, got, (item, a, b))


def c17_pairs(item, r):
    """match_pairs: the list of each target of each camera pair is the exhaustive search along its epipolar segment."""
    cams, idxs, eps, step, name = item
    cals, cp = c16_rig(name, cams)
    pts = [scene_lattice(step)[i] for i in idxs]
    vp = rigs.volume(eps0=eps)
    feats3 = [(20 + 3 * i, 4 + i % 2, 5 - i % 2, 100 + 13 * i) for i in range(len(pts))]
    ts, who = make_targets(cals, cp, pts, [ORD[(c + len(pts)) % 3] for c in range(cams)], feats=feats3)
    flat = flat_lists(ts, cals, cp)
    counts = [len(l) for l in ts]
    cl = co.safely_allocate_adjacency_lists(cams, counts)
    co.match_pairs(cl, flat, frame_of(ts), vp, cp, cals)
    a = np.asarray(cl)
    for c1 in range(cams):
        for c2 in range(c1 + 1, cams):
            lst = [(float(f.x), float(f.y), int(f.pnr)) for f in flat[c2]]
            fe = [(t.n, t.nx, t.ny, t.sumg) for t in ts[c2]]
            for i in range(counts[c1]):
                seg = ref_segment((flat[c1][i].x, flat[c1][i].y), cals[c1], cals[c2], cp.mm, -20.0, 20.0)
                t = ts[c1][int(flat[c1][i].pnr)]
                ref, near = ref_candidates(lst, fe, seg, (t.n, t.nx, t.ny, t.sumg), vp, sensor_of(cp, cals[c2]))
                row = a[c1, c2, i]
                got = [(int(row["p2"][k]), float(row["dist"][k]), float(row["corr"][k])) for k in range(int(row["n"]))]
                r.ev(bool(ref))
                # refraction is solved to a tolerance: leave out targets that lie close to the edge of the band
                wide = rigs.volume(eps0=eps + 1e-3)
                slim = rigs.volume(eps0=eps - 1e-3)
                if [x[0] for x in ref_candidates(lst, fe, seg, (t.n, t.nx, t.ny, t.sumg), wide, sensor_of(cp, cals[c2]))[0]] != \
                   [x[0] for x in ref_candidates(lst, fe, seg, (t.n, t.nx, t.ny, t.sumg), slim, sensor_of(cp, cals[c2]))[0]]:
                    continue
                ok = [g[0] for g in got] == [x[0] for x in ref] and all(abs(g[1] - x[1]) < 1e-3 and abs(g[2] - x[2]) < 1e-6 * x[2] for g, x in zip(got, ref))
                if not ok or int(row["p1"]) != i:
                    r.fail("pair lists are not those of an exhaustive search along the epipolar segment", ref, (int(row["p1"]), got), (item, c1, c2, i))


def C17(ctx):
    th = ctx.thorough
    subs = [s for k in range(0, 5 if th else 4) for s in itertools.combinations(range(len(LAT17)), k)]
    ctx.cases(c17_small, [(s, e) for s in subs for e in ((0.4, 0.25, 1.5) if th else (0.4, 1.5))], batch=10)
    lim = (0.0, 0.25, 0.5, 1.0)
    ctx.cases(c17_quality, [(a, b, c, d) for a in lim for b in (0, .5, .6) for c in (0, .5, 1.0) for d in (0.0, 0.25, 0.9, -1.0)], batch=6)
    big = (127, 128, 129, 1000, 1023, 1024, 1025, 4097, 8191, 8192, 16383, 20480)
    ctx.cases(c17_sizes, [(n, e, d) for n in list(range(1, 70)) + list(big) for e in (0.02, 0.3) for d in (1, 3) if n < 70 or e < 0.1], batch=2)
    ctx.cases(c17_capacity, [0, 1, 38, 39, 40, 41, 42, 60, 100], batch=1)
    ctx.cases(c17_sensor, [(xh, yh, ap) for xh in (0.0, 1.5, -0.5) for yh in (0.0, -1.0) for ap in ((0, 0, 0, 0, 0, 1, 0), (1e-3, 0, 0, 0, 0, 1, 0), (0, 0, 0, 1e-4, 1e-4, 1, 0))], batch=1)
    sub = [s for k in (1, 2, 3) for s in itertools.combinations(range(18), k)]
    ctx.cases(c17_pairs, [(2 + n % 3, s, (0.3, 1.2, 0.05)[n % 3], (3.0, 9.0)[n % 2], ("air", "water", "dist", "tilt")[n % 4]) for n, s in enumerate(sub if th else sub[::6])], batch=4)
    ctx.rule = f"all subsets of up to {4 if th else 3} of 12 points x 49 segments of every direction (degenerate and vertical included) x band widths; every ratio limit over all size/brightness values; list lengths 1..69 and up to 20480 x start positions; capacity; sensor edges; the pair search of whole scenes"
    ctx.assumptions = ["points within 1e-8 mm of the edge of the band are not judged", "the band of a segment is its widened bounding box intersected with the strip around its line, as the code documents"]


# ------------------------------------------------------------------ C18
def c18(item, r):
    name, cams, pts = item
    cals, cp = c18_rig(name)
    air = name in ("air", "dist", "roll")
    tol = 1e-7 if air else 2e-4  # mm on the sensor
    for P in pts:
        for i, k in itertools.permutations(range(4), 2):
            f1, f2 = rigs.ref_flat(P, cals[i], cp.mm), rigs.ref_flat(P, cals[k], cp.mm)
            for zr in ((-20.0, 20.0), (P[2], P[2] + 7.0), (P[2] - 5.0, P[2]), (P[2] - 0.005, P[2] + 0.005), (P[2], P[2])):
                vp = rigs.volume(zmin=zr[0], zmax=zr[1])
                e = epi.epi_mm(f1[0], f1[1], cals[i], cals[k], cp.mm, vp)
                seg = ((e[0], e[1]), (e[2], e[3]))
                ref = ref_segment(f1, cals[i], cals[k], cp.mm, *zr)
                r.ev()
                case = (name, P, i, k, zr)
                if not (np.allclose(seg[0], ref[0], rtol=0, atol=tol) and np.allclose(seg[1], ref[1], rtol=0, atol=tol)):
                    r.fail("the epipolar segment does not end at the images of the ray's points on the volume limits", ref, seg, case)
                # the matching point: on the segment (light bends: the segment is the chord of a curve)
                sag = seg_dist(f2, ref) if not air else 0.0
                if zr[0] <= P[2] <= zr[1] and seg_dist(f2, seg) > sag + 2 * tol or sag > 0.05:
                    r.fail("the epipolar segment misses the matching image point", f2, (seg, sag), case)
            vp = rigs.volume(zmin=-20.0, zmax=30.0)
            X = epi.epi_mm_2D(f1[0], f1[1], cals[i], cp.mm, vp)
            p, v = rigs.ref_trace(f1, cals[i], cp.mm)[-1]
            ref = p + v * ((5.0 - p[2]) / v[2])
            if not np.allclose(X, ref, rtol=0, atol=1e-6 if air else 1e-3):
                r.fail("epi_mm_2D is not the ray's point in the middle of the volume", ref, X, (name, P, i))
    r.sample(dict(rig=name, point=pts[0]))


C18_CFG = {}


def c18_rig(name):
    if name not in C18_CFG:
        kw = dict(air={}, water=dict(mm=rigs.WATER), dist=dict(dist=(2e-5, 0, 0, 1e-5, -1e-5, 1.001, 0.001), xh=0.1, yh=-0.05), tilt=dict(mm=rigs.WATER, glass=(8.0, -5.0, 100.0)),
                  roll=dict(roll=0.7), wdist=dict(mm=rigs.WATER, dist=(2e-5, 0, 0, 0, 0, 1, 0), xh=0.05))[name]
        C18_CFG[name] = rigs.rig(4, **kw)
    return C18_CFG[name]


def c18_layers(item, r):
    """Volume limits that change along x: depth interpolated at the point where the ray enters the medium."""
    name, zmin, zmax, P = item
    cals, cp = c18_rig(name)
    vp = rigs.volume(x=(-30.0, 50.0))
    vp.z_min_lay, vp.z_max_lay = list(zmin), list(zmax)
    tol = 1e-7 if name == "air" else 2e-4
    for i, k in itertools.permutations(range(4), 2):
        f1 = rigs.ref_flat(P, cals[i], cp.mm)
        p, v = rigs.ref_trace(f1, cals[i], cp.mm)[-1]
        w = (p[0] + 30.0) / 80.0
        z = [zmin[0] + w * (zmin[1] - zmin[0]), zmax[0] + w * (zmax[1] - zmax[0])]
        ref = ref_segment(f1, cals[i], cals[k], cp.mm, *z)
        e = epi.epi_mm(f1[0], f1[1], cals[i], cals[k], cp.mm, vp)
        r.ev(zmin[0] != zmin[1])
        if not (np.allclose(e[:2], ref[0], rtol=0, atol=tol) and np.allclose(e[2:], ref[1], rtol=0, atol=tol)):
            r.fail("limits of the volume are not interpolated along x", ref, e, (item, i, k))
        X = epi.epi_mm_2D(f1[0], f1[1], cals[i], cp.mm, vp)
        if abs(X[2] - sum(z) / 2) > 1e-6:
            r.fail("epi_mm_2D is not in the middle of the interpolated limits", sum(z) / 2, X, (item, i))


def c18_curve(item, r):
    name, P, n = item
    cals, cp = c18_rig(name)
    vp = rigs.volume(zmin=-15.0, zmax=18.0)
    for i, k in itertools.permutations(range(4), 2):
        px = rigs.ref_pixel(P, cals[i], cp)
        c = np.asarray(epi.epipolar_curve(px, cals[i], cals[k], n, cp, vp))
        f = rigs.ref_flat(P, cals[i], cp.mm)
        p, v = rigs.ref_trace(f, cals[i], cp.mm)[-1]
        ref = np.array([rigs.ref_pixel(p + v * ((z - p[2]) / v[2]), cals[k], cp) for z in np.linspace(-15.0, 18.0, n)])
        r.ev()
        if c.shape != (n, 2) or not np.allclose(c, ref, rtol=0, atol=1e-4 if name in ("air", "dist", "roll") else 0.05):
            r.fail("the epipolar curve is not the image of the ray between the volume limits", ref, c, (item, i, k))


def C18(ctx):
    th = ctx.thorough
    s = (-25.0, -8.0, 0.0, 13.0, 25.0) if th else (-25.0, 0.0, 13.0)
    pts = [(x, y, z) for x in s for y in s for z in (-20.0, -7.0, 0.0, 11.0, 20.0)]
    names = ("air", "water", "dist", "tilt", "roll", "wdist")
    ctx.cases(c18, [(n, 4, [p]) for n in names for p in pts], batch=4)
    lay = [((-20.0, -10.0), (20.0, 15.0)), ((-10.0, -20.0), (5.0, 25.0)), ((-20.0, -20.0), (10.0, 20.0)), ((-5.0, -15.0), (12.0, 12.0))]
    ctx.cases(c18_layers, [(n, a, b, p) for n in ("air", "water", "tilt") for a, b in lay for p in pts[::4]], batch=6)
    ctx.cases(c18_curve, [(n, p, k) for n in names for p in pts[::3] for k in (2, 3, 5)] + [(n, p, k) for n in (names if th else ("air", "tilt")) for p in pts[::20] for k in (7, 10, 41, 100, 333)], batch=4)
    ctx.rule = "lattice of 3D points x all ordered camera pairs x volume limits (touching the point, sloping along x) x six rigs; curves of 2 to 333 points"
    ctx.assumptions = ["with refraction the segment is the chord of a curve; its end points are compared with the reference optics and the chord's own sagitta is allowed"]
