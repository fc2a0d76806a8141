"""C07-C10: tracking runs from disk to disk over enumerated small histories."""
import itertools

import numpy as np

from . import rigs, scene
from .scene import Scene, check_graph

LEVELS = {k: "model_checking" for k in ("C07", "C08", "C09", "C10")}


def best_choice_monitor(r, case):
    """After each step: a particle has its best candidate as successor, or that candidate went to a better bidder."""
    def mon(run, step):
        parts = run.fb.buf[0].path_info[:run.fb.buf[0].num_parts]
        if not all(hasattr(p, "decis") and hasattr(p, "linkdecis") and hasattr(p, "inlist") for p in parts):
            return
        best = {}
        for h, p in enumerate(parts):
            if p.inlist > 0:
                d, q = min(zip(p.decis[:p.inlist], p.linkdecis[:p.inlist]))
                best[h] = (d, q)
                r.add("bids")
        owner = {p.next_frame: h for h, p in enumerate(parts) if p.next_frame >= 0}
        for h, (d, q) in best.items():
            nxt = parts[h].next_frame
            if nxt >= 0:
                if nxt not in [l for v, l in zip(parts[h].decis[:parts[h].inlist], parts[h].linkdecis[:parts[h].inlist]) if v == d]:
                    r.fail(f"step {step}: particle {h} is linked to a candidate that is not its best", (d, q), nxt, case)
            elif q not in owner:
                r.fail(f"step {step}: particle {h} got no successor although its best candidate {q} stayed free", None, best, case)
            elif best[owner[q]][0] > d:
                r.fail(f"step {step}: particle {h} lost candidate {q} to a worse competitor", best, owner, case)
        for h, p in enumerate(parts):
            if p.next_frame >= 0 and h not in best:
                r.fail(f"step {step}: particle {h} has a successor without any candidate", None, p.next_frame, case)
    return mon


def same_data(before, after, r, case, what, exact=True):
    for k, (b, a) in enumerate(zip(before, after)):
        for key in b:
            if a[key] != b[key]:
                r.fail(f"{what}: {key} of frame {k} changed", b[key], a[key], case)
                return False
    return True


def totals(sc, run, n, r, case):
    parts = sum(len(sc.positions(f)) for f in range(sc.first, sc.last))
    if run.nlinks != n or run.npart != parts:
        r.fail("reported totals of particles and links differ from the files", (parts, n), (run.npart, run.nlinks), case)


def forward_case(frames, r, ncam=2, kind="air", case=None, first=1, extra=None, **par):
    """Track; returns (scene, link count)."""
    case = case if case is not None else (frames, ncam, kind, par)
    sc = Scene(frames, ncam, kind, first, extra=extra)
    before = sc.data()
    run = sc.run_info(**par)
    sc.forward(run, best_choice_monitor(r, case))
    n = check_graph(sc.graph(), r, case, "forward tracking")
    r.add("states", len(frames))
    r.add("transitions", len(frames) - 1)
    r.add("traces_validated_against_impl")
    if n is not None:
        totals(sc, run, n, r, case)
        r.outcome((n, tuple(len(f) for f in frames)))
        r.add("links_made", n)
    return sc, before, run, n


# ------------------------------------------------------------------ C07
LINE = [(0.0, 0.0, 0.0), (2.0, 0.0, 0.0), (4.0, 0.0, 0.0), (6.0, 0.0, 0.0)]
PLANE = [(0.0, 0.0, 0.0), (2.0, 0.0, 0.0), (0.0, 2.0, 0.0), (1.9, 1.7, 1.0), (4.1, 0.3, -0.7)]
SETTINGS = [dict(lim=3.0, dangle=250.0, dacc=20.0), dict(lim=5.0, dangle=120.0, dacc=5.0), dict(lim=7.0, dangle=250.0, dacc=60.0), dict(lim=3.0, dangle=60.0, dacc=1.0)]


def c07_case(item, r):
    pts, frames, setting, ncam, add = item
    table = dict(line=LINE, plane=PLANE)[pts]
    fr = [[table[i] for i in f] for f in frames]
    sc, before, run, n = forward_case(fr, r, ncam, case=item, add=add, **SETTINGS[setting])
    same_data(before, sc.data(), r, item, "forward tracking")
    r.sample(dict(frames=fr, setting=SETTINGS[setting], cameras=ncam))


def c07_gaps(item, r):
    """Adding on: the link graph stays consistent with the particles that were added."""
    frames, setting, ncam = item
    fr = []
    for f in frames:
        fr.append([(LINE[i] if i < 4 else PLANE[i - 4], dict(listed=l)) for i, l in f])
    forward_case(fr, r, ncam, case=item, add=1, **SETTINGS[setting])


def c07_retrack(item, r):
    """Tracking again, with other settings, gives what tracking for the first time would have given."""
    frames, first, second, ncam = item
    fr = [[LINE[i] for i in f] for f in frames]
    sc, before, run, n = forward_case(fr, r, ncam, case=item, **SETTINGS[second])
    want = sc.graph()
    sc, before, run, n = forward_case(fr, r, ncam, case=item, **SETTINGS[first])
    again = sc.run_info(**SETTINGS[second])
    sc.forward(again, best_choice_monitor(r, item))
    n = check_graph(sc.graph(), r, item, "tracking again")
    if n is not None:
        totals(sc, again, n, r, item)
        if sc.graph() != want:
            r.fail("tracking a tracked sequence again gives other links than tracking it for the first time", want, sc.graph(), item)
    same_data(before, sc.data(), r, item, "tracking again")
    sc.backward(sc.run_info(**SETTINGS[second]))
    check_graph(sc.graph(), r, item, "tracking forward, forward and back")
    r.add("traces_validated_against_impl", 2)


def crowd(n, r):
    """n particles within reach of each other: many candidates to rank."""
    k, ncam, step, setting = n
    pts = [(1.1 * (i % 3), 1.2 * (i // 3 % 3), 0.9 * (i // 9)) for i in range(k)]
    frames = [[tuple(round(c + step * t * (1 if d == i % 3 else 0.3), 3) for d, c in enumerate(p)) for i, p in enumerate(pts)] for t in range(4)]
    if setting % 2:
        frames = [f[::-1] if t % 2 else f for t, f in enumerate(frames)]
    sc, before, run, n_ = forward_case(frames, r, ncam, case=n, **SETTINGS[setting % len(SETTINGS)])
    same_data(before, sc.data(), r, n, "forward tracking")


def ordered(n, k):
    return [p for j in range(k + 1) for p in itertools.permutations(range(n), j)]


def unordered(n, k, lo=0):
    return [p for j in range(lo, k + 1) for p in itertools.combinations(range(n), j)]


def C07(ctx):
    ctx.rule = "every history is a complete tracking run from disk to disk; links_made counts the links judged"
    U, O = unordered(3, 2), ordered(3, 2)
    items = [("line", (a, b, c, d), 0, 2, 0) for a in U[1:] for b in O[1:] for c in U for d in (O if ctx.thorough else U)]
    ctx.cases(c07_case, items, group="3 positions, 4 frames")
    U = unordered(4, 3, 1)
    items = [("line", (a, b, c), 2, 2, 0) for a in U for b in U for c in U if len(b) < 3 or len(a) > 1]
    ctx.cases(c07_case, items if ctx.thorough else items[::2], group="4 positions, up to 3 competing particles, 3 frames")
    U = unordered(5, 2, 1)
    items = [("plane", (a, b, c, a), s, 3, add) for a in U for b in U[::2] for c in U[::3] for s in (1, 3) for add in (0, 1)]
    ctx.cases(c07_case, items if ctx.thorough else items[::8], group="plane lattice, 3 cameras")
    if ctx.thorough:
        U = unordered(3, 2)
        ctx.cases(c07_case, [("line", p, s, 2, 0) for p in itertools.product(U, repeat=5) for s in (1,)], group="3 positions, 5 frames")
    # two particles with every pattern of being listed or left over, adding on
    cells = [()] + [((0, a),) for a in (0, 1)] + [((0, a), (3, b)) for a in (0, 1) for b in (0, 1)]
    move = lambda cell, t: tuple(((i + t) % 4 if i == 0 else max(3 - t, 0) if ctx.thorough else i, l) for i, l in cell)
    items = []
    for cs in itertools.product(cells[1:], repeat=4):
        items.append((tuple(move(c, min(t, 2)) for t, c in enumerate(cs)), 0, 2))
    ctx.cases(c07_gaps, items if ctx.thorough else items[::2], group="adding on, particles listed or left over")
    U = unordered(3, 2, 1)
    items = [(f, a, b, 2) for f in itertools.product(U[::2] if not ctx.thorough else U, repeat=4) for a, b in ((0, 3), (3, 0), (1, 3))]
    ctx.cases(c07_retrack, items, group="tracking again with other settings")
    ctx.cases(crowd, [(k, c, s, l) for k in ((4, 8, 9, 18) if not ctx.thorough else (4, 6, 8, 9, 12, 18, 27)) for c in (2, 3) for s in (0.1, 0.4, 0.9) for l in (2, 5)], group="crowds", batch=1)
    ctx.notes["bounds"] = "2-3 particles per frame on 3-5 positions, 3-5 frames, orders of listing, 4 limit settings; the histories of each group are all enumerated (quick: every 2nd or 8th of the larger groups)"
    ctx.assumptions = ["frames listed in the files are those the detection would write (targets sorted by row)"]


# ------------------------------------------------------------------ C08
STARTS = [(-14.0, -12.0, -5.0), (13.0, -11.0, 6.0), (1.0, 14.0, 0.0)]
WOBBLE = [(0.0, 0.0, 0.0), (0.05, -0.04, 0.03), (-0.04, 0.05, -0.05), (0.03, 0.04, 0.05), (-0.05, -0.03, -0.02), (0.04, 0.05, -0.03), (0.01, -0.05, 0.04)]


def traj(start, vel, t, seed=0):
    f = min(1.0, float(np.linalg.norm(vel)) / 1.5)  # deviations in proportion to the speed
    return tuple(round(s + v * t + f * w, 3) for s, v, w in zip(start, vel, WOBBLE[(t + seed) % len(WOBBLE)]))


def c08_case(item, r):
    """parts: list of (start index, velocity, first frame, last frame); orders: a permutation per frame."""
    parts, nfr, orders, ncam, kind, add, setting = item
    frames, idx = [], []
    for t in range(nfr):
        present = [k for k, (_, _, a, b) in enumerate(parts) if a <= t <= b]
        if orders:
            present = [k for k in orders[t] if k in present]
        frames.append([traj(STARTS[parts[k][0]], parts[k][1], t, k) for k in present])
        idx.append({k: i for i, k in enumerate(present)})
    sc, before, run, n = forward_case(frames, r, ncam, kind, item, first=setting, lim=3.0, dangle=100.0, dacc=2.5, add=add)
    same_data(before, sc.data(), r, item, "tracking with nothing to add")
    g = sc.graph()
    want = [[(-1, -2)] * len(f) for f in frames]
    for k, (_, _, a, b) in enumerate(parts):
        for t in range(a, b + 1):
            want[t][idx[t][k]] = (idx[t - 1][k] if t > a else -1, idx[t + 1][k] if t < b else -2)
    if g != want:
        r.fail("well separated smooth trajectories are not recovered completely and exclusively", want, g, item)
    r.sample(dict(parts=parts, frames=nfr, cameras=ncam, rig=kind))


def c08_limits(item, r):
    """A particle whose motion is within limits that differ from axis to axis and from side to side."""
    lims, vel, ncam, kind, start = item
    frames = [[tuple(round(s + v * t, 3) for s, v in zip(start, vel))] for t in range(5)]
    sc, before, run, n = forward_case(frames, r, ncam, kind, item, lim=lims, dangle=100.0, dacc=1.0)
    g = sc.graph()
    want = [[(0 if t else -1, 0 if t < 4 else -2)] for t in range(5)]
    if g != want:
        r.fail("a particle moving steadily within the velocity limits is not followed", want, g, item)
    r.sample(dict(limits=lims, velocity=vel))


def c08_many(item, r):
    """A lattice of particles moving together or each in its own direction."""
    n, ncam, kind, vmode, order = item
    pts = [(20.0 * (i % 3 - 1), 18.0 * (i // 3 % 3 - 1), 13.0 * (i // 9 - 1)) for i in range(27)] + [(10.0 * s, 9.0, 6.0) for s in (-1, 1, 2)] + [(10.0, -9.0, 6.0), (-10.0, -9.0, -6.0), (10.0, 9.0, -7.0)]
    vel = [(1.2, 0.4, -0.3) if vmode == 0 else ((1.0, -0.8, 0.3), (-0.9, 0.7, 0.5), (0.2, 1.1, -0.6), (0.0, 0.0, 0.0))[i % 4] for i in range(len(pts))]
    frames, idx = [], []
    for t in range(4):
        o = list(range(n))
        if order == 1 and t % 2:
            o = o[::-1]
        elif order == 2:
            o = [(i * 7 + t * 5) % n if n % 7 else (i * 5 + t * 3) % n for i in o]
        elif order == 3:
            o = o[t * n // 4:] + o[:t * n // 4]
        assert sorted(o) == list(range(n))
        frames.append([tuple(round(s + v * t, 3) for s, v in zip(pts[i], vel[i])) for i in o])
        idx.append({k: i for i, k in enumerate(o)})
    sc, before, run, n_ = forward_case(frames, r, ncam, kind, item, lim=2.0, dangle=100.0, dacc=1.0)
    same_data(before, sc.data(), r, item, "tracking with nothing to add")
    want = [[None] * n for _ in range(4)]
    for k in range(n):
        for t in range(4):
            want[t][idx[t][k]] = (idx[t - 1][k] if t else -1, idx[t + 1][k] if t < 3 else -2)
    if sc.graph() != want:
        r.fail("well separated smooth trajectories are not recovered completely and exclusively", want, sc.graph(), item)
    r.sample(dict(particles=n, cameras=ncam, order=order))


def C08(ctx):
    ctx.rule = "every history is a complete tracking run whose whole link graph is compared with the known trajectories"
    th = ctx.thorough
    V = [(1.5, 0.3, -0.4), (-1.2, 0.9, 0.5), (0.2, -1.6, 0.8)]
    perms = list(itertools.permutations(range(3)))
    items = [([(k, V[k], 0, 3) for k in range(3)], 4, o, 2, "air", 0, 1) for o in itertools.product(perms[:1] if not th else perms, perms, perms, perms)]
    ctx.cases(c08_case, items, group="listing orders of 3 particles")
    nfr = 6 if th else 5
    ivals = [(a, b) for a in range(nfr) for b in range(a + 2, nfr)]
    items = [([(0, V[0], *i), (1, V[1], *j)], nfr, [(0, 1) if t % 2 else (1, 0) for t in range(nfr)], n, "air", add, 10)
             for i in ivals for j in ivals for n, add in ((2, 0), (2, 1), (3, 0))]
    ctx.cases(c08_case, items, group="appearance intervals")
    dirs = list(itertools.product((-1.6, 0.0, 1.6), repeat=3))
    items = [([(k, d, 0, 3), ((k + 1) % 3, V[k], 0, 3)], 4, None, n, kind, 0, f)
             for d in dirs for k in (range(3) if th else (0,)) for n, kind, f in (((2, "air", 1), (4, "tilt", 9), (3, "water", 99), (2, "tilt", 9998)) if th else ((2, "water", 9998), (4, "tilt", 9)))]
    ctx.cases(c08_case, items, group="directions of motion, rigs")
    items = [([(k, tuple(s * v for v in V[j]), 0, 4)], 5, None, 2, kind, 0, 1) for k in range(3) for j in range(3) for s in (0.0, 0.1, 0.5, 1.0, 1.3, -1.0) for kind in ("air", "water")]
    ctx.cases(c08_case, items, group="speeds from rest to near the limit")
    L = [(-0.6, 3.0), (-3.0, 0.6), (-2.5, 2.5), (-0.4, 0.4)]
    inside = {0: (2.4, 1.0, 0.0), 1: (-2.4, 0.0, -1.1), 2: (2.0, -2.0, 0.5), 3: (0.3, -0.2, 0.0)}
    items = [(tuple(L[i] for i in ls), v, n, kind, (-4.0, 3.0, 1.0)) for ls in itertools.product(range(4), repeat=3)
             for v in ([tuple(inside[i][k] for i in ls) for k in range(3)]) for n, kind in (((2, "air"), (3, "water")) if th else ((3, "air"),))]
    ctx.cases(c08_limits, items, group="limits that differ between axes and sides")
    items = [(n, c, kind, vm, o) for n in (([8, 16, 24, 25, 26, 27, 32, 33] if not th else list(range(4, 34)))) for c, kind in ((3, "air"), (4, "tilt")) for vm in (0, 1) for o in ((n % 4, (n + 1) % 4) if not th else range(4))]
    ctx.cases(c08_many, items, group="many particles", batch=1)
    if th:
        ivals = [(0, 4), (1, 3), (2, 4), (0, 2), (1, 4), (0, 3)]
        items = [([(0, V[0], *i), (1, V[1], *j), (2, V[2], *k)], 5, o, 2, "air", 1, 1)
                 for i in ivals for j in ivals for k in ivals for o in ([(0, 1, 2)] * 5, [perms[(t * 2 + 1) % 6] for t in range(5)])]
        ctx.cases(c08_case, items, group="three intervals")
    ctx.notes["bounds"] = f"1-3 trajectories, 4..{nfr} frames, all listing orders of 3 particles, all intervals of at least 3 frames, 27 directions, 6 speeds, 2-4 cameras, 3 rigs"
    ctx.assumptions = ["trajectories of at least three frames (shorter ones need no evidence of smoothness and are not promised)"]


# ------------------------------------------------------------------ C09
def c09_case(item, r):
    """A given link graph over trajectories (positions per frame), then one backward pass."""
    trajs, keep, ncam, kind, add, smooth, setting = item
    nfr = len(trajs[0])
    frames = [[tuple(t[f]) for t in trajs if t[f] is not None] for f in range(nfr)]
    idx = [{k: i for i, k in enumerate(k for k, t in enumerate(trajs) if t[f] is not None)} for f in range(nfr)]
    links = [[[-1, -2] for _ in f] for f in frames]
    pos = 0
    for k, t in enumerate(trajs):
        for f in range(nfr - 1):
            if t[f] is not None and t[f + 1] is not None:
                if keep[pos % len(keep)]:
                    links[f][idx[f][k]][1] = idx[f + 1][k]
                    links[f + 1][idx[f + 1][k]][0] = idx[f][k]
                pos += 1
    sc = Scene(frames, ncam, kind, first=9, name="trkb")
    sc.write_links(links)
    before, g0 = sc.data(), sc.graph()
    run = sc.run_info(add=add, **SETTINGS[setting])
    sc.backward(run)
    r.add("states", nfr)
    r.add("transitions", nfr - 2)
    r.add("traces_validated_against_impl")
    after, g1 = sc.data(), sc.graph()
    same_data(before, after, r, item, "backward tracking")
    if check_graph(g1, r, item, "backward tracking") is None:
        return
    new = 0
    for t, (a, b) in enumerate(zip(g0, g1)):
        for i, ((p, q), (p1, q1)) in enumerate(zip(a, b)):
            if (p >= 0 and p1 != p) or (q >= 0 and q1 != q):
                r.fail(f"backward tracking altered an existing link of particle {i} in frame {t}", (p, q), (p1, q1), item)
            new += q1 >= 0 > q
    r.add("links_added", new)
    r.outcome(new)
    if smooth:
        for k, t in enumerate(trajs):
            present = [f for f in range(nfr) if t[f] is not None]
            kept = [f for f in present if f + 1 in present and links[f][idx[f][k]][1] >= 0]
            if not kept:
                continue
            for f in range(present[0], kept[-1]):
                if g1[f][idx[f][k]][1] != idx[f + 1][k]:
                    r.fail(f"backward tracking does not restore the missing link of smooth trajectory {k} after frame {f}", idx[f + 1][k], g1[f][idx[f][k]][1], item)
                    return
    r.sample(dict(trajectories=trajs, kept=keep))


def C09(ctx):
    ctx.rule = "every history is a stored tracked sequence, one backward pass, and the comparison of all files"
    th = ctx.thorough
    V = [(1.5, 0.3, -0.4), (-1.2, 0.9, 0.5), (0.2, -1.6, 0.8)]
    T = lambda k, n, a=0, b=99: tuple(traj(STARTS[k], V[k], t, k) if a <= t <= b else None for t in range(n))
    items = [([T(0, n)], keep, 2, "air", add, True, 0) for n in ((4, 5, 6, 7) if th else (4, 5, 6)) for keep in itertools.product((0, 1), repeat=n - 1) for add in (0, 1)]
    ctx.cases(c09_case, items, group="one trajectory, every pattern of missing links")
    for n in (4, 5) if th else (4,):
        items = [([T(0, n), T(1, n)], keep, 2, "air", 0, True, 0) for keep in itertools.product((0, 1), repeat=2 * (n - 1))]
        ctx.cases(c09_case, items, group=f"two trajectories, {n} frames")
    if th:
        items = [([T(0, 4), T(1, 4), T(2, 4)], keep, 2, "air", 0, True, 0) for keep in itertools.product((0, 1), repeat=9)]
        ctx.cases(c09_case, items, group="three trajectories")
    ivals = [(a, b) for a in range(5) for b in range(a + 1, 5)]
    items = [([T(0, 5, *i), T(1, 5, *j)], keep, n, "air", 0, True, 0) for i in ivals for j in ivals for keep in ((1,), (0, 1), (1, 0), (0, 1, 1)) for n in (2,)]
    ctx.cases(c09_case, items, group="appearance intervals")
    # frames without any particle in between
    items = []
    for n in (6, 7, 8):
        for a in range(1, n - 1):
            for b in range(a, min(a + 3, n - 1)):
                for keep in ((1, 0), (0, 1), (0, 0, 1), (1, 1, 0)):
                    items.append(([T(0, n, 0, a - 1), T(1, n, b + 1, n - 1), T(2, n, b + 1, n - 2)], keep, 2 + (n + a) % 2, "air", (a + b) % 2, True, 0))
    ctx.cases(c09_case, items, group="empty frames in between")
    # crowded: every arrangement of two particles on three positions over four frames, links by trajectory identity
    pos = LINE[:3]
    pairs = [(a, b) for a in list(range(3)) + [None] for b in list(range(3)) + [None] if a != b or a is None]
    keeps = list(itertools.product((0, 1), repeat=3))
    g = lambda i: None if i is None else pos[i]
    combos = list(itertools.product(pairs, repeat=4))
    items = []
    for m, c in enumerate(combos):
        for kk in (keeps if th else (keeps[m % 8], keeps[(m + 3) % 8])):
            items.append(([tuple(g(p[0]) for p in c), tuple(g(p[1]) for p in c)], kk, 2, "air", 0, False, 0))
    ctx.cases(c09_case, items if th else items[::5], group="crowded arrangements")
    items = [([T(0, 5), T(2, 5, 1, 4)], keep, n, kind, 0, True, 0) for keep in itertools.product((0, 1), repeat=4) for n, kind in ((4, "tilt"), (3, "water"))]
    ctx.cases(c09_case, items, group="rigs")
    ctx.notes["bounds"] = "1-3 trajectories over 4-7 frames, all patterns of kept/missing links; all arrangements of 2 particles on 3 positions over 4 frames (quick: every 5th)"
    ctx.assumptions = ["sequences of at least four frames (the backward pass fills its buffer with four)"]


# ------------------------------------------------------------------ C10
def judge_added(sc, run, before, after, add, ncam, kind, r, item):
    """Adding appends particles that their targets back; everything else stays."""
    if not add:
        same_data(before, after, r, item, "tracking without adding")
        return
    added = 0
    for t, (b, a) in enumerate(zip(before, after)):
        n0 = len(b["pos"])
        if a["pos"][:n0] != b["pos"] or a["corr"][:n0] != b["corr"]:
            r.fail(f"adding particles altered existing ones in frame {t}", (b["pos"], b["corr"]), (a["pos"], a["corr"]), item)
            return
        for c in range(ncam):
            if [x[:7] for x in a["targ"][c]] != [x[:7] for x in b["targ"][c]]:
                r.fail(f"image data of targets changed in frame {t}, camera {c}", b["targ"][c], a["targ"][c], item)
                return
        owned = {}
        for i, corr in enumerate(a["corr"]):
            if i >= n0:
                added += 1
                p = a["pos"][i]
                v = run.vpar
                if not (v.x_lay[0] < p[0] < v.x_lay[1] and run.ymin < p[1] < run.ymax and v.z_min_lay[0] < p[2] < v.z_max_lay[1]):
                    r.fail(f"added particle outside the volume in frame {t}", None, p, item)
                if sum(j >= 0 for j in corr) < 2 or any(j >= 0 for j in corr[ncam:]):
                    r.fail(f"added particle of frame {t} is not backed by two cameras", None, corr, item)
                # it lies where its targets see it
                for c, j in enumerate(corr[:ncam]):
                    if 0 <= j < len(a["targ"][c]):
                        x, y = scene.pixel(p, ncam, c, kind)
                        if abs(x - a["targ"][c][j][1]) > 1.5 or abs(y - a["targ"][c][j][2]) > 1.5:
                            r.fail(f"added particle of frame {t} is not at its image in camera {c}", a["targ"][c][j][1:3], (x, y), item)
            for c, j in enumerate(corr[:ncam]):
                if j >= 0:
                    if j >= len(a["targ"][c]) or (c, j) in owned:
                        r.fail(f"target {j} of camera {c} in frame {t} is missing or used twice", owned, a["corr"], item)
                    owned[c, j] = i
        for c in range(ncam):
            for j, x in enumerate(a["targ"][c]):
                if int(x[7]) != owned.get((c, j), -1):
                    r.fail(f"target {j} of camera {c} in frame {t} names particle {int(x[7])}, used by {owned.get((c, j), -1)}", b["targ"][c], a["targ"][c], item)
    r.add("particles_added", added)
    r.outcome(("added", added))


def c10_case(item, r):
    """cells[t][k]: 'L' listed, '' absent, or a tuple of cameras in which an unlisted particle left targets."""
    cells, ncam, kind, add, setting, starts = item[:6]
    lim = item[6] if len(item) > 6 else 3.0
    V = [(1.5, 0.3, -0.4), (-1.2, 0.9, 0.5), (0.2, -1.6, 0.8)]
    frames = []
    for t, row in enumerate(cells):
        fr = []
        for k, c in enumerate(row):
            p = traj(starts[k], V[k], t, k) if setting != "exact" else tuple(round(s + v * t, 3) for s, v in zip(starts[k], V[k]))
            if c == "L":
                fr.append((p, {}))
            elif c == "M":  # listed, but seen by two cameras only
                fr.append((p, dict(cams=(0, ncam - 1))))
            elif c:
                fr.append((p, dict(listed=False, cams=c)))
        frames.append(fr)
    sc, before, run, n = forward_case(frames, r, ncam, kind, item, lim=lim, dangle=100.0, dacc=2.5, add=add)
    after = sc.data()
    judge_added(sc, run, before, after, add, ncam, kind, r, item)
    if not add:
        return
    # a particle of a smooth, isolated path that is missing from the list but seen by every camera is added back
    for k in range(len(cells[0])):
        col = [row[k] for row in cells]
        for t in range(2, len(cells)):
            if col[t] == tuple(range(ncam)) and col[t - 1] == "L" and col[t - 2] == "L" and setting == "exact" and t < len(cells):
                p = tuple(s + v * t for s, v in zip(starts[k], V[k]))
                if sum(np.linalg.norm(np.subtract(p, q)) < 0.2 for q in after[t]["pos"]) != 1:
                    r.fail(f"particle {k} seen by all cameras but missing from the list of frame {t} was not added once", p, after[t]["pos"], item)
    r.sample(dict(cells=cells, cameras=ncam))


def c10_leaving(item, r):
    """A particle that is listed at first crosses a face of the volume while its targets stay visible."""
    face, ncam, kind, cross, nlist, off = item
    axis, side = divmod(face, 2)
    sign = 1.0 if side else -1.0
    vol = rigs.volume(zmin=-8.0, zmax=9.0, x=(-7.0, 6.0))
    ref = Scene([[(0.0, 0.0, 0.0)]] * 4, ncam, kind).run_info(vol=vol)
    limit = ((vol.x_lay[0], vol.x_lay[1]), (ref.ymin, ref.ymax), (vol.z_min_lay[0], vol.z_max_lay[1]))[axis][side]
    step = [0.3, -0.2, 0.25]
    step[axis] = 0.8 * sign
    start = [1.0, -1.0, 0.5]
    start[axis] = limit - sign * (cross * 0.8 + off)   # after `cross` steps it is still `off` inside (or outside, if negative)
    frames = []
    for t in range(5):
        p = tuple(round(s + v * t, 3) for s, v in zip(start, step))
        frames.append([(p, dict(listed=t < nlist)), ((-3.0 - 0.3 * t, 3.0, 0.0), {})][:: 1 if t % 2 else -1])
    sc, before, run, n = forward_case(frames, r, ncam, kind, item, lim=2.0, dangle=100.0, dacc=1.0, add=1, vol=vol)
    after = sc.data()
    judge_added(sc, run, before, after, 1, ncam, kind, r, item)
    # the first step without it: added exactly when inside
    t = nlist
    p = [s + v * t for s, v in zip(start, step)]
    inside = (limit - p[axis]) * sign
    cp = run.cpar
    visible = all(0 <= x <= cp.imx and 0 <= y <= cp.imy for f in frames[:t + 1] for q, _ in f for c in range(ncam) for x, y in [scene.pixel(q, ncam, c, kind)])
    if abs(inside) > 0.05 and visible:
        r.add("faces_judged")
        near = sum(np.linalg.norm(np.subtract(p, q)) < 0.2 for q in after[t]["pos"])
        if near != (1 if inside > 0 else 0):
            r.fail(f"a particle {'inside' if inside > 0 else 'outside'} the volume, seen by all cameras, appears {near} times in frame {t}", p, after[t]["pos"], item)


def c10_neighbour(item, r):
    """The predicted place of a missing particle lies beside a listed particle, which keeps its targets."""
    dx, dy, idx, gap, ncam, seen = item
    frames = []
    for t in range(5):
        p = (-3.0 + 1.0 * t, 0.5, 0.0)
        other = (8.0 - t, 8.0, 0.0) if t != gap else (p[0] + dx, p[1] + dy, 0.0)
        fr = [(other, {})]
        if t != gap:
            fr.insert(idx, (p, {}))
        elif seen:
            fr.append((p, dict(listed=False, cams=seen)))
        frames.append(fr)
    sc, before, run, n = forward_case(frames, r, ncam, "air", item, lim=2.0, dangle=100.0, dacc=0.3, add=1)
    judge_added(sc, run, before, sc.data(), 1, ncam, "air", r, item)


def c10_decoy(item, r):
    """A missing particle whose search volume holds a listed particle that cannot be its continuation."""
    off, gap, ncam, kind, seen, first, v = item
    V = ((1.0, 0.2, -0.3), (-0.8, 0.9, 0.4))[v]
    frames = []
    for t in range(6):
        p = tuple(round(s + u * t, 3) for s, u in zip((-3.0, -1.0, 1.0), V))
        fr = []
        if t != gap:
            fr.append((p, {}))
        else:
            fr.append((tuple(round(a + b, 3) for a, b in zip(p, off)), {}))
            if seen:
                fr.append((p, dict(listed=False, cams=seen)))
        fr.insert(0 if first else len(fr), ((9.0 - 0.5 * t, 9.0, -4.0), {}))
        frames.append(fr)
    sc, before, run, n = forward_case(frames, r, ncam, kind, item, lim=2.0, dangle=100.0, dacc=0.3, add=1)
    after = sc.data()
    judge_added(sc, run, before, after, 1, ncam, kind, r, item)
    if len(seen) == ncam:
        p = tuple(s + u * gap for s, u in zip((-3.0, -1.0, 1.0), V))
        r.add("gaps_judged")
        if sum(np.linalg.norm(np.subtract(p, q)) < 0.2 for q in after[gap]["pos"]) != 1:
            r.fail(f"a particle seen by all cameras but missing from the list of frame {gap}, with another particle nearby, was not added once", p, after[gap]["pos"], item)


def C10(ctx):
    ctx.rule = "every history is a complete tracking run whose positions, correspondences and targets are compared before and after"
    th = ctx.thorough
    one = ["L", "", (0, 1), (0,), (1,)]
    n = 5 if th else 4
    items = [(tuple((c,) for c in cs), 2, "air", add, s, (STARTS[0],)) for cs in itertools.product(one, repeat=n) if cs.count("L") >= 1 for add in (0, 1) for s in ("exact",)]
    ctx.cases(c10_case, items, group="one particle, every pattern of gaps, 2 cameras")
    two = [("L", "L"), ("L", (0, 1)), ((0, 1), "L"), ((0, 1), (0, 1)), ("", "L"), ("L", (1,))]
    items = [(cs, 2, kind, 1, s, (STARTS[0], STARTS[1])) for cs in itertools.product(two, repeat=4) for kind, s in (("air", "exact"),) + ((("water", "wobble"),) if th else ())]
    ctx.cases(c10_case, items if th else items[::2], group="two particles, gaps")
    # close particles: the left-over targets of one are near the path of the other
    near = (STARTS[2], tuple(s + 1.1 for s in STARTS[2]))
    items = [(cs, 2, "air", 1, "wobble", near) for cs in itertools.product(two, repeat=4)]
    ctx.cases(c10_case, items if th else items[::2], group="two close particles, gaps")
    four = ["L", "M", (0, 1, 2, 3), (0, 2), (3,)]
    items = [(tuple((c,) for c in cs), 4, kind, 1, "exact", (STARTS[1],)) for cs in itertools.product(four, repeat=4) if cs[0] in ("L", "M") for kind in (("air", "tilt") if th else ("tilt",))]
    ctx.cases(c10_case, items if th else items[::2], group="one particle, 4 cameras")
    three = ["L", (0, 1, 2), (0, 2), (1, 2), (1,)]
    items = [(tuple((c,) for c in cs), 3, "water", add, "exact", (STARTS[1],)) for cs in itertools.product(three, repeat=4) if cs[0] == "L" for add in (0, 1)]
    ctx.cases(c10_case, items if th else items[::3], group="one particle, 3 cameras, refraction")
    asym = [((-0.5, 2.5), (-0.4, 1.0), (-1.0, 0.4)), ((-2.0, 2.5), (-0.3, 0.8), (-0.9, 0.3))]
    items = [(tuple((c,) for c in cs), n, kind, 1, "exact", (STARTS[0],), a) for cs in itertools.product(("L", (0, 1), (0, 1, 2)), repeat=4) for n, kind in ((3, "air"), (4, "tilt")) for a in asym
             if cs[0] == "L" and (n == 3 or th)]
    ctx.cases(c10_case, items, group="limits that differ between axes and sides")
    items = [(f, n, kind, cross, nl, off) for f in (4, 5) for n, kind in (((2, "air"), (3, "water"), (4, "tilt")) if th else ((2, "air"), (4, "tilt"))) for nl in (2, 3) for cross in (nl - 1, nl) for off in (0.1, 0.7, -0.1)]
    ctx.cases(c10_leaving, items, group="crossing the lowest and highest layer")
    items = [(dx, dy, i, g, n, s) for dx, dy in ((0.02, 0.01), (0.1, -0.05), (-0.2, 0.1), (0.4, 0.0), (0.0, -0.5)) for i in (0, 1) for g in (2, 3) for n in (2, 3) for s in ((), (0,), (0, 1), (1,))]
    ctx.cases(c10_neighbour, items if th else items[::2], group="predicted place beside a listed particle")
    offs = [(0.0, 1.0, 0.0), (1.0, 0.4, 0.3), (-0.7, -0.9, 0.5), (0.0, -1.4, -1.0), (-1.2, 0.2, 0.9), (0.8, 0.8, -0.8)]
    items = [(o, g, n, kind, s, f, v) for o in offs for g in (2, 3, 4) for n, kind in ((2, "air"), (3, "water"), (4, "tilt")) for s in (tuple(range(n)), (0, n - 1), (0,), (1,), ()) for f in (0, 1) for v in (0, 1)]
    ctx.cases(c10_decoy, items if th else items[::2], group="another particle in the search volume")
    ctx.notes["bounds"] = "1-2 particles over 4-5 frames, every pattern of listed / absent / left-over in each camera set per frame (quick: every 2nd or 3rd of the larger groups)"
    ctx.assumptions = ["added positions are compared with the images of their targets within 1.5 pixels"]
