"""C11-C13: candidate search in images, merging of candidates, motion prediction and limits."""
import itertools
import math

import numpy as np

from . import rigs
from openptv_python import track
from openptv_python.parameters import TrackParTuple
from openptv_python.tracking_frame_buf import Frame, Target

LEVELS = {}
CP = rigs.control(4, imx=12, imy=10)


def targ(x, y, tnr, pnr=0):
    return Target(pnr, float(x), float(y), 9, 3, 3, 99, tnr)


# ------------------------------------------------------------------ C11
def ref_search(ts, n, cx, cy, dl, dr, du, dd, cp, eligible):
    """Indices of the eligible targets strictly inside the window (clipped to the image), with distances."""
    if not (0 <= cx <= cp.imx and 0 <= cy <= cp.imy):
        return []
    x0, x1 = max(cx - dl, 0), min(cx + dr, cp.imx)
    y0, y1 = max(cy - du, 0), min(cy + dd, cp.imy)
    return sorted((math.hypot(t.x - cx, t.y - cy), i) for i, t in enumerate(ts[:n])
                  if eligible(t) and x0 < t.x < x1 and y0 < t.y < y1)


def check_search(ts, n, args, cp, r, what):
    before = [(t.pnr, t.x, t.y, t.tnr) for t in ts]
    # owned targets: the four nearest
    ref = ref_search(ts, n, *args, cp, lambda t: t.tnr != -1)
    got = [int(i) for i in track.candsearch_in_pix(ts, n, *args, cp)]
    r.ev(len(ref) > 0)
    ids = {i for _, i in ref}
    dist = {i: d for d, i in ref}
    used = [i for i in got if i != -1]
    ok = len(got) == 4 and got[len(used):] == [-1] * (4 - len(used)) and len(set(used)) == len(used) and set(used) <= ids
    ok = ok and [round(dist[i], 9) for i in used] == [round(d, 9) for d, _ in ref[:4]]
    if not ok:
        r.fail(f"candsearch_in_pix does not return the nearest targets ({what})", ref[:5], got, (before[:12], n, args))
    # leftover targets: the nearest one
    ref = ref_search(ts, n, *args, cp, lambda t: t.tnr == -1)
    p = [-1, -1, -1, -1]
    cnt = track.candsearch_in_pix_rest(ts, n, *args, p, cp)
    r.ev(len(ref) > 0)
    r.outcome((len(ids), cnt, len(ref)))
    if ref:
        dist = {i: d for d, i in ref}
        ok = cnt == 1 and int(p[0]) in dist and round(dist[int(p[0])], 9) == round(ref[0][0], 9) and list(p[1:]) == [-1] * 3
    else:
        ok = cnt == 0 and list(p) == [-1] * 4
    if not ok:
        r.fail(f"candsearch_in_pix_rest does not return the nearest leftover target ({what})", ref[:3], (cnt, list(map(int, p))), (before[:12], n, args))
    if [(t.pnr, t.x, t.y, t.tnr) for t in ts] != before:
        r.fail("the search altered the targets", before, None, args)


LAT = [(x, y) for y in (0, 2, 5, 9) for x in (0, 3, 4, 8)]
OUT = [(4, -0.5), (-0.5, 3), (12, 2), (12.5, 5), (4, 10), (4, 10.5), (5, 11.5), (11, 9.9), (11.5, 0.2), (0.1, 9.8)]  # on, beyond and just inside the edges
CENTRES = [(11.5, 9.5), (4, 5), (0, 0), (12, 10), (3.5, 2.0), (12.5, 5), (4, -0.5), (-1, 3), (4, 10.5), (1, 9)]
WINDOWS = [(1, 1, 1, 1), (1.5, 0.5, 3.5, 3.5), (6, 6, 6, 6), (20, 20, 20, 20), (0, 9, 0, 9), (-1, -1, 5, 5), (4.5, 4.5, 3, 0.25)]


def c11_small(pts, r):
    """All ownership patterns of one set of positions, every centre and window."""
    pts = sorted(((LAT + OUT)[i] for i in pts), key=lambda p: p[1])
    for own in itertools.product((-1, 0, 7), repeat=len(pts)) if len(pts) <= 2 else itertools.product((-1, 3), repeat=len(pts)):
        ts = [targ(x, y, o, i) for i, ((x, y), o) in enumerate(zip(pts, own))]
        for c in CENTRES:
            for w in WINDOWS:
                check_search(ts, len(ts), c + w, CP, r, "small list")
        # spare capacity behind the list is not looked at
        ext = ts + [targ(4, 9.5, 5), targ(4, 9.5, -1)]
        check_search(ext, len(ts), CENTRES[1] + WINDOWS[2], CP, r, "list with spare entries")
    r.sample(dict(points=pts))


def c11_sizes(item, r):
    """Long lists: one target per row (or several), search at every row."""
    n, per, own, step = item
    cp = rigs.control(1, imx=n + 40, imy=n // per + 40)
    ts = [targ((i % per) * 3 + 1, i // per + 1, {0: -1, 1: i, 2: i if i % 3 else -1, 3: -1 if i % 3 else i}[own], i) for i in range(n)]
    rows = n // per
    ys = sorted(set(range(0, rows + 3, step)) | set(range(0, min(rows + 3, 40))) | set(range(max(0, rows - 20), rows + 3)))
    for y in ys:
        for w in ((2, 2, 0.5, 0.5), (2, 50, 1.5, 2.5)):
            ref_args = (1.25, float(y)) + w
            lo = max(0, (int(y) - 5) * per)
            hi = min(n, (int(y) + 6) * per)
            check_search_slice(ts, n, lo, hi, ref_args, cp, r, (n, per, own))
    r.sample(dict(size=n, per_row=per))


def check_search_slice(ts, n, lo, hi, args, cp, r, what):
    """As check_search, with the reference restricted to the rows that can be in the window."""
    for eligible, rest in ((lambda t: t.tnr != -1, False), (lambda t: t.tnr == -1, True)):
        ref = [(d, i + lo) for d, i in ref_search(ts[lo:hi], hi - lo, *args, cp, eligible)]
        dist = {i: d for d, i in ref}
        r.ev(len(ref) > 0)
        if rest:
            p = [-1] * 4
            track.candsearch_in_pix_rest(ts, n, *args, p, cp)
            got, want = [int(i) for i in p if i != -1], ref[:1]
        else:
            got, want = [int(i) for i in track.candsearch_in_pix(ts, n, *args, cp) if i != -1], ref[:4]
        if not set(got) <= set(dist) or len(set(got)) != len(got) or [round(dist[i], 9) for i in got] != [round(d, 9) for d, _ in want]:
            r.fail("image search in a long list misses or adds targets", want, got, (what, args, "rest" if rest else "owned"))


def C11(ctx):
    ctx.rule = "a case counts when at least one target is eligible in the window"
    nmax = 4 if ctx.thorough else 3
    items = [p for k in range(nmax + 1) for p in itertools.combinations_with_replacement(range(len(LAT)), k)]
    ctx.cases(c11_small, items)
    O = range(len(LAT), len(LAT) + len(OUT))
    items = [o + l for k in (1, 2) for o in itertools.combinations(O, k) for l in ((), (5,), (10,))]
    ctx.cases(c11_small, items, group="targets at and beyond the edges of the image")
    five = [p for p in itertools.combinations_with_replacement(range(4, 10), 6 if ctx.thorough else 5)]
    ctx.cases(c11_small, five, group="five or six targets close together")
    sizes = list(range(1, 70)) + [95, 96, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]
    big = [2047, 2048, 4095, 4096, 8191, 8192, 16383, 20480] if ctx.thorough else [4095, 8191, 16383]
    items = [(n, per, own, 1 if n < 300 else 97) for n in sizes for per in (1, 3) for own in range(4)]
    ctx.cases(c11_sizes, items, group="every list size")
    ctx.cases(c11_sizes, [(n, per, own, 4999) for n in big for per in (1, 5) for own in (1, 0)], batch=1, group="long lists")
    ctx.notes["bounds"] = f"0..{nmax} targets on a {len(LAT)}-point lattice x ownership x {len(CENTRES)} centres x {len(WINDOWS)} windows; sizes 1..69 and around powers of two up to {max(big)}"
    ctx.assumptions = ["targets sorted by image row, as the library stores them"]


# ------------------------------------------------------------------ C12
def ref_merge(percam):
    """Particle -> set of cameras."""
    seen = {}
    for cam, lst in enumerate(percam):
        for f in lst:
            if f != -1:
                seen.setdefault(f, set()).add(cam)
    return seen


def check_merged(entries, count, percam, r, case):
    seen = ref_merge(percam)
    multi = {f: c for f, c in seen.items() if len(c) >= 2}
    got = []
    for ftnr, freq, which in entries:
        if ftnr == -1 or freq == 0:
            break
        got.append((int(ftnr), int(freq), {i for i, w in enumerate(which) if w}))
    rest = entries[len(got):]
    r.ev(bool(seen))
    r.outcome((len(got), tuple(g[1] for g in got)))
    bad = None
    if any(f not in seen for f, _, _ in got):
        bad = "a candidate that no camera saw"
    elif len({f for f, _, _ in got}) != len(got):
        bad = "a candidate listed twice"
    elif any(c != seen[f] or q != len(c) for f, q, c in got):
        bad = "wrong cameras or number of sightings"
    elif [q for _, q, _ in got] != sorted((q for _, q, _ in got), reverse=True):
        bad = "not ordered by number of sightings"
    elif not set(multi) <= {f for f, _, _ in got}:
        bad = "a particle seen by several cameras is lost"
    elif len(got) > max(len(multi), 1):
        bad = "candidates of a single camera beside better ones"
    elif count is not None and count != len(got):
        bad = "wrong number of candidates reported"
    elif any(q != 0 for _, q, _ in rest):
        bad = "left-over entries behind the candidates"
    if bad:
        r.fail("merging candidates: " + bad, {f: sorted(c) for f, c in seen.items()}, (count, got, [tuple(map(str, e)) for e in rest[:4]]), case)


def c12_merge(item, r):
    ncam, alpha, first = item
    lists = [t for k in range(5) for t in itertools.permutations(range(alpha), k)]
    for rest in itertools.product(lists, repeat=ncam - 1):
        percam = (first,) + rest
        arr = np.array([(-1, 0, [0] * 4)] * (4 * ncam), dtype=track.Foundpix_dtype).view(np.recarray)
        for cam, l in enumerate(percam):
            for k, f in enumerate(l):
                arr[4 * cam + k].ftnr = f
                arr[4 * cam + k].whichcam[cam] = 1
        n = track.sort_candidates_by_freq(arr, ncam)
        check_merged([(e["ftnr"], e["freq"], e["whichcam"]) for e in np.asarray(arr)], int(n), percam, r, percam)
    r.sample(dict(cameras=ncam, first_camera=first))


def c12_rich(item, r):
    """Full lists of four over eight particles, and lists with unused places before used ones."""
    ncam, first, lists = item
    for rest in itertools.product(lists, repeat=ncam - 1):
        percam = (first,) + rest
        arr = np.array([(-1, 0, [0] * 4)] * (4 * ncam), dtype=track.Foundpix_dtype).view(np.recarray)
        for cam, l in enumerate(percam):
            for k, f in enumerate(l):
                if f != -1:
                    arr[4 * cam + k].ftnr = f
                    arr[4 * cam + k].whichcam[cam] = 1
        n = track.sort_candidates_by_freq(arr, ncam)
        check_merged([(e["ftnr"], e["freq"], e["whichcam"]) for e in np.asarray(arr)], int(n), percam, r, percam)


def c12_register(pts, r):
    """The registered candidate is the owner of the target found there, in the right slots."""
    pts = [LAT[i] for i in pts]
    owners = [5, 0, 9, 2, 11]
    for mask in itertools.product((0, 1), repeat=len(pts)):
        ts = [targ(x, y, owners[i] if m else -1, i) for i, ((x, y), m) in enumerate(zip(pts, mask))]
        for c in CENTRES[:5]:
            for w in WINDOWS[1:4]:
                for cam in (0, 3):
                    arr = np.array([(-1, 0, [0] * 4)] * 16, dtype=track.Foundpix_dtype).view(np.recarray)
                    track.register_closest_neighbs(ts, len(ts), cam, c[0], c[1], *w, arr[4 * cam:], CP)
                    ref = ref_search(ts, len(ts), c[0], c[1], *w, CP, lambda t: t.tnr != -1)[:4]
                    r.ev(len(ref) > 0)
                    a = np.asarray(arr)
                    got = [int(f) for f in a["ftnr"][4 * cam:4 * cam + 4]]
                    whole = {ts[i].tnr: d for d, i in ref_search(ts, len(ts), c[0], c[1], *w, CP, lambda t: t.tnr != -1)}
                    u = [f for f in got if f != -1]
                    ok = got[len(u):] == [-1] * (4 - len(u)) and len(set(u)) == len(u) and set(u) <= set(whole)
                    ok = ok and [round(whole[f], 9) for f in u] == [round(d, 9) for d, _ in ref]
                    mine = a["whichcam"][4 * cam:4 * cam + 4, cam].tolist()
                    ok = ok and [bool(v) for v in mine] == [f != -1 for f in got]
                    oth = np.delete(a["whichcam"], cam, axis=1).sum() + np.delete(a["ftnr"], range(4 * cam, 4 * cam + 4)).__ne__(-1).sum()
                    if not ok or oth:
                        r.fail("registered candidates are not the owners of the nearest targets", ref, (got, mine), (pts, mask, c, w, cam))


LATTICE3 = [(x, y, z) for x in (-6, 0, 6) for y in (-5, 5) for z in (-4, 4)]


def tuple_par(lim=(-4, 4, -4, 4, -4, 4), dangle=100, dacc=50, add=0):
    return TrackParTuple(dacc=float(dacc), dangle=float(dangle), dvxmax=float(lim[1]), dvxmin=float(lim[0]), dvymax=float(lim[3]), dvymin=float(lim[2]),
                         dvzmax=float(lim[5]), dvzmin=float(lim[4]), dsumg=0, dn=0, dnx=0, dny=0, add=add)


class Run:
    pass


rig_cache, proj_cache = {}, {}


def proj(p, ncam, cam):
    k = (tuple(map(float, p)), ncam, cam)
    if k not in proj_cache:
        cals, cp = rig_cache[ncam]
        proj_cache[k] = rigs.ref_pixel(p, cals[cam], cp)
    return proj_cache[k]


def c12_volume(item, r):
    """Candidates in a 3D search volume through all cameras equal the exhaustive search."""
    ncam, sets, vis = item
    cals, cp = rig_cache.setdefault(ncam, rigs.rig(ncam))
    run = Run()
    run.cal, run.cpar = cals, cp
    for lim in ((-4, 4, -4, 4, -4, 4), (-7, 7, -1, 11, -1, 9), (-60, 60, -60, 60, -60, 60)):
        run.tpar = tuple_par(lim)
        for centre in ((0.0, 0.0, 0.0), (6.0, -5.0, 4.0), (1.0, 30.0, 2.0)):
            frm = Frame(ncam, 10)
            frm.num_cams = ncam
            percam = []
            centre_proj, targets = [], []
            for cam in range(ncam):
                cx, cy = proj(centre, ncam, cam)
                centre_proj.append((cx, cy))
                ts = []
                for i, k in enumerate(sets):
                    if vis[i] >> cam & 1:
                        x, y = proj(LATTICE3[k], ncam, cam)
                        ts.append(targ(x, y, i))
                x, y = proj((1, 1, 1), ncam, cam)
                ts.append(targ(x, y, -1))
                ts.sort(key=lambda t: t.y)
                targets.append(ts)
                # window: the images of the eight corners, kept inside the sensor
                q = [proj(np.add(centre, c), ncam, cam) for c in itertools.product(lim[0:2], lim[2:4], lim[4:6])]
                x0, x1 = max(min(c[0] for c in q), 0), min(max(c[0] for c in q), cp.imx)
                y0, y1 = max(min(c[1] for c in q), 0), min(max(c[1] for c in q), cp.imy)
                near = ref_search(ts, len(ts), cx, cy, cx - x0, x1 - cx, cy - y0, y1 - cy, cp, lambda t: t.tnr != -1)[:4]
                # skip cases on the edge of the window, where rounding decides
                for t in ts:
                    if min(abs(t.x - x0), abs(t.x - x1), abs(t.y - y0), abs(t.y - y1)) < 1e-6:
                        return
                percam.append([ts[i].tnr for _, i in near])
            frm.targets = targets
            frm.num_targets = [len(t) for t in targets]
            w = track.sorted_candidates_in_volume(np.array(centre), np.array(centre_proj), frm, run)
            check_merged([(e["ftnr"], e["freq"], e["whichcam"]) for e in np.asarray(w)], None, percam, r, (ncam, sets, vis, lim, centre))
    r.sample(dict(cameras=ncam, particles=[LATTICE3[k] for k in sets], visible=vis))


def C12(ctx):
    ctx.rule = "a case counts when at least one camera has a candidate"
    lists = lambda a: [t for k in range(5) for t in itertools.permutations(range(a), k)]
    a2, a3, a4 = (5, 3, 3) if ctx.thorough else (4, 3, 2)
    for ncam, a in ((2, a2), (3, a3), (4, a4)):
        ctx.cases(c12_merge, [(ncam, a, l) for l in lists(a)], batch=1, group=f"merge {ncam} cameras, {a} particles")
    rich = [tuple((s + k * d) % 8 for k in range(4)) for d in (1, 3) for s in range(8)]
    for ncam, ls in ((2, rich), (3, rich), (4, rich if ctx.thorough else rich[::2])):
        ctx.cases(c12_rich, [(ncam, l, ls) for l in ls], batch=1, group=f"full lists of {ncam} cameras over 8 particles")
    gaps = [tuple(v if m else -1 for v, m in zip(o, p)) for o in ((0, 1, 2, 3), (2, 0, 3, 1)) for p in itertools.product((0, 1), repeat=4)]
    for ncam, ls in ((2, gaps), (3, gaps[::1 if ctx.thorough else 2])):
        ctx.cases(c12_rich, [(ncam, l, ls) for l in ls], batch=1, group=f"unused places of {ncam} cameras")
    ctx.cases(c12_register, [p for k in range(4) for p in itertools.combinations_with_replacement(range(0, 16, 1 if ctx.thorough else 2), k)], group="register")
    full = {2: 3, 3: 7, 4: 15}
    items = []
    for ncam in (2, 3, 4):
        for k in range(0, 3):
            for sets in itertools.combinations(range(0, len(LATTICE3), 1 if ctx.thorough else 2), k):
                pats = range(full[ncam] + 1) if ctx.thorough or k < 2 else (0, 1, full[ncam] - 1, full[ncam])
                for vis in itertools.product(pats, repeat=k):
                    items.append((ncam, sets, vis))
    ctx.cases(c12_volume, items, group="3D search volume")
    ctx.notes["bounds"] = f"all ordered candidate lists of 0..4 distinct particles per camera: 2 cameras x {a2} particles, 3 x {a3}, 4 x {a4}; 3D search: 0..2 particles x all camera sets"
    ctx.assumptions = ["a camera lists a particle at most once (targets have one owner)"]


# ------------------------------------------------------------------ C13
VALS = (-2.0, -0.5, 0.0, 0.3, 2.0)


def c13_motion(a, r):
    a = np.array(a)
    pts = [np.array(p) for p in itertools.product((-2.0, 0.0, 0.3, 2.0), repeat=3)]
    for b in pts:
        ca, cb = a.copy(), b.copy()
        got = track.search_volume_center_moving(a, b)
        r.ev(bool((a != b).any()))
        if not np.allclose(got, 2 * cb - ca, atol=1e-12, rtol=0):
            r.fail("search_volume_center_moving is not the linear prediction", 2 * cb - ca, got, (ca, cb))
        out = np.zeros(2)
        track.predict(a[:2], b[:2], out)
        if not np.allclose(out, 2 * cb[:2] - ca[:2], atol=1e-12, rtol=0):
            r.fail("predict is not the linear prediction", 2 * cb[:2] - ca[:2], out, (ca, cb))
        if (a != ca).any() or (b != cb).any():
            r.fail("prediction altered its arguments", (ca, cb), (a, b))


def angle_ref(u, v):
    return 200 / math.pi * math.atan2(np.linalg.norm(np.cross(u, v)), float(np.dot(u, v)))


def c13_angle(item, r):
    start, scale = item
    start = np.array(start)
    grid = [np.array(p) * scale for p in itertools.product((-1.0, 0.0, 0.3, 1.0), repeat=3)]
    for u in grid:
        for v in grid + [k * u for k in (2.0, 0.1, 3.7, -1.0, -3.0)]:
            p, c = start + u, start + v
            s0, p0, c0 = start.copy(), p.copy(), c.copy()
            ang, acc = track.angle_acc(start, p, c)
            ang2, acc2 = track.angle_acc(start, c, p)
            uu, vv = p0 - s0, c0 - s0
            r.ev(bool(np.any(uu != vv)))
            case = (s0, p0, c0)
            if not (abs(acc - np.linalg.norm(uu - vv)) <= 1e-9 * scale and abs(acc - acc2) <= 1e-9 * scale):
                r.fail("acceleration is not the distance of candidate and prediction", np.linalg.norm(uu - vv), (acc, acc2), case)
            if np.linalg.norm(uu) < 1e-9 * scale or np.linalg.norm(vv) < 1e-9 * scale:
                ok = np.isfinite(ang) and 0 <= ang <= 200 and np.isfinite(ang2)
                ref = "finite"
                if np.array_equal(p0, c0):  # prediction met exactly
                    ok = ok and ang == 0
                    ref = 0
            else:
                ref = angle_ref(uu, vv)
                ok = abs(ang - ref) < 1e-4 and abs(ang2 - ref) < 1e-4
            if not ok:
                r.fail("angle between predicted and actual motion is wrong", ref, (ang, ang2), case)
            if (start != s0).any() or (p != p0).any() or (c != c0).any():
                r.fail("angle_acc altered its arguments", case, (start, p, c))
    r.sample(dict(start=start.tolist(), scale=scale))


LIMS = [(-1, 1), (0, 2), (-2, 0), (-0.5, 2), (0, 0)]


def c13_bounds(lims, r):
    l = [LIMS[i] for i in lims]
    tp = tuple_par(l[0] + l[1] + l[2])
    for p in itertools.product((-2.5, -2, -1, -0.7, 0, 0.6, 1, 1.5, 2, 3), repeat=3):
        a = np.array(p, float)
        got = bool(track.pos3d_in_bounds(a, tp))
        ref = all(lo < v < hi for v, (lo, hi) in zip(p, l))
        r.ev(ref)
        if got != ref:
            r.fail("velocity limit test is wrong", ref, got, (p, l))
        if tuple(a) != tuple(map(float, p)):
            r.fail("the velocity limit test altered its argument", p, a)


RIGS = [dict(), dict(mm=rigs.WATER), dict(mm=rigs.WATER, glass=(4.0, -6.0, 90.0), roll=0.2), dict(dist=(1e-4, 0, 0, 1e-4, -5e-5, 1.002, 0.001), xh=0.2, yh=-0.1),
        dict(imx=640, imy=1500, pix=(0.02, 0.01), cc=45.0), dict(roll=math.pi / 2), dict(mm=rigs.WATER, roll=2.4)]
BOXES = [(-4, 4, -4, 4, -4, 4), (0, 0, 0, 0, 0, 0), (-2, 9, -1, 0, -7, 3), (1, 5, 2, 6, 3, 7), (-200, 200, -150, 150, -60, 60), (-300, 4, -3, 200, -2, 2), (-1, -6, 2, -3, 1, -1)]


def c13_box(item, r):
    k, ncam, p = item
    cals, cp = rigs.rig(ncam, **RIGS[k])
    p = np.array(p, float)
    for lim in BOXES:
        p0 = p.copy()
        right, left, down, up = track.searchquader(p, tuple_par(lim), cp, cals)
        for cam in range(ncam):
            cx, cy = rigs.ref_pixel(p0, cals[cam], cp)
            q = [rigs.ref_pixel(p0 + np.array(c, float), cals[cam], cp) for c in itertools.product(lim[0:2], lim[2:4], lim[4:6])]
            x0, x1 = max(min(c[0] for c in q), 0), min(max(c[0] for c in q), cp.imx)
            y0, y1 = max(min(c[1] for c in q), 0), min(max(c[1] for c in q), cp.imy)
            # a box wholly outside the sensor gives an empty window at the edge
            x0, x1, y0, y1 = min(x0, cp.imx), max(x1, 0), min(y0, cp.imy), max(y1, 0)
            r.ev(x1 > x0 and y1 > y0)
            got = (cx - left[cam], cx + right[cam], cy - up[cam], cy + down[cam])
            r.outcome(tuple(abs(g - w) < 1e-9 for g, w in zip(got, (0, cp.imx, 0, cp.imy))))
            if not np.allclose(got, (x0, x1, y0, y1), atol=0.01, rtol=0):
                r.fail("image search box is not the extent of the projected search volume inside the image", (x0, x1, y0, y1), got, (RIGS[k], p0, lim, cam))
        if (p != p0).any():
            r.fail("searchquader altered the point", p0, p)
    r.sample(dict(rig=RIGS[k], cameras=ncam, point=p.tolist()))


def C13(ctx):
    ctx.rule = "a case counts when the motion or the window is not degenerate"
    pts = list(itertools.product((-2.0, 0.0, 0.3, 2.0), repeat=3))
    ctx.cases(c13_motion, pts)
    ctx.cases(c13_angle, [(s, sc) for s in ((0.0, 0.0, 0.0), (1.0, -2.0, 0.7), (100.0, 33.3, -7.1)) for sc in (1.0, 0.1, 7.0)
                          ] + ([((1e3, 1e3, 1e3), 1e-2), ((0.1, 0.1, 0.1), 1e3), ((-3.3, 4.1, 17.0), 0.37)] if ctx.thorough else []), batch=1)
    ctx.cases(c13_bounds, list(itertools.product(range(len(LIMS)), repeat=3)))
    lat = (-25.0, 0.0, 17.0) if not ctx.thorough else (-45.0, -25.0, 0.0, 17.0, 60.0)
    ctx.cases(c13_box, [(k, n, p) for k in range(len(RIGS)) for n in ((1, 2, 3, 4) if ctx.thorough else (2, 4)) for p in itertools.product(lat, lat, (-20.0, 0.0, 9.0))])
    ctx.notes["bounds"] = f"point lattices 4^3; {len(LIMS)}^3 limits; {len(RIGS)} rigs x {len(lat)**2 * 3} points x {len(BOXES)} boxes"
    ctx.assumptions = ["the direction of a zero motion is undefined: only a finite angle is required there"]
