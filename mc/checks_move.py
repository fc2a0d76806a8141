"""C37: the same experiment seen from elsewhere, in another order, at another time."""
import itertools
import math

import numpy as np

from . import rigs, scene
from .checks_cal import GRID, POSE, INTERN, cam24, flags, shift, state
from .checks_corr import ambiguous
from .scene import Scene
from openptv_python.correspondences import py_correspondences
from openptv_python.imgcoord import img_coord
from openptv_python.multimed import volumedimension
from openptv_python.orientation import full_calibration, point_positions
from openptv_python.tracking_frame_buf import Target, get_by_pnrs, match_coords

LEVELS = {"C37": "model_checking"}


# ------------------------------------------------------------------ moves
# a move: (degrees about z, translation, order of the cameras (or None), listing order reversed, frames later)
STAY = (0, (0.0, 0.0, 0.0), None, 0, 0)


def rz(deg):
    k = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}.get(deg)
    c, s = k if k else (math.cos(math.radians(deg)), math.sin(math.radians(deg)))
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


def move_point(p, mv):
    q = rz(mv[0]) @ np.asarray(p, float) + mv[1]
    return tuple(float(round(v, 9)) + 0.0 for v in q)


def move_cal(c, mv):
    R = rz(mv[0])
    e = c.ext_par
    o = R @ rigs.rot(float(e["omega"]), float(e["phi"]), float(e["kappa"]))
    ang = (math.atan2(-o[1, 2], o[2, 2]), math.asin(max(-1.0, min(1.0, o[0, 2]))), math.atan2(-o[0, 1], o[0, 0]))
    pos = R @ np.array([float(e["x0"]), float(e["y0"]), float(e["z0"])]) + mv[1]
    g = np.asarray(c.glass_par, float)
    d = np.linalg.norm(g)
    u = R @ (g / d)
    i = c.int_par
    return rigs.camera(pos, cc=float(i["cc"]), xh=float(i["xh"]), yh=float(i["yh"]), glass=u * (d + u @ np.asarray(mv[1])), dist=tuple(float(v) for v in c.added_par), angles=ang)


def order(mv, ncam):
    return tuple(range(ncam)) if mv[2] is None else mv[2][:ncam]


def move_rig(cals, cp, mv):
    p = order(mv, len(cals))
    return [move_cal(cals[c], mv) if mv[0] or any(mv[1]) else cals[c] for c in p], cp


def moved_kind(kind, ncam, mv):
    """Register the moved rig with the scenes."""
    geo = (mv[0], mv[1], order(mv, ncam))
    k = (kind, geo)
    if (ncam, k) not in scene._rigs:
        scene._rigs[ncam, k] = move_rig(*scene.get_rig(ncam, kind), mv)
    return k


def move_limits(lim, mv):
    """Velocity limits ((min, max) of each axis)."""
    R = rz(mv[0])
    out = []
    for a in range(3):
        b = int(np.argmax(np.abs(R[a])))
        lo, hi = lim[b]
        out.append((lo, hi) if R[a, b] > 0 else (-hi, -lo))
    return tuple(out)


def move_volume(mv):
    x, z = mv[1][0], mv[1][2]
    return rigs.volume(-20.0 + z, 20.0 + z, (-30.0 + x, 30.0 + x))


# ------------------------------------------------------------------ tracking
START = [(0.0, 0.0, 0.0), (1.9, 0.31, -0.43), (0.27, 1.73, 0.61), (1.57, 2.06, -1.17)]
VEL = [(1.31, 0.22, -0.35), (-1.13, 0.54, 0.47), (0.16, -1.21, 0.83), (0.05, 0.07, 0.02), (0.66, 1.09, -0.74)]
LIMITS = [((-2.6, 2.6),) * 3, ((-2.3, 3.1), (-1.9, 2.7), (-2.9, 1.8))]


def path(k, v, t):
    return tuple(round(s + u * t + 0.06 * c * t * t, 3) for s, u, c in zip(START[k], VEL[v], (1, -1, 0.5)))


def build(item):
    vels, nfr, gaps = item
    frames = []
    for t in range(nfr):
        frames.append([(path(k, v, t), dict(listed=(k, t) not in gaps)) for k, v in enumerate(vels)])
    return frames


def links_by_place(sc, mv):
    """{(frame, place in the scene as it stood)}: places of predecessor and successor."""
    back = np.linalg.inv(rz(mv[0]))
    graph, out = sc.graph(), {}
    pos = []
    for f in range(sc.first, sc.last + 1):
        pos.append([back @ (np.array(p) - mv[1]) for p in sc.positions(f)])
    for t, fr in enumerate(graph):
        if len(fr) != len(pos[t]):
            return None, None
        for i, (p, q) in enumerate(fr):
            out[t, i] = (p, q)
    return pos, out


def track_moved(frames, kind, ncam, lim, mv, add, back, dangle, dacc):
    fr = [[(move_point(p, mv), o) for p, o in (f[::-1] if mv[3] else f)] for f in frames]
    sc = Scene(fr, ncam, moved_kind(kind, ncam, mv), first=97 + mv[4], name="move")
    par = dict(lim=move_limits(lim, mv), dangle=dangle, dacc=dacc, add=add, vol=move_volume(mv))
    run = sc.run_info(**par)
    sc.forward(run)
    if back:
        sc.backward(sc.run_info(**par))
    return sc, run


def c37_track(item, r):
    vels, nfr, gaps, kind, ncam, lim, add, back, dangle, dacc, moves = item
    frames = build((vels, nfr, gaps))
    sc, run = track_moved(frames, kind, ncam, LIMITS[lim], STAY, add, back, dangle, dacc)
    pos0, link0 = links_by_place(sc, STAY)
    tot0 = (run.npart, run.nlinks)
    if pos0 is None:
        r.fail("links and positions of a frame differ in number", case=item)
        return
    n = sum(1 for p, q in link0.values() if q >= 0)
    for mv in moves:
        sc, run = track_moved(frames, kind, ncam, LIMITS[lim], mv, add, back, dangle, dacc)
        pos, link = links_by_place(sc, mv)
        r.add("states", nfr)
        r.add("transitions", nfr - 1)
        r.add("traces_validated_against_impl")
        r.add("links_compared", n)
        if pos is None or [len(p) for p in pos] != [len(p) for p in pos0]:
            r.fail("the moved experiment has other numbers of particles", [len(p) for p in pos0], pos and [len(p) for p in pos], (item[:-1], mv))
            continue
        name = []  # moved index -> index as it stood
        for a, b in zip(pos0, pos):
            m = []
            for q in b:
                d = [float(np.linalg.norm(q - p)) for p in a]
                i = int(np.argmin(d))
                m.append(i if d[i] < 0.02 else None)
            name.append(m)
        if any(sorted(m, key=str) != list(range(len(m))) for m in name):
            r.fail("the moved experiment has particles at other places", pos0, pos, (item[:-1], mv))
            continue
        got = {}
        for (t, i), (p, q) in link.items():
            got[t, name[t][i]] = (name[t - 1][p] if p >= 0 and t else p, name[t + 1][q] if q >= 0 and t < nfr - 1 else q)
        if got != link0:
            r.fail("the moved experiment gets other links", sorted((k, v) for k, v in link0.items() if got.get(k) != v), sorted((k, v) for k, v in got.items() if link0.get(k) != v), (item[:-1], mv))
        elif (run.npart, run.nlinks) != tot0:
            r.fail("the moved experiment reports other totals", tot0, (run.npart, run.nlinks), (item[:-1], mv))
    r.outcome((n, tuple(len(p) for p in pos0)))
    r.sample(dict(velocities=vels, frames=nfr, rig=kind, cameras=ncam, links=n))


# ------------------------------------------------------------------ correspondences and positions
PLACES = [(-6.0, -4.1, 2.3), (-5.2, -3.7, -6.9), (-6.4, -3.9, 9.8), (4.2, 3.3, -1.1), (4.9, 2.6, 7.7), (3.7, 3.9, -9.2), (0.4, -0.9, 0.8), (1.1, 0.3, -7.3), (-0.6, -1.3, 8.6)]


def find_groups(pts, kind, ncam, mv, turn, eps, feat):
    """Groups as tuples of particle numbers per camera in the order of the cameras as they stood, with positions."""
    k = moved_kind(kind, ncam, mv)
    cals, cp = scene.get_rig(ncam, k)
    perm = order(mv, ncam)
    targs, who = [], []
    for c in range(ncam):
        here = [(scene.pixel(pts[i], ncam, perm[c], kind), i) for i in range(len(pts))]  # a camera moved with the scene sees the same image
        here.sort(key=lambda h: h[0][1])
        if mv[3]:
            here = here[turn:] + here[:turn]
            here = here[::-1] if turn % 2 else here
        who.append([i for _, i in here])
        targs.append([Target(pnr=j, x=float(x), y=float(y), n=20 + feat * 3 * i, nx=5, ny=4 + feat * (i % 2), sumg=1000 + feat * 90 * i, tnr=-1) for j, ((x, y), i) in enumerate(here)])
    flats = [match_coords(targs[c], cp, cals[c]) for c in range(ncam)]
    vp = move_volume(mv)
    vp.eps0 = eps
    pos, ids, total = py_correspondences(targs, flats, cals, vp, cp)
    out = []
    for g in ids:
        for j in range(g.shape[1]):
            t = [int(v) for v in g[:, j]]
            flat = np.array([[get_by_pnrs(flats[c], np.array([t[c]]))[0] if t[c] >= 0 else (np.nan, np.nan) for c in range(ncam)]])
            xyz, rcm = point_positions(flat, cp.mm, cals, vp)
            named = [None] * ncam
            for c in range(ncam):
                named[perm[c]] = who[c][t[c]] if t[c] >= 0 else -1
            out.append((tuple(named), tuple(rz(-mv[0] % 360) @ (xyz[0] - mv[1])), float(rcm[0])))
    return sorted(out), total


def c37_corr(item, r):
    ks, kind, ncam, eps, feat, moves = item
    pts = [PLACES[k] for k in ks]
    want, tot = find_groups(pts, kind, ncam, STAY, 0, eps, feat)
    for n, mv in enumerate(moves):
        if mv[2]:  # the band of acceptance lies in one image: only clear scenes must not depend on which camera comes first
            cals, cp = scene.get_rig(ncam, kind)
            flats = [[rigs.ref_flat(p, cals[c], cp.mm) for p in pts] for c in range(ncam)]
            who = [list(range(len(pts)))] * ncam
            if ambiguous(cals, cp, None, who, flats, eps) or ambiguous(cals[::-1], cp, None, who, flats[::-1], eps):
                r.add("ambiguous_left_out")
                continue
        got, total = find_groups(pts, kind, ncam, mv, n, eps, feat)
        r.add("states")
        r.add("transitions", len(want))
        r.add("traces_validated_against_impl")
        if [g[0] for g in got] != [g[0] for g in want] or total != tot:
            r.fail("the moved experiment gets other groups", [g[0] for g in want], [g[0] for g in got], (item[:-1], mv))
            continue
        for a, b in zip(want, got):
            if not np.allclose(a[1], b[1], atol=1e-5) or abs(a[2] - b[2]) > 1e-5:
                r.fail("a group of the moved experiment is at another place", a, b, (item[:-1], mv))
    r.outcome((tuple(sorted(sum(v >= 0 for v in g[0]) for g in want)), any(len(set(v for v in g[0] if v >= 0)) > 1 for g in want)))
    r.sample(dict(places=ks, rig=kind, cameras=ncam, groups=[g[0] for g in want]))


# ------------------------------------------------------------------ calibration
def c37_cal(item, r):
    name, dev, on, moves = item
    true, cp = cam24(name)
    img = np.array([rigs.ref_pixel(p, true, cp) for p in GRID])

    def run(mv):
        cal, _ = cam24(name)
        shift(cal, dev)
        cal = move_cal(cal, mv) if mv != STAY else cal
        pts = np.array([move_point(p, mv) for p in GRID])
        idx = np.roll(np.arange(len(GRID)), 11)[::-1] if mv[3] else np.arange(len(GRID))
        res, used, err = full_calibration(cal, pts[idx], img[idx], cp, flags(on))
        px = np.array([img_coord(np.array(move_point(p, mv)), cal, cp.mm) for p in GRID])
        e = cal.ext_par
        back = rz(-mv[0] % 360) @ (np.array([float(e["x0"]), float(e["y0"]), float(e["z0"])]) - mv[1])
        inv = np.empty(len(idx), int)
        inv[idx] = np.arange(len(idx))
        return px, back, np.asarray(res).reshape(-1, 2)[inv], state(cal)[6:16], np.asarray(err)[:3]

    a = run(STAY)
    for mv in moves:
        b = run(mv)
        r.add("states")
        r.add("transitions")
        r.add("traces_validated_against_impl")
        for what, x, y, tol in (("places points elsewhere in the image", a[0], b[0], 2e-4), ("stands elsewhere", a[1], b[1], 0.02), ("has other residuals", a[2], b[2], 2e-4), ("has another interior or distortion", a[3], b[3], 0.01)):
            if not np.allclose(x, y, atol=tol):
                r.fail("the camera calibrated in the moved experiment " + what, x[:4], y[:4], (item[:-1], mv))
                break
    r.outcome((name, len(on)))


# ------------------------------------------------------------------ the check
O = (0.0, 0.0, 0.0)
TURNS = [(90, O, None, 0, 0), (180, O, None, 0, 0), (270, O, None, 0, 0)]
SHIFTS = [(0, (37.0, -8.0, 0.0), None, 0, 0), (0, (0.0, 52.0, 0.0), None, 0, 0), (0, (0.0, 0.0, 13.0), None, 0, 0), (0, (-61.0, 4.0, -9.0), None, 0, 0), (270, (-3.0, 25.0, -6.0), None, 0, 0)]
ANGLES = [(33, O, None, 0, 0), (147, (9.0, -31.0, 5.0), None, 0, 0), (305, (-80.0, 2.0, 0.0), None, 0, 0)]
LATER = [(0, O, None, 0, 2), (0, O, None, 0, 902), (0, O, None, 0, 9902), (0, O, None, 0, 99902)]


def cameras(ncam):
    return [(0, O, p, 0, 0) for p in itertools.permutations(range(ncam)) if p != tuple(range(ncam))]


def C37(ctx):
    th = ctx.thorough
    ctx.rule = "every scene is processed as it stands and moved (turned, shifted, cameras or listings reordered, at other frame numbers); results are compared one by one"
    items, n = [], 0
    modes = [(0, 0), (0, 1), (1, 0), (1, 1)]
    for vels in list(itertools.product(range(5), repeat=3)) + [v for i, v in enumerate(itertools.product(range(5), repeat=4)) if th or i % 6 == 0]:
        for kind in (("air", "water", "tilt") if th else (("air", "water", "tilt")[n % 3],)):
            ncam = (2, 3, 4)[n // 3 % 3]
            add, back = modes[n // 2 % 4]
            every = TURNS + SHIFTS + cameras(ncam) + [(0, O, None, 1, 0)] + LATER
            few = [TURNS[n % 3], SHIFTS[n % 5], cameras(ncam)[n % len(cameras(ncam))], ((0, O, None, 1, 0), LATER[n // 2 % 4])[n % 2]]
            items.append((vels, 4 + n % 2, (), kind, ncam, n % 2, add, back, (250.0, 120.0)[n // 4 % 2], (20.0, 3.0)[n // 5 % 2], every if th and n % 10 == 0 else few))
            n += 1
    # particles missing from the list are added again by the tracker
    for gaps in [()] + [g for k in (1, 2) for g in itertools.combinations([(k, t) for k in range(3) for t in (1, 2, 3)], k)]:
        for vels in ((0, 1, 2), (3, 4, 2)) if th else ((0, 1, 2) if n % 2 else (3, 4, 2),):
            ncam = (2, 3, 4)[n % 3]
            items.append((vels, 5, gaps, ("air", "tilt", "water")[n // 3 % 3], ncam, n % 2, 1, n // 2 % 2, 250.0, 20.0, [TURNS[n % 3], SHIFTS[n % 5], LATER[n % 4], cameras(ncam)[n % len(cameras(ncam))]]))
            n += 1
    ctx.cases(c37_track, items, batch=1)
    items = []
    for m in (3, 4) + ((5, 6) if th else ()):
        for i, ks in enumerate(itertools.combinations(range(9), m)):
            for kind in ("air", "water", "tilt"):
                for ncam in (2, 3, 4):
                    n += 1
                    if not th and n % 8:
                        continue
                    j = n // 8 if not th else n
                    items.append((ks, kind, ncam, (0.01, 0.05)[j % 2], j // 2 % 2, [(TURNS + SHIFTS + ANGLES)[j % 11], (0, O, None, 1, 0), (TURNS + SHIFTS + ANGLES)[(j + 5) % 11], cameras(ncam)[j % len(cameras(ncam))]]))
    ctx.cases(c37_corr, items, batch=2)
    pose = [((k, s * v),) for k, v in POSE for s in (1, -1)] + [tuple(POSE)]
    items = [(name, d, on, [TURNS[i % 3], SHIFTS[i % 5], ANGLES[i % 3], (0, O, None, 1, 0)]) for name in ("air", "dist", "water", "tilt", "off", "roll") for i, (d, on) in enumerate(
        [(d, ()) for d in pose] + [((x, ("x0", 1.5), ("kappa", -0.01)), (x[0] + "flag",)) for x in INTERN]) if th or i % 2 == 0 or name in ("tilt", "off")]
    ctx.cases(c37_cal, items, batch=1)
    ctx.notes["bounds"] = "3-4 particles with every velocity of five, 4-5 frames, gaps, 2-4 cameras, three rigs; quarter turns about z (any angle for groups and calibration), shifts, camera orders, listing orders, frame numbers to 100000"
    ctx.assumptions = ["places in files carry three decimals: particles are named by the place within 0.02 mm", "calibrated cameras are compared within 2e-4 mm on the sensor and 0.02 mm of the camera's place (the adjustment stops at a tolerance)"]
