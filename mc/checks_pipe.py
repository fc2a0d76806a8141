"""C30-C33: the whole processing chain, coordinate lists, single cameras, files that set up a run."""
import copy
import itertools
import math
import os
from pathlib import Path

import numpy as np

from . import rigs
from .core import scratch
from .scene import check_graph
from openptv_python import track
from openptv_python.calibration import Calibration
from openptv_python.correspondences import py_correspondences
from openptv_python.epi import epi_mm_2D
from openptv_python.image_processing import preprocess_image
from openptv_python.imgcoord import img_coord
from openptv_python.orientation import external_calibration, full_calibration, match_detection_to_ref, point_positions, read_man_ori_fix
from openptv_python.orientation import read_calblock as read_fix
from openptv_python.parameters import OrientPar, SequencePar, TargetPar, TrackParTuple, read_control_par, read_sequence_par, read_track_par, read_volume_par
from openptv_python.segmentation import target_recognition
from openptv_python.sortgrid import read_calblock, read_sortgrid_par
from openptv_python.tracking_frame_buf import (Corres_dtype, Frame, Pathinfo, Target, get_by_pnrs, match_coords, matched_coords_as_arrays, n_tupel_dtype,
                                               quicksort_n_tupel, read_targets, sort_target_y)
from openptv_python.tracking_run import TrackingRun, tr_new
from openptv_python.trafo import pixel_to_metric, dist_to_flat

LEVELS = {"C30": "model_checking", "C38": "model_checking"}

# ------------------------------------------------------------------ C30
IMX, IMY, PIX = 640, 512, 0.024
KINDS = dict(air={}, water=dict(mm=rigs.WATER), tilt=dict(mm=rigs.WATER, glass=(4.0, -6.0, 90.0), roll=0.2),
             dist=dict(dist=(2e-5, 0, 0, 1e-5, -1e-5, 1.001, 0.001), xh=0.1, yh=-0.05))
_rig, _px = {}, {}


def the_rig(kind, ncam):
    if (kind, ncam) not in _rig:
        _rig[kind, ncam] = rigs.rig(ncam, imx=IMX, imy=IMY, pix=(PIX, PIX), **KINDS[kind])
    return _rig[kind, ncam]


def pixel(p, kind, ncam, cam):
    k = (p, kind, ncam, cam)
    if k not in _px:
        cals, cp = the_rig(kind, ncam)
        _px[k] = tuple(rigs.ref_pixel(p, cals[cam], cp))
    return _px[k]


def render(points, background, amp=190.0, sigma=1.1):
    """An 8-bit image with a round spot at each pixel position."""
    img = np.full((IMY, IMX), float(background))
    for x, y in points:
        i0, j0 = int(math.floor(x)), int(math.floor(y))
        for j in range(j0 - 5, j0 + 6):
            for i in range(i0 - 5, i0 + 6):
                if 0 <= i < IMX and 0 <= j < IMY:
                    img[j, i] += amp * math.exp(-((i + 0.5 - x) ** 2 + (j + 0.5 - y) ** 2) / (2 * sigma ** 2))
    return np.clip(np.rint(img), 0, 255).astype(np.uint8)


START = [(-14.0, -13.0, -5.0), (11.0, 1.0, 6.0), (1.0, 13.0, 0.0), (-9.0, 6.5, 9.0), (15.0, -6.5, -8.0)]
VEL = [(1.5, 0.3, -0.4), (-1.2, 0.5, 0.5), (0.2, -1.0, 0.8), (0.0, 0.0, 0.0), (0.6, 0.9, -1.0)]


def place(k, v, t):
    """Gently curved path."""
    return tuple(round(s + u * t + 0.04 * t * t * c, 3) for s, u, c in zip(START[k], VEL[v], (1, -1, 1)))


def c30(item, r):
    """parts: (start, velocity, first frame, last frame); then images -> targets -> groups -> positions -> files -> links."""
    parts, nfr, kind, ncam, hp, background, mirror = item
    cals, cp = the_rig(kind, ncam)
    d = scratch("c30")
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    bases = [os.path.join(d, f"cam{c + 1}.%05d") for c in range(ncam)]
    rt, ptv, add = (os.path.join(d, n) for n in ("rt_is", "ptv_is", "added"))
    vp = rigs.volume(eps0=0.03)
    tp = TargetPar(gvthresh=[background + 12] * 4, discont=200, nnmin=4, nnmax=200, nxmin=2, nxmax=20, nymin=2, nymax=20, sumg_min=100)
    first, truth = 98, []
    for t in range(nfr):
        here = [(k, place(k, v, t)) for k, v, a, b in parts if a <= t <= b]
        truth.append(here)
        targs, flats = [], []
        for c in range(ncam):
            img = render([pixel(p, kind, ncam, c) for _, p in (here[::-1] if mirror else here)], background)
            keep = img.copy()
            if hp:
                img = preprocess_image(img, 0, cp, 12)
            ts = target_recognition(img, tp, c, cp)
            if not hp and not np.array_equal(img, keep):
                r.fail("target recognition altered the image", None, None, item)
            ts = sort_target_y(ts)
            for i, q in enumerate(ts):
                q.pnr = i
            if len(ts) != len(here):
                r.fail(f"frame {t}, camera {c}: {len(ts)} targets for {len(here)} particles", [pixel(p, kind, ncam, c) for _, p in here], [(q.x, q.y, q.n) for q in ts], item)
                return
            targs.append(ts)
            flats.append(match_coords(ts, cp, cals[c]))
        pos, ids, total = py_correspondences(targs, flats, cals, vp, cp)
        groups = [tuple(int(v) for v in g[:, k]) for g in ids for k in range(g.shape[1])]
        r.add("groups_found", len(groups))
        if len(groups) != len(here):
            r.fail(f"frame {t}: {len(groups)} groups for {len(here)} particles", len(here), groups, item)
            return
        flat = np.array([[get_by_pnrs(flats[c], np.array([g[c]]))[0] if g[c] >= 0 else (np.nan, np.nan) for c in range(ncam)] for g in groups]).reshape(-1, ncam, 2)
        xyz, rcm = point_positions(flat, cp.mm, cals, vp)
        frm = Frame(ncam, 20)
        frm.num_parts = len(groups)
        for i, g in enumerate(groups):
            frm.path_info[i].x = xyz[i]
            frm.correspond[i].nr = i + 1
            frm.correspond[i].p[:] = -1
            frm.correspond[i].p[:ncam] = g
        frm.targets, frm.num_targets = targs, [len(q) for q in targs]
        if not frm.write(rt, ptv, "", bases, first + t):
            r.fail(f"frame {t} could not be saved", case=item)
            return
    trk = TrackParTuple(dvxmin=-3.0, dvxmax=3.0, dvymin=-3.0, dvymax=3.0, dvzmin=-3.0, dvzmax=3.0, dangle=100.0, dacc=2.5, add=0, dsumg=0, dn=0, dnx=0, dny=0)
    seq = SequencePar(img_base_name=list(bases), first=first, last=first + nfr - 1)
    run = TrackingRun(seq, trk, rigs.volume(), cp, 4, 64, rt, ptv, add, cals, 1e-5)
    track.track_forward_start(run)
    for step in range(seq.first, seq.last):
        track.trackcorr_c_loop(run, step)
    track.trackcorr_c_finish(run, seq.last)
    track.trackback_c(TrackingRun(seq, trk, rigs.volume(), cp, 4, 64, rt, ptv, add, cals, 1e-5))
    # what the files say
    graph, who = [], []
    for t in range(nfr):
        frm = Frame(ncam, 20)
        frm.read(rt, ptv, add, bases, first + t)
        graph.append([(int(p.prev_frame), int(p.next_frame)) for p in frm.path_info[:frm.num_parts]])
        xyz = frm.positions()
        if len(xyz) != len(truth[t]):
            r.fail(f"frame {t} has {len(xyz)} positions for {len(truth[t])} particles", truth[t], xyz, item)
            return
        match = {}
        for k, p in truth[t]:
            dist = [float(np.linalg.norm(np.subtract(p, q))) for q in xyz]
            i = int(np.argmin(dist))
            r.add("positions_judged")
            if dist[i] > (0.2 if hp else 0.12) or i in match.values():
                r.fail(f"particle {k} of frame {t} is not where it is", p, xyz, item)
                return
            match[k] = i
            for c in range(ncam):
                q = frm.target_positions_for_camera(c)[i]
                want = pixel(p, kind, ncam, c)
                if not np.allclose(q, want, atol=0.3 if hp else 0.15):
                    r.fail(f"particle {k} of frame {t} is not attached to its image in camera {c}", want, q, item)
                    return
        who.append(match)
    r.add("states", nfr)
    r.add("transitions", nfr - 1)
    r.add("traces_validated_against_impl")
    r.outcome((len(parts), ncam))
    if check_graph(graph, r, item, "whole chain") is None:
        return
    for t in range(nfr):
        for k, i in who[t].items():
            prev = who[t - 1].get(k, -1) if t else -1
            nxt = who[t + 1].get(k, -2) if t < nfr - 1 else -2
            if graph[t][i] != (prev, nxt):
                r.fail(f"particle {k} of frame {t} is not linked to itself in the frames around", (prev, nxt), graph[t][i], item)
                return
    r.sample(dict(parts=parts, frames=nfr, rig=kind, cameras=ncam))


def C30(ctx):
    th = ctx.thorough
    ctx.rule = "every history is a sequence of rendered images taken through recognition, correspondence, positions, files and tracking; every position and link is compared with the scene"
    items = []
    for kind in KINDS:
        for ncam in (2, 3, 4):
            for k in range(len(START)):
                for v in (range(len(VEL)) if th else ((k + ncam) % 5,)):
                    items.append((((k, v, 0, 3),), 4, kind, ncam, 0, 20, 0))
            for n, ks in enumerate(itertools.combinations(range(len(START)), 3)):
                if th or (n + ncam) % 2 == 0:
                    items.append((tuple((k, (k + n) % 5, 0, 4) for k in ks), 5, kind, ncam, n % 3 == 2, (0, 20, 40)[n % 3], n % 2))
            if th or ncam > 2:
                items.append((tuple((k, k, 0, 3) for k in range(5)), 4, kind, ncam, 0, 0, 1))
    ctx.cases(c30, items, group="single and several particles", batch=1)
    ivals = [(a, b) for a in range(3) for b in range(a + 2, 5)]
    items = [(((0, 0, *i), (1, 1, *j)), 5, kind, ncam, 0, 10, m) for n, (i, j) in enumerate(itertools.product(ivals, repeat=2)) for kind, ncam, m in
             (((("water", 3, 1), ("air", 2, 0)) if not th else tuple((q, c, m) for q in KINDS for c in (2, 3, 4) for m in (0, 1)))) if th or n % 2 == 0 or i == j]
    ctx.cases(c30, items, group="appearance intervals", batch=1)
    ctx.notes["bounds"] = "1-5 particles on curved paths from five places with five velocities, 4-5 frames, all appearance intervals of two particles, 2-4 cameras, four rigs, with and without preparation of the images, three backgrounds"
    ctx.assumptions = ["round spots of 8-bit images; positions are judged within 0.12 mm (about 0.7 pixel), image positions within 0.15 pixel (0.3 after preparing the image)"]


# ------------------------------------------------------------------ C31
C31_CAM = {}


def c31_cam(name):
    if not C31_CAM:
        for n, kw in dict(plain={}, offset=dict(xh=0.3, yh=-0.2), dist=dict(xh=0.1, yh=0.2, dist=(2e-4, 1e-6, 0, 1e-4, -2e-4, 1.01, 0.005)), wide=dict(imx=640, imy=1500, pix=(0.02, 0.01))).items():
            cals, cp = rigs.rig(1, **kw)
            C31_CAM[n] = (cals[0], cp)
    return C31_CAM[name]


def c31_lists(item, r):
    """Flat coordinates of a list of targets: numbering, order, values; and the lists taken from them."""
    name, pts, pnrs, reset = item
    cal, cp = c31_cam(name)
    ts = [Target(int(n), float(x) * cp.imx, float(y) * cp.imy, 5 + i, 3, 2, 100 + i, 40 + i) for i, ((x, y), n) in enumerate(zip(pts, pnrs))]
    before = copy.deepcopy(ts)
    m = match_coords(ts, cp, cal, tol=1e-7, reset_numbers=reset)
    r.ev(len(ts) > 0)
    if reset:
        for i, b in enumerate(before):
            b.pnr = i
    if ts != before:
        r.fail("match_coords altered more than the numbers it was asked to reset", before, ts, item)
    if len(m) != len(ts) or sorted(int(q.pnr) for q in m) != sorted(t.pnr for t in ts):
        r.fail("match_coords does not list every target once", [t.pnr for t in ts], [int(q.pnr) for q in m], item)
        return
    xs = [float(q.x) for q in m]
    if xs != sorted(xs):
        r.fail("flat coordinates are not sorted by x", None, xs, item)
    bynr = {t.pnr: t for t in ts}
    for q in m:
        t = bynr[int(q.pnr)]
        mx, my = (t.x - cp.imx / 2.0) * cp.pix_x, (cp.imy / 2.0 - t.y) * cp.pix_y
        x, y = rigs.ref_distort(float(q.x) + float(cal.int_par["xh"]), float(q.y) + float(cal.int_par["yh"]), cal.added_par)
        if abs(x - mx) > 1e-4 or abs(y - my) > 1e-4:
            r.fail("flat coordinates do not belong to the target they name", (mx, my), (x, y), item)
    pos, pnr = matched_coords_as_arrays(m)
    if pos.shape != (len(ts), 2) or [int(v) for v in pnr] != [int(q.pnr) for q in m] or any(pos[i, 0] != q.x or pos[i, 1] != q.y for i, q in enumerate(m)):
        r.fail("the arrays differ from the matched coordinates", m.tolist(), (pos, pnr), item)
    keep = m.copy()
    pos[...] = -7
    pnr[...] = -7
    if len(m) and not (m == keep).all():
        r.fail("changing the arrays changes the matched coordinates", keep, m, item)
    where = {int(q.pnr): (float(q.x), float(q.y)) for q in m}
    for k in range(len(ts) + 1):
        for want in itertools.permutations(where, k):
            got = get_by_pnrs(m, np.array(want, dtype=int))
            if got.shape != (k, 2) or any(tuple(g) != where[w] for g, w in zip(got, want)):
                r.fail("get_by_pnrs does not return the coordinates of the numbers asked for", [where[w] for w in want], got, (item, want))
                return
    r.outcome((len(ts), reset))
    r.sample(dict(camera=name, points=pts, numbers=pnrs))


def c31_sort(item, r):
    """Sorting keeps every element; ties and sizes."""
    ys, = item
    ts = [Target(i, float(10 - i), float(y), i, i, i, i, -1) for i, y in enumerate(ys)]
    got = sort_target_y(list(ts))
    r.ev(len(ys) > 1)
    if [t.y for t in got] != sorted(map(float, ys)) or sorted(t.pnr for t in got) != list(range(len(ys))):
        r.fail("sorting targets by row loses or misplaces targets", sorted(ys), [(t.pnr, t.y) for t in got], item)
    if any((t.x, t.n, t.sumg) != (10.0 - t.pnr, t.pnr, t.pnr) for t in got):
        r.fail("sorting targets mixes their data", None, got, item)
    a = np.zeros(len(ys), dtype=n_tupel_dtype).view(np.recarray)
    for i, y in enumerate(ys):
        a[i].p[:] = (i, -1, i + 1, 2)
        a[i].corr = y
    b = quicksort_n_tupel(a.copy())
    rows = sorted((float(e["corr"]), tuple(int(v) for v in e["p"])) for e in np.asarray(a))
    out = [(float(e["corr"]), tuple(int(v) for v in e["p"])) for e in np.asarray(b)]
    if [o[0] for o in out] != [q[0] for q in rows] or sorted(out) != rows:
        r.fail("sorting groups by quality loses or mixes groups", rows, out, item)


def c31_frame(item, r):
    """positions() and target_positions_for_camera() of a frame with every pattern of correspondences."""
    ncam, nparts, cap, pats = item
    f = Frame(ncam, cap)
    f.num_parts = nparts
    nt = [2, 3, 1, 2][:ncam]
    f.targets = [[Target(i, 10.0 * c + i + 0.25, 100.0 * c + 7 * i, 1, 1, 1, 1, -1) for i in range(n)] for c, n in enumerate(nt)]
    f.num_targets = nt
    for i in range(nparts):
        f.path_info[i].x = np.array([1.0 + i, -2.0 * i, 0.5 * i * i])
        f.correspond[i].nr = i + 1
        f.correspond[i].p[:] = [-1] * 4
        f.correspond[i].p[:ncam] = pats[i][:ncam]
    r.ev(nparts > 0)
    p = f.positions()
    if p.shape != (nparts, 3) or any(tuple(p[i]) != (1.0 + i, -2.0 * i, 0.5 * i * i) for i in range(nparts)):
        r.fail("positions() differ from the particles' positions", None, p, item)
    p[...] = 77
    if any(f.path_info[i].x[0] != 1.0 + i for i in range(nparts)):
        r.fail("changing the result of positions() moves the particles", None, None, item)
    for c in range(ncam):
        q = f.target_positions_for_camera(c)
        ok = q.shape == (nparts, 2)
        for i in range(nparts):
            j = pats[i][c]
            ok = ok and (np.isnan(q[i]).all() if j == -1 else tuple(q[i]) == (f.targets[c][j].x, f.targets[c][j].y))
        if not ok:
            r.fail(f"target positions of camera {c} are not those of the particles' targets", pats, q, item)


def c31_ref(item, r):
    """match_detection_to_ref: one entry per reference point, in order, each with the detection at it or none."""
    kind, seen, order, eps = item
    cals, cp = the_rig(kind, 1)
    grid = np.array([(-20.0 + 20 * (i % 3), -12.0 + 12 * (i // 3), 2.0 * (i % 2)) for i in range(6)])
    det = []
    for i in order:
        if seen >> i & 1:
            x, y = pixel(tuple(grid[i]), kind, 1, 0)
            det.append(Target(len(det), x + 0.4 * (i - 2), y - 0.3 * i, 10 + i, 2, 3, 500 + i, -1))
    before = copy.deepcopy(det)
    got = match_detection_to_ref(cals[0], grid, det, cp, eps=eps)
    r.ev(bool(det))
    want = [i if seen >> i & 1 else None for i in range(6)]
    ok = len(got) == 6
    for i, t in enumerate(got[:6]):
        if want[i] is None:
            ok = ok and t.pnr == -999
        else:
            ok = ok and t.pnr == i and t.n == 10 + i and t.sumg == 500 + i
    if not ok:
        r.fail("detections are not attached to their reference points", want, [(t.pnr, t.n) for t in got], item)
    if det != before:
        r.fail("matching altered the detections", before, det, item)


def C31(ctx):
    th = ctx.thorough
    ctx.rule = "a case counts when there is at least one target or particle"
    lat = [(0.1, 0.2), (0.1, 0.8), (0.5, 0.5), (0.9, 0.2), (0.37, 0.999), (1.0, 0.0)]
    items = []
    for name in ("plain", "offset", "dist", "wide"):
        for k in range(5 if th else 4):
            for pts in itertools.permutations(lat, k):
                for pnrs in ((0, 1, 2, 3), (3, 2, 1, 0), (70, 5, 900, 0), (2, 0, 1, -999)):
                    if k < 3 or th or pnrs[0] in (0, 70):
                        for reset in (False, True):
                            items.append((name, pts, pnrs[:k], reset))
    ctx.cases(c31_lists, items, group="coordinate lists")
    items = [(ys,) for k in range(7 if th else 6) for ys in itertools.product((1.5, 0.0, 33.25)[: 3 if k < 6 else 2], repeat=k)]
    items += [(tuple((i * 7 + k) % n + 0.5 * (i % 2) for i in range(n)),) for n in (8, 15, 16, 17, 31, 32, 33, 64, 100, 129) for k in range(3)]
    ctx.cases(c31_sort, items, group="sorting")
    one = lambda c: list(itertools.product(*[range(-1, n) for n in [2, 3, 1, 2][:c]]))
    items = [(c, k, cap, ps) for c in (1, 2, 3, 4) for k in range(3) for cap in (4, 9) for n, ps in enumerate(itertools.product(one(c), repeat=k)) if c < 4 or k < 2 or n % 5 == 0 or th]
    ctx.cases(c31_frame, items, group="frame accessors")
    orders = [tuple(range(6)), tuple(reversed(range(6))), (3, 0, 5, 1, 4, 2)]
    ctx.cases(c31_ref, [(k, s, o, e) for k in KINDS for s in range(64) for o in orders for e in (6, 25)], group="references")
    ctx.notes["bounds"] = "up to 3 (thorough 4) targets on six image places in every order, four numberings, four cameras; all sort inputs of up to 5 keys from three values and sizes to 129; all correspondence patterns of up to two particles; all subsets of six reference points"
    ctx.assumptions = ["the numbers of targets in one list are distinct"]


# ------------------------------------------------------------------ C32
def c32(item, r):
    """One camera: the point in the middle of the depth range that is seen at the given place."""
    kind, pose, layers, dz, pts = item
    kw = dict(KINDS[kind])
    roll = kw.pop("roll", 0.0)
    cals, cp = rigs.rig(1, pos=[pose], roll=roll, **kw)
    cal = cals[0]
    vp = rigs.volume()
    vp.x_lay = [layers[0], layers[1]]
    lo, hi = dz
    vp.z_min_lay, vp.z_max_lay = [lo[0], lo[1]], [hi[0], hi[1]]
    keep = copy.deepcopy(vp)
    level = lo[0] == lo[1] and hi[0] == hi[1]
    flats = []
    for p in pts:
        p = (p[0], p[1], (lo[0] + hi[0]) / 2.0)
        flats.append(rigs.ref_flat(p, cal, cp.mm))
    targets = np.array(flats).reshape(len(pts), 1, 2)
    t0 = targets.copy()
    res, rcm = point_positions(targets, cp.mm, [cal], vp)
    r.ev(len(pts) > 0)
    if res.shape != (len(pts), 3) or rcm.shape != (len(pts),) or (rcm != 0).any():
        r.fail("single camera positions: wrong shape or measure", len(pts), (res.shape, rcm), item)
        return
    for p, f, X in zip(pts, flats, res):
        Y = epi_mm_2D(f[0], f[1], cal, cp.mm, vp)
        if not np.allclose(X, Y, atol=1e-12):
            r.fail("single camera positions differ from epi_mm_2D row by row", Y, X, item)
        want = np.array((p[0], p[1], (lo[0] + hi[0]) / 2.0))
        if level:
            if np.abs(X - want).max() > 5e-3:
                r.fail("the position is not the point of the middle plane that is seen there", want, X, item)
        else:  # between the layers, and seen at the same place
            b = rigs.ref_flat(X, cal, cp.mm)
            if np.abs(b - f).max() > 1e-4:
                r.fail("the position is not seen where the target is", f, b, (item, X))
            if not min(lo) <= X[2] <= max(hi):
                r.fail("the position is outside the depth range", (lo, hi), X, item)
    if (targets != t0).any() or vp != keep:
        r.fail("single camera positions altered their input", None, None, item)
    r.outcome((kind, level, len(pts)))
    r.sample(dict(kind=kind, pose=pose, points=pts))


def c32_dispatch(n, r):
    r.ev()
    cals, cp = rigs.rig(2)
    T = np.zeros((1, max(n, 1), 2))
    try:
        point_positions(T, cp.mm, cals[:n], rigs.volume())
        if n == 0:
            r.fail("positions without any camera are not refused")
    except ValueError:
        if n:
            r.fail("positions refused", n)


def C32(ctx):
    th = ctx.thorough
    ctx.rule = "a case counts when there is at least one target"
    lat = [(x, y) for x in (-22.0, 0.0, 9.5) for y in (-15.0, 0.0, 13.0)]
    poses = [(0, 0, 400), (-150, -60, 400), (60, 120, 300)]
    depths = [((-20.0, -20.0), (20.0, 20.0)), ((-5.0, -5.0), (9.0, 9.0)), ((0.0, 0.0), (0.0, 0.0)), ((-30.0, -30.0), (-4.0, -4.0)), ((-20.0, -10.0), (5.0, 18.0)), ((-8.0, -25.0), (10.0, -2.0))]
    layers = [(-30.0, 30.0), (0.0, 100.0)] + ([(-300.0, -10.0), (40.0, -40.0)] if th else [])
    batches = [()] + [(p,) for p in lat] + [tuple(lat), tuple(lat[::-2]), (lat[4], lat[4], lat[0])]
    if th:
        batches += list(itertools.permutations(lat, 2))
    items = [(k, p, l, d, b) for k in KINDS for p in poses for l in layers for d in depths for b in batches if l[0] <= 0 <= l[1] or d[0][0] == d[0][1]]
    # a sloping layer is interpolated between the layers' places
    items = [i for i in items if i[3][0][0] == i[3][0][1] or i[2] == (-30.0, 30.0)]
    ctx.cases(c32, items, group="positions")
    ctx.cases(c32_dispatch, [0, 1, 2], group="number of cameras", batch=1)
    ctx.notes["bounds"] = f"{len(lat)} places x {len(depths)} depth ranges x {len(layers)} layer places x 3 poses x 4 rigs, {len(batches)} batches"
    ctx.assumptions = ["for sloping layers only the ray and the range are judged (the library takes the depth where the ray enters)"]


# ------------------------------------------------------------------ C33
def number(v, style):
    return {0: f"{v:g}", 1: f"{v:.6f}", 2: f"{v:+.3e}"}[style]


def c33_block(item, r):
    """Calibration block file: identities and positions as written, in the order of the file."""
    ids, style, sep, end = item
    pts = [(i, 10.5 * n - 3, -2.25 * n, 0.125 * n * n) for n, i in enumerate(ids)]
    path = os.path.join(scratch("c33"), "block.txt")
    with open(path, "w") as fp:
        fp.write("\n".join(sep.join([str(i)] + [number(v, style) for v in p]) for i, *p in pts) + end)
    tol = 1e-3 if style == 2 else 1e-5
    got = read_calblock(path)
    rows = [(int(np.ravel(g["pnr"])[0]), float(np.ravel(g["x"])[0]), float(np.ravel(g["y"])[0]), float(np.ravel(g["z"])[0])) for g in got]
    r.ev(bool(ids))
    near = lambda a, b: abs(a - b) <= tol * max(1.0, abs(b))
    if len(rows) != len(pts) or any(a[0] != b[0] or not all(near(u, v) for u, v in zip(a[1:], b[1:])) for a, b in zip(rows, pts)):
        r.fail("calibration block is not read as written", pts, rows, item)
    if ids:
        fix, n = read_fix(path)
        if n != len(pts) or np.shape(fix) != (len(pts), 3) or any(not near(u, v) for a, b in zip(fix, pts) for u, v in zip(a, b[1:])):
            r.fail("calibration block is not read as written (orientation)", pts, (fix, n), item)
    r.outcome((len(ids), style))


def c33_fixed(item, r):
    """Manual orientation: the four points with the identities given for the camera, in that order."""
    ids, picks, cam, layout = item
    d = scratch("c33")
    block, man = os.path.join(d, "block.txt"), os.path.join(d, "man_ori.par")
    pts = {i: (10.5 * n - 3, -2.25 * n, 0.5 * n * n) for n, i in enumerate(ids)}
    with open(block, "w") as fp:
        for i, p in pts.items():
            fp.write(f"{i} {p[0]} {p[1]} {p[2]}\n")
    rows = [[ids[(k + c) % len(ids)] for k in range(4)] for c in range(4)]
    rows[cam] = list(picks)
    with open(man, "w") as fp:
        for q in rows:
            fp.write((" ".join(map(str, q)) if layout == "row" else "\n".join(map(str, q))) + "\n")
    got = read_man_ori_fix(block, man, cam)
    r.ev()
    if all(p in pts for p in picks) and len(ids) >= 4:
        want = np.array([pts[p] for p in picks])
        if got is None or np.shape(got) != (4, 3) or not np.allclose(got, want):
            r.fail("the points of the manual orientation are not those with the given identities", want, got, item)
    elif got is not None:
        r.fail("a manual orientation with unknown points is not refused", picks, got, item)


def c33_window(v, r):
    path = os.path.join(scratch("c33"), "sortgrid.par")
    with open(path, "w") as fp:
        fp.write(f"{v}\n")
    r.ev()
    if read_sortgrid_par(path) != v:
        r.fail("search window of the grid is not read as written", v, read_sortgrid_par(path), v)
    os.remove(path)
    if read_sortgrid_par(path) != 25:
        r.fail("missing search window file does not give the default", 25, read_sortgrid_par(path), v)


def c33_run(item, r):
    """A tracking run set up from files has the settings the files state."""
    ncam, first, last, lim, ang, acc, add, xl, z, bufl = item
    d = scratch("c33")
    P = lambda n, t: (open(os.path.join(d, n), "w").write(t), Path(d) / n)[1]
    cals, cp = rigs.rig(ncam, mm=rigs.WATER)
    names = [f"img/cam{c + 1}.%d" for c in range(ncam)]
    seq = P("sequence.par", "".join(n + "\n" for n in names) + f"{first}\n{last}\n")
    trk = P("track.par", "".join(f"{v}\n" for v in (*lim, ang, acc, add)))
    crit = P("criteria.par", "".join(f"{v}\n" for v in (xl[0], z[0], z[1], xl[1], z[0] + 1, z[1] - 1, 0.1, 0.2, 0.3, 0.4, 33, 0.05)))
    ptv = P("ptv.par", f"{ncam}\n" + "".join(f"cam{c + 1}.tif\ncal/cam{c + 1}.tif\n" for c in range(ncam)) + "1\n0\n1\n1280\n1024\n0.012\n0.012\n0\n1\n1.46\n1.33\n5\n")
    run = tr_new(seq, trk, crit, ptv, bufl, 32, "rt", "ptv", "add", cals, 1e-4)
    r.ev()
    t = run.tpar
    got = dict(seq=(run.seq_par.first, run.seq_par.last, list(run.seq_par.img_base_name)), lim=(t.dvxmin, t.dvxmax, t.dvymin, t.dvymax, t.dvzmin, t.dvzmax), rest=(t.dangle, t.dacc, t.add),
               cams=(run.cpar.num_cams, run.cpar.imx, run.cpar.imy, run.cpar.pix_x, run.cpar.mm.n1, run.cpar.mm.n2[0], run.cpar.mm.n3, run.cpar.mm.d[0]),
               vol=(list(run.vpar.z_max_lay), list(run.vpar.z_min_lay), run.vpar.eps0, run.vpar.corrmin, run.vpar.cn, run.vpar.cnx, run.vpar.cny, run.vpar.csumg),
               tol=run.flatten_tol, counts=(run.npart, run.nlinks), bufs=(len(run.fb.buf), run.fb.num_cams, run.fb.corres_file_base, run.fb.linkage_file_base, run.fb.prio_file_base))
    want = dict(seq=(first, last, names), lim=lim, rest=(ang, acc, add), cams=(ncam, 1280, 1024, 0.012, 1.0, 1.46, 1.33, 5.0), vol=(None, None, 0.05, 33.0, 0.3, 0.1, 0.2, 0.4),
                tol=1e-4, counts=(0, 0), bufs=(bufl, ncam, "rt", "ptv", "add"))
    for k in want:
        a, b = want[k], got[k]
        if k == "vol":
            a, b = a[2:], b[2:]
        if k in ("lim",):
            a = tuple(map(float, a))
        if a != b:
            r.fail(f"a tracking run set up from files differs from them: {k}", a, b, item)
    diag = math.sqrt(sum((lim[2 * i + 1] - lim[2 * i]) ** 2 for i in range(3)))
    if abs(run.lmax - diag) > 1e-9 * diag:
        r.fail("the largest displacement is not the diagonal of the limits", diag, run.lmax, item)
    if len(run.cal) != ncam or any(a is not b for a, b in zip(run.cal, cals)):
        r.fail("the run does not use the given cameras", None, None, item)
    # the volume of the run: the given one joined with what the cameras' corners see (C22), depth as given
    v = run.vpar
    if not (v.x_lay[0] <= xl[0] and v.x_lay[1] >= xl[1] and run.ymin < 0 < run.ymax):
        r.fail("the volume of the run does not contain the given one", xl, (v.x_lay, run.ymin, run.ymax), item)
    if (min(v.z_min_lay), max(v.z_max_lay)) != (z[0], z[1]):
        r.fail("the depth range of the run is not the given one", z, (v.z_min_lay, v.z_max_lay), item)
    r.outcome((ncam, add))


def C33(ctx):
    th = ctx.thorough
    ctx.rule = "every file is written from known values by the check itself"
    sets = [(), (1,), (1, 2, 3), (5, 1, 9), (101, 102, 201, 202), (4, 3, 2, 1, 0), tuple(range(1, 41)), (12, 7, 1000001)]
    ctx.cases(c33_block, [(i, s, sep, e) for i in sets for s in (0, 1, 2) for sep in (" ", "   ", "\t") for e in ("\n", "", "\n\n", "\n  \n")], group="calibration block")
    items = []
    for ids in ((1, 2, 3, 4, 5), (5, 4, 3, 2, 1), (101, 7, 33, 42, 12, 1), (1, 2, 3, 4), (1, 2, 3)):
        for picks in itertools.permutations(ids, 4) if len(ids) < 6 or th else itertools.combinations(ids, 4):
            for cam in range(4):
                for lay in ("row", "column"):
                    items.append((ids, picks, cam, lay))
        for cam in range(4):
            items.append((ids, (ids[0], ids[1], 999, ids[2]), cam, "column"))
    ctx.cases(c33_fixed, items, group="manual orientation")
    ctx.cases(c33_window, list(range(1, 130)), group="grid window")
    lims = [(-1.0, 2.0, -3.0, 0.5, -0.25, 4.0), (-15.5, 15.5, -15.5, 15.5, -15.5, 15.5)]
    items = [(c, f, l, lim, ang, acc, add, xl, z, b) for c in (1, 2, 3, 4) for f, l in ((1, 4), (10001, 10120)) for lim in lims for ang, acc in ((100.0, 0.5), (270.0, 20.25)) for add in (0, 1)
             for xl in ((-1.0, 2.0), (-300.0, 4.0), (-5.0, 250.0)) for z in ((-20.0, 25.0), (-3.0, 1.0)) for b in (1, 4)]
    ctx.cases(c33_run, items if th else items[::3], group="tracking run from files")
    ctx.notes["bounds"] = "blocks of 0..40 points with consecutive, shuffled and sparse identities, number styles, separators and ends of file; all choices of 4 out of 4-6 points per camera in both layouts; tracking settings of the alphabet"


# ------------------------------------------------------------------ C38
BODY = [(100 + 7 * i, (x, y, z)) for i, (x, y, z) in enumerate([(x, y, -5.0) for x in (-24.0, -12.0, 0.0, 12.0, 24.0) for y in (-15.0, -5.0, 5.0, 15.0)] +
                                                               [(x, y, 5.0) for x in (-18.0, -6.0, 6.0, 18.0) for y in (-10.0, 0.0, 10.0)])]
PROBE = [(-9.0, 2.0, 1.0), (7.0, -8.0, -2.0), (15.0, 6.0, 3.0), (-17.0, -12.0, 0.0), (1.0, 1.0, 6.0)]
QUADS = [(0, 3, 16, 19), (1, 18, 21, 30), (20, 22, 29, 31), (0, 19, 9, 28)]
KINDS38 = dict(KINDS, off=dict(xh=0.08, yh=-0.06, dist=(3e-5, -1e-8, 0, 0, 2e-5, 0.999, -0.0015)), roll=dict(mm=rigs.WATER, roll=0.5, dist=(4e-5, 0, 0, -2e-5, 0, 1, 0)))
PHI38 = dict(pose=(), dist=("k1flag", "p1flag", "p2flag", "scxflag", "sheflag"), all=("ccflag", "xhflag", "yhflag", "k1flag", "k2flag", "p1flag", "p2flag", "scxflag", "sheflag"))


def c38_rig(kind, ncam):
    if ("cal", kind, ncam) not in _rig:
        _rig["cal", kind, ncam] = rigs.rig(ncam, imx=IMX, imy=IMY, pix=(PIX, PIX), **KINDS38[kind])
    return _rig["cal", kind, ncam]


def c38(item, r):
    """Block file, manual points and one image per camera: recognition, rough pose, sorting, full calibration, files; then measure the body."""
    kind, ncam, quad, dev, on, missing, background = item
    cals, cp = c38_rig(kind, ncam)
    d = scratch("c38")
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    block, man = os.path.join(d, "block.txt"), os.path.join(d, "man_ori.par")
    with open(block, "w") as fp:
        fp.writelines(f"{n:6d} {x:12.4f} {y:12.4f} {z:12.4f}\n" for n, (x, y, z) in BODY)
    quads = [QUADS[(quad + c) % len(QUADS)] for c in range(ncam)]
    with open(man, "w") as fp:
        fp.writelines(f"{BODY[k][0]}\n" for q in quads for k in q)
    fix, nfix = read_fix(block)
    truth = np.array([p for _, p in BODY])
    if nfix != len(BODY) or not np.array_equal(fix, truth):
        r.fail("the calibration body is not the one in the file", truth, fix, item)
        return
    tp = TargetPar(gvthresh=[background + 12] * 4, discont=200, nnmin=4, nnmax=200, nxmin=2, nxmax=20, nymin=2, nymax=20, sumg_min=100)
    done, seen = [], []
    for c in range(ncam):
        px = np.array([rigs.ref_pixel(p, cals[c], cp) for p in truth])
        gap = min(float(np.linalg.norm(a - b)) for a, b in itertools.combinations(px, 2))
        assert gap > 9, (kind, c, gap)
        gone = {(m + 5 * c) % nfix for m in missing} - set(quads[c])
        ts = target_recognition(render([tuple(px[k]) for k in range(nfix) if k not in gone], background), tp, c, cp)
        if len(ts) != nfix - len(gone):
            r.fail(f"camera {c}: {len(ts)} targets for {nfix - len(gone)} marks", case=item)
            return
        # the first guess, and the four marks as a person would point at them
        start = rigs.camera(np.add(cals[c].get_pos(), dev[:3]), cc=60.0, glass=tuple(float(v) for v in cals[c].glass_par), xh=float(cals[c].int_par["xh"]), yh=float(cals[c].int_par["yh"]),
                            angles=np.add([float(cals[c].ext_par[k]) for k in ("omega", "phi", "kappa")], dev[3:]))
        four = read_man_ori_fix(block, man, c)
        clicks = px[list(quads[c])] + np.array([(0.4, -0.3), (-0.4, 0.2), (0.1, 0.4), (-0.2, -0.4)])
        if four is None or not np.array_equal(four, truth[list(quads[c])]):
            r.fail(f"camera {c}: the manual orientation names other points", truth[list(quads[c])], four, item)
            return
        if not external_calibration(start, four, clicks, cp):
            r.fail(f"camera {c}: no rough orientation from four marks", case=item)
            return
        matched = match_detection_to_ref(start, fix, ts, cp, 7)
        for k, t in enumerate(matched):
            if k in gone:
                if t.pnr != -999:
                    r.fail(f"camera {c}: a mark that is not in the image is matched", px[k], (t.x, t.y), item)
                    return
            elif t.pnr != k or math.hypot(t.x - px[k][0], t.y - px[k][1]) > 0.2:
                r.fail(f"camera {c}: mark {k} is not matched with its image", px[k], (t.pnr, t.x, t.y), item)
                return
        op = OrientPar()
        for f in PHI38[on]:
            setattr(op, f, 1)
        res, used, err = full_calibration(start, fix, matched, cp, op)
        if sorted(int(u) for u in used) != sorted(set(range(nfix)) - gone):
            r.fail(f"camera {c}: the marks used are not those in the image", sorted(gone), used, item)
        res = np.asarray(res).reshape(-1, 2)
        lim = 0.15 * PIX if on != "pose" or kind in ("air", "water", "tilt") else 2.0 * PIX
        if len(res) != nfix - len(gone) or not np.abs(res).max() < lim:
            r.fail(f"camera {c}: residuals after calibration", f"< {lim} mm", np.abs(res).max() if len(res) else res, item)
        ori, add = os.path.join(d, f"cam{c}.ori"), os.path.join(d, f"cam{c}.addpar")
        start.write(ori, add)
        cal = Calibration().from_file(Path(ori), Path(add))
        for p in PROBE:
            a, b = img_coord(np.array(p), cal, cp.mm), rigs.ref_metric(p, cals[c], cp.mm)
            if not np.allclose(a, b, atol=2 * lim):
                r.fail(f"camera {c}: the calibrated camera from its files sees a probe point elsewhere", b, a, item)
                return
        done.append(cal)
        seen.append({k: t for k, t in enumerate(matched) if t.pnr == k})
        r.add("states")
        r.add("transitions", 5)
    both = [k for k in range(nfix) if all(k in s for s in seen)]
    flat = np.array([[dist_to_flat(*pixel_to_metric(seen[c][k].x, seen[c][k].y, cp), done[c], 1e-6) for c in range(ncam)] for k in both]).reshape(-1, ncam, 2)
    xyz, rcm = point_positions(flat, cp.mm, done, rigs.volume())
    tol = 0.15 if on != "pose" or kind in ("air", "water", "tilt") else 1.5
    bad = [k for k, a in zip(both, xyz) if not np.linalg.norm(a - truth[k]) < tol]
    if bad or not np.all(np.asarray(rcm) < tol):
        r.fail("the calibrated cameras do not measure the body they were calibrated with", truth[bad], xyz[[both.index(k) for k in bad]], item)
    r.add("marks_measured", len(both))
    r.add("traces_validated_against_impl")
    r.outcome((kind, ncam, on, len(both)))
    r.sample(dict(rig=kind, cameras=ncam, free=on, manual=quads, missing=missing))


DEV38 = [(3.0, -2.0, 4.0, 0.01, -0.015, 0.02), (-5.0, 4.0, -8.0, -0.02, 0.01, -0.03), (0.0,) * 6, (8.0, 6.0, 10.0, 0.0, 0.03, 0.0), (0.0, -9.0, -12.0, 0.03, 0.0, 0.04)]
GONE38 = [(), (0,), (31,), (3, 8), (2, 11, 17, 23, 29)]


def C38(ctx):
    th = ctx.thorough
    ctx.rule = "every camera of every rig is calibrated from rendered images, a block file, manual points and a disturbed first guess, saved, read, and used to measure the body"
    items, n = [], 0
    for kind in KINDS38:
        for on in PHI38:
            for ncam in (2, 3, 4):
                for q in range(len(QUADS)):
                    for i, dev in enumerate(DEV38):
                        for j, gone in enumerate(GONE38):
                            n += 1
                            if th or (i + j + q + ncam) % 5 == 0 and (j + ncam) % 2 == 0:
                                items.append((kind, ncam, q, dev, on, gone, (0, 20)[n % 2]))
    ctx.cases(c38, items, batch=1)
    ctx.notes["bounds"] = "six rigs x 2-4 cameras x four choices of manual points x five first guesses x three selections of parameters x five sets of hidden marks"
    ctx.assumptions = ["32 marks on two planes rendered as round spots; residuals are judged within 0.15 pixel (2 pixel where distortion is present but not selected), measured marks within 0.15 mm (1.5 mm)"]
