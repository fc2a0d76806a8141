"""C36: what a call returns depends on its arguments alone, whatever was called before, on whatever scene."""
import copy
import dataclasses
import itertools
import multiprocessing as mp
import os
import tempfile
from pathlib import Path

import numpy as np

from openptv_python import calibration as ca, correspondences as co, epi, image_processing as ip, imgcoord, multimed as mm, orientation as ori, ray_tracing as rt, segmentation as seg, sortgrid as sg, track, trafo, vec_utils as vu
from openptv_python.constants import COORD_UNUSED
from openptv_python.find_candidate import find_candidate
from openptv_python.parameters import OrientPar, SequencePar, TargetPar, TrackParTuple, read_control_par, read_volume_par
from openptv_python.tracking_frame_buf import Frame, FrameBuf, Target, get_by_pnrs, match_coords, matched_coords_as_arrays, read_path_frame, read_targets, sort_target_y, write_path_frame, write_targets
from openptv_python.track import Foundpix_dtype
from openptv_python.tracking_run import TrackingRun

from . import core, rigs

LEVELS = {"C36": "model_checking"}

KW = dict(
    air=dict(n=2, mm=rigs.AIR, imx=640, imy=512, pix=(0.024, 0.024)),
    water=dict(n=3, mm=rigs.WATER, glass=(4.0, -6.0, 90.0), roll=0.2, imx=800, imy=512, pix=(0.02, 0.022), xh=0.05),
    dist=dict(n=4, mm=rigs.WATER, dist=(2e-5, 1e-8, 0, 1e-5, -2e-5, 1.003, 0.002), imx=512, imy=640, pix=(0.028, 0.02)),
)
PTS = [(0.0, 0.0, 0.0), (8.0, 3.0, 2.0), (-7.0, -5.0, 4.0), (3.0, -9.0, -6.0), (-4.0, 8.0, 7.0)]
GRID = np.array([(x, y, z) for x in (-15., -5., 5., 15.) for y in (-12., 0., 12.) for z in (-6., 5.)])


class World:
    """One scene: cameras, parameters, targets, images. Everything an operation may be given."""

    def __init__(self, kind):
        k = dict(KW[kind])
        self.kind, self.n = kind, k.pop("n")
        self.cals, self.cp = rigs.rig(self.n, **k)
        self.vp = rigs.volume()
        self.vp.eps0 = 0.05
        self.tp = TrackParTuple(dvxmin=-3.0, dvxmax=3.0, dvymin=-3.0, dvymax=3.0, dvzmin=-3.0, dvzmax=3.0, dangle=100.0, dacc=2.5, add=0, dsumg=0, dn=0, dnx=0, dny=0)
        s = len(kind)
        self.pts = [tuple(v + 0.25 * s for v in p) for p in PTS]
        self.targets = [[Target(i, *map(float, rigs.ref_pixel(p, c, self.cp)), 9 + i, 3, 3, 900 + i, -1) for i, p in enumerate(self.pts)] for c in self.cals]
        self.flat = [match_coords(t, self.cp, c) for t, c in zip(self.targets, self.cals)]
        self.flats = np.array([[rigs.ref_flat(p, c, self.cp.mm) for c in self.cals] for p in self.pts])
        self.gridpix = [np.array([rigs.ref_pixel(p, c, self.cp) for p in GRID]) for c in self.cals]
        self.gridtargs = [[Target(i, float(x), float(y), 9, 3, 3, 900, -1) for i, (x, y) in enumerate(g)] for g in self.gridpix]
        rng = np.arange(self.cp.imx * 24 // 20)
        self.icp = copy.deepcopy(self.cp)
        self.icp.imx, self.icp.imy = 24 + s, 20 + 2 * (s % 3)
        yy, xx = np.mgrid[:self.icp.imy, :self.icp.imx]
        img = np.zeros((self.icp.imy, self.icp.imx))
        for a, (x, y) in enumerate(((5, 6), (15, 9), (9, 14))):
            img += (120 + 30 * a) * np.exp(-((xx - x) ** 2 + (yy - y) ** 2) / (2 + 0.3 * s))
        self.img = np.clip(img, 0, 255).astype(np.uint8)
        self.mask = ((xx + yy) % 5 > 0).astype(np.uint8)
        self.tpar = TargetPar(gvthresh=[20 + s] * 4, discont=100, nnmin=1, nnmax=500, nxmin=1, nxmax=50, nymin=1, nymax=50, sumg_min=5)
        self.lut = copy.deepcopy(self.cals[0])
        mm.init_mmlut(self.vp, self.cp, self.lut)


def plain(o):
    """A comparable picture of anything."""
    if isinstance(o, ca.Calibration):
        return ("cal", plain(o.ext_par), plain(o.int_par), plain(o.glass_par), plain(o.added_par), plain(o.mmlut), plain(o.mmlut_data))
    if dataclasses.is_dataclass(o):
        return (type(o).__name__,) + tuple(plain(getattr(o, f.name)) for f in dataclasses.fields(o))
    if isinstance(o, Frame):
        return ("frame", o.num_parts, plain(o.num_targets), plain(o.path_info[:o.num_parts]), plain(o.correspond[:o.num_parts]), plain(o.targets))
    if isinstance(o, np.ndarray):
        if o.dtype.names:
            return tuple(plain(np.asarray(o[n])) for n in o.dtype.names)
        return (o.shape, tuple(o.ravel().tolist()))
    if isinstance(o, (np.void, np.record)):
        return tuple(plain(o[n]) for n in o.dtype.names)
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (list, tuple)):
        return tuple(plain(v) for v in o)
    if isinstance(o, dict):
        return tuple((k, plain(v)) for k, v in o.items())
    if isinstance(o, (int, float, str, bytes, bool, type(None))):
        return o
    if hasattr(o, "__dict__"):
        return plain(vars(o))
    return repr(o)


def same(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        try:
            return a == b or a != a and b != b or abs(a - b) <= 1e-9 * max(1.0, abs(a))
        except TypeError:
            return False
    return a == b


def scratch(o):
    """Overwrite whatever arrays a call handed out."""
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.size:
            if o.dtype.names:
                for n in o.dtype.names:
                    o[n] = 77
            elif o.dtype != object:
                o[...] = 1 if o.dtype == bool else 77
    elif isinstance(o, (list, tuple)):
        for v in o:
            scratch(v)
        if isinstance(o, list) and o and all(isinstance(v, (int, float, str)) for v in o):
            o.append(o[0])
    elif dataclasses.is_dataclass(o) or isinstance(o, (ca.Calibration, Frame)):
        for v in vars(o).values():
            scratch(v)


def poison(value):
    """Leave freed memory full of a value, for arrays that are handed out without being filled."""
    a = [np.full(n, value) for n in range(1, 130) for _ in range(3)]
    b = [np.full(n, value) for n in (150, 200, 300, 500, 1000, 4000)]
    del a, b


# --------------------------------------------------------------- operations: name -> f(world); what they change by contract is a copy
def op_img_coord(w):
    return [imgcoord.img_coord(np.array(p), c, w.cp.mm) for p in w.pts for c in w.cals]


def op_flat(w):
    return [imgcoord.flat_image_coord(np.array(p), c, w.cp.mm) for p in w.pts for c in w.cals]


def op_images(w):
    return imgcoord.image_coordinates(np.array(w.pts), w.cals[-1], w.cp.mm), imgcoord.flat_image_coordinates(np.array(w.pts), w.cals[0], w.cp.mm)


def op_lut(w):
    return [imgcoord.flat_image_coord(np.array(p), w.lut, w.cp.mm) for p in w.pts], mm.multimed_nlay(w.lut, w.cp.mm, np.array(w.pts[1])), mm.get_mmf_from_mmlut(w.lut, np.array(w.pts[2]))


def op_init_lut(w):
    c = copy.deepcopy(w.cals[1])
    mm.init_mmlut(w.vp, w.cp, c)
    return c


def op_volume(w):
    return mm.volumedimension(10.0, -10.0, 10.0, -10.0, 0.0, 0.0, w.vp, w.cp, w.cals)


def op_rays(w):
    return [rt.ray_tracing(float(x), float(y), c, w.cp.mm) for q in w.flats for (x, y), c in zip(q, w.cals)]


def op_trans(w):
    out = []
    for c in w.cals:
        t = mm.trans_cam_point(c.ext_par, w.cp.mm, c.glass_par, np.array(w.pts[1]))
        out += [t, mm.back_trans_point(np.array(t[1]), w.cp.mm, c.glass_par, np.array(t[2]), np.array(t[3])) if len(t) > 3 else None]
    return out


def op_epi(w):
    f = w.flats[1]
    return [epi.epi_mm(f[a][0], f[a][1], w.cals[a], w.cals[b], w.cp.mm, w.vp) for a in range(w.n) for b in range(w.n) if a != b], epi.epi_mm_2D(f[0][0], f[0][1], w.cals[0], w.cp.mm, w.vp)


def op_curve(w):
    return epi.epipolar_curve(np.array([w.targets[0][1].x, w.targets[0][1].y]), w.cals[0], w.cals[1], 5, w.cp, w.vp)


def op_find(w):
    x = epi.epi_mm(*w.flats[2][0], w.cals[0], w.cals[1], w.cp.mm, w.vp)
    t = w.targets[0][2]
    return find_candidate(w.flat[1], w.targets[1], len(w.targets[1]), *x, t.n, t.nx, t.ny, t.sumg, w.vp, w.cp, w.cals[1])


def op_corres(w):
    ts = copy.deepcopy(w.targets)
    pos, ids, n = co.py_correspondences(ts, [f.copy() for f in w.flat], w.cals, w.vp, w.cp)
    return pos, ids, n, plain(ts)


def op_corres_part(w):
    """Only some of the particles in each camera."""
    ts = [[copy.copy(t) for t in l if (t.pnr + c) % 4] for c, l in enumerate(w.targets)]
    flat = [match_coords(t, w.cp, c, reset_numbers=True) for t, c in zip(ts, w.cals)]
    pos, ids, n = co.py_correspondences(ts, flat, w.cals, w.vp, w.cp)
    return pos, ids, n, plain(ts)


def op_single(w):
    cp = copy.deepcopy(w.cp)
    cp.num_cams = 1
    ts = [copy.deepcopy(w.targets[0])]
    return co.py_correspondences(ts, [w.flat[0]], w.cals[:1], w.vp, cp), ori.point_positions(w.flats[:, :1], w.cp.mm, w.cals[:1], w.vp)


def op_positions(w):
    f = w.flats.copy()
    f[1, 0] = COORD_UNUSED
    return ori.point_positions(w.flats, w.cp.mm, w.cals, w.vp), ori.point_positions(f, w.cp.mm, w.cals, w.vp), ori.point_position(w.flats[3], w.n, w.cp.mm, w.cals)


def op_dumbbell(w):
    return ori.weighted_dumbbell_precision(w.flats[:4], w.cp.mm, w.cals, 12.0, 0.5)


def op_full(w):
    c = copy.deepcopy(w.cals[0])
    c.set_pos(c.get_pos() + np.array([0.6, -0.3, 0.5]))
    return ori.full_calibration(c, GRID, w.gridpix[0], w.cp, OrientPar()), c


def op_full_inner(w):
    c = copy.deepcopy(w.cals[1])
    c.set_pos(c.get_pos() + np.array([-0.4, 0.3, 0.5]))
    return ori.full_calibration(c, GRID, w.gridpix[1], w.cp, OrientPar(ccflag=1, xhflag=1, k1flag=1)), c


def op_full_part(w):
    """Some points without a target, some parameters free."""
    c = copy.deepcopy(w.cals[1])
    c.set_pos(c.get_pos() + np.array([0.3, 0.2, -0.5]))
    t = [Target(-999 if i in (3, 4, 5, 17) else i, float(x) + 0.3 * (i % 3), float(y) - 0.2 * (i % 4), 9, 3, 3, 900, -1) for i, (x, y) in enumerate(w.gridpix[1])]
    return ori.full_calibration(c, GRID, t, w.cp, OrientPar(ccflag=1)), c


def op_external(w):
    c = copy.deepcopy(w.cals[0])
    c.set_pos(c.get_pos() + np.array([2.0, -1.0, 1.0]))
    k = [0, 7, 16, 23]
    return ori.external_calibration(c, GRID[k], w.gridpix[0][k], w.cp), c


def op_deriv(w):
    return ori.num_deriv_exterior(w.cals[0], w.cp, 1e-5, 1e-5, np.array(w.pts[1]))


def op_grid(w):
    return [plain(ori.match_detection_to_ref(c, GRID, g[::-1], w.cp, eps=8)) for c, g in zip(w.cals, w.gridtargs)], sg.nearest_neighbour_pix(w.gridtargs[0], 200.0, 200.0, 90)


def op_trafo(w):
    p = np.array([(t.x, t.y) for t in w.targets[0]])
    m = trafo.arr_pixel_to_metric(p, w.cp.imx, w.cp.imy, w.cp.pix_x, w.cp.pix_y)
    return m, trafo.arr_metric_to_pixel(m, w.cp), [trafo.pixel_to_metric(x, y, w.cp) for x, y in p], [trafo.metric_to_pixel(x, y, w.cp) for x, y in m]


def op_distort(w):
    c = w.cals[-1]
    return [(trafo.dist_to_flat(x, y, c, 1e-7), trafo.flat_to_dist(x, y, c), trafo.distort_brown_affine(x, y, c.added_par), trafo.correct_brown_affine(x, y, c.added_par)) for x, y in w.flats[:, -1]]


def op_segment(w):
    return plain(seg.target_recognition(w.img, w.tpar, 1, w.icp))


def op_segment_part(w):
    return plain(seg.target_recognition(w.img, w.tpar, 0, w.icp, (2, 16), (3, 12)))


def op_prepare(w):
    return ip.prepare_image(w.img, 2)


def op_preprocess(w):
    return ip.preprocess_image(w.img, 0, w.icp, 2)


def op_lowpass(w):
    return ip.lowpass_3(w.img), ip.filter_3(w.img), ip.filter_3(w.img, np.array([[0, 1, 0], [1, 2, 1], [0, 1, 0]], float)), ip.copy_images(w.img)


def op_blur(w):
    return [ip.fast_box_blur(k, w.img, w.icp) for k in (1, 2)]


def op_subtract(w):
    out = np.zeros_like(w.img)
    ip.subtract_img(w.img, np.roll(w.img, 1, 1), out)
    return out, ip.subtract_mask(w.img, w.mask)


def op_matched(w):
    ts = copy.deepcopy(w.targets[0][::-1])
    m = match_coords(ts, w.cp, w.cals[0], reset_numbers=True)
    return plain(m), matched_coords_as_arrays(m), get_by_pnrs(m, np.array([2, 0])), plain(sort_target_y(ts))


def op_pixels(w):
    return [track.point_to_pixel(np.array(p), c, w.cp) for p in w.pts for c in w.cals], track.searchquader(np.array(w.pts[0]), w.tp, w.cp, w.cals)


def op_search(w):
    ts = [copy.copy(t) for t in sort_target_y(w.targets[0])]
    for i, t in enumerate(ts):
        t.tnr = i if i % 2 else -1
    p = [-1] * 4
    x, y = ts[1].x, ts[1].y
    return track.candsearch_in_pix(ts, len(ts), x, y, 200.0, 200.0, 200.0, 200.0, w.cp), track.candsearch_in_pix_rest(ts, len(ts), x, y, 200.0, 200.0, 200.0, 200.0, p, w.cp), p


def op_freq(w):
    a = np.array([(-1, 0, [0] * 4)] * (4 * w.n), dtype=Foundpix_dtype).view(np.recarray)
    for c in range(w.n):
        for k in range(3):
            a[4 * c + k].ftnr = (c + k) % 4
    return track.sort_candidates_by_freq(a, w.n), [(int(q.ftnr), int(q.freq)) for q in a]


def op_motion(w):
    a, b, c = (np.array(p) for p in w.pts[:3])
    out = np.zeros(2)
    track.predict(a[:2], b[:2], out)
    return track.angle_acc(a, b, c), track.search_volume_center_moving(a, b), out, track.pos3d_in_bounds(b - a, w.tp), track.sort(4, [3.0, 1.0, 2.0, 1.0], [1, 2, 3, 0])


def op_vectors(w):
    a, b = (np.array(p) for p in w.pts[1:3])
    return vu.unit_vector(a), vu.vec_cross(a, b), vu.vec_subt(a, b), vu.vec_copy(a), vu.vec_norm(b), vu.vec_cmp(a, b), mm.move_along_ray(3.0, a, b), ori.skew_midpoint(a, b, b, a), vu.vec_init(), vu.vec_init(3)


def files(w, d, frames=4, step=0.5):
    bases = [os.path.join(d, f"cam{c}.%05d") for c in range(w.n)]
    names = [os.path.join(d, n) for n in ("rt_is", "ptv_is", "added")]
    for t in range(frames):
        f = Frame(w.n, 10)
        f.num_parts = 3
        for i, p in enumerate(w.pts[:3]):
            f.path_info[i].x = np.array([p[0] + step * t * (i - 1), p[1] + step * t, p[2]])
            f.correspond[i].p[:] = -1
            f.correspond[i].p[:w.n] = 0
        f.targets, f.num_targets = [], [3] * w.n
        for c, cal in enumerate(w.cals):
            l = sorted(((*map(float, rigs.ref_pixel(f.path_info[i].x, cal, w.cp)), i) for i in range(3)), key=lambda q: q[1])
            f.targets.append([Target(j, x, y, 9, 3, 3, 900, i) for j, (x, y, i) in enumerate(l)])
            for j, (_, _, i) in enumerate(l):
                f.correspond[i].p[c] = j
        f.write(*names, bases, t + 1)
    return bases, names


def op_track(w):
    with tempfile.TemporaryDirectory() as d:
        bases, names = files(w, d)
        s = SequencePar(img_base_name=bases, first=1, last=4)
        run = TrackingRun(s, w.tp, copy.deepcopy(w.vp), w.cp, 4, 64, *names, w.cals, 1e-5)
        track.track_forward_start(run)
        for step in range(1, 4):
            track.trackcorr_c_loop(run, step)
        track.trackcorr_c_finish(run, 4)
        track.trackback_c(TrackingRun(s, w.tp, copy.deepcopy(w.vp), w.cp, 4, 64, *names, w.cals, 1e-5))
        return {f: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d))}


def op_frames(w):
    with tempfile.TemporaryDirectory() as d:
        bases, names = files(w, d, 2, 0.25)
        b = FrameBuf(3, w.n, 10, *names, bases)
        b.read_frame_at_end(1, True)
        b.fb_next()
        b.read_frame_at_end(2)
        cor, path = read_path_frame(*names, 1)
        write_path_frame(cor, path, len(cor), *(n + "x" for n in names), 3)
        write_targets(w.targets[0], len(w.targets[0]), os.path.join(d, "t.%05d"), 9)
        return [plain(f) for f in b.buf], [f.positions() for f in b.buf], b.buf[-1].target_positions_for_camera(w.n - 1), plain(read_targets(os.path.join(d, "t.%05d"), 9)), \
            {f: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d))}


def op_calfile(w):
    with tempfile.TemporaryDirectory() as d:
        a, b = Path(d) / "a.ori", Path(d) / "a.addpar"
        w.cals[1].write(a, b)
        c = ca.read_calibration(a, b)
        e = ca.Calibration()
        return c, e, ca.compare_calibration(c, c), open(a).read(), open(b).read(), c.get_pos(), c.get_rotation_matrix(), c.get_radial_distortion(), e.get_pos(), e.get_radial_distortion(), e.get_affine()


def op_parfile(w):
    with tempfile.TemporaryDirectory() as d:
        p, v = Path(d) / "ptv.par", Path(d) / "crit.par"
        with open(p, "w") as f:
            f.write(f"{w.n}\n" + "".join(f"i{c}\nc{c}\n" for c in range(w.n)) + f"1\n0\n1\n{w.cp.imx}\n{w.cp.imy}\n{w.cp.pix_x}\n{w.cp.pix_y}\n0\n1.0\n1.33\n1.46\n5.0\n")
        with open(v, "w") as f:
            f.write("-40\n-20\n25\n40\n-15\n20\n0.02\n0.03\n0.04\n0.05\n33\n0.1\n")
        a, b = read_control_par(p), read_volume_par(v)
        from openptv_python.parameters import ControlPar, MultimediaPar, VolumePar
        return a, b, ControlPar(num_cams=1), VolumePar(), MultimediaPar(), SequencePar(), TargetPar(), OrientPar()


OPS = {k[3:]: f for k, f in list(globals().items()) if k.startswith("op_")}
STATE = {}


def alone(key):
    """The result of an operation in a process in which no other operation has been called."""
    w = World(key[0])
    poison(0.0)
    try:
        return key, plain(OPS[key[1]](w))
    except Exception as e:  # the cases raise it again
        return key, ("raised", repr(e))


def prepare():
    """The first result of every operation on every scene, and the scenes as they are."""
    if STATE:
        return
    with mp.get_context("fork").Pool(core.NPROC, maxtasksperchild=1) as pool:
        ref, it = {}, pool.imap_unordered(alone, [(k, n) for n in OPS for k in KW], chunksize=1)
        try:
            for _ in range(len(OPS) * len(KW)):
                ref.update([it.next(timeout=100)])
        except mp.TimeoutError:  # an operation does not come to an end: the cases will not either
            pass
    worlds = {k: World(k) for k in KW}
    before = {k: plain(vars(w)) for k, w in worlds.items()}
    STATE.update(worlds=worlds, before=before, ref=ref)


def differing(a, b, at=()):
    """Where two pictures part."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return sum((differing(x, y, at + (i,)) for i, (x, y) in enumerate(zip(a, b))), [])
    return [] if same(a, b) else [(at, a, b)]


def judge(r, key, got, what, item):
    r.ev()
    if not same(STATE["ref"][key], got):
        diff = differing(STATE["ref"][key], got)[:4]
        r.fail(f"{key[1]} on scene '{key[0]}' {what}", [(p, a) for p, a, _ in diff], [b for _, _, b in diff], item)
        return False
    return True


def c36_alone(item, r):
    """Nothing given to an operation changes; twice the same."""
    k, n = item
    w = STATE["worlds"][k]
    poison(-3.3e33)
    a = OPS[n](w)
    judge(r, (k, n), plain(a), "differs from its first result", item)
    b = OPS[n](w)
    judge(r, (k, n), plain(b), "differs when called again", item)
    if not same(STATE["before"][k], plain(vars(w))):
        diff = [f for f, v in vars(w).items() if not same(dict(STATE["before"][k])[f], plain(v))]
        r.fail(f"{n} changes what it is given: {diff}", None, None, item)
        STATE["worlds"][k] = World(k)
    r.outcome(n)
    r.sample(dict(scene=k, operation=n))


def c36_seq(item, r):
    """A history of operations: each gives its own result; results handed out earlier stay; overwriting them does no harm."""
    hist, spoil = item
    out = []
    for i, (k, n) in enumerate(hist):
        a = OPS[n](STATE["worlds"][k])
        r.add("transitions", int(i > 0))
        past = " -> ".join(f"{q} ({s})" for s, q in hist[max(0, i - 3):i])
        if not judge(r, (k, n), plain(a), f"depends on the calls before it{', whose results were overwritten,' if spoil else ''} ... {past}", item):
            return
        out.append(a)
        if spoil:
            scratch(a)
    r.add("states", len(hist))
    r.add("traces_validated_against_impl")
    if not spoil:
        for (k, n), a in zip(hist, out):
            judge(r, (k, n), plain(a), "handed out a result that later calls change", item)
    for k in {k for k, _ in hist}:
        if not same(STATE["before"][k], plain(vars(STATE["worlds"][k]))):
            r.fail(f"the scene changes in the course of {hist}", None, None, item)
            STATE["worlds"][k] = World(k)


def de_bruijn(keys, n):
    """A sequence in which every n-tuple of keys stands somewhere (Lyndon words in order)."""
    out, w, k = [], [-1], len(keys)
    while w:
        w[-1] += 1
        if n % len(w) == 0:
            out += w
        m = len(w)
        while len(w) < n:
            w.append(w[-m])
        while w and w[-1] == k - 1:
            w.pop()
    return [keys[i] for i in out + out[:n - 1]]


def segments(seq, n, size):
    return [tuple(seq[i:i + size + n - 1]) for i in range(0, len(seq) - n + 1, size)]


def C36(ctx):
    th = ctx.thorough
    prepare()
    ctx.rule = "every ordered pair of operations stands in one of the histories run; each result compared with that on a fresh scene in a process where nothing was called before; with and without overwriting the results handed out"
    per = {k: [(k, n) for n in OPS] for k in KW}
    ctx.cases(c36_alone, [q for l in per.values() for q in l], group="single")
    h = []
    for l in per.values():
        h += segments(de_bruijn(l, 2), 2, 24)
    for n in OPS:
        h += segments(de_bruijn([(k, n) for k in KW], 3 if th else 2), 2, 24)
    if th:
        h += segments(de_bruijn(sum(per.values(), []), 2), 2, 24)
        h += segments(de_bruijn(per["air"], 3), 3, 24)
    ctx.cases(c36_seq, [(s, o) for s in h for o in (0, 1)], group="histories")
    ctx.notes["operations"] = len(OPS)
    ctx.notes["bounds"] = f"{len(OPS)} operations on three scenes of different size, optics and camera number; all ordered pairs of operations on each scene, of scenes for each operation" + (
        "; all ordered pairs across scenes; all triples on one scene" if th else "")
