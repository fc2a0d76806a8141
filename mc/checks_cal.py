"""C24-C26: calibration of a camera, calibration objects, sorting the calibration grid."""
import copy
import itertools
import math

import numpy as np

from openptv_python.calibration import Calibration, compare_calibration
from openptv_python.imgcoord import img_coord
from openptv_python.orientation import (external_calibration, full_calibration, match_detection_to_ref, num_deriv_exterior, orient, raw_orient)
from openptv_python.parameters import (ControlPar, MultimediaPar, OrientPar, SequencePar, TargetPar, TrackPar, VolumePar)
from openptv_python.sortgrid import nearest_neighbour_pix, sortgrid
from openptv_python.tracking_frame_buf import Target

from . import rigs
from .core import close

LEVELS = {"C25": "model_checking"}
DIST = (1e-4, 0.0, 0.0, 1e-5, -1e-5, 1.002, 0.001)
GRID = np.array([(x, y, z) for x in (-30, -10, 10, 30) for y in (-20, 0, 20) for z in (-10, 0, 10)], float)
FLAGS = ("ccflag", "xhflag", "yhflag", "k1flag", "k2flag", "k3flag", "p1flag", "p2flag", "scxflag", "sheflag", "interfflag")
NAMES = ("x0", "y0", "z0", "omega", "phi", "kappa", "cc", "xh", "yh", "k1", "k2", "k3", "p1", "p2", "scx", "she", "gx", "gy", "gz")


def state(c):
    e, i = c.ext_par, c.int_par
    return np.array([e.x0, e.y0, e.z0, e.omega, e.phi, e.kappa, i.cc, i.xh, i.yh, *c.added_par, *c.glass_par], float)


def flags(on, use=0):
    o = OrientPar()
    for f in FLAGS:
        setattr(o, f, int(f in on))
    o.useflag = use
    return o


RIGS24 = dict(
    air=dict(mm=rigs.AIR), dist=dict(mm=rigs.AIR, dist=DIST), water=dict(mm=rigs.WATER), tilt=dict(mm=rigs.WATER, glass=(4.0, 8.0, 100.0), dist=DIST),
    off=dict(mm=rigs.AIR, xh=0.1, yh=-0.05, dist=DIST), roll=dict(mm=rigs.WATER, roll=0.4))


def cam24(name, pos=(-150, -60, 400)):
    kw = dict(RIGS24[name])
    mm = kw.pop("mm")
    return rigs.camera(pos, **kw), rigs.control(1, mm)


def shift(c, dev):
    for k, v in dev:
        if k in ("x0", "y0", "z0"):
            p = c.get_pos()
            p["xyz".index(k[0])] += v
            c.set_pos(p)
        elif k in ("omega", "phi", "kappa"):
            a = c.get_angles()
            a[("omega", "phi", "kappa").index(k)] += v
            c.set_angles(a)
        elif k in ("cc", "xh", "yh"):
            p = c.get_primary_point()
            p[("xh", "yh", "cc").index(k)] += v
            c.set_primary_point(p)
        elif k == "glass":
            g = np.array(c.get_glass_vec(), float)
            c.set_glass_vec(g + np.array([v, -v, 0.0]))
        else:
            i = NAMES.index(k) - 9
            a = np.array(c.added_par, float)
            a[i] += v
            c.set_added_par(a)


def full_state(c):
    return [state(c).tolist(), np.asarray(c.ext_par["dm"]).tolist(), np.asarray(c.mmlut_data).tolist()]


def allowed(on):
    """Parameters a selection may change: the pose, the selected ones, the glass direction."""
    free = set(NAMES[:6]) | {f[:-4] for f in on}
    if "interfflag" in on:
        free |= {"gx", "gy", "gz"}
    return free


def c24(item, r):
    """Start off the truth by `dev`, calibrate with the flags `on`."""
    name, dev, on, tol, form, must = item
    true, cp = cam24(name)
    img = np.array([rigs.ref_pixel(p, true, cp) for p in GRID])
    cal, _ = cam24(name)
    shift(cal, dev)
    start = full_state(cal)
    ref_pts = GRID.copy()
    given = img.copy() if form == "array" else [Target(pnr=i, x=float(x), y=float(y)) for i, (x, y) in enumerate(img)]
    given0 = copy.deepcopy(given)
    r.ev(True)
    try:
        res, used, err = full_calibration(cal, ref_pts, given, cp, flags(on))
        ok = True
    except ValueError:
        ok = False
    r.outcome((name, ok, len(on)))
    if not ok:
        if must:
            r.fail("calibration from close to the truth with exact observations fails", dev, on, item)
        if full_state(cal) != start:
            r.fail("a failed calibration changes the camera", start[0], full_state(cal)[0], item)
        return
    s0, s1 = np.array(start[0]), state(cal)
    free = allowed(on)
    bad = [n for n, a, b in zip(NAMES, s0, s1) if n not in free and a != b]
    if bad:
        r.fail(f"calibration changes parameters that are not selected: {bad}", dict(zip(NAMES, s0)), dict(zip(NAMES, s1)), item)
    e = cal.ext_par
    if not close(e["dm"], rigs.rot(float(e["omega"]), float(e["phi"]), float(e["kappa"])), 1e-12):
        r.fail("the rotation matrix after calibration does not belong to the angles", None, e["dm"], item)
    px = np.array([rigs.ref_pixel(p, cal, cp) for p in GRID])
    err = np.abs(px - img).max()
    if not err < tol:
        r.fail("calibration does not reproject the exact observations", f"< {tol} pixel", err, item)
    if list(used) != list(range(len(GRID))) or res.shape != (len(GRID), 2) or not np.abs(res).max() < tol * 0.012 + 1e-3:
        r.fail("residuals or used points of exact observations", None, (used, np.abs(res).max(), res.shape), item)
    if not np.array_equal(ref_pts, GRID) or not (np.array_equal(given, given0) if form == "array" else given == given0):
        r.fail("calibration modifies the points it is given", None, None, item)


def c24_used(item, r):
    """Some points unmatched or left out, one observation disturbed: residuals belong to the points they are reported for."""
    name, missing, use, noisy = item
    true, cp = cam24(name)
    img = np.array([rigs.ref_pixel(p, true, cp) for p in GRID])
    if noisy is not None:
        img[noisy] += (2.0, -1.5)
    targs = [Target(pnr=i, x=float(x), y=float(y)) for i, (x, y) in enumerate(img)]
    for m in missing:
        targs[m] = Target()
    cal, _ = cam24(name)
    shift(cal, (("x0", 1.0), ("phi", -0.004)))
    r.ev(True)
    res, used, err = full_calibration(cal, GRID, targs, cp, flags((), use))
    skip = {1: lambda i: i % 2 == 0, 2: lambda i: i % 2 != 0, 3: lambda i: i % 3 == 0}.get(use, lambda i: False)
    want = [i for i in range(len(GRID)) if i not in missing and not skip(i)]
    if list(used) != want:
        r.fail("full_calibration does not report the points it used", want, list(used), item)
        return
    px = np.array([rigs.ref_pixel(p, cal, cp) for p in GRID])
    d = (px - img) * (cp.pix_x, -cp.pix_y)
    for row, i in enumerate(want):
        if not close(res[row], d[i], 2e-4):
            r.fail("a residual is not the reprojection error of its point", d[i], res[row], (item, i))
    if noisy is None or noisy not in want:
        e = np.abs((px - img)[[i for i in range(len(GRID)) if i != noisy]]).max()
        if e > 0.01:
            r.fail("calibration with some points does not fit the others", 0, e, item)
    r.outcome((name, use, len(missing)))


def c24_bad(item, r):
    """Observations that fit no camera: either an error is raised and nothing changes, or the result is finite with a proper rotation."""
    name, kind, on = item
    true, cp = cam24(name)
    img = np.array([rigs.ref_pixel(p, true, cp) for p in GRID])
    if kind == "reversed":
        img = img[::-1].copy()
    elif kind == "rolled":
        img = np.roll(img, 7, axis=0)
    elif kind == "mirror":
        img[:, 0] = cp.imx - img[:, 0]
    elif kind == "nan":
        img[5] = np.nan
    elif kind == "inf":
        img[3, 0] = np.inf
    elif kind == "same":
        img[:] = img[0]
    elif kind == "huge":
        img *= 1e6
    cal, _ = cam24(name)
    if kind == "away":
        shift(cal, (("x0", 300.0), ("kappa", 2.0), ("z0", -350.0)))
    elif kind == "below":
        cal.set_pos(np.array([0.0, 0.0, -300.0]))
    start = full_state(cal)
    s0 = np.array(start[0])
    try:
        full_calibration(cal, GRID, img, cp, flags(on))
        ok = True
    except ValueError:
        ok = False
    r.ev(True)
    r.outcome((kind, ok))
    r.add("failing_calibrations", not ok)
    if not ok and full_state(cal) != start:
        r.fail("a failed calibration changes the camera", start[0], full_state(cal)[0], item)
    if ok:
        if not np.all(np.isfinite(state(cal))):
            r.fail("calibration reports success with a camera that is not finite", None, state(cal), item)
        bad = [n for n, a, b in zip(NAMES, s0, state(cal)) if n not in allowed(on) and a != b]
        if bad:
            r.fail(f"calibration changes parameters that are not selected: {bad}", None, None, item)


def c24_orient(item, r):
    """orient() itself: same result as through full_calibration, None on failure."""
    name, dev = item
    true, cp = cam24(name)
    img = np.array([rigs.ref_pixel(p, true, cp) for p in GRID])
    targs = [Target(pnr=i, x=float(x), y=float(y)) for i, (x, y) in enumerate(img)]
    a, _ = cam24(name)
    b, _ = cam24(name)
    shift(a, dev)
    shift(b, dev)
    sig = np.zeros(20)
    res = orient(a, cp, len(GRID), GRID, targs, flags(()), sig, dm=1e-6, drad=1e-6)
    full_calibration(b, GRID, img, cp, flags(()))
    r.ev(True)
    if res is None or not close(state(a), state(b), 0) or not np.all(np.isfinite(sig[:6])):
        r.fail("orient and full_calibration differ", state(b), state(a), item)
    # the order of the points does not matter
    perm = np.roll(np.arange(len(GRID)), 11)[::-1]
    c, _ = cam24(name)
    shift(c, dev)
    full_calibration(c, GRID[perm], img[perm], cp, flags(()))
    if not close(state(c), state(b), 1e-3):
        r.fail("calibration depends on the order of the points", state(b), state(c), item)


def c24_raw(item, r):
    name, dev, k, direct = item
    true, cp = cam24(name)
    true.set_added_par(np.array([0, 0, 0, 0, 0, 1, 0.0]))
    pts = {4: GRID[[0, 9, 26, 35]], 5: GRID[[2, 9, 17, 26, 33]], 36: GRID}[k]
    img = np.array([rigs.ref_pixel(p, true, cp) for p in pts])
    cal, _ = cam24(name)
    shift(cal, dev)
    s0 = state(cal)
    p0, i0 = pts.copy(), img.copy()
    r.ev(True)
    if direct:
        ok = raw_orient(cal, cp, len(pts), pts, [Target(x=float(x), y=float(y)) for x, y in img])
    else:
        ok = external_calibration(cal, pts, img, cp)
    if not ok:
        r.fail("external calibration from close to the truth fails", True, ok, item)
        return
    s1 = state(cal)
    if not np.array_equal(s0[[6, 7, 8, 16, 17, 18]], s1[[6, 7, 8, 16, 17, 18]]) or not np.array_equal(s1[9:16], [0, 0, 0, 0, 0, 1, 0]):
        r.fail("external calibration changes more than the pose (distortion being reset)", s0, s1, item)
    e = cal.ext_par
    if not close(e["dm"], rigs.rot(float(e["omega"]), float(e["phi"]), float(e["kappa"])), 1e-12):
        r.fail("the rotation matrix after external calibration does not belong to the angles", None, e["dm"], item)
    px = np.array([rigs.ref_pixel(p, cal, cp) for p in pts])
    err = np.abs(px - img).max()
    gap = np.abs(s1[:6] - state(true)[:6])
    if not err < 5:
        r.fail("external calibration does not reproject the exact observations", "< 5 pixel (a rough orientation)", err, item)
    # measured on every item of the thorough tier: at most 0.1 mm and 0.0004 rad (corrections below 0.1 end it)
    if not (gap[:3].max() < 0.3 and gap[3:].max() < 0.002):
        r.fail("external calibration stops before the camera is in its place", "within 0.3 mm and 0.002 rad", gap, item)
    if not (np.array_equal(pts, p0) and np.array_equal(img, i0)):
        r.fail("external calibration modifies the points it is given", None, None, item)
    r.outcome((name, k))


POSE = [("x0", 3.0), ("y0", -2.0), ("z0", 4.0), ("omega", 0.01), ("phi", -0.015), ("kappa", 0.02)]
INTERN = [("cc", 0.5), ("xh", 0.1), ("yh", -0.08), ("k1", 5e-5), ("k2", 1e-7), ("k3", 1e-9), ("p1", 1e-5), ("p2", -2e-5), ("scx", 0.003), ("she", 0.002)]


def C24(ctx):
    th = ctx.thorough
    names = list(RIGS24)
    pose = [((k, s * v),) for k, v in POSE for s in (1, -1)] + [((a, va), (b, -vb)) for (a, va), (b, vb) in itertools.combinations(POSE, 2)] + [tuple(POSE)]
    items = [(n, d, (), 0.01, "array" if i % 2 else "targets", True) for n in names for i, d in enumerate(pose)]
    mix = (("x0", 1.5), ("kappa", -0.01))
    # one or two deviating inner parameters, selected; the pose as well
    sel = [(d,) for d in INTERN] + list(itertools.combinations(INTERN, 2))
    pick = names if th else ("dist", "tilt")
    for n in pick:
        for d in sel:
            on = tuple(k + "flag" for k, _ in d)
            items.append((n, d + mix, on, 0.3, "array", True))
    for n in ("water", "roll", "tilt"):
        for v in (1.0, -1.5):
            items.append((n, (("glass", v),), ("interfflag",), 0.05, "array", True))
            items.append((n, (("glass", v),) + mix, ("interfflag",), 0.05, "array", True))
    # every selection of free parameters, starting off in the pose only: what is not selected stays
    subs = [c for k in range(len(FLAGS) + 1) for c in itertools.combinations(FLAGS, k)]
    for n in (("dist", "tilt") if th else ("dist",)):
        items += [(n, mix, s, 0.3, "array", False) for s in (subs if th else [s for s in subs if len(s) in (1, 2, 10, 11)])]
    ctx.cases(c24, items, batch=2)
    miss = [(), (0,), (35,), (3, 4, 20), tuple(range(0, 36, 3)), tuple(range(5, 17))]
    ctx.cases(c24_used, [(n, m, u, z) for n in (names if th else ("air", "tilt")) for m in miss for u in (0, 1, 2, 3) for z in (None, 7, 22)], batch=4)
    kinds = ("reversed", "rolled", "mirror", "nan", "inf", "same", "huge", "away", "below")
    ctx.cases(c24_bad, [(n, k, on) for n in (names if th else ("dist", "tilt")) for k in kinds for on in ((), ("ccflag", "k1flag"), FLAGS[:-1])], batch=1)
    ctx.cases(c24_orient, [(n, d) for n in names for d in (pose if th else pose[::4])], batch=2)
    # rough guesses: up to centimetres off, and turned
    rough = [tuple(zip(("x0", "y0", "z0", "omega", "phi", "kappa"), v)) for v in itertools.product((-15.0, 4.0), (-3.0, 12.0), (12.0, -20.0), (0.012, -0.05), (-0.009,), (0.004, 0.08))]
    ctx.cases(c24_raw, [(n, d, k, q) for n in names for d in pose + rough for k in (4, 5, 36) for q in (False, True)], batch=8)
    ctx.rule = ("rigs x every single and paired pose deviation; every single and paired deviation of an inner parameter with its selection; all selections of free parameters (all 2048 in thorough); "
                "unmatched/left-out points with a disturbed one; observations that fit no camera; external calibration with 4, 5 and 36 points")
    ctx.assumptions = ["inner parameters carry the library's unit-weight prior towards their start value, so their own values are not judged, only reprojection (0.3 pixel) and that the others stay exactly"]


# ------------------------------------------------------------------ C25
class Model:
    """Plain record of one camera."""

    def __init__(self):
        self.v = dict(pos=[0.0] * 3, ang=[0.0] * 3, dm=np.eye(3), pp=[0.0] * 3, rad=[0.0] * 3, dec=[0.0] * 2, aff=[1.0, 0.0], glass=[0.0, 0.0, 1.0])

    def clone(self):
        m = Model()
        m.v = copy.deepcopy(self.v)
        return m


def rotm(a):
    return rigs.rot(*a)


A3 = [(1.0, -2.0, 300.0), (0.5, 0.25, -7.0)]
ANG = [(0.3, -0.2, 1.1), (-2.8, 0.0, 0.05)]
AT = dict(x0=("pos", 0), y0=("pos", 1), z0=("pos", 2), omega=("ang", 0), phi=("ang", 1), kappa=("ang", 2), xh=("pp", 0), yh=("pp", 1), cc=("pp", 2))

OPS = []
for _v in A3:
    OPS += [("set_pos", _v), ("set_primary_point", _v), ("set_glass_vec", _v)]
for _v in ANG:
    OPS.append(("set_angles", _v))
OPS += [("set_radial_distortion", (1e-4, -2e-6, 3e-8)), ("set_decentering", (1e-4, -3e-4)), ("set_affine_distortion", (0.98, 0.02)), ("set_added_par", (2e-4, 0.0, 1e-8, 5e-5, 0.0, 1.01, -0.01))]
OPS += [("inc", ("x0", 0.5)), ("inc", ("kappa", 0.25)), ("inc", ("phi", -0.1)), ("inc", ("cc", 2.0)), ("inc", ("none", 1.0)), ("update", ()), ("set_dm", (0.4, 0.1, -0.3)),
        ("deriv", (5.0, -3.0, 1.0)), ("derivbad", ()), ("copyto", ()), ("reload", ()), ("new", ()), ("bad", ()), ("poke", ())]
GET = dict(pos="get_pos", ang="get_angles", dm="get_rotation_matrix", pp="get_primary_point", rad="get_radial_distortion", dec="get_decentering", aff="get_affine", glass="get_glass_vec")


def apply(op, i, cals, models, cp, r, item, wd):
    kind, v = op
    c, m = cals[i], models[i]
    arr = np.array(v, float) if v and not isinstance(v[0], str) else None
    if kind == "set_pos":
        c.set_pos(arr)
        m.v["pos"] = list(v)
    elif kind == "set_primary_point":
        c.set_primary_point(arr)
        m.v["pp"] = list(v)
    elif kind == "set_glass_vec":
        c.set_glass_vec(arr)
        m.v["glass"] = list(v)
    elif kind == "set_angles":
        c.set_angles(arr)
        m.v["ang"], m.v["dm"] = list(v), rotm(v)
    elif kind == "set_radial_distortion":
        c.set_radial_distortion(arr)
        m.v["rad"] = list(v)
    elif kind == "set_decentering":
        c.set_decentering(arr)
        m.v["dec"] = list(v)
    elif kind == "set_affine_distortion":
        c.set_affine_distortion(arr)
        m.v["aff"] = list(v)
    elif kind == "set_added_par":
        c.set_added_par(arr)
        m.v["rad"], m.v["dec"], m.v["aff"] = list(v[:3]), list(v[3:5]), list(v[5:])
    elif kind == "inc":
        c.increment_attribute(*v)
        if v[0] in AT:
            k, j = AT[v[0]]
            m.v[k] = list(m.v[k])
            m.v[k][j] += v[1]
    elif kind == "update":
        c.update_rotation_matrix()
        m.v["dm"] = rotm(m.v["ang"])
    elif kind == "set_dm":
        d = rotm(v)
        c.set_rotation_matrix(d)
        m.v["dm"] = d.copy()
        d += 5.0
    elif kind == "deriv":
        p = np.array(v)
        num_deriv_exterior(c, cp, 1e-4, 1e-4, p)
        m.v["dm"] = rotm(m.v["ang"])  # it updates the matrix
        if not np.array_equal(p, v):
            r.fail("num_deriv_exterior modifies the point", v, p, item)
    elif kind == "derivbad":
        for p in (np.zeros(2), np.zeros((2, 3))):
            try:
                num_deriv_exterior(c, cp, 1e-4, 1e-4, p)
                r.fail("num_deriv_exterior accepts a malformed point", "ValueError", p, item)
            except ValueError:
                pass
        m.v["dm"] = rotm(m.v["ang"])
    elif kind == "copyto":
        c.copy(cals[1 - i])
        models[1 - i] = m.clone()
    elif kind == "reload":
        import pathlib
        f = pathlib.Path(wd) / "c.ori"
        g = pathlib.Path(wd) / "c.addpar"
        c.write(str(f), str(g))
        cals[i] = Calibration.from_file(f, g)
        m.v["dm"] = rotm(m.v["ang"])
    elif kind == "new":
        cals[i] = Calibration()
        models[i] = Model()
    elif kind == "bad":
        for f, a in (("set_pos", np.zeros(2)), ("set_pos", np.zeros((3, 1))), ("set_angles", np.zeros(4)), ("set_primary_point", np.zeros(2)), ("set_radial_distortion", np.zeros(2)),
                     ("set_decentering", np.zeros(3)), ("set_affine_distortion", np.zeros(1)), ("set_glass_vec", np.zeros(2)), ("set_rotation_matrix", np.zeros((2, 3)))):
            try:
                getattr(c, f)(a)
                r.fail(f"{f} accepts a malformed array", "ValueError", a.shape, item)
            except ValueError:
                pass
    elif kind == "poke":
        for g in GET.values():
            a = getattr(c, g)()
            a += 17.0
    if arr is not None:
        arr += 100.0  # the caller goes on using its array


def c25(item, r):
    """item: sequence of (op index, object)."""
    wd = None
    if any(OPS[o][0] == "reload" for o, _ in item):
        from .core import scratch
        wd = scratch("c25")
    cals, models = [Calibration(), Calibration()], [Model(), Model()]
    cp = rigs.control(1, rigs.AIR)
    for step, (o, i) in enumerate(item):
        apply(OPS[o], i, cals, models, cp, r, item, wd)
        r.add("transitions")
        probe = Calibration() if step == len(item) - 1 else None
        for c, m in list(zip(cals, models)) + ([(probe, Model())] if probe is not None else []):
            for k, g in GET.items():
                got = getattr(c, g)()
                tol = 1e-6 if wd else 1e-9
                if not close(got, m.v[k], tol):
                    r.fail(f"after {[(OPS[a][0], OPS[a][1], b) for a, b in item[:step + 1]]} {g} of object {'AB'[cals.index(c)] if c in cals else 'new'} is wrong", m.v[k], got, item)
                    return
    r.add("states")
    r.add("traces_validated_against_impl")
    same = all(np.allclose(models[0].v[k], models[1].v[k], rtol=0, atol=1e-12) for k in models[0].v)
    if wd is None and compare_calibration(cals[0], cals[0]) is not True and compare_calibration(cals[0], cals[0]) != True:  # noqa: E712
        r.fail("a calibration does not compare equal to itself", True, False, item)
    if wd is None and same and not compare_calibration(cals[0], cals[1]):
        far = all(np.array_equal(getattr(cals[0], g)(), getattr(cals[1], g)()) for g in GET.values())
        if far:
            r.fail("equal calibrations compare as different", True, False, item)
    if not same and wd is None:
        differ = any(not np.allclose(models[0].v[k], models[1].v[k], rtol=0, atol=1e-4) for k in models[0].v if k != "dm")
        if differ and compare_calibration(cals[0], cals[1]):
            r.fail("different calibrations compare as equal", False, True, item)


def c25_deriv(item, r):
    """Numerical derivatives against the independent projection; the camera stays."""
    name, pos, P, dm, dr = item
    cal, cp = cam24(name, pos)
    s0, d0 = state(cal), np.array(cal.ext_par["dm"])
    xd, yd = num_deriv_exterior(cal, cp, dm, dr, np.array(P, float))
    r.ev(True)
    if not close(state(cal), s0, 1e-11) or not close(cal.ext_par["dm"], d0, 1e-12):
        r.fail("num_deriv_exterior changes the camera", s0, state(cal), item)
    for k, (n, h) in enumerate(zip(NAMES[:6], (dm,) * 3 + (dr,) * 3)):
        c2, _ = cam24(name, pos)
        shift(c2, ((n, h),))
        w = (np.array(rigs.ref_metric(P, c2, cp.mm)) - np.array(rigs.ref_metric(P, cal, cp.mm))) / h
        tol = 1e-6 * max(1, abs(w).max()) + (2e-4 / h if "mm" in RIGS24[name] and RIGS24[name]["mm"] != rigs.AIR else 1e-8 / h)
        if not close((xd[k], yd[k]), w, tol):
            r.fail(f"derivative with respect to {n}", w, (xd[k], yd[k]), item)


PARS = dict(
    control=(lambda: ControlPar(num_cams=2), [("set_image_size", ((640, 480),), dict(imx=640, imy=480)), ("set_pixel_size", ((0.01, 0.02),), dict(pix_x=0.01, pix_y=0.02)),
                                              ("set_chfield", (1,), dict(chfield=1)), ("set_hp_flag", (0,), dict(hp_flag=0)),
                                              ("mm.set_n1", (1.2,), {"mm.n1": 1.2}), ("mm.set_n3", (1.33,), {"mm.n3": 1.33}), ("mm.set_layers", ([1.5], [6.0]), {"mm.n2": [1.5], "mm.d": [6.0]})]),
    mm=(MultimediaPar, [("set_n1", (1.1,), dict(n1=1.1)), ("set_n3", (1.4,), dict(n3=1.4)), ("set_layers", ([1.5], [3.0]), dict(n2=[1.5], d=[3.0])), ("set_layers", ([1.3], [0.5]), dict(n2=[1.3], d=[0.5]))]),
    seq=(SequencePar, [("set_first", (5,), dict(first=5)), ("set_last", (9,), dict(last=9)), ("set_img_base_name", (["a", "b"],), dict(img_base_name=["a", "b"])), ("set_img_base_name", (["c"],), dict(img_base_name=["c"]))]),
    track=(TrackPar, [("set_dsumg", (3.0,), dict(dsumg=3.0)), ("set_dn", (4.0,), dict(dn=4.0)), ("set_dnx", (5.0,), dict(dnx=5.0)), ("set_dny", (6.0,), dict(dny=6.0))]),
    volume=(VolumePar, [("set_z_min_lay", ([1.0, 2.0],), dict(z_min_lay=[1.0, 2.0])), ("set_z_max_lay", ([3.0, 4.0],), dict(z_max_lay=[3.0, 4.0])), ("set_cn", (0.1,), dict(cn=0.1)), ("set_cnx", (0.2,), dict(cnx=0.2)),
                        ("set_csumg", (0.3,), dict(csumg=0.3)), ("set_eps0", (0.4,), dict(eps0=0.4)), ("set_corrmin", (0.5,), dict(corrmin=0.5))]),
)


def c25_par(item, r):
    """Setters of one parameter object leave its other fields, other objects and new objects alone."""
    cls, seq = item
    make, ops = PARS[cls]
    objs, models, fresh = [make(), make()], [{}, {}], make()
    base = dump(fresh)
    for o, i in seq:
        f, args, effect = ops[o]
        tgt = objs[i]
        for part in f.split(".")[:-1]:
            tgt = getattr(tgt, part)
        getattr(tgt, f.split(".")[-1])(*copy.deepcopy(args))
        models[i].update(effect)
        r.add("transitions")
        for x, m in zip(objs + [make()], models + [{}]):
            want = dict(base)
            want.update(m)
            if dump(x) != want:
                r.fail(f"after {[(ops[a][0], b) for a, b in seq]} a {cls} parameter object is wrong", want, dump(x), item)
    r.add("states")
    r.add("traces_validated_against_impl")


def dump(x, pre=""):
    out = {}
    for k in x.__dataclass_fields__:
        v = getattr(x, k)
        if hasattr(v, "__dataclass_fields__"):
            out.update(dump(v, pre + k + "."))
        else:
            out[pre + k] = copy.deepcopy(v)
    return out


def C25(ctx):
    th = ctx.thorough
    n = len(OPS)
    alph = list(itertools.product(range(n), (0, 1)))
    slow = {i for i, o in enumerate(OPS) if o[0] == "reload"}
    seqs = [tuple(s) for s in itertools.product(alph, repeat=2)]
    first = [(o, 0) for o in range(n)]  # the two objects are interchangeable: the first operation is on A
    seqs = [(f, a) for f in first for a in alph]
    three = [(f, a, b) for f in first for a in alph for b in alph if sum(x[0] in slow for x in (f, a, b)) <= 1]
    ctx.cases(c25, seqs + (three if th else [t for k, t in enumerate(three) if not any(x[0] in slow for x in t) or k % 7 == 0]), batch=300)
    for cls, (_, ops) in PARS.items():
        al = list(itertools.product(range(len(ops)), (0, 1)))
        ctx.cases(c25_par, [(cls, s) for k in (1, 2, 3) for s in itertools.product(al, repeat=k)], batch=200, group="c25_" + cls)
    pts = [(x, y, z) for x in (-20.0, 5.0) for y in (-15.0, 0.0, 10.0) for z in (-10.0, 12.0)]
    ctx.cases(c25_deriv, [(nm, p, P, dm, dr) for nm in RIGS24 for p in rigs.POS4[:2] for P in pts for dm, dr in ((1e-2, 1e-3), (1e-1, 1e-2))], batch=20)
    ctx.rule = ("all operation sequences of length 2 and 3 over two calibration objects (setters, increments, derivatives, copies, files, malformed arguments, changing handed-out and handed-in arrays), "
                "compared with a record model after each step; all setter sequences up to length 3 over two objects of every parameter class; derivatives against the reference projection")
    ctx.assumptions = ["the rotation matrix belongs to the angles as of the last set_angles/update_rotation_matrix (increments do not recompute it by themselves, as in the library's own use)"]
    ctx.c.setdefault("states", 0)


# ------------------------------------------------------------------ C26
def grid_ref(cal, cp, fix, eps, pix):
    """For each point the set of acceptable detections (several in a tie), or None; 'edge' if too close to a limit to judge."""
    out = []
    for P in fix:
        q = rigs.ref_pixel(P, cal, cp)
        lim = (q[0] + eps, q[1] + eps, cp.imx + eps - q[0], cp.imy + eps - q[1])
        if min(abs(v) for v in lim) < 1e-3:
            out.append("edge")
            continue
        if min(lim) < 0:
            out.append(None)
            continue
        d = [(max(abs(t.x - q[0]), abs(t.y - q[1])), math.hypot(t.x - q[0], t.y - q[1]), j) for j, t in enumerate(pix)]
        if any(abs(c - eps) < 1e-3 for c, _, _ in d):
            out.append("edge")
            continue
        ins = [(e, j) for c, e, j in d if c < eps]
        if not ins:
            out.append(None)
            continue
        m = min(ins)[0]
        out.append({j for e, j in ins if e < m + 2e-3})
    return out


def tgt(j, x, y):
    return Target(pnr=70 + j, x=float(x), y=float(y), n=10 + j, nx=3 + j, ny=4 + j, sumg=500 + j, tnr=30 + j)


def c26(item, r):
    name, fix, eps, spots, via = item
    cal, cp = cam24(name)
    fix = np.array(fix, float)
    fix0 = fix.copy()
    q = [rigs.ref_pixel(P, cal, cp) for P in fix]
    # spots: (grid point it is relative to, dx, dy)
    pix = [tgt(j, q[g][0] + dx, q[g][1] + dy) for j, (g, dx, dy) in enumerate(spots)]
    keep = copy.deepcopy(pix)
    want = grid_ref(cal, cp, fix, eps, pix)
    got = sortgrid(cal, cp, len(fix), fix, eps, pix) if via == 0 else match_detection_to_ref(cal, fix, pix, cp, eps)
    r.ev(any(isinstance(w, set) for w in want))
    if pix != keep or not np.array_equal(fix, fix0):
        r.fail("matching the grid alters its input", keep, pix, item)
    if len(got) != len(fix):
        r.fail("result has not one entry per grid point", len(fix), len(got), item)
        return
    for i, (w, t) in enumerate(zip(want, got)):
        if isinstance(w, str):
            r.add("not_judged")
            continue
        if w is None:
            if t.pnr != -999:
                r.fail("a grid point without detection in reach is matched", None, t, (item, i))
            continue
        ok = [j for j in w if (t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) == (keep[j].x, keep[j].y, keep[j].n, keep[j].nx, keep[j].ny, keep[j].sumg, keep[j].tnr)]
        if not ok or t.pnr != i:
            r.fail("a grid point does not get its nearest detection with its own number", (i, [keep[j] for j in w]), t, (item, i))
    r.outcome(tuple(t.pnr for t in got))
    if len({id(t) for t in got}) != len(got) or any(t is p for t in got for p in pix):
        r.fail("result shares its targets", None, None, item)


def c26_near(item, r):
    spots, x, y, eps = item
    pix = [tgt(j, a, b) for j, (a, b) in enumerate(spots)]
    got = nearest_neighbour_pix(pix, x, y, eps)
    ins = [(math.hypot(a - x, b - y), j) for j, (a, b) in enumerate(spots) if abs(a - x) < eps and abs(b - y) < eps]
    r.ev(bool(ins))
    ok = {-999} if not ins else {j for d, j in ins if d <= min(ins)[0] + 1e-12}
    if got not in ok:
        r.fail("nearest_neighbour_pix", ok, got, item)


def C26(ctx):
    th = ctx.thorough
    offs = [(0, 0), (1, 0), (-2, 3), (4.5, 4.5), (-4.9, 0.3), (5.2, 0), (0, -5.5), (-9.5, 9.5), (9.9, -1), (10.4, 10.4), (0.5, -0.5), (3, 4)]
    base = [(0.0, 0.0, 0.0), (0.9, 0.2, 0.0), (10.0, -5.0, 3.0)]
    far = [(0.0, 0.0, 0.0), (500.0, 0.0, 0.0), (-48.0, 0.0, 0.0)]
    items = []
    for name in ("air", "tilt", "off"):
        for eps in (5, 10, 0.75):
            for k in (0, 1, 2):
                for combo in itertools.product(offs, repeat=k):
                    for gs in ([(0,) * k] + ([tuple(range(k))] if k > 1 else [])):
                        items.append((name, base[:1] if k < 2 else base[:2], eps, [(g, *o) for g, o in zip(gs, combo)], len(items) % 2))
            for perm in itertools.permutations(offs[:5] if not th else offs[:6], 3):
                for order in itertools.permutations(range(3)):
                    items.append((name, base, eps, [(order[j], *o) for j, o in enumerate(perm)], len(items) % 2))
    ctx.cases(c26, items, batch=60)
    # grid points at, around and outside the borders of the image
    edge = []
    cal, cp = cam24("air")
    for name in ("air", "dist"):
        for tx in (-12, -6, -3, -0.5, 0.5, 3, 1277, 1279.5, 1280.5, 1283, 1287, 1295, 640):
            for ty in (-12, -6, -3, 0.5, 500, 1021, 1023.5, 1026, 1030, 1040):
                for eps in (5, 10):
                    edge.append((name, tx, ty, eps))
    ctx.cases(c26_edge, edge, batch=20)
    L = [(x, y) for x in (0, 1, 3) for y in (0, 2)]
    near = [(list(s), float(x), float(y), e) for k in (0, 1, 2, 3) for s in itertools.permutations(L, k) for x, y in ((0, 0), (1, 1), (2.5, 0.5), (-4, 0)) for e in (0.0, 0.5, 1.0, 1.5, 2.0, 10, -1.0)]
    ctx.cases(c26_near, near, batch=200)
    ctx.cases(c26_many, [(n, m, e) for n in ("air", "water", "dist", "roll") for m in range(8 if th else 4) for e in (3, 10, 25)], batch=1)
    ctx.rule = "rigs x search sizes x all pairs/ordered triples of detection offsets relative to up to three grid points (sharing, ties, just in and out of the window); points around every image border; nearest-neighbour lattice; full grids with shuffled, missing and extra detections"
    ctx.assumptions = ["the search window is the open square of half-width 'radius' around the projection; detections within 1e-3 pixel of its edge are not judged, ties within 2e-3 pixel may go either way"]


def c26_edge(item, r):
    name, tx, ty, eps = item
    cal, cp = cam24(name)
    # the point of the plane z=0 imaged at pixel (tx, ty): Newton from the centre
    P = np.zeros(3)
    for _ in range(20):
        f = rigs.ref_pixel(P, cal, cp) - (tx, ty)
        J = np.array([(rigs.ref_pixel(P + d, cal, cp) - rigs.ref_pixel(P, cal, cp)) / 1e-3 for d in (np.array([1e-3, 0, 0]), np.array([0, 1e-3, 0]))]).T
        P[:2] -= np.linalg.solve(J, f)
    for off in ((0, 0), (2, -3), (-2, 3)):
        c26((name, [tuple(P), (0.0, 0.0, 0.0)], eps, [(0, *off), (1, 1, 1)], 0), r)


def c26_many(item, r):
    """The whole grid: every second detection missing or doubled, shuffled by a fixed permutation."""
    name, m, eps = item
    spots = []
    for g in range(len(GRID)):
        if (g + m) % 4 == 0:
            continue
        spots.append((g, (g % 5) - 2.0, (g % 3) - 1.0))
        if (g + m) % 3 == 0:
            spots.append((g, 2.5 - (g % 4), -2.5))
    step = (7, 11, 13, 17, 19, 23, 29, 31)[m]
    order = sorted(range(len(spots)), key=lambda i: (i * step) % 101)
    c26((name, [tuple(p) for p in GRID], eps, [spots[i] for i in order], m % 2), r)
