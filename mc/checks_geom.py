"""C19-C23: projection, conversions, refraction table, volume extent, triangulation."""
import itertools
import math

import numpy as np

from openptv_python.calibration import Calibration
from openptv_python.constants import COORD_UNUSED
from openptv_python.imgcoord import flat_image_coord, flat_image_coordinates, image_coordinates, img_coord
from openptv_python.multimed import (back_trans_point, get_mmf_from_mmlut, init_mmlut, move_along_ray, multimed_nlay, multimed_r_nlay, trans_cam_point,
                                     volumedimension)
from openptv_python.orientation import (dumbbell_target_func, multi_cam_point_positions, point_position, point_positions, skew_midpoint,
                                        weighted_dumbbell_precision)
from openptv_python.parameters import MultimediaPar
from openptv_python.ray_tracing import ray_tracing
from openptv_python import trafo
from openptv_python.vec_utils import vec_norm, unit_vector

from . import rigs
from .core import close

# ------------------------------------------------------------------ rigs turned in space
TURNS = {
    "up": np.eye(3),
    "side": rigs.rot(math.pi / 2, 0, 0),             # glass normal along -y
    "side2": rigs.rot(0, math.pi / 2 - 0.3, 0.2),    # oblique
    "down": rigs.rot(math.pi, 0, 0),                 # seen from below
    "tumbled": rigs.rot(-0.7, 0.5, 2.0),
}


def angles_of(R):
    return math.atan2(-R[1, 2], R[2, 2]), math.asin(R[0, 2]), math.atan2(-R[0, 1], R[0, 0])


def turned_camera(pos, Q, glass, roll=0.0, cc=60.0, xh=0.0, yh=0.0, dist=(0, 0, 0, 0, 0, 1, 0), target=(0, 0, 0)):
    o, p, k = rigs.look_at(pos, target, roll)
    R = Q @ rigs.rot(o, p, k)
    return rigs.camera(Q @ np.asarray(pos, float), angles=angles_of(R), glass=Q @ np.asarray(glass, float), cc=cc, xh=xh, yh=yh, dist=dist)


GLASSES = [(0.0, 0.0, 100.0), (10.0, -8.0, 100.0), (0.0, 0.0, 40.0), (-30.0, 25.0, 150.0)]
MEDIA = [(1.0, 1.46, 1.33, 5.0), (1.0, 1.0, 1.0, 0.0), (1.0, 1.0, 1.33, 1.0), (1.0, 1.7, 1.5, 20.0), (1.0, 1.46, 1.0, 5.0), (1.33, 1.46, 1.0, 5.0), (1.2, 1.2, 1.2, 3.0)]
DIST1 = (3e-5, 1e-7, -1e-9, 2e-5, -3e-5, 1.004, 0.003)


def c19(item, r):
    turn, ci, glass, mmv, xh, dist, pts = item
    Q = TURNS[turn]
    cal = turned_camera(rigs.POS4[ci], Q, glass, roll=0.3 * ci, xh=xh, yh=-xh / 2, dist=dist)
    cp = rigs.control(1, mmv)
    mm = cp.mm
    n1, n2, n3, d = mmv
    g = np.asarray(cal.glass_par) / np.linalg.norm(cal.glass_par)
    same = n1 == n2 == n3
    eye = cal.get_pos()
    before = (cal.get_pos(), cal.get_angles(), cal.get_rotation_matrix(), cal.glass_par.copy(), cal.added_par.copy())
    world = []
    for p in pts:
        P = Q @ np.asarray(p, float)
        world.append(P)
        keep = P.copy()
        ref = rigs.ref_flat(P, cal, mm)
        got = np.array(flat_image_coord(P, cal, mm), float)
        r.ev(True)
        if not close(got, ref, 1e-4):
            r.fail("flat image of a 3D point differs from the law of refraction", ref, got, item)
        met = np.array(img_coord(P, cal, mm), float)
        mref = rigs.ref_metric(P, cal, mm)
        if not close(met, mref, 1e-4):
            r.fail("distorted image of a 3D point differs from the definition", mref, met, item)
        # ray of that image goes back through the point
        X, v = ray_tracing(got[0], got[1], cal, mm)
        miss = np.linalg.norm(np.cross(P - X, v))
        if not miss < 2e-3:
            r.fail("the ray traced from the image of a point misses the point", 0.0, miss, (item, p))
        tr = rigs.ref_trace(got, cal, mm)
        if not (close(X, tr[-1][0], 1e-7) and close(v, tr[-1][1], 1e-9)):
            r.fail("traced ray differs from Snell's law", tr[-1], (X, v), (item, p))
        # definitions, stated directly
        v0 = tr[0][1]
        s0 = np.linalg.norm(np.cross(v0, g))
        s3 = np.linalg.norm(np.cross(v, g))
        if abs(np.linalg.norm(v) - 1) > 1e-9 or abs(n1 * s0 - n3 * s3) > 1e-9 or abs(np.dot(np.cross(v0, g), v)) > 1e-9 or v @ g >= 0:
            r.fail("ray is not refracted in the plane of incidence by n1 sin = n3 sin", (n1 * s0, 0), (n3 * s3, np.dot(np.cross(v0, g), v)), (item, p))
        if abs(X @ g - np.linalg.norm(cal.glass_par)) > 1e-7:
            r.fail("the ray does not leave the glass on its lower face", np.linalg.norm(cal.glass_par), X @ g, (item, p))
        if same and (np.linalg.norm(np.cross(P - eye, v)) > 2e-3 or np.linalg.norm(np.cross(v, v0)) > 1e-9):
            r.fail("equal indices do not give a straight ray through the camera", v0, v, (item, p))
        for s in (0.6, 1.0, 1.25):
            t = (P - X) @ v
            Y = X + v * (t * s)
            again = np.array(flat_image_coord(Y, cal, mm), float)
            r.ev(True)
            if not close(again, got, 2e-4):
                r.fail("points on one ray are imaged to different pixels", got, again, (item, p, s))
        # glass coordinates there and back
        pt, cp_, cc_, z0 = trans_cam_point(cal.ext_par, mm, cal.glass_par, P)
        back = back_trans_point(pt, mm, cal.glass_par, cp_, cc_)
        if not close(back, P, 1e-9 * 1000):
            r.fail("glass coordinates do not transform back to the point", P, back, (item, p))
        if not (abs(pt[2] - (P @ g - np.linalg.norm(cal.glass_par))) < 1e-7 and abs(z0 - (eye @ g - np.linalg.norm(cal.glass_par))) < 1e-7 and pt[1] == 0
                and abs(pt[0] - np.linalg.norm(np.cross(P - eye, g))) < 1e-7):
            r.fail("glass coordinates are not height over and distance along the glass", None, (pt, z0), (item, p))
        if not np.array_equal(P, keep):
            r.fail("projection modifies the point it is given", keep, P, (item, p))
        # the same scene before turning has the same image
        if turn != "up":
            cal0 = turned_camera(rigs.POS4[ci], np.eye(3), glass, roll=0.3 * ci, xh=xh, yh=-xh / 2, dist=dist)
            f0 = np.array(flat_image_coord(np.asarray(p, float), cal0, mm), float)
            r.ev(True)
            if not close(f0, got, 1e-7):
                r.fail("the image depends on the choice of coordinate axes", f0, got, (item, p))
        r.outcome(tuple(np.round(got, 1)))
    W = np.array(world)
    W0 = W.copy()
    A, B = flat_image_coordinates(W, cal, mm), image_coordinates(W, cal, mm)
    for i, P in enumerate(world):
        if not (close(A[i], flat_image_coord(P, cal, mm), 1e-12) and close(B[i], img_coord(P, cal, mm), 1e-12)):
            r.fail("array projection differs from projecting one by one", (flat_image_coord(P, cal, mm), img_coord(P, cal, mm)), (A[i], B[i]), (item, i))
    if A.shape != (len(pts), 2) or B.shape != (len(pts), 2) or not np.array_equal(W, W0):
        r.fail("array projection changes the number of rows or its input", len(pts), (A.shape, B.shape), item)
    for bad in (W[:, :2], np.c_[W, W[:, :1]]):
        for f in (flat_image_coordinates, image_coordinates):
            try:
                r.fail(f"{f.__name__} accepts points of {bad.shape[1]} coordinates", "ValueError", f(bad, cal, mm), item)
            except ValueError:
                pass
    after = (cal.get_pos(), cal.get_angles(), cal.get_rotation_matrix(), cal.glass_par, cal.added_par)
    if not all(np.array_equal(a, b) for a, b in zip(before, after)):
        r.fail("projecting or tracing modifies the camera", before, after, item)


def c19_axis(item, r):
    """Points straight below the camera along the glass normal, and the image of the centre of the picture."""
    turn, ci, glass, mmv = item
    Q = TURNS[turn]
    cal = turned_camera(rigs.POS4[ci], Q, glass)
    cp = rigs.control(1, mmv)
    g = np.asarray(cal.glass_par) / np.linalg.norm(cal.glass_par)
    eye = cal.get_pos()
    for depth in (5.0, 60.0, 150.0):
        P = eye - g * (eye @ g - np.linalg.norm(cal.glass_par) + depth)
        r.ev(True)
        got, ref = np.array(flat_image_coord(P, cal, cp.mm)), rigs.ref_flat(P, cal, cp.mm)
        if not close(got, ref, 1e-3):
            r.fail("image of the foot point of the camera", ref, got, item)
        if not close(multimed_nlay(Calibration(ext_par=cal.ext_par), cp.mm, cal.get_pos()), cal.get_pos()[:2], 1e-9):
            r.fail("the foot point is shifted radially", cal.get_pos()[:2], None, item)
    for f in ((0.0, 0.0), (1e-9, 0.0), (3.0, -4.0)):
        X, v = ray_tracing(f[0], f[1], cal, cp.mm)
        tr = rigs.ref_trace(f, cal, cp.mm)
        r.ev(True)
        if not (close(X, tr[-1][0], 1e-7) and close(v, tr[-1][1], 1e-9)):
            r.fail("ray of the image centre", tr[-1], (X, v), (item, f))


def c19_straight(item, r):
    """Equal media: the plain pinhole camera, wherever the point lies in front of the camera (also before the glass and far behind it)."""
    turn, ci, glass, n, d, xh, pts = item
    Q = TURNS[turn]
    cal = turned_camera(rigs.POS4[ci], Q, glass, roll=0.3 * ci, xh=xh, yh=-xh / 2)
    cp = rigs.control(1, (n, n, n, d))
    R, eye, cc = rigs.rot(*cal.get_angles()), cal.get_pos(), float(cal.int_par["cc"])
    W = []
    for p in pts:
        P = Q @ np.asarray(p, float)
        W.append(P)
        a = R.T @ (P - eye)
        ref = np.array([-cc * a[0] / a[2], -cc * a[1] / a[2]])
        got = np.array(flat_image_coord(P, cal, cp.mm), float)
        r.ev(True)
        if not close(got, ref, 1e-4):
            r.fail("equal media: the image is not the one of a pinhole camera", ref, got, (item, p))
        X, v = ray_tracing(ref[0], ref[1], cal, cp.mm)
        if not (np.linalg.norm(np.cross(P - X, v)) < 1e-6 * max(1.0, np.linalg.norm(P - X)) and np.linalg.norm(np.cross(eye - X, v)) < 1e-6):
            r.fail("equal media: the traced ray is not the line through camera and point", (eye, P), (X, v), (item, p))
        pt, cross, ccr, z0 = trans_cam_point(cal.ext_par, cp.mm, cal.glass_par, P)
        back = back_trans_point(pt, cp.mm, cal.glass_par, cross, ccr)
        if not close(back, P, 1e-6):
            r.fail("glass coordinates do not transform back to the point", P, back, (item, p))
        r.outcome(tuple(np.round(got, 1)))
    A, B = flat_image_coordinates(np.array(W), cal, cp.mm), image_coordinates(np.array(W), cal, cp.mm)
    for i, P in enumerate(W):
        if not (close(A[i], flat_image_coord(P, cal, cp.mm), 1e-12) and close(B[i], img_coord(P, cal, cp.mm), 1e-12)):
            r.fail("array projection differs from projecting one by one", None, (A[i], B[i]), (item, i))


def C19(ctx):
    th = ctx.thorough
    s = (-25.0, -9.0, 4.0, 20.0) if th else (-25.0, 4.0, 20.0)
    pts = [(x, y, z) for x in s for y in s for z in ((-40.0, -15.0, 0.0, 18.0) if th else (-40.0, 0.0, 18.0))]
    dists = [((0, 0, 0, 0, 0, 1, 0), 0.0), (DIST1, 0.0), (DIST1, 0.2)]
    items = [(t, c, g, m, xh, d, [pts[i::3][j::3] for i in range(3) for j in range(3)][k])
             for t in TURNS for c in range(4) for gi, g in enumerate(GLASSES) for mi, m in enumerate(MEDIA) for di, (d, xh) in enumerate(dists)
             for k in (range(9) if th else [(c + gi + mi + di) % 9])]
    ctx.cases(c19, items, batch=8)
    ctx.cases(c19_axis, list(itertools.product(TURNS, range(4), GLASSES, MEDIA)), batch=20)
    far = [(x, y, z) for z in (-3000.0, -400.0, -90.0, 60.0, 101.0, 160.0, 250.0, 330.0) for x, y in ((5.0, 7.0), (-60.0, 22.0))]
    ctx.cases(c19_straight, list(itertools.product(TURNS, range(4), GLASSES, (1.0, 1.2, 1.33), (0.0, 3.0, 25.0) if th else (0.0, 3.0), (0.0, 0.2), [far])), batch=10)
    ctx.rule = ("coordinate turns x camera positions x glass vectors (incl. strongly tilted) x media (incl. equal indices, thick glass, n3<n1) x distortion/principal point x lattice points, "
                "each point projected, traced back, re-projected at three depths of its ray and compared with an independent refraction reference")
    ctx.assumptions = ["tolerances 1e-4 mm on the sensor (0.01 pixel) and 2e-3 mm in space: the library iterates refraction to 1e-3 mm on the glass"]


# ------------------------------------------------------------------ C20
def undistort(x, y, ap):
    """Inverse of rigs.ref_distort by Newton with a numerical Jacobian."""
    p = np.array([x, y], float)
    for _ in range(30):
        f = np.array(rigs.ref_distort(p[0], p[1], ap)) - (x, y)
        h = 1e-6
        J = np.array([(np.array(rigs.ref_distort(p[0] + h, p[1], ap)) - rigs.ref_distort(p[0] - h, p[1], ap)) / (2 * h),
                      (np.array(rigs.ref_distort(p[0], p[1] + h, ap)) - rigs.ref_distort(p[0], p[1] - h, ap)) / (2 * h)]).T
        p = p - np.linalg.solve(J, f)
    return p


def c20_pix(item, r):
    imx, imy, px, py = item
    cp = rigs.control(1, imx=imx, imy=imy, pix=(px, py))
    xs = sorted({0.0, 0.5, 1.0, imx / 4, imx / 2 - 0.25, imx / 2, imx / 2 + 1, imx - 1.0, float(imx), -3.5, imx + 7.25})
    ys = sorted({0.0, 0.5, 1.0, imy / 4, imy / 2 - 0.25, imy / 2, imy / 2 + 1, imy - 1.0, float(imy), -3.5, imy + 7.25})
    grid = [(x, y) for x in xs for y in ys]
    for x, y in grid:
        r.ev(True)
        ref = ((x - imx / 2) * px, (imy / 2 - y) * py)
        m = trafo.pixel_to_metric(x, y, cp)
        if not close(m, ref, 1e-12):
            r.fail("pixel_to_metric differs from its definition", ref, m, (item, x, y))
        b = trafo.metric_to_pixel(m[0], m[1], cp)
        if not close(b, (x, y), 1e-9):
            r.fail("metric_to_pixel does not invert pixel_to_metric", (x, y), b, (item, x, y))
    for n in (1, 2, 3, len(grid)):
        G = np.array(grid[:n], float)
        G0 = G.copy()
        M = trafo.arr_pixel_to_metric(G, imx, imy, px, py)
        r.ev(True, n)
        ref = np.array([trafo.pixel_to_metric(x, y, cp) for x, y in G])
        if not close(M, ref, 1e-12) or not np.array_equal(G, G0):
            r.fail("arr_pixel_to_metric differs from the scalar conversion", ref[:3], M[:3], (item, n))
        I = np.array(np.floor(G), dtype=np.int32)
        Mi = trafo.arr_pixel_to_metric(I, imx, imy, px, py)
        refi = np.array([trafo.pixel_to_metric(float(x), float(y), cp) for x, y in I])
        if not close(Mi, refi, 1e-12):
            r.fail("arr_pixel_to_metric of whole pixels differs from the scalar conversion", refi[:3], Mi[:3], (item, n))
        M0 = M.copy()
        for back in (trafo.arr_metric_to_pixel(M, cp), trafo.fast_arr_metric_to_pixel(M, imx, imy, px, py)):
            if not close(back, G, 1e-9) or not np.array_equal(M, M0):
                r.fail("array metric_to_pixel does not invert arr_pixel_to_metric", G[:3], back[:3], (item, n))
    one = trafo.arr_metric_to_pixel(np.array([0.25, -0.5]), cp)
    if not close(np.ravel(one), trafo.metric_to_pixel(0.25, -0.5, cp), 1e-9):
        r.fail("arr_metric_to_pixel of a single point", trafo.metric_to_pixel(0.25, -0.5, cp), one, item)


C20_PTS = [(x, y) for x in (-7.7, -3.1, -1.0, -0.01, 0.0, 1.0, 2.0, 6.2, 7.7) for y in (-6.1, -2.0, -1.0, 0.0, 0.4, 1.0, 6.1)]


def c20_dist(item, r):
    ap = np.array(item[:7], float)
    keep = ap.copy()
    xh, yh = item[7:]
    cal = rigs.camera((0, 0, 400), dist=ap, xh=xh, yh=yh)
    for x, y in C20_PTS:
        r.ev(True)
        ref = rigs.ref_distort(x, y, ap) if (x, y) != (0.0, 0.0) else (0.0, 0.0)
        D = trafo.distort_brown_affine(x, y, ap)
        if not close(D, ref, 1e-10):
            r.fail("distort_brown_affine differs from the Brown/affine model", ref, D, (item, x, y))
        u = undistort(x, y, ap)
        for tol, acc in (((), 3e-4), ((1e-10,), 1e-7)):
            C = trafo.correct_brown_affine(D[0], D[1], ap, *tol)
            if not close(C, (x, y), acc):
                r.fail(f"correcting a distorted point does not give the point back (tolerance {tol})", (x, y), C, (item, x, y))
            C = trafo.correct_brown_affine(x, y, ap, *tol)
            if not close(C, u, acc):
                r.fail(f"correct_brown_affine differs from the inverse of the model (tolerance {tol})", u, C, (item, x, y))
            D2 = trafo.distort_brown_affine(C[0], C[1], ap)
            if not close(D2, (x, y), acc):
                r.fail(f"distorting a corrected point does not give the point back (tolerance {tol})", (x, y), D2, (item, x, y))
        fd = trafo.flat_to_dist(x, y, cal)
        fref = rigs.ref_distort(x + xh, y + yh, ap)
        if not close(fd, fref, 1e-10):
            r.fail("flat_to_dist differs from shifting to the sensor centre and distorting", fref, fd, (item, x, y))
        df = trafo.dist_to_flat(fd[0], fd[1], cal)
        if not close(df, (x, y), 3e-4):
            r.fail("dist_to_flat does not invert flat_to_dist", (x, y), df, (item, x, y))
        df = trafo.dist_to_flat(fd[0], fd[1], cal, 1e-9)
        if not close(df, (x, y), 1e-6):
            r.fail("dist_to_flat with a small tolerance does not converge to it", (x, y), df, (item, x, y))
        r.outcome((round(D[0], 1), round(D[1], 1)))
    if not (np.array_equal(ap, keep) and np.array_equal(cal.added_par, keep)):
        r.fail("a conversion modifies the distortion parameters", keep, ap, item)


def C20(ctx):
    th = ctx.thorough
    sizes = [(1280, 1024), (1024, 1280), (511, 383), (640, 480), (1, 1), (2, 3), (4096, 3072), (7, 1000)]
    pitch = [(0.012, 0.012), (0.017, 0.009), (0.001, 0.002), (1.0, 1.0), (0.25, 3.0)]
    ctx.cases(c20_pix, [s + p for s in sizes for p in pitch], batch=5)
    k1 = (0.0, 1e-4, -1e-4) + ((2e-4, -2e-4) if th else ())
    al = itertools.product(k1, (0.0, 1e-6, -1e-6), (0.0, 1e-8) + ((-1e-8,) if th else ()), (0.0, 1e-4, -1e-4), (0.0, -1e-4) + ((2e-4,) if th else ()),
                           (1.0, 0.97, 1.02), (0.0, 0.01, -0.02) + ((0.05,) if th else ()), (0.0, 0.2), (0.0, -0.15))
    ctx.cases(c20_dist, list(al), batch=40)
    ctx.rule = "sensor sizes x pixel pitches x pixel lattice (corners, centre, outside); all combinations of k1,k2,k3,p1,p2,scale,shear,xh,yh values x points up to the sensor corners"
    ctx.assumptions = ["distortions of realistic size (a few percent at the sensor corner); tolerance 3e-4 mm (1/40 pixel) for the iterative correction with its default stopping rule, 1e-7 mm with a strict one"]


# ------------------------------------------------------------------ C21
def ref_mmf(mm, z0, R, Z):
    """Ratio apparent radius / radius in glass coordinates (camera at height z0 over the lower glass face, point at height Z<=0)."""
    n1, n2, n3, d = mm.n1, mm.n2[0], mm.n3, mm.d[0]

    def reach(s):
        t = lambda q: q / math.sqrt(1 - q * q)
        return (z0 - d) * t(s) + d * t(s * n1 / n2) - Z * t(s * n1 / n3) - R

    lo, hi = 0.0, (1 - 1e-12) * min(1.0, n2 / n1, n3 / n1)
    for _ in range(70):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if reach(m) < 0 else (lo, m)
    s = (lo + hi) / 2
    return s / math.sqrt(1 - s * s) * (z0 - Z) / R


def c21_rig(name):
    kw = dict(plain={}, tilt=dict(glass=(8.0, -6.0, 100.0)), near=dict(glass=(0.0, 0.0, 40.0)), roll=dict(roll=0.4), wide=dict(cc=30.0),
              dist=dict(dist=(3e-5, 1e-7, 0, 2e-5, -3e-5, 1.004, 0.003)))[name]
    return kw


def setup_lut(name, mmv, zl, ci=0, imx=320, imy=256):
    cals, cp = rigs.rig(4, mmv, imx=imx, imy=imy, **c21_rig(name))
    return cals[ci], cp, rigs.volume(*zl)


def in_glass(cal, mm, with_table):
    """The camera in glass coordinates, as the projection uses it."""
    _, _, _, z0 = trans_cam_point(cal.ext_par, mm, cal.glass_par, np.zeros(3))
    t = Calibration(mmlut=cal.mmlut, mmlut_data=cal.mmlut_data) if with_table else Calibration()
    t.ext_par.z0 = z0
    return t, z0


def c21(item, r):
    name, mmv, zl, ci, fine = item
    cal, cp, vp = setup_lut(name, mmv, zl, ci)
    plain, _, _ = setup_lut(name, mmv, zl, ci)
    init_mmlut(vp, cp, cal)
    o, nr, nz, rw = np.array(cal.mmlut.origin, float).ravel(), int(cal.mmlut.nr), int(cal.mmlut.nz), int(cal.mmlut.rw)
    if cal.mmlut_data.shape != (nr, nz):
        r.fail("the table has not the size it states", (nr, nz), cal.mmlut_data.shape, item)
        return
    a, z0 = in_glass(cal, cp.mm, True)
    b, _ = in_glass(cal, cp.mm, False)
    rs = sorted({0.0, 0.3, 1.0, 1.99, 2.0, 2.01, 3.0, nr - 0.5, float(nr), (nr - 1) * rw - 0.01, float((nr - 1) * rw), (nr - 1) * rw + 0.01, (nr - 2) * rw - 0.01,
                 float((nr - 2) * rw), (nr - 2) * rw + 1.0, nr * rw + 0.5, nr * rw + 40.0} | ({i * 0.5 for i in range(2 * nr * rw + 8)} if fine else set()))
    top = o[2] + (nz - 1) * rw
    zs = sorted({o[2] - 30, o[2] - 2, o[2] - 0.01, o[2], o[2] + 0.01, o[2] + 1, (o[2] + top) / 2, top - 2.01, top - 2, top - 1, top - 0.01, top, top + 0.01, top + 2})
    used, near_axis = 0, []
    for R in rs:
        for Z in zs:
            if Z >= 0:
                continue
            for ang in ((0.0, 2.2) if R else (0.0,)):
                p = np.array([R * math.cos(ang), R * math.sin(ang), Z])
                q = p.copy()
                t = get_mmf_from_mmlut(a, p)
                m, dd = multimed_r_nlay(a, cp.mm, p), multimed_r_nlay(b, cp.mm, p)
                r.ev(True)
                if not np.array_equal(p, q):
                    r.fail("looking up modifies the point", q, p, item)
                trivial = mmv[0] == mmv[1] == mmv[2] == 1
                if not (t == 0 or t > 0) or (t > 0 and m != t and not trivial) or (t == 0 and m != dd):
                    r.fail("a declined look-up does not fall back to direct computation", (t, dd), m, (item, tuple(p)))
                inside = R < (nr - 1) * rw - 1e-6 and o[2] + 1e-6 < Z < top - 1e-6
                if inside and t == 0:
                    r.fail("the table declines a point inside its raster", None, t, (item, tuple(p)))
                if (R > (nr - 1) * rw + 1e-6 or Z < o[2] - 1e-6 or Z > top + 1e-6) and t != 0:
                    r.fail("the table answers for a point outside its raster", 0.0, t, (item, tuple(p)))
                used += t > 0
                if R and abs(R * (dd - ref_mmf(cp.mm, z0, R, Z))) > 0.005:
                    r.fail("radial shift differs from the law of refraction", ref_mmf(cp.mm, z0, R, Z), dd, (item, tuple(p)))
                if abs(R * (m - dd)) > 0.005 and not trivial:
                    axis = interp_axis(cal, o, nr, nz, rw, R, Z)
                    if R < rw and axis is not None and abs(axis - t) < 1e-9:
                        near_axis.append((dd, m, tuple(p)))
                    else:
                        r.fail("radial shift of the table differs from direct computation", dd, m, (item, tuple(p)))
    if near_axis:  # the known finding, once per case so that it hides nothing else
        r.fail("radial-shift table next to the axis interpolates towards 1", near_axis[0][0], near_axis[0][1], (item, near_axis[0][2]))
    r.outcome((nr, nz, used))
    # projections are unchanged by the table
    for P in [(x, y, z) for x in (-20, 3) for y in (-15, 0) for z in (zl[0], 0, zl[1])]:
        P = np.array(P, float)
        r.ev(True)
        u, v = np.array(img_coord(P, cal, cp.mm)), np.array(img_coord(P, plain, cp.mm))
        if not close(u, v, 2e-4):
            r.fail("the projection changes when the camera has a table", v, u, (item, tuple(P)))


def interp_axis(cal, o, nr, nz, rw, R, Z):
    """The answer of a correct bilinear table whose axis line holds the factor 1."""
    iz = int(math.floor((Z - o[2]) / rw))
    if not (0 <= iz < nz - 1):
        return None
    sz, sr = (Z - o[2]) / rw - iz, R / rw
    d = cal.mmlut_data
    return (1 - sr) * 1.0 + sr * (d[1, iz] * (1 - sz) + d[1, iz + 1] * sz)


CHANGES = {
    "water": lambda cal, cp, vp: setattr(cp, "mm", MultimediaPar(nlay=1, n1=1.0, n2=[1.46], d=[5.0], n3=1.33)),
    "oil": lambda cal, cp, vp: setattr(cp, "mm", MultimediaPar(nlay=1, n1=1.0, n2=[1.6], d=[12.0], n3=1.45)),
    "up": lambda cal, cp, vp: cal.set_pos(cal.get_pos() + np.array([0.0, 0.0, 30.0])),
    "tilt": lambda cal, cp, vp: cal.set_glass_vec(np.array([6.0, -4.0, 90.0])),
    "deep": lambda cal, cp, vp: (vp.z_min_lay.__setitem__(0, -44.0), vp.z_max_lay.__setitem__(1, 8.0)),
    "flat": lambda cal, cp, vp: (vp.z_min_lay.__setitem__(0, -6.0), vp.z_min_lay.__setitem__(1, -6.0), vp.z_max_lay.__setitem__(0, 6.0), vp.z_max_lay.__setitem__(1, 6.0)),
    "zoom": lambda cal, cp, vp: cal.set_primary_point(np.array([0.0, 0.0, 45.0])),
    # small changes, which leave the table's size and most of its entries nearly alone
    "slightly_thicker": lambda cal, cp, vp: setattr(cp, "mm", MultimediaPar(nlay=1, n1=1.0, n2=[1.46], d=[5.05], n3=1.33)),
    "slightly_denser": lambda cal, cp, vp: setattr(cp, "mm", MultimediaPar(nlay=1, n1=1.0, n2=[1.46], d=[5.0], n3=1.3301)),
    "slightly_up": lambda cal, cp, vp: cal.set_pos(cal.get_pos() + np.array([0.0, 0.0, 0.05])),
    "init": lambda cal, cp, vp: init_mmlut(vp, cp, cal),
    "copy": None,
}


def c21_hist(item, r):
    """History of changes and (re)builds: after every build the table is the one a new camera would get."""
    cal, cp, vp = setup_lut("plain", rigs.WATER, (-10.0, 10.0), 0, imx=64, imy=48)
    other, cp2, vp2 = setup_lut("plain", rigs.WATER, (-10.0, 10.0), 1, imx=64, imy=48)
    init_mmlut(vp2, cp2, other)
    other_data = other.mmlut_data.copy()
    init_mmlut(vp, cp, cal)
    for op in item:
        r.add("transitions")
        if op == "copy":
            c2 = Calibration()
            cal.copy(c2)
            cal = c2
            continue
        CHANGES[op](cal, cp, vp)
        if op != "init":
            continue
        r.ev(True)
        new = Calibration(ext_par=cal.ext_par.copy(), int_par=cal.int_par.copy(), glass_par=np.array(cal.glass_par), added_par=np.array(cal.added_par))
        init_mmlut(vp, cp, new)
        if not (cal.mmlut_data.shape == new.mmlut_data.shape and np.allclose(cal.mmlut_data, new.mmlut_data, atol=1e-12) and int(cal.mmlut.nr) == int(new.mmlut.nr)
                and int(cal.mmlut.nz) == int(new.mmlut.nz) and np.allclose(cal.mmlut.origin, new.mmlut.origin)):
            r.fail("the rebuilt table is not that of the current configuration", (new.mmlut, new.mmlut_data[1, :3]), (cal.mmlut, cal.mmlut_data[1, :3]), item)
        a, z0 = in_glass(cal, cp.mm, True)
        o = np.array(cal.mmlut.origin, float).ravel()
        for i in (1, int(cal.mmlut.nr) - 1):
            for j in (0, int(cal.mmlut.nz) - 1):
                R, Z = i * 2.0, o[2] + 2.0 * j
                if abs(R * (cal.mmlut_data[i, j] - ref_mmf(cp.mm, z0, R, Z))) > 0.005:
                    r.fail("a table entry is not the radial shift of its raster point", ref_mmf(cp.mm, z0, R, Z), cal.mmlut_data[i, j], item)
    if not np.array_equal(other.mmlut_data, other_data):
        r.fail("building one camera's table changes another camera's", None, None, item)
    r.add("histories")


def C21(ctx):
    th = ctx.thorough
    media = [m for m in MEDIA if m[0] == 1.0]
    ctx.cases(c21, [(n, m, z, c, False) for n in ("plain", "tilt", "near", "roll", "wide", "dist") for m in media
                    for z in ((-20.0, 20.0), (-7.0, 11.0), (-30.0, -5.0)) for c in ((0, 1, 2, 3) if th else (0, 3))]
              + [("plain", rigs.WATER, (-20.0, 20.0), 0, True), ("tilt", rigs.WATER, (-20.0, 20.0), 1, True)], batch=1)
    ops = [o for o in CHANGES if o != "init"]
    hist = [(a, "init", b, "init") for a in ops for b in ops] + [(a, b, "init") for a in ops for b in ops]
    if th:
        hist += [(a, "init", b, c, "init") for a in ops for b in ops for c in ops] + [(a, "init", b, "init", c, "init") for a in ops for b in ops for c in ops]
    ctx.cases(c21_hist, hist, batch=4)
    ctx.rule = "rigs x media x volumes x cameras, at every table edge/corner/cell boundary and around it; all histories of configuration changes and rebuilds up to the depth"
    ctx.assumptions = ["agreement is judged in mm of radial shift (0.005 mm), the raster being 2 mm"]


# ------------------------------------------------------------------ C22
def c22(item, r):
    cams, mmv, name, lays, ext, xh = item
    kw = dict(plain={}, tilt=dict(glass=(8.0, -6.0, 100.0)), roll=dict(roll=0.3), wide=dict(cc=40.0, imx=1024, imy=1280), dist=dict(dist=DIST1), off=dict(target=(20, -10, 5)),
              xh=dict(xh=0.3, yh=-0.2), below={}, belowroll={}, uproll={})[name]
    cals, cp = rigs.rig(4, mmv, **kw)
    if name in ("below", "belowroll", "uproll"):  # the whole rig seen from below / cameras turned by half a turn, one straight on
        for i in range(4):
            cals[i] = turned_camera(rigs.POS4[i] if i else (0, 0, 380), TURNS["up" if name == "uproll" else "down"], (0.0, 0.0, 100.0), roll=math.pi if "roll" in name else 0.0)
    cals = [cals[i] for i in cams]
    cp.num_cams = len(cams)
    vp = rigs.volume()
    vp.z_min_lay, vp.z_max_lay = list(lays[0]), list(lays[1])
    zmin, zmax = min(lays[0]), max(lays[1])
    X, Y = [], []
    for cal in cals:
        for px in (0.0, cp.imx):
            for py in (0.0, cp.imy):
                m = ((px - cp.imx / 2) * cp.pix_x, (cp.imy / 2 - py) * cp.pix_y)
                f = undistort(m[0], m[1], cal.added_par) - (float(cal.int_par.xh), float(cal.int_par.yh))
                p, v = rigs.ref_trace(f, cal, cp.mm)[-1]
                for z in (zmin, zmax):
                    q = p + v * (z - p[2]) / v[2]
                    X.append(q[0])
                    Y.append(q[1])
    want = [max(X + [ext[0]]), min(X + [ext[1]]), max(Y + [ext[2]]), min(Y + [ext[3]]), zmax, zmin]
    got = volumedimension(ext[0], ext[1], ext[2], ext[3], 777.0, -777.0, vp, cp, cals)
    r.ev(True)
    if not close(got, want, 0.03):
        r.fail("volume extent is not the bounding box of the corner rays", want, got, item)
    if (list(vp.z_min_lay), list(vp.z_max_lay)) != (list(lays[0]), list(lays[1])):
        r.fail("volumedimension alters the volume parameters", lays, (vp.z_min_lay, vp.z_max_lay), item)
    r.outcome(tuple(np.round(got, -1)))


def c22_move(item, r):
    z, vert, direct = item
    V, D = np.array(vert, float), np.array(direct, float)
    V0, D0 = V.copy(), D.copy()
    q = move_along_ray(float(z), V, D)
    r.ev(True)
    if D[2] != 0:
        w = V + D * (z - V[2]) / D[2]
        if not close(q, w, 1e-9):
            r.fail("move_along_ray does not reach the plane along the ray", w, q, item)
    elif q[2] != z:
        r.fail("move_along_ray of a level ray misses the plane", z, q, item)
    if not (np.array_equal(V, V0) and np.array_equal(D, D0)):
        r.fail("move_along_ray alters its arguments", (V0, D0), (V, D), item)


def C22(ctx):
    th = ctx.thorough
    subsets = [c for k in (1, 2, 3, 4) for c in itertools.combinations(range(4), k)] + ([(1, 0), (3, 1, 2), (3, 2, 1, 0)])
    lays = [((-20.0, -20.0), (20.0, 20.0)), ((-20.0, -35.0), (20.0, 10.0)), ((-35.0, -20.0), (10.0, 20.0)), ((-5.0, -20.0), (30.0, 25.0))]
    exts = [(0.0, 0.0, 0.0, 0.0), (-1e6, 1e6, -1e6, 1e6), (300.0, -300.0, 20.0, -20.0)]
    items = [(c, m, n, l, e, 0) for c in subsets for m in (rigs.AIR, rigs.WATER) + ((MEDIA[3],) if th else ()) for n in ("plain", "tilt", "roll", "wide", "dist", "off", "xh", "below", "belowroll", "uproll")
             for l in lays for e in (exts if th else exts[:2])]
    ctx.cases(c22, items, batch=40)
    ctx.cases(c22_move, [(z, v, d) for z in (-20, 0, 7.5) for v in [(0, 0, 100), (3, -4, 20), (1, 2, 0)] for d in [(0, 0, -1), (.6, 0, -.8), (-.1, .2, .5), (1, 0, 0), (0, .6, .8)]], batch=20)
    ctx.rule = "all camera subsets of a four-camera rig x media x rigs x layer arrangements x initial extents; rays to planes lattice"
    ctx.assumptions = ["tolerance 0.03 mm; principal-point offset and distortion are not combined (the library subtracts the offset before correcting, an accepted approximation)"]


# ------------------------------------------------------------------ C23
C23_KW = dict(air={}, water={}, tilt=dict(glass=(8.0, -6.0, 100.0)), roll=dict(roll=0.3), oil={})


def c23_rig(name):
    mm = dict(air=rigs.AIR, water=rigs.WATER, tilt=rigs.WATER, roll=rigs.AIR, oil=(1.0, 1.7, 1.5, 20.0))[name]
    return rigs.rig(4, mm, **C23_KW[name])


def ray_closeness(rays):
    """Mean distance of all pairs of rays and mean of their midpoints, from the definition."""
    ds, ms = [], []
    for (a, u), (b, v) in itertools.combinations(rays, 2):
        # minimise |a+s u-b-t v|
        M = np.array([[u @ u, -u @ v], [u @ v, -v @ v]])
        s, t = np.linalg.solve(M, [(b - a) @ u, (b - a) @ v])
        p, q = a + s * u, b + t * v
        ds.append(np.linalg.norm(p - q))
        ms.append((p + q) / 2)
    return np.mean(ds), np.mean(ms, axis=0)


def c23(item, r):
    name, order, batch, bump = item
    cals, cp = c23_rig(name)
    cals = [cals[i] for i in order]
    n = len(order)
    for seen in itertools.product((True, False), repeat=n):
        T = np.full((len(batch), n, 2), COORD_UNUSED)
        for i, P in enumerate(batch):
            for c in range(n):
                if seen[(c + i) % n]:
                    T[i, c] = rigs.ref_flat(P, cals[c], cp.mm) + (np.array(bump) * ((c % 2) * 2 - 1) * (i + 1) if bump else 0)
        T0 = T.copy()
        want = []
        for i, P in enumerate(batch):
            rays = [rigs.ref_trace(T[i, c], cals[c], cp.mm)[-1] for c in range(n) if T[i, c, 0] != COORD_UNUSED]
            want.append(ray_closeness(rays) if len(rays) >= 2 else None)
            r.ev(len(rays) >= 2)
            d, pos = point_position(T[i], n, cp.mm, cals)
            chk(r, "point_position", P, want[i], d, pos, bump, (item, seen, i))
        if n >= 2:
            for f in (lambda: multi_cam_point_positions(T, cp.mm, cals), lambda: point_positions(T, cp.mm, cals, rigs.volume())):
                res, rcm = f()
                if res.shape != (len(batch), 3) or rcm.shape != (len(batch),):
                    r.fail("point_positions changes the number of points", len(batch), res.shape, (item, seen))
                    continue
                for i, P in enumerate(batch):
                    r.ev(want[i] is not None)
                    chk(r, "point_positions", P, want[i], rcm[i], res[i], bump, (item, seen, i))
        if not np.array_equal(T, T0):
            r.fail("triangulation modifies the targets", T0, T, (item, seen))
        r.outcome((name, sum(seen)))


def chk(r, what, P, want, d, pos, bump, case):
    if want is None:
        if np.all(np.isfinite(pos)):
            r.fail(f"{what}: a point seen by fewer than two cameras gets a made-up position", "not a number", (d, pos), case)
        return
    if not (close(pos, want[1], 1e-6) and close([d], [want[0]], 1e-6)):
        r.fail(f"{what}: position or ray measure differ from the definition (mean over all ray pairs)", want, (d, pos), case)
    if not bump and not (close(pos, P, 1e-5) and d < 1e-5):
        r.fail(f"{what}: exact observations do not give the point", (0, P), (d, pos), case)


def c23_skew(item, r):
    a, u, b, v = (np.array(t, float) for t in item)
    if np.linalg.norm(np.cross(u, v)) < 1e-9:
        return
    u, v = u / np.linalg.norm(u), v / np.linalg.norm(v)
    keep = [t.copy() for t in (a, u, b, v)]
    d, m = skew_midpoint(a, u, b, v)
    wd, wm = ray_closeness([(a, u), (b, v)])
    r.ev(True)
    if not (close([d], [wd], 1e-9) and close(m, wm, 1e-8)):
        r.fail("skew_midpoint is not the middle of the shortest connection", (wd, wm), (d, m), item)
    d2, m2 = skew_midpoint(b, v, a, u)
    if not (close([d], [d2], 1e-9) and close(m, m2, 1e-8)):
        r.fail("skew_midpoint depends on the order of the rays", (d, m), (d2, m2), item)
    if not all(np.array_equal(x, y) for x, y in zip(keep, (a, u, b, v))):
        r.fail("skew_midpoint modifies its arguments", keep, (a, u, b, v), item)


def c23_dumbbell(item, r):
    name, n, pairs, length, weight, bump = item
    cals, cp = c23_rig(name)
    cals = cals[:n]
    pts = [P for pr in pairs for P in pr]
    T = np.array([[rigs.ref_flat(P, cals[c], cp.mm) + np.array([bump * (c + 1), -bump * i]) for c in range(n)] for i, P in enumerate(pts)])
    T0 = T.copy()
    cl = [ray_closeness([rigs.ref_trace(T[i, c], cals[c], cp.mm)[-1] for c in range(n)]) for i in range(len(pts))]
    err = 0.0
    for i in range(0, len(pts), 2):
        dist = np.linalg.norm(cl[i][1] - cl[i + 1][1])
        err += 1 - min(dist / length, length / dist)
    want = np.mean([c[0] for c in cl]) + weight * err / (len(pts) / 2)
    r.ev(True)
    for f in (lambda: weighted_dumbbell_precision(T, cp.mm, cals, length, weight), lambda: dumbbell_target_func(T, cp, cals, length, weight)):
        got = f()
        if not close([got], [want], 1e-6):
            r.fail("dumbbell precision is not mean ray distance plus weighted mean length error", want, got, item)
    if not np.array_equal(T, T0):
        r.fail("dumbbell precision modifies the targets", None, None, item)


def c23_single(item, r):
    """One camera: the point of the ray between the volume's depth limits."""
    name, ci, P = item
    cals, cp = c23_rig(name)
    T = np.array([[rigs.ref_flat(P, cals[ci], cp.mm)], [rigs.ref_flat((5, -5, 0), cals[ci], cp.mm)]])
    v = rigs.volume(-20.0, 20.0)
    res, rcm = point_positions(T, cp.mm, [cals[ci]], v)
    r.ev(True)
    for i in range(2):
        p, d = rigs.ref_trace(T[i, 0], cals[ci], cp.mm)[-1]
        if np.linalg.norm(np.cross(res[i] - p, d)) > 1e-3 or not -20.001 <= res[i][2] <= 20.001:
            r.fail("single-camera position is not on its ray inside the volume", (p, d), res[i], item)
    if rcm.shape != (2,) or np.any(rcm != 0):
        r.fail("single-camera ray measure is not zero", 0, rcm, item)


def C23(ctx):
    th = ctx.thorough
    s = (-20.0, 0.0, 15.0)
    pts = [(x, y, z) for x in s for y in s for z in (-18.0, 3.0, 17.0)]
    orders = [o for k in (1, 2, 3, 4) for o in itertools.permutations(range(4), k)] if th else \
        [o for k in (1, 2, 3, 4) for o in itertools.combinations(range(4), k)] + [(1, 0), (3, 0, 2), (3, 1, 0, 2)]
    items = []
    for name in C23_KW:
        for i, o in enumerate(orders):
            for k in (1, 2, 3):
                for j in range(0, len(pts), 4 if th else 9):
                    items.append((name, o, [pts[(j + i + 7 * m) % len(pts)] for m in range(k)], ()))
                    items.append((name, o, [pts[(j + i + 7 * m + 1) % len(pts)] for m in range(k)], (0.02, -0.01)))
    # batches of neighbouring and of repeated points
    for name in C23_KW:
        for i, o in enumerate(orders):
            if len(o) < 2:
                continue
            for st in (2.0, 0.2, 0.02, 0.0):
                for ax in range(3):
                    p = pts[(5 * i + ax) % len(pts)]
                    for bump in ((), (0.02, -0.01)) if th else ((),):
                        items.append((name, o, [tuple(v + st * m * (k == ax) for k, v in enumerate(p)) for m in range(3 if len(o) < 4 or th else 2)], bump))
    ctx.cases(c23, items, batch=10)
    V = [(0, 0, 0), (1, 2, -3), (10, -5, 4)]
    D = [(0, 0, 1), (1, 0, 0), (0, 0.6, -0.8), (-1, 2, 2), (0, 0, -1)]
    ctx.cases(c23_skew, [(a, u, b, v) for a in V for u in D for b in V for v in D], batch=60)
    prs = [[((0, 0, 0), (10, 0, 0))], [((0, 0, 0), (10, 0, 0)), ((-5, 3, 2), (1, 3, 10))], [((0, 5, 0), (0, -5, 1)), ((1, 1, 1), (1, 1, 14)), ((-9, 0, 0), (9, 9, 9))]]
    ctx.cases(c23_dumbbell, [(n, k, p, L, w, b) for n in C23_KW for k in (2, 3, 4) for p in prs for L in (5.0, 10.0, 25.0) for w in (0.0, 1.0, 7.0) for b in (0.0, 0.01)], batch=20)
    ctx.cases(c23_single, [(n, c, p) for n in C23_KW for c in range(4) for p in pts[::2]], batch=20)
    ctx.rule = "lattice points in batches of 1..3 x camera subsets/orders x all patterns of cameras marked as unused (rotating along the batch) x exact and disturbed images; ray-pair lattice; dumbbells"
    ctx.assumptions = ["'measure' is the mean shortest distance over all ray pairs and the position the mean of their midpoints, as the documentation states"]
