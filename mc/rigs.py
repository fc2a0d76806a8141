"""Camera rigs and an independent geometric reference (plain numpy, written from the definitions)."""
import math

import numpy as np

from openptv_python.calibration import Calibration
from openptv_python.parameters import ControlPar, MultimediaPar, VolumePar


def rot(o, p, k):
    """Rotation about x by omega, then y by phi, then z by kappa (columns: camera axes in space)."""
    rx = np.array([[1, 0, 0], [0, math.cos(o), -math.sin(o)], [0, math.sin(o), math.cos(o)]])
    ry = np.array([[math.cos(p), 0, math.sin(p)], [0, 1, 0], [-math.sin(p), 0, math.cos(p)]])
    rz = np.array([[math.cos(k), -math.sin(k), 0], [math.sin(k), math.cos(k), 0], [0, 0, 1]])
    return rx @ ry @ rz


def look_at(pos, target=(0, 0, 0), roll=0.0):
    """omega, phi of a camera at pos looking at target along its own -z axis."""
    d = np.subtract(pos, target)
    d = d / np.linalg.norm(d)
    return -math.asin(d[1] / math.cos(math.asin(d[0]))) if abs(d[0]) < 1 else 0.0, math.asin(d[0]), roll


def camera(pos, target=(0, 0, 0), roll=0.0, cc=60.0, xh=0.0, yh=0.0, glass=(0.0, 0.0, 100.0), dist=(0, 0, 0, 0, 0, 1, 0), angles=None):
    c = Calibration()
    c.set_pos(np.array(pos, float))
    c.set_angles(np.array(angles if angles is not None else look_at(pos, target, roll), float))
    c.set_primary_point(np.array([xh, yh, cc], float))
    c.glass_par = np.array(glass, float)
    c.added_par = np.array(dist, float)
    return c


def control(num_cams, mm=(1.0, 1.0, 1.0, 0.0), imx=1280, imy=1024, pix=(0.012, 0.012)):
    n1, n2, n3, d = mm
    cp = ControlPar(num_cams=num_cams)
    cp.imx, cp.imy, cp.pix_x, cp.pix_y = imx, imy, pix[0], pix[1]
    cp.mm = MultimediaPar(nlay=1, n1=n1, n2=[n2], d=[d], n3=n3)
    cp.img_base_name = [""] * num_cams
    cp.cal_img_base_name = [""] * num_cams
    return cp


AIR = (1.0, 1.0, 1.0, 0.0)
WATER = (1.0, 1.46, 1.33, 5.0)

# four cameras above the glass (z=100 is the air side), looking at the volume around the origin
POS4 = [(-150, -60, 400), (150, -50, 420), (140, 70, 390), (-130, 80, 410)]


def rig(n=4, mm=AIR, target=(0, 0, 0), dist=(0, 0, 0, 0, 0, 1, 0), glass=(0.0, 0.0, 100.0), cc=60.0, imx=1280, imy=1024, pix=(0.012, 0.012), roll=0.0,
        xh=0.0, yh=0.0, pos=None):
    """No two cameras are alike: each has its own constant, principal point, distortion and (tilted) glass."""
    pos = pos or POS4[:n]
    cals = []
    for i, p in enumerate(pos):
        f = (1.0, 0.6, -0.8, 1.4)[i]
        ap = [v * f for v in dist]
        ap[5] = 1 + (dist[5] - 1) * f
        g = (glass[0] * (1, 0.8, 1.2, 0.9)[i], glass[1] * (1, 1.1, 0.7, 0.9)[i], glass[2])
        cals.append(camera(p, target=target, cc=cc * (1, 1.02, 0.98, 1.03)[i], glass=g, dist=ap, roll=roll * (i + 1), xh=xh * (i + 1), yh=yh * (1, -0.5, 1.6, 0.4)[i]))
    return cals, control(len(cals), mm, imx, imy, pix)


# ------------------------------------------------------------- reference optics
def ref_trace(flat, cal, mm):
    """Ray of a flat image point: list of (start, unit direction) in air, glass and water."""
    n1, n2, n3, d = mm.n1, mm.n2[0], mm.n3, mm.d[0]
    e = cal.ext_par
    R = rot(float(e["omega"]), float(e["phi"]), float(e["kappa"]))
    c0 = np.array([float(e["x0"]), float(e["y0"]), float(e["z0"])])
    v = R @ np.array([flat[0], flat[1], -float(cal.int_par["cc"])])
    v /= np.linalg.norm(v)
    g = np.asarray(cal.glass_par, float)
    dist = np.linalg.norm(g)
    g = g / dist

    def hit(p, v, h):  # plane g.x = h
        return p + v * ((h - p @ g) / (v @ g))

    def bend(v, na, nb):  # law of refraction, light travels against g
        t = (v - (v @ g) * g) * (na / nb)
        return t - g * math.sqrt(1 - t @ t)

    b = hit(c0, v, dist + d)
    v2 = bend(v, n1, n2)
    x = hit(b, v2, dist)
    v3 = bend(v2, n2, n3)
    return [(c0, v), (b, v2), (x, v3)]


def ref_flat(P, cal, mm):
    """Flat image point of P: the flat pixel whose traced ray passes through P (one-dimensional search in the plane of incidence)."""
    n1, n2, n3, d = mm.n1, mm.n2[0], mm.n3, mm.d[0]
    e = cal.ext_par
    R = rot(float(e["omega"]), float(e["phi"]), float(e["kappa"]))
    c0 = np.array([float(e["x0"]), float(e["y0"]), float(e["z0"])])
    g = np.asarray(cal.glass_par, float)
    dist = np.linalg.norm(g)
    g = g / dist
    P = np.asarray(P, float)
    hc = c0 @ g - dist - d       # camera over the glass
    hp = dist - P @ g            # point under the glass
    w = P - c0
    if n1 == n2 == n3:  # straight line
        a = R.T @ w
        return np.array([-float(cal.int_par["cc"]) * a[0] / a[2], -float(cal.int_par["cc"]) * a[1] / a[2]])
    lat = w - (w @ g) * g
    rad = np.linalg.norm(lat)
    if rad < 1e-12:
        v = -g
    else:
        u = lat / rad

        def reach(s):  # s = sine in air
            s2, s3 = s * n1 / n2, s * n1 / n3
            t = lambda q: q / math.sqrt(1 - q * q)
            return hc * t(s) + d * t(s2) + hp * t(s3) - rad

        lo, hi = 0.0, 1 - 1e-12
        for _ in range(60):
            m = (lo + hi) / 2
            if reach(m) < 0:
                lo = m
            else:
                hi = m
        s = (lo + hi) / 2
        v = s * u - math.sqrt(1 - s * s) * g
    a = R.T @ v
    return np.array([-float(cal.int_par["cc"]) * a[0] / a[2], -float(cal.int_par["cc"]) * a[1] / a[2]])


def ref_distort(x, y, ap):
    """Brown distortion and affine part as the library defines them."""
    r2 = x * x + y * y
    rad = ap[0] * r2 + ap[1] * r2 ** 2 + ap[2] * r2 ** 3
    X = x + x * rad + ap[3] * (r2 + 2 * x * x) + 2 * ap[4] * x * y
    Y = y + y * rad + ap[4] * (r2 + 2 * y * y) + 2 * ap[3] * x * y
    return ap[5] * X - math.sin(ap[6]) * Y, math.cos(ap[6]) * Y


def ref_metric(P, cal, mm):
    f = ref_flat(P, cal, mm)
    return ref_distort(f[0] + float(cal.int_par["xh"]), f[1] + float(cal.int_par["yh"]), cal.added_par)


def ref_pixel(P, cal, cpar):
    x, y = ref_metric(P, cal, cpar.mm)
    return np.array([x / cpar.pix_x + cpar.imx / 2.0, cpar.imy / 2.0 - y / cpar.pix_y])


def volume(zmin=-20.0, zmax=20.0, x=(-30.0, 30.0), eps0=0.05):
    v = VolumePar()
    v.x_lay = [x[0], x[1]]
    v.z_min_lay = [zmin, zmin]
    v.z_max_lay = [zmax, zmax]
    v.eps0 = eps0
    v.cn = v.cnx = v.cny = v.csumg = 0.02
    v.corrmin = 33.0
    return v
