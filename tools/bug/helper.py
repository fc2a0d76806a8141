"""Camera rigs and an independent geometric reference (plain numpy, written from the definitions)."""
import math
import os
import shutil

import numpy as np

from openptv_python import track
from openptv_python.parameters import SequencePar, TrackParTuple
from openptv_python.tracking_run import TrackingRun
from openptv_python.calibration import Calibration
from openptv_python.parameters import ControlPar, MultimediaPar, VolumePar


def rot(o, p, k):
    """Rotation about x by omega, then y by phi, then z by kappa (columns: camera axes in space)."""
    rx = np.array([[1, 0, 0], [0, math.cos(o), -math.sin(o)], [0, math.sin(o), math.cos(o)]])
    ry = np.array([[math.cos(p), 0, math.sin(p)], [0, 1, 0], [-math.sin(p), 0, math.cos(p)]])
    rz = np.array([[math.cos(k), -math.sin(k), 0], [math.sin(k), math.cos(k), 0], [0, 0, 1]])
    return rx @ ry @ rz


def look_at(pos, target=(0, 0, 0), roll=0.0):
    """omega, phi of a camera at pos looking at target along its own -z axis."""
    d = np.subtract(pos, target)
    d = d / np.linalg.norm(d)
    return -math.asin(d[1] / math.cos(math.asin(d[0]))) if abs(d[0]) < 1 else 0.0, math.asin(d[0]), roll


def camera(pos, target=(0, 0, 0), roll=0.0, cc=60.0, xh=0.0, yh=0.0, glass=(0.0, 0.0, 100.0), dist=(0, 0, 0, 0, 0, 1, 0), angles=None):
    c = Calibration()
    c.set_pos(np.array(pos, float))
    c.set_angles(np.array(angles if angles is not None else look_at(pos, target, roll), float))
    c.set_primary_point(np.array([xh, yh, cc], float))
    c.glass_par = np.array(glass, float)
    c.added_par = np.array(dist, float)
    return c


def control(num_cams, mm=(1.0, 1.0, 1.0, 0.0), imx=1280, imy=1024, pix=(0.012, 0.012)):
    n1, n2, n3, d = mm
    cp = ControlPar(num_cams=num_cams)
    cp.imx, cp.imy, cp.pix_x, cp.pix_y = imx, imy, pix[0], pix[1]
    cp.mm = MultimediaPar(nlay=1, n1=n1, n2=[n2], d=[d], n3=n3)
    cp.img_base_name = [""] * num_cams
    cp.cal_img_base_name = [""] * num_cams
    return cp


AIR = (1.0, 1.0, 1.0, 0.0)
WATER = (1.0, 1.46, 1.33, 5.0)

# four cameras above the glass (z=100 is the air side), looking at the volume around the origin
POS4 = [(-150, -60, 400), (150, -50, 420), (140, 70, 390), (-130, 80, 410)]


def rig(n=4, mm=AIR, target=(0, 0, 0), dist=(0, 0, 0, 0, 0, 1, 0), glass=(0.0, 0.0, 100.0), cc=60.0, imx=1280, imy=1024, pix=(0.012, 0.012), roll=0.0,
        xh=0.0, yh=0.0, pos=None):
    pos = pos or POS4[:n]
    cals = [camera(p, target=target, cc=cc, glass=glass, dist=dist, roll=roll * (i + 1), xh=xh * (i + 1), yh=yh) for i, p in enumerate(pos)]
    return cals, control(len(cals), mm, imx, imy, pix)


# ------------------------------------------------------------- reference optics
def ref_trace(flat, cal, mm):
    """Ray of a flat image point: list of (start, unit direction) in air, glass and water."""
    n1, n2, n3, d = mm.n1, mm.n2[0], mm.n3, mm.d[0]
    e = cal.ext_par
    R = rot(float(e["omega"]), float(e["phi"]), float(e["kappa"]))
    c0 = np.array([float(e["x0"]), float(e["y0"]), float(e["z0"])])
    v = R @ np.array([flat[0], flat[1], -float(cal.int_par["cc"])])
    v /= np.linalg.norm(v)
    g = np.asarray(cal.glass_par, float)
    dist = np.linalg.norm(g)
    g = g / dist

    def hit(p, v, h):  # plane g.x = h
        return p + v * ((h - p @ g) / (v @ g))

    def bend(v, na, nb):  # law of refraction, light travels against g
        t = (v - (v @ g) * g) * (na / nb)
        return t - g * math.sqrt(1 - t @ t)

    b = hit(c0, v, dist + d)
    v2 = bend(v, n1, n2)
    x = hit(b, v2, dist)
    v3 = bend(v2, n2, n3)
    return [(c0, v), (b, v2), (x, v3)]


def ref_flat(P, cal, mm):
    """Flat image point of P: the flat pixel whose traced ray passes through P (one-dimensional search in the plane of incidence)."""
    n1, n2, n3, d = mm.n1, mm.n2[0], mm.n3, mm.d[0]
    e = cal.ext_par
    R = rot(float(e["omega"]), float(e["phi"]), float(e["kappa"]))
    c0 = np.array([float(e["x0"]), float(e["y0"]), float(e["z0"])])
    g = np.asarray(cal.glass_par, float)
    dist = np.linalg.norm(g)
    g = g / dist
    P = np.asarray(P, float)
    hc = c0 @ g - dist - d       # camera over the glass
    hp = dist - P @ g            # point under the glass
    w = P - c0
    if n1 == n2 == n3:  # straight line
        a = R.T @ w
        return np.array([-float(cal.int_par["cc"]) * a[0] / a[2], -float(cal.int_par["cc"]) * a[1] / a[2]])
    lat = w - (w @ g) * g
    rad = np.linalg.norm(lat)
    if rad < 1e-12:
        v = -g
    else:
        u = lat / rad

        def reach(s):  # s = sine in air
            s2, s3 = s * n1 / n2, s * n1 / n3
            t = lambda q: q / math.sqrt(1 - q * q)
            return hc * t(s) + d * t(s2) + hp * t(s3) - rad

        lo, hi = 0.0, 1 - 1e-12
        for _ in range(60):
            m = (lo + hi) / 2
            if reach(m) < 0:
                lo = m
            else:
                hi = m
        s = (lo + hi) / 2
        v = s * u - math.sqrt(1 - s * s) * g
    a = R.T @ v
    return np.array([-float(cal.int_par["cc"]) * a[0] / a[2], -float(cal.int_par["cc"]) * a[1] / a[2]])


def ref_distort(x, y, ap):
    """Brown distortion and affine part as the library defines them."""
    r2 = x * x + y * y
    rad = ap[0] * r2 + ap[1] * r2 ** 2 + ap[2] * r2 ** 3
    X = x + x * rad + ap[3] * (r2 + 2 * x * x) + 2 * ap[4] * x * y
    Y = y + y * rad + ap[4] * (r2 + 2 * y * y) + 2 * ap[3] * x * y
    return ap[5] * X - math.sin(ap[6]) * Y, math.cos(ap[6]) * Y


def ref_metric(P, cal, mm):
    f = ref_flat(P, cal, mm)
    return ref_distort(f[0] + float(cal.int_par["xh"]), f[1] + float(cal.int_par["yh"]), cal.added_par)


def ref_pixel(P, cal, cpar):
    x, y = ref_metric(P, cal, cpar.mm)
    return np.array([x / cpar.pix_x + cpar.imx / 2.0, cpar.imy / 2.0 - y / cpar.pix_y])


def volume(zmin=-20.0, zmax=20.0, x=(-30.0, 30.0), eps0=0.05):
    v = VolumePar()
    v.x_lay = [x[0], x[1]]
    v.z_min_lay = [zmin, zmin]
    v.z_max_lay = [zmax, zmax]
    v.eps0 = eps0
    v.cn = v.cnx = v.cny = v.csumg = 0.02
    v.corrmin = 33.0
    return v


_rigs, _proj = {}, {}


def get_rig(ncam, kind="air"):
    k = (ncam, kind)
    if k not in _rigs:
        _rigs[k] = rig(ncam, **{"air": {}, "water": dict(mm=WATER), "tilt": dict(mm=WATER, glass=(4.0, -6.0, 90.0), roll=0.2)}[kind])
    return _rigs[k]


def pixel(p, ncam, cam, kind="air"):
    k = (tuple(map(float, p)), ncam, cam, kind)
    if k not in _proj:
        if len(_proj) > 200000:
            _proj.clear()
        cals, cp = get_rig(ncam, kind)
        _proj[k] = tuple(ref_pixel(p, cals[cam], cp))
    return _proj[k]


class Scene:
    """frames: list (from frame `first` on) of lists of particles: position, or (position, options).

    options: listed (default True) - in the 3D list; cams - cameras in which it has a target.
    """

    def __init__(self, frames, ncam=2, kind="air", first=1, name="trk", extra=None):
        self.dir = os.path.join(os.environ["DEMO_DIR"], name)
        os.makedirs(self.dir, exist_ok=True)
        for f in os.listdir(self.dir):
            os.remove(os.path.join(self.dir, f))
        self.ncam, self.kind, self.first, self.last = ncam, kind, first, first + len(frames) - 1
        self.bases = [os.path.join(self.dir, f"cam{c + 1}.%05d") for c in range(ncam)]
        self.rt, self.ptv, self.add = (os.path.join(self.dir, n) for n in ("rt_is", "ptv_is", "added"))
        for k, parts in enumerate(frames):
            parts = [p if isinstance(p[0], (tuple, list, np.ndarray)) else (p, {}) for p in parts]
            targets = [[] for _ in range(ncam)]
            listed = [p for p in parts if p[1].get("listed", True)]
            for i, (pos, o) in enumerate(listed + [p for p in parts if not p[1].get("listed", True)]):
                for c in o.get("cams", range(ncam)):
                    x, y = pixel(pos, ncam, c, kind)
                    targets[c].append([x, y, i if i < len(listed) else -1])
            for c, x, y in (extra or {}).get(k, ()):
                targets[c].append([x, y, -1])
            corr = np.full((len(listed), 4), -1)
            for c in range(ncam):
                targets[c].sort(key=lambda t: t[1])
                with open(self.bases[c] % (first + k) + "_targets", "w") as fp:
                    fp.write(f"{len(targets[c])}\n")
                    for j, (x, y, t) in enumerate(targets[c]):
                        fp.write(f"{j:4d} {x:9.4f} {y:9.4f} {20 + j:5d} {5:5d} {4:5d} {1000 + j:5d} {t:5d}\n")
                        if t >= 0:
                            corr[t, c] = j
            with open(f"{self.rt}.{first + k}", "w") as fp:
                fp.write(f"{len(listed)}\n")
                for i, (pos, _) in enumerate(listed):
                    fp.write(f"{i + 1:4d} {pos[0]:9.3f} {pos[1]:9.3f} {pos[2]:9.3f} " + " ".join(f"{v:4d}" for v in corr[i]) + "\n")

    def write_links(self, links):
        """links: per frame list of (prev, next)."""
        for k, fr in enumerate(links):
            pos = self.positions(self.first + k)
            for base, tail in ((self.ptv, ""), (self.add, " 4")):
                with open(f"{base}.{self.first + k}", "w") as fp:
                    fp.write(f"{len(fr)}\n")
                    for (p, n), x in zip(fr, pos):
                        fp.write(f"{p:4d} {n:4d} {x[0]:10.3f} {x[1]:10.3f} {x[2]:10.3f}{tail}\n")

    # ------------------------------------------------ independent readers
    def table(self, base, frame, cols):
        with open(f"{base}.{frame}") as fp:
            lines = fp.read().split("\n")
        n = int(lines[0])
        rows = [[float(v) for v in l.split()] for l in lines[1:] if l.strip()]
        assert len(rows) == n and all(len(r) == cols for r in rows), (base, frame, "malformed", lines[:3])
        return rows

    def positions(self, frame):
        return [tuple(r[1:4]) for r in self.table(self.rt, frame, 8)]

    def corres(self, frame):
        return [tuple(int(v) for v in r[4:8]) for r in self.table(self.rt, frame, 8)]

    def links(self, frame):
        return [(int(r[0]), int(r[1])) for r in self.table(self.ptv, frame, 5)]

    def targets(self, cam, frame):
        with open(self.bases[cam] % frame + "_targets") as fp:
            lines = fp.read().split("\n")
        rows = [tuple(float(v) for v in l.split()) for l in lines[1:] if l.strip()]
        assert len(rows) == int(lines[0]), (cam, frame, "malformed targets")
        return rows

    def graph(self):
        return [self.links(f) for f in range(self.first, self.last + 1)]

    def data(self):
        """Everything measured: positions, correspondences, targets of every frame."""
        return [dict(pos=self.positions(f), corr=self.corres(f), targ=[self.targets(c, f) for c in range(self.ncam)])
                for f in range(self.first, self.last + 1)]

    def snapshot(self):
        return {f: open(os.path.join(self.dir, f), "rb").read() for f in sorted(os.listdir(self.dir))}

    # ------------------------------------------------ the real tracker
    def run_info(self, lim=3.0, dangle=120.0, dacc=3.0, add=0, vol=None):
        cals, cp = get_rig(self.ncam, self.kind)
        l = (lim,) * 3 if np.isscalar(lim) else lim
        l = [v if isinstance(v, tuple) else (-v, v) for v in l]  # (min, max) of each axis
        tp = TrackParTuple(dvxmin=l[0][0], dvxmax=l[0][1], dvymin=l[1][0], dvymax=l[1][1], dvzmin=l[2][0], dvzmax=l[2][1], dangle=dangle, dacc=dacc, add=add,
                           dsumg=0, dn=0, dnx=0, dny=0)
        seq = SequencePar(img_base_name=list(self.bases), first=self.first, last=self.last)
        v = volume() if vol is None else vol
        return TrackingRun(seq, tp, v, cp, 4, 64, self.rt, self.ptv, self.add, cals, 1e-5)

    def forward(self, run, monitor=None):
        track.track_forward_start(run)
        for step in range(run.seq_par.first, run.seq_par.last):
            track.trackcorr_c_loop(run, step)
            if monitor:
                monitor(run, step)
        track.trackcorr_c_finish(run, run.seq_par.last)

    def backward(self, run):
        return track.trackback_c(run)


