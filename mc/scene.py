"""Tracking scenes on disk, built and read without the library's own file code."""
import os
import shutil

import numpy as np

from . import core, rigs
from openptv_python import track
from openptv_python.parameters import SequencePar, TrackParTuple
from openptv_python.tracking_run import TrackingRun

_rigs, _proj = {}, {}


def get_rig(ncam, kind="air"):
    k = (ncam, kind)
    if k not in _rigs:
        _rigs[k] = rigs.rig(ncam, **{"air": {}, "water": dict(mm=rigs.WATER), "tilt": dict(mm=rigs.WATER, glass=(4.0, -6.0, 90.0), roll=0.2, xh=0.15, yh=-0.2,
                                                                                                         dist=(2e-5, 0.0, 0.0, 6e-5, -5e-5, 1.002, 0.0015))}[kind])
    return _rigs[k]


def pixel(p, ncam, cam, kind="air"):
    k = (tuple(map(float, p)), ncam, cam, kind)
    if k not in _proj:
        if len(_proj) > 200000:
            _proj.clear()
        cals, cp = get_rig(ncam, kind)
        _proj[k] = tuple(rigs.ref_pixel(p, cals[cam], cp))
    return _proj[k]


class Scene:
    """frames: list (from frame `first` on) of lists of particles: position, or (position, options).

    options: listed (default True) - in the 3D list; cams - cameras in which it has a target.
    """

    def __init__(self, frames, ncam=2, kind="air", first=1, name="trk", extra=None):
        self.dir = core.scratch(name)
        for f in os.listdir(self.dir):
            os.remove(os.path.join(self.dir, f))
        self.ncam, self.kind, self.first, self.last = ncam, kind, first, first + len(frames) - 1
        self.bases = [os.path.join(self.dir, f"cam{c + 1}.%05d") for c in range(ncam)]
        self.rt, self.ptv, self.add = (os.path.join(self.dir, n) for n in ("rt_is", "ptv_is", "added"))
        for k, parts in enumerate(frames):
            parts = [p if isinstance(p[0], (tuple, list, np.ndarray)) else (p, {}) for p in parts]
            targets = [[] for _ in range(ncam)]
            listed = [p for p in parts if p[1].get("listed", True)]
            for i, (pos, o) in enumerate(listed + [p for p in parts if not p[1].get("listed", True)]):
                for c in o.get("cams", range(ncam)):
                    x, y = pixel(pos, ncam, c, kind)
                    targets[c].append([x, y, i if i < len(listed) else -1])
            for c, x, y in (extra or {}).get(k, ()):
                targets[c].append([x, y, -1])
            corr = np.full((len(listed), 4), -1)
            for c in range(ncam):
                targets[c].sort(key=lambda t: t[1])
                with open(self.bases[c] % (first + k) + "_targets", "w") as fp:
                    fp.write(f"{len(targets[c])}\n")
                    for j, (x, y, t) in enumerate(targets[c]):
                        fp.write(f"{j:4d} {x:9.4f} {y:9.4f} {20 + j:5d} {5:5d} {4:5d} {1000 + j:5d} {t:5d}\n")
                        if t >= 0:
                            corr[t, c] = j
            with open(f"{self.rt}.{first + k}", "w") as fp:
                fp.write(f"{len(listed)}\n")
                for i, (pos, _) in enumerate(listed):
                    fp.write(f"{i + 1:4d} {pos[0]:9.3f} {pos[1]:9.3f} {pos[2]:9.3f} " + " ".join(f"{v:4d}" for v in corr[i]) + "\n")

    def write_links(self, links):
        """links: per frame list of (prev, next)."""
        for k, fr in enumerate(links):
            pos = self.positions(self.first + k)
            for base, tail in ((self.ptv, ""), (self.add, " 4")):
                with open(f"{base}.{self.first + k}", "w") as fp:
                    fp.write(f"{len(fr)}\n")
                    for (p, n), x in zip(fr, pos):
                        fp.write(f"{p:4d} {n:4d} {x[0]:10.3f} {x[1]:10.3f} {x[2]:10.3f}{tail}\n")

    # ------------------------------------------------ independent readers
    def table(self, base, frame, cols):
        with open(f"{base}.{frame}") as fp:
            lines = fp.read().split("\n")
        n = int(lines[0])
        rows = [[float(v) for v in l.split()] for l in lines[1:] if l.strip()]
        assert len(rows) == n and all(len(r) == cols for r in rows), (base, frame, "malformed", lines[:3])
        return rows

    def positions(self, frame):
        return [tuple(r[1:4]) for r in self.table(self.rt, frame, 8)]

    def corres(self, frame):
        return [tuple(int(v) for v in r[4:8]) for r in self.table(self.rt, frame, 8)]

    def links(self, frame):
        return [(int(r[0]), int(r[1])) for r in self.table(self.ptv, frame, 5)]

    def targets(self, cam, frame):
        with open(self.bases[cam] % frame + "_targets") as fp:
            lines = fp.read().split("\n")
        rows = [tuple(float(v) for v in l.split()) for l in lines[1:] if l.strip()]
        assert len(rows) == int(lines[0]), (cam, frame, "malformed targets")
        return rows

    def graph(self):
        return [self.links(f) for f in range(self.first, self.last + 1)]

    def data(self):
        """Everything measured: positions, correspondences, targets of every frame."""
        return [dict(pos=self.positions(f), corr=self.corres(f), targ=[self.targets(c, f) for c in range(self.ncam)])
                for f in range(self.first, self.last + 1)]

    def snapshot(self):
        return {f: open(os.path.join(self.dir, f), "rb").read() for f in sorted(os.listdir(self.dir))}

    # ------------------------------------------------ the real tracker
    def run_info(self, lim=3.0, dangle=120.0, dacc=3.0, add=0, vol=None):
        cals, cp = get_rig(self.ncam, self.kind)
        l = ((-lim, lim),) * 3 if np.isscalar(lim) else lim  # (min, max) of each axis
        tp = TrackParTuple(dvxmin=l[0][0], dvxmax=l[0][1], dvymin=l[1][0], dvymax=l[1][1], dvzmin=l[2][0], dvzmax=l[2][1], dangle=dangle, dacc=dacc, add=add,
                           dsumg=0, dn=0, dnx=0, dny=0)
        seq = SequencePar(img_base_name=list(self.bases), first=self.first, last=self.last)
        v = rigs.volume() if vol is None else vol
        return TrackingRun(seq, tp, v, cp, 4, 64, self.rt, self.ptv, self.add, cals, 1e-5)

    def forward(self, run, monitor=None):
        track.track_forward_start(run)
        for step in range(run.seq_par.first, run.seq_par.last):
            track.trackcorr_c_loop(run, step)
            if monitor:
                monitor(run, step)
        track.trackcorr_c_finish(run, run.seq_par.last)

    def backward(self, run):
        return track.trackback_c(run)


def check_graph(graph, r, case, what):
    """Mutual, in-range, ends open."""
    n = [len(g) for g in graph]
    links = 0
    for t, fr in enumerate(graph):
        for i, (p, q) in enumerate(fr):
            bad = None
            if t == 0 and p >= 0:
                bad = "predecessor in the first frame"
            elif t == len(graph) - 1 and q >= 0:
                bad = "successor in the last frame"
            elif p >= 0 and not (p < n[t - 1] and graph[t - 1][p][1] == i):
                bad = "predecessor link not mutual"
            elif q >= 0 and not (q < n[t + 1] and graph[t + 1][q][0] == i):
                bad = "successor link not mutual"
            elif p < -1 or (q < 0 and q != -2):
                bad = "undefined link mark"
            if bad:
                r.fail(f"{what}: {bad} (frame {t}, particle {i})", None, graph, case)
                return None
            links += q >= 0
    return links
