"""The tracker as a plain state machine over frames of particles and targets: what a step may look at, what a link costs, who gets it.

Written from the published criterion (search volume, candidates seen by several cameras, mean of path length, acceleration and change of direction
relative to their limits over the number of sightings), with the optics of rigs.py.
"""
import itertools
import math

import numpy as np

from . import rigs

NONE, FREE = -1, -2  # no predecessor, no successor


class Part:
    def __init__(self, x, p=NONE, n=FREE):
        self.x, self.prev, self.next = np.asarray(x, float), p, n
        self.bids = []


class Fr:
    """particles, targets per camera [x, y, owner], attached targets per particle."""

    def __init__(self, parts, targs, corr):
        self.parts, self.targs, self.corr = parts, targs, corr


EMPTY = Fr([], [[], [], [], []], [])


class Model:
    def __init__(self, cals, cp, lim, dangle, dacc, add, box, frames):
        """lim: ((min, max) of each axis), box: ((xmin, xmax), (ymin, ymax), (zmin, zmax)) in which particles may be added."""
        self.cals, self.cp, self.lim, self.dangle, self.dacc, self.add, self.box, self.fr = cals, cp, lim, dangle, dacc, add, box, frames
        self.lmax = math.sqrt(sum((b - a) ** 2 for a, b in lim))
        self.margin = 1e9
        self.ncam = len(cals)
        self.count = {}

    # ------------------------------------------------ comparisons remember how narrow they were
    def less(self, a, b):
        self.margin = min(self.margin, abs(a - b))
        return a < b

    def between(self, lo, v, hi):
        a, b = self.less(lo, v), self.less(v, hi)
        return a and b

    def did(self, what):
        self.count[what] = self.count.get(what, 0) + 1

    # ------------------------------------------------ geometry
    def see(self, p, cam):
        return rigs.ref_pixel(p, self.cals[cam], self.cp)

    def ray(self, x, y, cam):
        """Line of sight of an image point."""
        cal, cp = self.cals[cam], self.cp
        m = np.array([(x - cp.imx / 2.0) * cp.pix_x, (cp.imy / 2.0 - y) * cp.pix_y])
        q = m.copy()
        for _ in range(12):  # undo the (small) distortion
            q = q + m - rigs.ref_distort(q[0], q[1], cal.added_par)
        flat = (q[0] - float(cal.int_par["xh"]), q[1] - float(cal.int_par["yh"]))
        return rigs.ref_trace(flat, cal, cp.mm)[-1]

    def measure(self, seen):
        """seen: cam -> (x, y). Mean of the midpoints of all pairs of rays."""
        rays = [self.ray(x, y, c) for c, (x, y) in sorted(seen.items())]
        mids = []
        for (p, u), (q, v) in itertools.combinations(rays, 2):
            A = np.array([[u @ u, -(u @ v)], [u @ v, -(v @ v)]])
            s, t = np.linalg.solve(A, np.array([(q - p) @ u, (q - p) @ v]))
            mids.append((p + s * u + q + t * v) / 2)
        return sum(mids) / len(mids)

    def allowed(self, d):
        return all([self.between(self.lim[a][0], d[a], self.lim[a][1]) for a in range(3)])

    @staticmethod
    def turn(start, pred, cand):
        """Change of direction [gon] and acceleration."""
        a, b = pred - start, cand - start
        acc = float(np.linalg.norm(a - b))
        la, lb = np.linalg.norm(a), np.linalg.norm(b)
        if la * lb == 0 or np.all(a == b):
            return 0.0, acc
        return 200 / math.pi * math.acos(max(-1.0, min(1.0, float(a @ b / (la * lb))))), acc

    def smooth(self, angle, acc):
        a, b, c = self.less(acc, self.dacc), self.less(angle, self.dangle), self.less(acc, self.dacc / 10)
        if (a and b) != c:
            self.did("direction_free" if c else "direction_bound")
        return a and b or c

    def cost(self, dl, acc, angle, sightings):
        return (dl / self.lmax + acc / self.dacc + angle / self.dangle) / sightings

    # ------------------------------------------------ looking into a frame
    def window(self, centre, cam):
        q = [self.see(np.add(centre, c), cam) for c in itertools.product(*self.lim)]
        cx, cy = self.see(centre, cam)
        x0, x1 = max(min(v[0] for v in q), 0), min(max(v[0] for v in q), self.cp.imx)
        y0, y1 = max(min(v[1] for v in q), 0), min(max(v[1] for v in q), self.cp.imy)
        return cx - x0, x1 - cx, cy - y0, y1 - cy

    def near(self, targs, c, win, mine):
        """Indices of the targets in the window by distance; mine: owned ones, else left over ones."""
        cp = self.cp
        if not (0 <= c[0] <= cp.imx and 0 <= c[1] <= cp.imy):
            return []
        x0, x1 = max(c[0] - win[0], 0), min(c[0] + win[1], cp.imx)
        y0, y1 = max(c[1] - win[2], 0), min(c[1] + win[3], cp.imy)
        out = []
        for i, (x, y, own) in enumerate(targs):
            if (own != -1) == mine and self.between(x0, x, x1) and self.between(y0, y, y1):
                out.append((math.hypot(x - c[0], y - c[1]), i))
        out.sort()
        for a, b in zip(out[:5], out[1:5]):
            self.margin = min(self.margin, b[0] - a[0])
        return [i for _, i in out]

    def candidates(self, centre, look, fr):
        """Particles of the frame in the search volume with the number of cameras that show them there, most sightings first.

        If no particle is shown by two cameras, the one nearest in the first camera that shows any."""
        seen, first = {}, None
        for cam in range(self.ncam):
            for i in self.near(fr.targs[cam], look[cam], self.window(centre, cam), True)[:4]:
                own = fr.targs[cam][i][2]
                if first is None:
                    first = own
                seen.setdefault(own, set()).add(cam)
        multi = [(f, len(c)) for f, c in seen.items() if len(c) > 1]
        if not multi and first is not None:
            self.did("single_camera_candidate")
            multi = [(first, 1)]
        return sorted(multi, key=lambda m: -m[1])

    def leftover(self, centre, fr):
        """Nearest target without owner within three pixels of the centre, per camera."""
        got = {}
        for cam in range(self.ncam):
            l = self.near(fr.targs[cam], self.see(centre, cam), (3, 3, 3, 3), False)
            if l:
                got[cam] = l[0]
        return got

    def inside(self, x):
        return all([self.between(lo, v, hi) for (lo, hi), v in zip(self.box, x)])

    def insert(self, fr, x, got):
        k = len(fr.parts)
        fr.parts.append(Part(x))
        fr.corr.append([-1] * 4)
        for cam, i in got.items():
            fr.targs[cam][i][2] = k
            fr.corr[k][cam] = i
        self.did("added")

    # ------------------------------------------------ one step forward
    def step(self, prv, cur, nxt, aft):
        """cur -> nxt, looking one frame further."""
        for p in cur.parts[:]:
            p.bids = []
            x1 = p.x
            old = prv.parts[p.prev].x if p.prev >= 0 else None
            if old is not None:
                centre = 2 * x1 - old
                look = [self.see(centre, c) for c in range(self.ncam)]
            else:
                centre = x1
                at = cur.corr[cur.parts.index(p)]
                look = [tuple(cur.targs[c][at[c]][:2]) if at[c] != -1 else self.see(centre, c) for c in range(self.ncam)]
            around = self.candidates(centre, look, nxt)
            if not around:  # nothing there at all: nothing is added either
                continue
            for f, n in around:
                if not 0 <= f < len(nxt.parts):
                    break
                x3 = nxt.parts[f].x
                ahead = 0.5 * (5 * x3 - 4 * x1 + old) if old is not None else 2 * x3 - x1
                for g, m in self.candidates(ahead, [self.see(ahead, c) for c in range(self.ncam)], aft):
                    if not 0 <= g < len(aft.parts):
                        break
                    x4 = aft.parts[g].x
                    if self.allowed(x4 - x3):
                        angle, acc = self.turn(x3, x4, ahead)
                        if old is not None:
                            a0, c0 = self.turn(x1, centre, x3)
                            angle, acc = (angle + a0) / 2, (acc + c0) / 2
                        if self.smooth(angle, acc):
                            self.did("over_two_frames")
                            p.bids.append((self.cost((np.linalg.norm(x1 - x3) + np.linalg.norm(x4 - x3)) / 2, acc, angle, n + m), f))
                got = self.leftover(ahead, aft)
                if len(got) >= 2:
                    x4 = self.measure({c: aft.targs[c][i][:2] for c, i in got.items()})
                    if self.inside(x4) and self.allowed(x4 - x3):
                        angle, acc = self.turn(x3, x4, ahead)
                        if self.smooth(angle, acc):
                            self.did("towards_leftover")
                            p.bids.append((self.cost((np.linalg.norm(x1 - x3) + np.linalg.norm(x4 - x3)) / 2, acc, angle, len(got) + n), f))
                            if self.add:
                                self.insert(aft, x4, got)
                if not p.bids and old is not None and self.allowed(x3 - x1):
                    angle, acc = self.turn(x1, centre, x3)
                    if self.smooth(angle, acc):
                        self.did("one_frame_only")
                        p.bids.append((self.cost((np.linalg.norm(x1 - x3) + np.linalg.norm(old - x1)) / 2, acc, angle, n), f))
            if self.add and not p.bids and old is not None:
                got = self.leftover(centre, nxt)
                if len(got) >= 2:
                    x3 = self.measure({c: nxt.targs[c][i][:2] for c, i in got.items()})
                    if self.inside(x3) and self.allowed(centre - x3):
                        angle, acc = self.turn(x1, centre, x3)
                        if self.smooth(angle, acc):
                            p.bids.append((self.cost((np.linalg.norm(x1 - x3) + np.linalg.norm(old - x1)) / 2, acc, angle, len(got)), len(nxt.parts)))
                            self.insert(nxt, x3, got)
        return self.award(cur, nxt)

    def award(self, cur, nxt):
        """Everyone wants his cheapest candidate; who pays less gets it, the other gets none."""
        won = {}
        for h, p in enumerate(cur.parts):
            if p.bids:
                p.bids.sort()
                for c, f in p.bids[1:]:
                    if f != p.bids[0][1]:
                        self.margin = min(self.margin, c - p.bids[0][0])
                        self.did("choice")
                        break
                c, f = p.bids[0]
                if f in won:
                    self.did("contest")
                    if not self.less(c, won[f][0]):
                        continue
                won[f] = (c, h)
        for f, (c, h) in won.items():
            cur.parts[h].next = f
            nxt.parts[f].prev = h
        return len(won)

    # ------------------------------------------------ back
    def back(self, aft, cur, prv, pprv):
        """Particles with a successor and no predecessor look for one in prv."""
        for p in cur.parts:
            p.bids = []
            if p.next < 0 or p.prev != NONE:
                continue
            x0, x1 = aft.parts[p.next].x, p.x
            centre = 2 * x1 - x0
            for f, n in self.candidates(centre, [self.see(centre, c) for c in range(self.ncam)], prv):
                x3 = prv.parts[f].x
                if self.allowed(x1 - x3):
                    angle, acc = self.turn(x1, centre, x3)
                    if self.smooth(angle, acc):
                        p.bids.append((self.cost((np.linalg.norm(x1 - x3) + np.linalg.norm(x0 - x1)) / 2, acc, angle, n), f))
        for h, p in enumerate(cur.parts):
            if not p.bids:
                continue
            p.bids.sort()
            for c, f in p.bids[1:]:
                if f != p.bids[0][1]:
                    self.margin = min(self.margin, c - p.bids[0][0])
                    break
            f = p.bids[0][1]
            q = prv.parts[f]
            if q.next != FREE:
                continue
            if q.prev != NONE:
                x0, x1, x3, x4 = aft.parts[p.next].x, p.x, q.x, pprv.parts[q.prev].x
                angle, acc = self.turn(x3, x4, 0.5 * (5.0 * x3 - 4.0 * x1 + x0))
                if not self.smooth(angle, acc):
                    continue
                self.did("joined_back")
            else:
                self.did("extended_back")
            p.prev, q.next = f, h
