"""C01-C06: files and the frame buffer."""
import itertools
import os
import resource
import shutil
from collections import deque
from pathlib import Path

import numpy as np
import yaml

from . import core
from openptv_python import calibration as cal_mod
from openptv_python import parameters as par
from openptv_python import tracking_frame_buf as fb
from openptv_python.calibration import Calibration
from openptv_python.tracking_frame_buf import Frame, FrameBuf, FrameBufBase, Pathinfo, Target

LEVELS = dict(C01="model_checking", C02="model_checking", C05="fault_enumeration", C06="model_checking")


def fresh(name):
    d = core.scratch(name)
    for f in os.listdir(d):
        p = os.path.join(d, f)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    return d


def prec(v, n):
    """The value a file with n decimals keeps (either neighbour when exactly between)."""
    return round(v, n), 0.5000001 * 10 ** -n


def decades(lo, hi, mants=(1.0, 3.7, 9.99961)):
    """Every order of magnitude, both signs."""
    return [float(f"{s * m:.6g}e{e}") for e in range(lo, hi + 1) for m in mants for s in (1, -1)]


# ------------------------------------------------------------------ C01
FIELDS = ("pnr", "x", "y", "n", "nx", "ny", "sumg", "tnr")
ALPHA = dict(pnr=[0, 1, 9999, 123456, -999, -1], x=[0.0, 0.00004, 1.23456, 1023.99995, 99999.9999, 123456.789, -3.5, -0.00001, 7.25],
             y=[0.0, 0.00006, 2.34567, 1279.5, 100000.5, -12345.6789, 0.1], n=[0, 1, 99999, 100000, 12345678],
             nx=[0, 1, 7, 123456], ny=[0, 1, 9, 654321], sumg=[0, 1, 99999, 123456789, 4000000000], tnr=[-1, 0, 1, 20479, 123456])
BASE = dict(pnr=3, x=12.3456, y=65.4321, n=11, nx=4, ny=5, sumg=612, tnr=2)
FRAMES = [1, 2, 9, 10, 11, 99, 100, 101, 333, 999, 1000, 1001, 9999, 10000, 10001, 99999, 100000, 123456, 999999, 1234567]
BASES = ["cam1.%04d", "cam1.%05d", "cam1.%d", "img_%03d", "cam1.", "cam1", "cam1.#", "d.ir/c a m%04d", "1%d2", "x.tif%d", "scene%02d.tif"]


def mk(d):
    return Target(**d)


def tvals(t):
    return tuple(getattr(t, f) for f in FIELDS)


def same_target(exp, got):
    for f, e, g in zip(FIELDS, exp, tvals(got)):
        if f in ("x", "y"):
            if not abs(g - e) <= 0.5000001e-4:
                return False
        elif g != e or not isinstance(g, (int, np.integer)):
            return False
    return True


def same_list(exp, got):
    return len(exp) == len(got) and all(same_target(e, g) for e, g in zip(exp, got))


def c01_roundtrip(item, r):
    """One list of targets under every base x frame number (or a selection)."""
    dicts, bases, frames = item
    cwd = os.getcwd()
    d = fresh("c01")
    os.chdir(d)
    os.mkdir("d.ir")
    try:
        for b in bases:
            for fr in frames:
                ts = [mk(x) for x in dicts]
                exp = [tvals(t) for t in ts]
                ok = fb.write_targets(ts, len(ts), b, fr)
                got = fb.read_targets(b, fr)
                r.add("transitions", 2)
                r.add("states")
                r.add("traces_validated_against_impl")
                r.outcome((len(got), b, len(str(fr))))
                if not ok:
                    r.fail("write_targets reported failure", True, ok, (dicts, b, fr))
                if not same_list(exp, got):
                    r.fail("targets differ after save and load", exp, [tvals(t) for t in got], (dicts, b, fr))
                if [tvals(t) for t in ts] != exp:
                    r.fail("saving altered the targets in memory", exp, [tvals(t) for t in ts], (dicts, b, fr))
                # a second generation is identical: what was loaded is written and loaded again
                if fr in (1, 10000):
                    fb.write_targets(got, len(got), b, fr)
                    again = fb.read_targets(b, fr)
                    r.add("transitions", 2)
                    if [tvals(t) for t in again] != [tvals(t) for t in got]:
                        r.fail("saving loaded targets again changed them", [tvals(t) for t in got], [tvals(t) for t in again], (dicts, b, fr))
    finally:
        os.chdir(cwd)
    r.sample(dict(targets=dicts, bases=bases, frames=frames))


SLOTS = [("cam1.%04d", 1), ("cam1.%04d", 11), ("cam2.%04d", 1), ("cam1", 1), ("cam1.%04d", 10001)]
LISTS = [[], [dict(BASE)], [dict(BASE, pnr=0, x=1.5), dict(BASE, pnr=1, y=2.5, tnr=-1)], [dict(BASE, pnr=i, sumg=i * 7) for i in range(3)]]


def c01_history(item, r):
    """A history of writes to several files: every read agrees with the model dict at every point."""
    d = fresh("c01h")
    model = {}
    for slot, li in item:
        b, fr = SLOTS[slot]
        ts = [mk(x) for x in LISTS[li]]
        fb.write_targets(ts, len(ts), os.path.join(d, b), fr)
        model[slot] = [tvals(t) for t in ts]
        r.add("transitions")
        r.add("states")
        for s, exp in model.items():
            got = fb.read_targets(os.path.join(d, SLOTS[s][0]), SLOTS[s][1])
            r.add("transitions")
            if not same_list(exp, got):
                r.fail(f"file {SLOTS[s]} changed or was not saved", exp, [tvals(t) for t in got], item)
    r.add("traces_validated_against_impl")
    r.outcome(tuple(sorted((s, len(v)) for s, v in model.items())))
    r.sample(dict(history=[(SLOTS[s], LISTS[l]) for s, l in item]))


def C01(ctx):
    ctx.rule = "every case writes a distinct list/name/frame/history and compares the reload with a list model"
    few_b, few_f = BASES[:3], [1, 9999, 10000]
    items = [([], BASES, FRAMES), ([BASE], BASES, FRAMES), ([dict(BASE, pnr=i, x=BASE["x"] + i) for i in range(3)], BASES, FRAMES)]
    # every field at every value, and every pair of fields
    for f in FIELDS:
        for v in ALPHA[f]:
            items.append(([dict(BASE, **{f: v})], few_b, few_f))
            items.append(([dict(BASE), dict(BASE, **{f: v}), dict(BASE, pnr=7)], few_b[:1], few_f[:2]))
    for f, g in itertools.combinations(FIELDS, 2):
        for v in ALPHA[f]:
            for w in ALPHA[g]:
                items.append(([dict(BASE, **{f: v, g: w})], few_b[:1], [12]))
    for v in itertools.product(*[[ALPHA[f][0], ALPHA[f][-1]] for f in FIELDS]):
        items.append(([dict(zip(FIELDS, v))], few_b[1:2], [3]))
    for f in ("x", "y"):
        items += [([dict(BASE, **{f: v}), dict(BASE, pnr=9)], few_b[:1], [12]) for v in decades(-6, 9)]
    for f in FIELDS:
        if f not in ("x", "y"):
            items += [([dict(BASE, **{f: v}), dict(BASE, pnr=9)], few_b[:1], [12]) for e in range(10) for v in (10 ** e - 1, 10 ** e, 3 * 10 ** e)]
    for n in (10, 100, 1000) + (20000,):  # list sizes
        items.append(([dict(BASE, pnr=i, x=i * 0.37, y=i * 1.01, n=i, tnr=i - 1) for i in range(n)], few_b[:1], [5]))
    for s in (0, 3000, 1e6):  # every ten-thousandth, most of which have no exact binary value
        items.append(([dict(BASE, pnr=i, x=s + i / 1e4, y=s + (i + 3000) / 1e4) for i in range(3000)], few_b[:1], [5]))
        items += [([dict(BASE, x=s + i / 1e4, y=s + (i + 1) / 1e4)], few_b[:1], [5]) for i in range(1, 400, 2)]
    ctx.cases(c01_roundtrip, items, batch=20)
    depth = 4
    acts = list(itertools.product(range(len(SLOTS)), range(4 if ctx.thorough else 3)))
    hist = list(itertools.product(acts, repeat=depth))
    ctx.notes["history_depth"] = depth
    ctx.cases(c01_history, hist)


# ------------------------------------------------------------------ C02
XA = [0.0, 0.0004, 0.0006, -12.3456, 99999.9994, -0.0001, 45.219]
LINKS = [-1, -2, 0, 1, 12345]


def mkframe(ncam, cap, parts, targs, extra=0):
    """parts: list of (x3, prev, next, prio, p4); targs: list per camera of target dicts."""
    f = Frame(ncam, cap)
    for i, (x, pv, nx, prio, p) in enumerate(parts):
        f.path_info[i].x = np.array(x, dtype=float)
        f.path_info[i].prev_frame, f.path_info[i].next_frame, f.path_info[i].prio = pv, nx, prio
        f.correspond[i].nr = i + 1
        f.correspond[i].p = p
    f.num_parts = len(parts)
    for c in range(ncam):
        for j, t in enumerate(targs[c]):
            f.targets[c][j] = mk(t)
        f.num_targets[c] = len(targs[c])
    return f


def frame_diff(parts, targs, f, links, prio):
    """Differences between the model record and a frame that was read."""
    if f.num_parts != len(parts) or len(f.path_info) < len(parts) or len(f.correspond) < len(parts):
        return f"particles {f.num_parts} != {len(parts)}"
    for i, (x, pv, nx, pr, p) in enumerate(parts):
        q = f.path_info[i]
        if not core.close(q.x, x, 0.5000001e-3):
            return f"particle {i} position {q.x} != {x}"
        want = (pv if links else -1, nx if links else -2)
        if (q.prev_frame, q.next_frame) != want:
            return f"particle {i} links {(q.prev_frame, q.next_frame)} != {want}"
        if links and prio and q.prio != pr:
            return f"particle {i} priority {q.prio} != {pr}"
        if list(f.correspond[i].p) != list(p):
            return f"particle {i} correspondences {list(f.correspond[i].p)} != {list(p)}"
        if int(f.correspond[i].nr) != i + 1:
            return f"particle {i} number {f.correspond[i].nr}"
        if q.inlist != 0:
            return f"particle {i} has {q.inlist} link candidates after loading"
    for c, ts in enumerate(targs):
        if f.num_targets[c] != len(ts) or not same_list([tvals(mk(t)) for t in ts], f.targets[c][: len(ts)]) or len(f.targets[c]) < len(ts):
            return f"camera {c} targets differ: {f.targets[c][:3]} != {ts[:3]}"
    pos = f.positions()
    if pos.shape != (len(parts), 3) or (len(parts) and not core.close(pos, [q[0] for q in parts], 0.5000001e-3)):
        return f"positions() {pos}"
    for c in range(len(targs)):
        if any(q[4][c] >= len(targs[c]) for q in parts):
            continue  # not a valid frame for that question
        t2 = f.target_positions_for_camera(c)
        for i, q in enumerate(parts):
            k = q[4][c]
            if k < 0:
                ok = np.all(np.isnan(t2[i]))
            else:
                ok = core.close(t2[i], [targs[c][k]["x"], targs[c][k]["y"]], 0.5000001e-4)
            if not ok:
                return f"2D position of particle {i} in camera {c}: {t2[i]}"
    return None


def names(d, ncam, prio=True):
    return (os.path.join(d, "rt_is"), os.path.join(d, "ptv_is"), os.path.join(d, "added") if prio else "",
            [os.path.join(d, f"cam{c}.%04d") for c in range(ncam)])


def c02_case(item, r):
    ncam, spare, parts, targs, prio, fr = item
    d = fresh("c02")
    n = names(d, ncam, prio)
    cap = max([len(parts)] + [len(t) for t in targs]) + spare
    f = mkframe(ncam, cap, parts, targs)
    ok = f.write(*n, fr)
    r.add("transitions")
    if not ok:
        r.fail("writing the frame was reported as failed", True, ok, item)
        return
    for links in (True, False):
        for cap2 in {0, cap, cap + 3}:
            g = Frame(ncam, cap2)
            if links:
                ok = g.read(*n, fr)
            else:
                ok = g.read(n[0], "", "", n[3], fr)
            r.add("transitions")
            r.add("traces_validated_against_impl")
            if not ok:
                r.fail("reading the frame was reported as failed", True, ok, item)
                return
            msg = frame_diff(parts, targs, g, links, prio)
            if msg:
                r.fail(f"frame differs after save and load (links={links}): {msg}", parts, None, item)
            # what was loaded can be saved and loaded again
            if links and cap2 == cap:
                d2 = os.path.join(d, "again")
                os.makedirs(d2, exist_ok=True)
                n2 = names(d2, ncam, prio)
                if not g.write(*n2, fr):
                    r.fail("saving a loaded frame failed", True, False, item)
                h = Frame(ncam, 2)
                h.read(*n2, fr)
                r.add("transitions", 2)
                msg = frame_diff(parts, targs, h, True, prio)
                if msg:
                    r.fail(f"frame differs in second generation: {msg}", parts, None, item)
    # reading particles only
    cor, path = fb.read_path_frame(n[0], n[1], n[2], fr)
    r.add("transitions")
    if len(cor) != len(parts) or len(path) != len(parts):
        r.fail("number of particles read", len(parts), (len(cor), len(path)), item)
    r.add("states")
    r.outcome((ncam, len(parts), spare, prio))
    r.sample(dict(cams=ncam, capacity=cap, particles=parts, targets=targs, prio_file=prio, frame=fr))


F2 = [
    ([], [[], []]),
    ([((1.0, 2.0, 3.0), -1, 0, 2, (0, 0, -1, -1))], [[dict(BASE)], [dict(BASE, x=1.0)]]),
    ([((4.0, 1.0, -1.0), 1, 0, 1, (-1, -1, -1, -1))], [[], [dict(BASE, x=1.0)]]),
    ([((1.5, 2.0, 3.0), 0, -2, 4, (1, 0, -1, -1)), ((-1.0, 0.0, 9.0), -1, 1, 0, (0, -1, -1, -1))], [[dict(BASE), dict(BASE, pnr=1)], [dict(BASE, y=7.0)]]),
]


def c02_history(item, r):
    """Writes and reads of two frame numbers, one reused Frame object: model dict of files."""
    d = fresh("c02h")
    n = names(d, 2)
    disk = {}
    f = Frame(2, 4)
    for op in item:
        r.add("transitions")
        r.add("states")
        if op[0] == "w":
            _, k, fr = op
            ok = mkframe(2, 4, *F2[k]).write(*n, fr)
            disk[fr] = F2[k]
            if not ok:
                r.fail("write failed", case=item)
        elif op[0] == "r":
            _, fr = op
            if fr not in disk:
                try:
                    ok = f.read(*n, fr)
                except (IOError, ValueError):
                    ok = False
                if ok:
                    r.fail(f"reading the missing frame {fr} succeeded", False, ok, item)
                continue
            ok = f.read(*n, fr)
            msg = frame_diff(*disk[fr], f, True, True)
            if not ok or msg:
                r.fail(f"frame {fr}: {msg}", disk[fr], None, item)
        elif op[0] == "m" and f.num_parts == len(f.path_info) and all(len(f.targets[c]) == f.num_targets[c] for c in (0, 1)):
            # copy what was loaded under another number
            _, fr = op
            src = [k for k, v in disk.items() if frame_diff(*v, f, True, True) is None]
            if src:
                val = disk[src[0]]
                f.write(*n, fr)
                disk[fr] = val
    for fr in disk:
        g = Frame(2, 1)
        g.read(*n, fr)
        msg = frame_diff(*disk[fr], g, True, True)
        if msg:
            r.fail(f"final content of frame {fr}: {msg}", disk[fr], None, item)
    r.add("traces_validated_against_impl")
    r.outcome(tuple(sorted((k, len(v[0])) for k, v in disk.items())))


def C02(ctx):
    ctx.rule = "each frame/capacity/history is distinct; compared with a record model after every read"
    T = [dict(BASE), dict(BASE, pnr=1, x=1.25, tnr=-1), dict(BASE, pnr=2, y=99.5, tnr=0)]
    items = []
    P = lambda x=(1.0, 2.0, 3.0), pv=-1, nx=-2, pr=2, p=(0, 0, 0, 0): (tuple(x), pv, nx, pr, tuple(p))
    for ncam in (1, 2, 3, 4):
        for npart in range(4):
            for spare in (0, 1, 5):
                for prio in (True, False):
                    for nt in range(3):
                        parts = [P((i + 0.125, -i, 2.5 * i), i - 1, (i + 1) % 3 - 2, i, [j % 3 if j < ncam else -1 for j in range(4)]) for i in range(npart)]
                        targs = [T[: (nt + c) % 4] for c in range(ncam)]
                        items.append((ncam, spare, parts, targs, prio, 7 + npart))
    for v in itertools.product(XA, repeat=2):  # positions
        for k in range(3):
            x = [1.0, 2.0, 3.0]
            x[k], x[(k + 1) % 3] = v
            items.append((2, 0, [P(x), P((0.5, 0.5, 0.5), 0, 0)], [T[:1], T[:2]], True, 3))
    for k in range(3):
        for v in decades(-5, 8):
            x = [1.0, 2.0, 3.0]
            x[k] = v
            items.append((1, 0, [P(x), P((0.5, 0.5, 0.5), 0, 0)], [T[:1]], True, 3))
    for k in range(1, 6000 if ctx.thorough else 1800, 3):  # every thousandth, most of which have no exact binary value
        items.append((1, 0, [P((k / 1000, -(k + 1) / 1000, 10 + (k + 2) / 1000))], [T[:1]], False, 3))
    for e in range(8):
        for v in (10 ** e - 1, 10 ** e, 3 * 10 ** e):
            items += [(1, 1, [q, P()], [T[:1]], True, 3) for q in (P(pv=v), P(nx=v), P(pr=v), P(p=(v, v, 0, -1)))]
    for pv, nx, pr in itertools.product(LINKS, LINKS, [0, 1, 2, 3, 4, 100]):
        for prio in (True, False):
            items.append((1, 1, [P(pv=pv, nx=nx, pr=pr), P((4.0, 5.0, 6.0), nx, pv, pr)], [T[:1]], prio, 10001))
    for a, b in itertools.product(itertools.product([-1, 0, 5], [-2, 1], [0, 4], [(-1, -1, -1, -1), (0, -1, -1, -1), (-1, 1, -1, -1), (0, 1, -1, -1)], [(0.0, 0.0, 0.0), (-7.5, 2.0, -3.0)]), repeat=2):
        for targs in ([T[:2], T], [T[:1], []], [[], []]) if a[0] == 0 and b[1] == 1 or ctx.thorough else ([T[:2], T],):  # what a particle is missing in every combination
            items.append((2, 1, [P(q[4], q[0], q[1], q[2], q[3]) for q in (a, b)], targs, True, 4))
    for p in itertools.product([-1, 0, 2, 12345], repeat=4):
        items.append((2, 0, [P(p=(2, 1, 0, -1)), P(p=p)], [T, T], True, 12))
    for fr in FRAMES:
        items.append((2, 1, [P()], [T[:2], T[:1]], True, fr))
    for npart in (9, 10, 99, 100, 101) + (1000,):
        items.append((2, 1, [P((i, i / 8, -i), i - 1, i + 1, i % 5, (i, i, -1, i)) for i in range(npart)], [T, T[:1]], True, 5))
    if True:
        for a, b in itertools.product(itertools.product(LINKS, LINKS, [0, 4], [-1, 3]), repeat=2):
            items.append((1, 0, [P(pv=a[0], nx=a[1], pr=a[2], p=(a[3], 0, 0, 0)), P(pv=b[0], nx=b[1], pr=b[2], p=(0, b[3], 0, 0))], [T[:1]], True, 2))
    ctx.cases(c02_case, items)
    ops = [("w", k, fr) for k in range(4) for fr in (1, 11)] + [("r", 1), ("r", 11), ("m", 1), ("m", 11)]
    depth = 5 if ctx.thorough else 4
    ctx.notes["history_depth"] = depth
    ctx.cases(c02_history, list(itertools.product(ops, repeat=depth)))


# ------------------------------------------------------------------ C03
CALF = dict(
    pos=[(0.0, 0.0, 0.0), (105.2632, 102.7458, 403.8822), (-1234.56789012, 0.00000001, 99999.5), (1e-9, -1e5, 3.25)],
    ang=[(0.0, 0.0, 0.0), (-0.2383291, 0.2442810, 0.0552577), (4.5, -4.5, 6.0), (-3.2, 1.6, 0.0), (3.14159265, -1.57079633, 0.5), (1.0, 2.0, -3.0), (0.000000014, 6.2, -6.2)],
    prim=[(0.0, 0.0, 0.0), (-2.4742, 3.2567, 100.0), (0.5, -0.25, -60.5), (1234567.5, 0.0, 1e6), (0.00004, -0.00006, 65.12345), (12345.6789, -1.0, 5.5)],
    glass=[(0.0, 0.0, 1.0), (20.0, 30.0, 45.0), (-20.0, -3.0, -45.5), (0.0, 150.0, 0.0), (0.0001, 0.00001, 150.0), (-1.5, 0.123456789012345, 7.0)],
    rad=[(0.0, 0.0, 0.0), (1e-8, -2e-8, 3e-8), (-1e-8, 2e-8, -3e-8), (-0.5, 0.0, -4.0), (0.12345678, -0.5, 3.0)],
    dec=[(0.0, 0.0), (-1e-8, 0.001), (0.5, -0.001), (0.25, -12.5)],
    aff=[(1.0, 0.0), (1.00000001, -0.001), (0.0, 1.0), (-1.0, -0.5), (0.5, 1.2)],
)
CALK = list(CALF)
PRECS = dict(pos=8, ang=8, prim=4, glass=15, rad=8, dec=8, aff=8)


def rot(o, p, k):
    """Rotation about x, then y, then z, from its definition."""
    cx, sx, cy, sy, cz, sz = np.cos(o), np.sin(o), np.cos(p), np.sin(p), np.cos(k), np.sin(k)
    X = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    Y = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    Z = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    return X @ Y @ Z


def mkcal(v):
    c = Calibration()
    c.set_pos(np.array(v["pos"], float))
    c.set_angles(np.array(v["ang"], float))
    c.set_primary_point(np.array(v["prim"], float))
    c.set_glass_vec(np.array(v["glass"], float))
    c.set_radial_distortion(np.array(v["rad"], float))
    c.set_decentering(np.array(v["dec"], float))
    c.set_affine_distortion(np.array(v["aff"], float))
    return c


def getcal(c):
    return dict(pos=c.get_pos(), ang=c.get_angles(), prim=c.get_primary_point(), glass=np.array(c.get_glass_vec()),
                rad=np.array(c.get_radial_distortion()), dec=np.array(c.get_decentering()), aff=np.array(c.get_affine()))


def cal_diff(v, c, add=True):
    g = getcal(c)
    for k in CALK:
        e = v[k]
        if not add and k in ("rad", "dec", "aff"):
            e = dict(rad=(0, 0, 0), dec=(0, 0), aff=(1, 0))[k]
        if not core.close(g[k], e, 0.5000001 * 10.0 ** -PRECS[k] + 1e-13 * max(1, *np.abs(e))):
            return f"{k}: {g[k]} != {e}"
    if not core.close(c.get_rotation_matrix(), rot(*c.get_angles()), 1e-12):
        return f"rotation matrix {c.get_rotation_matrix()} does not belong to {c.get_angles()}"
    return None


def c03_case(item, r):
    v = dict(zip(CALK, item))
    d = fresh("c03")
    writers = [("Calibration.write", lambda c, o, a: c.write(str(o), str(a) if a else None)),
               ("write_calibration", lambda c, o, a: cal_mod.write_calibration(c, str(o), str(a) if a else None)),
               ("write_ori", lambda c, o, a: cal_mod.write_ori(c.ext_par, c.int_par, c.glass_par, c.added_par, str(o), str(a) if a else None))]
    readers = [("from_file", Calibration.from_file), ("instance from_file", lambda o, a: Calibration().from_file(o, a)), ("read_calibration", cal_mod.read_calibration), ("read_ori", cal_mod.read_ori)]
    for (wn, w), add in itertools.product(writers, (True, False)):
        c = mkcal(v)
        o, a = Path(d) / f"{wn}{add}.ori", (Path(d) / f"{wn}{add}.addpar") if add else None
        res = w(c, o, a)
        if res is not None and not res:
            r.fail(f"{wn} reported failure though it saved the calibration (distortion file: {add})", True, res, v)
        m = cal_diff(v, c)
        if m:
            r.fail(f"{wn} altered the calibration: {m}", case=v)
        for rn, rd in readers:
            g = rd(o, a)
            r.ev()
            m = cal_diff(v, g, add)
            if m:
                r.fail(f"{rn} after {wn} (distortion file: {add}): {m}", case=v)
        if wn == "Calibration.write":
            # fixpoint: loaded -> saved -> loaded changes nothing and the files repeat
            o2, a2, o3, a3 = Path(d) / "2.ori", Path(d) / "2.addpar", Path(d) / "3.ori", Path(d) / "3.addpar"
            g = Calibration.from_file(o, a)
            g.write(str(o2), str(a2))
            h = Calibration.from_file(o2, a2)
            h.write(str(o3), str(a3))
            r.ev(n=2)
            if not cal_mod.compare_calibration(g, h):
                r.fail("a loaded calibration changes when saved and loaded again", getcal(g), getcal(h), v)
            if o2.read_text() != o3.read_text() or a2.read_text() != a3.read_text():
                r.fail("saving a loaded calibration does not reproduce its files", o2.read_text(), o3.read_text(), v)
    r.outcome(str(item)[:60])
    r.sample(v)


def c03_decade(item, r):
    """One parameter at one order of magnitude."""
    k, i, x = item
    v = {q: CALF[q][1] for q in CALK}
    v[k] = tuple(x if j == i else y for j, y in enumerate(v[k]))
    d = fresh("c03d")
    o, a = Path(d) / "c.ori", Path(d) / "c.addpar"
    mkcal(v).write(str(o), str(a))
    g = Calibration.from_file(o, a)
    r.ev()
    m = cal_diff(v, g)
    if m:
        r.fail(f"from_file after Calibration.write: {m}", case=v)
    r.outcome(item)


def c03_compare(item, r):
    """Comparison tells calibrations apart in each single parameter."""
    v = {k: CALF[k][1] for k in CALK}
    k, i, delta = item
    a, b = mkcal(v), mkcal(v)
    r.ev()
    if not cal_mod.compare_calibration(a, b) or not cal_mod.compare_calibration(a, a):
        r.fail("equal calibrations compare different", True, False, v)
    w = dict(v)
    w[k] = tuple(x + delta if j == i else x for j, x in enumerate(v[k]))
    for x, y in ((a, mkcal(w)), (mkcal(w), a)):
        r.ev()
        if cal_mod.compare_calibration(x, y):
            r.fail(f"calibrations differing in {k}[{i}] by {delta} compare equal", False, True, item)
    for name, fn, part in (("compare_exterior", cal_mod.compare_exterior, "ext_par"), ("compare_interior", cal_mod.compare_interior, "int_par"),
                           ("compare_glass", cal_mod.compare_glass, "glass_par"), ("compare_addpar", cal_mod.compare_addpar, "added_par")):
        mine = dict(pos="ext_par", ang="ext_par", prim="int_par", glass="glass_par", rad="added_par", dec="added_par", aff="added_par")[k] == part
        got = bool(fn(getattr(a, part), getattr(mkcal(w), part)))
        r.ev()
        if got == mine:
            r.fail(f"{name} says equal={got} when {k}[{i}] differs by {delta}", not mine, got, item)
    r.outcome((k, i))


def C03(ctx):
    ctx.rule = "distinct parameter combinations; each saved by every writer and loaded by every reader"
    items = set()
    base = [CALF[k][1] for k in CALK]
    for a, b in itertools.combinations(range(len(CALK)), 2):
        for v in CALF[CALK[a]]:
            for w in CALF[CALK[b]]:
                x = list(base)
                x[a], x[b] = v, w
                items.add(tuple(x))
    for x in itertools.product(*[(CALF[k][0], CALF[k][-1]) for k in CALK]):
        items.add(x)
    few = {k: (CALF[k][:3] if ctx.thorough else CALF[k][1:3]) + CALF[k][-1:] for k in CALK}  # the third value of each alphabet has the opposite signs
    items |= set(itertools.product(*[few[k] for k in CALK]))
    ctx.cases(c03_case, sorted(items))
    ctx.cases(c03_decade, [(k, i, x) for k in CALK for i in range(len(CALF[k][0])) for x in decades(-PRECS[k] - 1, 6, (1.0, 3.7, 9.99961) if ctx.thorough else (1.0, 6.4))
                           if (k != "ang" or abs(x) < 7) and not (k == "glass" and abs(x) < 1e-14)])
    ctx.cases(c03_compare, [(k, i, dl) for k in CALK for i in range(len(CALF[k][0])) for dl in (1e-5, 1.0, -0.5)])


# ------------------------------------------------------------------ C04
def cams(n, pre):
    return [f"{pre}{i}.%04d" for i in range(n)]


def par_specs(n):
    """class -> (fields with alphabets, legacy text form or None)."""
    F = [0.0, -20.5, 0.00001, 123456.789, 1e-9, 1e12]
    I = [0, 1, 7, 12345]
    lines = lambda *a: "".join(f"{x}\n" for x in a)
    S = {}
    S["MultimediaPar"] = (dict(nlay=[1, 2, 3], n1=[1.0, 1.2, 1.33], n2=[[1.0], [1.46], [1.46, 1.5]], d=[[0.0], [6.0], [6.0, 1.5]], n3=[1.0, 1.33, 1.5]), None)
    S["SequencePar"] = (dict(img_base_name=[cams(n, "dumbbell/cam_"), cams(n, "a b/"), [""] * n, ["123"] * n], first=I + [10001], last=I + [99999]),
                        lambda p: lines(*p.img_base_name, p.first, p.last))
    S["TrackPar"] = (dict(dvxmin=F, dvxmax=F, dvymin=F, dvymax=F, dvzmin=F, dvzmax=F, dangle=F, dacc=F, add=[0, 1], dsumg=F, dn=F, dnx=F, dny=F),
                     lambda p: lines(p.dvxmin, p.dvxmax, p.dvymin, p.dvymax, p.dvzmin, p.dvzmax, p.dangle, p.dacc, p.add))
    S["VolumePar"] = (dict(x_lay=[[-250.0, 250.0], [0.0, 1e-5], [1.5, -2.5]], z_min_lay=[[-100.0, -99.5], [0.0, 1.0]], z_max_lay=[[100.0, 200.25], [0.0, -1.0]],
                           cn=F, cnx=F, cny=F, csumg=F, eps0=F, corrmin=F),
                      lambda p: lines(p.x_lay[0], p.z_min_lay[0], p.z_max_lay[0], p.x_lay[1], p.z_min_lay[1], p.z_max_lay[1], p.cnx, p.cny, p.cn, p.csumg, p.corrmin, p.eps0))
    S["ControlPar"] = (dict(num_cams=[n], img_base_name=[cams(n, "img/cam"), [f"x{i}" for i in range(n)]], cal_img_base_name=[cams(n, "cal/cam"), ["-"] * n],
                            hp_flag=[0, 1, 2], all_cam_flag=[0, 1], tiff_flag=[0, 1], imx=[1280, 1, 4096], imy=[1024, 1, 99], pix_x=[0.017, 1e-5, 2.5], pix_y=[0.013, 1.0],
                            chfield=[0, 1, 2], mm=[("mm", 1.0, 1.46, 1.33, 6.0), ("mm", 1.1, 1.49, 1.0, 0.0), ("mm", 1.0, 1.0, 1.0, 0.5)]),
                       lambda p: lines(p.num_cams, *[x for i in range(p.num_cams) for x in (p.img_base_name[i], p.cal_img_base_name[i])], p.hp_flag, p.all_cam_flag,
                                       p.tiff_flag, p.imx, p.imy, p.pix_x, p.pix_y, p.chfield, p.mm.n1, p.mm.n2[0], p.mm.n3, p.mm.d[0]))
    S["TargetPar"] = (dict(gvthresh=[[2, 3, 4, 5], [0, 0, 0, 0], [255, 1, 10, 100]], discont=I, nnmin=I, nnmax=I, nxmin=I, nxmax=I, nymin=I, nymax=I, sumg_min=I, cr_sz=I),
                      lambda p: lines(*p.gvthresh, p.discont, p.nnmin, p.nnmax, p.nxmin, p.nxmax, p.nymin, p.nymax, p.sumg_min, p.cr_sz))
    of = ["useflag", "ccflag", "xhflag", "yhflag", "k1flag", "k2flag", "k3flag", "p1flag", "p2flag", "scxflag", "sheflag", "interfflag"]
    S["OrientPar"] = ({f: [0, 1, 2, 3] for f in of}, lambda p: lines(*[getattr(p, f) for f in of]))
    S["CalibrationPar"] = (dict(fixp_name=["cal/target.txt", ""], img_name=[cams(n, "cal/c"), ["a"] * n], img_ori0=[cams(n, "cal/o"), ["b"] * n], tiff_flag=[0, 1], pair_flag=[0, 1], chfield=[0, 1, 2]),
                           lambda p: lines(p.fixp_name, *[x for i in range(n) for x in (p.img_name[i], p.img_ori0[i])], p.tiff_flag, p.pair_flag, p.chfield))
    S["MultiPlanesPar"] = (dict(num_planes=[n], filename=[cams(n, "plane"), ["z"] * n]), lambda p: lines(p.num_planes, *p.filename))
    S["ExaminePar"] = (dict(examine_flag=[False, True], combine_flag=[False, True]), lambda p: lines(int(p.examine_flag), int(p.combine_flag)))
    S["PftVersionPar"] = (dict(existing_target_flag=[False, True]), lambda p: lines(int(p.existing_target_flag)))
    return S


def mkpar(cls, vals):
    v = {}
    for k, x in vals.items():
        if isinstance(x, (tuple, list)) and len(x) == 5 and x[0] == "mm":
            x = par.MultimediaPar(nlay=1, n1=x[1], n2=[x[2]], n3=x[3], d=[x[4]])
        v[k] = list(x) if isinstance(x, list) else x
    return getattr(par, cls)(**v)


def plain(p):
    """Field values, independent of the library's equality."""
    out = {}
    for k in p.__dataclass_fields__:
        x = getattr(p, k)
        if hasattr(x, "__dataclass_fields__"):
            x = (type(x).__name__, plain(x))
        elif isinstance(x, list):
            x = ("list", list(x))
        else:
            x = (type(x).__name__ if isinstance(x, (bool, str)) else "num" if isinstance(x, (int, float)) else type(x).__name__, x)
        out[k] = x
    return out


COMPARE = dict(SequencePar="compare_sequence_par", TrackPar="compare_track_par", VolumePar="compare_volume_par", ControlPar="compare_control_par",
               TargetPar="compare_target_par", MultimediaPar="compare_mm_np")
READ = dict(SequencePar=lambda f, n: par.read_sequence_par(f, n), TrackPar=lambda f, n: par.read_track_par(f), VolumePar=lambda f, n: par.read_volume_par(f),
            ControlPar=lambda f, n: par.read_control_par(f), TargetPar=lambda f, n: par.read_target_par(f), CalibrationPar=lambda f, n: par.read_cal_ori_parameters(f, n),
            ExaminePar=lambda f, n: par.read_examine_par(f))


def c04_case(item, r):
    n, cls, vals = item
    d = Path(fresh("c04"))
    C = getattr(par, cls)
    legacy = par_specs(n)[cls][1]
    p = mkpar(cls, vals)
    want = plain(p)
    if cls == "MultimediaPar" and len(vals["n2"]) != len(vals["d"]):
        return
    # dictionary
    dic = C.to_dict(p)
    snapshot = yaml.safe_dump(dic)
    q = C.from_dict(dic)
    r.ev()
    if plain(q) != want:
        r.fail(f"{cls}: dictionary form", want, plain(q), item)
    # a dictionary may leave fields out (they take their defaults); reading must not complete it either
    for k in list(dic) + (["mm." + x for x in dic["mm"]] if "mm" in dic else []):
        part = yaml.safe_load(snapshot)
        del (part["mm"] if k.startswith("mm.") else part)[k[3:] if k.startswith("mm.") else k]
        if cls == "MultimediaPar" and k in ("n2", "d") or k in ("mm.n2", "mm.d"):  # these two belong together
            for x in ("n2", "d"):
                (part["mm"] if k.startswith("mm.") else part).pop(x, None)
        text = yaml.safe_dump(part)
        q = C.from_dict(part)
        r.ev()
        if yaml.safe_dump(part) != text:
            r.fail(f"{cls}: reading altered a dictionary without {k}", text, repr(part), item)
        missing = set(k_ for k_ in dic if k_ not in part)
        fresh_, got_ = plain(C()), plain(q)
        if cls == "ControlPar":
            missing.add("mm")
        if any(got_[x] != (fresh_[x] if x in missing else want[x]) for x in want if x != "mm"):
            r.fail(f"{cls}: a dictionary without {k} is read wrong", want, got_, item)
    if yaml.safe_dump(dic) != snapshot:
        r.fail(f"{cls}: reading altered the dictionary it was given", snapshot, repr(dic), item)
    if plain(C.from_dict(dic)) != want:
        r.fail(f"{cls}: reading the same dictionary twice", want, None, item)
    if plain(p) != want:
        r.fail(f"{cls}: saving altered the object", want, plain(p), item)
    # yaml
    f = d / "p.yaml"
    p.to_yaml(f)
    text = f.read_text()
    for q in (C.from_yaml(f), C().from_yaml(f)):
        r.ev()
        if plain(q) != want:
            r.fail(f"{cls}: YAML form", want, plain(q), item)
        if not (q == p):
            r.fail(f"{cls}: object loaded from YAML does not equal the saved one", want, plain(q), item)
    if f.read_text() != text:
        r.fail(f"{cls}: reading altered the YAML file", case=item)
    # legacy text
    if legacy:
        f = d / "p.par"
        if cls == "TargetPar":
            par.write_target_par(p, str(f))
        elif cls == "PftVersionPar":
            p.write(f)
        else:
            f.write_text(legacy(p))
        want2 = dict(want)
        if cls == "TrackPar":
            want2.update({k: ("num", 0.0) for k in ("dsumg", "dn", "dnx", "dny")})
        args = (f, n) if cls in ("SequencePar", "CalibrationPar") else (f,)
        text = f.read_text()
        got = [C.from_file(*args), C().from_file(*args)]
        if cls in READ:
            got.append(READ[cls](f, n))
        for q in got:
            r.ev()
            if plain(q) != want2:
                r.fail(f"{cls}: text file form", want2, plain(q), item)
        if f.read_text() != text:
            r.fail(f"{cls}: reading altered the file", case=item)
        if cls in ("TargetPar",):
            f2 = d / "q.par"
            par.write_target_par(got[0], str(f2))
            if f2.read_text() != text:
                r.fail(f"{cls}: second generation differs", text, f2.read_text(), item)
    if cls == "TrackPar":
        t = par.convert_track_par_to_tuple(p)
        for k in want:
            if getattr(t, k) != getattr(p, k):
                r.fail(f"TrackPar tuple form field {k}", getattr(p, k), getattr(t, k), item)
    r.outcome(cls)
    r.sample(dict(cls=cls, cams=n, values=vals))


def c04_differ(item, r):
    """Equality and comparison functions tell apart objects differing in one field."""
    n, cls, field, va, vb = item
    specs = par_specs(n)[cls][0]
    base = {k: v[0] for k, v in specs.items()}
    if cls == "MultimediaPar":
        base["n2"], base["d"] = [1.46, 1.5], [6.0, 1.5]
    a, b, c = (mkpar(cls, dict(base, **{field: v})) for v in (va, vb, va))
    r.ev(n=2)
    if a == b or not (a == c):
        r.fail(f"{cls}: equality wrong when {field} is {va} / {vb}", case=item)
    if cls in COMPARE:
        f = getattr(par, COMPARE[cls])
        r.ev(n=3)
        if f(a, b) or f(b, a) or not f(a, c):
            r.fail(f"{COMPARE[cls]}: wrong when {field} is {va} / {vb}", case=item)


def c04_missing(item, r):
    """A missing file is reported by an I/O error, never by another error or success of required sets."""
    cls = item
    f = Path(core.scratch("c04m")) / "no_such.par"
    C = getattr(par, cls)
    args = (f, 2) if cls in ("SequencePar", "CalibrationPar") else (f,)
    r.ev()
    try:
        C.from_file(*args)
        if cls not in ("TargetPar", "OrientPar"):  # these two document a warning and defaults
            r.fail(f"{cls}: reading a missing file succeeded", case=cls)
    except IOError:
        pass
    except TypeError as e:
        r.fail(f"{cls}: reading a missing file raised {e!r}", "IOError", e, cls)


def C04(ctx):
    ctx.rule = "distinct (class, camera count, field values); each through every supported form"
    items, diff = [], []
    for n in (1, 2, 3, 4):
        for cls, (fields, _) in par_specs(n).items():
            if n > 1 and cls not in ("SequencePar", "ControlPar", "CalibrationPar", "MultiPlanesPar"):
                continue
            base = {}  # a base object in which every field has a different value, so that swaps show
            for i, (k, v) in enumerate(fields.items()):
                base[k] = v[0]
                if isinstance(v[0], float):
                    base[k] = 1.5 + i
                elif isinstance(v[0], int) and not isinstance(v[0], bool) and k not in ("num_cams", "num_planes", "add") and "flag" not in k:
                    base[k] = 11 + i
            if cls == "MultimediaPar":
                combos = [dict(zip(fields, x)) for x in itertools.product(*fields.values())]
                items += [(n, cls, x) for x in combos if len(x["n2"]) == len(x["d"])]
            else:
                items.append((n, cls, base))
                ks = list(fields)
                if n == 1:  # every order of magnitude of every number
                    for k in ks:
                        if isinstance(fields[k][0], float):
                            items += [(n, cls, dict(base, **{k: x})) for x in decades(-9, 12, (1.0, 3.7) if ctx.thorough else (3.7,))]
                        elif isinstance(fields[k][0], list) and isinstance(fields[k][0][0], float):
                            items += [(n, cls, dict(base, **{k: [a, b]})) for x in decades(-9, 12, (3.7,)) for a, b in ((x, 1.0), (1.0, x))]
                        elif isinstance(base[k], int) and not isinstance(base[k], bool) and k != "add" and "flag" not in k and len(fields[k]) > 3:
                            items += [(n, cls, dict(base, **{k: x})) for e in range(10) for x in (10 ** e, 10 ** e - 1)]
                for a, b in itertools.combinations(ks, 2) if len(ks) > 1 else [(ks[0], ks[0])]:
                    for v in fields[a]:
                        for w in fields[b]:
                            items.append((n, cls, dict(base, **{a: v, b: w})))
                if cls == "OrientPar":
                    items += [(n, cls, dict(zip(ks, x))) for x in itertools.product((0, 1), repeat=12)]
            if n in (1, 3):
                for k, v in fields.items():
                    vals = v
                    if cls == "MultimediaPar" and k in ("n2", "d"):
                        vals = [[1.46, 1.5], [1.46, 1.6], [1.4, 1.5]]
                    if k == "mm":
                        vals = [("mm", 1.0, 1.46, 1.33, 6.0), ("mm", 1.1, 1.46, 1.33, 6.0), ("mm", 1.0, 1.47, 1.33, 6.0), ("mm", 1.0, 1.46, 1.3, 6.0), ("mm", 1.0, 1.46, 1.33, 5.0)]
                    if k in ("num_cams", "num_planes"):
                        vals = [n, n + 1]
                    diff += [(n, cls, k, a, b) for a, b in itertools.combinations(vals, 2)]
    ctx.cases(c04_case, items)
    ctx.cases(c04_differ, diff)
    ctx.cases(c04_missing, [c for c in par_specs(1) if c != "MultimediaPar"])


# ------------------------------------------------------------------ C05
def with_limit(limit, fn):
    """Run fn with the file size limited to `limit` bytes (EFBIG stands for a full disk). Returns (outcome, value)."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    try:
        try:
            v = fn()
            return ("ok" if v is None or v else "failure", v)
        except OSError as e:
            return ("raised", e)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


C5P = [((1.25, -2.5, 3.0), -1, 1, 2, (0, 1, -1, -1)), ((7.0, 8.125, -9.5), 1, 0, 0, (1, 0, -1, -1)), ((0.5, 100.0, 0.0), -1, -2, 4, (2, -1, -1, -1))]
C5T = [[dict(BASE, pnr=i, x=1.5 * i, tnr=i) for i in range(3)], [dict(BASE, pnr=i, y=2.5 * i, tnr=1 - i) for i in range(2)]]


def c05_write(item, r):
    """Every byte offset of every file: a save that cannot be completed does not report success."""
    kind, npart, limit = item
    d = fresh("c05")
    if kind == "targets":
        ts = [mk(t) for t in C5T[0][:npart]]
        out, v = with_limit(limit, lambda: fb.write_targets(ts, len(ts), os.path.join(d, "c.%04d"), 5))
        chk = lambda: same_list([tvals(t) for t in ts], fb.read_targets(os.path.join(d, "c.%04d"), 5))
    elif kind in ("frame", "frame_noprio", "frame_notargets"):
        T5 = [[], []] if kind == "frame_notargets" else [t[: npart + c] for c, t in enumerate(C5T)]  # without targets the particle files are the longest ones
        f = mkframe(2, 3, C5P[:npart], T5)
        n = names(d, 2, kind != "frame_noprio")
        out, v = with_limit(limit, lambda: f.write(*n, 5))

        def chk():
            g = Frame(2, 3)
            return g.read(*n, 5) and frame_diff(C5P[:npart], T5, g, True, kind != "frame_noprio") is None
    else:
        v0 = {k: CALF[k][1] for k in CALK}
        c = mkcal(v0)
        o, a = Path(d) / "c.ori", (Path(d) / "c.addpar" if kind == "cal" else None)
        w = (lambda: c.write(str(o), str(a) if a else None)) if npart else (lambda: cal_mod.write_calibration(c, str(o), str(a) if a else None))
        out, v = with_limit(limit, w)
        chk = lambda: cal_diff(v0, Calibration.from_file(o, a), a is not None) is None
    if out == "ok":
        try:
            good = chk()
        except Exception as e:
            good = False
            v = e
        if not good:
            r.fail(f"saving {kind} reported success although only {limit} bytes per file could be written", "failure or exception", v, item)
    r.ev(out != "ok")
    r.outcome((kind, out))
    r.sample(dict(kind=kind, particles=npart, byte_limit=limit, outcome=out))


def c05_dir(item, r):
    """Each output file in turn in a directory that does not exist."""
    which, cams_ = item
    d = fresh("c05d")
    n = list(names(d, cams_))
    bad = os.path.join(d, "missing", "x")
    if which < 3:
        n[which] = bad
    else:
        n[3] = list(n[3])
        n[3][which - 3] = bad + "%04d"
    f = mkframe(cams_, 3, C5P, [t for t in C5T] + [[]] * (cams_ - 2))
    try:
        ok = bool(f.write(*n, 5))
    except OSError:
        ok = False
    r.ev()
    if ok:
        r.fail(f"writing a frame reported success with output file {which} in a missing directory", False, ok, item)
    if which >= 3:
        try:
            ok = bool(fb.write_targets([mk(BASE)], 1, bad, 5))
        except OSError:
            ok = False
        if ok:
            r.fail("write_targets reported success in a missing directory", case=item)
    # FrameBuf as well
    b = FrameBuf(2, cams_, 3, n[0], n[1], n[2], n[3])
    b.buf[0] = f
    try:
        ok = b.write_frame_from_start(5)
    except OSError:
        ok = False
    r.ev()
    if ok:
        r.fail(f"saving from the buffer reported success with output file {which} in a missing directory", False, ok, item)
    r.outcome(("dir", which))


def c05_full(item, r):
    """Any set of the output files on a full device (/dev/full: the file opens, its data never arrive)."""
    n, files, entry = item
    d = fresh("c05x")
    nm = names(d, 2)
    parts = [((i * 0.5, -i, 1.0), -1, i, 2, (i, -1, -1, -1)) for i in range(n)]
    targs = [[dict(BASE, pnr=i, x=i * 0.5) for i in range(n)], [dict(BASE)]]
    paths = [nm[0] + ".5", nm[1] + ".5", nm[2] + ".5", nm[3][0] % 5 + "_targets", nm[3][1] % 5 + "_targets"]
    for k in files:
        os.symlink("/dev/full", paths[k])
    f = mkframe(2, max(n, 1), parts, targs)
    try:
        if entry == "frame":
            ok = f.write(*nm, 5)
        elif entry == "path":
            ok = fb.write_path_frame(f.correspond, f.path_info, n, nm[0], nm[1], nm[2], 5)
        elif entry == "buffer":
            b = FrameBuf(2, 2, max(n, 1), *nm)
            b.buf[0] = f
            ok = b.write_frame_from_start(5)
        else:
            ok = fb.write_targets(f.targets[0][:n], n, nm[3][0], 5)
    except OSError:
        ok = False
    used = set(files) & ({3} if entry == "targets" else {0, 1, 2} if entry == "path" else {0, 1, 2, 3, 4})
    r.ev(bool(used))
    if bool(ok) == bool(used):
        r.fail(f"{entry}: saving {n} items reported {bool(ok)} with files {sorted(used)} on a full device", not used, ok, item)
    r.outcome(("full", entry, bool(ok), len(used)))


def c05_cut_targets(item, r):
    """Target lists in every numbering, cut behind every line and field: reading fails or gives the saved list."""
    pnrs, tnrs = item
    d = fresh("c05t")
    ts = [mk(dict(BASE, pnr=p, x=1.5 * i, tnr=t)) for i, (p, t) in enumerate(zip(pnrs, tnrs))]
    exp = [tvals(t) for t in ts]
    base = os.path.join(d, "c.%04d")
    fb.write_targets(ts, len(ts), base, 5)
    name = base % 5 + "_targets"
    full = open(name).read()
    for c in cuts(full) + [len(full)]:
        with open(name, "w") as f:
            f.write(full[:c])
        try:
            got = fb.read_targets(base, 5)
        except (IOError, ValueError, IndexError):
            got = None
        r.ev(got is None)
        if got is None and c == len(full):
            r.fail("a complete target file is refused", exp, None, item)
        if got is not None and not same_list(exp, got):
            r.fail(f"a target file cut at byte {c} of {len(full)} is read as a good one", exp, [tvals(t) for t in got], item)
    r.outcome(("cut", len(ts)))


def cuts(text):
    """Every proper truncation of a file at the end of a line or of a field."""
    out = []
    pos = 0
    for line in text.splitlines(True):
        toks = [i + 1 for i in range(len(line) - 1) if not line[i].isspace() and line[i + 1].isspace()]
        for t in toks[:-1]:
            out.append(pos + t)
        out.append(pos)
        pos += len(line)
    return sorted(set(c for c in out if c < len(text)))


def c05_read(item, r):
    """Each input file truncated at each line/field end, or absent: reading fails or gives exactly the saved data."""
    npart, links, which, cut = item
    d = fresh("c05r")
    n = names(d, 2)
    targs = [t[: npart + 0 if c == 0 else 2] for c, t in enumerate(C5T)]
    mkframe(2, 3, C5P[:npart], targs).write(*n, 5)
    files = [n[0] + ".5", n[1] + ".5", n[2] + ".5", n[3][0] % 5 + "_targets", n[3][1] % 5 + "_targets"]
    full = open(files[which]).read()
    if cut == -1:
        os.remove(files[which])
    else:
        c = cuts(full)
        if cut >= len(c):
            return
        with open(files[which], "w") as f:
            f.write(full[: c[cut]])
    used = links or which not in (1, 2)

    def judge(name, g, ok):
        if ok and frame_diff(C5P[:npart], targs, g, links, links) is not None:
            r.fail(f"{name} returned wrong data from a damaged file {os.path.basename(files[which])}", "failure, or the saved frame", frame_diff(C5P[:npart], targs, g, links, links), item)
        if not used and not ok:
            r.fail(f"{name} failed though the damaged file {os.path.basename(files[which])} is not needed", True, ok, item)
        if used and ok and cut == -1:
            r.fail(f"{name} succeeded though {os.path.basename(files[which])} is missing", False, ok, item)

    g = Frame(2, 3)
    try:
        ok = g.read(*n, 5) if links else g.read(n[0], "", "", n[3], 5)
    except (IOError, ValueError, IndexError):
        ok = False
    r.ev()
    judge("Frame.read", g, bool(ok))
    for way in ("read_frame_at_end", "disk_read_frame_at_end"):
        b = FrameBuf(3, 2, 3, *n)
        try:
            ok = getattr(b, way)(5, links)
            ok = True if way == "read_frame_at_end" else bool(ok)
        except (IOError, ValueError, IndexError):
            ok = False
        r.ev()
        judge(way, b.buf[-1], ok)
    r.outcome(("read", which, ok, cut == -1))
    r.sample(dict(damaged=os.path.basename(files[which]), cut=cut, particles=npart, links=links, accepted=ok))


def C05(ctx):
    ctx.rule = "one fault per case (byte limit on the files, missing directory, truncation point, missing file); non-trivial: the fault takes effect"
    items = []
    for kind, npart in itertools.product(("targets", "frame", "frame_noprio", "frame_notargets"), (0, 1, 3)):
        top = 260 if npart == 3 else 140
        items += [(kind, npart, b) for b in range(0, top)]
    for kind, npart in itertools.product(("cal", "cal_noadd"), (0, 1)):
        items += [(kind, npart, b) for b in range(0, 420)]
    ctx.cases(c05_write, items)
    # long files: the limit is met only when buffers are flushed, so go through block boundaries
    ctx.cases(c05_big, [(k, n, b) for k in ("targets", "frame") for n in (200, 1000) for b in list(range(0, 70000, 1024 if ctx.thorough else 4096)) + [8191, 8192, 8193, 16383, 16384, 16385]])
    subsets = [s for k in range(6) for s in itertools.combinations(range(5), k)]
    ctx.cases(c05_full, [(n, s, e) for n in (0, 1, 3, 300) for s in subsets for e in ("frame", "path", "buffer", "targets")])
    nums = [-1, 0, 1, 2, 7]
    ctx.cases(c05_cut_targets, [(p, t) for k in (0, 1, 2, 3) for p in (list(itertools.permutations(range(k))) + [(-1,) * k, (5,) * k]) for t in itertools.product(nums, repeat=k)]
              + [(p, (-1, 0, 1, 2)) for p in itertools.permutations(range(4))])
    ctx.cases(c05_dir, [(w, c) for c in (2, 3, 4) for w in range(3 + c)])
    ctx.cases(c05_read, [(p, l, w, c) for p in (0, 1, 2, 3) for l in (True, False) for w in range(5) for c in range(-1, 30)])
    ctx.assumptions.append("a full disk is represented by a file size limit (EFBIG), which makes write/close fail at any byte")


def c05_big(item, r):
    kind, n, limit = item
    d = fresh("c05b")
    ts = [mk(dict(BASE, pnr=i, x=i * 0.5)) for i in range(n)]
    exp = [tvals(t) for t in ts]
    if kind == "targets":
        out, v = with_limit(limit, lambda: fb.write_targets(ts, n, os.path.join(d, "c.%04d"), 5))
        chk = lambda: same_list(exp, fb.read_targets(os.path.join(d, "c.%04d"), 5))
    else:
        parts = [((i * 0.5, -i, 1.0), -1, i, 2, (i, -1, -1, -1)) for i in range(n)]
        f = mkframe(1, n, parts, [[]])
        nm = names(d, 1)
        out, v = with_limit(limit, lambda: f.write(*nm, 5))

        def chk():
            g = Frame(1, 1)
            return g.read(*nm, 5) and frame_diff(parts, [[]], g, True, True) is None
    if out == "ok":
        try:
            good = chk()
        except Exception as e:
            good = False
            v = e
        if not good:
            r.fail(f"saving {n} items ({kind}) reported success although only {limit} bytes per file could be written", "failure or exception", v, item)
    r.ev(out != "ok")
    r.outcome((kind, n, out))


# ------------------------------------------------------------------ C06
C6 = {
    1: ([((1.0, 1.0, 1.0), -1, 0, 0, (0, 0, -1, -1))], [[dict(BASE, pnr=0, x=1.0)], [dict(BASE, pnr=0, x=11.0)]]),
    2: ([((2.0, 2.0, 2.0), 0, 1, 2, (0, 1, -1, -1)), ((2.5, 2.0, 2.0), -1, -2, 4, (1, -1, -1, -1))],
        [[dict(BASE, pnr=0, x=2.0), dict(BASE, pnr=1, x=22.0)], [dict(BASE, pnr=0, x=3.0), dict(BASE, pnr=1, x=33.0)]]),
    3: ([], [[dict(BASE, pnr=0, x=5.0)], []]),
    4: ([((4.0, 1.0, -1.0), 1, -2, 1, (-1, -1, -1, -1)), ((4.5, 1.0, -1.0), -1, 3, 4, (-1, 0, -1, -1))], [[], [dict(BASE, pnr=0, x=44.0, tnr=1)]]),
}


def unlink(rec):
    parts, targs = rec
    return ([(x, -1, -2, 4, p) for x, _, _, _, p in parts], targs)


def slot_diff(rec, f):
    if rec is None:
        return None if f.num_parts == 0 and all(k == 0 for k in f.num_targets) else f"slot should be empty, has {f.num_parts} particles"
    return frame_diff(*rec, f, True, True)


def c06_history(item, r):
    blen, ops = item
    d = fresh("c06")
    n = names(d, 2)
    disk = {}
    for k, rec in C6.items():
        mkframe(2, 3, *rec).write(*n, k)
        disk[k] = rec
    b = FrameBuf(blen, 2, 3, *n)
    slots = [None] * blen
    for op in ops:
        r.add("transitions")
        if op[0] == "next":
            b.fb_next()
            slots = slots[1:] + slots[:1]
        elif op[0] == "prev":
            b.fb_prev()
            slots = slots[-1:] + slots[:-1]
        elif op[0] in ("read", "dread"):
            _, k, links = op
            try:
                ok = (b.read_frame_at_end if op[0] == "read" else b.disk_read_frame_at_end)(k, links)
                ok = True if op[0] == "read" else ok
            except (IOError, ValueError):
                ok = False
            if k in disk:
                slots[-1] = disk[k] if links else unlink(disk[k])
                if not ok:
                    r.fail(f"loading frame {k} failed", True, ok, item)
            elif ok:
                r.fail(f"loading missing frame {k} succeeded", False, ok, item)
        elif op[0] == "write":
            if slots[0] is None and b.buf[0].num_parts == 0:
                pass
            ok = b.write_frame_from_start(op[1])
            disk[op[1]] = slots[0] if slots[0] is not None else ([], [[], []])
            if not ok:
                r.fail("saving from the buffer failed", True, ok, item)
        if len(b.buf) != blen:
            r.fail(f"the buffer has {len(b.buf)} slots after {op}", blen, len(b.buf), item)
            return
        for i in range(blen):
            m = slot_diff(slots[i], b.buf[i])
            if m:
                r.fail(f"slot {i} of {blen} after {op}: {m}", slots[i], repr(b.buf[i]), item)
                return
    for k, rec in disk.items():
        g = Frame(2, 1)
        ok = g.read(*n, k)
        m = frame_diff(*rec, g, True, True)
        if not ok or m:
            r.fail(f"frame {k} on disk at the end: {m}", rec, None, item)
    # positions and targets of distinct slots must not be shared objects
    for i, j in itertools.combinations(range(blen), 2):
        if b.buf[i] is b.buf[j] or any(x is y for x in b.buf[i].path_info[:3] for y in b.buf[j].path_info[:3]):
            r.fail(f"slots {i} and {j} share data", case=item)
    r.add("traces_validated_against_impl")
    r.outcome(str([None if s is None else len(s[0]) for s in slots]))
    r.sample(dict(length=blen, operations=ops))


def label(rec):
    return None if rec is None else str(rec)


def c06_space(blen, depth, ops):
    """Breadth-first over model states: histories that reach each state first, each extended by every operation."""
    start = (tuple([None] * blen), tuple(sorted((k, label(v)) for k, v in C6.items())))
    recs = {label(v): v for v in list(C6.values())}

    def step(state, op):
        slots, disk = list(state[0]), dict(state[1])
        if op[0] == "next":
            slots = slots[1:] + slots[:1]
        elif op[0] == "prev":
            slots = slots[-1:] + slots[:-1]
        elif op[0] in ("read", "dread"):
            if op[1] in disk:
                slots[-1] = disk[op[1]] if op[2] else "U" + disk[op[1]].lstrip("U")
        elif op[0] == "write":
            disk[op[1]] = slots[0] if slots[0] is not None else "E"
        return (tuple(slots), tuple(sorted(disk.items(), key=str)))

    seen = {start: ()}
    frontier = [start]
    hist = []
    trans = 0
    for _ in range(depth):
        nxt = []
        for s in frontier:
            for op in ops:
                t = step(s, op)
                trans += 1
                h = seen[s] + (op,)
                hist.append((blen, h))
                if t not in seen:
                    seen[t] = h
                    nxt.append(t)
        frontier = nxt
    return hist, len(seen)


def c06_queue(item, r):
    blen, ops, as_list = item
    store = [None] * blen
    q = FrameBufBase(store if as_list else deque(store, maxlen=blen), blen, 1)
    model = []
    for i, op in enumerate(ops):
        r.add("transitions")
        if op == "push":
            q.push(("frame", i))
            if len(model) < blen:
                model.append(("frame", i))
        else:
            got = q.pop()
            exp = model.pop(0) if model else None
            if got != exp:
                r.fail(f"pop number {i} returned the wrong frame", exp, got, item)
                return
        if q.size != len(model):
            r.fail(f"size after {ops[: i + 1]}", len(model), q.size, item)
    while model:
        exp, got = model.pop(0), q.pop()
        if exp != got:
            r.fail("draining the queue", exp, got, item)
            return
    if q.pop() is not None:
        r.fail("an empty queue returned a frame", None, None, item)
    r.add("traces_validated_against_impl")
    r.outcome(("q", blen))


def C06(ctx):
    total = 0
    for blen, depth in ((4, 7 if ctx.thorough else 5), (3, 5), (2, 5), (1, 4)):
        ops = [("next",), ("prev",), ("read", 1, True), ("read", 2, True), ("read", 2, False), ("read", 9, True), ("write", 1), ("write", 7), ("dread", 3, False), ("dread", 4, True)]
        if ctx.thorough and blen == 4:
            ops = [("next",), ("prev",), ("read", 1, True), ("read", 2, False), ("write", 1), ("write", 7)]
        hist, n = c06_space(blen, depth, ops)
        total += n
        ctx.cases(c06_history, hist, group=f"buffer length {blen} depth {depth}")
    qn = 0
    q = []
    for blen in (1, 2, 3, 4):
        for dep in range(1, 13 + 1):
            q += [(blen, ops, dep % 2 == 0) for ops in itertools.product(("push", "pop"), repeat=dep)]
    ctx.cases(c06_queue, q)
    ctx.c["states"] = total + len({(b, sum(1 if o == "push" else -1 for o in ops)) for b, ops, _ in q})
    ctx.rule = "breadth-first over model states (slots, disk); every operation tried in every state, replayed on a fresh real buffer"
