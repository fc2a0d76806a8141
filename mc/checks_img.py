"""C27-C29: segmentation and image preprocessing."""
import itertools
import math
import os

import numpy as np

from openptv_python.image_processing import (copy_images, fast_box_blur, filter_3, lowpass_3, prepare_image, preprocess_image, subtract_img, subtract_mask)
from openptv_python.parameters import ControlPar, TargetPar
from openptv_python.segmentation import targ_rec, target_recognition

from .core import scratch


# ------------------------------------------------------------------ reference segmentation
def ref_blobs(img, region, thres, disco):
    """Blobs (seed y, seed x, n, nx, ny, sum, centroid x, y) of a list-of-rows image inside region (x0, x1, y0, y1), ends exclusive."""
    x0, x1, y0, y1 = region
    left = [row[:] for row in img]
    out = []
    for y in range(y0, y1):
        for x in range(x0, x1):
            g = left[y][x]
            if g <= thres or any(left[y + a][x + b] > g for a in (-1, 0, 1) for b in (-1, 0, 1)):
                continue
            left[y][x] = 0
            members, todo = [(y, x)], [(y, x)]
            while todo:
                py, px = todo.pop()
                lim = img[py][px] + disco
                for qy, qx in ((py - 1, px), (py + 1, px), (py, px - 1), (py, px + 1)):
                    if not (x0 <= qx < x1 and y0 <= qy < y1):
                        continue
                    if (thres < left[qy][qx] <= lim and img[qy - 1][qx] <= lim and img[qy + 1][qx] <= lim and img[qy][qx - 1] <= lim and img[qy][qx + 1] <= lim):
                        left[qy][qx] = 0
                        members.append((qy, qx))
                        todo.append((qy, qx))
            n = len(members)
            s = sum(img[a][b] for a, b in members)
            over = s - n * thres
            cx = sum(b * (img[a][b] - thres) for a, b in members) / over + 0.5
            cy = sum(a * (img[a][b] - thres) for a, b in members) / over + 0.5
            ys, xs = [a for a, _ in members], [b for _, b in members]
            out.append((y, x, n, max(xs) - min(xs) + 1, max(ys) - min(ys) + 1, s, cx, cy))
    return out


def keep(b, p):
    return (p["nnmin"] <= b[2] <= p["nnmax"] and p["nxmin"] <= b[3] <= p["nxmax"] and p["nymin"] <= b[4] <= p["nymax"] and b[5] > p["sumg_min"])


WIDE = dict(nnmin=1, nnmax=100000, nxmin=1, nxmax=10000, nymin=1, nymax=10000, sumg_min=0)


def tpar(thres, disco, lim=WIDE, cam=0, other=77):
    t = [other] * 4
    t[cam] = thres
    return TargetPar(gvthresh=t, discont=disco, **lim)


def cpar(imx, imy):
    c = ControlPar(num_cams=1)
    c.imx, c.imy = imx, imy
    return c


def compare(got, want, thres, r, what, case, numbered=True):
    """want: list of blobs, in the order of their seeds."""
    if len(got) != len(want):
        r.fail(f"{what}: number of targets", [w[:6] for w in want][:6], [(t.x, t.y, t.n, t.sumg) for t in got][:6], case)
        return False
    for i, (t, w) in enumerate(zip(got, want)):
        if not (t.n == w[2] and t.nx == w[3] and t.ny == w[4] and t.sumg == w[5] - w[2] * thres and abs(t.x - w[6]) < 1e-7 and abs(t.y - w[7]) < 1e-7
                and t.pnr == i and t.tnr == -1):
            r.fail(f"{what}: a target", dict(pnr=i, n=w[2], nx=w[3], ny=w[4], sumg=w[5] - w[2] * thres, x=w[6], y=w[7], tnr=-1), t, case)
            return False
    return True


def patterns(h, w, levels, lo, hi):
    """Patterns number lo..hi of all h x w patterns over the levels."""
    k = len(levels)
    for i in range(lo, hi):
        v, p = i, []
        for _ in range(h * w):
            v, d = divmod(v, k)
            p.append(levels[d])
        yield [p[a * w:(a + 1) * w] for a in range(h)]


def c27_tiles(item, r):
    """Many patterns side by side (one background pixel between them: they cannot influence each other) in one image."""
    h, w, levels, bg, thres, disco, lo, hi, lims, cam = item
    pats = list(patterns(h, w, levels, lo, hi))
    cols = max(1, int(math.sqrt(len(pats) * (h + 1) / (w + 1))))
    rows = -(-len(pats) // cols)
    W, H = cols * (w + 1) + 1, rows * (h + 1) + 1
    img = np.full((H, W), bg, np.uint8)
    blobs = []
    for i, p in enumerate(pats):
        oy, ox = 1 + (i // cols) * (h + 1), 1 + (i % cols) * (w + 1)
        img[oy:oy + h, ox:ox + w] = p
        ext = [[bg] * (w + 4)] * 2 + [[bg] * 2 + row + [bg] * 2 for row in p] + [[bg] * (w + 4)] * 2
        for b in ref_blobs(ext, (1, w + 3, 1, h + 3), thres, disco):
            dy, dx = oy - 2, ox - 2
            blobs.append((b[0] + dy, b[1] + dx, *b[2:6], b[6] + dx, b[7] + dy, i))
    blobs.sort(key=lambda b: b[:2])
    img0 = img.copy()
    img.setflags(write=False)
    cp = cpar(W, H)
    for lim in lims:
        p = dict(WIDE, **dict(lim))
        want = [b for b in blobs if keep(b, p)]
        got = target_recognition(img, tpar(thres, disco, p, cam), cam, cp)
        r.ev(True, len(pats))
        r.outcome((len(want), len(blobs)))
        if not compare(got, want, thres, r, "patterns in a row", (item[:6], lim)):
            # name the pattern
            for i, q in enumerate(pats):
                one = np.full((h + 4, w + 4), bg, np.uint8)
                one[2:2 + h, 2:2 + w] = q
                ref = [b for b in ref_blobs(one.tolist(), (1, w + 3, 1, h + 3), thres, disco) if keep(b, p)]
                if not compare(target_recognition(one, tpar(thres, disco, p, cam), cam, cpar(w + 4, h + 4)), ref, thres, r, "segmentation", (q, bg, thres, disco, lim)):
                    break
            return
        if lim == lims[0]:
            again = target_recognition(img, tpar(thres, disco, p, cam), cam, cp)
            if again != got:
                r.fail("repeating the call gives another result", got[:3], again[:3], item)
    if not np.array_equal(img, img0):
        r.fail("segmentation modifies the image", None, None, item)


def c27_border(item, r):
    """Whole small images, bright pixels also in the outermost rows and columns (never part of a target, but neighbours)."""
    h, w, levels, lo, hi, thres, disco = item
    for p in patterns(h, w, levels, lo, hi):
        img = np.array(p, np.uint8)
        got = target_recognition(img, tpar(thres, disco), 0, cpar(w, h))
        r.ev(any(v > thres for row in p[1:-1] for v in row[1:-1]))
        if not compare(got, ref_blobs(p, (1, w - 1, 1, h - 1), thres, disco), thres, r, "image with bright border", (p, thres, disco)):
            return


def shapes():
    S = 44
    Y, X = np.mgrid[0:S, 0:S]
    c = (S - 1) / 2
    R = np.hypot(X - c, Y - c)
    box = lambda a, b, v=255: np.pad(np.full((a, b), v, np.int64), ((2, S - 2 - a), (2, S - 2 - b)))
    out = {}
    for a, b in ((1, 40), (40, 1), (40, 40), (17, 23), (2, 40), (39, 2)):
        out[f"box{a}x{b}"] = box(a, b)
    for q in (3, 8, 15, 19):
        out[f"disc{q}"] = np.where(R <= q, 250, 0)
        out[f"ring{q}"] = np.where((R <= q) & (R > q - 2), 200, 0)
        out[f"cone{q}"] = np.where(R <= q, np.clip(250 - 10 * R, 0, 255), 0).astype(int)
        out[f"crater{q}"] = np.where(R <= q, np.clip(60 + 9 * R, 0, 255), 0).astype(int)
        out[f"gauss{q}"] = (240 * np.exp(-(R / q) ** 2)).astype(int)
    out["checker"] = np.where((X + Y) % 2 == 0, 180, 0) * ((X > 1) & (X < S - 2) & (Y > 1) & (Y < S - 2))
    out["comb"] = np.where(((X % 2 == 0) | (Y == 2)) & (X > 1) & (X < S - 3) & (Y > 1) & (Y < S - 3), 160, 0)
    out["stairs"] = np.where((X > 1) & (X < S - 2) & (Y == 5), 30 + 5 * X, 0)
    out["full"] = np.full((S, S), 255)
    out["slope"] = 3 * X + 2 * Y
    out["saddle"] = (120 + ((X - c) ** 2 - (Y - c) ** 2) / 4).clip(0, 255).astype(int)
    sp = np.zeros((S, S), int)
    x, y, dx, dy, n = 3, 3, 1, 0, 37
    for turn in range(18):
        for _ in range(n):
            sp[y, x] = 140
            x, y = x + dx, y + dy
        dx, dy = -dy, dx
        if turn % 2:
            n -= 4
        if n <= 0:
            break
    out["spiral"] = sp
    rng = 12345
    noise = np.zeros((S, S), int)
    for i in range(S):
        for j in range(S):
            rng = (rng * 1103515245 + 12345) % 2 ** 31
            noise[i, j] = (rng >> 16) % 256
    out["mixed"] = noise  # a fixed pseudo-random picture: dense touching blobs
    return {k: np.asarray(v, np.uint8) for k, v in out.items()}


def c27_shapes(item, r):
    name, thres, disco, dtype, order = item
    img = shapes()[name].astype(dtype)
    if order == "F":
        img = np.asfortranarray(img)
    elif order == "view":
        img = np.pad(img, 3)[3:-3, 3:-3]
    img0 = img.copy()
    want = ref_blobs(img.tolist(), (1, 43, 1, 43), thres, disco)
    got = target_recognition(img, tpar(thres, disco), 0, cpar(44, 44))
    r.ev(bool(want))
    r.outcome((name, len(want)))
    compare(got, want, thres, r, name, item)
    if not np.array_equal(img, img0):
        r.fail("segmentation modifies the image", None, None, item)


def one(k, v):
    return ((k, v),)


def C27(ctx):
    th = ctx.thorough
    LV = (0, 30, 60, 100)
    combos = [(20, 0), (20, 30), (20, 39), (30, 40), (20, 70), (0, 200)]
    if th:
        combos += [(20, 29), (29, 31), (30, 69), (60, 0), (60, 40), (59, 39), (99, 100), (20, 1)]
    items = []
    for thres, disco in combos:
        n = len(LV) ** 9
        items += [(3, 3, LV, 0 if (thres + disco) % 2 == 0 else thres, thres, disco, a, min(a + 2048, n), ((),), a // 2048 % 4) for a in range(0, n, 2048)]
    grids = [(4, 4, (0, 90)), (2, 6, (0, 90)), (6, 2, (0, 90)), (2, 5, (0, 40, 90)), (5, 2, (0, 40, 90)), (1, 8, (10, 40, 90, 255)), (8, 1, (10, 40, 90, 255))] + ([(3, 4, (0, 40, 90)), (4, 3, (0, 40, 90)), (4, 5, (0, 90))] if th else [])
    for h, w, lv in grids:
        n = len(lv) ** (h * w)
        for thres, disco in ((10, 60), (30, 50), (30, 0)):
            items += [(h, w, lv, 0, thres, disco, a, min(a + 2048, n), ((),), 0) for a in range(0, n, 2048)]
    ctx.cases(c27_tiles, items, batch=4)
    # every limit at every value of interest, alone and in pairs
    single = [one(k, v) for k in ("nnmin", "nnmax") for v in range(0, 11)] + [one(k, v) for k in ("nxmin", "nxmax", "nymin", "nymax") for v in range(0, 5)]
    single += [one("sumg_min", v) for v in (-1, 29, 30, 89, 90, 91, 119, 120, 121, 180, 270, 359, 360, 361, 809, 810, 811)]
    pairs = [a + b for a, b in itertools.combinations(single, 2) if a[0][0] != b[0][0]]
    pairs = pairs if th else pairs[::9]
    lims = tuple([()] + single + pairs)
    its = []
    for lv, n in (((0, 90), 512), ((0, 30, 90), 3 ** 9)):
        for a in range(0, n, 2048):
            for c in range(0, len(lims), 60):
                its.append((3, 3, lv, 0, 20, 65, a, min(a + 2048, n), lims[c:c + 60], c // 60 % 4))
    ctx.cases(c27_tiles, its if th else its[:len(its) // 2 + 20], batch=1, group="c27_limits")
    b = []
    for h, w, lv in ((3, 3, (0, 40, 90)), (3, 4, (0, 90)), (4, 3, (0, 90)), (1, 4, (0, 90)), (4, 1, (0, 90)), (2, 2, (0, 90)), (2, 4, (0, 90))) + (((4, 4, (0, 90)), (3, 5, (0, 90))) if th else ()):
        n = len(lv) ** (h * w)
        b += [(h, w, lv, a, min(a + 256, n), t, d) for t, d in ((20, 60), (40, 40)) for a in range(0, n, 256)]
    ctx.cases(c27_border, b, batch=2)
    sh = [(n, t, d, dt, o) for n in shapes() for t in (0, 5, 100, 254) for d in (0, 1, 5, 40, 255) for dt, o in ((np.uint8, "C"), (np.int32, "C"), (np.uint8, "F"), (np.uint16, "view"))]
    ctx.cases(c27_shapes, sh, batch=10)
    ctx.rule = ("all 3x3 patterns over 4 grey levels x thresholds and discontinuities exactly at, below and above the level differences; all 4x4, 2x6, 2x5, 1x8 patterns; all size and brightness limits alone and in pairs; "
                "whole images with bright borders; large shapes in several grey types and memory layouts")
    ctx.assumptions = ["patterns are laid out with one background pixel between them, so that no growth or neighbour rule reaches across"]


# ------------------------------------------------------------------ C28
BLOBS = {
    "dot": [[200]],
    "pair": [[200, 120]],
    "col": [[90], [210], [130]],
    "ell": [[200, 100], [150, 0]],
    "plus": [[0, 120, 0], [110, 250, 130], [0, 140, 0]],
    "flat": [[180, 180], [180, 180]],
    "ring": [[100, 110, 120], [100, 0, 130], [100, 140, 150]],
    "diag": [[200, 0], [0, 200]],
    "two": [[200, 40, 220]],
    "wide": [[60, 90, 120, 90, 60], [50, 80, 110, 80, 50]],
}


def paint(img, blob, y, x):
    for a, row in enumerate(blob):
        for b, v in enumerate(row):
            if v:
                img[y + a, x + b] = max(img[y + a, x + b], v)


def alone(name, thres, disco):
    b = BLOBS[name]
    img = np.zeros((len(b) + 4, len(b[0]) + 4), int)
    paint(img, b, 2, 2)
    return [(q[0] - 2, q[1] - 2, *q[2:6], q[6] - 2, q[7] - 2) for q in ref_blobs(img.tolist(), (1, len(b[0]) + 3, 1, len(b) + 3), thres, disco)]


def moved(blobs, y, x):
    return [(q[0] + y, q[1] + x, *q[2:6], q[6] + x, q[7] + y) for q in blobs]


def c28_shift(item, r):
    name, imx, imy, thres, disco, bg = item
    b = BLOBS[name]
    h, w = len(b), len(b[0])
    ref = alone(name, thres, disco)
    first = None
    for y in range(1, imy - h):
        for x in range(1, imx - w):
            img = np.full((imy, imx), bg, np.uint8)
            paint(img, b, y, x)
            got = target_recognition(img, tpar(thres, disco, cam=2), 2, cpar(imx, imy))
            r.ev(True)
            if not compare(got, moved(ref, y, x), thres, r, "shifted blob", (name, imx, imy, y, x)):
                return
            rel = [(t.n, t.nx, t.ny, t.sumg, round(t.x - x, 6), round(t.y - y, 6)) for t in got]
            if first is not None and rel != first:
                r.fail("the target of a blob depends on its position", first, rel, (item, y, x))
                return
            first = rel
    r.outcome((name, first))


SCENES = {
    "four": [("dot", 2, 2), ("plus", 2, 7), ("ell", 7, 3), ("flat", 8, 9)],
    "line": [("pair", 1, 1), ("pair", 1, 5), ("col", 4, 1), ("two", 9, 1), ("dot", 4, 12)],
    "dense": [("dot", y, x) for y in (1, 3, 5, 7, 9) for x in (1, 4, 7, 10)],
    "corners": [("flat", 1, 1), ("flat", 1, 12), ("flat", 10, 1), ("flat", 10, 12), ("ring", 5, 6)],
    "touch": [("plus", 2, 2), ("plus", 3, 5), ("ring", 6, 3), ("flat", 8, 7)],
}
SW, SH = 15, 13


def scene(name):
    img = np.zeros((SH, SW), np.uint8)
    for b, y, x in SCENES[name]:
        paint(img, BLOBS[b], y, x)
    return img


def c28_region(item, r):
    """Every search region of a scene."""
    name, xr, via, thres, disco = item
    img = scene(name)
    rows = img.tolist()
    cp, tp = cpar(SW, SH), tpar(thres, disco)
    whole = target_recognition(img, tp, 0, cp)
    for ya in range(0, SH):
        for yb in range(ya, SH + 1):
            x0, x1, y0, y1 = max(xr[0], 1), min(xr[1], SW - 1), max(ya, 1), min(yb, SH - 1)
            if via == 0:
                got = target_recognition(img, tp, 0, cp, subrange_x=xr, subrange_y=(ya, yb))
            else:
                got = targ_rec(img, tp, xr[0], xr[1], ya, yb, cp, 0)
            r.ev(True)
            if not compare(got, ref_blobs(rows, (x0, x1, y0, y1), thres, disco), thres, r, "search region", (item, ya, yb)):
                return
            # a region whose edge crosses no bright pixel: the same targets as in the whole image
            m = img > thres
            cut = False
            for lo, hi, ax in ((x0, x1, 1), (y0, y1, 0)):
                mm = m if ax == 0 else m.T
                for e in (lo, hi):
                    if 0 < e < mm.shape[0] and (mm[e - 1].any() or mm[e].any()):
                        cut = True
            if not cut and x0 < x1 and y0 < y1:
                inside = [(t.x, t.y, t.n, t.sumg) for t in whole if x0 <= t.x <= x1 and y0 <= t.y <= y1]
                if [(t.x, t.y, t.n, t.sumg) for t in got] != inside:
                    r.fail("a region cutting no blob does not give the targets of the whole image inside it", inside, got, (item, ya, yb))
                r.add("uncut_regions")
    # default range is the whole image; a region beyond the image is refused
    if xr == (0, SW):
        if target_recognition(img, tp, 0, cp, None, (0, SH)) != whole or target_recognition(img, tp, 0, cp, xr, None) != whole:
            r.fail("the default region is not the whole image", None, None, item)
        for sx, sy in (((0, SW + 1), (0, SH)), ((0, SW), (0, SH + 1))):
            try:
                target_recognition(img, tp, 0, cp, sx, sy)
                r.fail("a region larger than the image is accepted", "ValueError", (sx, sy), item)
            except ValueError:
                pass


def c28_pair(item, r):
    """Two blobs at every offset: as long as they do not touch, each gives the target it gives alone."""
    a, b, thres, disco = item
    A, B = BLOBS[a], BLOBS[b]
    ra, rb = alone(a, thres, disco), alone(b, thres, disco)
    N = 17
    y0, x0 = 6, 6
    pa = {(y0 + i, x0 + j) for i, row in enumerate(A) for j, v in enumerate(row) if v}
    for y in range(1, N - len(B)):
        for x in range(1, N - len(B[0])):
            pb = {(y + i, x + j) for i, row in enumerate(B) for j, v in enumerate(row) if v}
            img = np.zeros((N, N), np.uint8)
            touch = any((p[0] + i, p[1] + j) in pb for p in pa for i in (-1, 0, 1) for j in (-1, 0, 1))
            paint(img, A, y0, x0)
            paint(img, B, y, x)
            got = target_recognition(img, tpar(thres, disco), 0, cpar(N, N))
            r.ev(not touch)
            if touch:
                want = ref_blobs(img.tolist(), (1, N - 1, 1, N - 1), thres, disco)
            else:
                want = sorted(moved(ra, y0, x0) + moved(rb, y, x), key=lambda q: q[:2])
            if not compare(got, want, thres, r, "two blobs" + (" touching" if touch else ""), (item, y, x)):
                return


def c28_calls(item, r):
    """Sequences of calls on different images, cameras and parameters: each gives what a first call gives."""
    calls = [("four", 0, 20, 60), ("dense", 1, 150, 10), ("touch", 3, 50, 255), ("line", 2, 0, 0)]
    th = [0] * 4
    for _, c, t, _ in calls:
        th[c] = t
    shared = {d: TargetPar(gvthresh=list(th), discont=d, **WIDE) for _, _, _, d in calls}
    cp = cpar(SW, SH)
    for k in item:
        n, cam, t, d = calls[k]
        img = scene(n)
        got = target_recognition(img, shared[d], cam, cp)
        r.ev(True)
        if not compare(got, ref_blobs(img.tolist(), (1, SW - 1, 1, SH - 1), t, d), t, r, "call in a sequence", (item, k)):
            return
        for tt in got:
            tt.tnr = 5  # results belong to the caller
        if shared[d].gvthresh != th or cp.imx != SW:
            r.fail("segmentation modifies its parameters", th, shared[d].gvthresh, item)


def C28(ctx):
    th = ctx.thorough
    sizes = [(7, 7), (7, 10), (10, 7), (8, 13), (16, 7), (7, 16), (36, 6), (6, 36)] + ([(9, 9), (20, 9), (9, 20), (33, 12), (12, 33), (40, 40)] if th else [])
    ctx.cases(c28_shift, [(n, w, h, t, d, g) for n in BLOBS for w, h in sizes for t, d, g in ((20, 60, 0), (45, 255, 45), (45, 0, 3))], batch=2)
    xs = [(a, b) for a in range(0, SW) for b in range(a, SW + 1)]
    ctx.cases(c28_region, [(n, x, k % 2, t, d) for n in SCENES for k, x in enumerate(xs) for t, d in (((20, 100), (105, 10)) if th else ((20, 100),))], batch=2)
    ctx.cases(c28_pair, [(a, b, 20, d) for a in BLOBS for b in BLOBS for d in ((60, 255, 0) if th else (60,))], batch=1)
    ctx.cases(c28_calls, [s for k in (1, 2, 3, 4) for s in itertools.product(range(4), repeat=k)], batch=10)
    ctx.rule = "10 blobs x all positions x image sizes and aspects; all search regions of 5 scenes; all ordered pairs of blobs at all offsets; all sequences of up to 4 calls"
    ctx.assumptions = ["the outermost rows and columns of the image are never searched (as documented in the code)"]


# ------------------------------------------------------------------ C29
def box(img, n, k=None):
    """Neighbourhood average with zero outside, exact."""
    h, w = img.shape
    p = np.zeros((h + 2 * n, w + 2 * n))
    p[n:n + h, n:n + w] = img
    if k is None:
        k = np.ones((2 * n + 1, 2 * n + 1)) / (2 * n + 1) ** 2
    out = np.zeros((h, w))
    for a in range(2 * n + 1):
        for b in range(2 * n + 1):
            out += p[a:a + h, b:b + w] * k[2 * n - a, 2 * n - b]  # convolution: the kernel is mirrored
    return out


KERNELS = {
    "identity": [[0, 0, 0], [0, 1, 0], [0, 0, 0]],
    "right": [[0, 0, 0], [0, 0, 1], [0, 0, 0]],
    "down": [[0, 0, 0], [0, 0, 0], [0, 1, 0]],
    "mean": [[1 / 9] * 3] * 3,
    "sharp": [[0, -1, 0], [-1, 5, -1], [0, -1, 0]],
    "twice": [[0, 0, 0], [0, 2, 0], [0, 0, 0]],
    "uneven": [[0.1, 0.2, 0.3], [0.0, 0.5, -0.4], [-0.3, 0.25, 0.05]],
    "edge": [[1, 0, -1], [2, 0, -2], [1, 0, -1]],
}


def check_img(out, like, r, what, case):
    if not isinstance(out, np.ndarray) or out.shape != like.shape or out.dtype != like.dtype:
        r.fail(f"{what}: shape or grey type", (like.shape, like.dtype), (getattr(out, "shape", None), getattr(out, "dtype", None)), case)
        return False
    return True


def near(out, ref, tol, r, what, case):
    ref = np.clip(ref, 0, 255)
    d = np.abs(out.astype(float) - ref)
    if not (d < tol).all():
        i = np.unravel_index(np.argmax(d), d.shape)
        r.fail(f"{what} at {i}", ref.tolist() if ref.size < 50 else ref[i], out.tolist() if ref.size < 50 else out[i], case)
        return False
    return True


def all_steps(img, r, case, dims, files):
    """Every step on one image."""
    h, w = img.shape
    cp = cpar(w, h)
    img0 = img.copy()
    for n in dims:
        o = fast_box_blur(n, img, cp)
        if o.size != img.size or o.dtype != img.dtype:
            r.fail("fast_box_blur: size or grey type", (img.size, img.dtype), (o.size, o.dtype), case)
        else:
            near(o.reshape(h, w), box(img, n), 2, r, f"box filter of half-width {n}", case)
        base = prepare_image(img, n)
        r.ev(True)
        if not check_img(base, img, r, "prepare_image", case):
            return
        mean = box(img, n)
        ok = np.zeros(img.shape, bool)
        for dlt in (0, 1):  # truncated low-pass, see the assumptions
            ok |= base == (img | np.maximum(np.floor(mean + 1e-9) - dlt, 0).astype(np.uint8))
        if not ok.all():
            r.fail(f"prepare_image with half-width {n} is not the image combined with its neighbourhood average", mean, base, case)
        if not np.array_equal(prepare_image(img, n, 0, "ignored"), base) or not np.array_equal(preprocess_image(img, 0, cp, n), base):
            r.fail("preprocess_image differs from prepare_image", base, None, case)
        sm = prepare_image(img, n, 1)
        if check_img(sm, img, r, "prepare_image with smoothing", case):
            near(sm, box(base, 1), 2, r, "additional smoothing of the preprocessed image", case)
        if not np.array_equal(preprocess_image(img, 1, cp, n), sm) or not np.array_equal(prepare_image(img, n, 2, ""), base):
            r.fail("preprocess_image differs from prepare_image", sm, None, case)
        for kn, f in files.items():
            o = prepare_image(img, n, 2, f)
            if check_img(o, img, r, "prepare_image with a filter", case):
                near(o, box(base, 1, np.array(KERNELS[kn], float)), 1.001, r, f"user filter {kn} of the preprocessed image", case)
    o = lowpass_3(img)
    if check_img(o, img, r, "lowpass_3", case):
        near(o, box(img, 1), 1.001, r, "lowpass_3", case)
    for kn, k in KERNELS.items():
        k = np.array(k, float)
        k0 = k.copy()
        o = filter_3(img, k)
        r.ev(True)
        if check_img(o, img, r, "filter_3", case) and h > 2 and w > 2:
            near(o[1:-1, 1:-1], box(img, 1, k)[1:-1, 1:-1], 1.001, r, f"filter_3 with {kn}", case)
        if kn == "identity" and not np.array_equal(o, img):
            r.fail("filter_3 with the identity changes the image", img, o, case)
        if not np.array_equal(k, k0):
            r.fail("filter_3 modifies the kernel", k0, k, case)
    o = filter_3(img)
    if check_img(o, img, r, "filter_3", case) and h > 2 and w > 2:
        near(o[1:-1, 1:-1], box(img, 1)[1:-1, 1:-1], 1.001, r, "filter_3 without a kernel", case)
    c = copy_images(img)
    if not np.array_equal(c, img) or np.shares_memory(c, img):
        r.fail("copy_images", None, None, case)
    if not np.array_equal(img, img0):
        r.fail("a step modifies its input", img0, img, case)


def kernel_files():
    d = scratch("c29")
    out = {}
    for k, v in KERNELS.items():
        f = os.path.join(d, k + ".txt")
        with open(f, "w") as fp:
            for row in v:
                fp.write(" ".join(f"{x:.9f}" for x in row) + "\n")
        out[k] = f
    return out


def c29_small(item, r):
    h, w, levels, lo, hi, dims, nk = item
    files = kernel_files()
    files = dict(list(files.items())[:nk])
    for p in patterns(h, w, levels, lo, hi):
        all_steps(np.array(p, np.uint8), r, p, dims, files)
        if r.fails:
            return
    r.outcome((h, w))


def c29_local(item, r):
    """Changing one pixel changes the result only within the filter's reach (and, for the box filters, everywhere it must)."""
    name, y, x, v = item
    img = shapes()[name][8:22, 10:26].copy()
    files = kernel_files()
    img2 = img.copy()
    img2[y, x] = v
    h, w = img.shape
    cp = cpar(w, h)
    Y, X = np.mgrid[0:h, 0:w]
    dist = np.maximum(abs(Y - y), abs(X - x))
    for n in (0, 1, 2, 3, 6):
        steps = [("prepare_image", n, lambda a: prepare_image(a, n)), ("prepare_image smoothed", n + 1, lambda a: prepare_image(a, n, 1)),
                 ("prepare_image uneven", n + 1, lambda a: prepare_image(a, n, 2, files["uneven"])), ("fast_box_blur", n, lambda a: fast_box_blur(n, a, cp).reshape(h, w))]
        if n == 1:
            steps += [("lowpass_3", 1, lowpass_3), ("filter_3", 1, lambda a: filter_3(a, np.array(KERNELS["sharp"], float)))]
        for what, reach, f in steps:
            a, b = f(img), f(img2)
            r.ev(True)
            if (a != b)[dist > reach].any():
                r.fail(f"{what}: a pixel influences the result beyond the reach of the filter", None, np.argwhere((a != b) & (dist > reach))[:3], (item, n))


def c29_shapes(item, r):
    name, crop = item
    img = np.ascontiguousarray(shapes()[name][crop])
    all_steps(img, r, item, (1, 2, 3, 5, 12, 30), kernel_files())
    # memory layout does not matter
    a = prepare_image(img, 2, 1)
    for other in (np.asfortranarray(img), np.pad(img, 2)[2:-2, 2:-2]):
        if not np.array_equal(prepare_image(other, 2, 1), a) or not np.array_equal(filter_3(other), filter_3(img)) or not np.array_equal(lowpass_3(other), lowpass_3(img)):
            r.fail("the result depends on the memory layout", None, None, item)


def c29_mask(item, r):
    img = np.array(item[0], np.uint8).reshape(3, 3)
    for bits in range(512):
        for on in (1, 255):
            m = np.array([on if bits >> i & 1 else 0 for i in range(9)], np.uint8).reshape(3, 3)
            i0, m0 = img.copy(), m.copy()
            o = subtract_mask(img, m)
            r.ev(True)
            if not check_img(o, img, r, "subtract_mask", item) or not np.array_equal(o, np.where(m == 0, 0, img)) or not np.array_equal(img, i0) or not np.array_equal(m, m0):
                r.fail("subtract_mask zeroes other pixels than the masked ones", np.where(m == 0, 0, img), o, (item, bits))
                return
            prepare_image(o, 1)  # the result is an image again
            big = subtract_mask(np.tile(img, (3, 2)), np.tile(m, (3, 2)))
            if not np.array_equal(big, np.tile(o, (3, 2))):
                r.fail("subtract_mask on a larger image", None, big, (item, bits))
                return


def c29_sub(item, r):
    dt, alias = item
    a, b = np.mgrid[0:256, 0:256].astype(dt)
    a, b = np.ascontiguousarray(a), np.ascontiguousarray(b)
    a0, b0 = a.copy(), b.copy()
    out = a if alias == "first" else b if alias == "second" else np.full((256, 256), 99, dt)
    subtract_img(a, b, out)
    r.ev(True, 65536)
    want = np.maximum(a0.astype(int) - b0.astype(int), 0)
    if not np.array_equal(out, want):
        i = tuple(np.argwhere(out != want)[0])
        r.fail("subtract_img", want[i], out[i], (item, i))
    if (alias != "first" and not np.array_equal(a, a0)) or (alias != "second" and not np.array_equal(b, b0)):
        r.fail("subtract_img modifies its input", None, None, item)


def c29_err(item, r):
    d = scratch("c29e")
    img = np.full((5, 6), 50, np.uint8)
    r.ev(True)
    kind = item[0]
    try:
        if kind == "missing":
            prepare_image(img, 1, 2, os.path.join(d, "none.txt"))
        elif kind == "type":
            prepare_image(img.astype(item[1]), 1)
        else:
            f = os.path.join(d, "f.txt")
            with open(f, "w") as fp:
                fp.write(item[1])
            prepare_image(img, 1, 2, f)
        r.fail("an unusable filter or image is accepted", "an error", None, item)
    except (IOError if kind != "type" else TypeError):
        pass
    if not (img == 50).all():
        r.fail("a failing step modifies its input", None, None, item)


def C29(ctx):
    th = ctx.thorough
    items = []
    for h, w, lv, dims, nk in (((3, 3, (0, 7, 255), (0, 1, 2), 8), (2, 3, (0, 1, 128, 255), (1, 3), 8), (3, 2, (0, 1, 128, 255), (1,), 8), (1, 5, (0, 5, 255), (1, 2), 3), (5, 1, (0, 5, 255), (1, 2), 3), (1, 1, tuple(range(0, 256, 5)), (0, 1, 4), 8),
                                (4, 4, (0, 255), (1, 2), 2))):
        n = len(lv) ** (h * w)
        items += [(h, w, lv, a, min(a + 64, n), dims, nk) for a in range(0, n, 64)]
    if not th:
        items = [it for k, it in enumerate(items) if it[:2] != (4, 4) or k % 8 == 0]
        items = [it for k, it in enumerate(items) if it[:2] != (3, 3) or k % 3 == 0]
    ctx.cases(c29_small, items, batch=2)
    names = list(shapes())
    loc = [(n, y, x, v) for n in (names if th else ("mixed", "full", "slope", "gauss8")) for y in range(0, 14, 1 if th else 2) for x in range(0, 16, 1 if th else 3) for v in (0, 255, 77)]
    ctx.cases(c29_local, loc, batch=20)
    crops = [np.s_[:, :], np.s_[3:40, 5:20], np.s_[10:17, :], np.s_[:, 20:23]]
    ctx.cases(c29_shapes, [(n, c) for n in names for c in crops], batch=2)
    ims = [(0,) * 9, (255,) * 9, tuple(range(9)), (1, 0, 255, 0, 3, 128, 255, 0, 77)]
    ctx.cases(c29_mask, [(i,) for i in ims], batch=1)
    ctx.cases(c29_sub, [(dt, al) for dt in (np.uint8, np.int16, np.uint16, np.int32) for al in ("", "first", "second")], batch=1)
    ctx.cases(c29_err, [("missing",)] + [("type", t) for t in (np.float64, np.uint16, np.int8, bool)] + [("bad", s) for s in ("", "1 2 3", "1 2 3\n4 5 6\n7 8", "a b c\n1 2 3\n4 5 6", "1 2 3 4 5 6 7 8 9 10")], batch=1)
    ctx.rule = "small images over grey alphabets incl. 0 and 255 through every step and filter size; 25 larger pictures; every pixel changed (locality); all 512 masks; all 65536 pairs of grey values subtracted; unusable filters and images"
    ctx.assumptions = ["integer filters truncate: a box filter (two passes) may differ from the exact mean by less than two grey levels, a 3x3 filter by one",
                       "prepare_image combines image and low-pass bitwise (pinned by a test), so it is judged as that combination, not as a high-pass"]
