"""C39: the tracker against a model of its decisions, over enumerated crowded scenes."""
import copy
import itertools

from . import model_track as mt
from . import scene
from .scene import Scene

LEVELS = {"C39": "model_checking"}

START = [(0.0, 0.0, 0.0), (1.3, 0.41, -0.43), (0.27, 1.13, 0.61), (-0.9, 0.57, 0.3), (0.52, -0.84, -0.71), (-0.43, -0.37, 1.03)]
VEL = [(1.31, 0.22, -0.35), (-1.13, 0.54, 0.47), (0.16, -1.21, 0.83), (0.05, 0.07, 0.02), (0.66, 1.09, -0.74)]
# a particle that speeds up after frame 2 and a slow one where the first was going (its place and speed from the list): the slow one keeps the better claim
SLOW = list(itertools.product((0.9, 1.0, 1.06, 1.13), (0.1, 0.15, 0.22), (0.02, 0.1), (-0.04, 0.015)))
BEND = [(0.0, 0.0, 0.0), (0.13, -0.09, 0.05), (-0.3, 0.25, -0.2)]
LIMITS = [((-2.6, 2.6),) * 3, ((-2.3, 3.1), (-1.9, 2.7), (-2.9, 1.8)), ((-1.4, 1.4), (-1.3, 1.25), (-0.9, 0.9)), ((-5.0, 5.0),) * 3]
SMOOTH = [(120.0, 3.0), (250.0, 20.0), (40.0, 2.5), (15.0, 1.6), (60.0, 9.0), (4.0, 6.0), (200.0, 0.35), (200.0, 0.7)]
VOL = [(30.0, 20.0, 4.0), (3.1, 1.2, 0.6), (3.1, 1.3, -0.7)]  # half extent in x, in depth, difference between the ends


def overtaken(v, t):
    fast, quick = v
    if fast >= 0:
        x, y, u, w = SLOW[fast]
        return x + u * (t - 3), y + w * (t - 3), 0.01 * t
    return (float(t - 2) if t < 3 else 1.3 + quick * (t - 3)), 0.13 + 0.01 * t, 0.02 - 0.01 * t


def volume(k):
    """Depth limits differ at the two ends."""
    x, z, d = VOL[k]
    v = scene.rigs.volume(-z, z, (-x, x))
    v.z_min_lay, v.z_max_lay = ([-z, -z - d], [z, z + d]) if d > 0 else ([-z + d, -z], [z - d, z])
    return v


def edge(ncam):
    """Images that show a few millimetres only: particles come and go at all sides."""
    if (ncam, "edge") not in scene._rigs:
        scene._rigs[ncam, "edge"] = scene.rigs.rig(ncam, imx=72, imy=58)


def build(vels, bend, nfr, gaps, half, kind, ncam):
    """gaps: (particle, frame) not in the list of positions; half: (particle, frame) with targets in one camera only (which one: the particle's number), or (particle, frame, camera that misses it)."""
    frames = []
    for t in range(nfr):
        row = []
        for k, v in enumerate(vels):
            if isinstance(v, (tuple, list)):
                row.append((tuple(round(c, 3) for c in overtaken(v, t)), dict(listed=(k, t) not in gaps)))
                continue
            b = BEND[(bend + k) % 3]
            x = tuple(round(s + u * t + 0.5 * c * t * t, 3) for s, u, c in zip(START[k], VEL[v], b))
            o = dict(listed=(k, t) not in gaps)
            if (k, t) in half:
                o["cams"] = (k % 2,)
            drop = {h[2] for h in half if len(h) == 3 and h[:2] == (k, t)}
            if drop:
                o["cams"] = [c for c in range(ncam) if c not in drop]
            if kind == "edge":  # nothing to see outside the images
                cp = scene.get_rig(ncam, kind)[1]
                o["cams"] = [c for c, (u, v) in ((c, scene.pixel(x, ncam, c, kind)) for c in range(ncam)) if 0 < u < cp.imx and 0 < v < cp.imy and c in o.get("cams", range(ncam))]
            row.append((x, o))
        frames.append(row)
    return frames


def read(sc, links=False):
    out = []
    for t, d in enumerate(sc.data()):
        lk = sc.links(sc.first + t) if links else [(mt.NONE, mt.FREE)] * len(d["pos"])
        out.append(mt.Fr([mt.Part(x, p, n) for x, (p, n) in zip(d["pos"], lk)], [[[v[1], v[2], int(v[7])] for v in c] for c in d["targ"]], [list(c) for c in d["corr"]]))
    return out


def compare(fr, sc, t, r, case, what, wide):
    f = sc.first + t
    pos, links = sc.positions(f), sc.links(f)
    if [(p.prev, p.next) for p in fr.parts] != links:
        r.fail(f"{what}: links of frame {t} differ from those of the model", [(p.prev, p.next) for p in fr.parts], links, case)
    elif len(pos) != len(fr.parts) or any(max(abs(a - b) for a, b in zip(p.x, x)) > wide for p, x in zip(fr.parts, pos)):
        r.fail(f"{what}: particles of frame {t} differ from those of the model", [tuple(p.x) for p in fr.parts], pos, case)
    elif [[v[2] for v in c] for c in fr.targs] != [[int(v[7]) for v in sc.targets(c, f)] for c in range(sc.ncam)]:
        r.fail(f"{what}: owners of the targets of frame {t} differ from those of the model", [[v[2] for v in c] for c in fr.targs], [[v[7] for v in sc.targets(c, f)] for c in range(sc.ncam)], case)
    elif [tuple(c) for c in fr.corr] != sc.corres(f):
        r.fail(f"{what}: targets of the particles of frame {t} differ from those of the model", fr.corr, sc.corres(f), case)
    else:
        return True
    return False


def c39_case(item, r):
    vels, bend, nfr, gaps, half, kind, ncam, lim, sm, vol, add, back, first = item
    edge(ncam)
    run_both(Scene(build(vels, bend, nfr, gaps, half, kind, ncam), ncam, kind, first, name="model"), kind, ncam, lim, sm, vol, add, back, r, item)
    r.sample(dict(velocities=vels, gaps=gaps, rig=kind, cameras=ncam))


def c39_rivals(item, r):
    """A particle coming to a fork: two candidates of different distance, sightings and continuation; read forward or backward."""
    a, ratio, cont, drop, had, ncam, lim, sm, add, back = item
    off = ((0.1, a, 0.13 * a), (-0.07, -a * ratio, 0.21 * a * ratio))
    frames = [[((t - 2.0, 0.03 * t, 0.02 * t), {})] if t > 1 or had else [] for t in range(3)]
    for t in range(3, 6):
        row = []
        for k, d in enumerate(off):
            if t > 3 and not cont[k]:
                continue
            x = tuple(round(p + q * (1 + 0.3 * (t - 3)), 3) for p, q in zip((t - 2.0, 0.03 * t, 0.02 * t), d))
            o = dict(listed=t == 3 or cont[k] == 1, cams=[c for c in range(ncam) if (k, t, c) not in drop])
            row.append((x, o))
        frames.append(row)
    if back:
        frames = frames[::-1]
        links = [[[mt.NONE, mt.FREE] for p in f if p[1].get("listed", True)] for f in frames]
        links[3][0][1], links[4][0] = 0, [0, 0]
        if had:
            links[5][0][0] = 0
        else:
            links[4][0][1] = mt.FREE
        if cont[0] == 1 and back == 2:
            links[1][0][1], links[2][0][0] = 0, 0
        run_back(Scene(frames, ncam, "air", 1, name="model"), links, "air", ncam, lim, sm, r, item)
    else:
        run_both(Scene(frames, ncam, "air", 1, name="model"), "air", ncam, lim, sm, 0, add, 0, r, item)


def run_both(sc, kind, ncam, lim, sm, vol, add, back, r, item):
    data = read(sc)
    nfr = len(data)
    par = dict(lim=LIMITS[lim], dangle=SMOOTH[sm][0], dacc=SMOOTH[sm][1], add=add)
    run = sc.run_info(vol=volume(vol), **par)
    z = volume(vol)
    box = ((run.vpar.x_lay[0], run.vpar.x_lay[1]), (run.ymin, run.ymax), (min(z.z_min_lay), max(z.z_max_lay)))
    sc.forward(run)
    cals, cp = scene.get_rig(ncam, kind)
    m = mt.Model(cals, cp, LIMITS[lim], SMOOTH[sm][0], SMOOTH[sm][1], add, box, data)
    narrow = 1e-6 if kind in ("air", "edge") else 2e-3
    n, states = 0, 0
    for s in range(nfr - 1):
        prv = data[s - 1] if s else mt.EMPTY
        aft = data[s + 2] if s + 2 < nfr else copy.deepcopy(mt.EMPTY)
        if s + 2 >= nfr and nfr >= 4:  # what lies beyond the sequence must not count; the frame the library still holds there may
            alt = copy.deepcopy((prv, data[s], data[s + 1], data[nfr - 4]))
            m.step(*alt)
            here = (data[s], data[s + 1])
            n += m.step(prv, data[s], data[s + 1], aft)
            if [[(p.prev, p.next) for p in f.parts] for f in alt[1:3]] != [[(p.prev, p.next) for p in f.parts] for f in here] or len(alt[2].parts) != len(data[s + 1].parts):
                r.add("end_not_judged")
                return
        else:
            n += m.step(prv, data[s], data[s + 1], aft)
        if m.margin < narrow:
            r.add("narrow_not_judged")
            return
        states += 1
    r.add("states", nfr)
    r.add("transitions", nfr - 1)
    r.add("traces_validated_against_impl")
    wide = 0.00051 if kind in ("air", "edge") else 0.003
    ok = all([compare(data[t], sc, t, r, item, "forward", wide) for t in range(nfr)])
    if ok and (run.nlinks, run.npart) != (n, sum(len(f.parts) for f in data[:-1])):
        r.fail("totals differ from those of the model", (n, sum(len(f.parts) for f in data[:-1])), (run.nlinks, run.npart), item)
    if ok and back and nfr > 3:
        data = read(sc, True)
        m.margin = 1e9
        sc.backward(sc.run_info(vol=volume(vol), **par))
        for s in range(nfr - 2, 0, -1):
            m.back(data[s + 1], data[s], data[s - 1], data[s - 2] if s > 1 else mt.EMPTY)
        if m.margin < narrow:
            r.add("narrow_not_judged")
        else:
            r.add("transitions", nfr - 2)
            r.add("traces_validated_against_impl")
            all([compare(data[t], sc, t, r, item, "back", 0.00001) for t in range(nfr)])
    for k, v in m.count.items():
        r.add(k, v)
    r.outcome((n, tuple(len(f.parts) for f in data)))


def c39_back(item, r):
    """The way back alone, from links of which some are missing."""
    vels, bend, nfr, half, gone, kind, ncam, lim, sm, first = item
    edge(ncam)
    links = [[[k, k] for k in range(len(vels))] for _ in range(nfr)]
    for k in range(len(vels)):
        links[0][k][0], links[-1][k][1] = mt.NONE, mt.FREE
    for k, t in gone:
        links[t][k][1], links[t + 1][k][0] = mt.FREE, mt.NONE
    run_back(Scene(build(vels, bend, nfr, (), half, kind, ncam), ncam, kind, first, name="model"), links, kind, ncam, lim, sm, r, item)


def run_back(sc, links, kind, ncam, lim, sm, r, item):
    nfr = len(links)
    sc.write_links(links)
    data = read(sc, True)
    par = dict(lim=LIMITS[lim], dangle=SMOOTH[sm][0], dacc=SMOOTH[sm][1])
    sc.backward(sc.run_info(**par))
    cals, cp = scene.get_rig(ncam, kind)
    m = mt.Model(cals, cp, LIMITS[lim], *SMOOTH[sm], 0, None, data)
    for s in range(nfr - 2, 0, -1):
        m.back(data[s + 1], data[s], data[s - 1], data[s - 2] if s > 1 else mt.EMPTY)
    if m.margin < (1e-6 if kind in ("air", "edge") else 2e-3):
        r.add("narrow_not_judged")
        return
    r.add("states", nfr)
    r.add("transitions", nfr - 2)
    r.add("traces_validated_against_impl")
    all([compare(data[t], sc, t, r, item, "back", 0.00001) for t in range(nfr)])
    for k, v in m.count.items():
        r.add(k, v)
    r.outcome(tuple(sum(p.next >= 0 for p in f.parts) for f in data))


def C39(ctx):
    ctx.rule = "every step of the model is replayed by the tracker on disk: same links, same particles added, same owners of targets, same totals; then the way back"
    ctx.assumptions = ["scenes in which a decision of the model hangs on less than 1e-6 (with refraction 0.002 px) are left out and counted", "what the tracker still holds of a frame before the sequence must not matter at its end: scenes where it would are left out and counted"]
    th = ctx.thorough
    pairs = list(itertools.product(range(len(LIMITS)), range(6)))
    items = []
    # three crossing particles: all velocities, all settings
    for k, v in enumerate(itertools.product(range(5), repeat=3)):
        for j, (l, s) in enumerate(pairs):
            if th or (j + k) % 9 == 0:
                items.append((v, (k + j) % 3, 5, (), (), "air", 2 + (k + j) % 3, l, s, 0, (k + j) % 2, 1, (1, 98, 9998)[j % 3]))
    ctx.cases(c39_case, items, group="crossing")
    # two particles, up to two places not measured in space: added or not, volume wide or narrow
    cells = [(k, t) for t in range(1, 6) for k in range(2)]
    gaps = [()] + [(c,) for c in cells] + list(itertools.combinations(cells, 2))
    items = []
    for k, (v, g) in enumerate(itertools.product(itertools.product(range(5), repeat=2), gaps)):
        for j, (l, s) in enumerate([(0, 1), (1, 0), (3, 4), (2, 2)] if th else [((0, 1), (1, 0), (3, 4), (2, 2))[k // 2 % 4]] if k % 2 == 0 or len(g) < 2 else []):
            items.append((v, (k + j) % 3, 6, g, (), "air", 2 + (k + j) % 3, l, s, k % 5 % 3, int(k % 7 > 0), 1, 1))
    ctx.cases(c39_case, items, group="gaps")
    # particles some cameras do not show
    cells = [(k, t) for t in range(5) for k in range(3)]
    items = []
    for k, h in enumerate([(c,) for c in cells] + list(itertools.combinations(cells, 2))):
        for j, v in enumerate([(0, 1, 2), (3, 4, 1), (4, 0, 3), (2, 2, 1)]):
            if th or (j + k) % 4 == 0:
                items.append((v, k % 3, 5, (), h, "air", 2 + (k + j) % 3, (0, 1, 3)[k % 3], (1, 0, 4, 5)[j], 0, k % 2, 1, 1))
    ctx.cases(c39_case, items, group="partly seen")
    # tracks that lose their continuation on the way there and find it on the way back
    items = []
    for k, q in enumerate(range(len(SLOW))):
        for j, (l, s, b) in enumerate(itertools.product((1, 3), (1, 4, 5), (1.0, 1.3))):
            if th or (j + k) % 3 == 0:
                items.append((((-1, b), (q, 0)), 0, 6, (), (), "air", 2 + (k + j) % 3, l, s, 0, 0, 1, 1))
    ctx.cases(c39_case, items, group="overtaken")
    # the way back from all patterns of one or two missing links
    cells = [(k, t) for k in range(3) for t in range(4)]
    hide = [(), ((0, 1), (1, 1)), ((0, 2), (2, 2)), ((1, 0), (2, 1), (0, 3))]
    items = []
    for k, g in enumerate([(c,) for c in cells] + list(itertools.combinations(cells, 2)) + (list(itertools.combinations(cells, 3)) if th else [])):
        for j, (v, b) in enumerate([((0, 1, 2), 0), ((3, 4, 1), 1), ((4, 0, 3), 2), ((2, 2, 1), 1), ((3, 3, 3), 2), ((0, 4, 0), 1)]):
            for i, (l, s) in enumerate([(0, 1), (1, 0), (3, 3), (1, 2), (3, 5), (0, 6), (3, 7)]):
                if th or (i + j + k) % 5 == 0:
                    items.append((v, b, 5, hide[(i + k) % 4], g, "air", 2 + (i + k) % 3, l, s, 1))
    ctx.cases(c39_back, items, group="back")
    # candidates seen by different numbers of cameras, continued by particles or leftovers
    cells = [(k, t, c) for k in range(3) for t in range(1, 5) for c in range(3)]
    sets = [(c,) for c in cells] + list(itertools.combinations(cells, 2))
    items, back = [], []
    for k, h in enumerate(sets):
        for j, (v, b) in enumerate([((3, 3, 3), 0), ((3, 4, 1), 1), ((3, 3, 0), 2), ((3, 3, 3), 1)]):
            if th or (j + k) % 4 == 0 and (k % 2 or len(h) < 2):
                g = () if k % 3 == 0 else ((h[0][0], h[0][1] + 1),) if k % 3 == 1 else (((h[0][0] + 1) % 3, h[0][1] + 1),)
                items.append((v, b, 6, g, h, "air", 3 + (j + k // 4) % 2, (0, 3, 1)[k // 4 % 3], (1, 4, 0, 5)[k % 4], 0, k % 5 == 0, 1, 1))
                back.append((v, b, 6, h, ((h[0][0], h[0][1] - k % 2),) + (((h[-1][0], (h[-1][1] + 1) % 5),) if k % 4 > 1 else ()), "air", 3 + j % 2, (0, 3)[k % 2], (1, 0)[k // 2 % 2], 1))
    ctx.cases(c39_case, items, group="fewer cameras")
    ctx.cases(c39_back, back, group="fewer cameras, back")
    # forks: which of two candidates is taken
    items, k = [], 0
    drops = [(), ((0, 3, 0),), ((1, 3, 1),), ((0, 4, 1),), ((1, 4, 0),), ((0, 3, 2), (1, 4, 2)), ((1, 3, 0), (0, 4, 0))]
    for a, ratio, cont, drop in itertools.product((0.2, 0.45, 0.8), (0.5, 0.62, 0.74, 0.86, 0.95), itertools.product((1, 2, 0), repeat=2), drops):
        for j, (had, ncam, back) in enumerate(itertools.product((1, 0), (3, 4), (0, 1, 2))):
            k += 1
            if (th or (k % 5 == 0)) and not (back == 2 and cont[0] != 1) and not (back and not had):
                items.append((a, ratio, cont, drop, had, ncam, (0, 3)[k % 2], (1, 0, 4)[k // 5 % 3], k // 7 % 2, back))
    ctx.cases(c39_rivals, items, group="forks")
    # crowds, image borders, refraction
    items = []
    for k, v in enumerate(itertools.product(range(5), repeat=3)):
        for kind in ("crowd", "edge", "water", "tilt"):
            if th or (k + len(kind)) % (3 if kind in ("crowd", "edge") else 5) == 0:
                w = v + v[::-1] if kind == "crowd" else v
                g = () if k % 3 == 0 else ((k % 3, 2 + k % 2),)
                items.append((w, k % 3, 5, g, (), "air" if kind == "crowd" else kind, 2 + k % 3, (0, 1, 3, 2)[k % 4], (1, 4, 0, 2, 3)[k % 5], 0, 1, 1, 1))
    ctx.cases(c39_case, items, group="crowds, borders, refraction")
