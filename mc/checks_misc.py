"""C34-C35: records (setters, getters, comparisons) and numerical helpers."""
import copy
import itertools
import math

import numpy as np

from openptv_python import calibration as ca, parameters as pa, tracking_frame_buf as tf, vec_utils as vu
from openptv_python.epi import Coord2d_dtype, sort_coord2d_x, sort_coord2d_y
from openptv_python.multimed import move_along_ray
from openptv_python.orientation import is_singular
from openptv_python.parameters import ControlPar, MultimediaPar, SequencePar, TargetPar, TrackPar, VolumePar
from openptv_python.ray_tracing import matmul_numba_optimized
from openptv_python.tracking_frame_buf import Corres_dtype, Pathinfo, Target

LEVELS = {"C34": "model_checking"}

# ------------------------------------------------------------------ C34
# class -> (fresh object, setters {name: [(argument tuple, fields written)]}, getters {name: (argument tuple, function of the fields)})
F = lambda n: (lambda f: f[n])
FF = lambda *n: (lambda f: tuple(f[k] for k in n))


def fields(o):
    return {k: copy.deepcopy(getattr(o, k)) for k in o.__dataclass_fields__}


def new_track():
    return TrackPar(dvxmin=-1.0, dvxmax=2.0, dvymin=-3.0, dvymax=4.0, dvzmin=-5.0, dvzmax=6.0, dangle=7.0, dacc=8.0, add=1, dsumg=9.0, dn=10.0, dnx=11.0, dny=12.0)


def new_control():
    return ControlPar(num_cams=2, img_base_name=["a", "b"], cal_img_base_name=["c", "d"], hp_flag=3, all_cam_flag=4, tiff_flag=5, imx=6, imy=7, pix_x=0.8, pix_y=0.9, chfield=10,
                      mm=MultimediaPar(n1=1.1, n2=[1.2], d=[13.0], n3=1.4))


def new_volume():
    return VolumePar(x_lay=[1.0, 2.0], z_min_lay=[3.0, 4.0], z_max_lay=[5.0, 6.0], cn=0.7, cnx=0.8, cny=0.9, csumg=0.1, eps0=0.11, corrmin=12.0)


def one(attr, *vals, conv=lambda v: v):
    return [((v,), {attr: v}) for v in vals]


RECORDS = {
    "Target": (lambda: Target(1, 2.5, 3.5, 4, 5, 6, 7, 8),
               dict(set_pos=[(((1.25, -7.0),), dict(x=1.25, y=-7.0)), (((0.0, 9.5),), dict(x=0.0, y=9.5))], set_pnr=one("pnr", 0, -999), set_pixel_counts=[((9, 8, 7), dict(n=9, nx=8, ny=7)), ((0, 1, 2), dict(n=0, nx=1, ny=2))],
                    set_sum_grey_value=one("sumg", 0, 77)),
               dict(pos=((), FF("x", "y")), count_pixels=((), FF("n", "nx", "ny")), sum_grey_value=((), F("sumg")))),
    "TrackPar": (new_track, dict(set_dsumg=one("dsumg", 0.5, 3.25), set_dn=one("dn", 0.25, 4.0), set_dnx=one("dnx", 0.125, 5.0), set_dny=one("dny", 0.75, 6.5)),
                 dict(get_dvxmin=((), F("dvxmin")), get_dvxmax=((), F("dvxmax")), get_dvymin=((), F("dvymin")), get_dvymax=((), F("dvymax")), get_dvz_min=((), F("dvzmin")), get_dvz_max=((), F("dvzmax")),
                      get_dangle=((), F("dangle")), get_dacc=((), F("dacc")), get_add=((), F("add")), get_dsumg=((), F("dsumg")), get_dn=((), F("dn")), get_dnx=((), F("dnx")), get_dny=((), F("dny")))),
    "VolumePar": (new_volume, dict(set_z_min_lay=[(([-7.0, -8.0],), dict(z_min_lay=[-7.0, -8.0])), (([0.0, 0.5],), dict(z_min_lay=[0.0, 0.5]))], set_z_max_lay=[(([17.0, 18.0],), dict(z_max_lay=[17.0, 18.0])), (([9.0, 0.5],), dict(z_max_lay=[9.0, 0.5]))],
                                   set_cn=one("cn", 0.21), set_cnx=one("cnx", 0.22), set_csumg=one("csumg", 0.23), set_eps0=one("eps0", 0.24), set_corrmin=one("corrmin", 25.0)), {}),
    "ControlPar": (new_control, dict(set_image_size=[(((100, 200),), dict(imx=100, imy=200)), (((300, 50),), dict(imx=300, imy=50))], set_pixel_size=[(((0.01, 0.02),), dict(pix_x=0.01, pix_y=0.02)), (((0.5, 0.25),), dict(pix_x=0.5, pix_y=0.25))],
                                     set_chfield=one("chfield", 0, 2), set_hp_flag=one("hp_flag", 0, 1)),
                   dict(get_image_size=((), FF("imx", "imy")), get_pixel_size=((), FF("pix_x", "pix_y")), get_chfield=((), F("chfield")), get_multimedia_par=((), F("mm")), get_multimedia_params=((), F("mm")), get_num_cams=((), F("num_cams")),
                        get_hp_flag=((), F("hp_flag")), get_allCam_flag=((), F("all_cam_flag")), get_tiff_flag=((), F("tiff_flag")))),
    "MultimediaPar": (lambda: MultimediaPar(nlay=1, n1=1.01, n2=[1.3], d=[4.0], n3=1.2),
                      dict(set_n1=one("n1", 1.5, 2.0), set_n3=one("n3", 1.6, 2.5), set_layers=[(([1.4], [5.0]), dict(n2=[1.4], d=[5.0])), (([1.45], [0.0]), dict(n2=[1.45], d=[0.0])), (([1.4, 1.5], [1.0]), ValueError), (([], [1.0]), ValueError)]),
                      dict(get_nlay=((), F("nlay")), get_n1=((), F("n1")), get_n2=((), F("n2")), get_n3=((), F("n3")), get_d=((), F("d")))),
    "SequencePar": (lambda: SequencePar(img_base_name=["p", "q"], first=3, last=9),
                    dict(set_img_base_name=[((["r", "s"],), dict(img_base_name=["r", "s"])), ((["t"],), dict(img_base_name=["t"]))], set_first=one("first", 0, 10001), set_last=one("last", 4, 10009)),
                    dict(get_first=((), F("first")), get_last=((), F("last")), get_img_base_name=((0,), lambda f: f["img_base_name"][0]))),
    "TargetPar": (lambda: TargetPar(gvthresh=[1, 2, 3, 4], discont=5, nnmin=6, nnmax=7, nxmin=8, nxmax=9, nymin=10, nymax=11, sumg_min=12, cr_sz=13), {},
                  dict(get_grey_thresholds=((), F("gvthresh")), get_pixel_count_bounds=((), FF("nnmin", "nnmax")), get_xsize_bounds=((), FF("nxmin", "nxmax")), get_ysize_bounds=((), FF("nymin", "nymax")), get_min_sum_grey=((), F("sumg_min")))),
}


def ops_of(name):
    return [(i, s, k) for i in (0, 1) for s, alts in RECORDS[name][1].items() for k in range(len(alts))]


def c34_records(item, r):
    name, seq = item
    make, setters, getters = RECORDS[name]
    objs = [make(), make()]
    model = [fields(o) for o in objs]
    for step, (i, s, k) in enumerate(seq):
        args, what = setters[s][k]
        args = copy.deepcopy(args)
        r.add("transitions")
        try:
            getattr(objs[i], s)(*args)
            if what is ValueError:
                r.fail(f"{name}.{s} accepts layers of different numbers", None, args, item)
        except ValueError:
            if what is not ValueError:
                raise
        if what is not ValueError:
            model[i].update(copy.deepcopy(what))
    r.add("states", 2)
    r.add("traces_validated_against_impl")
    for o, m in zip(objs, model):
        if fields(o) != m:
            r.fail(f"{name}: the fields are not those last set", m, fields(o), item)
        for g, (args, want) in getters.items():
            if (got := getattr(o, g)(*args)) != want(m):
                r.fail(f"{name}.{g} does not return what was last set", want(m), got, item)
        if isinstance(o, SequencePar):
            for c, n in enumerate(m["img_base_name"]):
                if o.get_img_base_name(c) != n:
                    r.fail("image name of a camera is not the one set", m, o.get_img_base_name(c), item)
    r.outcome((name, str(model[0])[:60]))


def alter(v, how):
    if isinstance(v, list):
        if how == 2:
            return v + [v[-1]]
        w = list(v)
        w[-how] = alter(w[-how], 0)
        return w
    if isinstance(v, MultimediaPar):
        w = copy.deepcopy(v)
        if how == 0:
            w.n3 += 0.5
        elif how == 1:
            w.n2 = [w.n2[0] + 0.25]
        else:
            w.d = [w.d[0] + 0.25]
        return w
    if isinstance(v, np.ndarray):
        w = v.copy()
        w[how] += 0.5
        return w
    if isinstance(v, str):
        return v + "x"
    return (v + 1, -v - 1, v + 0.5 if isinstance(v, float) else v + 256)[how]


COMPARE = dict(Target=tf.compare_targets, MultimediaPar=pa.compare_mm_np, SequencePar=pa.compare_sequence_par, TrackPar=pa.compare_track_par, VolumePar=pa.compare_volume_par, ControlPar=pa.compare_control_par, TargetPar=pa.compare_target_par)


def c34_compare(item, r):
    """Equal exactly when every field is."""
    name, changes = item
    make = RECORDS[name][0]
    a, b = make(), make()
    for f, how in changes:
        if isinstance(how, str):  # two fields exchanged
            v, w = getattr(b, f), getattr(b, how)
            setattr(b, f, w)
            setattr(b, how, v)
        else:
            setattr(b, f, alter(getattr(b, f), how))
    r.ev(bool(changes))
    for x, y in ((a, b), (b, a)):
        if bool(COMPARE[name](x, y)) != (not changes) or (x == y) != (not changes):
            r.fail(f"comparison of {name} objects {'differs for equal ones' if not changes else 'misses a difference'}", not changes, (COMPARE[name](x, y), x == y), item)


def c34_path(item, r):
    changes, cands = item
    mk = lambda: Pathinfo(x=np.array([1.0, 2.0, 3.0]), prev_frame=4, next_frame=5, prio=1, finaldecis=6.5)
    a, b = mk(), mk()
    for o in (a, b):
        for q, c in cands:
            o.register_link_candidate(q, c)
    if a.inlist != len(cands) or a.decis[:len(cands)] != [q for q, _ in cands] or a.linkdecis[:len(cands)] != [c for _, c in cands] or any(a.decis[len(cands):]) or any(a.linkdecis[len(cands):]):
        r.fail("registered link candidates are not listed in order", cands, (a.inlist, a.decis[:6], a.linkdecis[:6]), item)
    for f, how in changes:
        v = getattr(b, f)
        if isinstance(v, list):
            v = list(v)
            v[(0, 1, -1)[how]] += 1
        else:
            v = alter(v, how)
        setattr(b, f, v)
    r.ev()
    for x, y in ((a, b), (b, a)):
        if bool(tf.compare_path_info(x, y)) != (not changes) or (x == y) != (not changes):
            r.fail("comparison of path records is wrong", not changes, (x, y), item)
    keep = mk()
    for q, c in cands:
        keep.register_link_candidate(q, c)
    if changes or not (a == keep):
        if not (a == keep):
            r.fail("changing one path record changes another", keep, a, item)
    a.reset_links()
    if (a.prev_frame, a.next_frame, a.prio) != (-1, -2, 2) or tuple(a.x) != (1.0, 2.0, 3.0):
        r.fail("resetting links leaves links or moves the particle", (-1, -2, 2), (a.prev_frame, a.next_frame, a.prio, a.x), item)


def c34_corres(item, r):
    n, k, slot, delta = item
    a = np.zeros(n, dtype=Corres_dtype).view(np.recarray)
    for i in range(n):
        a[i].nr = i + 1
        a[i].p[:] = (i, i + 1, -1, 2 * i)
    b = a.copy()
    if delta:
        if slot == 4:
            b[k].nr += delta
        else:
            b[k].p[slot] += delta
    r.ev(delta != 0)
    for x, y in ((a, b), (b, a), (a[k:k + 1], b[k:k + 1])):
        if bool(tf.compare_corres(x, y)) != (not delta):
            r.fail("comparison of correspondences is wrong", not delta, (x, y), item)


def c34_tuple(item, r):
    vals, = item
    t = TrackPar(*vals)
    q = pa.convert_track_par_to_tuple(t)
    r.ev()
    if any(getattr(q, k) != getattr(t, k) for k in t.__dataclass_fields__):
        r.fail("tracking parameters change when converted", t, q, item)


CAL_PARTS = ("ext_par", "int_par", "glass_par", "added_par", "mmlut", "mmlut_data")


def cal_plain(o):
    def flat(rec, names):
        return [float(v) for f in names for v in np.asarray(rec[f]).ravel()]

    e, i, t = np.asarray(o.ext_par), np.asarray(o.int_par), np.asarray(o.mmlut)
    return (flat(e, ("x0", "y0", "z0", "omega", "phi", "kappa", "dm")), flat(i, ("xh", "yh", "cc")), np.asarray(o.glass_par).ravel().tolist(), np.asarray(o.added_par).ravel().tolist(),
            flat(t, ("origin", "nr", "nz", "rw")), np.asarray(o.mmlut_data).ravel().tolist())


def c34_cal(given, r):
    """A calibration made from some of its parts has those, and the defaults for the rest, whatever was done to others before."""
    full = ca.Calibration(glass_par=np.array([1.0, 2.0, 3.0]), added_par=np.array([1.0, 2, 3, 4, 5, 6, 7]), mmlut_data=np.ones((2, 3)))
    full.set_pos(np.array([4.0, 5.0, 6.0]))
    full.set_angles(np.array([0.1, 0.2, 0.3]))
    full.set_primary_point(np.array([7.0, 8.0, 9.0]))
    full.mmlut.nr, full.mmlut.nz, full.mmlut.rw = 3, 2, 4
    want = [cal_plain(full)[i] if g else STANDARD[i] for i, g in enumerate(given)]
    if given[4] and not given[5]:
        want[5] = [0.0] * 6
    made = ca.Calibration(**{k: copy.deepcopy(getattr(full, k)) for k, g in zip(CAL_PARTS, given) if g})
    r.ev()
    if list(cal_plain(made)) != want:
        r.fail("a calibration does not have the parts it is made from, or the defaults for the others", want, cal_plain(made), given)
    made.set_pos(np.array([-1.0, -2.0, -3.0]))
    made.glass_par[0] = -9.0
    made.added_par[0] = -9.0
    made.mmlut.nr = 77
    if cal_plain(ca.Calibration()) != STANDARD:
        r.fail("changing one calibration changes the defaults", STANDARD, cal_plain(ca.Calibration()), given)


STANDARD = ([0.0] * 6 + np.eye(3).ravel().tolist(), [0.0] * 3, [0.0, 0.0, 1.0], [0.0] * 5 + [1.0, 0.0], [0.0] * 6, [])


def C34(ctx):
    th = ctx.thorough
    ctx.rule = "operation histories over two objects of each record class, all fields and getters compared with a plain model; comparisons over all changes of one and two fields"
    for name in RECORDS:
        ops = ops_of(name)
        if not ops:
            ctx.cases(c34_records, [(name, ())], group=name)
            continue
        depth = 4 if th and len(ops) < 26 else 3
        ctx.cases(c34_records, [(name, s) for k in range(depth + 1) for s in itertools.product(ops, repeat=k)], group=name)
        ctx.notes.setdefault("history_depth", 3)
    items = []
    for name in COMPARE:
        fs = list(RECORDS[name][0]().__dataclass_fields__)
        ch = [(f, h) for f in fs for h in range(3)]
        if name == "MultimediaPar":
            ch = [c for c in ch if c[0] not in ("n2", "d") or c[1] < 2]
        values = fields(RECORDS[name][0]())
        items += [(name, ((f, g),)) for f, g in itertools.combinations(fs, 2) if type(values[f]) is type(values[g]) and values[f] != values[g]]
        items += [(name, ())] + [(name, (c,)) for c in ch] + [(name, p) for p in itertools.combinations(ch, 2) if p[0][0] != p[1][0] and "mm" not in (p[0][0], p[1][0])]
    ctx.cases(c34_compare, items, group="comparisons")
    fs = ["x", "prev_frame", "next_frame", "prio", "decis", "finaldecis", "linkdecis", "inlist"]
    cl = [(), ((1.5, 0),), ((2.5, 3), (0.5, 1)), tuple((0.25 * i, i) for i in range(80))]
    ctx.cases(c34_path, [(c, l) for c in [()] + [((f, h),) for f in fs for h in range(3)] for l in cl], group="path records")
    ctx.cases(c34_corres, [(n, k, s, d) for n in (1, 2, 5) for k in range(n) for s in range(5) for d in (0, 1, -1, 65536)], group="correspondences")
    base = (-1.0, 2.0, -3.0, 4.0, -5.0, 6.0, 7.0, 8.0, 1, 9.0, 10.0, 11.0, 12.0)
    ctx.cases(c34_cal, list(itertools.product((0, 1), repeat=6)), group="calibrations")
    ctx.cases(c34_tuple, [(base,), (tuple(range(13)),)] + [(tuple(v + (k == i) for k, v in enumerate(base)),) for i in range(13)], group="tracking parameters")
    ctx.notes["bounds"] = "all setter histories up to length 3 (thorough 4) over two objects of seven record classes; all single and paired field changes in every comparison"


# ------------------------------------------------------------------ C35
VALS = (-3.5, -1.0, 0.0, 0.25, 2.0, 1e4)


def near(a, b, scale=1.0):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= 1e-12 * max(1.0, scale)))


def c35_vectors(first, r):
    a = np.array(first, dtype=float)
    n = math.sqrt(sum(v * v for v in first))
    ka = a.copy()
    if not near(vu.vec_norm(a), n, n) or not near(vu.norm(*first), n, n):
        r.fail("norm is wrong", n, (vu.vec_norm(a), vu.norm(*first)), first)
    if tuple(vu.vec_set(*first)) != first:
        r.fail("vec_set", first, vu.vec_set(*first), first)
    c = vu.vec_copy(a)
    c[...] = 9.0
    u = vu.unit_vector(a)
    if n and (not near(vu.vec_norm(u), 1.0) or not near(u * n, a, n)) or not n and any(u):
        r.fail("unit vector is not of length one along the vector", a, u, first)
    for s in (-2.0, 0.0, 0.5):
        if not near(vu.vec_scalar_mul(a, s), [v * s for v in first], n):
            r.fail("scalar product", None, vu.vec_scalar_mul(a, s), (first, s))
    for second in itertools.product(VALS, repeat=3):
        b = np.array(second, dtype=float)
        kb = b.copy()
        sc = max(map(abs, first + second)) ** 2
        dot = math.fsum(x * y for x, y in zip(first, second))
        cross = (first[1] * second[2] - first[2] * second[1], first[2] * second[0] - first[0] * second[2], first[0] * second[1] - first[1] * second[0])
        diff = tuple(x - y for x, y in zip(first, second))
        got = dict(subt=(vu.vec_subt(a, b), diff), add=(vu.vec_add(a, b), tuple(x + y for x, y in zip(first, second))), dot=(vu.vec_dot(a, b), dot), cross=(vu.vec_cross(a, b), cross),
                   diff_norm=(vu.vec_diff_norm(a, b), math.sqrt(sum(v * v for v in diff))))
        r.ev()
        r.outcome((int(np.sign(dot)), any(cross), any(diff)))
        for k, (g, w) in got.items():
            if not near(g, w, sc):
                r.fail(f"vector {k} is wrong", w, g, (first, second))
        for tol in (1e-6, 0.3, 3.0):
            if bool(vu.vec_cmp(a, b, tol)) != all(abs(v) <= tol for v in diff):
                r.fail("vec_cmp does not compare within the tolerance", diff, vu.vec_cmp(a, b, tol), (first, second, tol))
        for k in ("subt", "diff_norm"):
            if not near(*got[k], 1e-2 + max(map(abs, diff))):
                r.fail(f"vector {k} loses the difference of the vectors", got[k][1], got[k][0], (first, second))
        if (a != ka).any() or (b != kb).any():
            r.fail("a vector function altered its arguments", (ka, kb), (a, b), (first, second))
            a, b = ka.copy(), kb.copy()
        # a point of given height on the ray
        if second[2] != 0:
            for z in (-7.0, 0.0, 2.5):
                p = move_along_ray(z, a, b)
                t = (z - first[2]) / second[2]
                if p[2] != z or not near(p[:2], (first[0] + t * second[0], first[1] + t * second[1]), 1e9 if sc > 1e6 else 1e3):
                    r.fail("move_along_ray leaves the ray or the plane", t, p, (first, second, z))


def c35_small(item, r):
    """Tolerance of comparisons of large coordinates."""
    first, d = item
    a = np.array(first, dtype=float)
    for k in range(3):
        b = a.copy()
        b[k] += d
        if not near(vu.vec_diff_norm(a, b), abs(b[k] - a[k]), 1e-3) or not near(vu.vec_subt(b, a), [b[k] - a[k] if j == k else 0.0 for j in range(3)], 1e-3):
            r.fail("the difference of close vectors is lost", b[k] - a[k], (vu.vec_diff_norm(a, b), vu.vec_subt(b, a)), (first, k, d))
        for tol in (1e-6, 1e-3, 0.1):
            r.ev()
            if abs(abs(b[k] - a[k]) - tol) > 1e-9 and bool(vu.vec_cmp(a, b, tol)) != (abs(b[k] - a[k]) <= tol):
                r.fail("vec_cmp does not compare within the tolerance", d, vu.vec_cmp(a, b, tol), (first, k, d, tol))


def c35_defaults(d, r):
    """The tolerance and the length that stand in the signatures are used when none is given."""
    a = np.array([3.0, -4.0, 12.0])
    for k in range(3):
        b = a.copy()
        b[k] += d
        r.ev()
        if bool(vu.vec_cmp(a, b)) != (abs(d) <= 1e-6):
            r.fail("vec_cmp without a tolerance does not compare within a millionth", abs(d) <= 1e-6, vu.vec_cmp(a, b), (k, d))
    for n, v in [(3, vu.vec_init())] + [(n, vu.vec_init(n)) for n in range(6)]:
        if v.shape != (n,) or v.any() or v.dtype != float:
            r.fail("vec_init does not make a vector of zeros", n, v, n)


def c35_matmul(item, r):
    m, n, k, vals = item
    b = np.array(vals[:m * n], dtype=float).reshape(m, n)
    c = np.array(vals[::-1][:n * k], dtype=float).reshape(n, k)
    a = np.full((m, k), 77.0)
    got = matmul_numba_optimized(a, b.copy(), c.copy(), m, n, k)
    want = [[sum(b[i, l] * c[l, j] for l in range(n)) for j in range(k)] for i in range(m)]
    r.ev()
    if not near(got, want, 100) or not near(a, want, 100):
        r.fail("matrix product is wrong", want, got, item)


def c35_singular(vals, r):
    n = int(round(math.sqrt(len(vals))))
    m = np.array(vals, dtype=float).reshape(n, n)
    det = vals[0] * vals[3] - vals[1] * vals[2] if n == 2 else sum(vals[i] * (vals[3 + (i + 1) % 3] * vals[6 + (i + 2) % 3] - vals[3 + (i + 2) % 3] * vals[6 + (i + 1) % 3]) for i in range(3))
    r.ev()
    if bool(is_singular(m)) != (det == 0):
        r.fail("singular matrices are not recognised", det, is_singular(m), vals)


def c35_sort(keys, r):
    a = np.zeros(len(keys), dtype=Coord2d_dtype).view(np.recarray)
    for i, (x, y) in enumerate(keys):
        a[i].pnr, a[i].x, a[i].y = i, x, y
    keep = a.copy()
    for f, ax in ((sort_coord2d_x, 0), (sort_coord2d_y, 1)):
        b = f(a)
        rows = [(int(q["pnr"]), (float(q["x"]), float(q["y"]))) for q in np.asarray(b)]
        r.ev(len(keys) > 1)
        if [q[1][ax] for q in rows] != sorted(k[ax] for k in keys) or sorted(q[0] for q in rows) != list(range(len(keys))) or any(keys[i] != p for i, p in rows):
            r.fail("sorting coordinates loses or mixes points", keys, rows, keys)
    if len(keys) and not (a == keep).all():
        r.fail("sorting altered the list given", keep, a, keys)


def C35(ctx):
    th = ctx.thorough
    ctx.rule = "every case compares a helper's result with its definition"
    lat = list(itertools.product(VALS, repeat=3))
    ctx.cases(c35_vectors, lat, group="vectors")
    ctx.cases(c35_small, [(f, d) for f in ((0.0, 0.0, 0.0), (1.0, -5.0, 250.0), (1e5, -3e4, 12.0)) for d in (0.0, 5e-7, -5e-7, 2e-6, -5e-4, 2e-3, 0.05, -0.2, 1.0)], group="tolerances")
    ctx.cases(c35_defaults, [0.0, 5e-7, -9e-7, 1.1e-6, -2e-6, 1e-3, 1.0], group="defaults")
    vs = [(1, 2, -3, 4, 0, 5, 7, -2, 1, 3, 2, 2), (0,) * 12, (0.5, -0.25, 8, 1, 1, 2, 3, 5, 8, 13, 21, 34)]
    ctx.cases(c35_matmul, [(m, n, k, v) for m in (1, 2, 3) for n in (1, 2, 3) for k in (1, 2, 3) for v in vs], group="products")
    ctx.cases(c35_singular, list(itertools.product((-2, 0, 1, 3), repeat=4)) + [t for n, t in enumerate(itertools.product((-1, 0, 2), repeat=9)) if th or n % 7 == 0], group="singular matrices")
    ks = [(0.5, 1.0), (-2.0, 1.0), (0.5, -3.0), (1e6, 0.0)]
    ctx.cases(c35_sort, [p for k in range(5 if not th else 6) for p in itertools.product(ks, repeat=k)], group="sorting")
    ctx.notes["bounds"] = "all pairs of vectors with components from six values; matrices up to 3x3; all lists of up to four coordinates from four points"
