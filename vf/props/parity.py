"""C15 compiled and pure Python routines agree, C25 compiled routines stay inside their arrays."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from ..core import Aspect, require, sut
from ..gen import (dem_raw, dem_flatpits, dem_proc, dem_thin, thin_flows, decode_dem, flow_trees, decode_flow, labelings, decode_labels,
                   georefs)
from ..oracle import DELTA, SQ2
from .. import rio, chain
from ..worker import Worker
from .surface import grid, first_diff, set_speed
from .bluespot import drained_fields, decode_drained

bools = st.booleans()
OPS = ["fill", "noflats", "flowdir", "accum", "trace", "wsheds", "stats", "minindex", "data"]


def inputs(case):
    z = decode_dem(case["dem"], "float32")
    f = decode_flow(case["flow"])
    df = decode_drained(case["drained"])
    lab = decode_labels(case["lab"], *df.shape, case["ldtype"])
    zl = decode_labels(case["lab"], *z.shape, case["ldtype"])
    t = z.astype("float64")
    fine = case.get("fine")
    if fine:
        # differences only the full width of the data type resolves
        rng = np.random.RandomState(fine["seed"])
        k = rng.randint(0, 4, z.shape)
        if fine["what"] != "terrain":
            t = np.full(z.shape, 100.0)
        if fine["what"] == "ties":
            # straight and diagonal neighbours with the same slope, up to rounding
            t = np.zeros(z.shape)
            for r in range(1, z.shape[0] - 1, 3):
                for c in range(1, z.shape[1] - 1, 3):
                    drop = rng.rand()
                    for i, (dy, dx) in enumerate(DELTA):
                        t[r + dy, c + dx] = -drop * (SQ2 if i % 2 else 1.0) if rng.rand() < 0.5 else 1.0
        else:
            t = t + k * 2.0 ** -fine["digits"]
        if case["ddtype"].startswith("float"):
            zd = t.astype(case["ddtype"])
        else:
            zd = k + np.array(min(np.iinfo(case["ddtype"]).max - 3, 2 ** 53 - 5), dtype=case["ddtype"])
            zd = zd.astype(case["ddtype"])
    else:
        zd = np.clip(z, 0, None).astype(case["ddtype"]) if case["ddtype"].startswith("u") else z.astype(case["ddtype"])
    return {"z": z, "t": t, "f": f, "df": df, "lab": lab, "zl": zl, "zd": zd}


def operate(op, d):
    """Runs one routine on copies; returns plain comparable data."""
    from malstroem.algorithms import fill, flow, label
    d = {k: v.copy() for k, v in d.items()}
    if op == "fill":
        return [np.asarray(fill.fill_terrain(d["z"]))]
    if op == "noflats":
        s, g = fill.minimum_safe_short_and_diag(d["z"])
        return [np.asarray(fill.fill_terrain_no_flats(d["z"], s, g))]
    if op == "flowdir":
        return [np.asarray(flow.terrain_flowdirection(d["t"], edges_flow_outward=True)),
                np.asarray(flow.terrain_flowdirection(d["t"], edges_flow_outward=False))]
    if op == "accum":
        return [np.asarray(flow.accumulated_flow(d["f"]))]
    if op == "trace":
        acc = np.zeros(d["f"].shape)
        for r in range(acc.shape[0]):
            for c in range(acc.shape[1]):
                flow.trace_accumulated_flow(d["f"], acc, (r, c))
        return [acc]
    if op == "wsheds":
        flow.watersheds_from_labels(d["df"], d["lab"], unassigned=0)
        return [d["lab"]]
    if op == "stats":
        s = label.label_stats(d["zd"], d["zl"])
        return [np.asarray(s[n]) for n in ("min", "max", "sum", "count")]
    if op == "minindex":
        s = label.label_min_index(d["zd"], d["zl"])
        return [np.asarray(s[n]) for n in ("value", "row", "col")]
    if op == "data":
        out = []
        for bg in (0, 1, -1):
            out += [np.asarray(v, dtype="float64") for v in label.label_data(d["zd"], d["zl"], None, bg)]
        return out
    raise KeyError(op)


def same(a, b, rtol=0.0):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        x, y = x.astype("float64"), y.astype("float64")
        ok = (x == y)
        if rtol:
            with np.errstate(invalid="ignore"):
                ok |= np.abs(x - y) <= rtol * np.maximum(np.abs(x), np.abs(y))
        if not ok.all():
            return False
    return True


def same_directions(a, b, t):
    """Equal, or both directions of a cell are steepest within rounding."""
    t = t.astype("float64")
    for y, x in np.argwhere(a != b).tolist():
        s = []
        for k in (int(a[y, x]), int(b[y, x])):
            if k > 7:
                return False
            dy, dx = DELTA[k]
            if not (0 <= y + dy < t.shape[0] and 0 <= x + dx < t.shape[1]):
                return False
            s.append((t[y, x] - t[y + dy, x + dx]) / (SQ2 if k % 2 else 1.0))
        if not (min(s) > 0 and abs(s[0] - s[1]) <= 1e-12 * max(s)):
            return False
    return True


def agree(op, got, ref, d):
    if op == "flowdir":
        return len(got) == len(ref) and all(g.shape == r.shape and same_directions(g, r, d["t"]) for g, r in zip(got, ref))
    # repeated sums of tiny steps may be rounded in another order
    return same(got, ref, 1e-9 if op == "noflats" else 0.0)


_workers = {}


def worker(compiled):
    if compiled not in _workers:
        w = _workers[compiled] = Worker(compiled)
        require(w("state", None) == ("ok", (compiled, compiled)), "(available, enabled) is %r after a fresh import %s",
                w("state", None)[1], "of a complete installation" if compiled else "without the compiled modules")
        if not compiled:
            require(w("state", "enable") == ("ok", (False, False)),
                    "enable() without compiled modules: %r, expected them to stay disabled", w("state", None))
    return _workers[compiled]


def fresh(compiled, op, d):
    """The result of a process in which the speedups were never toggled."""
    kind, r = worker(compiled)(op, d)
    require(kind == "ok", "%s %s compiled modules fails: %s", op, "with" if compiled else "without", r)
    return r


def run_c15_pristine(case, rec):
    """After any toggling, each state gives exactly what a process gives that was always in this state. Terrain with
    minimum slopes has ties which the two versions may decide differently, so results tell them apart."""
    from malstroem.algorithms import speedups
    d = inputs(case)
    if case["cond"] and not case["fine"]:
        d["t"] = fresh(False, "noflats", d)[0].astype("float64")
    on = True
    set_speed(True)
    cache = {}
    for o in case["ops"]:
        if o in ("on", "off"):
            on = o == "on"
            sut(speedups.enable if on else speedups.disable)
            require(speedups.enabled == on, "speedups.enabled is %r after %s", speedups.enabled, o)
            continue
        for k in (False, True):
            if (k, o) not in cache:
                cache[k, o] = fresh(k, o, d)
        require(agree(o, cache[True, o], cache[False, o], d), "%s: compiled and pure Python results differ", o)
        got = sut(operate, o, d)
        if not same(cache[True, o], cache[False, o]):
            rec.nontrivial("told-apart-%s-%s" % (o, "on" if on else "off"))
        require(same(got, cache[on, o]), "%s with speedups %s is not what a process %s gives", o,
                "enabled" if on else "disabled", "with them" if on else "without them")
        rec.nontrivial("toggled" if len(set(case["ops"]) & {"on", "off"}) else "untoggled")


def run_c15_history(case, rec):
    """enable/disable in any order and number, routines in between: the results never depend on it."""
    from malstroem.algorithms import speedups
    d = inputs(case)
    require(speedups.available, "the compiled routines are not available")
    ref = {}
    sut(speedups.disable)
    require(not speedups.enabled, "speedups still reported as enabled")
    for op in sorted(set(o for o in case["ops"] if o in OPS)):
        ref[op] = sut(operate, op, d)
    on = False
    used = set()
    for o in case["ops"]:
        if o == "on":
            sut(speedups.enable)
            on = True
        elif o == "off":
            sut(speedups.disable)
            on = False
        else:
            got = sut(operate, o, d)
            require(agree(o, got, ref[o], d), "%s differs from pure Python with speedups %s", o, "enabled" if on else "disabled")
            used.add((o, on))
        require(speedups.enabled == on, "speedups.enabled is %r after %s", speedups.enabled, "enable" if on else "disable")
    if any(s for _, s in used):
        rec.nontrivial("toggles" if case["ops"].count("on") + case["ops"].count("off") > 2 else "few-toggles")
    for o, s in used:
        if s:
            rec.tag("op-" + o)


def run_c15_all(case, rec):
    """Every routine, once with and once without."""
    d = inputs(case)
    for op in OPS:
        set_speed(False)
        a = sut(operate, op, d)
        set_speed(True)
        b = sut(operate, op, d)
        require(agree(op, b, a, d), "%s: compiled and pure Python results differ", op)
    rec.nontrivial("labels-" + case["ldtype"], "data-" + case["ddtype"])


def run_c15_complete(case, rec):
    """The whole program gives the same files."""
    z = chain.dem_to_file(case["dem"], case["g"]).astype("float32")
    from malstroem.algorithms import fill
    w = {}
    outs = {}
    for on in (False, True):
        set_speed(on)
        s, g = sut(fill.minimum_safe_short_and_diag, z)
        w[on] = sut(fill.fill_terrain_no_flats, z.copy(), s, g)
        out = "on" if on else "off"
        os.mkdir(out)
        rio.cli_ok("complete", "-dem", "dem.tif", "-outdir", out, "-mm", repr(case["mm"]), "-zresolution", "0.25",
                   *(["-accum"] if case["accum"] else []))
        outs[on] = {f: rio.R(os.path.join(out, f)).a for f in sorted(os.listdir(out)) if f.endswith(".tif")}
    require(sorted(outs[True]) == sorted(outs[False]), "rasters written: %s and %s", sorted(outs[True]),
            sorted(outs[False]))
    if not (w[True] == w[False]).all():
        # rounding may decide ties of the conditioned terrain differently
        rec.tag("rounding-differs")
        for f in ("filled.tif", "bs_depths.tif"):
            require((outs[True][f] == outs[False][f]).all(), "%s differs with and without speedups", f)
        return
    fa, fb = outs[False]["flowdir.tif"], outs[True]["flowdir.tif"]
    if (fa != fb).any():
        require(same_directions(fa, fb, w[True]), "flowdir.tif differs with and without speedups: %s",
                first_diff(fb, fa))
        rec.tag("tie-differs")
        return
    for f in outs[True]:
        require((outs[True][f] == outs[False][f]).all(), "%s differs with and without speedups: %s", f, "" if
                (outs[True][f] == outs[False][f]).all() else
                first_diff(outs[True][f].astype("float64"), outs[False][f].astype("float64")))
    for layer in ("pourpoints", "nodes", "initvolumes", "finalstate", "hypsometry", "finallevels"):
        a = chain.props("on/malstroem.gpkg", layer)
        b = chain.props("off/malstroem.gpkg", layer)
        require(a == b, "layer %s differs with and without speedups", layer)
    if int(outs[True]["bluespots.tif"].max()) > 0:
        rec.nontrivial("complete")


# ---------------------------------------------------------------- C25


def arrange(a, how):
    """The same values in another memory layout."""
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.zeros((a.shape[0] * 2, a.shape[1] * 3), a.dtype)
        big[::2, ::3] = a
        return big[::2, ::3]
    if how == "reversed":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    return a


def run_c25(case, rec):
    """Compiled routines of the sanitised build. A stray access ends the process, which is the violation."""
    from malstroem.algorithms import fill, flow, label
    set_speed(True)
    d = inputs(case)
    how = case["layout"]
    d = {k: arrange(v, how) for k, v in d.items()}
    n = int(d["zl"].max())
    for op in case["ops"]:
        if op == "fill":
            r = sut(fill.fill_terrain, d["z"])
            require((r >= d["z"]).all(), "filled below terrain")
        elif op == "noflats":
            sut(fill.fill_terrain_no_flats, d["z"], 1e-6, 2e-6)
        elif op == "flowdir":
            r = sut(flow.terrain_flowdirection, d["t"], edges_flow_outward=case["flag"])
            require((r <= 8).all(), "flow directions outside 0..8")
        elif op == "accum":
            r = sut(flow.accumulated_flow, d["f"])
            require(((r >= 1) & (r <= d["f"].size)).all(), "accumulated flow outside 1..%d", d["f"].size)
        elif op == "trace":
            acc = np.zeros(d["f"].shape)
            sut(flow.trace_accumulated_flow, d["f"], acc, (0, d["f"].shape[1] - 1))
        elif op == "wsheds":
            if d["lab"].dtype in (np.int32, np.int64) or case["flag"]:
                w = d["lab"].copy()
                sut(flow.watersheds_from_labels, d["df"], w, unassigned=0)
                require(((d["lab"] == 0) | (w == d["lab"])).all() and w.max() <= max(d["lab"].max(), 0),
                        "watersheds change labels")
        elif op == "stats":
            sut(label.label_stats, d["zd"], d["zl"], (n + case["more"]) if case["flag"] and n else None)
        elif op == "minindex":
            sut(label.label_min_index, d["zd"], d["zl"], (n + case["more"]) if case["flag"] and n else None)
        elif op == "data":
            r = sut(label.label_data, d["zd"], d["zl"], (n + case["more"]) if case["flag"] and n else None)
            require(sum(len(v) for v in r) == int((d["zl"] != 0).sum()), "collected values")
    rec.nontrivial("layout-" + how, *["op-" + o for o in sorted(set(case["ops"]))])


DEM = st.one_of(dem_raw(9, 9), dem_flatpits(10, 10), dem_proc(22, 22))
LDT = st.sampled_from(["int32", "int32", "int32", "int64", "int64", "int16", "uint8", "uint32"])
DDT = st.sampled_from(["float32", "float64", "float64", "int32", "int64", "uint8", "int16"])
FINE = st.one_of(st.none(), st.fixed_dictionaries({"seed": st.integers(0, 2**20), "digits": st.integers(20, 43),
                                                   "what": st.sampled_from(["terrain", "flat", "ties"])}))
BASE = {"dem": DEM, "flow": flow_trees(12, 12), "drained": drained_fields(12, 12), "lab": labelings(8), "ldtype": LDT,
        "ddtype": DDT, "fine": FINE}
TOGGLES = st.lists(st.sampled_from(OPS + ["on", "off", "on", "off", "on", "off"]), min_size=2, max_size=14)

PROPS = [
    {"id": "C15", "aspects": [
        Aspect("history", st.fixed_dictionaries(dict(BASE, ops=TOGGLES)), run_c15_history, 2000, 30000),
        Aspect("pristine", st.fixed_dictionaries(dict(
            BASE, cond=bools, fine=st.one_of(st.fixed_dictionaries({"seed": st.integers(0, 2**20), "digits": st.just(30),
                                                                    "what": st.just("ties")}), FINE),
            dem=dem_proc(14, 14, 6, 6), ops=st.lists(st.sampled_from(OPS + ["flowdir"] * 6 + ["on", "off"] * 4),
                                                     min_size=2, max_size=10))), run_c15_pristine, 1200, 20000),
        Aspect("larger", st.fixed_dictionaries(dict(
            BASE, dem=dem_proc(60, 60, 20, 20), flow=flow_trees(50, 50), drained=drained_fields(50, 50),
            lab=labelings(60))), run_c15_all, 24, 800),
        Aspect("routines", st.fixed_dictionaries(BASE), run_c15_all, 1600, 24000),
        Aspect("complete", st.fixed_dictionaries({
            "dem": st.one_of(dem_raw(9, 9), dem_flatpits(10, 10), dem_proc(18, 18)), "g": georefs(),
            "mm": st.sampled_from([0.0, 5.0, 50.0, 500.0]), "accum": bools}), run_c15_complete, 160, 2400),
    ]},
    {"id": "C25", "aspects": [
        Aspect("sanitised", st.fixed_dictionaries(dict(
            BASE, ops=st.lists(st.sampled_from(OPS), min_size=1, max_size=6), flag=bools, more=st.integers(0, 3),
            layout=st.sampled_from(["plain", "fortran", "strided", "reversed"]))), run_c25, 4000, 60000),
        Aspect("larger", st.fixed_dictionaries(dict(
            BASE, dem=dem_proc(90, 90, 20, 20), flow=flow_trees(60, 60), drained=drained_fields(60, 60),
            lab=labelings(60), ops=st.just(OPS), flag=bools, more=st.integers(0, 3),
            layout=st.sampled_from(["plain", "fortran"]))), run_c25, 80, 1500),
        Aspect("thin", st.fixed_dictionaries(dict(
            BASE, dem=dem_thin(), flow=thin_flows(), lab=labelings(60), ops=st.just(OPS), flag=bools, more=st.integers(0, 3),
            layout=st.sampled_from(["plain", "fortran"]))), run_c25, 8, 100),
    ]},
]
