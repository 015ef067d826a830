"""C01 filling, C02 conditioning, C03 flow directions, C04 accumulated flow."""
import numpy as np
from hypothesis import strategies as st

from ..core import Aspect, require, sut
from ..gen import dems, dem_ties, dem_wide, dem_raw, dem_flatpits, dem_proc, dem_thin, thin_flows, decode_dem, flow_trees, decode_flow, big_flows, decode_big_flow
from ..oracle import (priority_flood, flood_no_flats, DELTA, SQ2, is_edge, flat_order, next_index, accumulate)
from .. import rio


def grid(a, shape, what):
    require(isinstance(a, np.ndarray), "%s is not an array but %s", what, type(a).__name__)
    require(a.shape == shape, "%s has shape %s instead of %s", what, a.shape, shape)
    require(a.dtype.kind in "iuf", "%s has data type %s", what, a.dtype)
    return a


def set_speed(on):
    from malstroem.algorithms import speedups
    (speedups.enable if on else speedups.disable)()


def first_diff(a, b):
    y, x = np.argwhere(a != b)[0]
    return "cell (%d,%d): got %r, expected %r" % (y, x, a[y, x].item(), b[y, x].item())


# ---------------------------------------------------------------- C01

def check_fill(case, rec, speed):
    from malstroem.algorithms import fill
    z = decode_dem(case["dem"], case.get("dtype", "float32"))
    want = priority_flood(z.astype("float32"))
    if (want != z.astype("float32")).any():
        rec.nontrivial("raised-cells")
    raised = want > z
    if raised.any() and not raised.all():
        lv = np.unique(want[raised])
        rec.tag("levels>1" if len(lv) > 1 else "one-level")
    rec.tag("kind-" + case["dem"].get("style", case["dem"]["kind"]))
    set_speed(speed)
    keep = z.copy()
    got = grid(sut(fill.fill_terrain, z), z.shape, "filled terrain")
    require((z == keep).all(), "filling modifies the input terrain")
    got = got.astype("float64")
    require((got == want).all(), "filled terrain is not the lowest depressionless surface: %s",
            "" if (got == want).all() else first_diff(got, want))
    again = sut(fill.fill_terrain, want.astype("float32"))
    require((again == want).all(), "filling a depressionless terrain changes it")


def run_c01_fast(case, rec):
    check_fill(case, rec, True)


def run_c01_py(case, rec):
    check_fill(case, rec, False)


def run_c01_cli(case, rec):
    z = decode_dem(case["dem"], "float64")
    if case["dtype"].startswith(("int", "uint")):
        z = np.round(z)
        if case["dtype"].startswith("u"):
            z = np.abs(z)
    z = z.astype(case["dtype"])
    z32 = z.astype("float32")
    want = priority_flood(z32)
    if (want != z32).any():
        rec.nontrivial("raised-cells", "dtype-" + case["dtype"])
    rio.write_tif("dem.tif", z)
    rio.cli_ok("filled", "-dem", "dem.tif", "-out", "filled.tif")
    f = rio.R("filled.tif").a
    grid(f, z.shape, "filled raster")
    require((f == want).all(), "filled raster is not the lowest depressionless surface: %s",
            "" if (f == want).all() else first_diff(f.astype("float64"), want))
    rio.cli_ok("depths", "-dem", "dem.tif", "-filled", "filled.tif", "-out", "depths.tif")
    d = rio.R("depths.tif").a
    grid(d, z.shape, "depths raster")
    wd = want.astype("float32") - z32
    require((d == wd).all(), "depths are not filled minus terrain: %s",
            "" if (d == wd).all() else first_diff(d.astype("float64"), wd.astype("float64")))


def run_c01_thin(case, rec):
    """More rows or columns than 15 or 16 bits count."""
    run_c01_cli(dict(case, dtype="float32"), rec)


# ---------------------------------------------------------------- C02

def check_noflats(case, rec, speed):
    from malstroem.algorithms import fill
    z = decode_dem(case["dem"], "float32")
    r, c = z.shape
    set_speed(speed)
    keep = z.copy()
    if case["eps"] is None:
        short, diag = sut(fill.minimum_safe_short_and_diag, z)
        short, diag = float(short), float(diag)
        big = max(1e-300, float(np.abs(z).max()))
        require(0 < short <= diag <= 2 * short, "minimum slopes %r, %r are not usable", short, diag)
        require(diag <= 1e-9 * big, "minimum slopes %r, %r are not very small (highest cell %r)", short, diag, big)
    else:
        short, diag = case["eps"], case["eps"] * SQ2
    got = grid(sut(fill.fill_terrain_no_flats, z, short, diag), z.shape, "conditioned terrain").astype("float64")
    require((z == keep).all(), "conditioning modifies the input terrain")
    want = flood_no_flats(z, short, diag)
    ulp = np.spacing(np.maximum(np.abs(want), np.abs(z).max()))
    ok = np.abs(got - want) <= 2 * ulp * (r + c)
    plain = priority_flood(z)
    if (plain > z).any():
        rec.nontrivial("raised-cells")
    interior = np.zeros(z.shape, bool)
    interior[1:-1, 1:-1] = True
    nb = np.full(z.shape, np.inf)
    for dy, dx in DELTA:
        nb[1:-1, 1:-1] = np.minimum(nb[1:-1, 1:-1], got[1 + dy:r - 1 + dy, 1 + dx:c - 1 + dx])
    require((got[interior] > nb[interior]).all(), "a cell has no strictly lower neighbour after conditioning")
    require((got[~interior] == z[~interior]).all(), "conditioning changes edge cells")
    require((got >= z).all(), "conditioned terrain lies below the terrain")
    require(ok.all(), "conditioned terrain is not the lowest surface with the minimum slopes: %s",
            "" if ok.all() else first_diff(np.where(ok, want, got), want))


def run_c02_fast(case, rec):
    check_noflats(case, rec, True)


def run_c02_py(case, rec):
    check_noflats(case, rec, False)


# ---------------------------------------------------------------- C03

def check_directions(f, t, outward, what="flow directions"):
    """f are D8 directions of terrain t."""
    r, c = t.shape
    grid(f, t.shape, what)
    f = f.astype(int)
    require(((f >= 0) & (f <= 8)).all(), "%s outside 0..8", what)
    t = t.astype("float64")
    slopes = np.full((8, r, c), -np.inf)
    for k, (dy, dx) in enumerate(DELTA):
        s = t[1:-1, 1:-1] - t[1 + dy:r - 1 + dy, 1 + dx:c - 1 + dx]
        slopes[k, 1:-1, 1:-1] = s / SQ2 if k % 2 else s
    best = slopes.max(axis=0)
    if outward:
        off = next_index(f).reshape(r, c) == -1
        off &= f < 8
        off[1:-1, 1:-1] = True
        at(off, "edge cell (%d,%d) does not flow off the raster (" + what + " %d)", f)
    else:
        ok = f == 8
        ok[1:-1, 1:-1] = True
        at(ok, "edge cell (%d,%d) has direction %d instead of none", f)
    fi, bi, si = f[1:-1, 1:-1], best[1:-1, 1:-1], slopes[:, 1:-1, 1:-1]
    at((bi > 0) | (fi == 8), "cell (%d,%d) has no lower neighbour but flows %d", fi, 1)
    at((bi <= 0) | (fi < 8), "cell (%d,%d) has a lower neighbour but no direction (%d)", fi, 1)
    mine = np.take_along_axis(si, np.minimum(fi, 7)[None], axis=0)[0]
    tol = 1e-9 * bi + 1e-322
    at((bi <= 0) | ((mine >= bi - tol) & (mine > 0)), "cell (%d,%d) flows %d, which is not the steepest way down", fi, 1)


def at(ok, msg, val, shift=0):
    if not ok.all():
        y, x = (int(v) for v in np.argwhere(~ok)[0])
        require(False, msg, y + shift, x + shift, int(val[y, x]))


def run_c03_any(case, rec):
    """Any terrain, flats and pits included."""
    from malstroem.algorithms import flow
    t = decode_dem(case["dem"], "float64")
    set_speed(case["speed"])
    f = sut(flow.terrain_flowdirection, t, edges_flow_outward=case["outward"])
    require((t == decode_dem(case["dem"], "float64")).all(), "computing flow directions modifies the terrain")
    check_directions(f, t, case["outward"])
    if t.shape[0] > 3 and len(np.unique(t)) > 2:
        rec.nontrivial("outward" if case["outward"] else "inward", "speed" if case["speed"] else "python")


def check_drainage(z, f, rec):
    """Every cell of terrain z drains off the raster, never uphill on the filled surface, and the flow leaves at the
    spill height."""
    r, c = z.shape
    grid(f, z.shape, "flow directions")
    require(((f >= 0) & (f <= 7)).all(), "a cell has no flow direction")
    require(flat_order(f)[0] is not None, "flow directions form a cycle")
    filled = priority_flood(z)
    tol = r * c * 1e-9 * max(1.0, float(np.abs(z).max())) * 1e-2
    nxt = next_index(f).reshape(r, c)
    rim = np.ones((r, c), bool)
    rim[1:-1, 1:-1] = False
    at((nxt >= 0) | rim, "flow ends at interior cell (%d,%d), direction %d", f)
    at((nxt < 0) | ~rim, "edge cell (%d,%d) does not flow off the raster (%d)", f)
    low = np.where(nxt >= 0, filled.ravel()[np.maximum(nxt, 0)], -np.inf)
    at(low <= filled + tol, "water flows uphill from (%d,%d), direction %d", f)
    # outside depressions water takes the steepest way down
    fi = f[1:-1, 1:-1].astype(int)
    s = np.full((8, r - 2, c - 2), -np.inf)
    for k, (dy, dx) in enumerate(DELTA):
        s[k] = (filled[1:-1, 1:-1] - filled[1 + dy:r - 1 + dy, 1 + dx:c - 1 + dx]) / (SQ2 if k % 2 else 1.0)
    mine = np.take_along_axis(s, fi[None], axis=0)[0]
    at((filled > z)[1:-1, 1:-1] | (mine >= s.max(axis=0) - 2 * tol), "cell (%d,%d) does not flow along the steepest descent (%d)",
       fi, 1)
    return filled


def run_c03_cli(case, rec):
    z = decode_dem(case["dem"], "float32")
    rio.write_tif("dem.tif", z)
    rio.cli_ok("flowdir", "-dem", "dem.tif", "-out", "fd.tif")
    filled = check_drainage(z, rio.R("fd.tif").a, rec)
    if (filled > z).any():
        rec.nontrivial("with-depressions")


def run_c03_tool(case, rec):
    """API chain with and without speedups."""
    from malstroem.algorithms import fill, flow
    z = decode_dem(case["dem"], "float32")
    set_speed(case["speed"])
    short, diag = sut(fill.minimum_safe_short_and_diag, z)
    w = sut(fill.fill_terrain_no_flats, z, short, diag)
    f = sut(flow.terrain_flowdirection, w)
    filled = check_drainage(z, f, rec)
    if (filled > z).any():
        rec.nontrivial("with-depressions")


def run_c03_thin(case, rec):
    if case["how"] == "any":
        run_c03_any(dict(case, speed=True, outward=case["dem"]["seed"] % 2 == 0), rec)
    elif case["how"] == "chain":
        run_c03_tool(dict(case, speed=True), rec)
    else:
        run_c03_cli(case, rec)


# ---------------------------------------------------------------- C04

def run_c04(case, rec):
    from malstroem.algorithms import flow
    f = decode_flow(case["flow"])
    set_speed(case["speed"])
    g = f.copy()
    a = grid(sut(flow.accumulated_flow, f), f.shape, "accumulated flow")
    require((f == g).all(), "accumulating modifies the flow directions")
    want = accumulate(f)
    ok = a.astype("float64") == want
    require(ok.all(), "accumulated flow is not the number of cells draining through: %s",
            "" if ok.all() else first_diff(a.astype("float64"), want))
    if want.max() > 3:
        rec.nontrivial("confluence" if (np.bincount([int(v) for v in want.ravel()])[1:] > 0).sum() > 2 else "chain")
    if (f == 8).any():
        rec.tag("with-sinks")
    rec.tag("speed" if case["speed"] else "python")


def run_c04_large(case, rec):
    """More cells through one cell than small counters hold."""
    from malstroem.algorithms import flow
    f = decode_big_flow(case["flow"])
    want = accumulate(f)
    set_speed(case["speed"])
    if case["cli"]:
        rio.write_tif("f.tif", f)
        rio.cli_ok("accum", "-flowdir", "f.tif", "-out", "a.tif")
        a = grid(rio.R("a.tif").a, f.shape, "accumulated flow")
    else:
        a = grid(sut(flow.accumulated_flow, f), f.shape, "accumulated flow")
    ok = a.astype("float64") == want
    require(ok.all(), "accumulated flow is not the number of cells draining through: %s",
            "" if ok.all() else first_diff(a.astype("float64"), want))
    rec.nontrivial("over-65535" if want.max() > 65535 else "over-32767" if want.max() > 32767 else "large",
                   "large-" + case["flow"].get("style", "thin"))


def run_c04_cli(case, rec):
    f = decode_flow(case["flow"])
    rio.write_tif("f.tif", f)
    rio.cli_ok("accum", "-flowdir", "f.tif", "-out", "a.tif")
    a = rio.R("a.tif").a
    grid(a, f.shape, "accumulated flow")
    want = accumulate(f)
    require((a == want).all(), "accum raster is not the number of cells draining through: %s",
            "" if (a == want).all() else first_diff(a.astype("float64"), want))
    if want.max() > 3:
        rec.nontrivial("cli")


def run_c04_dem(case, rec):
    """From terrain: conservation over the outlets."""
    from malstroem.algorithms import fill, flow
    z = decode_dem(case["dem"], "float32")
    set_speed(case["speed"])
    short, diag = sut(fill.minimum_safe_short_and_diag, z)
    f = sut(flow.terrain_flowdirection, sut(fill.fill_terrain_no_flats, z, short, diag))
    a = grid(sut(flow.accumulated_flow, f), z.shape, "accumulated flow")
    rim = sum(a[y, x] for y in range(z.shape[0]) for x in range(z.shape[1]) if is_edge(*z.shape, y, x))
    require(float(rim) == z.size, "outlets receive %r of %d cells", float(rim), z.size)
    require((a >= 1).all(), "a cell has accumulated flow below one")
    require((a == accumulate(f)).all(), "accumulated flow is not the number of cells draining through")
    rec.nontrivial("dem")


bools = st.booleans()
D = dems()
Dsmall = st.one_of(dem_raw(7, 7), dem_flatpits(9, 9), dem_proc(16, 16), dem_ties(7, 7), dem_wide(7, 7))
DT = ["float32", "float32", "float64", "int16", "int32", "uint8", "uint16"]

PROPS = [
    {"id": "C01", "aspects": [
        Aspect("fill-fast", st.fixed_dictionaries({"dem": D, "dtype": st.sampled_from(["float32", "float32", "float64", "int16"])}) .map(lambda c: c if not c["dtype"].startswith("int") else dict(c, dtype="float64")), run_c01_fast, 6000, 80000),
        Aspect("fill-python", st.fixed_dictionaries({"dem": Dsmall}), run_c01_py, 800, 12000),
        Aspect("fill-cli", st.fixed_dictionaries({"dem": D, "dtype": st.sampled_from(DT)}), run_c01_cli, 1200, 15000),
        Aspect("fill-large", st.fixed_dictionaries({"dem": dem_proc(140, 140, 60, 60)}), run_c01_fast, 40, 600),
        Aspect("fill-thin", st.fixed_dictionaries({"dem": dem_thin()}), run_c01_thin, 8, 100),
    ]},
    {"id": "C02", "aspects": [
        Aspect("noflats-fast", st.fixed_dictionaries({"dem": D, "eps": st.sampled_from([None, None, 0.001, 0.5, 1.0])}),
               run_c02_fast, 4000, 60000),
        Aspect("noflats-wide", st.fixed_dictionaries({"dem": dem_wide(), "eps": st.none()}), run_c02_fast, 1600, 20000),
        Aspect("noflats-python", st.fixed_dictionaries({"dem": Dsmall, "eps": st.sampled_from([None, None, 0.01])}),
               run_c02_py, 500, 8000),
        Aspect("noflats-large", st.fixed_dictionaries({"dem": dem_proc(110, 110, 50, 50), "eps": st.none()}),
               run_c02_fast, 40, 500),
    ]},
    {"id": "C03", "aspects": [
        Aspect("any-terrain", st.fixed_dictionaries({"dem": Dsmall, "speed": bools, "outward": bools}), run_c03_any, 2400, 40000),
        Aspect("drainage", st.fixed_dictionaries({"dem": st.one_of(dem_raw(8, 8), dem_flatpits(), dem_proc(24, 24), dem_ties(), dem_wide()),
                                                  "speed": st.sampled_from([True, True, True, False])}),
               run_c03_tool, 1600, 30000),
        Aspect("cli", st.fixed_dictionaries({"dem": dems(9, 30)}), run_c03_cli, 600, 9000),
        Aspect("thin", st.fixed_dictionaries({"dem": dem_thin(), "how": st.sampled_from(["any", "chain", "cli"])}), run_c03_thin, 4, 80),
    ]},
    {"id": "C04", "aspects": [
        Aspect("fields", st.fixed_dictionaries({"flow": flow_trees(12, 12), "speed": bools}), run_c04, 4000, 80000),
        Aspect("cli", st.fixed_dictionaries({"flow": flow_trees(30, 30)}), run_c04_cli, 600, 8000),
        Aspect("large", st.fixed_dictionaries({"flow": st.one_of(big_flows(), big_flows(260, 330)), "speed": st.just(True), "cli": bools}), run_c04_large, 64, 600),
        Aspect("large-python", st.fixed_dictionaries({"flow": big_flows(40, 90), "speed": st.just(False), "cli": st.just(False)}), run_c04_large, 24, 200),
        Aspect("thin", st.fixed_dictionaries({"flow": thin_flows(), "speed": st.just(True), "cli": bools}), run_c04_large, 8, 100),
        Aspect("dem", st.fixed_dictionaries({"dem": dems(8, 30), "speed": st.sampled_from([True, True, False])}), run_c04_dem, 800, 12000),
    ]},
]
