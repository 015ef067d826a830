"""C18 complete is the chain, C20 end to end, C21 refusals, C22 metamorphic, C23 georeference, C27 nodata, C28 histories."""
import hashlib
import json
import math
import os
import resource
import shutil
import signal
import tempfile

import numpy as np
from hypothesis import strategies as st
from osgeo import ogr

from ..core import Aspect, Violation, require, fail, sut
from ..gen import (dem_raw, dem_flatpits, dem_proc, decode_dem, georefs, transform_of, CELLS)
from ..oracle import priority_flood, components8, same_partition, downstream
from .. import rio, chain
from ..chain import close, by_id
from .files import same_geom
from .surface import first_diff, set_speed

bools = st.booleans()
G = georefs()
FLT = st.sampled_from([None, None, "maxdepth > 0.3", "area > 2.5", "volume > 1", "maxdepth > 0.05 and (area > 2 or volume > 0.5)"])
MM = st.sampled_from([0.0, 0.5, 5.0, 20.0, 100.0, 700.0, 5000.0, 0.035, 7.3125, 33.333333, 1234.56789])
ZR = st.sampled_from([0.01, 0.1, 0.25, 1.0, 0.03, 0.125, 0.333333, 1.0625])
MANY = st.one_of(dem_raw(11, 11, 4, 4), dem_raw(14, 14, 9, 9), dem_flatpits(11, 11), dem_proc(32, 32, 6, 6),
                 dem_proc(26, 26, 12, 12))

RASTERS = {"filled.tif": "filled.tif", "flowdir.tif": "flowdir.tif", "bs_depths.tif": "depths.tif",
           "bluespots.tif": "bspots.tif", "watersheds.tif": "wsheds.tif", "finaldepths.tif": "finaldepths.tif",
           "finalbluespots.tif": "finalbspots.tif"}
LAYERS = {"pourpoints": "pourpoints", "nodes": "nodes", "streams": "streams", "initvolumes": "initvolumes",
          "finalstate": "finalvolumes", "hypsometry": "hyps", "finallevels": "finallevels"}
KEY = {"pourpoints": "bspot_id", "nodes": "nodeid", "streams": None, "initvolumes": "nodeid", "finalstate": "nodeid",
       "hypsometry": "bspot_id", "finallevels": "bspot_id", "finalbluespots": "bspot_id"}


def complete(out, mm, zres, accum=False, vector=False, flt=None, dem="dem.tif"):
    os.mkdir(out)
    a = ["complete", "-dem", dem, "-outdir", out, "-mm", repr(mm), "-zresolution", repr(zres)]
    a += ["-accum"] if accum else []
    a += ["-vector"] if vector else []
    a += ["-filter", flt] if flt else []
    rio.cli_ok(*a)
    return out


def same_value(a, b, rtol=1e-9):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-9 + rtol * max(abs(a), abs(b))
    return a == b


def rows_of(path, layer):
    feats = rio.read_layer(path, layer)[0]
    # identified by content: the order of features carries no meaning
    return sorted(feats, key=lambda f: (json.dumps([f["props"].get(k) for k in ("nodeid", "bspot_id")]),
                                        json.dumps(f["geom"])))


def compare_rows(a, b, what, ignore=()):
    require(len(a) == len(b), "%s: %d features and %d features", what, len(a), len(b))
    for x, y in zip(a, b):
        require(set(x["props"]) == set(y["props"]), "%s: attributes %s and %s", what, sorted(x["props"]),
                sorted(y["props"]))
        for k in x["props"]:
            if k not in ignore:
                require(same_value(x["props"][k], y["props"][k]), "%s: %s is %r and %r", what, k, x["props"][k],
                        y["props"][k])
        require(same_geom(x["geom"], y["geom"]), "%s: geometries differ", what)


def same_raster(a, b, what):
    x, y = rio.R(a), rio.R(b)
    require(x.shape == y.shape and (x.a == y.a).all(), "%s differs: %s", what, "shape" if x.shape != y.shape else
            "" if (x.a == y.a).all() else first_diff(x.a.astype("float64"), y.a.astype("float64")))
    return x.a


# ---------------------------------------------------------------- C18


def cli_chain(mm, zres, accum, flt, dem="dem.tif"):
    chain.surface(dem=dem, accum=accum)
    chain.bluespots(flt)
    chain.pourpoints("accum" if accum else "dem", dem=dem)
    chain.network()
    chain.hypsometry(zres, dem=dem)
    chain.initvolumes(mm)
    chain.finalvolumes()
    chain.finallevels()
    chain.finalbluespots(dem=dem)


def run_c18(case, rec):
    chain.dem_to_file(case["dem"], case["g"], dtype=case["dtype"])
    o = complete("o", case["mm"], case["zres"], case["accum"], case["vector"], case["filter"])
    cli_chain(case["mm"], case["zres"], case["accum"], case["filter"])
    for a, b in RASTERS.items():
        same_raster(os.path.join(o, a), b, a)
    require(os.path.exists(os.path.join(o, "accum.tif")) == case["accum"], "accum.tif written without being asked for, "
            "or not written")
    if case["accum"]:
        same_raster(os.path.join(o, "accum.tif"), "accum.tif", "accum.tif")
    g = os.path.join(o, "malstroem.gpkg")
    for a, b in LAYERS.items():
        compare_rows(rows_of(g, a), rows_of("r.gpkg", b), "layer " + a)
    for raster, layer in [("finalbspots.tif", "finalbluespots")] + (
            [("bspots.tif", "bluespots"), ("wsheds.tif", "watersheds")] if case["vector"] else []):
        rio.cli_ok("polys", "-raster", raster, "-out", "p.gpkg", "-layername", layer, "-format", "gpkg")
        b = rows_of("p.gpkg", layer)
        if layer in rio.layer_names(g) or b:
            compare_rows(rows_of(g, layer), b, "layer " + layer)
    files = set(RASTERS) | {"malstroem.gpkg"} | ({"accum.tif"} if case["accum"] else set())
    require(set(os.listdir(o)) == files, "complete writes %s and not %s", sorted(set(os.listdir(o)) - files),
            sorted(files - set(os.listdir(o))))
    if not case["vector"]:
        require("bluespots" not in rio.layer_names(g) and "watersheds" not in rio.layer_names(g),
                "polygon layers without -vector")
    n = int(rio.R("bspots.tif").a.max())
    if n:
        rec.nontrivial("bluespots>1" if n > 1 else "bluespots", "accum" if case["accum"] else "dem",
                       "filter" if case["filter"] else "no-filter")


# ---------------------------------------------------------------- C20

NDS = {"none": None, "low": -9999.0, "std": -999.0, "high": 9999.0, "nan": math.nan, "esri": -3.4028234663852886e+38}


@st.composite
def full_cases(draw):
    dt = draw(st.sampled_from(["float32", "float32", "float64", "int16", "int32", "uint8", "uint16"]))
    nd = draw(st.sampled_from(["none", "none", "low", "std", "high", "nan", "esri"]))
    if dt.startswith(("int", "uint")) and nd in ("nan", "esri"):
        nd = "low"
    if dt.startswith("uint") and nd in ("low", "std"):
        nd = "high"
    if dt == "uint8" and nd == "high":
        nd = "none"
    return {"dem": draw(st.one_of(MANY, dem_raw(4, 4))), "g": draw(G), "dtype": dt, "nodata": nd,
            "holes": draw(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)).map(list), max_size=6)) if nd != "none"
            else [], "accum": draw(bools), "vector": draw(bools), "filter": draw(FLT), "zres": draw(ZR),
            "mm": [draw(MM), draw(MM)]}


def terrain(case, path="dem.tif"):
    """Writes the DEM; returns the terrain malstroem documents to work on (nodata replaced by -999)."""
    z = chain.dem_to_file(case["dem"], case["g"], path, case["dtype"], NDS[case["nodata"]], case["holes"])
    z = z.astype("float64")
    for y, x in case["holes"]:
        z[y % z.shape[0], x % z.shape[1]] = -999
    return z.astype("float32")


def final_fields(o):
    g = os.path.join(o, "malstroem.gpkg")
    return {"nodes": rio.read_layer(g, "nodes")[0], "state": by_id(g, "finalstate", "nodeid"),
            "levels": by_id(g, "finallevels", "bspot_id"), "init": by_id(g, "initvolumes", "nodeid"),
            "pp": by_id(g, "pourpoints"), "hyps": by_id(g, "hypsometry"),
            "depths": rio.R(os.path.join(o, "finaldepths.tif")).a.astype("float64"),
            "labels": rio.R(os.path.join(o, "finalbluespots.tif")).a,
            "full": rio.R(os.path.join(o, "bs_depths.tif")).a.astype("float64"),
            "bs": rio.R(os.path.join(o, "bluespots.tif")).a, "ws": rio.R(os.path.join(o, "watersheds.tif")).a,
            "filled": rio.R(os.path.join(o, "filled.tif")).a.astype("float64"),
            "flow": rio.R(os.path.join(o, "flowdir.tif")).a}


def check_output(x, z, case, mm, rec):
    t = transform_of(case["g"])
    ca = abs(t[1] * t[5])
    want = priority_flood(z)
    z64 = z.astype("float64")
    require((x["filled"] == want).all(), "filled.tif is not the filled terrain")
    require((x["full"] == (want.astype("float32") - z).astype("float64")).all(), "bs_depths.tif is not filled minus terrain")
    bs, n = x["bs"], int(x["bs"].max())
    lab, nraw = components8(x["full"] > 0)
    if not case["filter"]:
        require(same_partition(bs, lab), "bluespots.tif does not number the connected wet areas")
    else:
        inside = (bs == 0) | (lab > 0)
        require(inside.all(), "bluespots outside of the wet areas")
        for k in range(1, n + 1):
            m = bs == k
            require(m.any() and (lab[m] == lab[m][0]).all() and (bs[lab == lab[m][0]] == k).all(),
                    "bluespot %d is not one whole wet area", k)
    ids = list(range(n + 1))
    require(sorted(x["pp"]) == ids and sorted(x["hyps"]) == ids and sorted(x["levels"]) == ids,
            "%d bluespots, but pour points %s, hypsometry %s, levels %s", n, sorted(x["pp"])[:9], sorted(x["hyps"])[:9],
            sorted(x["levels"])[:9])
    nodes = {f["props"]["nodeid"]: f["props"] for f in x["nodes"]}
    require(set(nodes) == set(x["state"]) == set(x["init"]), "nodes, initvolumes and finalstate have different nodes")
    require(set(nodes) >= set(ids), "a bluespot has no node")
    total = mm * 1e-3 * z.size * ca
    inp = sum(f["props"]["inputv"] for f in x["init"].values())
    require(close(inp, total, 1e-7, 1e-9), "%r m3 of rain fall on the raster, %r m3 enter the network", total, inp)
    out = 0.0
    for i, f in x["state"].items():
        p = f["props"]
        require(p["v"] >= 0 and p["spillv"] >= 0 and p["v"] <= p["bspot_vol"] * (1 + 1e-9) + 1e-9,
                "node %s holds %r of %r and spills %r", i, p["v"], p["bspot_vol"], p["spillv"])
        out += p["v"] + (p["spillv"] if p["dstrnodeid"] is None else 0.0)
        require(close(p["wshed_area"], int((x["ws"] == i).sum()) * ca if i <= n else 0.0), "node %s: watershed area %r",
                i, p["wshed_area"])
    require(close(out, total, 1e-7, 1e-6), "of %r m3 of rain %r m3 are stored or leave the raster", total, out)
    require(len({i for i, f in x["state"].items() if f["props"]["dstrnodeid"] is None}) >= 1, "the network has no outlet")
    tol = 1e-5 * np.maximum(1.0, np.abs(z64))
    fd = x["depths"]
    require((fd >= 0).all() and (fd[bs == 0] == 0).all(), "final water outside of the bluespots")
    require((fd <= x["full"] + tol).all(), "final depths exceed the depths of full bluespots by %r",
            float((fd - x["full"]).max()))
    require(((x["labels"] == 0) | (x["labels"] == bs)).all(), "final bluespots outside of the bluespots")
    require((x["labels"][fd > tol] == bs[fd > tol]).all(), "a flooded cell belongs to no final bluespot")
    for k in range(1, n + 1):
        m = bs == k
        p = x["state"][k]["props"]
        cap = float(x["full"][m].sum()) * ca
        require(close(p["bspot_vol"], cap, 1e-6, 1e-6), "bluespot %d holds %r, its depths sum up to %r", k, p["bspot_vol"],
                cap)
        lev = x["levels"][k]["props"]["approx_z"]
        w = np.maximum(lev - z64[m], 0.0)
        require((np.abs(w - fd[m]) <= tol[m]).all(), "final depths of bluespot %d do not belong to its level %r", k, lev)
        vol = float(fd[m].sum()) * ca
        # the level is estimated from a histogram with bins of zres
        bound = 3 * case["zres"] * m.sum() * ca + 1e-3 * cap + float(tol[m].sum()) * ca
        require(abs(vol - p["v"]) <= bound, "bluespot %d: %r m3 in the final state, %r m3 in the final depths (bins of %r)",
                k, p["v"], vol, case["zres"])
        if p["v"] <= 0:
            require((fd[m] <= tol[m]).all(), "bluespot %d is empty but has water", k)
        if p["v"] >= cap * (1 - 1e-9):
            require((np.abs(fd[m] - x["full"][m]) <= tol[m]).all(), "bluespot %d is full but its depths are not", k)
    if n:
        v = [x["state"][k]["props"] for k in range(1, n + 1)]
        part = any(0 < p["v"] < p["bspot_vol"] for p in v)
        rec.nontrivial("partly-filled" if part else "full-or-empty", "bluespots>1" if n > 1 else "one-bluespot")
    else:
        rec.tag("no-bluespot")


def run_c20(case, rec):
    z = terrain(case)
    before = open("dem.tif", "rb").read()
    lo, hi = sorted(case["mm"])
    if n_bins(z, case["zres"]) > 6000:
        case = dict(case, zres=1.0)
        if n_bins(z, 1.0) > 20000:
            return
    xs = []
    for name, mm in (("lo", lo), ("hi", hi)):
        complete(name, mm, case["zres"], case["accum"], case["vector"], case["filter"])
        x = final_fields(name)
        check_output(x, z, case, mm, rec)
        xs.append(x)
    require(open("dem.tif", "rb").read() == before, "the DEM was changed")
    a, b = xs
    for i in a["state"]:
        p, q = a["state"][i]["props"], b["state"][i]["props"]
        eps = 1e-9 + 1e-9 * abs(q["v"])
        require(q["v"] >= p["v"] - eps and q["spillv"] >= p["spillv"] - 1e-9 * (1 + abs(p["spillv"])),
                "more rain (%r instead of %r mm) leaves less water at node %s", hi, lo, i)
    for k in a["levels"]:
        if k:
            p, q = a["levels"][k]["props"]["approx_z"], b["levels"][k]["props"]["approx_z"]
            require(q >= p - 1e-6 * max(1.0, abs(p)), "more rain lowers the level of bluespot %d from %r to %r", k, p, q)
    tol = 1e-5 * np.maximum(1.0, np.abs(z.astype("float64")))
    require((b["depths"] >= a["depths"] - tol).all(), "more rain lowers a final depth")
    rec.tag("dtype-" + case["dtype"], "nodata-" + case["nodata"])


def n_bins(z, res):
    return (float(z.max()) - float(z.min())) / res


# ---------------------------------------------------------------- C21

PREP = {"r": 5, "c": 6, "kind": "edits", "tilt": 1, "tiltc": 0, "edits": [[2, 2, -4], [3, 4, -3]], "base": 10.0, "scale": 1.0}


def tree(root="."):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            out[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
        out[d + "/"] = "dir"
    return out


BADFILTERS = ["depth > 1", "area > 2; import os", "volume >", "area > 1 or", "__import__('os')", "max > 3", "area + 1 > 2",
              "volume > 1 and width < 3", "Area > 2", "(area > 1", "'a'", "area > x", "print(1)", "area > 1 && volume > 2"]

REFUSALS = {
    # name: (argument list builder, may write)
    "complete-nonempty": lambda c: ["complete", "-dem", "dem.tif", "-outdir", "full", "-mm", "10", "-zresolution", "0.1"],
    "complete-no-outdir": lambda c: ["complete", "-dem", "dem.tif", "-outdir", "nowhere", "-mm", "10", "-zresolution", "0.1"],
    "complete-outdir-file": lambda c: ["complete", "-dem", "dem.tif", "-outdir", "afile", "-mm", "10", "-zresolution", "0.1"],
    "complete-no-mm": lambda c: ["complete", "-dem", "dem.tif", "-outdir", "empty", "-zresolution", "0.1"],
    "complete-no-zres": lambda c: ["complete", "-dem", "dem.tif", "-outdir", "empty", "-mm", "10"],
    "complete-bad-mm": lambda c: ["complete", "-dem", "dem.tif", "-outdir", "empty", "-mm", "much", "-zresolution", "0.1"],
    "complete-no-dem": lambda c: ["complete", "-dem", "nodem.tif", "-outdir", "empty", "-mm", "10", "-zresolution", "0.1"],
    "complete-bad-dem": lambda c: ["complete", "-dem", "afile", "-outdir", "empty", "-mm", "10", "-zresolution", "0.1"],
    "complete-bad-filter": lambda c: ["complete", "-dem", "dem.tif", "-outdir", "empty", "-mm", "10", "-zresolution", "0.1",
                                      "-filter", c["filter"]],
    "complete-oblong-cells": lambda c: ["complete", "-dem", "oblong.tif", "-outdir", "empty", "-mm", "10", "-zresolution", "0.1"],
    "bspots-bad-filter": lambda c: ["bspots", "-depths", "depths.tif", "-out", "new.tif", "-filter", c["filter"]],
    "bspots-no-depths": lambda c: ["bspots", "-depths", "nodepths.tif", "-out", "new.tif"],
    "pourpts-neither": lambda c: ["pourpts", "-bluespots", "bspots.tif", "-depths", "depths.tif", "-watersheds",
                                  "wsheds.tif", "-out", "new.gpkg", "-format", "gpkg"],
    "init-both": lambda c: ["initvolumes", "-nodes", "r.gpkg", "-mm", c["mm"], "-pr", "depths.tif", "-bluespots",
                            "bspots.tif", "-out", "new.gpkg", "-format", "gpkg"],
    "init-neither": lambda c: ["initvolumes", "-nodes", "r.gpkg", "-out", "new.gpkg", "-format", "gpkg"],
    "init-no-bluespots": lambda c: ["initvolumes", "-nodes", "r.gpkg", "-pr", "depths.tif", "-out", "new.gpkg", "-format",
                                    "gpkg"],
    "init-bad-unit": lambda c: ["initvolumes", "-nodes", "r.gpkg", "-pr", "depths.tif", "-bluespots", "bspots.tif", "-pr_unit",
                                "gallons", "-out", "new.gpkg", "-format", "gpkg"],
    "init-other-shape": lambda c: ["initvolumes", "-nodes", "r.gpkg", "-pr", "other.tif", "-bluespots", "bspots.tif", "-out",
                                   "new.gpkg", "-format", "gpkg"],
    "init-no-layer": lambda c: ["initvolumes", "-nodes", "r.gpkg", "-nodes_layer", "nosuch", "-mm", "3", "-out", "new.gpkg",
                                "-format", "gpkg"],
    "finalvol-no-layer": lambda c: ["finalvolumes", "-inputvolumes", "r.gpkg", "-inputvolumes_layer", "nosuch", "-out",
                                    "new.gpkg", "-format", "gpkg"],
    "init-no-layer-single": lambda c: ["initvolumes", "-nodes", c["one"], "-nodes_layer", "nosuch", "-mm", "3", "-out", "new.gpkg",
                                       "-format", "gpkg"],
    "network-no-layer-single": lambda c: ["network", "-bluespots", "bspots.tif", "-flowdir", "flowdir.tif", "-pourpoints",
                                          c["one"], "-pourpoints_layer", "pourpoint", "-out", "new.gpkg", "-format", "gpkg"],
    "finalvol-no-layer-single": lambda c: ["finalvolumes", "-inputvolumes", c["one"], "-inputvolumes_layer", "iv2", "-out",
                                           "new.gpkg", "-format", "gpkg"],
    "finallev-no-layer-single": lambda c: ["finallevels", "-finalvols", c["one"], "-finalvols_layer", "nosuch", "-hyps", "r.gpkg",
                                           "-out", "new.gpkg", "-format", "gpkg"],
    "finallev-no-hyps-single": lambda c: ["finallevels", "-finalvols", "r.gpkg", "-finalvols_layer", "finalvolumes", "-hyps",
                                          c["one"], "-hyps_layer", "nosuch", "-out", "new.gpkg", "-format", "gpkg"],
    "finallev-no-hyps": lambda c: ["finallevels", "-finalvols", "r.gpkg", "-finalvols_layer", "finalvolumes", "-hyps",
                                   "r.gpkg", "-hyps_layer", "nosuch", "-out", "new.gpkg", "-format", "gpkg"],
    "finalbs-no-layer-single": lambda c: ["finalbluespots", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-finallevels", c["one"],
                                          "-finallevels_layer", "nosuch", "-out_depths", "new.tif"],
    "hyps-no-layer": lambda c: ["hyps", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-pourpoints", "r.gpkg",
                                "-pourpoints_layer", "nosuch", "-zresolution", "0.1", "-out", "new.csv"],
    "hyps-no-layer-single": lambda c: ["hyps", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-pourpoints", c["one"],
                                       "-pourpoints_layer", "nosuch", "-zresolution", "0.1", "-out", "new.csv"],
    "finalvol-no-attr": lambda c: ["finalvolumes", "-inputvolumes", "r.gpkg", "-inputvolumes_layer", "iv", "-a", "nosuch",
                                   "-out", "new.gpkg", "-format", "gpkg"],
    "finalvol-no-source": lambda c: ["finalvolumes", "-inputvolumes", "none.gpkg", "-out", "new.gpkg", "-format", "gpkg"],
    "finalbs-no-out": lambda c: ["finalbluespots", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-finallevels", "r.gpkg",
                                 "-finallevels_layer", "fl"],
    "finalbs-no-layer": lambda c: ["finalbluespots", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-finallevels", "r.gpkg",
                                   "-finallevels_layer", "nosuch", "-out_depths", "new.tif"],
    "hyps-zres": lambda c: ["hyps", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-pourpoints", "r.gpkg", "-zresolution",
                            c["zres"], "-out", "new.csv"],
    "hyps-other-shape": lambda c: ["hyps", "-bluespots", "bspots.tif", "-dem", "other.tif", "-pourpoints", "r.gpkg",
                                   "-zresolution", "0.1", "-out", "new.csv"],
    "hyps-other-cells": lambda c: ["hyps", "-bluespots", "bspots.tif", "-dem", "coarse.tif", "-pourpoints", "r.gpkg",
                                   "-zresolution", "0.1", "-out", "new.csv"],
    "hyps-other-pourpoints": lambda c: ["hyps", "-bluespots", "more.tif", "-dem", "dem.tif", "-pourpoints", "r.gpkg",
                                        "-zresolution", "0.1", "-out", "new.csv"],
    "depths-other-shape": lambda c: ["depths", "-dem", "dem.tif", "-filled", "other.tif", "-out", "new.tif"],
    "network-no-layer": lambda c: ["network", "-bluespots", "bspots.tif", "-flowdir", "flowdir.tif", "-pourpoints", "r.gpkg",
                                   "-pourpoints_layer", "nosuch", "-out", "new.gpkg", "-format", "gpkg"],
    "out-no-dir-raster": lambda c: c["raster"] + ["-out", "nowhere/new.tif"],
    "out-below-file-raster": lambda c: c["raster"] + ["-out", "afile/new.tif"],
    "out-is-dir-raster": lambda c: c["raster"] + ["-out", "empty"],
    "out-no-dir-vector": lambda c: c["vector"] + ["-out", "nowhere/new." + c["fmt"][1], "-format", c["fmt"][0]],
    "out-below-file-vector": lambda c: c["vector"] + ["-out", "afile/new." + c["fmt"][1], "-format", c["fmt"][0]],
    "out-is-dir-vector": lambda c: c["vector"] + ["-out", "empty", "-format", ["gpkg", "geojson"][c["pick"] % 2]],
    "out-unknown-format": lambda c: c["vector"] + ["-out", "new.gpkg", "-format", "nosuch"],
    "out-existing-layer": lambda c: ["finalvolumes", "-inputvolumes", "r.gpkg", "-inputvolumes_layer", "iv", "-out", "r.gpkg", "-out_layer",
                                     ["nodes", "iv", "finalvolumes"][c["pick"] % 3], "-format", "gpkg"],
    "unknown-command": lambda c: ["fill", "-dem", "dem.tif", "-out", "new.tif"],
    "unknown-option": lambda c: ["filled", "-dem", "dem.tif", "-out", "new.tif", "-zz", "3"],
}


RASTER_CMDS = [["filled", "-dem", "dem.tif"], ["depths", "-dem", "dem.tif", "-filled", "filled.tif"], ["flowdir", "-dem", "dem.tif"],
               ["accum", "-flowdir", "flowdir.tif"], ["bspots", "-depths", "depths.tif"],
               ["wsheds", "-bluespots", "bspots.tif", "-flowdir", "flowdir.tif"]]
VECTOR_CMDS = [["pourpts", "-bluespots", "bspots.tif", "-depths", "depths.tif", "-watersheds", "wsheds.tif", "-dem", "dem.tif"],
               ["network", "-bluespots", "bspots.tif", "-flowdir", "flowdir.tif", "-pourpoints", "r.gpkg"],
               ["hyps", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-pourpoints", "r.gpkg", "-zresolution", "0.5"],
               ["initvolumes", "-nodes", "r.gpkg", "-mm", "10"], ["finalvolumes", "-inputvolumes", "r.gpkg", "-inputvolumes_layer", "iv"],
               ["finallevels", "-finalvols", "r.gpkg", "-hyps", "r.gpkg"], ["polys", "-raster", "wsheds.tif"]]


def run_c21(case, rec):
    g = case["g"]
    t = transform_of(g)
    z = chain.dem_to_file(case["dem"] if case["dem"] else PREP, g)
    chain.surface()
    chain.bluespots()
    chain.pourpoints("accum")
    chain.network()
    chain.initvolumes(10.0, layer="iv")
    chain.hypsometry(0.5)
    chain.finalvolumes(src="iv")
    chain.finallevels(layer="fl")
    rio.write_tif("other.tif", np.zeros((z.shape[0] + 1, z.shape[1] + 2), "float32"), t, g["epsg"])
    rio.write_tif("oblong.tif", z, (t[0], t[1] * case["ratio"], 0, t[3], 0, t[5]), g["epsg"])
    rio.write_tif("coarse.tif", z, (t[0], t[1] * 2, 0, t[3], 0, t[5] * 2), g["epsg"])
    lab = rio.R("bspots.tif").a.astype("int32")
    lab[0, 0] = lab.max() + 3
    rio.write_tif("more.tif", lab, t, g["epsg"], 0)
    os.mkdir("empty")
    os.mkdir("full")
    if case["junk"] == "file":
        open("full/keep.txt", "w").write("x")
    elif case["junk"] == "hidden":
        open("full/.keep", "w").write("x")
    elif case["junk"] == "dir":
        os.mkdir("full/sub")
    else:
        open("full/malstroem.gpkg", "w").write("x")
    open("afile", "w").write("no raster")
    if case["what"].endswith("-single"):
        # a file with nothing but the layer the command could use
        lay = {"init": "nodes", "network": "pourpoints", "finalvol": "iv", "finallev": "finalvolumes", "finalbs": "fl",
               "hyps": "pourpoints"}[case["what"].split("-")[0]]
        if "hyps-single" in case["what"]:
            lay = "hyps"
        one = "one." + case["one"]
        rio.copy_layer("r.gpkg", lay, one)
        case = dict(case, one=one)
    case = dict(case, raster=RASTER_CMDS[case.get("pick", 0) % len(RASTER_CMDS)], vector=VECTOR_CMDS[case.get("pick", 0) % len(VECTOR_CMDS)],
                fmt=[("gpkg", "gpkg"), ("geojson", "geojson"), ("ESRI Shapefile", "shp")][case.get("pick", 0) // 7 % 3])
    args = REFUSALS[case["what"]](case)
    before = tree()
    rc, out, exc = rio.cli(*args)
    after = tree()
    require(rc != 0, "'malstroem %s' is not refused (exit code 0)", " ".join(args))
    changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    require(not changed, "'malstroem %s' is refused but changes %s", " ".join(args), changed)
    rec.nontrivial(case["what"])


# ---------------------------------------------------------------- C22

DIHEDRAL = {"flipud": lambda a: a[::-1, :], "fliplr": lambda a: a[:, ::-1], "transpose": lambda a: a.T,
            "rot90": np.rot90, "rot180": lambda a: np.rot90(a, 2), "rot270": lambda a: np.rot90(a, 3),
            "anti": lambda a: np.rot90(a, 2).T}


def surface_of(z, g):
    """filled, depths, labels, sorted statistics of the command line"""
    rio.write_tif("dem.tif", np.ascontiguousarray(z), transform_of(g), g["epsg"])
    chain.surface(accum=False)
    chain.bluespots()
    return rio.R("filled.tif").a, rio.R("depths.tif").a, rio.R("bspots.tif").a


def run_c22_sym(case, rec):
    z = decode_dem(case["dem"], "float32")
    g = case["g"]
    f0, d0, b0 = surface_of(z, g)
    T = DIHEDRAL[case["sym"]]
    os.mkdir("t")
    os.chdir("t")
    f1, d1, b1 = surface_of(T(z), g)
    require(f1.shape == T(f0).shape and (f1 == T(f0)).all(), "%s: the filled terrain does not follow", case["sym"])
    require((d1 == T(d0)).all(), "%s: the depths do not follow", case["sym"])
    require(same_partition(np.ascontiguousarray(b1), np.ascontiguousarray(T(b0))), "%s: the bluespots do not follow",
            case["sym"])
    if b0.max() > 0:
        rec.nontrivial("sym-" + case["sym"])


def exact_dem(d):
    """Terrain in multiples of 1/64 below 1024: exact in single precision under the shifts used here."""
    z = decode_dem(d, "float64")
    return (np.clip(np.round(z * 64), -2**16, 2**16) / 64.0).astype("float32")


def run_c22_datum(case, rec):
    z = exact_dem(case["dem"])
    g = case["g"]
    f0, d0, b0 = surface_of(z, g)
    os.mkdir("t")
    os.chdir("t")
    s = np.float32(case["shift"])
    f1, d1, b1 = surface_of(z + s, g)
    require((f1 == f0 + s).all(), "raising the terrain by %r does not raise the filled terrain by it", case["shift"])
    require((d1 == d0).all(), "raising the terrain by %r changes depths", case["shift"])
    require((b1 == b0).all(), "raising the terrain by %r changes bluespots", case["shift"])
    if b0.max() > 0:
        rec.nontrivial("datum")


def everything(case, g, z, mm, zres, out):
    rio.write_tif("dem-%s.tif" % out, np.ascontiguousarray(z), transform_of(g), g["epsg"])
    complete(out, mm, zres, case["accum"], False, case.get("filter"), dem="dem-%s.tif" % out)
    return out


def run_c22_zscale(case, rec):
    """Heights, rain and histogram bins doubled (or halved): the same network, twice (half) the water."""
    z = exact_dem(case["dem"])
    k = case["k"]
    if n_bins(z, case["zres"]) > 6000 or float(np.abs(z).max()) < 1.0:
        return
    a = everything(case, case["g"], z, case["mm"], case["zres"], "a")
    b = everything(case, case["g"], z * np.float32(k), case["mm"] * k, case["zres"] * k, "b")
    for f in ("flowdir.tif", "bluespots.tif", "watersheds.tif", "finalbluespots.tif") + (("accum.tif",) if case["accum"] else ()):
        same_raster(a + "/" + f, b + "/" + f, f + " (heights times %r)" % k)
    for f in ("filled.tif", "bs_depths.tif"):
        require((rio.R(b + "/" + f).a == rio.R(a + "/" + f).a * np.float32(k)).all(), "%s does not scale with the heights", f)
    pa, pb = by_id(a + "/malstroem.gpkg", "finalstate", "nodeid"), by_id(b + "/malstroem.gpkg", "finalstate", "nodeid")
    require(set(pa) == set(pb), "other nodes after scaling the heights")
    for i in pa:
        p, q = pa[i]["props"], pb[i]["props"]
        for nme in ("bspot_vol", "inputv", "v", "spillv", "bspot_dmax"):
            if p.get(nme) is not None:
                require(close(p[nme] * k, q[nme], 1e-9, 1e-9), "node %s: %s is %r and %r (heights times %r)", i, nme, p[nme],
                        q[nme], k)
        require(p["dstrnodeid"] == q["dstrnodeid"], "node %s flows elsewhere after scaling the heights", i)
    if int(rio.R(a + "/bluespots.tif").a.max()):
        rec.nontrivial("zscale")


LENGTH = {"wshed_area": 2, "bspot_area": 2, "bspot_vol": 2, "inputv": 2, "v": 2, "spillv": 2, "cell_area": 2}


def run_c22_georef(case, rec):
    """Elsewhere, another coordinate system, other cell size: the same cells, areas and volumes with the square."""
    z = decode_dem(case["dem"], "float32")
    if n_bins(z, case["zres"]) > 6000:
        return
    if case.get("filter") and case["g"]["cell"] != case["g2"]["cell"]:
        case = dict(case, filter="maxdepth > 0.3")
    case = dict(case, g2=dict(case["g2"], ratio=case["g"].get("ratio", 1.0)))
    a = everything(case, case["g"], z, case["mm"], case["zres"], "a")
    b = everything(case, case["g2"], z, case["mm"], case["zres"], "b")
    s = case["g2"]["cell"] / case["g"]["cell"]
    for f in RASTERS:
        if f not in ("finaldepths.tif", "finalbluespots.tif"):
            same_raster(a + "/" + f, b + "/" + f, f + " (moved)")
    x, y = rio.R(a + "/finaldepths.tif").a, rio.R(b + "/finaldepths.tif").a
    require(np.allclose(x, y, 1e-6, 1e-6), "final depths depend on the georeference")
    ta, tb = transform_of(case["g"]), transform_of(case["g2"])
    for layer in ("pourpoints", "nodes", "initvolumes", "finalstate", "hypsometry", "finallevels"):
        pa, pb = rows_of(a + "/malstroem.gpkg", layer), rows_of(b + "/malstroem.gpkg", layer)
        require(len(pa) == len(pb), "layer %s has %d features and %d when moved", layer, len(pa), len(pb))
        for p, q in zip(pa, pb):
            for k, v in p["props"].items():
                w = q["props"].get(k)
                if isinstance(v, (int, float)) and v is not None:
                    e = v * s ** LENGTH.get(k, 0)
                    require(w is not None and close(e, w, 1e-6, 1e-6), "layer %s: %s is %r, and %r with other cells", layer,
                            k, v, w)
                else:
                    require(v == w, "layer %s: %s is %r, and %r when moved", layer, k, v, w)
            if p["geom"]:
                (x0, y0), (x1, y1) = p["geom"]["coordinates"][:2], q["geom"]["coordinates"][:2]
                ca = ((x0 - ta[0]) / ta[1], (y0 - ta[3]) / ta[5])
                cb = ((x1 - tb[0]) / tb[1], (y1 - tb[3]) / tb[5])
                require(abs(ca[0] - cb[0]) < 1e-4 and abs(ca[1] - cb[1]) < 1e-4, "layer %s: point in cell %s and %s", layer,
                        ca, cb)
    if int(rio.R(a + "/bluespots.tif").a.max()):
        rec.nontrivial("moved", "cell-size" if s != 1 else "origin")


# ---------------------------------------------------------------- C23


def run_c23(case, rec):
    z = chain.dem_to_file(case["dem"], case["g"], dtype=case["dtype"])
    if n_bins(z.astype("float32"), 0.25) > 6000:
        return
    t = transform_of(case["g"])
    crs = rio.wkt(case["g"]["epsg"])
    o = complete("o", case["mm"], 0.25, case["accum"], True, case["filter"])
    if case["chain"]:
        cli_chain(case["mm"], 0.25, case["accum"], case["filter"])
        rio.cli_ok("polys", "-raster", "bspots.tif", "-out", "r.gpkg", "-layername", "bluespots", "-format", "gpkg")
    names = [os.path.join(o, f) for f in RASTERS] + ([os.path.join(o, "accum.tif")] if case["accum"] else [])
    if case["chain"]:
        names += list(RASTERS.values()) + (["accum.tif"] if case["accum"] else [])
    for f in names:
        x = rio.R(f)
        require(x.shape == z.shape, "%s has shape %s, the DEM %s", f, x.shape, z.shape)
        require(all(close(p, q, 1e-12, 1e-9) for p, q in zip(x.transform, t)), "%s has transform %s, the DEM %s", f,
                x.transform, t)
        require(rio.same_crs(x.crs, crs), "%s has another coordinate system than the DEM", f)
    bad = [f for f in names if os.path.basename(f) in ("bluespots.tif", "bspots.tif", "watersheds.tif", "wsheds.tif",
                                                         "finalbluespots.tif", "finalbspots.tif") and rio.R(f).nodata != 0]
    require(not bad, "%s: the background is not declared as nodata", bad)
    files = [(os.path.join(o, "malstroem.gpkg"), {"finalstate": "finalstate"})]
    if case["chain"]:
        files.append(("r.gpkg", {"finalstate": "finalvolumes"}))
    bs = rio.R(os.path.join(o, "bluespots.tif")).a
    f = rio.R(os.path.join(o, "flowdir.tif")).a
    x0, x1 = sorted((t[0], t[0] + t[1] * z.shape[1]))
    y0, y1 = sorted((t[3], t[3] + t[5] * z.shape[0]))

    def cell(x, y):
        c, r = (x - t[0]) / t[1] - 0.5, (y - t[3]) / t[5] - 0.5
        rc = int(round(r)), int(round(c))
        require(abs(rc[0] - r) < 1e-3 and abs(rc[1] - c) < 1e-3 and 0 <= rc[0] < z.shape[0] and 0 <= rc[1] < z.shape[1],
                "(%r, %r) is no centre of a cell", x, y)
        return rc
    for path, names in files:
        for layer in rio.layer_names(path):
            feats, lcrs, gt = rio.read_layer(path, layer)
            if layer in ("hypsometry", "finallevels", "hyps"):
                continue
            require(rio.same_crs(lcrs, crs), "layer %s has another coordinate system than the DEM", layer)
            for ft in feats:
                g = ft["geom"]
                require(g is not None, "layer %s: feature without geometry", layer)
                co = g["coordinates"]
                pts = {"Point": lambda: [co], "LineString": lambda: co, "Polygon": lambda: [p for r in co for p in r],
                       "MultiPolygon": lambda: [p for q in co for r in q for p in r]}[g["type"]]()
                eps = 1e-6 * max(1.0, abs(x1), abs(y1)) * 1e-3 + 1e-6
                require(all(x0 - eps <= p[0] <= x1 + eps and y0 - eps <= p[1] <= y1 + eps for p in pts),
                        "layer %s: geometry outside of the DEM", layer)
        pp = by_id(path, "pourpoints")
        nodes = by_id(path, "nodes", "nodeid")
        for k, ft in pp.items():
            rc = cell(*ft["geom"]["coordinates"][:2])
            require(rc == (ft["props"]["cell_row"], ft["props"]["cell_col"]), "pour point %d lies in cell %s, not in %s", k,
                    rc, (ft["props"]["cell_row"], ft["props"]["cell_col"]))
            require(bs[rc] == k, "pour point %d lies in bluespot %d", k, bs[rc])
        where = {}
        for i, ft in nodes.items():
            where[i] = cell(*ft["geom"]["coordinates"][:2])
            if ft["props"]["nodetype"] == "pourpoint":
                require(same_geom(ft["geom"], pp[ft["props"]["bspot_id"]]["geom"]), "node %s is not at its pour point", i)
        for layer in ("initvolumes", names["finalstate"]):
            for i, ft in by_id(path, layer, "nodeid").items():
                require(same_geom(ft["geom"], nodes[i]["geom"]), "layer %s: node %s moved", layer, i)
        for ft in rio.read_layer(path, "streams")[0]:
            line = ft["geom"]["coordinates"]
            cells = [cell(*p[:2]) for p in line]
            for a, b in zip(cells, cells[1:]):
                require(max(abs(a[0] - b[0]), abs(a[1] - b[1])) == 1 and downstream(f, *a) == b,
                        "a stream runs from %s to %s against the flow directions", a, b)
    if bs.max() > 0:
        rec.nontrivial("north-up" if case["g"]["northup"] else "south-up", "epsg-%s" % case["g"]["epsg"])


# ---------------------------------------------------------------- C27


def run_c27(case, rec):
    """A DEM with nodata cells gives what the same DEM with -999 in these cells gives, command by command."""
    nd = NDS[case["nodata"]]
    z = chain.dem_to_file(case["dem"], case["g"], "dem.tif", case["dtype"], nd, case["holes"])
    s = z.astype("float64")
    hole = np.zeros(z.shape, bool)
    for y, x in case["holes"]:
        hole[y % z.shape[0], x % z.shape[1]] = True
    s[hole] = -999
    small = z.dtype.kind == "u" or z.dtype == np.int16
    s = s.astype("int32" if small else z.dtype)
    os.mkdir("s")
    rio.write_tif("s/dem.tif", s, transform_of(case["g"]), case["g"]["epsg"], None)
    zres = case["zres"]
    if n_bins(np.where(hole, 0, s).astype("float32"), zres) > 3000 or hole.any() and 1500.0 / zres > 20000:
        zres = 1.0
    wd = os.getcwd()
    for d in (".", "s"):
        os.chdir(os.path.join(wd, d))
        cli_chain(case["mm"], zres, case["accum"], case["filter"])
        complete("o", case["mm"], zres, case["accum"], True, case["filter"])
        os.chdir(wd)
    for f in list(RASTERS.values()) + ["o/" + f for f in RASTERS] + (["accum.tif", "o/accum.tif"] if case["accum"] else []):
        same_raster(f, "s/" + f, "%s (nodata %r)" % (f, nd))
    for path, layers in (("r.gpkg", list(LAYERS.values())), ("o/malstroem.gpkg", list(LAYERS))):
        for layer in layers:
            compare_rows(rows_of(path, layer), rows_of("s/" + path, layer), "layer %s (nodata %r)" % (layer, nd))
    if hole.any() and int(rio.R("bspots.tif").a.max()):
        rec.nontrivial("nodata-" + case["nodata"], "dtype-" + case["dtype"])


@st.composite
def nodata_cases(draw):
    c = draw(full_cases())
    dt = c["dtype"]
    nd = draw(st.sampled_from({"f": ["low", "std", "high", "nan", "esri", "high"], "i": ["low", "high", "std"],
                               "u": ["high"]}[np.dtype(dt).kind]))
    if dt == "uint8":
        c["dtype"] = "uint16"
    c["nodata"] = nd
    c["holes"] = draw(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)).map(list), min_size=1, max_size=8))
    c["mm"] = c["mm"][0]
    return c


# ---------------------------------------------------------------- C28


def digest_layers(path):
    out = {}
    for n in rio.layer_names(path):
        feats = rio.read_layer(path, n)[0]
        out[n] = json.dumps([[f["geom"], f["props"]] for f in feats], sort_keys=True)
    return out


FILE = st.sampled_from(["r.gpkg", "r.gpkg", "s.gpkg", "t.gpkg"])
ANY = st.integers(0, 9)
STEP = st.one_of(
    st.tuples(st.just("init"), FILE, MM).map(list),
    st.tuples(st.just("final"), FILE, ANY).map(list),
    st.tuples(st.just("hyps"), FILE, ZR).map(list),
    st.tuples(st.just("levels"), FILE, ANY, ANY).map(list),
    st.tuples(st.just("rasters"), st.just("r.gpkg"), ANY).map(list),
    st.tuples(st.just("repeat"), FILE, ANY).map(list),
    st.tuples(st.just("refused"), FILE, ANY).map(list),
    st.tuples(st.just("existing"), FILE, ANY).map(list),
)


@st.composite
def scenario_steps(draw):
    """A few steps at random; usually after enough of every kind that every later step has choices."""
    steps = []
    if draw(st.integers(0, 3)):
        for kind, lo in (("init", 1), ("hyps", 1), ("final", 1), ("levels", 1)):
            for _ in range(draw(st.integers(lo, 2))):
                f = draw(FILE)
                steps.append([kind, f, draw(MM if kind == "init" else ZR if kind == "hyps" else ANY)]
                             + ([draw(ANY)] if kind == "levels" else []))
    return steps + draw(st.lists(STEP, min_size=2 if not steps else 0, max_size=9))


def run_c28(case, rec):
    keep = tempfile.tempdir
    try:
        scenarios(case, rec)
    finally:
        tempfile.tempdir = keep


def scenarios(case, rec):
    """Many scenarios over one network in a few GeoPackages. The model: every result depends only on the named inputs."""
    z = chain.dem_to_file(case["dem"], case["g"])
    steps = case["steps"]
    if n_bins(z, 0.01) > 6000:
        steps = [["hyps", s[1], 1.0 if i % 2 else 2.0] if s[0] == "hyps" else s for i, s in enumerate(steps)]
        if n_bins(z, 1.0) > 6000:
            return
    chain.surface()
    chain.bluespots(case["filter"])
    chain.pourpoints("accum", out="r.gpkg")
    chain.network(out="r.gpkg")
    inputs = {f: open(f, "rb").read() for f in os.listdir(".") if f.endswith(".tif")}
    # layers made so far: (file, layer, recipe)
    made = {"init": [], "final": [], "hyps": [], "levels": []}
    results = {}
    model = {"r.gpkg": digest_layers("r.gpkg")}
    rasters = {}
    count = 0
    # what commands need in between is gone afterwards
    os.mkdir("tmp")
    tempfile.tempdir = os.path.abspath("tmp")
    files = set(os.listdir("."))
    for step in steps:
        count += 1
        kind, out = step[0], step[1]
        name = "%s%d" % (kind, count)
        new = None

        def pick(what, i):
            return made[what][i % len(made[what])]
        if kind == "init":
            rio.cli_ok("initvolumes", "-nodes", "r.gpkg", "-mm", repr(step[2]), "-out", out, "-out_layer", name, "-format",
                       "gpkg")
            new = ("init", step[2])
        elif kind in ("final", "repeat") and made["init"]:
            src, lay, rcp = pick("init", step[2])
            if kind == "repeat" and made["final"]:
                # the same command line again, into a new layer
                _, _, again = pick("final", step[2])
                src, lay, rcp = [m for m in made["init"] if m[2] == again[1]][-1]
            rio.cli_ok("finalvolumes", "-inputvolumes", src, "-inputvolumes_layer", lay, "-out", out, "-out_layer", name,
                       "-format", "gpkg")
            new = ("final", rcp)
        elif kind == "hyps":
            rio.cli_ok("hyps", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-pourpoints", "r.gpkg", "-zresolution",
                       repr(step[2]), "-out", out, "-out_hyps_layer", name, "-format", "gpkg")
            new = ("hyps", step[2])
        elif kind == "levels" and made["final"] and made["hyps"]:
            src, lay, rf = pick("final", step[2])
            hy, hlay, rh = pick("hyps", step[3])
            rio.cli_ok("finallevels", "-finalvols", src, "-finalvols_layer", lay, "-hyps", hy, "-hyps_layer", hlay,
                       "-out", out, "-out_layer", name, "-format", "gpkg")
            new = ("levels", rf, rh)
        elif kind == "rasters" and made["levels"]:
            src, lay, rcp = pick("levels", step[2])
            # written over the rasters of the scenario before
            which = [["finaldepths.tif", "finalbspots.tif"], ["finaldepths.tif"], ["finalbspots.tif"]][step[2] % 3]
            other = {f: open(f, "rb").read() for f in ("finaldepths.tif", "finalbspots.tif") if f not in which and os.path.exists(f)}
            rio.cli_ok("finalbluespots", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-finallevels", src, "-finallevels_layer",
                       lay, *[q for f in which for q in ("-out_depths" if "depths" in f else "-out_bluespots", f)])
            for f in which:
                files.add(f)
                got = rio.R(f).a.tobytes()
                require(rasters.setdefault((f, repr(rcp)), got) == got, "the same levels give another %s", f)
            for f, data in other.items():
                require(open(f, "rb").read() == data, "%s was not asked for but changed", f)
            rec.tag("rasters", "outputs-%d" % len(which))
        elif kind == "refused":
            rc, _, _ = rio.cli("finalvolumes", "-inputvolumes", "r.gpkg", "-inputvolumes_layer", "nosuch%d" % count, "-out",
                               out, "-out_layer", name, "-format", "gpkg")
            require(rc != 0, "a missing layer is not refused")
        elif kind == "existing" and made["init"] and made["final"]:
            # the name of a layer that is there: refused, and it stays as it is
            src, lay, _ = pick("init", step[2])
            out, old = [m[:2] for ms in (made["final"], made["init"]) for m in ms][step[2] % (len(made["final"]) + len(made["init"]))]
            rc, _, _ = rio.cli("finalvolumes", "-inputvolumes", src, "-inputvolumes_layer", lay, "-out", out, "-out_layer", old,
                               "-format", "gpkg")
            require(rc != 0, "writing to the existing layer %s is reported as success, although nothing replaces layers", old)
        require(os.listdir("tmp") == [], "step %d (%s) leaves temporary files %s", count, kind, os.listdir("tmp"))
        now = {f: digest_layers(f) for f in ("r.gpkg", "s.gpkg", "t.gpkg") if os.path.exists(f)}
        want = {f: set(ls) for f, ls in model.items()}
        if new:
            want.setdefault(out, set()).add(name)
            files.add(out)
        there = set(os.listdir("."))
        require(there == files, "step %d (%s): files %s appeared, %s are gone", count, kind, sorted(there - files), sorted(files - there))
        for f in model:
            for n in model[f]:
                require(n in now.get(f, {}), "step %d (%s): layer %s of %s is gone", count, kind, n, f)
                require(now[f][n] == model[f][n], "step %d (%s): layer %s of %s changed", count, kind, n, f)
        require({f: set(ls) for f, ls in now.items()} == want, "step %d (%s): layers %s, expected %s", count, kind,
                {f: sorted(ls) for f, ls in now.items()}, {f: sorted(ls) for f, ls in want.items()})
        if new:
            made[new[0]].append((out, name, new))
            got = now[out][name]
            require(results.setdefault(repr(new), got) == got,
                    "step %d (%s): the same inputs give another result than before", count, kind)
        model = now
        for f, data in inputs.items():
            require(open(f, "rb").read() == data, "step %d (%s): %s was changed", count, kind, f)
    # scenarios once more, each alone in a new file
    for k, (src, name, rcp) in enumerate(made["levels"][-2:]):
        _, (_, (_, mm)), (_, zr) = rcp
        alone = "alone%d.gpkg" % k
        chain.pourpoints("accum", out=alone)
        chain.network(out=alone)
        chain.hypsometry(zr, out=alone)
        chain.initvolumes(mm, out=alone)
        chain.finalvolumes(out=alone)
        chain.finallevels(out=alone)
        require(digest_layers(alone)["finallevels"] == model[src][name], "a scenario gives another result in a file of its own")
        rec.tag("alone")
    if len(made["final"]) > 1 or made["levels"]:
        rec.nontrivial("scenarios>2" if len(made["final"]) > 2 else "scenarios")


def child(fn):
    """fn in a child process -> its exit code (negative: the signal that ended it)."""
    pid = os.fork()
    if pid == 0:
        rc = 9
        try:
            fd = os.open(os.devnull, os.O_WRONLY)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            rc = fn() or 0
        finally:
            os._exit(rc)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


WRITES = {
    "init": lambda c, out, name: ["initvolumes", "-nodes", "r.gpkg", "-mm", repr(c["mm"]), "-out", out, "-out_layer", name],
    "final": lambda c, out, name: ["finalvolumes", "-inputvolumes", "r.gpkg", "-out", out, "-out_layer", name],
    "hyps": lambda c, out, name: ["hyps", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-pourpoints", "r.gpkg", "-zresolution", "0.5",
                                  "-out", out, "-out_hyps_layer", name],
    "levels": lambda c, out, name: ["finallevels", "-finalvols", "r.gpkg", "-hyps", "r.gpkg", "-out", out, "-out_layer", name],
    "polys": lambda c, out, name: ["polys", "-raster", "wsheds.tif", "-out", out, "-layername", name],
    "pourpts": lambda c, out, name: ["pourpts", "-bluespots", "bspots.tif", "-depths", "depths.tif", "-watersheds", "wsheds.tif",
                                     "-dem", "dem.tif", "-out", out, "-layername", name],
    "network": lambda c, out, name: ["network", "-bluespots", "bspots.tif", "-flowdir", "flowdir.tif", "-pourpoints", "r.gpkg", "-out", out,
                                     "-out_nodes_layer", name, "-out_streams_layer", name + "_streams"],
}


def run_c30(case, rec):
    """A command that cannot finish writing its layer (no room left, or killed on the way) next to other layers."""
    z = chain.dem_to_file(case["dem"], case["g"])
    if n_bins(z, 0.5) > 6000:
        return
    chain.surface()
    chain.bluespots(None)
    chain.pourpoints()
    chain.network()
    chain.hypsometry(0.5)
    chain.initvolumes(case["mm"])
    chain.finalvolumes()
    cmd, fmt = case["cmd"], case["fmt"] if case["new"] else "gpkg"
    if cmd == "network" or fmt == "csv" and cmd not in ("hyps", "levels", "init"):
        fmt = "gpkg"
    shutil.copy("r.gpkg", "whole.gpkg")

    def write(out, name):
        return WRITES[cmd](case, out, name) + ["-format", {"gpkg": "gpkg", "shp": "ESRI Shapefile", "csv": "CSV"}[fmt]]

    def rows(path, name):
        if fmt == "csv":
            return open(path).read()
        if fmt == "shp":
            path = path if os.path.exists(path) else path[:-3] + "dbf"
            return [[f["geom"], f["props"]] for f in rio.read_layer(path)[0]]
        d = digest_layers(path)
        return [d.get(name), d.get(name + "_streams")]
    before = digest_layers("r.gpkg")
    if case["new"]:
        # the datasource does not exist yet
        out, ref, lo = "new." + fmt, "other." + fmt, 0
        rio.cli_ok(*write(ref, "again"))
        hi = max(os.path.getsize(f) for f in os.listdir(".") if f.startswith("other."))
    else:
        out, ref, lo = "r.gpkg", "whole.gpkg", os.path.getsize("r.gpkg")
        rio.cli_ok(*write(ref, "again"))
        hi = os.path.getsize(ref)
    want = rows(ref, "again")
    limit = int(lo + case["at"] * (hi - lo + 200)) + 1

    def run():
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if case["kill"] else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        return 0 if rio.cli(*write(out, "again"))[0] == 0 else 1
    rc = child(run)
    if rc == 0:
        try:
            got = rows(out, "again")
        except Exception as e:  # noqa
            got = str(e)
        require(got == want, "%s reports success, but its output (%s) is not complete (%d bytes allowed)", cmd, fmt, limit)
    # SQLite takes back what was interrupted when the file is next opened for writing
    try:
        ogr.Open("r.gpkg", 1)
        now = digest_layers("r.gpkg")
    except RuntimeError as e:
        fail("the datasource is damaged after %s could not be finished (%d bytes allowed): %s" % (cmd, limit, e))
    for n in before:
        require(now.get(n) == before[n], "layer %s is lost or damaged after %s could not be finished (%d bytes allowed)", n, cmd, limit)
    # and there is a way on from here
    if not case["new"]:
        rio.cli_ok(*write(out, "retry"))
        require(rows(out, "retry") == want, "another result in a datasource where an earlier attempt failed")
    rec.nontrivial("fault-killed" if rc < 0 else "fault-error" if rc else "fault-no-effect", "fault-" + cmd, "fault-in-" + fmt)


def run_c28_parallel(case, rec):
    """Runs at the same time, in processes of their own."""
    n = len(case["dems"])
    for i, d in enumerate(case["dems"]):
        z = chain.dem_to_file(d, case["g"], "dem%d.tif" % i)
        if n_bins(z, 0.5) > 3000:
            return
    for i in range(n):
        complete("alone%d" % i, case["mm"][i], 0.5, False, True, None, dem="dem%d.tif" % i)
    go, ready = os.pipe()

    def run(i):
        os.close(ready)
        os.read(go, 1)  # until all are there
        complete("same%d" % i, case["mm"][i], 0.5, False, True, None, dem="dem%d.tif" % i)
        return 0
    pids = []
    for i in range(n):
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                rc = run(i)
            except Violation as e:
                with open("failed%d" % i, "w") as f:
                    f.write(str(e))
            finally:
                os._exit(rc)
        pids.append(pid)
    os.close(go)
    os.close(ready)
    codes = [os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) for p in pids]
    for i in range(n):
        require(codes[i] == 0, "complete fails while another one runs: %s", open("failed%d" % i).read() if os.path.exists("failed%d" % i)
                else codes[i])
        a, b = "alone%d" % i, "same%d" % i
        require(sorted(os.listdir(a)) == sorted(os.listdir(b)), "other files when another run goes on")
        for f in os.listdir(a):
            if f.endswith(".tif"):
                same_raster(os.path.join(a, f), os.path.join(b, f), f + " (while another run goes on)")
        da, db = digest_layers(a + "/malstroem.gpkg"), digest_layers(b + "/malstroem.gpkg")
        require(da == db, "layers %s differ when another run goes on", [k for k in da if da[k] != db.get(k)])
    if any(int(rio.R("alone%d/bluespots.tif" % i).a.max()) for i in range(n)):
        rec.nontrivial("parallel-%d" % n)


def run_c28_repeat(case, rec):
    """complete twice: same result, whatever ran before in the process."""
    chain.dem_to_file(case["dem"], case["g"], dtype=case["dtype"])
    before = open("dem.tif", "rb").read()
    z = rio.R("dem.tif").a.astype("float32")
    if n_bins(z, 0.1) > 6000:
        return
    a = complete("a", case["mm"], 0.1, case["accum"], case["vector"], case["filter"])
    # another run in between, with other settings
    chain.dem_to_file(case["dem2"], case["g"], path="dem2.tif")
    if n_bins(rio.R("dem2.tif").a, 0.3) < 6000:
        complete("x", 33.0, 0.3, not case["accum"], not case["vector"], None, dem="dem2.tif")
    b = complete("b", case["mm"], 0.1, case["accum"], case["vector"], case["filter"])
    require(open("dem.tif", "rb").read() == before, "the DEM was changed")
    require(sorted(os.listdir("a")) == sorted(os.listdir("b")), "other files the second time: %s and %s",
            sorted(os.listdir("a")), sorted(os.listdir("b")))
    for f in os.listdir("a"):
        if f.endswith(".tif"):
            same_raster("a/" + f, "b/" + f, f + " (run again)")
    da, db = digest_layers("a/malstroem.gpkg"), digest_layers("b/malstroem.gpkg")
    require(set(da) == set(db), "other layers the second time: %s and %s", sorted(da), sorted(db))
    for n in da:
        require(da[n] == db[n], "layer %s differs the second time", n)
    if int(rio.R("a/bluespots.tif").a.max()):
        rec.nontrivial("repeat")


def run_c28_rewritten(case, rec):
    """The same commands on the same names with another terrain: nothing of the earlier content survives."""
    z1 = chain.dem_to_file(case["dem"], case["g"], dtype=case["dtype"])
    rng = np.random.RandomState(case["seed"])
    z2 = z1[::-1, ::-1].copy()
    if case["how"] == "noise":
        z2 = (z2 + rng.randint(-3, 4, z2.shape)).astype(z1.dtype)
    for z in (z1, z2):
        if n_bins(z.astype("float32"), 0.25) > 6000:
            return
    # what the other terrain gives at a place where nothing was before
    fresh = os.path.abspath("fresh")
    os.mkdir(fresh)
    t = transform_of(case["g"])
    rio.write_tif(os.path.join(fresh, "dem.tif"), z2, t, case["g"]["epsg"])
    ref = complete(os.path.join(fresh, "o"), case["mm"], 0.25, True, True, case["filter"], dem=os.path.join(fresh, "dem.tif"))
    for turn in (1, 2):
        if turn == 2:
            rio.write_tif("dem.tif", z2, t, case["g"]["epsg"])
            shutil.rmtree("o")
            os.remove("r.gpkg")
        complete("o", case["mm"], 0.25, True, True, case["filter"])
        cli_chain(case["mm"], 0.25, True, case["filter"])
    for f, g in RASTERS.items():
        same_raster(os.path.join(ref, f), "o/" + f, f + " (complete, names used before)")
        same_raster(os.path.join(ref, f), g, g + " (overwritten)")
    da, db = digest_layers(os.path.join(ref, "malstroem.gpkg")), digest_layers("o/malstroem.gpkg")
    require(set(da) == set(db), "layers %s where the names were used before, %s elsewhere", sorted(db), sorted(da))
    for n in da:
        require(da[n] == db[n], "layer %s is another one where the names were used before", n)
    if (z1 != z2).any() and int(rio.R("o/bluespots.tif").a.max()):
        rec.nontrivial("rewritten")


SMALL = st.one_of(dem_raw(9, 9, 4, 4), dem_flatpits(10, 10), dem_proc(20, 20, 6, 6))

PROPS = [
    {"id": "C18", "aspects": [
        Aspect("complete", st.fixed_dictionaries({
            "dem": MANY, "g": G, "mm": MM, "zres": st.sampled_from([0.1, 0.25, 1.0, 0.1875, 0.3333, 0.71234]), "accum": bools, "vector": bools,
            "filter": FLT, "dtype": st.sampled_from(["float32", "float32", "float64", "int16"])}), run_c18, 400, 6000)]},
    {"id": "C20", "aspects": [Aspect("complete", full_cases(), run_c20, 480, 8000)]},
    {"id": "C21", "aspects": [
        Aspect("refusals", st.fixed_dictionaries({
            "what": st.sampled_from(sorted(REFUSALS)), "g": G, "dem": st.one_of(st.none(), SMALL),
            "filter": st.sampled_from(BADFILTERS), "mm": st.sampled_from(["0", "10", "2.5"]),
            "zres": st.sampled_from(["0", "-0.5", "0.0"]), "junk": st.sampled_from(["file", "hidden", "dir", "gpkg"]),
            "one": st.sampled_from(["gpkg", "geojson", "csv"]), "pick": st.integers(0, 41),
            "ratio": st.sampled_from([1.5, 2.0, 0.5, 1.1])}), run_c21, 1000, 8000)]},
    {"id": "C22", "aspects": [
        Aspect("symmetry", st.fixed_dictionaries({"dem": MANY, "g": G, "sym": st.sampled_from(sorted(DIHEDRAL))}),
               run_c22_sym, 600, 10000),
        Aspect("datum", st.fixed_dictionaries({"dem": MANY, "g": G, "shift": st.sampled_from([1.0, -1.0, 64.0, -300.0, 0.25, 2000.0, 16384.0, -16384.0, 65536.0])}),
               run_c22_datum, 600, 10000),
        Aspect("zscale", st.fixed_dictionaries({
            "dem": MANY, "g": G, "k": st.sampled_from([2.0, 0.5, 4.0]), "mm": MM, "zres": st.sampled_from([0.125, 0.25, 1.0]),
            "accum": bools}), run_c22_zscale, 160, 2400),
        Aspect("georef", st.fixed_dictionaries({
            "dem": MANY, "g": G, "g2": G, "mm": MM, "zres": st.sampled_from([0.1, 0.25, 1.0]), "accum": bools, "filter": FLT}),
               run_c22_georef, 200, 3000),
    ]},
    {"id": "C23", "aspects": [
        Aspect("outputs", st.fixed_dictionaries({
            "dem": MANY, "g": G, "mm": MM, "accum": bools, "filter": FLT, "chain": bools,
            "dtype": st.sampled_from(["float32", "float32", "int16"])}), run_c23, 400, 6000)]},
    {"id": "C27", "aspects": [Aspect("nodata", nodata_cases(), run_c27, 280, 4500)]},
    {"id": "C28", "aspects": [
        Aspect("scenarios", st.fixed_dictionaries({
            "dem": SMALL, "g": G, "filter": FLT, "steps": scenario_steps()}), run_c28, 240, 3600),
        Aspect("repeat", st.fixed_dictionaries({
            "dem": MANY, "dem2": SMALL, "g": G, "mm": MM, "accum": bools, "vector": bools, "filter": FLT,
            "dtype": st.sampled_from(["float32", "float64", "int16"])}), run_c28_repeat, 160, 2400),
        Aspect("parallel", st.fixed_dictionaries({
            "dems": st.lists(MANY, min_size=2, max_size=4), "g": G, "mm": st.lists(MM, min_size=4, max_size=4)}),
               run_c28_parallel, 32, 600),
        Aspect("rewritten", st.fixed_dictionaries({
            "dem": MANY, "g": G, "mm": MM, "filter": FLT, "how": st.sampled_from(["turn", "noise"]), "seed": st.integers(0, 2**20),
            "dtype": st.sampled_from(["float32", "float64", "int16"])}), run_c28_rewritten, 48, 900),
    ]},
    {"id": "C30", "aspects": [
        Aspect("faults", st.fixed_dictionaries({
            "dem": MANY, "g": G, "mm": MM, "cmd": st.sampled_from(sorted(WRITES)), "at": st.floats(0, 1, width=32), "kill": bools,
            "new": bools, "fmt": st.sampled_from(["gpkg", "csv"])}), run_c30, 160, 2400),
    ]},
]
