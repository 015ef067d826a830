"""C29: what is computed depends on the data, not on how, where and under which name the inputs are stored."""
import math
import os

import numpy as np
from hypothesis import strategies as st
from osgeo import gdal, ogr

from ..core import Aspect, Violation, require
from ..gen import dem_raw, dem_flatpits, dem_proc, georefs, transform_of
from .. import rio, chain
from .whole import (NDS, MM, FLT, complete, compare_rows, rows_of, same_raster, n_bins)

bools = st.booleans()
G = georefs()
DEMS = st.one_of(dem_raw(12, 12, 4, 4), dem_flatpits(11, 11), dem_proc(40, 40, 6, 6), dem_proc(30, 30, 12, 12))
DIRS = ["", "sub", "My data", "målinger/2024 år", "a.b", "UPPER/x", "../here"]
NAMES = ["dem", "DEM 1", "højde", "a.b.c", "it's", "x#1", "50%", "(final)", "1", "$HOME", "résultat_é", "a,b", "a+b=c", "-dem"]
LAYER_NAMES = ["nodes", "my layer", "Søer og åer", "a-b", "it's", "x.y", "SELECT", "order", "1", "a\"b", "Layer_With_A_Quite_Long_Name_2"]
# how a raster may be stored: GDAL driver, extensions, creation options
STORES = {
    "tiled": ("GTiff", ["tif"], ["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"]),
    "tall-tiles": ("GTiff", ["tif"], ["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=48"]),
    "strips": ("GTiff", ["TIF"], ["BLOCKYSIZE=3"]),
    "one-strip": ("GTiff", ["tiff"], ["BLOCKYSIZE=1000"]),
    "lzw": ("GTiff", ["tif"], ["COMPRESS=LZW"]),
    "deflate": ("GTiff", ["tif"], ["COMPRESS=DEFLATE", "PREDICTOR=2", "TILED=YES"]),
    "bigtiff": ("GTiff", ["tif"], ["BIGTIFF=YES"]),
    "big-endian": ("GTiff", ["tif"], ["ENDIANNESS=BIG"]),
    "sparse": ("GTiff", ["tif"], ["SPARSE_OK=YES", "BLOCKYSIZE=2"]),
    "bands": ("GTiff", ["tif"], ["INTERLEAVE=BAND"]),
    "bands-pixel": ("GTiff", ["tif"], ["INTERLEAVE=PIXEL"]),
    "overviews": ("GTiff", ["tif"], []),
    "statistics": ("GTiff", ["tif"], []),
    "points": ("GTiff", ["tif"], []),
    "vrt": ("VRT", ["vrt"], []),
    "mosaic": ("VRT", ["vrt"], []),
    "no-extension": ("GTiff", ["", "dat"], []),
    "img": ("HFA", ["img"], []),
    "img-compressed": ("HFA", ["img"], ["COMPRESSED=YES"]),
    "envi": ("ENVI", ["bin", "img", "dat"], []),
    "bil": ("EHdr", ["bil"], []),
    "asc": ("AAIGrid", ["asc"], []),
    "saga": ("SAGA", ["sdat"], []),
    "gpkg": ("GPKG", ["gpkg"], []),
}


def place(case, name):
    """The path of a file: somewhere, under some name, absolute or not."""
    d = case["dir"]
    if d.startswith(".."):
        d = os.path.join("..", os.path.basename(os.getcwd()))
    if d:
        os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    return os.path.abspath(p) if case["abs"] else os.path.join(".", p) if p.startswith("-") else p


def store(plain, case, base):
    """The raster file plain once more, stored differently -> path, name of the way."""
    how = case["store"]
    drv, exts, opts = STORES[how]
    ext = exts[case["pick"] % len(exts)]
    path = place(case, base + ("." + ext if ext else ""))
    src = gdal.Open(plain)
    a = src.ReadAsArray()
    try:
        if how.startswith("bands"):
            ds = gdal.GetDriverByName(drv).Create(path, a.shape[1], a.shape[0], 3, rio.GT[str(a.dtype)], opts)
            ds.SetGeoTransform(src.GetGeoTransform())
            ds.SetProjection(src.GetProjection())
            nd = src.GetRasterBand(1).GetNoDataValue()
            if nd is not None:
                ds.GetRasterBand(1).SetNoDataValue(nd)
            for b, x in ((1, a), (2, a[::-1, ::-1]), (3, np.zeros_like(a))):
                ds.GetRasterBand(b).WriteArray(x)
        elif how == "mosaic":
            h, w = a.shape
            parts = []
            for i, (x0, x1) in enumerate(((0, w // 2), (w // 2, w))):
                p = "part%d_%s.tif" % (i, os.path.basename(plain)[:3])
                gdal.Translate(p, src, srcWin=[x0, 0, x1 - x0, h])
                parts.append(p)
            ds = gdal.BuildVRT(path, parts)
        else:
            more = {"metadataOptions": ["AREA_OR_POINT=Point"]} if how == "points" else {}
            ds = gdal.Translate(path, src, format=drv, creationOptions=opts, **more)
        if ds is None:
            raise RuntimeError("not written")
        if how == "overviews":
            ds.BuildOverviews("NEAREST", [2, 4])
        ds.FlushCache()
        ds = None
        if how == "statistics":
            ds = gdal.Open(path, gdal.GA_Update)
            ds.GetRasterBand(1).ComputeStatistics(False)
            ds = None
        # a format which cannot hold this raster as it is says nothing about malstroem
        x, y = rio.R(plain), rio.R(path)
        same_nd = x.nodata == y.nodata or (x.nodata is not None and y.nodata is not None and math.isnan(x.nodata) and math.isnan(y.nodata))
        ok = (x.a.dtype == y.a.dtype and x.a.shape == y.a.shape and np.array_equal(x.a, y.a, equal_nan=x.a.dtype.kind == "f")
              and x.transform == y.transform and same_nd and bool(x.crs) == bool(y.crs))
    except (RuntimeError, Violation):
        ok = False
    del src
    if ok:
        return path, how
    path = place(case, base + "_.tif")
    gdal.Translate(path, plain, creationOptions=["TILED=YES"])
    return path, "tiled"


def compare_complete(a, b, case, g="malstroem.gpkg"):
    files = sorted(os.listdir(a))
    require(files == sorted(os.listdir(b)), "complete writes %s for a differently stored DEM, %s before", sorted(os.listdir(b)), files)
    for f in files:
        if f.endswith(".tif"):
            same_raster(os.path.join(a, f), os.path.join(b, f), "%s (DEM stored as %s)" % (f, case["store"]))
    ga, gb = os.path.join(a, g), os.path.join(b, g)
    require(set(rio.layer_names(ga)) == set(rio.layer_names(gb)), "other layers for a differently stored DEM")
    for n in rio.layer_names(ga):
        compare_rows(rows_of(ga, n), rows_of(gb, n), "layer %s (DEM stored as %s)" % (n, case["store"]))


def write_dem(case):
    z = chain.dem_to_file(case["dem"], case["g"], "dem.tif", case["dtype"], NDS[case["nodata"]], case["holes"])
    return z


def run_c29_dem(case, rec):
    """complete for one terrain in two files."""
    z = write_dem(case)
    zres = 1.0 if n_bins(rio_terrain(z, case), 0.1) > 6000 else 0.1
    if n_bins(rio_terrain(z, case), zres) > 20000:
        return
    a = complete("a", case["mm"], zres, case["accum"], case["vector"], case["filter"])
    path, how = store("dem.tif", case, case["name"])
    out = place(case, case["out"])
    before = open(path, "rb").read()
    complete(out, case["mm"], zres, case["accum"], case["vector"], case["filter"], dem=path)
    require(open(path, "rb").read() == before, "the DEM (stored as %s) was changed", how)
    compare_complete(a, out, case)
    if int(rio.R("a/bluespots.tif").a.max()):
        rec.nontrivial("dem-" + how, "abs" if case["abs"] else "relative")


def rio_terrain(z, case):
    z = z.astype("float64")
    for y, x in case["holes"]:
        z[y % z.shape[0], x % z.shape[1]] = -999
    return z


# what each command reads and writes; {x} are files
STEPS = [
    ("filled", ["-dem", "{dem}"], ["filled"]),
    ("depths", ["-dem", "{dem}", "-filled", "{filled}"], ["depths"]),
    ("flowdir", ["-dem", "{dem}"], ["flowdir"]),
    ("accum", ["-flowdir", "{flowdir}"], ["accum"]),
    ("bspots", ["-depths", "{depths}"], ["bspots"]),
    ("wsheds", ["-bluespots", "{bspots}", "-flowdir", "{flowdir}"], ["wsheds"]),
    ("pourpts", ["-bluespots", "{bspots}", "-depths", "{depths}", "-watersheds", "{wsheds}", "-accum", "{accum}"], None),
    ("network", ["-bluespots", "{bspots}", "-flowdir", "{flowdir}", "-pourpoints", "r.gpkg", "-pourpoints_layer", "pourpoints"], None),
    ("hyps", ["-bluespots", "{bspots}", "-dem", "{dem}", "-pourpoints", "r.gpkg", "-pourpoints_layer", "pourpoints",
              "-zresolution", "0.5"], None),
    ("initvolumes", ["-nodes", "r.gpkg", "-pr", "{pr}", "-bluespots", "{wsheds}"], None),
    ("polys", ["-raster", "{wsheds}", "-layername", "shapes"], None),
]
OUTLAYERS = {"pourpts": ["pourpoints"], "network": ["nodes", "streams"], "hyps": ["hyps"], "initvolumes": ["initvolumes"], "polys": ["shapes"]}


def run_c29_rasters(case, rec):
    """One command of the chain on input rasters in other files than before."""
    z = write_dem(case)
    if n_bins(rio_terrain(z, case), 0.5) > 20000:
        return
    rng = np.random.RandomState(case["seed"])
    rio.write_tif("pr.tif", (rng.randint(0, 400, z.shape) / 8.0).astype("float32"), transform_of(case["g"]), case["g"]["epsg"])
    chain.surface()
    chain.bluespots()
    chain.pourpoints()
    chain.network()
    name, args, outs = STEPS[case["step"] % len(STEPS)]
    plain = {k: k + ".tif" for k in ("dem", "filled", "depths", "flowdir", "accum", "bspots", "wsheds", "pr")}
    other, hows = {}, []
    for k, f in plain.items():
        if any("{%s}" % k in a for a in args):
            c = dict(case, store=case["stores"][len(other) % len(case["stores"])])
            other[k], how = store(f, c, case["name"] + "_" + k)
            hows.append(how)
    extra = ["-out", "ref.gpkg", "-format", "gpkg"]
    if outs:
        extra = ["-out", "ref.tif"]
    rio.cli_ok(name, *[a.format(**plain) for a in args], *extra)
    out = place(case, case["out"] + (".tif" if outs else ".gpkg"))
    before = {p: open(p, "rb").read() for p in other.values()}
    rio.cli_ok(name, *[a.format(**other) if a.startswith("{") else a for a in args], "-out", out, *extra[2:])
    for p, b in before.items():
        require(open(p, "rb").read() == b, "%s: the input %s was changed", name, p)
    if outs:
        same_raster("ref.tif", out, "%s of rasters stored as %s" % (name, hows))
    else:
        for n in OUTLAYERS[name]:
            a, b = rio.read_layer("ref.gpkg", n)[0], rio.read_layer(out, n)[0]
            compare_rows(a, b, "%s of rasters stored as %s" % (name, hows))
    if int(rio.R("bspots.tif").a.max()):
        rec.nontrivial("command-" + name, *["raster-" + h for h in hows])


# ---------------------------------------------------------------- vectors

TYPED = ["gpkg", "sqlite", "geojson", "geojsonseq", "fgb", "shp", "shp-dir", "gml"]  # MapInfo files hold no missing numbers
UNTYPED = ["csv"]  # only where numbers are documented to be read from CSV: hyps writes it by default
DRIVER = {"gpkg": "GPKG", "sqlite": "SQLite", "geojson": "GeoJSON", "geojsonseq": "GeoJSONSeq", "fgb": "FlatGeobuf", "shp": "ESRI Shapefile",
          "shp-dir": "ESRI Shapefile", "csv": "CSV", "gml": "GML"}


def restore(src, layer, case, i, geom, untyped):
    """A layer once more, stored differently -> datasource, layer name, way."""
    rng = np.random.RandomState(case["seed"] + i)
    ways = (TYPED if geom else ["gpkg", "sqlite", "geojson", "shp-dir"]) + (UNTYPED * 3 if untyped else [])
    how = ways[case["ways"][i % len(case["ways"])] % len(ways)]
    sds = ogr.Open(src)
    lyr = sds.GetLayerByName(layer)
    feats = [f.Clone() for f in lyr]
    defn = lyr.GetLayerDefn()
    # shapefiles cut names and long texts
    if how.startswith("shp") and any(len(defn.GetFieldDefn(k).GetName()) > 10 for k in range(defn.GetFieldCount())) or how.startswith(
            "shp") and any(isinstance(f.GetField(k), str) and len(f.GetField(k)) > 250 for f in feats
                                     for k in range(defn.GetFieldCount())):
        how = "gpkg"
    name = LAYER_NAMES[rng.randint(len(LAYER_NAMES))]
    base = case["name"] + str(i)
    ext = {"geojsonseq": "geojsonl", "shp-dir": ""}.get(how, how)
    if how in ("geojson", "geojsonseq", "fgb", "shp", "csv", "gml"):
        name = base
    elif how == "shp-dir":
        name = layer
    path = place(case, base + ("." + ext if ext else ""))
    if how == "shp-dir":
        os.makedirs(path, exist_ok=True)
    try:
        return path, write_again(path, name, how, lyr, feats, case["order"] and rng, case["extra"]), how
    except RuntimeError:
        # the name is too much for this format
        path = place(case, "plain%d.gpkg" % i)
        return path, write_again(path, layer, "gpkg", lyr, feats, case["order"] and rng, case["extra"]), "gpkg"


def write_again(path, name, how, lyr, feats, rng, extra):
    drv = ogr.GetDriverByName(DRIVER[how])
    ds = drv.CreateDataSource(path)
    defn = lyr.GetLayerDefn()
    opts = {"sqlite": ["LAUNDER=NO"], "fgb": ["SPATIAL_INDEX=" + ("YES" if rng else "NO")]}.get(how, [])
    if how in ("gpkg", "sqlite") and extra:
        other = ds.CreateLayer("0other", lyr.GetSpatialRef(), ogr.wkbPoint)
        other.CreateField(ogr.FieldDefn("nodeid", ogr.OFTInteger))
    out = ds.CreateLayer(name, lyr.GetSpatialRef(), lyr.GetGeomType(), opts)
    n = defn.GetFieldCount()
    order = list(range(n))
    if rng:
        feats = [feats[k] for k in rng.permutation(len(feats))]
        order = [int(k) for k in rng.permutation(n)]
    names = []
    if extra:
        out.CreateField(ogr.FieldDefn("REMARK", ogr.OFTString))
    for k in order:
        d = defn.GetFieldDefn(k)
        out.CreateField(ogr.FieldDefn(d.GetName(), d.GetType()))
        names.append(out.GetLayerDefn().GetFieldDefn(out.GetLayerDefn().GetFieldCount() - 1).GetName())
    for f in feats:
        g = ogr.Feature(out.GetLayerDefn())
        if extra:
            g.SetField("REMARK", "håndsat, \"ø\"")
        for k, nm in zip(order, names):
            if f.IsFieldSetAndNotNull(k):
                g.SetField(nm, f.GetField(k))
            else:
                g.SetFieldNull(nm)
        if f.GetGeometryRef() is not None:
            g.SetGeometry(f.GetGeometryRef())
        out.CreateFeature(g)
    real = out.GetName()
    del out, ds
    ds = ogr.Open(path)
    if ds.GetLayerByName(real) is None:
        real = ds.GetLayer(0).GetName()
    del ds
    return real


def same_by_id(ref, refl, got, gotl, key, what, rtol=1e-9):
    a = chain.by_id(ref, refl, key)
    b = chain.by_id(got, gotl, key)
    require(set(a) == set(b), "%s: %s of %s instead of %s", what, key, sorted(b, key=str)[:9], sorted(a, key=str)[:9])
    for k in a:
        p, q = a[k]["props"], b[k]["props"]
        for n, v in p.items():
            require(n in q or v is None, "%s: attribute %s is lost", what, n)
            w = q.get(n)
            if isinstance(v, (int, float)) and w is not None and w != "":
                require(chain.close(float(w), v, rtol, 1e-9), "%s: %s of %s %s is %r instead of %r", what, n, key, k, w, v)
            elif v is None:
                require(w is None or w == "" or w == 0, "%s: %s of %s %s is %r instead of missing", what, n, key, k, w)
            else:
                require(w == v, "%s: %s of %s %s is %r instead of %r", what, n, key, k, w, v)


def run_c29_vectors(case, rec):
    """The commands on layers: each input layer stored in another format, under another name, in other order."""
    z = write_dem(case)
    if n_bins(rio_terrain(z, case), 0.5) > 6000:
        return
    chain.surface()
    chain.bluespots(case["filter"])
    chain.pourpoints()
    chain.network()
    chain.hypsometry(0.5)
    chain.initvolumes(case["mm"])
    chain.finalvolumes()
    chain.finallevels()
    chain.finalbluespots()
    hows = []

    def again(layer, i, geom=True, untyped=False):
        path, name, how = restore("r.gpkg", layer, case, i, geom, untyped)
        hows.append("%s-%s" % (layer, how))
        return path, name
    o = place(case, "again.gpkg")
    end = ["-out", o, "-format", "gpkg"]
    pp, ppl = again("pourpoints", 0)
    rio.cli_ok("network", "-bluespots", "bspots.tif", "-flowdir", "flowdir.tif", "-pourpoints", pp, "-pourpoints_layer", ppl, *end)
    rio.cli_ok("hyps", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-pourpoints", pp, "-pourpoints_layer", ppl, "-zresolution", "0.5", *end)
    nd, ndl = again("nodes", 1)
    rio.cli_ok("initvolumes", "-nodes", nd, "-nodes_layer", ndl, "-mm", repr(case["mm"]), *end)
    iv, ivl = again("initvolumes", 2)
    rio.cli_ok("finalvolumes", "-inputvolumes", iv, "-inputvolumes_layer", ivl, *end)
    fv, fvl = again("finalvolumes", 3, untyped=True)
    hy, hyl = again("hyps", 4, geom=False, untyped=True)
    rio.cli_ok("finallevels", "-finalvols", fv, "-finalvols_layer", fvl, "-hyps", hy, "-hyps_layer", hyl, *end)
    fl, fll = again("finallevels", 5, geom=False, untyped=True)
    rio.cli_ok("finalbluespots", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-finallevels", fl, "-finallevels_layer", fll,
               "-out_depths", "d2.tif", "-out_bluespots", "b2.tif")
    names = ", ".join(hows)
    # which numbers junctions get may depend on the order of the pour points
    want = {k: f for k, f in chain.by_id("r.gpkg", "nodes", "nodeid").items()}
    got = {k: f for k, f in chain.by_id(o, "nodes", "nodeid").items()}
    require(len(want) == len(got), "network: %d nodes instead of %d (%s)", len(got), len(want), names)
    for k, f in want.items():
        if f["props"]["nodetype"] == "pourpoint":
            require(k in got, "network: node %s is missing (%s)", k, names)
            for n in ("nodetype", "bspot_id", "cell_row", "cell_col", "bspot_area", "bspot_vol", "wshed_area"):
                v, w = f["props"][n], got[k]["props"].get(n)
                require(v == w or isinstance(v, float) and w is not None and chain.close(float(w), v, 1e-9, 1e-9),
                        "network: %s of node %s is %r instead of %r (%s)", n, k, w, v, names)
    same_by_id("r.gpkg", "hyps", o, "hyps", "bspot_id", "hyps (%s)" % hows[0])
    same_by_id("r.gpkg", "initvolumes", o, "initvolumes", "nodeid", "initvolumes (%s)" % hows[1])
    same_by_id("r.gpkg", "finalvolumes", o, "finalvolumes", "nodeid", "finalvolumes (%s)" % hows[2], 1e-8)
    same_by_id("r.gpkg", "finallevels", o, "finallevels", "bspot_id", "finallevels (%s, %s)" % (hows[3], hows[4]), 1e-8)
    a, b = rio.R("finaldepths.tif").a.astype("float64"), rio.R("d2.tif").a.astype("float64")
    tol = 1e-5 * max(1.0, float(np.abs(rio_terrain(z, case)).max()))
    require(a.shape == b.shape and np.abs(a - b).max() <= tol, "finalbluespots: other depths (%s)", hows[5])
    x, y = rio.R("finalbspots.tif").a, rio.R("b2.tif").a
    require((x == y)[a > tol].all(), "finalbluespots: other bluespots (%s)", hows[5])
    if int(rio.R("bspots.tif").a.max()):
        rec.nontrivial(*hows)


def run_c29_defaults(case, rec):
    """The chain without any -format: shapefiles, CSV and GeoJSON by default."""
    z = write_dem(case)
    if n_bins(rio_terrain(z, case), 0.25) > 6000:
        return
    chain.surface()
    chain.bluespots(case["filter"])
    chain.pourpoints()
    chain.network()
    chain.hypsometry(0.25)
    chain.initvolumes(case["mm"])
    chain.finalvolumes()
    chain.finallevels()
    chain.finalbluespots()
    d = place(case, case["out"])
    if case["dirs"]:
        # everything in one directory of shapefiles; each layer is a file in it
        os.mkdir(d)
        pp = nd = iv = fv = d
    else:
        os.mkdir(d)
        pp, nd, iv, fv = [os.path.join(d, f + ".shp") for f in ("pourpoints", "nodes", "initvolumes", "finalvolumes")]
    hy, fl = os.path.join(d, "hyps.csv"), os.path.join(d, "finallevels.geojson")
    rio.cli_ok("pourpts", "-bluespots", "bspots.tif", "-depths", "depths.tif", "-watersheds", "wsheds.tif", "-accum", "accum.tif", "-out", pp)
    rio.cli_ok("network", "-bluespots", "bspots.tif", "-flowdir", "flowdir.tif", "-pourpoints", pp, "-out", d)
    rio.cli_ok("initvolumes", "-nodes", nd, "-mm", repr(case["mm"]), "-out", iv)
    rio.cli_ok("finalvolumes", "-inputvolumes", iv, "-out", fv)
    rio.cli_ok("hyps", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-pourpoints", pp, "-zresolution", "0.25", "-out", hy)
    rio.cli_ok("finallevels", "-finalvols", fv, "-hyps", hy, "-out", fl)
    rio.cli_ok("finalbluespots", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-finallevels", fl, "-out_depths", "d2.tif",
               "-out_bluespots", "b2.tif")
    for layer, path, key in (("pourpoints", pp, "bspot_id"), ("nodes", nd, "nodeid"), ("initvolumes", iv, "nodeid"),
                             ("finalvolumes", fv, "nodeid"), ("finallevels", fl, "bspot_id")):
        p = os.path.join(d, layer + ".shp") if layer != "finallevels" else fl
        same_by_id("r.gpkg", layer, p, None, key, layer + " (default format)", 1e-8)
    a, b = rio.R("finaldepths.tif").a.astype("float64"), rio.R("d2.tif").a.astype("float64")
    tol = 1e-5 * max(1.0, float(np.abs(rio_terrain(z, case)).max()))
    require(a.shape == b.shape and np.abs(a - b).max() <= tol, "finalbluespots: other depths by way of the default formats")
    x, y = rio.R("finalbspots.tif").a, rio.R("b2.tif").a
    require((x == y)[a > tol].all(), "finalbluespots: other bluespots by way of the default formats")
    if int(rio.R("bspots.tif").a.max()):
        rec.nontrivial("defaults", "one-directory" if case["dirs"] else "files")


@st.composite
def stored(draw, **more):
    dt = draw(st.sampled_from(["float32", "float32", "float64", "int16", "int32", "uint16"]))
    nd = draw(st.sampled_from(["none", "none", "low", "high"]))
    if dt == "uint16" and nd == "low":
        nd = "high"
    c = {"dem": draw(DEMS), "g": draw(G), "dtype": dt, "nodata": nd,
         "holes": draw(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)).map(list), max_size=5)) if nd != "none" else [],
         "name": draw(st.sampled_from(NAMES)), "dir": draw(st.sampled_from(DIRS)), "abs": draw(bools),
         "out": draw(st.sampled_from(["out", "out put", "Résultat.1", "o'o", "-o"])), "seed": draw(st.integers(0, 2**20)),
         "pick": draw(st.integers(0, 5))}
    for k, s in more.items():
        c[k] = draw(s)
    return c


WAYS = st.sampled_from(sorted(STORES))
PROPS = [
    {"id": "C29", "aspects": [
        Aspect("dem", stored(store=WAYS, mm=MM, accum=bools, vector=bools, filter=FLT), run_c29_dem, 160, 2400),
        Aspect("rasters", stored(store=WAYS, stores=st.lists(WAYS, min_size=1, max_size=3), step=st.integers(0, 10)),
               run_c29_rasters, 240, 3600),
        Aspect("vectors", stored(filter=FLT, mm=MM, ways=st.lists(st.integers(0, 40), min_size=1, max_size=6), order=bools, extra=bools),
               run_c29_vectors, 160, 2400),
        Aspect("defaults", stored(filter=FLT, mm=MM, dirs=bools), run_c29_defaults, 80, 1200),
    ]},
]
