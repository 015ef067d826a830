"""C16 rasters, C17 vector layers, C19 polygons, C26 output formats: what is written is what can be read."""
import json
import math
import os
import sqlite3

import numpy as np
from hypothesis import strategies as st
from osgeo import gdal, ogr, osr

from ..core import Aspect, require, fail, sut
from ..gen import (dem_raw, dem_flatpits, dem_proc, decode_dem, labelings, decode_labels, georefs, transform_of, EPSG)
from ..oracle import components8
from .. import rio, chain
from ..chain import close

bools = st.booleans()
G = georefs()

# ---------------------------------------------------------------- C16

RDT = ["float32", "float64", "int32", "uint32", "int16", "uint16", "uint8", "int64", "uint64", "int8", "bool", "float16"]


# smallest and largest values around the limits of the integer types of a file
LIMITS = sorted({0, 1, 200} | {v + o for v in (2**7, 2**8, 2**15, 2**16, 2**31, 2**32) for o in (-2, -1, 0, 1)}
                | {-v + o for v in (2**7, 2**8, 2**15, 2**16, 2**31) for o in (-1, 0, 1)})


@st.composite
def arrays(draw):
    d = draw(st.sampled_from(RDT))
    if draw(st.integers(0, 9)) == 0:
        # larger than one block of the file
        r, c = draw(st.one_of(st.tuples(st.integers(200, 600), st.integers(200, 600)),
                              st.tuples(st.integers(1, 3), st.integers(32700, 66000)),
                              st.tuples(st.integers(32700, 66000), st.integers(1, 3))))
        return {"r": r, "c": c, "d": d, "b": None, "seed": draw(st.integers(0, 2**24)),
                "lim": draw(st.sampled_from([3, 200, 40000]))}
    r, c = draw(st.integers(1, 14)), draw(st.integers(1, 14))
    return {"r": r, "c": c, "d": d, "b": draw(st.binary(min_size=r * c, max_size=r * c)).hex(),
            "lim": draw(st.sampled_from([3, 100, 255, 30000, 70000, 2**31 - 10, 2**32 - 1])),
            "neg": draw(bools), "special": draw(st.sampled_from([None, None, None, "nan", "inf"])),
            "lo": draw(st.sampled_from([None] + LIMITS)), "hi": draw(st.sampled_from([None] + LIMITS))}


def decode_array(a):
    d = np.dtype(a["d"])
    if a["b"] is None:
        rng = np.random.RandomState(a["seed"])
        lim = min(a["lim"], 60000 if d.kind == "f" else np.iinfo(d).max if d.kind in "iu" else 1)
        v = rng.randint(0, lim + 1, (a["r"], a["c"])).astype("float64")
        return (v * 0.37 if d.kind == "f" and d.itemsize > 2 else v).astype(d)
    v = np.frombuffer(bytes.fromhex(a["b"]), "uint8").reshape(a["r"], a["c"]).astype("float64") / 255.0
    if d.kind == "b":
        return v > 0.5
    if d.kind in "iu":
        lim = min(a["lim"], np.iinfo(d).max)
        x = np.floor(v * lim).astype("int64")
        if a["neg"] and d.kind == "i":
            x = x - min(lim // 2, 2**30)
            x = np.clip(x, max(np.iinfo(d).min, -2**31), min(np.iinfo(d).max, 2**31 - 1))
        if a.get("lo") is not None or a.get("hi") is not None:
            # exact smallest and largest values
            bot, top = max(np.iinfo(d).min, -2**31), min(np.iinfo(d).max, 2**32 - 1)
            lo = int(x.min()) if a.get("lo") is None else min(max(a["lo"], bot), top)
            hi = int(x.max()) if a.get("hi") is None else min(max(a["hi"], bot), top)
            lo, hi = min(lo, hi), max(lo, hi)
            if lo < 0:
                hi = min(hi, 2**31 - 1)  # no 32-bit type holds both
            lo = min(lo, hi)
            x = np.clip(x, lo, hi)
            x.flat[0], x.flat[-1] = lo, hi
        return x.astype(d)
    x = v * min(a["lim"], 60000 if d.itemsize == 2 else 1e30)
    if a["neg"]:
        x = -x
    x = x.astype(d)
    if a["special"]:
        x[0, 0] = float(a["special"])
    return x


def run_c16(case, rec):
    from malstroem import io
    a = decode_array(case["a"])
    g = case["g"]
    t = transform_of(g)
    if case["rot"]:
        t = (t[0], t[1], 0.3, t[3], -0.2, t[5])
    nd = case["nodata"]
    if a.dtype.kind in "iub":
        if nd is not None and (math.isnan(nd) or nd != int(nd)):
            nd = 0.0
        if nd is not None and nd < 0 and a.dtype.kind in "ub":
            nd = 7.0
    if a.dtype == np.float16 and not np.isfinite(a.astype("float64")).all():
        a = np.where(np.isfinite(a), a, 0).astype("float16")
    keep = a.copy()
    w = sut(io.RasterWriter, "r.tif", t, rio.wkt(g["epsg"]), nd)
    if case["twice"]:
        sut(w.write, np.zeros((3, 5), "float32"))
    sut(w.write, a)
    require(a.dtype == keep.dtype and ((a == keep) | (a != a)).all(), "writing modifies the array")
    x = rio.R("r.tif")
    require(x.shape == a.shape, "raster of shape %s written for an array of %s", x.shape, a.shape)

    def equal(p, q):
        p, q = np.asarray(p), np.asarray(q)
        return p.shape == q.shape and bool(((p.astype("float64") == q.astype("float64")) |
                                            (np.isnan(p.astype("float64")) & np.isnan(q.astype("float64")))).all())
    require(equal(x.a, a), "values of a %s array are not those in the file", a.dtype)
    if a.dtype.kind in "iu":
        require(x.dtype.kind in "iu", "integers written as %s", x.dtype)
    require(all(close(p, q, 1e-12, 1e-12) for p, q in zip(x.transform, t)), "transform %s written as %s", t, x.transform)
    require(rio.same_crs(x.crs, rio.wkt(g["epsg"])), "coordinate system lost")
    if nd is None:
        require(x.nodata is None, "nodata value %r appears", x.nodata)
    else:
        require(x.nodata is not None and (x.nodata == nd or (math.isnan(nd) and math.isnan(x.nodata))),
                "nodata value %r written as %r", nd, x.nodata)
    r = sut(io.RasterReader, "r.tif")
    require(tuple(r.shape) == a.shape, "reader reports shape %s", r.shape)
    require(all(close(p, q, 1e-12, 1e-12) for p, q in zip(r.transform, t)), "reader reports transform %s", r.transform)
    require(close(r.resolution[0], abs(t[5])) and close(r.resolution[1], abs(t[1])), "reader reports resolution %s",
            r.resolution)
    require(rio.same_crs(r.crs, x.crs), "reader reports another coordinate system")
    first = sut(r.read)
    require(equal(first, a), "reader returns other values")
    f0 = first.copy()
    first[:] = 1
    require(equal(sut(r.read), f0), "a second read differs from the first")
    rec.nontrivial("dtype-" + str(a.dtype), "blocks" if a.size > 256 * 256 else "small",
                   "nodata" if nd is not None else "no-nodata")


def run_c16_nodata(case, rec):
    """Reading with a substitute: exactly the nodata cells change."""
    from malstroem import io
    d = np.dtype(case["d"])
    b = np.frombuffer(bytes.fromhex(case["b"]), "uint8").reshape(case["r"], case["c"])
    vals = (b % 50).astype(d) if d.kind in "iu" else (b % 50).astype(d) * d.type(0.37)
    nd = case["nodata"]
    hole = (b >= 200)
    if d.kind in "iu":
        nd = float({"uint8": 255, "uint16": 65535, "int16": -32768, "int32": -2147483648, "uint32": 4294967295}[str(d)]) \
            if nd in ("big", "nan") else 0.0 if nd == "zero" else (float(-999) if d.kind == "i" else 99.0) \
            if nd == "plain" else {"uint8": 100.0, "uint16": 30000.0, "int16": -30000.0, "int32": 1000000.0,
                                   "uint32": 3000000000.0}[str(d)]
        if case["nodata"] in ("large", "big"):
            # whole numbers next to the nodata value are no nodata
            off = b.astype("int64") % 100 + 1
            vals = (int(nd) + np.where((nd < 0) | (case["nodata"] == "large") & (b % 2 == 0), off, -off)).astype(d)
    else:
        nd = {"big": -3.4028234663852886e+38, "nan": math.nan, "zero": 0.0, "plain": -999.0, "large": -99999.0}[nd]
    # floats: no value lies near the nodata value
    if nd == 0:
        vals = (vals + d.type(1)).astype(d)
    vals = vals.copy()
    vals[hole] = nd
    rio.write_tif("n.tif", vals, epsg=25832, nodata=nd)
    sub = case["sub"]
    r = sut(io.RasterReader, "n.tif", nodatasubst=sub)
    got = sut(r.read)
    require(got.shape == vals.shape, "reader returns shape %s", got.shape)
    want = vals.astype("float64")
    if sub is not None:
        want[hole] = sub
    ok = (got.astype("float64") == want) | (np.isnan(want) & np.isnan(got.astype("float64")))
    require(ok.all(), "nodata %r, substitute %r: cell %s of a %s raster reads as %r instead of %r", nd, sub,
            np.argwhere(~ok)[:1].tolist(), d, got[~ok][:1].tolist(), want[~ok][:1].tolist())
    if hole.any() and not hole.all():
        rec.nontrivial("substituted" if sub is not None else "kept", "dtype-" + str(d), "nodata-" + case["nodata"])


# ---------------------------------------------------------------- C17

TEXTS = ["", "pourpoint", "2|1|0", "0|0|13", "æøå ÆØÅ", "a,b;c", 'say "hi"', "line", "x" * 60, "007", "1e5", "true",
         "None", "a\\b", "{curly}", "it's"]
# names short enough and different for shapefiles
NAMES = ["bspot_id", "name", "value", "cnt", "vol", "Z", "txt2"]


@st.composite
def layers(draw):
    nf = draw(st.integers(1, 5))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=nf, max_size=nf, unique=True))
    kinds = [draw(st.sampled_from(["int", "float", "str", "bigint"])) for _ in names]
    n = draw(st.integers(1, 7))
    rows = []
    for i in range(n):
        row = []
        for k in kinds:
            # the first row decides the field types of a layer whose values are all missing; keep one value per column
            if i and draw(st.integers(0, 5)) == 0:
                row.append(None)
            elif k == "int":
                row.append(draw(st.integers(-2**31, 2**31 - 1)))
            elif k == "bigint":
                row.append(draw(st.sampled_from([2**40, -2**40, 3, 2**31])))
            elif k == "float":
                row.append(draw(st.sampled_from([0.5, -0.1, 1.0 / 3, 123456.789, 1e-7, 2.5e7, -1e5 / 3, 0.1 + 0.2])))
            else:
                row.append(draw(st.sampled_from(TEXTS)))
        rows.append(row)
    return {"names": names, "kinds": kinds, "rows": rows, "first_null": draw(st.integers(0, 3)) == 0,
            "geom": draw(st.sampled_from(["Point", "LineString", "Polygon", "none"])),
            "xy": [[draw(st.integers(-9999, 9999)) * 0.37123456, draw(st.integers(-9999, 9999)) * 0.11987654] for _ in rows]}


def features_of(case):
    if case["first_null"] and len(case["rows"]) > 1:
        rows = list(reversed(case["rows"]))
    else:
        rows = case["rows"]
    feats = []
    for row, (x, y) in zip(rows, case["xy"]):
        x, y = x + 5e5, y + 6.1e6
        g = {"Point": {"type": "Point", "coordinates": [x, y]},
             "LineString": {"type": "LineString", "coordinates": [[x, y], [x + 1.5, y], [x + 2.5, y - 0.25]]},
             "Polygon": {"type": "Polygon", "coordinates": [[[x, y], [x + 2.0, y], [x + 2.0, y + 1.0], [x, y]]]},
             "none": None}[case["geom"]]
        feats.append({"type": "Feature", "geometry": g, "properties": dict(zip(case["names"], row))})
    return feats


GEOM = {"Point": ogr.wkbPoint, "LineString": ogr.wkbLineString, "Polygon": ogr.wkbPolygon, "none": ogr.wkbNone}
FORMATS = {"gpkg": "l.gpkg", "GPKG": "l.gpkg", "geojson": "lay.geojson", "ESRI Shapefile": "lay.shp", "CSV": "lay.csv",
           "sqlite": "l.sqlite"}


def flat(c):
    return [v for p in c for v in flat(p)] if isinstance(c, (list, tuple)) else [c]


def same_geom(a, b, tol=1e-6):
    if a is None or b is None:
        return a is None and b is None
    if a["type"] != b["type"]:
        return False
    if a["type"] == "Polygon":  # rings may be turned around
        def ring(r):
            return sorted((round(p[0], 5), round(p[1], 5)) for p in r[:-1])
        return [ring(r) for r in a["coordinates"]] == [ring(r) for r in b["coordinates"]]
    p, q = flat(a["coordinates"]), flat(b["coordinates"])
    return len(p) == len(q) and all(abs(x - y) <= tol for x, y in zip(p, q))


def same_field(v, g, kind, fmt):
    if v is None:
        # text formats cannot tell an empty text from a missing one
        return g is None or g == ""
    if kind == "str":
        if v == "" and g is None:
            return True
        if fmt == "CSV" and str(g) == v:
            return True
        return g == v
    if g is None:
        return False
    try:
        return close(float(g), float(v), 1e-12 if fmt != "ESRI Shapefile" else 1e-9, 1e-14)
    except (TypeError, ValueError):
        return False


def run_c17(case, rec):
    from malstroem import io
    fmt = case["fmt"]
    lay = case["l"]
    if lay["geom"] == "none" and fmt == "ESRI Shapefile":
        lay = dict(lay, geom="Point")
    if fmt == "CSV":
        lay = dict(lay, geom="none")
    feats = features_of(lay)
    kinds = dict(zip(lay["names"], lay["kinds"]))
    path = FORMATS[fmt]
    # texts like '007' may be typed as numbers by text formats only when every value of the column is such a text
    given = json.loads(json.dumps(feats))
    arg = feats if not case["collection"] else {"type": "FeatureCollection", "features": feats}
    if case["other"] and fmt.lower() in ("gpkg", "sqlite"):
        sut(io.VectorWriter(fmt, path, "other", None, ogr.wkbPoint, rio.wkt()).write_geojson_features,
            [{"type": "Feature", "geometry": {"type": "Point", "coordinates": [1.0, 2.0]}, "properties": {"q": 5}}])
    w = sut(io.VectorWriter, fmt, path, "lay", None, GEOM[lay["geom"]], rio.wkt(case["epsg"]))
    sut(w.write_geojson_features, arg)
    require(feats == given, "writing modifies the features")
    got, crs, _ = rio.read_layer(path, None if fmt in ("ESRI Shapefile", "CSV", "geojson") else "lay")
    require(len(got) == len(feats), "%d features written, %d in the %s file", len(feats), len(got), fmt)
    if lay["geom"] != "none":
        require(rio.same_crs(crs, rio.wkt(case["epsg"])), "coordinate system lost in %s", fmt)
    r = sut(io.VectorReader, path, None if fmt in ("ESRI Shapefile", "CSV", "geojson") else "lay")
    if lay["geom"] != "none":
        require(rio.same_crs(r.crs, rio.wkt(case["epsg"])), "reader reports another coordinate system")
    read = sut(r.read_geojson_features)
    again = sut(r.read_geojson_features)
    require(read == again, "a second read differs from the first")
    require(len(read) == len(feats), "reader returns %d of %d features", len(read), len(feats))
    for src, (a, b) in zip(feats, zip([(f["props"], f["geom"]) for f in got],
                                      [(f["properties"], f["geometry"]) for f in read])):
        for props, geom in (a, b):
            if lay["geom"] != "none":
                require(same_geom(src["geometry"], geom), "%s: geometry %s became %s", fmt, src["geometry"], geom)
            for k, v in src["properties"].items():
                require(k in props or v is None, "%s: attribute %s is lost", fmt, k)
                require(same_field(v, props.get(k), kinds[k], fmt), "%s: attribute %s was %r and is %r", fmt, k, v,
                        props.get(k))
    if case["other"] and fmt.lower() in ("gpkg", "sqlite"):
        o = rio.read_layer(path, "other")[0]
        require(len(o) == 1 and o[0]["props"]["q"] == 5, "another layer of the file was changed")
    rec.nontrivial("format-" + fmt, "geom-" + lay["geom"])


LONGS = [254, 255, 256, 4096, 32767, 65535, 65536, 70000]


@st.composite
def long_layers(draw):
    """Many rows; columns which start with many missing values; very long texts."""
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    return {"names": names, "kinds": [draw(st.sampled_from(["int", "float", "str", "bigint"])) for _ in names],
            "lead": [draw(st.sampled_from([0, 0, 1, 2, 40, 150])) for _ in names], "n": draw(st.sampled_from([3, 30, 101, 600, 2500])),
            "longs": draw(bools), "gaps": draw(st.sampled_from([0.0, 0.2, 0.9])), "seed": draw(st.integers(0, 2**24)),
            "geom": draw(st.sampled_from(["Point", "LineString", "Polygon", "none"]))}


@st.composite
def endless_layers(draw):
    """Very many short rows."""
    n = draw(st.sampled_from([1, 1, 2]))
    return {"names": NAMES[:n], "kinds": [draw(st.sampled_from(["int", "float", "bigint"])) for _ in range(n)], "lead": [0] * n,
            "n": draw(st.sampled_from([20000, 10000, 20000, 5000, 32768, 40000, 65536])) + draw(st.integers(0, 40)),
            "longs": False, "gaps": draw(st.sampled_from([0.0, 0.3])), "seed": draw(st.integers(0, 2**24)),
            "geom": draw(st.sampled_from(["none", "none", "Point"]))}


def decode_long(d, maxlen):
    rng = np.random.RandomState(d["seed"])
    n = d["n"]
    cols = []
    for k, lead in zip(d["kinds"], d["lead"]):
        lead = min(lead, n - 1)
        if k == "int":
            v = [int(q) for q in rng.randint(-2**31, 2**31, n)]
        elif k == "bigint":
            v = [int(q) * 2**20 + 1 for q in rng.randint(-2**31, 2**31, n)]
        elif k == "float":
            v = [float(q) for q in rng.standard_normal(n) * 10.0 ** rng.randint(-9, 12, n)]
        else:
            v = [TEXTS[int(q) % len(TEXTS)] for q in rng.randint(0, 1000, n)]
            if d["longs"]:
                for i in rng.randint(0, n, 3):
                    m = min(LONGS[int(rng.randint(0, len(LONGS)))], maxlen)
                    v[int(i)] = "a" + "".join("abc|19,; "[int(q) % 9] for q in rng.randint(0, 9, m - 2)) + "z"
        keep = lead + int(rng.randint(0, n - lead))  # at least one value in every column
        for i in range(n):
            if i != keep and (i < lead or rng.rand() < d["gaps"]):
                v[i] = None
        cols.append(v)
    return {"names": d["names"], "kinds": d["kinds"], "rows": [list(q) for q in zip(*cols)], "first_null": False, "geom": d["geom"],
            "xy": (rng.randint(-9999, 9999, (n, 2)) * 0.37123456).tolist()}


def run_c17_long(case, rec):
    run_c17(dict(case, l=decode_long(case["l"], 250 if case["fmt"] == "ESRI Shapefile" else 10**6)), rec)
    rec.tag("rows-%d" % case["l"]["n"], "long-texts" if case["l"]["longs"] else "short-texts")


def run_c17_layers(case, rec):
    """Several layers of one file; by name, by number and the default (first) one."""
    from malstroem import io
    names = case["names"]
    content = {}
    for i, n in enumerate(names):
        feats = [{"type": "Feature", "geometry": {"type": "Point", "coordinates": [float(i), float(j)]},
                  "properties": {"k": 100 * i + j}} for j in range(case["sizes"][i])]
        content[n] = [f["properties"]["k"] for f in feats]
        sut(io.VectorWriter("gpkg", "m.gpkg", n, None, ogr.wkbPoint, rio.wkt()).write_geojson_features, feats)
    require(rio.layer_names("m.gpkg") == names, "layers %s written, %s found", names, rio.layer_names("m.gpkg"))
    for i, n in enumerate(names):
        for key in (n, i) + ((None,) if i == 0 else ()):
            got = [f["properties"]["k"] for f in sut(sut(io.VectorReader, "m.gpkg", key).read_geojson_features)]
            require(got == content[n], "layer %r: read %s instead of %s", key, got, content[n])
    if len(names) > 1:
        rec.nontrivial("layers")
    for bad in ("no such layer", len(names) + 3, len(names), -1, names[0] + "x", "xx" + names[0]):
        if bad in names:
            continue
        try:
            io.VectorReader("m.gpkg", bad)
        except Exception:
            continue
        fail("reading layer %r of %s, which does not exist, succeeds" % (bad, names))


# ---------------------------------------------------------------- C19


def rasterize(path, layer, field, shape, transform):
    """Cells whose centre lies in the polygons -> (raster, number of cells covered more than once)."""
    ds = ogr.Open(path, 0)
    lyr = ds.GetLayerByName(layer) if layer else ds.GetLayer(0)
    out = np.zeros(shape, "int64")
    times = np.zeros(shape, int)
    mem = gdal.GetDriverByName("MEM")
    # work in cell coordinates: no rounding of large coordinates
    inv = gdal.InvGeoTransform(transform)
    for f in lyr:
        r = mem.Create("", shape[1], shape[0], 1, gdal.GDT_Byte)
        r.SetGeoTransform((0, 1, 0, 0, 0, 1))
        md = ogr.GetDriverByName("Memory").CreateDataSource("m")
        ml = md.CreateLayer("l", None, ogr.wkbPolygon)
        g = f.GetGeometryRef().Clone()
        poly = ogr.Geometry(ogr.wkbPolygon)
        parts = [g] if g.GetGeometryName() == "POLYGON" else [g.GetGeometryRef(i) for i in range(g.GetGeometryCount())]
        for part in parts:
            nf = ogr.Feature(ml.GetLayerDefn())
            poly = ogr.Geometry(ogr.wkbPolygon)
            for i in range(part.GetGeometryCount()):
                ring = part.GetGeometryRef(i)
                nr = ogr.Geometry(ogr.wkbLinearRing)
                for j in range(ring.GetPointCount()):
                    px, py = gdal.ApplyGeoTransform(inv, ring.GetX(j), ring.GetY(j))
                    nr.AddPoint_2D(round(px * 1000) / 1000, round(py * 1000) / 1000)
                poly.AddGeometry(nr)
            nf.SetGeometry(poly)
            ml.CreateFeature(nf)
        gdal.RasterizeLayer(r, [1], ml, burn_values=[1])
        m = r.ReadAsArray() > 0
        out[m] = f.GetField(field)
        times[m] += 1
    return out, int((times > 1).sum())


def check_polygons(path, layer, lab, transform, crs, rec, what="polygons"):
    """Polygons with bspot_id are the connected regions of equal nonzero id."""
    feats, lcrs, _ = rio.read_layer(path, layer)
    require(rio.same_crs(lcrs, crs), "%s have another coordinate system than the raster", what)
    cell = abs(transform[1] * transform[5])
    ids = {}
    ds = ogr.Open(path, 0)
    lyr = ds.GetLayerByName(layer) if layer else ds.GetLayer(0)
    for f in lyr:
        g = f.GetGeometryRef()
        require(g is not None and g.GetGeometryName() in ("POLYGON", "MULTIPOLYGON"), "%s: geometry %s", what,
                g.GetGeometryName() if g is not None else None)
        k = f.GetField("bspot_id")
        require(k is not None, "%s: polygon without bspot_id", what)
        ids.setdefault(int(k), []).append(g.GetArea())
    want = {int(k): int((lab == k).sum()) for k in np.unique(lab) if k}
    require(set(ids) == set(want), "%s have ids %s, the raster has %s", what, sorted(ids)[:10], sorted(want)[:10])
    for k in want:
        require(close(sum(ids[k]), want[k] * cell, 1e-6), "%s of id %d cover %r, its cells %r", what, k, sum(ids[k]),
                want[k] * cell)
    back, twice = rasterize(path, layer, "bspot_id", lab.shape, transform)
    require(twice == 0, "%s overlap", what)
    require((back == lab).all(), "%s do not cover the cells of their id", what)
    # one polygon per connected region, unless two regions cross at a corner
    cross = 0
    a, b, c, d = lab[:-1, :-1], lab[:-1, 1:], lab[1:, :-1], lab[1:, 1:]
    cross = int(((a == d) & (b == c) & (a != b)).sum())
    if cross == 0:
        n = sum(components8(lab == k)[1] for k in want)
        require(len(feats) == n, "%d %s for %d connected regions", len(feats), what, n)
    if want:
        rec.nontrivial("regions>ids" if len(feats) > len(want) else "regions", "corner-crossing" if cross else "plain")
    return want


def run_c19_cli(case, rec):
    lab = decode_labels(case["lab"], case["r"], case["c"], case["ldtype"])
    if case["noise"]:
        rng = np.random.RandomState(case["noise"])
        lab[rng.rand(*lab.shape) < 0.3] = 0
    t = transform_of(case["g"])
    rio.write_tif("ids.tif", lab, t, case["g"]["epsg"], 0)
    before = open("ids.tif", "rb").read()
    fmt, path, layer = case["fmt"]
    rio.cli_ok("polys", "-raster", "ids.tif", "-out", path, "-format", fmt, "-layername", "shapes")
    require(open("ids.tif", "rb").read() == before, "the raster was changed")
    check_polygons(path, layer, lab, t, rio.wkt(case["g"]["epsg"]), rec)


def run_c19_chain(case, rec):
    """Bluespots, watersheds and final bluespots of complete -vector."""
    chain.dem_to_file(case["dem"], case["g"])
    os.mkdir("o")
    a = ["complete", "-dem", "dem.tif", "-outdir", "o", "-mm", repr(case["mm"]), "-zresolution", "0.1", "-vector"]
    if case["filter"]:
        a += ["-filter", case["filter"]]
    rio.cli_ok(*a)
    t = transform_of(case["g"])
    crs = rio.wkt(case["g"]["epsg"])
    for raster, layer in (("bluespots.tif", "bluespots"), ("watersheds.tif", "watersheds"),
                          ("finalbluespots.tif", "finalbluespots")):
        lab = rio.R("o/" + raster).a
        if not (lab != 0).any():
            if layer in rio.layer_names("o/malstroem.gpkg"):
                require(len(rio.read_layer("o/malstroem.gpkg", layer)[0]) == 0, "polygons of an empty raster in %s", layer)
            continue
        check_polygons("o/malstroem.gpkg", layer, lab, t, crs, rec, layer)


IDS = [1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 70001, 2**24 + 1, 2**24 + 3, 2**30 + 7, 2**31 - 2, 2**31 - 1]


def run_c19_ids(case, rec):
    """Ids far apart, or very many of them."""
    rng = np.random.RandomState(case["seed"])
    if case["many"]:
        r, c = case["r"] * 6, case["c"] * 6
        lab = rng.permutation(r * c).reshape(r, c) + case["first"]
        lab[rng.rand(r, c) < 0.2] = 0
        lab = np.minimum(lab, 2**31 - 1)
    else:
        lab = decode_labels(case["lab"], case["r"], case["c"], "int64")
        ids = np.array([0] + [IDS[i] for i in rng.permutation(len(IDS))])
        lab = ids[lab % len(ids)]
    lab = lab.astype("int32")
    t = transform_of(case["g"])
    rio.write_tif("ids.tif", lab, t, case["g"]["epsg"], 0)
    fmt, path, layer = case["fmt"]
    rio.cli_ok("polys", "-raster", "ids.tif", "-out", path, "-format", fmt, "-layername", "shapes")
    if not case["many"]:
        check_polygons(path, layer, lab, t, rio.wkt(case["g"]["epsg"]), rec)
        rec.tag("ids")
        return
    cell = abs(t[1] * t[5])
    feats = rio.read_layer(path, layer)[0]
    got = {}
    for f in feats:
        k = int(f["props"]["bspot_id"])
        if k == 2**31 - 1:
            got.setdefault(k, [])  # all higher ids: regions of any shape
            continue
        ring = np.array(f["geom"]["coordinates"][0])
        require(len(f["geom"]["coordinates"]) == 1, "the polygon of one cell has holes")
        mid = (ring.min(axis=0) + ring.max(axis=0)) / 2
        size = (ring.max(axis=0) - ring.min(axis=0)).prod()
        require(close(size, cell, 1e-4), "polygon of id %d covers %r instead of one cell of %r", k, size, cell)
        got.setdefault(k, []).append(mid)
    want = set(np.unique(lab).tolist()) - {0}
    require(set(got) == want, "%d ids in the polygons, %d in the raster; %s, %s", len(got), len(want),
            sorted(set(got) - want)[:5], sorted(want - set(got))[:5])
    for k in sorted(want)[:: max(1, len(want) // 500)]:
        if k == 2**31 - 1:
            continue
        y, x = np.argwhere(lab == k)[0].tolist()
        cx, cy = chain.centre(t, y, x)
        require(len(got[k]) == 1 and close(got[k][0][0], cx, 1e-9, 1e-6) and close(got[k][0][1], cy, 1e-9, 1e-6),
                "the polygon of id %d lies at %s, its cell at (%r, %r)", k, got[k][0].tolist(), cx, cy)
    rec.nontrivial("many-ids")


def run_c19_api(case, rec):
    from malstroem import vector
    lab = decode_labels(case["lab"], case["r"], case["c"], "int32")
    lab[lab > 0] += case["above"]
    t = transform_of(case["g"])
    rio.write_tif("ids.tif", lab, t, case["g"]["epsg"], 0)
    feats = sut(lambda: list(vector.vectorize_labels_file("ids.tif", id_attribute=case["attr"])))
    cell = abs(t[1] * t[5])
    area = {}
    for f in feats:
        require(f["type"] == "Feature" and f["geometry"]["type"] == "Polygon", "feature %s", str(f)[:80])
        k = f["properties"][case["attr"]]
        g = ogr.CreateGeometryFromJson(json.dumps(f["geometry"]))
        area[k] = area.get(k, 0) + g.GetArea()
    want = {int(k): int((lab == k).sum()) * cell for k in np.unique(lab) if k}
    require(set(area) == set(want) and all(close(area[k], want[k], 1e-6) for k in want),
            "polygon areas %s, expected %s", area, want)
    if want:
        rec.nontrivial("api")
    for rc in case["cells"]:
        x, y = sut(vector.transform_cell_to_world, tuple(rc), t)
        cx, cy = chain.centre(t, *rc)
        require(close(x, cx, 1e-12) and close(y, cy, 1e-12), "cell %s lies at (%r, %r), not (%r, %r)", rc, cx, cy, x, y)


# ---------------------------------------------------------------- C26

# format, datasource, options, probe
def fid_column(path, layer):
    ds = ogr.Open(path, 0)
    return ds.GetLayerByName(layer).GetFIDColumn()


def geometry_column(path, layer):
    ds = ogr.Open(path, 0)
    return ds.GetLayerByName(layer).GetGeometryColumn()


def sqlite_rows(path, sql):
    con = sqlite3.connect("file:%s?mode=ro" % path, uri=True)
    try:
        return con.execute(sql).fetchall()
    finally:
        con.close()


def head(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


VEC = ["pourpts", "network", "hyps", "initvolumes", "finalvolumes", "finallevels", "polys"]
# option sets: list of (kind, dsco, lco)
OPTS = ["none", "fid", "fid+geom", "version", "contents+fid", "csv", "csv-sep", "csv-sep+bom", "json", "json-nonames",
        "json-bom", "shp", "shp-encoding"]


def option_set(name):
    """-> driver, extension, dsco, lco"""
    return {
        "none": ("gpkg", "gpkg", [], []),
        "fid": ("gpkg", "gpkg", [], ["FID=myfid"]),
        "fid+geom": ("GPKG", "gpkg", [], ["FID=rowno", "GEOMETRY_NAME=shape"]),
        "version": ("gpkg", "gpkg", ["VERSION=1.0"], []),
        "contents+fid": ("gpkg", "gpkg", ["ADD_GPKG_OGR_CONTENTS=NO"], ["FID=myfid", "DESCRIPTION=about this"]),
        "csv": ("CSV", "csv", [], []),
        "csv-sep": ("CSV", "csv", [], ["SEPARATOR=SEMICOLON"]),
        "csv-sep+bom": ("CSV", "csv", [], ["SEPARATOR=TAB", "WRITE_BOM=YES"]),
        "json": ("geojson", "geojson", [], []),
        "json-nonames": ("GeoJSON", "geojson", [], ["WRITE_NAME=NO"]),
        "json-bom": ("GeoJSON", "geojson", [], ["DESCRIPTION=about this"]),
        "shp": ("ESRI Shapefile", "shp", [], []),
        "shp-encoding": ("ESRI Shapefile", "shp", [], ["ENCODING=ISO-8859-1"]),
    }[name]


def check_options(name, path, layer, geom):
    if name in ("fid", "contents+fid"):
        require(fid_column(path, layer) == "myfid", "-lco FID=myfid is not honoured")
    if name == "fid+geom":
        require(fid_column(path, layer) == "rowno", "-lco FID=rowno is not honoured")
        if geom:
            require(geometry_column(path, layer) == "shape", "-lco GEOMETRY_NAME=shape is not honoured")
    if name == "version":
        require(sqlite_rows(path, "pragma application_id")[0][0] == 0x47503130, "-dsco VERSION=1.0 is not honoured")
    if name == "contents+fid":
        require(not sqlite_rows(path, "select name from sqlite_master where name='gpkg_ogr_contents'"),
                "-dsco ADD_GPKG_OGR_CONTENTS=NO is not honoured")
        require(sqlite_rows(path, "select description from gpkg_contents where table_name='%s'" % layer) ==
                [("about this",)], "-lco DESCRIPTION is not honoured")
    if name == "csv":
        require("," in head(path).splitlines()[0] and ";" not in head(path).splitlines()[0], "not comma separated")
    if name == "csv-sep":
        require(";" in head(path).splitlines()[0], "-lco SEPARATOR=SEMICOLON is not honoured")
    if name == "csv-sep+bom":
        require("\t" in head(path).splitlines()[0] and head(path).startswith("\ufeff"),
                "-lco SEPARATOR=TAB, WRITE_BOM=YES is not honoured")
    if name in ("json", "json-nonames", "json-bom"):
        try:
            j = json.loads(head(path))
        except ValueError:
            fail("output is no JSON")
        require(j.get("type") == "FeatureCollection", "output is no FeatureCollection")
        require(("name" in j) == (name != "json-nonames"), "-lco WRITE_NAME is not honoured")
        if name == "json-bom":
            require(j.get("description") == "about this", "-lco DESCRIPTION is not honoured")
    if name == "shp-encoding":
        cpg = path[:-4] + ".cpg"
        require(os.path.exists(cpg) and "8859-1" in head(cpg), "-lco ENCODING is not honoured")


def args_of(cmd, src):
    """Everything but the output arguments."""
    return {
        "pourpts": ["pourpts", "-bluespots", "bspots.tif", "-depths", "depths.tif", "-watersheds", "wsheds.tif", "-accum",
                    "accum.tif"],
        "network": ["network", "-bluespots", "bspots.tif", "-flowdir", "flowdir.tif", "-pourpoints", src],
        "hyps": ["hyps", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-pourpoints", src, "-zresolution", "0.25"],
        "initvolumes": ["initvolumes", "-nodes", src, "-mm", "17.5"],
        "finalvolumes": ["finalvolumes", "-inputvolumes", src],
        "finallevels": ["finallevels", "-finalvols", src, "-hyps", src],
        "polys": ["polys", "-raster", "bspots.tif"],
    }[cmd]


LAYEROPT = {"pourpts": ["-layername"], "network": ["-out_nodes_layer", "-out_streams_layer"], "hyps": ["-out_hyps_layer"],
            "initvolumes": ["-out_layer"], "finalvolumes": ["-out_layer"], "finallevels": ["-out_layer"],
            "polys": ["-layername"]}
DEFAULT = {"pourpts": ["pourpoints"], "network": ["nodes", "streams"], "hyps": ["hyps"], "initvolumes": ["initvolumes"],
           "finalvolumes": ["finalvolumes"], "finallevels": ["finallevels"], "polys": ["polygonized"]}
NOGEOM = {"hyps", "finallevels"}
TYPES = {"pourpoints": "Point", "nodes": "Point", "streams": "LineString", "initvolumes": "Point",
         "finalvolumes": "Point", "polygonized": "Polygon"}
DEFAULT_FORMAT = {"pourpts": "ESRI Shapefile", "network": "ESRI Shapefile", "hyps": "CSV",
                  "initvolumes": "ESRI Shapefile", "finalvolumes": "ESRI Shapefile", "finallevels": "GeoJSON",
                  "polys": "ESRI Shapefile"}


def reference_chain(case):
    chain.dem_to_file(case["dem"], case["g"])
    chain.surface()
    chain.bluespots()
    for cmd in VEC:
        rio.cli_ok(*(args_of(cmd, "ref.gpkg") + ["-out", "ref.gpkg", "-format", "gpkg"]))


def driver_of(path):
    ds = ogr.Open(path, 0)
    return ds.GetDriver().GetName()


def same_rows(ref, got, fmt, what, geom):
    require(len(ref) == len(got), "%s: %d features in %s, %d in the GeoPackage", what, len(got), fmt, len(ref))
    short = fmt.lower() == "esri shapefile"
    for a, b in zip(ref, got):
        for k, v in a["props"].items():
            key = k[:10] if short else k
            if key not in b["props"]:
                # columns without any value are dropped by some formats; long names get numbers in shapefiles
                if short and any(q.startswith(k[:8]) for q in b["props"]):
                    continue
                require(v is None, "%s: attribute %s is lost in %s", what, k, fmt)
                continue
            g = b["props"][key]
            if v is None or v == "":
                require(g is None or g == "" or g == 0, "%s: attribute %s was missing and is %r", what, k, g)
            elif isinstance(v, (int, float)):
                require(g is not None and close(float(g), float(v), 1e-9, 1e-9), "%s: %s was %r and is %r in %s", what, k,
                        v, g, fmt)
            else:
                require(str(g) == (str(v)[:254] if short else str(v)), "%s: %s was %r and is %r in %s", what, k, v, g, fmt)
        if geom:
            require(same_geom(a["geom"], b["geom"]), "%s: geometry differs in %s", what, fmt)


def run_c26(case, rec):
    reference_chain(case)
    cmd = case["cmd"]
    opt = case["opt"]
    nogeom = cmd in NOGEOM
    if opt.startswith("csv") and cmd == "polys":
        opt = "json-nonames"  # a single column shows no separator
    if opt.startswith("shp") and nogeom:
        opt = "csv-sep" if opt == "shp" else "fid"
    fmt, ext, dsco, lco = option_set(opt)
    layers = case["names"][:len(LAYEROPT[cmd])] if case["rename"] else list(DEFAULT[cmd])
    single = ext in ("csv", "geojson", "shp")
    if cmd == "network" and single:
        if ext != "shp":
            fmt, ext, dsco, lco = option_set("fid")
            opt, single = "fid", False
        else:
            # a directory of shapefiles is one datasource with several layers
            os.mkdir("outdir")
    out = "out." + ext if not (cmd == "network" and ext == "shp") else "outdir"
    if single and out != "outdir":
        # the layer of a single-table file takes the name of the file
        out = layers[0] + "." + ext
    a = args_of(cmd, "ref.gpkg") + ["-out", out, "-format", fmt]
    if case["rename"]:
        for o, n in zip(LAYEROPT[cmd], layers):
            a += [o, n]
    for o in dsco:
        a += ["-dsco", o]
    for o in lco:
        a += ["-lco", o]
    rio.cli_ok(*a)
    for base, layer in zip(DEFAULT[cmd], layers):
        path, name = (out, layer) if not (single and out != "outdir") else (out, None)
        if out == "outdir":
            path, name = os.path.join(out, layer + ".shp"), None
        require(driver_of(path).lower() == {"gpkg": "gpkg", "csv": "csv", "geojson": "geojson",
                                            "shp": "esri shapefile"}[ext], "%s: written as %s instead of %s", cmd,
                driver_of(path), fmt)
        check_options(opt, path, layer, base not in ("hyps", "finallevels"))
        if ext == "csv":
            import csv
            sep = {"csv": ",", "csv-sep": ";", "csv-sep+bom": "\t"}[opt]
            with open(path, encoding="utf-8-sig", newline="") as f:
                got = [{"props": {k: (v if v != "" else None) for k, v in r.items()}, "geom": None}
                       for r in csv.DictReader(f, delimiter=sep)]
        else:
            got, crs, gt = rio.read_layer(path, name)
            if base in TYPES and (got or ext in ("gpkg", "shp")):
                require(TYPES[base] in gt.replace(" ", ""), "layer %s is of type %s", layer, gt)
                require(rio.same_crs(crs, rio.wkt(case["g"]["epsg"])), "layer %s has another coordinate system", layer)
        ref = rio.read_layer("ref.gpkg", base)[0]
        if base == "polygonized":
            require(len(ref) == len(got), "%d polygons instead of %d", len(got), len(ref))
            continue
        same_rows(ref, got, fmt, cmd, base in TYPES and ext != "csv")
        if ref:
            rec.nontrivial("cmd-" + cmd, "opt-" + opt)


def run_c26_default(case, rec):
    """Without -format: the documented default driver."""
    reference_chain(case)
    cmd = case["cmd"]
    fmt = DEFAULT_FORMAT[cmd]
    ext = {"ESRI Shapefile": "shp", "CSV": "csv", "GeoJSON": "geojson"}[fmt]
    if cmd == "network":
        os.mkdir("outdir")
        out = "outdir"
        paths = ["outdir/nodes.shp", "outdir/streams.shp"]
    else:
        out = DEFAULT[cmd][0] + "." + ext
        paths = [out]
    rio.cli_ok(*(args_of(cmd, "ref.gpkg") + ["-out", out]))
    for base, p in zip(DEFAULT[cmd], paths):
        require(os.path.exists(p), "%s writes no %s", cmd, p)
        require(driver_of(p) == fmt, "%s: default format is %s instead of %s", cmd, driver_of(p), fmt)
        n = len(rio.read_layer(p, None)[0])
        m = len(rio.read_layer("ref.gpkg", base)[0])
        require(n == m, "%s: %d features by default, %d in a GeoPackage", cmd, n, m)
    rec.nontrivial("default-" + cmd)


SMALL = st.one_of(dem_raw(8, 8, 4, 4), dem_flatpits(9, 9), dem_proc(16, 16, 5, 5))

PROPS = [
    {"id": "C16", "aspects": [
        Aspect("arrays", st.fixed_dictionaries({
            "a": arrays(), "g": G, "rot": st.sampled_from([False, False, True]), "twice": bools,
            "nodata": st.sampled_from([None, 0.0, -999.0, -9999.0, math.nan, 255.0])}), run_c16, 4000, 50000),
        Aspect("nodata", st.integers(1, 12).flatmap(lambda r: st.integers(1, 12).flatmap(lambda c: st.fixed_dictionaries({
            "r": st.just(r), "c": st.just(c), "b": st.binary(min_size=r * c, max_size=r * c).map(bytes.hex),
            "d": st.sampled_from(["float32", "float32", "float64", "int16", "int32", "uint8", "uint16", "uint32"]),
            "nodata": st.sampled_from(["big", "nan", "zero", "plain", "large"]),
            "sub": st.sampled_from([-999, -999, 0, 0, None, -9999, 12.5, 300])}))), run_c16_nodata, 4000, 50000),
    ]},
    {"id": "C17", "aspects": [
        Aspect("layers", st.fixed_dictionaries({
            "l": layers(), "fmt": st.sampled_from(["gpkg", "gpkg", "GPKG", "geojson", "ESRI Shapefile", "CSV"]),
            "collection": bools, "other": bools, "epsg": st.sampled_from(EPSG)}), run_c17, 2000, 30000),
        Aspect("long", st.fixed_dictionaries({
            "l": long_layers(), "fmt": st.sampled_from(["gpkg", "gpkg", "geojson", "ESRI Shapefile", "CSV"]),
            "collection": bools, "other": bools, "epsg": st.sampled_from(EPSG)}), run_c17_long, 48, 800),
        Aspect("endless", st.fixed_dictionaries({
            "l": endless_layers(), "fmt": st.sampled_from(["gpkg", "gpkg", "gpkg", "geojson", "ESRI Shapefile"]),
            "collection": bools, "other": bools, "epsg": st.sampled_from(EPSG)}), run_c17_long, 8, 160),
        Aspect("several", st.fixed_dictionaries({
            "names": st.lists(st.sampled_from(["a", "nodes", "pourpoints", "x1", "Z"]), min_size=1, max_size=4, unique=True),
            "sizes": st.lists(st.integers(0, 5), min_size=4, max_size=4)}), run_c17_layers, 200, 2000),
    ]},
    {"id": "C19", "aspects": [
        Aspect("polys", st.fixed_dictionaries({
            "lab": labelings(12), "r": st.integers(1, 26), "c": st.integers(1, 26), "g": G, "noise": st.integers(0, 99),
            "ldtype": st.sampled_from(["int32", "int32", "uint8", "int16", "uint16"]),
            "fmt": st.sampled_from([["gpkg", "p.gpkg", "shapes"], ["gpkg", "p.gpkg", "shapes"],
                                    ["geojson", "p.geojson", None], ["ESRI Shapefile", "p.shp", None]])}),
               run_c19_cli, 1600, 24000),
        Aspect("ids", st.fixed_dictionaries({
            "lab": labelings(16), "r": st.integers(4, 30), "c": st.integers(4, 30), "g": G, "seed": st.integers(0, 2**24),
            "many": st.sampled_from([False, False, False, True]), "first": st.sampled_from([0, 60000, 2**24 - 9, 2**31 - 500]),
            "fmt": st.sampled_from([["gpkg", "p.gpkg", "shapes"], ["geojson", "p.geojson", None], ["ESRI Shapefile", "p.shp", None]])}),
               run_c19_ids, 120, 2000),
        Aspect("complete", st.fixed_dictionaries({
            "dem": SMALL, "g": G, "mm": st.sampled_from([1.0, 20.0, 300.0, 2000.0]),
            "filter": st.sampled_from([None, None, "area > 1.5", "maxdepth > 0.2"])}), run_c19_chain, 240, 3000),
        Aspect("api", st.fixed_dictionaries({
            "lab": labelings(9), "r": st.integers(1, 20), "c": st.integers(1, 20), "g": G,
            "attr": st.sampled_from(["bspot_id", "id"]), "above": st.sampled_from([0, 0, 250, 32700, 65530, 2**24, 2**31 - 1000]),
            "cells": st.lists(st.tuples(st.integers(-3, 500), st.integers(-3, 500)).map(list), max_size=4)}),
               run_c19_api, 800, 12000),
    ]},
    {"id": "C26", "aspects": [
        Aspect("options", st.fixed_dictionaries({
            "dem": SMALL, "g": G, "cmd": st.sampled_from(VEC), "opt": st.sampled_from(OPTS), "rename": bools,
            "names": st.permutations(["alpha", "layer_2", "Result"])}), run_c26, 400, 6000),
        Aspect("defaults", st.fixed_dictionaries({"dem": SMALL, "g": G, "cmd": st.sampled_from(VEC)}),
               run_c26_default, 80, 600),
    ]},
]
