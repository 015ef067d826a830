"""The documented chain of commands, run in the current directory, and views of what it wrote."""
import numpy as np

from . import rio
from .core import require


def dem_to_file(case, gref, path="dem.tif", dtype="float32", nodata=None, holes=()):
    """Writes the terrain of a case; holes are [row, col] cells set to nodata."""
    from .gen import decode_dem, transform_of
    z = decode_dem(case, "float64")
    if np.dtype(dtype).kind in "iu":
        z = np.round(z)
        if np.dtype(dtype).kind == "u":
            z = np.abs(z)
    z = z.astype(dtype)
    for y, x in holes:
        z[y % z.shape[0], x % z.shape[1]] = nodata
    rio.write_tif(path, z, transform_of(gref), gref["epsg"], nodata)
    return z


def surface(dem="dem.tif", accum=True):
    rio.cli_ok("filled", "-dem", dem, "-out", "filled.tif")
    rio.cli_ok("depths", "-dem", dem, "-filled", "filled.tif", "-out", "depths.tif")
    rio.cli_ok("flowdir", "-dem", dem, "-out", "flowdir.tif")
    if accum:
        rio.cli_ok("accum", "-flowdir", "flowdir.tif", "-out", "accum.tif")


def bluespots(flt=None):
    a = ["bspots", "-depths", "depths.tif", "-out", "bspots.tif"]
    if flt is not None:
        a += ["-filter", flt]
    rio.cli_ok(*a)
    rio.cli_ok("wsheds", "-bluespots", "bspots.tif", "-flowdir", "flowdir.tif", "-out", "wsheds.tif")


def pourpoints(by="accum", out="r.gpkg", dem="dem.tif"):
    a = ["pourpts", "-bluespots", "bspots.tif", "-depths", "depths.tif", "-watersheds", "wsheds.tif", "-out", out,
         "-layername", "pourpoints", "-format", "gpkg"]
    a += ["-accum", "accum.tif"] if by == "accum" else ["-dem", dem]
    rio.cli_ok(*a)


def network(out="r.gpkg"):
    rio.cli_ok("network", "-bluespots", "bspots.tif", "-flowdir", "flowdir.tif", "-pourpoints", out,
               "-pourpoints_layer", "pourpoints", "-out", out, "-format", "gpkg")


def hypsometry(zres, out="r.gpkg", dem="dem.tif"):
    rio.cli_ok("hyps", "-bluespots", "bspots.tif", "-dem", dem, "-pourpoints", out, "-zresolution", repr(zres),
               "-out", out, "-format", "gpkg")


def initvolumes(mm, out="r.gpkg", layer="initvolumes"):
    rio.cli_ok("initvolumes", "-nodes", out, "-mm", repr(mm), "-out", out, "-out_layer", layer, "-format", "gpkg")


def finalvolumes(out="r.gpkg", src="initvolumes", layer="finalvolumes"):
    rio.cli_ok("finalvolumes", "-inputvolumes", out, "-inputvolumes_layer", src, "-out", out, "-out_layer", layer,
               "-format", "gpkg")


def finallevels(out="r.gpkg", src="finalvolumes", layer="finallevels"):
    rio.cli_ok("finallevels", "-finalvols", out, "-finalvols_layer", src, "-hyps", out, "-out", out, "-out_layer",
               layer, "-format", "gpkg")


def finalbluespots(out="r.gpkg", src="finallevels", depths="finaldepths.tif", labels="finalbspots.tif",
                   dem="dem.tif"):
    rio.cli_ok("finalbluespots", "-bluespots", "bspots.tif", "-dem", dem, "-finallevels", out, "-finallevels_layer",
               src, "-out_depths", depths, "-out_bluespots", labels)


def props(path, layer=None):
    return [f["props"] for f in rio.read_layer(path, layer)[0]]


def by_id(path, layer, key="bspot_id"):
    """{id: feature}; ids have to be unique."""
    feats = rio.read_layer(path, layer)[0]
    out = {}
    for f in feats:
        k = f["props"].get(key)
        require(k not in out, "%s: %s %r occurs twice", layer, key, k)
        out[k] = f
    return out


def close(a, b, rtol=1e-7, atol=1e-9):
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def centre(transform, row, col):
    x = transform[0] + (col + 0.5) * transform[1] + (row + 0.5) * transform[2]
    y = transform[3] + (col + 0.5) * transform[4] + (row + 0.5) * transform[5]
    return x, y
