"""Raster/vector files made and read by the harness with plain GDAL/OGR, not with malstroem.io."""
import json
import os

import numpy as np
from osgeo import gdal, ogr, osr

from .core import require, fail, sut, Violation

GT = {"float32": gdal.GDT_Float32, "float64": gdal.GDT_Float64, "int32": gdal.GDT_Int32, "int16": gdal.GDT_Int16,
      "uint8": gdal.GDT_Byte, "uint16": gdal.GDT_UInt16, "uint32": gdal.GDT_UInt32}
_WKT = {}


def wkt(epsg=25832):
    if epsg is None:
        return ""
    if epsg not in _WKT:
        s = osr.SpatialReference()
        s.ImportFromEPSG(epsg)
        _WKT[epsg] = s.ExportToWkt()
    return _WKT[epsg]


def same_crs(a, b):
    """Coordinate system a found in a file, b expected there ("" unknown: what the format says instead is all right)."""
    if not b:
        return not a or "Undefined" in a or "WGS 84" in a[:20]
    if not a:
        return False
    sa, sb = osr.SpatialReference(), osr.SpatialReference()
    sa.ImportFromWkt(a)
    sb.ImportFromWkt(b)
    return bool(sa.IsSame(sb, ["IGNORE_DATA_AXIS_TO_SRS_AXIS_MAPPING=YES"]))


DEFAULT_T = (500000.0, 1.0, 0.0, 6200000.0, 0.0, -1.0)


def write_tif(path, a, transform=DEFAULT_T, epsg=25832, nodata=None):
    a = np.asarray(a)
    ds = gdal.GetDriverByName("GTiff").Create(path, a.shape[1], a.shape[0], 1, GT[str(a.dtype)])
    if transform is not None:
        ds.SetGeoTransform(transform)
    if epsg:
        ds.SetProjection(wkt(epsg))
    b = ds.GetRasterBand(1)
    if nodata is not None:
        b.SetNoDataValue(nodata)
    b.WriteArray(a)
    ds.FlushCache()
    del b, ds
    return path


class R:
    """A raster read back."""

    def __init__(self, path):
        require(os.path.isfile(path), "no output raster %s was written", os.path.basename(path))
        try:
            ds = gdal.Open(path)
            b = ds.GetRasterBand(1)
            self.a = b.ReadAsArray()
        except RuntimeError as e:
            raise Violation("output raster %s is not readable: %s" % (os.path.basename(path), e))
        self.transform = ds.GetGeoTransform()
        self.crs = ds.GetProjection()
        self.nodata = b.GetNoDataValue()
        self.dtype = self.a.dtype
        self.shape = self.a.shape
        del b, ds


def read_layer(path, layer=None):
    """-> (features as dicts {fid, geom(json dict or None), props}, layer crs wkt, geometry type name)"""
    require(os.path.exists(path), "no output datasource %s was written", os.path.basename(path))
    try:
        ds = ogr.Open(path, 0)
    except RuntimeError as e:
        raise Violation("output datasource %s cannot be opened: %s" % (os.path.basename(path), e))
    lyr = ds.GetLayerByName(layer) if layer else ds.GetLayer(0)
    require(lyr is not None, "layer %s missing in %s", layer, os.path.basename(path))
    out = []
    for f in lyr:
        g = f.GetGeometryRef()
        out.append({"fid": f.GetFID(), "geom": json.loads(g.ExportToJson()) if g is not None else None,
                    "props": {f.GetFieldDefnRef(i).GetName(): f.GetField(i) for i in range(f.GetFieldCount())}})
    srs = lyr.GetSpatialRef()
    crs = srs.ExportToWkt() if srs else None
    gt = ogr.GeometryTypeToName(lyr.GetGeomType())
    del lyr, ds
    return out, crs, gt


def copy_layer(src, layer, dst):
    """One layer into a file of its own (format by extension)."""
    fmt = {"gpkg": "GPKG", "geojson": "GeoJSON", "csv": "CSV"}[dst.rsplit(".", 1)[1]]
    ds = gdal.VectorTranslate(dst, src, format=fmt, layers=[layer])
    del ds


def layer_names(path):
    ds = ogr.Open(path, 0)
    n = [ds.GetLayer(i).GetName() for i in range(ds.GetLayerCount())]
    del ds
    return n


def write_points(path, layer, feats, fields, driver="GPKG", epsg=25832, geom=ogr.wkbPoint, decoy=True):
    """feats: list of (x, y, props). fields: {name: OFT}."""
    drv = ogr.GetDriverByName(driver)
    if decoy and driver == "GPKG" and not os.path.exists(path):
        # the first layer of the file is not the one to read: same rows, other numbers
        write_points(path, "aaa_other", [(x + 1, y + 1, {k: v * 3 + 7.25 if isinstance(v, float) else v for k, v in p.items()})
                                         for x, y, p in feats], fields, driver, epsg, geom, False)
    ds = ogr.Open(path, 1) if os.path.exists(path) else drv.CreateDataSource(path)
    srs = osr.SpatialReference()
    srs.ImportFromEPSG(epsg)
    lyr = ds.CreateLayer(layer, srs, geom)
    for n, t in fields.items():
        lyr.CreateField(ogr.FieldDefn(n, t))
    lyr.StartTransaction()
    for x, y, props in feats:
        f = ogr.Feature(lyr.GetLayerDefn())
        for k, v in props.items():
            if v is None:
                f.SetFieldNull(k)
            else:
                f.SetField(k, v)
        if geom == ogr.wkbPoint:
            g = ogr.Geometry(ogr.wkbPoint)
            g.AddPoint_2D(x, y)
            f.SetGeometry(g)
        lyr.CreateFeature(f)
    lyr.CommitTransaction()
    del lyr, ds


_runner = None


def cli(*args):
    """Run one malstroem command line in this process -> (exit code, output, exception)."""
    global _runner
    from click.testing import CliRunner
    from malstroem.scripts.cli import cli as entry
    if _runner is None:
        _runner = CliRunner()
    wd = os.getcwd()
    fd = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        r = _runner.invoke(entry, [str(a) for a in args])
    finally:
        os.dup2(fd, 1)
        os.close(fd)
        os.close(null)
        os.chdir(wd)
    import logging
    logging.disable(logging.CRITICAL)
    return r.exit_code, r.output, r.exception


def cli_ok(*args):
    rc, out, exc = cli(*args)
    if rc != 0:
        if isinstance(exc, SystemExit):
            raise Violation("'malstroem %s' exits with %s: %s" % (" ".join(map(str, args)), rc, out.strip()[-200:]))
        import traceback
        tb = traceback.extract_tb(exc.__traceback__)
        where = " <- ".join("%s:%d" % (t.filename.split("/malstroem/")[-1], t.lineno) for t in reversed(tb[-3:]))
        raise Violation("'malstroem %s' raises %s: %s (%s)" % (" ".join(map(str, args)), type(exc).__name__,
                                                                str(exc)[:200], where))
    return out
