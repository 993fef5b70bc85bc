"""netCDF model: write a file from a plain description and read one back as raw
bits (no masking, scaling or fill interpretation)."""
import netCDF4, numpy as np

TYPES = {'byte': 'i1', 'char': 'S1', 'short': 'i2', 'int': 'i4', 'float': 'f4', 'double': 'f8'}
FILL = {'byte': -127, 'short': -32767, 'int': -2147483647, 'float': np.float32(9.9692099683868690e+36),
        'double': 9.9692099683868690e+36, 'char': b'\0'}


def tname(dt):
    dt = np.dtype(dt)
    return {'i1': 'byte', 'S1': 'char', 'i2': 'short', 'i4': 'int', 'f4': 'float', 'f8': 'double',
            'u1': 'ubyte', 'u2': 'ushort', 'u4': 'uint', 'i8': 'int64', 'u8': 'uint64'}[dt.str[1:]]


class V:
    __slots__ = ('type', 'dims', 'atts', 'data')

    def __init__(self, type, dims, atts=None, data=None):
        self.type, self.dims, self.atts, self.data = type, tuple(dims), dict(atts or {}), data


class F:
    """dims: {name: len} ordered; rec: name of the record dim or None"""

    def __init__(self, fmt='NETCDF3_64BIT_OFFSET'):
        self.fmt = fmt
        self.dims = {}
        self.rec = None
        self.vars = {}
        self.atts = {}


def write(path, f):
    with netCDF4.Dataset(path, 'w', format=f.fmt) as ds:
        ds.set_fill_off()
        for d, n in f.dims.items():
            ds.createDimension(d, None if d == f.rec else n)
        for k, v in f.atts.items():
            ds.setncattr(k, v)
        hs = {}
        for n, v in f.vars.items():
            h = ds.createVariable(n, TYPES[v.type], v.dims, **({} if '_FillValue' not in v.atts else {'fill_value': v.atts['_FillValue']}))
            h.set_auto_maskandscale(False)
            for k, a in v.atts.items():
                if k != '_FillValue':
                    h.setncattr(k, a)
            hs[n] = h
        for n, v in f.vars.items():
            if v.data is None:
                continue
            if v.dims:
                if np.size(v.data):
                    hs[n][...] = v.data
            else:
                hs[n][...] = v.data


def read(path):
    f = F()
    with netCDF4.Dataset(path, 'r') as ds:
        f.fmt = ds.data_model
        for n, d in ds.dimensions.items():
            f.dims[n] = len(d)
            if d.isunlimited():
                f.rec = n
        for k in ds.ncattrs():
            f.atts[k] = ds.getncattr(k)
        for n, h in ds.variables.items():
            h.set_auto_maskandscale(False)
            h.set_auto_chartostring(False)
            v = V(tname(h.dtype), h.dimensions)
            for k in h.ncattrs():
                v.atts[k] = h.getncattr(k)
            v.data = np.asarray(h[...])
            f.vars[n] = v
    return f


def atteq(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a.rstrip('\0') == b.rstrip('\0')
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.size == b.size and a.tobytes() == b.tobytes()


def biteq(a, b):
    a, b = np.ascontiguousarray(a), np.ascontiguousarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == 'S' or b.dtype.kind == 'S':
        return np.array_equal(a.astype('S1').view('u1') if a.size else a, b.astype('S1').view('u1') if b.size else b)
    if a.dtype.str[1:] != b.dtype.str[1:]:
        return False
    return a.astype(a.dtype.newbyteorder('=')).tobytes() == b.astype(b.dtype.newbyteorder('=')).tobytes()


def diffwhere(a, b, n=5):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape %s vs %s' % (a.shape, b.shape)
    w = np.argwhere(~((a == b) | ((a != a) & (b != b)) if a.dtype.kind == 'f' else (a == b)))
    return '%d of %d differ, e.g. %s' % (len(w), a.size, [(tuple(int(x) for x in i), a[tuple(i)], b[tuple(i)]) for i in w[:n]])


def randdata(nprng, typ, shape):
    if typ == 'byte':
        return nprng.integers(-128, 128, shape).astype('i1')
    if typ == 'char':
        return nprng.integers(32, 127, shape).astype('u1').view('S1').reshape(shape)
    if typ == 'short':
        return nprng.integers(-32768, 32768, shape).astype('i2')
    if typ == 'int':
        return nprng.integers(-2**31, 2**31, shape).astype('i4')
    d = nprng.standard_normal(shape) * 10.0 ** nprng.integers(-3, 4, shape)
    return d.astype('f4' if typ == 'float' else 'f8')
