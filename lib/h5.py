"""Minimal HDF5 reading and writing through libhdf5 (ctypes); no h5py in the sandbox."""
import array, ctypes as C, ctypes.util, os

_lib = None
_names = ["/usr/lib/x86_64-linux-gnu/libhdf5_serial.so", "libhdf5_serial.so.103", "libhdf5_serial.so"]


def lib():
    global _lib
    if _lib is None:
        for n in _names:
            try:
                _lib = C.CDLL(n)
                break
            except OSError:
                continue
        else:
            raise OSError("no libhdf5")
        hid = C.c_int64
        for f in ("H5Fopen", "H5Fcreate", "H5Dopen2", "H5Dcreate2", "H5Dget_space", "H5Screate_simple", "H5Dget_type",
                  "H5Aopen", "H5Aopen_by_idx", "H5Aget_space", "H5Aget_type", "H5Tcopy", "H5Screate", "H5Acreate2"):
            getattr(_lib, f).restype = hid
        for f in ("H5Sget_simple_extent_npoints", "H5Aget_name", "H5Lget_name_by_idx"):
            getattr(_lib, f).restype = C.c_ssize_t
        _lib.H5Tget_size.restype = C.c_size_t
        _lib.H5open()
        # silence the error stack
        _lib.H5Eset_auto2(hid(0), None, None)
    return _lib


def _g(name):
    return C.c_int64.in_dll(lib(), name)


import threading
_lk = threading.RLock()


def read(path):
    """{'data': {name: (dims, [values])}, 'attr': {name: (dims, values) or str}}"""
    with _lk:
        L = lib()
        f = L.H5Fopen(path.encode(), C.c_uint(0), C.c_int64(0))
        if f < 0:
            raise OSError("cannot open " + path)
        f = C.c_int64(f)
        out = dict(data={}, attr={})
        n = 0
        while True:                       # links of the root group
            buf = C.create_string_buffer(256)
            r = L.H5Lget_name_by_idx(f, b".", 0, 0, C.c_uint64(n), buf, C.c_size_t(256), C.c_int64(0))
            if r < 0:
                break
            n += 1
            d = L.H5Dopen2(f, buf, C.c_int64(0))
            if d < 0:
                continue
            d = C.c_int64(d)
            sp = C.c_int64(L.H5Dget_space(d))
            dims = _dims(sp)
            npt = 1
            for x in dims:
                npt *= x
            t = C.c_int64(L.H5Dget_type(d))
            if L.H5Tget_class(t) == 3:    # a string stored as a data set
                b = C.create_string_buffer(L.H5Tget_size(t) * max(1, npt) + 1)
                L.H5Dread(d, t, C.c_int64(0), C.c_int64(0), C.c_int64(0), b)
                out["attr"][buf.value.decode()] = b.value.decode(errors="replace")
                L.H5Tclose(t)
                L.H5Sclose(sp)
                L.H5Dclose(d)
                continue
            L.H5Tclose(t)
            a = (C.c_double * npt)()
            if L.H5Dread(d, _g("H5T_NATIVE_DOUBLE_g"), C.c_int64(0), C.c_int64(0), C.c_int64(0), a) < 0:
                raise OSError("cannot read %s of %s" % (buf.value, path))
            out["data"][buf.value.decode()] = (dims, list(a))
            L.H5Sclose(sp)
            L.H5Dclose(d)
        n = 0
        while True:
            a = L.H5Aopen_by_idx(f, b".", 0, 0, C.c_uint64(n), C.c_int64(0), C.c_int64(0))
            if a < 0:
                break
            n += 1
            a = C.c_int64(a)
            nm = C.create_string_buffer(256)
            L.H5Aget_name(a, C.c_size_t(256), nm)
            t = C.c_int64(L.H5Aget_type(a))
            sp = C.c_int64(L.H5Aget_space(a))
            if L.H5Tget_class(t) == 3:    # string
                b = C.create_string_buffer(L.H5Tget_size(t) + 1)
                L.H5Aread(a, t, b)
                out["attr"][nm.value.decode()] = b.value.decode(errors="replace")
            else:
                dims = _dims(sp)
                npt = 1
                for x in dims:
                    npt *= x
                b = (C.c_double * npt)()
                L.H5Aread(a, _g("H5T_NATIVE_DOUBLE_g"), b)
                out["attr"][nm.value.decode()] = (dims, list(b))
            L.H5Sclose(sp)
            L.H5Tclose(t)
            L.H5Aclose(a)
        L.H5Fclose(f)
        return out


def _dims(sp):
    L = lib()
    nd = L.H5Sget_simple_extent_ndims(sp)
    if nd <= 0:
        return []
    a = (C.c_uint64 * nd)()
    L.H5Sget_simple_extent_dims(sp, a, None)
    return [int(x) for x in a]


def write(path, data, attrs=None):
    """data {name: (dims, values)}, attrs {name: (dims, values) or str}"""
    with _lk:
        L = lib()
        f = C.c_int64(L.H5Fcreate(path.encode(), C.c_uint(2), C.c_int64(0), C.c_int64(0)))
        for name, (dims, vals) in data.items():
            s = C.c_int64(L.H5Screate_simple(len(dims), (C.c_uint64 * len(dims))(*dims), None))
            d = C.c_int64(L.H5Dcreate2(f, name.encode(), _g("H5T_NATIVE_DOUBLE_g"), s, C.c_int64(0), C.c_int64(0), C.c_int64(0)))
            L.H5Dwrite(d, _g("H5T_NATIVE_DOUBLE_g"), C.c_int64(0), C.c_int64(0), C.c_int64(0), (C.c_double * len(vals))(*vals))
            L.H5Dclose(d)
            L.H5Sclose(s)
        for name, v in (attrs or {}).items():
            if isinstance(v, str):
                t = C.c_int64(L.H5Tcopy(_g("H5T_C_S1_g")))
                L.H5Tset_size(t, C.c_size_t(len(v) + 1))
                s = C.c_int64(L.H5Screate(0))
                a = C.c_int64(L.H5Acreate2(f, name.encode(), t, s, C.c_int64(0), C.c_int64(0)))
                L.H5Awrite(a, t, C.create_string_buffer(v.encode()))
            else:
                dims, vals = v
                s = C.c_int64(L.H5Screate_simple(len(dims), (C.c_uint64 * len(dims))(*dims), None))
                a = C.c_int64(L.H5Acreate2(f, name.encode(), _g("H5T_NATIVE_DOUBLE_g"), s, C.c_int64(0), C.c_int64(0)))
                L.H5Awrite(a, _g("H5T_NATIVE_DOUBLE_g"), (C.c_double * len(vals))(*vals))
            L.H5Aclose(a)
            L.H5Sclose(s)
        L.H5Fclose(f)
