"""Independent zstd access (ctypes on the system libzstd): not the crate the code under test links."""
import ctypes, ctypes.util, struct

_lib = None
for _n in ("libzstd.so.1", ctypes.util.find_library("zstd") or "libzstd.so"):
    try:
        _lib = ctypes.CDLL(_n)
        break
    except OSError:
        pass
if _lib is None:
    raise ImportError("libzstd not found")
_sz = ctypes.c_size_t
_lib.ZSTD_compressBound.restype = _sz
_lib.ZSTD_compressBound.argtypes = [_sz]
_lib.ZSTD_compress.restype = _sz
_lib.ZSTD_compress.argtypes = [ctypes.c_char_p, _sz, ctypes.c_char_p, _sz, ctypes.c_int]
_lib.ZSTD_isError.argtypes = [_sz]
_lib.ZSTD_isError.restype = ctypes.c_uint
_lib.ZSTD_createDStream.restype = ctypes.c_void_p
_lib.ZSTD_freeDStream.argtypes = [ctypes.c_void_p]


class _Buf(ctypes.Structure):
    _fields_ = [("p", ctypes.c_void_p), ("size", _sz), ("pos", _sz)]


_lib.ZSTD_decompressStream.argtypes = [ctypes.c_void_p, ctypes.POINTER(_Buf), ctypes.POINTER(_Buf)]
_lib.ZSTD_decompressStream.restype = _sz


def compress(data, level=3):
    n = _lib.ZSTD_compressBound(len(data))
    out = ctypes.create_string_buffer(n)
    r = _lib.ZSTD_compress(out, n, data, len(data), level)
    if _lib.ZSTD_isError(r):
        raise ValueError("zstd compress")
    return out.raw[:r]


def skippable(n):
    """A skippable frame of exactly n (>= 8) bytes: legal zstd padding."""
    assert n >= 8
    return struct.pack("<II", 0x184D2A50, n - 8) + b"\0" * (n - 8)


def pad_to(frame, size):
    if size < len(frame) + 8:
        raise ValueError("cannot pad %d to %d" % (len(frame), size))
    return frame + skippable(size - len(frame))


def decompress(data):
    """Whole input, complete frames only; raises ValueError otherwise."""
    if not data:
        raise ValueError("empty")
    ds = _lib.ZSTD_createDStream()
    try:
        src = ctypes.create_string_buffer(data, len(data))
        inb = _Buf(ctypes.cast(src, ctypes.c_void_p), len(data), 0)
        chunk = 1 << 17
        dst = ctypes.create_string_buffer(chunk)
        out = []
        last = 1
        while True:
            outb = _Buf(ctypes.cast(dst, ctypes.c_void_p), chunk, 0)
            last = _lib.ZSTD_decompressStream(ds, ctypes.byref(outb), ctypes.byref(inb))
            if _lib.ZSTD_isError(last):
                raise ValueError("zstd data")
            if outb.pos:
                out.append(dst.raw[: outb.pos])
            if inb.pos == inb.size and (outb.pos < chunk or last == 0):
                break
        if last != 0:
            raise ValueError("incomplete frame")
        return b"".join(out)
    finally:
        _lib.ZSTD_freeDStream(ds)
