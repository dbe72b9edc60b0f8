"""Independent reader and writer of the bidiff patch format (magic, version, controls)."""
import struct

MAGIC, VERSION = 0xB1DF, 0x1000


def _uv(n):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def _zz(n):
    return _uv((n << 1) ^ (n >> 63) if n < 0 else n << 1)


def encode(controls):
    out = [struct.pack("<II", MAGIC, VERSION)]
    for add, copy, seek in controls:
        z = (seek << 1) if seek >= 0 else ((-seek << 1) - 1)
        out += [_uv(len(add)), add, _uv(len(copy)), copy, _uv(z)]
    return b"".join(out)


def longest(n, same):
    """largest k up to n for which same(k) holds (it holds for all smaller ones too)"""
    lo = 0
    while lo < n:
        k = (lo + n + 1) // 2
        if same(k):
            lo = k
        else:
            n = k - 1
    return lo


def diff(old, new):
    """A correct (not clever) patch: common start, changed middle, common end."""
    n = min(len(old), len(new))
    a = longest(n, lambda k: old[:k] == new[:k])
    b = longest(n - a, lambda k: old[len(old) - k :] == new[len(new) - k :])
    if a + b < 32:
        return encode([(bytes((y - x) & 0xFF for x, y in zip(old[:n], new[:n])), new[n:], 0)])
    return encode([(bytes(a), new[a : len(new) - b], len(old) - b - a), (bytes(b), b"", 0)])


class Bad(ValueError):
    pass


def apply(old, patch):
    """Strict: every declared byte present, seeks in range, nothing left over."""
    if len(patch) < 8:
        raise Bad("short header")
    m, v = struct.unpack_from("<II", patch)
    if m != MAGIC or v != VERSION:
        raise Bad("magic")
    i, pos, out = 8, 0, bytearray()

    def uv():
        nonlocal i
        n = s = 0
        while True:
            if i >= len(patch) or s > 63:
                raise Bad("varint")
            b = patch[i]
            i += 1
            n |= (b & 0x7F) << s
            s += 7
            if not b & 0x80:
                return n

    while i < len(patch):
        n = uv()
        if i + n > len(patch) or pos < 0 or pos + n > len(old):
            raise Bad("add")
        x = patch[i : i + n]
        out += old[pos : pos + n] if x.count(0) == n else bytes((a + b) & 0xFF for a, b in zip(old[pos : pos + n], x))
        i += n
        pos += n
        n = uv()
        if i + n > len(patch):
            raise Bad("copy")
        out += patch[i : i + n]
        i += n
        z = uv()
        pos += (z >> 1) if not z & 1 else -((z >> 1) + 1)
        if pos < 0:
            raise Bad("seek")
    return bytes(out)
