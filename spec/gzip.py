"""The gzip member header (RFC 1952, Section 2.3)."""


def header(data):
    """('bad', None), ('more', None) or ('ok', offset of the compressed data)"""
    n = len(data)
    if n < 10:
        return "more", None
    if data[0] != 0x1F or data[1] != 0x8B or data[2] != 8:
        return "bad", None
    flags, off = data[3], 10
    if flags & 4:
        if n < off + 2:
            return "more", None
        off = off + 2 + data[off] + 256 * data[off + 1]
        if n < off:
            return "more", None
    for bit in (8, 16):
        if flags & bit:
            z = data.find(b"\0", off)
            if z < 0:
                return "more", None
            off = z + 1
    if flags & 2:
        off = off + 2
        if n < off:
            return "more", None
    return "ok", off
