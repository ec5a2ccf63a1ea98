"""Decodes the template of core::fmt::Arguments::new."""


def decode(bs):
    """List of pieces: str for literal text, int for the index of an argument."""
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i + 1:i + 1 + b]).decode("utf-8"))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | bs[i + 2] << 8
            out.append(bytes(bs[i + 3:i + 3 + n]).decode("utf-8"))
            i += 3 + n
        elif b >= 0xC0:
            i += 1
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(nxt)
            nxt += 1
        else:
            raise ValueError("unknown format template byte %#x" % b)
    return out
