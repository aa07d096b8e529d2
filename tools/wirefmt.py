"""Just enough of the wire format to build inputs, well-formed or not. Never used as an oracle."""


def varint(n):
    out = []
    while n >= 128:
        out.append(n & 127 | 128)
        n >>= 7
    return out + [n]


def sized(b):
    return varint(len(b)) + list(b)


def tag(num, wt):
    return varint(num << 3 | wt)


UPDATE, PUSH, POP, REMOVE = 0, 8, 9, 12


def path_bytes(path):
    return [x for p in path for x in varint(p)]


def entry(kind, path, payload=None, key=None, extra=()):
    body = varint(kind)
    if path:
        body += tag(0, 2) + sized(path_bytes(path))
    if payload:
        body += tag(1, 2) + sized(payload)
    if key:
        body += tag(1, 0) + varint(key)
    return sized(body + list(extra))


def read_varint(b, pos):
    n = shift = 0
    while True:
        x = b[pos]
        pos += 1
        n |= (x & 127) << shift
        shift += 7
        if x < 128:
            return n, pos


def boundaries(log):
    """The positions between entries of a well-formed log."""
    out, pos = [0], 0
    try:
        while pos < len(log):
            n, start = read_varint(log, pos)
            pos = start + n
            out.append(pos)
    except IndexError:
        return [0, len(log)]
    return out if pos == len(log) else [0, len(log)]


def entries(log):
    bs = boundaries(log)
    return [log[a:b] for a, b in zip(bs, bs[1:])]
