"""Arrays written by numpy, with their values, for c18.cpp.

  npygen.py gen OUT       all cases
  npygen.py read FILE     arrays written by the library: compare with the values stored beside them
"""
import io, itertools, struct, sys
import numpy as np
from numpy.lib import format as F

TYPES = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8"]


def special(t):
    k, n = t[0], int(t[1:])
    if k == "f":
        i = np.finfo("f%d" % n)
        return [0.0, -0.0, 1.0, -1.5, float("nan"), float("inf"), float("-inf"), i.max, i.min, i.tiny, float(i.smallest_subnormal), i.eps, 3.14159265358979]
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if k == "i" else (0, (1 << (8 * n)) - 1)
    return [0, 1, hi, lo, hi - 1, lo + 1, 10 % (hi + 1), 13, 26, 0x01020304050607 % (hi + 1), 77, hi // 2, hi // 3]


def shapes():
    e = [0, 1, 2, 3, 5]
    yield ()
    for a in e + [10, 257]:
        yield (a,)
    for s in itertools.product(e, e):
        yield s
    for s in itertools.product([0, 1, 2, 3], repeat=3):
        yield s
    for s in itertools.product([1, 2], repeat=4):
        yield s
    for s in [(12, 34), (100, 1), (1, 1000), (1234, 3), (7, 100), (0, 1234567), (1234567, 0)]:
        yield s
    # every number of dimensions numpy supports: header lengths of one and of two bytes, every padding
    for nd in range(5, 65):
        yield (2,) + (1,) * (nd - 2) + (3,)
        if nd % 8 == 0:
            yield (1, 0, 1000, 100) + (1,) * (nd - 4)


# blocks larger than any stream buffer, for the two types the programs use
LARGE = [(70000,), (300, 301), (3, 40000), (33333, 2)]


def gen(out):
    with open(out, "wb") as f:
        for ti, t in enumerate(TYPES):
            sp = special(t)
            for bo in ("<", ">"):
                if bo == ">" and t[1:] == "1":
                    continue
                for si, s in enumerate(list(shapes()) + (LARGE if t in ("i4", "f8") else [])):
                    n = int(np.prod(s, dtype=int))
                    vals = [sp[(i * 7 + si + i // len(sp)) % len(sp)] for i in range(n)]
                    a = np.array(vals, dtype=bo + t).reshape(s)
                    for fo in (0, 1):
                        b = np.asfortranarray(a) if fo else a
                        if not s:
                            b = a
                        w = io.BytesIO()
                        F.write_array(w, b, version=(1, 0))
                        raw = a.astype("<" + t).tobytes(order="C")
                        put(f, ti, s, w.getvalue(), raw, fo | (2 if bo == ">" else 0))
        # element types the library does not support
        for a in [np.zeros((2, 3), dtype=d) for d in ("?", "c8", "c16", "f2", "S4", "S10", "U3", "M8[ns]", "m8[s]", "V8", "S1", "U1")] + [np.zeros(3, dtype=[("a", "<i4"), ("b", "<f8")]), np.zeros(2, dtype=[("i4", "<i4")]), np.zeros(2, dtype="longdouble")]:
            w = io.BytesIO()
            F.write_array(w, a, version=(1, 0))
            put(f, 99, a.shape, w.getvalue(), b"", 0)


def put(f, ti, shape, npy, raw, flags):
    f.write(struct.pack("<III", ti, flags, len(shape)))
    f.write(struct.pack("<%dQ" % len(shape), *shape))
    f.write(struct.pack("<Q", len(npy)) + npy + struct.pack("<Q", len(raw)) + raw)


def read(path):
    data = open(path, "rb").read()
    p = n = 0
    while p < len(data):
        ti, flags, nd = struct.unpack_from("<III", data, p); p += 12
        shape = struct.unpack_from("<%dQ" % nd, data, p); p += 8 * nd
        (ln,) = struct.unpack_from("<Q", data, p); p += 8
        npy = data[p:p + ln]; p += ln
        (lr,) = struct.unpack_from("<Q", data, p); p += 8
        raw = data[p:p + lr]; p += lr
        want = np.frombuffer(raw, dtype="<" + TYPES[ti]).reshape(shape)
        try:
            s = io.BytesIO(npy)
            got = np.load(s, allow_pickle=False)
            if s.tell() != len(npy):
                print("case %d: %d bytes left over" % (n, len(npy) - s.tell())); return 1
        except Exception as e:
            print("case %d (%s %s): numpy cannot read it: %s" % (n, TYPES[ti], shape, e)); return 1
        if got.shape != want.shape or got.dtype != np.dtype("<" + TYPES[ti]):
            print("case %d: numpy reads %s %s instead of %s %s" % (n, got.dtype, got.shape, TYPES[ti], want.shape)); return 1
        eq = (got == want) | ((got != got) & (want != want)) if TYPES[ti][0] == "f" else got == want
        if TYPES[ti][0] == "f":
            eq = eq & (np.signbit(got) == np.signbit(want)) | (want != want)
        if not np.all(eq):
            print("case %d (%s %s): numpy reads other values" % (n, TYPES[ti], shape)); return 1
        n += 1
    print("ok %d" % n)
    return 0


if __name__ == "__main__":
    sys.exit(gen(sys.argv[2]) if sys.argv[1] == "gen" else read(sys.argv[2]))
