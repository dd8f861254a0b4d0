"""C11 companion: boundary marked streams against a reference layout computed byte by byte."""
import io
import struct
from .lib import *
from docria.collection import _BoundaryReader, _BoundaryWriter


class Sink(io.BytesIO):
    def close(self):
        pass


def payload(seed, n):
    return random.Random(seed).randbytes(n)


def reference(data, splits, b):
    """splits: payload offsets declared as split points, in order"""
    B = 1 << b
    out = bytearray([b])
    last = 1
    splits = list(splits)
    k = 0
    for o in range(len(data) + 1):
        while k < len(splits) and splits[k] == o:
            last = len(out)
            k += 1
        if o == len(data):
            break
        if len(out) % B == 0:
            out += struct.pack(">i", max(-(1 << 31), last - len(out)))
        out.append(data[o])
    return bytes(out)


def write(p):
    b = p["b"]
    s = Sink()
    w = _BoundaryWriter(s, boundary=b)
    data = payload(p["seed"], sum(x for x in p["ops"] if x >= 0))
    o = 0
    splits = []
    for x in p["ops"]:
        if x < 0:
            w.split()
            splits.append(o)
        else:
            w.write(data[o:o + x])
            o += x
    return data, splits, s.getvalue()


def gen_w(rng, tier):
    B = 4096
    for tot in (0, 1, B - 2, B - 1, B, B + 1, 2 * B - 6, 2 * B - 5, 2 * B - 4, 3 * B):
        yield {"b": 12, "seed": 1, "ops": [tot]}
        yield {"b": 12, "seed": 1, "ops": [tot, -1, 1, -1, 0, 5]}
        yield {"b": 12, "seed": 1, "ops": [tot, -1, B - 1, 1, -1, B - 5, 1, 1]}
    while True:
        b = rng.choice([12, 12, 12, 13, 14, 16])
        B = 1 << b
        ops = []
        for _ in range(rng.randrange(1, 9)):
            k = rng.randrange(5)
            if k == 0:
                ops.append(-1)
            elif k == 1:
                ops.append(rng.randrange(0, 5))
            elif k == 2:
                ops.append(max(0, B + rng.randrange(-6, 6)))
            elif k == 3:
                ops.append(rng.randrange(0, 3 * B))
            else:
                ops.append(rng.randrange(0, B))
        yield {"b": b, "seed": rng.randrange(1 << 30), "ops": ops}


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


def run_w(p):
    data, splits, got = write(p)
    want = reference(data, splits, p["b"])
    if got != want:
        raise Violation("written stream differs from the layout at byte %d (lengths %d, %d)" % (first_diff(got, want), len(got), len(want)))
    r = _BoundaryReader(io.BytesIO(got))
    back = r.read()
    expect(back == data, "read() returns other bytes than written (at %d)", first_diff(back, data))
    expect_eq(r.tell(), len(data), "tell after reading everything")


def gen_r(rng, tier):
    for g in gen_w(rng, tier):
        n = sum(x for x in g["ops"] if x > 0)
        B = 1 << g["b"]
        ops = []
        for _ in range(rng.randrange(1, 14)):
            k = rng.randrange(4)
            base = rng.choice([0, B - 1, B - 1 + (B - 4), B - 1 + 2 * (B - 4), n, rng.randrange(0, n + 1)])
            off = max(0, base + rng.randrange(-6, 7))
            if k == 0:
                ops.append(["seek", off])
            elif k == 1:
                ops.append(["read", rng.choice([0, 1, 2, 3, 4, 5, 8])])
            elif k == 2:
                ops.append(["read", max(0, rng.choice([B, B - 4, 2 * B, n]) + rng.randrange(-5, 6))])
            else:
                ops.append(["read", rng.choice([-1, rng.randrange(0, n + 5), rng.randrange(0, n + 5)])])
        yield {"w": g, "ops": ops}


def run_r(p):
    data, splits, raw = write(p["w"])
    r = _BoundaryReader(io.BytesIO(raw))
    o = 0
    for k, x in p["ops"]:
        if k == "seek":
            expect_eq(r.seek(x), x, "seek result")
            o = x
        else:
            got = r.read(x)
            want = data[o:] if x < 0 else data[o:o + x]
            expect(got == want, "read(%d) at %d of %d: wrong bytes", x, o, len(data))
            o += len(want)
        expect_eq(r.tell(), o, "tell after %s" % k)


class Big:
    """stands for n zero bytes"""
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, s):
        a, b, _ = s.indices(self.n)
        return Big(max(0, b - a))


class CountSink:
    def __init__(self):
        self.n, self.small = 0, []

    def write(self, x):
        if not isinstance(x, Big):
            self.small.append((self.n, bytes(x)))
        self.n += len(x)

    def close(self):
        pass


def gen_b(rng, tier):
    for b in range(12, 31):
        yield {"b": b, "ops": [3 << b, -1, 5 << min(b + 2, 30)]}
        yield {"b": b, "ops": [(1 << b) - 1, -1, 1, -1, 1 << b]}
    for b in (28, 29, 30):
        yield {"b": b, "ops": [5 << 30]}
        yield {"b": b, "ops": [(2 << 30) - 1, -1, (7 << 30) + 3, -1, 1 << b]}


def run_b(p):
    try:
        return run_b1(p)
    except (TypeError, AttributeError):
        return False            # the stand-in for the data does not support what the writer does with it


def run_b1(p):
    b = p["b"]
    B = 1 << b
    s = CountSink()
    w = _BoundaryWriter(s, boundary=b)
    last, splits, tot = 1, {}, 0

    def phys(o):
        if o <= B - 1:
            return 1 + o
        u = o - (B - 1)
        return 1 + o + 4 * ((u - 1) // (B - 4) + 1)
    marks = {}
    for x in p["ops"]:
        if x < 0:
            w.split()
            last = phys(tot)
        else:
            w.write(Big(x))
            lo, hi = phys(tot), phys(tot + x)
            k = (lo + B - 1) // B
            while k * B < hi:
                marks[k * B] = max(-(1 << 31), last - k * B)
                k += 1
            tot += x
    expect_eq(s.n, phys(tot), "total size")
    want = [(0, bytes([b]))] + [(k, struct.pack(">i", v)) for k, v in sorted(marks.items())]
    expect(s.small == want, "markers differ for exponent %d: %s", b, short([x for x in zip(s.small, want) if x[0] != x[1]][:2]))


def gen_e(rng, tier):
    for b in list(range(-2, 12)) + list(range(31, 40)) + [255]:
        yield {"b": b}


def run_e(p):
    raises(ValueError, lambda: _BoundaryWriter(Sink(), boundary=p["b"]), "exponent %d" % p["b"])
    if 0 <= p["b"] < 256:
        raises(OSError, lambda: _BoundaryReader(io.BytesIO(bytes([p["b"]]) + b"abc")), "reading exponent %d" % p["b"])


FAMILIES = [Family("write", gen_w, run_w, 2.0, "pieces around every boundary position, random otherwise, exponents 12-16"),
            Family("read", gen_r, run_r, 3.0, "random reads and seeks around boundaries"),
            Family("large", gen_b, run_b, 1.0, "every exponent, sizes up to 9 GiB with a length-only stand-in for the data", 60),
            Family("exponent", gen_e, run_e, 0.3, "exponents outside 12..30")]
