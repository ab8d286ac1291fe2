"""Wave files (C20; callers' arrays C09).

Symbolically the operating system's file, struct.pack/unpack and numpy.memmap are replaced by a ghost file made of
typed fields at byte offsets (little-endian integers and one block of samples); everything else is /repo's code,
for every length, offset, count, rate and sample value. The numeric branches use real files and the standard
library's wave module as an independent reader and writer.
"""

import os
import shutil
import tempfile
import wave

import numpy as np

from vc.registry import bounded, contract
from vc.terms import Unsupported

IO = "ssspy.io"
SIZE = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 4, "l": 4}


class GB:
    """bytes as fields: (size, 's', bytes) | (size, code, integer) | (symbolic size, 'data', Wave)"""

    def __init__(self, fields):
        self.fields = fields

    @staticmethod
    def of(x):
        if isinstance(x, GB):
            return x
        if isinstance(x, (bytes, bytearray)):
            return GB([(len(x), "s", bytes(x))])
        if isinstance(x, Wave):
            return GB([(x.nbytes, "data", x)])
        raise NotImplementedError("bytes of %s" % type(x).__name__)

    def __add__(self, o):
        return GB(self.fields + GB.of(o).fields)

    def __radd__(self, o):
        return GB(GB.of(o).fields + self.fields)

    def plain(self):
        if all(k == "s" for _, k, _ in self.fields):
            return b"".join(v for _, _, v in self.fields)
        return self

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step not in (None, 1):
            raise NotImplementedError
        pos, out = 0, []
        for z, k, v in self.fields:
            if pos >= (s.start or 0) and (s.stop is None or pos + z <= s.stop):
                out.append((z, k, v))
            elif not (pos + z <= (s.start or 0) or (s.stop is not None and pos >= s.stop)):
                raise NotImplementedError("slice through a field")
            pos = pos + z
        return GB(out).plain()

    def __len__(self):
        return sum(z for z, _, _ in self.fields)

    def __eq__(self, o):
        raise NotImplementedError("comparison of packed values")


def codes(fmt):
    if not fmt.startswith("<"):
        raise NotImplementedError("native or big-endian layout %r" % fmt)
    out, n = [], ""
    for ch in fmt[1:]:
        if ch.isdigit():
            n += ch
        elif ch == "s":
            out.append(("s", int(n or 1)))
            n = ""
        elif ch in SIZE:
            out += [(ch, SIZE[ch])] * int(n or 1)
            n = ""
        else:
            raise NotImplementedError("format %r" % fmt)
    return out


class GhostStruct:
    @staticmethod
    def pack(fmt, *vals):
        cs = codes(fmt)
        if len(cs) != len(vals):
            raise ValueError("pack expected %d items" % len(cs))
        return GB([(z, k, v) for (k, z), v in zip(cs, vals)])

    @staticmethod
    def unpack(fmt, b):
        cs, b = codes(fmt), GB.of(b)
        if len(cs) != len(b.fields):
            raise NotImplementedError("fields do not line up")
        out = []
        for (k, z), (z2, k2, v) in zip(cs, b.fields):
            if z != z2 or k.upper() != k2.upper():
                raise NotImplementedError("fields do not line up")
            out.append(v)
        return tuple(out)

    @staticmethod
    def calcsize(fmt):
        return sum(z for _, z in codes(fmt))


class GhostFile:
    def __init__(self, fields=()):
        self.at = []  # [pos, size, kind, value]
        self.pos = 0
        for f in fields:
            self._append(f)
        self.pos = 0

    def end(self):
        return self.at[-1][0] + self.at[-1][1] if self.at else 0

    def _append(self, f):
        self.at.append([self.end()] + list(f))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def flush(self):
        pass

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        if whence == 2 and isinstance(pos, int) and pos == 0:
            pos = self.end()
        elif whence == 1:
            pos = self.pos + pos
        elif whence != 0:
            raise NotImplementedError
        self.pos = pos
        return pos

    def write(self, b):
        for f in GB.of(b).fields:
            hit = [e for e in self.at if isinstance(e[0], int) and isinstance(self.pos, int) and e[0] == self.pos]
            if hit:
                if not (isinstance(hit[0][1], int) and isinstance(f[0], int) and hit[0][1] == f[0]):
                    raise NotImplementedError("overwrite of part of a field")
                hit[0][1:] = list(f)
            else:
                if not bool(self.pos == self.end()):
                    raise NotImplementedError("write at a position inside the file")
                self._append(f)
            self.pos = self.pos + f[0]

    def read(self, n=None):
        if not isinstance(n, int):
            raise NotImplementedError("read of symbolic size")
        out, left = [], n
        while left > 0:
            hit = [e for e in self.at if isinstance(e[0], int) and isinstance(self.pos, int) and e[0] == self.pos]
            if not hit or not isinstance(hit[0][1], int) or hit[0][1] > left:
                raise NotImplementedError("read does not line up with the fields")
            out.append(tuple(hit[0][1:]))
            self.pos += hit[0][1]
            left -= hit[0][1]
        return GB(out).plain()


class Wave:
    """array of samples with an element type (symbolic values)"""

    def __init__(self, c, a, dt):
        self.c, self.a, self.dtype = c, a, np.dtype(dt)

    shape = property(lambda s: s.a.shape)
    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: s.a.size)
    T = property(lambda s: s.transpose())
    nbytes = property(lambda s: s.a.size * s.dtype.itemsize)
    itemsize = property(lambda s: s.dtype.itemsize)

    def __len__(self):
        return self.a.shape[0]

    def _n(self, a, dt=None):
        return Wave(self.c, a, dt or self.dtype)

    def transpose(self, *ax):
        return self._n(self.a.transpose(*ax))

    def swapaxes(self, a, b):
        return self._n(self.a.swapaxes(a, b))

    def copy(self):
        return self._n(self.a.copy())

    def reshape(self, *s):
        return self._n(self.a.reshape(*s))

    def flatten(self, order="C"):
        if order != "C":
            raise NotImplementedError
        return self._n(self.a.flatten())

    def ravel(self, order="C"):
        return self.flatten(order)

    def __getitem__(self, k):
        return self._n(self.a[k])

    def _float(self):
        if self.dtype.kind != "f":
            raise NotImplementedError("integer arithmetic")

    def __mul__(self, o):
        self._float()
        return self._n(self.a * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        self._float()
        return self._n(self.a / o)

    def clip(self, lo=None, hi=None):
        self._float()
        a = self.a
        if lo is not None:
            a = self.c.np.maximum(a, lo)
        if hi is not None:
            a = self.c.np.minimum(a, hi)
        return self._n(a)

    def astype(self, dt, copy=True):
        dt = np.dtype(dt)
        if dt == self.dtype or (self.dtype.kind == "f" and dt.kind == "f"):
            return self._n(self.a, dt)
        if self.dtype.kind == "f" and dt == np.dtype("<i2"):
            # conversion truncates towards zero: within one of the value, exact at the largest code; defined in range only
            c, a = self.c, self.a
            d = [x for x in a.shape]
            c.forall_pos("converted values fit in 16 bits (lower)", d, lambda *i: a[i] + 32768)
            c.forall_pos("converted values fit in 16 bits (upper)", d, lambda *i: 32767 - a[i])
            w = c.fresh_array("trunc", a.shape, "f")
            one = c.rat(999999, 1000000)
            e = c.np.maximum(-one, c.np.minimum(one, w))
            e = c.np.where(a == 32767, 0 * w, c.np.where(a == -32768, 0 * w, e))
            return self._n(a - e, dt)
        raise NotImplementedError("conversion %s -> %s" % (self.dtype, dt))

    def view(self, dt):
        if np.dtype(dt).itemsize != 1 or self.ndim != 1:
            raise NotImplementedError
        return self

    @property
    def data(self):
        return self

    def tobytes(self, order="C"):
        return self.flatten(order)

    def tofile(self, f):
        f.write(self.flatten())


def riff(C, rate, bits, w, tail=None):
    """the documented file: canonical 44-byte PCM header and the interleaved frames (tail: bytes of further chunks)"""
    n = w.nbytes
    return [
        (4, "s", b"RIFF"), (4, "I", n + 36 + (0 if tail is None else tail)), (4, "s", b"WAVE"), (4, "s", b"fmt "), (4, "I", 16), (2, "H", 1), (2, "H", C),
        (4, "I", rate), (4, "I", rate * C * (bits // 8)), (2, "H", C * (bits // 8)), (2, "H", bits), (4, "s", b"data"), (4, "I", n),
        (n, "data", w),
    ] + ([] if tail is None else [(tail, "tail", None)])  # fmt: skip


def append_chunk(p, rng, n):
    """an unknown chunk with 2n bytes after the samples"""
    with open(p, "ab") as f:
        f.write(b"LIST" + (2 * n).to_bytes(4, "little") + rng.integers(0, 256, size=2 * n).astype("u1").tobytes())
    size = os.path.getsize(p)
    with open(p, "r+b") as f:
        f.seek(4)
        f.write((size - 8).to_bytes(4, "little"))


def ghost_module(c, files):
    md = c.load(IO)

    def gopen(path, mode="r", *a, **k):
        if "w" in mode:
            files[path] = GhostFile()
        f = files[path]
        f.pos = 0
        return f

    c.stub(md, "open", gopen)
    c.stub(md, "struct", GhostStruct)

    def clip(a, lo=None, hi=None, **k):
        return a.clip(lo, hi)

    c.stub(md.np, "clip", clip)

    def memmap(f, dtype=None, mode="r+", offset=0, shape=None, order="C"):
        if order != "C" or isinstance(f, str):
            raise NotImplementedError
        if not isinstance(shape, tuple):
            shape = (shape,)
        hit = [e for e in f.at if e[2] == "data"]
        start, _, _, w = hit[0]
        dt = np.dtype(dtype)
        if dt != w.dtype.newbyteorder("<"):
            raise NotImplementedError("samples read as %s, stored as %s" % (dt, w.dtype))
        first, rem = divmod(offset - start, dt.itemsize)
        if not (rem == 0 and len(shape) == 1):
            raise NotImplementedError("offset inside a sample")
        # reading outside of the data block would return other data: the guards must have excluded it
        if not (first >= 0):
            raise OtherData("before the samples")
        if not (shape[0] >= 0):
            raise ValueError("negative dimensions are not allowed")
        flat = w.a.reshape(-1)
        if not (first + shape[0] <= flat.shape[0]):
            tail = [e for e in f.at if e[2] == "tail"]
            if tail and first + shape[0] <= flat.shape[0] + tail[0][1] // dt.itemsize:
                raise OtherData("bytes after the samples")
            raise ValueError("mmap length is greater than file size")
        return c.fresh_from(shape, lambda t: flat[first + t], "f")

    c.stub(md.np, "memmap", memmap)
    return md


class OtherData(BaseException):
    pass


LAY = {
    "mono": (1, lambda J: (J,), {}, lambda x: (lambda j, ch: x[j])),
    "mono 2d": (1, lambda J: (J, 1), {}, lambda x: (lambda j, ch: x[j, ch])),
    "mono 2d channels first": (1, lambda J: (1, J), dict(channels_first=True), lambda x: (lambda j, ch: x[ch, j])),
    "stereo": (2, lambda J: (J, 2), {}, lambda x: (lambda j, ch: x[j, ch])),
    "stereo frames first": (2, lambda J: (J, 2), dict(channels_first=False), lambda x: (lambda j, ch: x[j, ch])),
    "stereo channels first": (2, lambda J: (2, J), dict(channels_first=True), lambda x: (lambda j, ch: x[ch, j])),
}


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vc-wave-")
        return os.path.join(self.d, "a.wav")

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
        return False


for lay, (C, shp, kw, at) in LAY.items():
    for dt in ("i2", "f4", "f8", "f2"):

        @contract("wavwrite %s %s" % (lay, dt), "C20 C09", "io.wavwrite io._write_fmt_chunk io._write_data_chunk", samples=6)
        def write(c, lay=lay, C=C, shp=shp, kw=kw, at=at, dt=dt):
            """the file is the canonical PCM header followed by the interleaved 16-bit samples; integers as they are, floats
            scaled by 2^15 to within one step, for every value in the closed range from minus one to one"""
            J, rate = c.dim("J"), c.dim("rate", hi=192000)
            if c.symbolic:
                c.require(J <= 2**29)
                u = c.array("u", shp(J), "f")
                x = u if dt == "i2" else c.np.maximum(c.num(-1), c.np.minimum(c.num(1), u))
                files = {}
                md = ghost_module(c, files)
                md.wavwrite("a.wav", Wave(c, x, dt), rate, **kw)
                got = files["a.wav"].at
                want = riff(C, rate, 16, Wave(c, c.fresh_from((J, C), lambda j, ch: at(x)(j, ch), "f"), "i2"))
                if len(got) != len(want):
                    raise NotImplementedError
                for k, (g, w) in enumerate(zip(got, want)):
                    if g[2] != w[1] and not (g[2].upper() == w[1].upper()):
                        raise NotImplementedError
                    if w[1] == "data":
                        break
                    ok = g[3] == w[2]
                    (c.ensure if isinstance(ok, bool) else c.ensure_int)("header field %d" % k, ok)
                d = got[-1][3]
                c.ensure("16-bit little-endian samples", d.dtype == np.dtype("<i2"))
                c.ensure_int("number of bytes", got[-1][1] == 2 * C * J)
                fl = d.a.reshape(J, C)
                if dt == "i2":
                    c.forall("interleaved frames", [J, C], lambda j, ch: (fl[j, ch], at(x)(j, ch)))
                else:
                    c.forall_pos("within one step (above)", [J, C], lambda j, ch: fl[j, ch] - 32768 * at(x)(j, ch) + 1)
                    c.forall_pos("within one step (below)", [J, C], lambda j, ch: 32768 * at(x)(j, ch) + 1 - fl[j, ch])
                c.unchanged("input not modified", u)
                return
            rng = c.rng
            J = J if J > 2 else J + 2
            if dt == "i2":
                x = rng.integers(-32768, 32768, size=shp(J)).astype("i2")
            else:
                x = rng.uniform(-1, 1, size=shp(J)).astype(dt)
                x.flat[int(rng.integers(0, x.size))] = rng.choice([1, -1])
                x = np.clip(x, -1, 1)
            x0 = x.copy()
            with Tmp() as p:
                c.load(IO).wavwrite(p, x, rate, **kw)
                with wave.open(p) as f:
                    c.ensure("header", (f.getnchannels(), f.getframerate(), f.getsampwidth(), f.getnframes(), f.getcomptype()) == (C, rate, 2, J, "NONE"))
                    d = np.frombuffer(f.readframes(J), "<i2").reshape(J, C)
            v = c.fresh_from((J, C), lambda j, ch: float(at(x0)(j, ch)), "f")
            if dt == "i2":
                c.ensure("interleaved frames (file)", bool(np.all(d == v)))
            else:
                c.ensure("within one step (file)", bool(np.all(np.abs(d - v * 32768) <= 1)))
            c.ensure("input not modified (file)", bool(np.array_equal(x, x0)))


def back(c, C, r2, cf):
    """layout of the result of wavread: shape and entry of frame j, channel ch"""
    if C == 1 and not r2:
        return lambda F: (F,), lambda y: (lambda j, ch: y[j])
    if cf:
        return lambda F: (C, F), lambda y: (lambda j, ch: y[ch, j])
    return lambda F: (F, C), lambda y: (lambda j, ch: y[j, ch])


READ = [(C, r2, cf, full) for C in (1, 2) for r2 in (None, True, False) for cf in (None, True, False) for full in (True, False) if not (C == 2 and r2 is False)]

for C, r2, cf, full in READ:

    @contract("wavread %d channel(s) return_2d=%s channels_first=%s %s" % (C, r2, cf, "to the end" if full else "given count"), "C20", "io.wavread io._read_fmt_chunk io._read_data_chunk", samples=4)
    def read(c, C=C, r2=r2, cf=cf, full=full):
        """any canonical file: the rate and exactly the requested slice of frames, divided by 2^15"""
        J, rate, O = c.dim("J"), c.dim("rate", hi=192000), c.dim("O", 0)
        F = None if full else c.dim("F", 0)
        Z = c.dim("Z", 0)
        bits = 16
        kw = dict(frame_offset=O, return_2d=r2, channels_first=cf)
        if full:
            c.require(O <= J)
            n = J - O
        else:
            c.require(O + F <= J)
            kw["num_frames"] = F
            n = F
        sh, at = back(c, C, r2, cf)
        if c.symbolic:
            x = c.array("u", (J, C), "f")
            files = {"a.wav": GhostFile(riff(C, rate, bits, Wave(c, x, "<i2"), 2 * Z))}
            md = ghost_module(c, files)
            y, sr = md.wavread("a.wav", **kw)
            ok = sr == rate
            (c.ensure if isinstance(ok, bool) else c.ensure_int)("sampling rate", ok)
            c.shape("shape", y, sh(n))
            c.forall("exactly the requested slice", [n, C], lambda j, ch: (at(y)(j, ch) * 32768, x[j + O, ch]))
            return
        x = c.rng.integers(-32768, 32768, size=(J, C)).astype("<i2")
        with Tmp() as p:
            with wave.open(p, "wb") as f:
                f.setnchannels(C)
                f.setsampwidth(2)
                f.setframerate(rate)
                f.writeframes(x.tobytes())
            if Z:
                append_chunk(p, c.rng, Z)
            y, sr = c.load(IO).wavread(p, **kw)
            y = np.array(y)
        c.ensure("sampling rate (file)", sr == rate)
        c.ensure("shape (file)", y.shape == sh(n))
        c.ensure("exactly the requested slice (file)", y.shape == sh(n) and all(at(y)(j, ch) == x[j + O, ch] / 32768 for j in range(n) for ch in range(C)))


for C in (1, 2):
    for bad in ("count too large", "offset too large", "offset too large, count given", "negative offset", "negative offset, count given", "negative count"):

        @contract("wavread %d channel(s), invalid request: %s" % (C, bad), "C20", "io.wavread io._read_data_chunk", samples=4)
        def invalid(c, C=C, bad=bad):
            """an invalid request raises an error rather than returning other data"""
            J, rate, O, E, Z = c.dim("J"), c.dim("rate", hi=192000), c.dim("O", 0), c.dim("E"), c.dim("Z", 0)
            if bad == "count too large":
                kw = dict(frame_offset=O, num_frames=J - O + E)
                c.require(O <= J)
            elif bad == "offset too large":
                kw = dict(frame_offset=J + E)
            elif bad == "offset too large, count given":
                kw = dict(frame_offset=J + E, num_frames=O)
            elif bad == "negative offset":
                kw = dict(frame_offset=-E)
            elif bad == "negative offset, count given":
                kw = dict(frame_offset=-E, num_frames=O)
            else:
                c.require(O <= J)
                kw = dict(frame_offset=O, num_frames=-E)
            if c.symbolic:
                x = c.array("u", (J, C), "f")
                files = {"a.wav": GhostFile(riff(C, rate, 16, Wave(c, x, "<i2"), 2 * Z))}
                md = ghost_module(c, files)

                def run():
                    try:
                        md.wavread("a.wav", **kw)
                    except OtherData:
                        return  # no error: other data returned

                c.raises("raises ValueError", ValueError, run)
                return
            x = c.rng.integers(-32768, 32768, size=(J, C)).astype("<i2")
            with Tmp() as p:
                with wave.open(p, "wb") as f:
                    f.setnchannels(C)
                    f.setsampwidth(2)
                    f.setframerate(rate)
                    f.writeframes(x.tobytes())
                if Z:
                    append_chunk(p, c.rng, 5 * Z)
                c.raises("raises an error (file)", Exception, lambda: c.load(IO).wavread(p, **kw))


@bounded(
    "round trip of every 16-bit code and of the float range",
    "C20",
    bound="all 65536 codes; floats on a grid of 2^17+1 points of [-1, 1] in four float types; lengths 0..70, every offset/count of short files; real files",
    reason="values through the operating system's file and NumPy's conversion, which the symbolic contracts replace by a ghost file",
)
def roundtrip(b):
    md = b.load(IO)
    rng = b.rng
    with Tmp() as p:
        codes16 = np.arange(-32768, 32768).astype("i2")
        for lay, (C, shp, kw, at) in LAY.items():
            x = codes16.reshape(-1, C)
            xs = x.T if kw.get("channels_first") else (x[:, 0] if lay == "mono" else x)
            for order in "CF":
                with b.case("int16 %s %s" % (lay, order)):
                    xw = np.array(xs, order=order)
                    md.wavwrite(p, xw, 16000, **kw)
                    y, sr = md.wavread(p, return_2d=lay != "mono", **kw)
                    b.check("rate", sr == 16000)
                    b.check("shape", y.shape == xs.shape)
                    b.check("exact", y.shape == xs.shape and bool(np.all(y * 32768 == xs)))
                    b.check("input kept", bool(np.array_equal(xw, xs)))
            g = np.linspace(-1, 1, 2**17 + 1)[: 2**17 + 1 - (C - 1)]
            for dt in ("f2", "f4", "f8", "f16"):
                v = g.astype(dt).reshape(-1, C) if C == 1 else np.concatenate([g[:-1], g[1:]]).astype(dt).reshape(2, -1).T
                vs = v.T if kw.get("channels_first") else (v[:, 0] if lay == "mono" else v)
                with b.case("%s %s" % (dt, lay)):
                    md.wavwrite(p, vs, 44100, **kw)
                    y, sr = md.wavread(p, return_2d=lay != "mono", **kw)
                    b.check("shape", y.shape == vs.shape)
                    b.check("within one step", y.shape == vs.shape and bool(np.max(np.abs(y - vs.astype("f8"))) <= 2.0**-15))
        for dt in ("i1",):
            with b.case("8-bit codes"):
                x = np.arange(-128, 128).astype("i1")
                md.wavwrite(p, x, 8000)
                y, _ = md.wavread(p)
                b.check("exact", bool(np.all(y * 128 == x)))
        for C in (1, 2):
            for J in (1, 2, 5) + ((33, 70) if b.tier != "quick" else ()):
                x = rng.integers(-32768, 32768, size=(J, C)).astype("i2")
                md.wavwrite(p, x, 8000)
                append_chunk(p, rng, 40)
                for o in range(-2, J + 3):
                    for n in [None] + list(range(-2, J + 3)):
                        with b.case("%d channels, %d frames, offset %d, count %s" % (C, J, o, n)):
                            ok = 0 <= o <= J and (n is None or (0 <= n and o + n <= J))
                            try:
                                y, _ = md.wavread(p, frame_offset=o, num_frames=n, return_2d=True)
                                err = None
                            except Exception as e:  # noqa
                                y, err = None, e
                            if ok:
                                w = x[o:] if n is None else x[o : o + n]
                                b.check("slice", err is None and y.shape == w.shape and bool(np.all(y * 32768 == w)), repr(err))
                            else:
                                b.check("refused", err is not None)
