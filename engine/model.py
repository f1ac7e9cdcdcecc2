"""Random models of the free symbols of a summary: typed parameter values with the invariants of
their types, and the meaning of the calls left opaque (buffer traits, layout lookups, ...)."""
import math
import random

from .values import *

PAT = "pasture_core::layout::point_layout::"
DTN = ["U8", "I8", "U16", "I16", "U32", "I32", "U64", "I64", "F32", "F64", "Vec3u8", "Vec3u16", "Vec3f32", "Vec3i32", "Vec3f64", "Vec4u8", "ByteArray", "Custom"]
DTP = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "u8", "u16", "f32", "i32", "f64", "u8"]
DTC = [1] * 10 + [3, 3, 3, 3, 3, 4]
BUILTIN = {
    "POSITION_3D": ("Position3D", 14), "INTENSITY": ("Intensity", 2), "RETURN_NUMBER": ("ReturnNumber", 0),
    "NUMBER_OF_RETURNS": ("NumberOfReturns", 0), "CLASSIFICATION_FLAGS": ("ClassificationFlags", 0), "SCANNER_CHANNEL": ("ScannerChannel", 0),
    "SCAN_DIRECTION_FLAG": ("ScanDirectionFlag", 0), "EDGE_OF_FLIGHT_LINE": ("EdgeOfFlightLine", 0), "CLASSIFICATION": ("Classification", 0),
    "SCAN_ANGLE_RANK": ("ScanAngleRank", 1), "SCAN_ANGLE": ("ScanAngle", 3), "USER_DATA": ("UserData", 0), "POINT_SOURCE_ID": ("PointSourceID", 2),
    "COLOR_RGB": ("ColorRGB", 11), "GPS_TIME": ("GpsTime", 9), "NIR": ("NIR", 2), "WAVE_PACKET_DESCRIPTOR_INDEX": ("WavePacketDescriptorIndex", 0),
    "WAVEFORM_DATA_OFFSET": ("WaveformDataOffset", 6), "WAVEFORM_PACKET_SIZE": ("WaveformPacketSize", 4),
    "RETURN_POINT_WAVEFORM_LOCATION": ("ReturnPointWaveformLocation", 8), "WAVEFORM_PARAMETERS": ("WaveformParameters", 12), "POINT_ID": ("PointID", 6), "NORMAL": ("Normal", 12),
}
NAMES = ["Position3D", "Intensity", "GpsTime", "ColorRGB", "Custom0", "Classification", "custom1"]
ORD = "std::cmp::Ordering"
WORD = [None]


def mk_dt(v, size=0, align=1):
    p = PAT + "PointAttributeDataType"
    if v == 16:
        return Adt(p, 16, {"0": size})
    if v == 17:
        return Adt(p, 17, {"size": size, "min_alignment": align, "name": "uuid"})
    return Adt(p, v, {})


def dt_size(d):
    if d.variant < 16:
        return psize(DTP[d.variant]) * DTC[d.variant]
    return as_int(d.f["0"] if d.variant == 16 else d.f["size"])


def dt_align(d):
    if d.variant < 16:
        return psize(DTP[d.variant])
    return 1 if d.variant == 16 else as_int(d.f["min_alignment"])


def mk_def(name, dt):
    return Adt(PAT + "PointAttributeDefinition", 0, {"name": name, "datatype": dt})


def mk_member(d, off):
    return Adt(PAT + "PointAttributeMember", 0, {"attribute_definition": d, "offset": off, "size": dt_size(d.f["datatype"])})


def mk_std_layout(size, align):
    return Adt("std::alloc::Layout", 0, {"size": size, "align": align})


def mk_layout(members, size, align):
    return Adt(PAT + "PointLayout", 0, {"attributes": Seq(members), "memory_layout": mk_std_layout(size, align)})


def as_int(v):
    if isinstance(v, (int, bool)):
        return int(v)
    if isinstance(v, Obj):
        h = hsh("int", v.key)
        if WORD[0] is not None and h % 13 < 4:
            return int(WORD[0])
        return [0, 1, 2, 3, 4, 1, 2, 3, 5, 8, 7, 11][h % 12]
    if isinstance(v, Adt) and not v.f:
        return v.variant
    raise Unsup("int from " + type(v).__name__)


def as_float(v):
    if isinstance(v, float):
        return v
    if isinstance(v, Obj):
        h = hsh("flt", v.key)
        if FMODE[0] == "tiny":
            return float(h % 3)
        return (h % 257 - 128) * 0.25
    if isinstance(v, (int, bool)):
        return float(v)
    raise Unsup("float from " + type(v).__name__)


def as_bool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, Obj):
        return hsh("bool", v.key) % 2 == 0
    if isinstance(v, int):
        return v != 0
    raise Unsup("bool from " + type(v).__name__)


def as_seq(v, n=None):
    if isinstance(v, Seq):
        return v
    if isinstance(v, Obj):
        if "seq" not in v.mem or n is not None and len(v.mem["seq"].x) != n and False:
            h = hsh("len", v.key)
            m = h % 4 if n is None else n
            v.mem["seq"] = Seq(Obj(("i", v.key, i)) for i in range(m))
        return v.mem["seq"]
    if isinstance(v, tuple):
        return Seq(v)
    if isinstance(v, str):
        return Seq(v.encode())
    if isinstance(v, Map):
        return Seq(x for k, x in v.d.values())
    if isinstance(v, Adt) and "as_slice" in v.f:
        return v.f["as_slice"]
    raise Unsup("seq from " + type(v).__name__)


def as_map(v):
    if isinstance(v, Map):
        return v
    if isinstance(v, Obj):
        return Map({}, v)
    raise Unsup("map from " + type(v).__name__)


def as_bytes(v, n=None):
    """bytes of a byte sequence"""
    if isinstance(v, Seq):
        try:
            return bytes(as_int(x) & 255 for x in v.x)
        except TypeError:
            raise Unsup("bytes")
    if isinstance(v, Obj):
        n = n if n is not None else len(as_seq(v).x)
        return hash_bytes(v.key, n)
    raise Unsup("bytes from " + type(v).__name__)


def hash_bytes(key, n):
    out = b""
    i = 0
    while len(out) < n:
        out += hsh("bytes", key, i).to_bytes(8, "little")
        i += 1
    return out[:n]


LONG = 4200


class Model:
    def __init__(self, seed, hints=(), words=()):
        self.shrink = {}
        self.aligns = {}
        self.seed = seed
        SEED[0] = seed
        self.rng = r = random.Random(repr(seed))
        # a constant this model is built around, and what takes its value
        self.word = self.role = None
        if words and r.random() < 0.6:
            w = r.choice(words)
            if isinstance(w, str):
                self.word, self.role = w, "name"
            elif isinstance(w, float):
                self.word, self.role = w, "float"
            else:
                self.word = max(0, w + r.choice([-1, 0, 0, 1, 1, 2]))
                roles = ["int", "int", "float"]
                if self.word <= 140:
                    roles += ["count", "index"]
                if self.word <= 4096:
                    roles += ["size", "size"]
                self.role = r.choice(roles)
                if self.role == "float":
                    self.word = float(self.word)
        # a threshold on the number of points that small models never reach
        self.long = False
        big = [w for w in words if isinstance(w, int) and 140 < w <= LONG]
        if big and isinstance(seed, tuple) and seed[1] in (6, 12, 40):
            w = big[seed[1] % len(big)]
            self.word, self.role, self.long = {6: w + 1, 12: 2 * w + 3, 40: w}[seed[1]], "count", True
        self.T = {}  # size choices of opaque types
        self.frombytes_tab = {}
        self.bufs = {}
        self.lay = {}
        self.dts = {}
        self.hints = hints
        self.fmode = r.choice(["wide", "wide", "tiny", "small"])
        self.inverted = r.random() < 0.1
        FMODE[0] = self.fmode
        self.nan = "nan" in hints and r.random() < 0.3
        self.big = r.random() < 0.1
        # all attributes zero-sized now and then
        self.layouts = [self.gen_layout() for _ in range(2)]
        # a second layout sharing attributes with the first
        self.layouts.append(self.gen_related(self.layouts[0]))
        self.main = self.layouts[0]
        self.n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
        if self.role in ("count", "index"):
            self.n = self.word + (r.choice([1, 2, 3]) if self.role == "index" else 0)
        at = self.main.f["attributes"].x
        self.attr = r.choice(at) if at else self.members(self.layouts)[0] if self.members(self.layouts) else mk_member(mk_def("Intensity", mk_dt(2)), 0)
        mode = r.random()
        if "point" in hints and "attr" not in hints:
            mode = 0
        if "attr" in hints and "point" not in hints:
            mode = 1
        self.mode = "point" if mode < 0.5 else "attr"
        if r.random() < 0.08:
            self.tsize = r.choice([0, 1, 2, 4, 8, 12])
        else:
            self.tsize = self.main.f["memory_layout"].f["size"] if self.mode == "point" else dt_size(self.attr.f["attribute_definition"].f["datatype"])
        self.depth = 0
        self.nfresh = 0
        # fixed quantities many parameters share
        self.range = self.gen_range(self.n)
        self.idx = r.randrange(self.n) if self.n else 0
        if self.role == "index":
            self.idx = self.word
        WORD[0] = self.word if self.role in ("int", "size", "index", "count", "float") and r.random() < 0.5 else None

    def members(self, ls):
        return [m for l in ls for m in l.f["attributes"].x]

    # -------------------------------------------------- layouts
    def gen_dt(self):
        r = self.rng
        k = r.random()
        if self.role == "size" and k < 0.6:
            return mk_dt(16, self.word) if k < 0.3 else mk_dt(17, self.word, r.choice([1, 2, 4, 8, 16])) if k < 0.5 else mk_dt(17, r.choice([4, 16, 32]), self.some_align())
        if k < 0.06:
            return mk_dt(16, r.choice([0, 1, 3, 5, 7]))
        if k < 0.1:
            return mk_dt(17, r.choice([0, 2, 4, 8, 12, 16, 24]), r.choice([1, 2, 4, 8, 8, 16, 32]))
        return mk_dt(r.randrange(16))

    def sib_dt(self, dt):
        """a data type to replace `dt` by: any, or one of the same size"""
        r = self.rng
        if r.random() < 0.6:
            return self.gen_dt()
        n = dt_size(dt)
        same = [mk_dt(i) for i in range(16) if dt_size(mk_dt(i)) == n and i != dt.variant]
        same.append(mk_dt(16, n) if dt.variant != 16 else mk_dt(17, n, r.choice([1, 2, 4, 8])))
        return r.choice(same)

    def some_align(self):
        """an alignment (power of two) around the role constant"""
        w = max(1, min(int(self.word), 1 << 12))
        p = 1 << (w - 1).bit_length()
        return max(1, self.rng.choice([p // 2, p, p, 2 * p]))

    def gen_def(self):
        r = self.rng
        if self.role == "name" and r.random() < 0.4:
            return mk_def(self.word, self.gen_dt())
        if r.random() < (0.2 if self.role == "size" else 0.5):
            return mk_def(*((lambda x: (x[0], mk_dt(x[1])))(r.choice(list(BUILTIN.values())))))
        return mk_def(r.choice(NAMES), self.gen_dt())

    def gen_layout(self, k=None):
        r = self.rng
        k = r.choice([0, 1, 1, 2, 2, 3, 3, 4]) if k is None else k
        if self.long:
            return self.layout_of([mk_def(*r.choice([("Intensity", mk_dt(2)), ("Classification", mk_dt(0)), ("Custom0", mk_dt(4))]))])
        names = set()
        ds = []
        if k and r.random() < 0.5:
            ds.append(mk_def("Position3D", mk_dt(14 if r.random() < 0.8 else 12)))
            names.add("Position3D")
        for _ in range(30):
            if len(ds) >= k:
                break
            d = self.gen_def()
            if ds and r.random() < 0.15:
                e = r.choice(ds)
                d = mk_def(self.vary_name(e.f["name"]) if r.random() < 0.6 else d.f["name"], e.f["datatype"] if r.random() < 0.5 else self.sib_dt(e.f["datatype"]))
            if d.f["name"] in names:
                continue
            names.add(d.f["name"])
            ds.append(d)
        r.shuffle(ds)
        return self.layout_of(ds)

    def layout_of(self, ds):
        r = self.rng
        packed = r.choice([None, None, None, 1, 1, 2, 4])
        off = 0
        ms = []
        align = 1
        order = list(range(len(ds)))
        if r.random() < 0.3:
            r.shuffle(order)
        place = {}
        for i in order:
            a = dt_align(ds[i].f["datatype"])
            if packed is not None:
                a = min(a, packed)
            a = max(a, 1)
            align = max(align, a)
            off = (off + a - 1) // a * a
            if r.random() < 0.1:
                off += a
            place[i] = off
            off += dt_size(ds[i].f["datatype"])
        for i in range(len(ds)):
            ms.append(mk_member(ds[i], place[i]))
        size = (off + align - 1) // align * align
        return mk_layout(ms, size, align)

    def gen_related(self, l):
        r = self.rng
        ds = []
        for m in l.f["attributes"].x:
            k = r.random()
            d = m.f["attribute_definition"]
            if k < 0.15:
                continue
            if k < 0.55:
                d = mk_def(d.f["name"], self.sib_dt(d.f["datatype"]))
            ds.append(d)
        for _ in range(r.choice([0, 0, 1, 2])):
            d = self.gen_def()
            if all(d.f["name"] != x.f["name"] for x in ds):
                ds.append(d)
        r.shuffle(ds)
        return self.layout_of(ds)

    def pick_layout(self, key=None):
        r = self.rng
        k = 0 if self.long else r.random()
        return self.main if k < 0.7 else self.layouts[2] if k < 0.9 else self.layouts[1]

    def pick_def(self):
        r = self.rng
        k = r.random()
        d = self.attr.f["attribute_definition"]
        if k < 0.61:
            return d
        if k < 0.68:
            return mk_def(self.vary_name(d.f["name"]), d.f["datatype"])
        if k < 0.77:
            return mk_def(d.f["name"], self.sib_dt(d.f["datatype"]))
        ms = self.members(self.layouts)
        if k < 0.92 and ms:
            return r.choice(ms).f["attribute_definition"]
        return self.gen_def()

    def gen_cov(self):
        """A 3x3 matrix (column-major), mostly a covariance matrix."""
        r = self.rng
        if r.random() < 0.2:
            return Seq(r.choice([0.0, 1.0, r.uniform(-4, 4)]) for _ in range(9))
        s = r.choice([1.0, 1.0, 1e-3, 50.0])
        ps = [[s * (r.choice([0.0, 1.0, -2.0]) if r.random() < 0.3 else r.uniform(-2, 2)) for _ in range(3)] for _ in range(r.choice([1, 2, 3, 5, 8]))]
        if r.random() < 0.3:
            j = r.randrange(3)
            for p in ps:
                p[j] = 0.0
        return Seq(sum(p[i] * p[j] for p in ps) for j in range(3) for i in range(3))

    def gen_range(self, n):
        r = self.rng
        s = r.randint(0, n)
        e = r.randint(s, n)
        return (s, e)

    # -------------------------------------------------- bytes for attributes
    def value_bytes(self, dt, key):
        """Encodings with well-behaved floats."""
        n = dt_size(dt)
        if dt.variant < 16 and DTP[dt.variant] in ("f32", "f64"):
            p = DTP[dt.variant]
            return b"".join(struct.pack(FMT[p], self.some_float(hsh("vb", self.seed, key, i))) for i in range(DTC[dt.variant]))
        return hash_bytes(("vb", self.seed, key), n)

    def some_float(self, h):
        if self.nan and h // 1024 % 7 == 0:
            return float("nan") if h // 8192 % 2 else float("inf")
        if self.fmode == "tiny":
            return float(h % 3)
        return (h % 129 - 64) * 0.25

    def row_bytes(self, layout, key):
        size = as_int(layout.f["memory_layout"].f["size"])
        b = bytearray(hash_bytes(("row", self.seed, key), size))
        for j, m in enumerate(layout.f["attributes"].x):
            v = self.value_bytes(m.f["attribute_definition"].f["datatype"], (key, j))
            b[m.f["offset"]:m.f["offset"] + len(v)] = v
        return bytes(b)

    def gen_buf(self, key, layout=None, n=None):
        if layout is None:
            layout = self.pick_layout()
        if n is None:
            n = self.n if self.rng.random() < (0.9 if self.long else 0.75) else self.rng.randint(0, 5)
        return Buf(key, layout, tuple(self.row_bytes(layout, (key, i)) for i in range(n)))

    def as_buf(self, v):
        if isinstance(v, Buf):
            return v
        if isinstance(v, Obj):
            if v.key not in self.bufs:
                h = hsh("buf", self.seed, v.key)
                lay = self.main if h % 10 < 7 or self.long else self.layouts[1 + h % 2]
                n = self.n if h // 16 % 4 or self.long else h // 64 % 6
                self.bufs[v.key] = Buf(v.key, lay, tuple(self.row_bytes(lay, (v.key, i)) for i in range(n)))
            return self.bufs[v.key]
        raise Unsup("buffer from " + type(v).__name__ + (" " + v.path if isinstance(v, Adt) else ""))

    def as_layout(self, v):
        if isinstance(v, Adt) and "attributes" in v.f:
            return v
        if isinstance(v, Obj):
            h = hsh("lay", v.key)
            return self.layouts[h % 3]
        raise Unsup("layout from " + type(v).__name__)

    def as_dt(self, v):
        if isinstance(v, Adt):
            return v
        if isinstance(v, Obj):
            h = hsh("dt", v.key)
            if h % 8 == 0:
                return mk_dt(16, h // 8 % 9)
            return mk_dt(h // 8 % 16)
        raise Unsup("dt")

    # -------------------------------------------------- types
    def size_of(self, s):
        k = parse_ty(s)
        if k[0] == "prim":
            return psize(k[1])
        if k[0] == "mat":
            return psize(k[1]) * k[2]
        if s == "T" or len(s) <= 2:
            if s in ("T", "U"):
                return self.tsize
        if s not in self.T:
            h = hsh("sz", self.seed, s)
            self.T[s] = [1, 2, 4, 8, 12, 16, 24][h % 7]
        return self.T[s]

    def tobytes(self, v, ty):
        k = parse_ty(ty)
        if isinstance(v, Obj) and v.key and v.key[0] == "call" and v.key[1] == "Zeroable::zeroed":
            return Seq(bytes(self.size_of(ty)))
        if k[0] == "prim":
            return Seq(enc_prim(self.coerce(v, k[1]), k[1]))
        if k[0] == "mat":
            s = as_seq(v, k[2])
            if len(s.x) != k[2]:
                raise Unsup("matrix size")
            return Seq(b"".join(enc_prim(self.coerce(x, k[1]), k[1]) for x in s.x))
        if isinstance(v, Obj) and v.key[0] == "T" and v.key[1] == ty:
            return Seq(v.key[2])
        b = hash_bytes(("enc", ty, vkey(v)), self.size_of(ty))
        self.frombytes_tab[(ty, b)] = v
        return Seq(b)

    def coerce(self, v, p):
        if p in ("f32", "f64"):
            return as_float(v)
        if p == "bool":
            return as_bool(v)
        return as_int(v)

    def frombytes(self, s, ty):
        n = self.size_of(ty)
        b = as_bytes(s, n)
        if len(b) != n:
            raise Fault("frombytes length")
        k = parse_ty(ty)
        if k[0] == "prim":
            return dec_prim(b, k[1])
        if k[0] == "mat":
            w = psize(k[1])
            return Seq(dec_prim(b[i * w:i * w + w], k[1]) for i in range(k[2]))
        if (ty, b) in self.frombytes_tab:
            return self.frombytes_tab[(ty, b)]
        return Obj(("T", ty, b))

    def default(self, s):
        k = parse_ty(s)
        if k[0] == "prim":
            return 0.0 if k[1] in ("f32", "f64") else False if k[1] == "bool" else 0
        if k[0] == "mat":
            return Seq([0.0 if k[1][0] == "f" else 0] * k[2])
        if s.startswith("Vec<"):
            return Seq(())
        if s == "String":
            return ""
        if s.startswith("Option<"):
            return NONE
        return Obj(("default", s))

    # -------------------------------------------------- parameters
    def gen_int(self, ty, key, field=False):
        r = self.rng
        if self.role in ("int", "index", "count", "size") and r.random() < 0.35:
            return wrap_int(self.word, ty)
        if ty in ("usize", "isize"):
            k = r.random()
            if k < 0.35:
                return self.idx
            if k < 0.5:
                return self.n
            if k < 0.6:
                return self.n + 1 + r.randrange(3)
            if k < 0.9:
                return r.randint(0, max(self.n, 2))
            if k < 0.93:
                return r.choice([16, 24, 100])
            return r.randint(0, 12)
        b = BITS.get(ty, 64)
        k = r.random()
        if k < 0.35:
            v = r.choice([0, 1, 2, 3, 4, 7, 8, 16])
        elif k < 0.5:
            v = r.choice([(1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1])
        else:
            v = r.getrandbits(r.choice([4, 8, 16, b, b]))
        return wrap_int(v, ty)

    def gen_float(self, key=None):
        r = self.rng
        if self.role == "float" and r.random() < 0.4:
            return r.choice([self.word, -self.word, self.word * (1 + 1e-9), self.word * (1 - 1e-9), self.word * 1.5, self.word * 0.5])
        if self.fmode == "tiny":
            return float(r.randint(0, 2))
        if self.fmode == "small":
            return r.randint(-6, 6) * 0.5
        k = r.random()
        if k < 0.12:
            return 0.0
        if k < 0.2:
            return 1.0
        if k < 0.25:
            return r.choice([1e6, -1e6, 1024.5])
        return r.randint(-40, 40) * 0.25

    def byte_len(self):
        r = self.rng
        size = self.main.f["memory_layout"].f["size"]
        asz = self.attr.f["size"]
        s, e = self.range
        return r.choice([size, size, asz, asz, self.n * size, self.n * asz, (e - s) * size, (e - s) * asz, self.tsize, self.n * self.tsize, 2 * size, 3 * size, r.randint(0, 12), r.choice([self.size_lay(l) for l in self.layouts])])

    def size_lay(self, l):
        return as_int(l.f["memory_layout"].f["size"])

    def some_name(self):
        if self.role == "name" and self.rng.random() < 0.5:
            return self.word
        s = self.rng.choice(NAMES)
        return self.vary_name(s) if self.rng.random() < 0.12 else s

    def vary_name(self, s):
        return self.rng.choice((s + "X", s[:-1], s[:-1], s.upper(), s.lower(), s[1:], " " + s))

    def raw_bytes(self, n, key):
        return Seq(hash_bytes(("p", self.seed, key), n))

    def gen(self, prog, ty, key, depth=0):
        r = self.rng
        k = ty[0]
        if depth > 8:
            return Obj(("deep", key))
        if k == "prim":
            p = ty[1]
            if p in ("f32", "f64"):
                return self.gen_float(key)
            if p == "bool":
                return r.random() < 0.5
            if p == "char" or p == "str":
                return self.some_name()
            if p == "!":
                return Obj(key)
            return self.gen_int(p, key)
        if k in ("ref", "ptr"):
            return self.gen(prog, ty[2], key, depth)
        if k == "slice" or k == "array":
            if ty[1] == ("prim", "u8"):
                n = self.byte_len() if k == "slice" else ty[2] if isinstance(ty[2], int) else self.byte_len()
                return self.raw_bytes(n, key)
            if k == "slice" and ty[1][0] == "adt" and ty[1][1].endswith(("::PointAttributeMember", "::PointAttributeDefinition")) and r.random() < 0.6:
                return Seq(self.gen_members(ty[1][1].endswith("Definition")))
            n = ty[2] if k == "array" and isinstance(ty[2], int) else self.rng.choice([self.n, self.n, r.randint(0, 4)])
            return Seq(self.gen(prog, ty[1], (key, i), depth + 1) for i in range(n))
        if k == "tuple":
            return tuple(self.gen(prog, x, (key, i), depth + 1) for i, x in enumerate(ty[1]))
        if k == "adt":
            return self.gen_adt(prog, ty, key, depth)
        if k == "param" and depth:
            return self.opaque(key)
        return Obj(("in", key))

    def gen_members(self, defs):
        """The attributes of a layout, often with something wrong with them."""
        r = self.rng
        ms = list(self.gen_layout(r.choice([1, 2, 3, 3, 4, 5])).f["attributes"].x)
        if r.random() < 0.3:
            r.shuffle(ms)
        if len(ms) > 1:
            i, j = r.sample(range(len(ms)), 2)
            k = r.random()
            d, o = ms[j].f["attribute_definition"], ms[j].f["offset"]
            if k < 0.25:
                ms[j] = mk_member(mk_def(ms[i].f["attribute_definition"].f["name"], d.f["datatype"]), o)
            elif k < 0.4:
                ms[j] = mk_member(ms[i].f["attribute_definition"], o)
            elif k < 0.55:
                ms[j] = mk_member(d, max(0, o + r.choice([-4, -2, -1, 1, 1, 2, 4])))
            elif k < 0.65:
                ms[j] = mk_member(d, ms[i].f["offset"])
        return [m.f["attribute_definition"] for m in ms] if defs else ms

    def opaque(self, key):
        """A value of a type parameter; often equal to another one."""
        if self.rng.random() < 0.6:
            return Obj(("val", self.rng.randrange(4)))
        return Obj(("in", key))

    def gen_adt(self, prog, ty, key, depth):
        r = self.rng
        n = ty[1].split("::")[-1]
        a = ty[2]
        g = lambda t, i: self.gen(prog, t, (key, i), depth + 1)
        if n == "Vec":
            return self.gen(prog, ("slice", a[0]), key, depth)
        if n in ("Box", "RefCell", "Cell", "Rc", "Arc"):
            return g(a[0], 0) if a[0][0] != "dyn" else Obj(("in", key))
        if n in ("String", "Cow"):
            return self.some_name()
        if n == "PhantomData":
            return ()
        if n == "Option":
            return NONE if r.random() < 0.4 else some(g(a[0], 0))
        if n == "Range":
            if a[0] == ("prim", "usize"):
                k = r.random()
                w = self.range[1] - self.range[0]
                if k < 0.4:
                    s, e = self.range
                elif k < 0.6:
                    s, e = self.gen_range(w)
                elif k < 0.75:
                    s, e = self.gen_range(self.n)
                elif k < 0.85:
                    s, e = r.randint(0, w + 1), w + r.randint(0, 1)
                else:
                    s, e = r.randint(0, 6), r.randint(0, 6)
                if self.inverted and s < e:
                    s, e = e, s
                return Adt("std::ops::Range", 0, {"start": s, "end": e})
            return Adt("std::ops::Range", 0, {"start": g(a[0], 0), "end": g(a[0], 1)})
        if n in ("Matrix", "OPoint"):
            from .facts import ty_str
            p = parse_ty(ty_str(ty))
            if "Dyn" in ty_str(ty) and ty[2][0] == ("prim", "f64"):
                return self.gen_cov()
            if p[0] == "mat":
                return Seq(self.gen(prog, ("prim", p[1]), (key, i), depth + 1) for i in range(p[2]))
            m = re.match(r"^(?:Matrix|OPoint)<(\w+),Const<(\d+)>", ty_str(ty))
            if m:
                return Seq(self.opaque((key, i)) for i in range(int(m.group(2))))
            return Obj(("in", key))
        if n == "PointLayout":
            return self.pick_layout()
        if n == "Layout" and "alloc" in ty[1]:
            return self.pick_layout().f["memory_layout"]
        if n == "PointAttributeDataType":
            return self.attr.f["attribute_definition"].f["datatype"] if r.random() < 0.4 else self.gen_dt()
        if n == "PointAttributeDefinition":
            return self.pick_def()
        if n == "PointAttributeMember":
            k = r.random()
            if k < 0.7:
                return self.attr
            ms = self.members(self.layouts)
            if k < 0.95 and ms:
                return r.choice(ms)
            return mk_member(self.gen_def(), r.randint(0, 8))
        if n in ("VectorBuffer", "HashMapBuffer", "ExternalMemoryBuffer"):
            lay = self.pick_layout()
            if n == "HashMapBuffer" and lay is self.layouts[2]:
                lay = self.main
            cnt = self.n if r.random() < 0.85 else r.randint(0, 5)
            b = self.gen_buf(("in", key), lay, cnt)
            if n == "VectorBuffer":
                return Adt(ty[1], 0, {"storage": Seq(b"".join(b.rows)), "point_layout": lay, "length": cnt})
            if n == "ExternalMemoryBuffer":
                return Adt(ty[1], 0, {"external_memory": Adt("mem", 0, {"as_slice": Seq(b"".join(b.rows)), "as_ref": Seq(b"".join(b.rows)), "as_mut": Seq(b"".join(b.rows))}), "point_layout": lay, "length": cnt})
            return Adt(ty[1], 0, {"attributes_storage": self.columns(b), "point_layout": lay, "length": cnt})
        if n == "HashMapBufferAttributePusher":
            buf = g(("adt", "pasture_core::containers::point_buffer::HashMapBuffer", ()), "b")
            lay = buf.f["point_layout"]
            add = None if r.random() < 0.3 else r.choice([self.n, r.randint(0, 4)])
            d = {}
            for j, m in enumerate(lay.f["attributes"].x):
                df = m.f["attribute_definition"]
                q = r.random()
                cnt = add if (add is not None and q < 0.85) else 0 if q < 0.97 else r.randint(0, 4)
                d[vkey(df)] = (df, Seq(b"".join(self.value_bytes(df.f["datatype"], (key, j, i)) for i in range(cnt))))
            return Adt(ty[1], 0, {"attributes_storage": Map(d), "num_new_points": NONE if add is None else some(add), "buffer": buf})
        if n in ("RawAttributeView", "RawAttributeViewMut"):
            if r.random() < 0.5:  # interleaved
                off, size, stride = self.attr.f["offset"], self.attr.f["size"], self.size_lay(self.main)
            else:
                off, size = 0, max(1, self.attr.f["size"])
                stride = size
            stride = max(stride, off + size, 1)
            return Adt(ty[1], 0, {"point_data": self.raw_bytes(self.n * stride, key), "offset": off, "stride": stride, "size_of_attribute": size})
        if n in ("UntypedPointBuffer", "UntypedPointSlice"):
            lay = self.pick_layout()
            b = Seq(self.row_bytes(lay, ("in", key)))
            return Adt(ty[1], 0, {"layout": lay, ("buffer" if n == "UntypedPointBuffer" else "slice"): b})
        if n in ("BufferSlice", "BufferSliceMut"):
            b = self.gen_buf(("in", key))
            s, e = self.range if r.random() < 0.5 and len(b.rows) == self.n else self.gen_range(len(b.rows))
            return Adt(ty[1], 0, {"buffer": b, "point_range": Adt("std::ops::Range", 0, {"start": s, "end": e})})
        if n in ("HashMap", "BTreeMap", "HashSet"):
            if n == "HashSet" or len(a) < 2:
                return Obj(("in", key))
            d = {}
            for i in range(r.randint(0, 3)):
                kk = g(a[0], ("k", i))
                d[vkey(kk)] = (kk, g(a[1], ("v", i)))
            return Map(d)
        if n == "AABB":
            et = a[0]
            lo = [self.gen(prog, et, (key, "lo", i), depth + 1) for i in range(3)]
            hi = [self.gen(prog, et, (key, "hi", i), depth + 1) for i in range(3)]
            if et[0] == "prim" and r.random() < 0.9:
                lo, hi = [min(x, y) for x, y in zip(lo, hi)], [max(x, y) for x, y in zip(lo, hi)]
            return Adt(ty[1], 0, {"min": Seq(lo), "max": Seq(hi)})
        if n == "BufferLayoutConverter":
            fr, to = self.main, self.layouts[2] if r.random() < 0.8 else self.layouts[1]
            ms = []
            fa, ta = fr.f["attributes"].x, to.f["attributes"].x
            if fa and ta:
                for i in range(r.choice([0, 1, 1, 2, 3])):
                    t = r.choice(ta)
                    same = [m for m in fa if m.f["attribute_definition"].f["name"] == t.f["attribute_definition"].f["name"]]
                    s = same[0] if same and r.random() < 0.8 else r.choice(fa)
                    eqd = vkey(s.f["attribute_definition"].f["datatype"]) == vkey(t.f["attribute_definition"].f["datatype"])
                    conv = NONE if eqd and r.random() < 0.9 else some(Obj(("in", key, "conv", i)))
                    tr = NONE
                    if r.random() < 0.5:
                        tr = some(Adt(prog_path("Transformation"), 0, {"func": Obj(("in", key, "tr", i)), "apply_to_source_attribute": r.random() < 0.5}))
                    ms.append(Adt(prog_path("AttributeMapping"), 0, {"target_attribute": t, "source_attribute": s, "converter": conv, "transformation": tr}))
            return Adt(ty[1], 0, {"from_layout": fr, "to_layout": to, "mappings": Seq(ms)})
        if n == "AttributeMapping":
            c = self.gen_adt(prog, ("adt", prog_path("BufferLayoutConverter"), ()), key, depth)
            if c.f["mappings"].x:
                return c.f["mappings"].x[0]
        if n == "RawAttributeConverter":
            ss, ts = self.size_lay(self.main), self.size_lay(self.layouts[2])
            s0 = r.randint(0, ss)
            t0 = r.randint(0, ts)
            return Adt(ty[1], 0, {"conversion_fn": Obj(("in", key, "f")), "source_range": Adt("std::ops::Range", 0, {"start": s0, "end": r.randint(s0, ss)}), "target_range": Adt("std::ops::Range", 0, {"start": t0, "end": r.randint(t0, ts)})})
        ad = prog.adts.get(ty[1])
        if ad is None or not ad["v"]:
            return Obj(("in", key))
        from .facts import subst_ty
        v = r.randrange(len(ad["v"]))
        gs = dict(zip([x[0] if isinstance(x, (list, tuple)) else x for x in ad.get("g", [])], a))
        fs = {}
        for nm, t in prog.adt_fields(ty[1], v):
            t = subst_ty(t, gs)
            if nm == "current_index":
                lim = len(next((as_seq(fs[x]).x for x in ("point_data", "attribute_data") if x in fs), fs["buffer"].rows if isinstance(fs.get("buffer"), Buf) else range(self.n)))
                fs[nm] = r.randint(0, lim)  # never past the end
                continue
            if nm == "converter_buffer":
                fs[nm] = self.raw_bytes(as_int(fs["attribute"].f["size"]), (key, nm))
                continue
            if t[0] == "ref" and t[2][0] == "param" and nm == "buffer":
                fs[nm] = self.gen_buf(("in", key, nm))
                continue
            fs[nm] = g(t, nm)
        if n in ("AttributeView", "AttributeViewMut", "AttributeViewConverting", "AttributeIteratorByValue"):
            # the viewed attribute is a member of the buffer's layout
            ms = fs["buffer"].layout.f["attributes"].x
            nm = "attribute" if "attribute" in fs else "attribute_member"
            if ms and r.random() < 0.95:
                mm = [m for m in ms if vkey(m) == vkey(self.attr)]
                fs[nm] = mm[0] if mm else r.choice(ms)
                if "converter_buffer" in fs:
                    fs["converter_buffer"] = self.raw_bytes(fs[nm].f["size"], (key, "cb"))
        return Adt(ty[1], v, fs)

    def columns(self, b):
        d = {}
        for m in b.layout.f["attributes"].x:
            df = m.f["attribute_definition"]
            o, s = m.f["offset"], m.f["size"]
            d[vkey(df)] = (df, Seq(b"".join(x[o:o + s] for x in b.rows)))
        return Map(d)


def prog_path(n):
    return "pasture_core::layout::conversion::buffer_conversion::" + n
