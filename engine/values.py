"""Values of the random interpretation of summary terms.

The terms of the abstract domain are interpreted over randomly chosen models of their free
symbols (parameters, opaque calls, type parameters).  Two terms that are equal in the theory of
the domain have equal interpretations in every model, so a difference in one model refutes
equality; this is the decision procedure for terms whose normal forms differ.
"""
import hashlib
import math
import struct


class Panic(Exception):
    pass


class Fault(Exception):
    """The term is not defined in this model (out of range, wrong variant)."""


class Unsup(Exception):
    """The term has no interpretation here."""


SEED = [0]  # the current model
FMODE = ["wide"]  # which floating-point values it uses


def hsh(*k):
    return int.from_bytes(hashlib.md5(repr((SEED[0], k)).encode()).digest()[:8], "little")


class Obj:
    """An uninterpreted value, identified by how it was obtained."""

    __slots__ = ("key", "ty", "mem")

    def __init__(self, key, ty=None):
        self.key = key
        self.ty = ty
        self.mem = {}

    def __repr__(self):
        return "#" + str(hsh(self.key) % 10000)


class Adt:
    __slots__ = ("path", "variant", "f")

    def __init__(self, path, variant, f):
        self.path = path
        self.variant = variant
        self.f = f

    def __repr__(self):
        return f"{self.path.split('::')[-1]}.{self.variant}{self.f}"


class Seq:
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = tuple(x)

    def __repr__(self):
        return "[" + ",".join(map(repr, self.x[:40])) + "]"


class Map:
    """Insertion-ordered map keyed by vkey; base = uninterpreted rest or None."""

    __slots__ = ("d", "base")

    def __init__(self, d, base=None):
        self.d = d
        self.base = base

    def __repr__(self):
        return "{" + ", ".join(f"{k}: {v}" for k, v in self.d.values()) + ("+" + repr(self.base) if self.base else "") + "}"


class Lam:
    __slots__ = ("f", "_k")

    def __init__(self, f):
        self.f = f
        self._k = None


class Buf:
    """A point buffer known only through its trait: layout and rows."""

    __slots__ = ("key", "layout", "rows")

    def __init__(self, key, layout, rows):
        self.key = key
        self.layout = layout
        self.rows = rows

    def __repr__(self):
        return f"Buf{hsh(self.key) % 1000}{[r.hex() for r in self.rows]}"


OPT = "std::option::Option"
RES = "std::result::Result"
NONE = Adt(OPT, 0, {})


def some(x):
    return Adt(OPT, 1, {"0": x})


def fround(x):
    if x != x:
        return "nan"
    if x in (math.inf, -math.inf):
        return repr(x)
    if x == 0:
        return 0.0
    return float(f"{x:.7g}")


def vkey(v):
    """Canonical hashable image of a value (floats up to rounding)."""
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return ("f", fround(v))
    if isinstance(v, str):
        return ("s", v)
    if isinstance(v, Obj):
        return ("o", v.key)
    if isinstance(v, Adt):
        return ("a", v.path.split("::")[-1], v.variant, tuple(sorted((k, vkey(x)) for k, x in v.f.items() if k != "_phantom")))
    if isinstance(v, Seq):
        return ("q",) + tuple(vkey(x) for x in v.x)
    if isinstance(v, tuple):
        return ("t",) + tuple(vkey(x) for x in v)
    if isinstance(v, Map):
        return ("m", tuple(sorted((repr(k), vkey(x[1])) for k, x in v.d.items())), vkey(v.base) if v.base is not None else None)
    if isinstance(v, Lam):
        if v._k is None:
            out = []
            for i in range(3):
                try:
                    out.append(vkey(v.f([Obj(("probe", i, j)) for j in range(4)])))
                except Fault:
                    out.append("fault")
            v._k = ("lam",) + tuple(out)
        return v._k
    if isinstance(v, Buf):
        return ("buf", vkey(v.layout), v.rows)
    if v is None:
        return ("none",)
    raise Unsup("vkey " + type(v).__name__)


def veq(a, b):
    if isinstance(a, float) and isinstance(b, float):
        if a == b:
            return True
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Seq) and isinstance(b, Seq):
        return len(a.x) == len(b.x) and all(veq(x, y) for x, y in zip(a.x, b.x))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.path.split("::")[-1] != b.path.split("::")[-1] or a.variant != b.variant:
            return False
        ks = (set(a.f) | set(b.f)) - {"_phantom"}
        return all(k in a.f and k in b.f and veq(a.f[k], b.f[k]) for k in ks)
    return vkey(a) == vkey(b)


# ------------------------------------------------------------------ byte encodings
FMT = {"u8": "<B", "i8": "<b", "u16": "<H", "i16": "<h", "u32": "<I", "i32": "<i", "u64": "<Q", "i64": "<q", "usize": "<Q", "isize": "<q", "f32": "<f", "f64": "<d"}
BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}
import re

_mre = re.compile(r"^(?:Matrix|OPoint)<(\w+),Const<(\d+)>(?:,Const<(\d+)>.*)?>$")


def parse_ty(s):
    """-> ("prim", name) | ("mat", prim, n) | ("opaque", s)"""
    if s in FMT or s in ("u128", "i128", "bool"):
        return ("prim", s)
    m = _mre.match(s)
    if m and m.group(1) in FMT:
        return ("mat", m.group(1), int(m.group(2)) * int(m.group(3) or 1))
    m = re.match(r"^\[(\w+);(\d+)\]$", s)
    if m and m.group(1) in FMT:
        return ("mat", m.group(1), int(m.group(2)))
    return ("opaque", s)


def wrap_int(n, ty):
    if ty not in BITS:
        return n
    b = BITS[ty]
    n &= (1 << b) - 1
    if ty[0] == "i" and n >> (b - 1):
        n -= 1 << b
    return n


def enc_prim(v, p):
    if p == "bool":
        return bytes([1 if v else 0])
    if p in ("f32", "f64"):
        if not isinstance(v, float):
            raise Unsup("enc float")
        try:
            return struct.pack(FMT[p], v)
        except OverflowError:
            return struct.pack(FMT[p], math.copysign(math.inf, v))
    if not isinstance(v, int):
        raise Unsup("enc int")
    if p in ("u128", "i128"):
        return (v & ((1 << 128) - 1)).to_bytes(16, "little")
    return struct.pack(FMT[p], wrap_int(v, p))


def dec_prim(b, p):
    if p == "bool":
        return b[0] != 0
    if p in ("u128", "i128"):
        return wrap_int(int.from_bytes(b, "little"), p)
    v = struct.unpack(FMT[p], b)[0]
    return v


def psize(p):
    return 1 if p == "bool" else 16 if p in ("u128", "i128") else struct.calcsize(FMT[p])
