"""Function summaries: entry points, keys, (de)serialisation of terms."""
import json
import re
import signal
import time

from .facts import *
from .interp import *
from .models import *
from . import terms as TM

sys_rec = __import__("sys").setrecursionlimit(100000)

DERIVED = {"eq", "partial_cmp", "cmp", "default", "clone"}
LOOKUPS = {"get_attribute", "get_attribute_by_name", "has_attribute", "has_attribute_with_name", "index_of"}
BASE_OPAQUE = {"PointLayout::size_of_point_entry", "PointAttributeDataType::size", "PointAttributeDataType::min_alignment"} | {"PointLayout::" + n for n in LOOKUPS}


def self_name(fn):
    d = fn.d
    if "impl_self" in d:
        return ty_str(fn.crate.ty(d["impl_self"])).split("<")[0]
    return None


def base_key(fn):
    """Key that does not depend on the module a method lives in."""
    d = fn.d
    if "impl_self" in d:
        ty = fn.crate.ty(d["impl_self"])
        s = short_ty(ty)
        if "impl_trait" in d:
            return f"{s} as {canon(d['impl_trait']).split('::')[-1]}::{fn.name}"
        return f"{s}::{fn.name}"
    if "trait" in d:
        return f"{canon(d['trait']).split('::')[-1]}::{fn.name}"
    return fn.name or fn.path


def short_ty(ty):
    k = ty[0]
    if k == "adt":
        a = [x for x in ty[2] if isinstance(x, tuple) and x[0] not in ("param", "region")]
        b = ty[1].split("::")[-1]
        return b + ("<" + ",".join(short_ty(x) for x in a) + ">" if a else "")
    if k == "ref":
        return "&" + ("mut " if ty[1] else "") + short_ty(ty[2])
    if k in ("slice",):
        return f"[{short_ty(ty[1])}]"
    if k == "param":
        return ty[1]
    return ty_str(ty)


class Entry:
    """A function to summarise: (key, fn, substitution of its generics)."""

    def __init__(self, key, fn, sub, inst=False):
        self.key = key
        self.fn = fn
        self.sub = sub
        self.inst = inst  # default trait method instantiated for an implementing type


def entries(prog):
    """All analysable functions, plus the provided (default) methods of local traits
    instantiated for every local implementing type that does not override them."""
    out = {}
    for f in prog.fns.values():
        if f.kind == "Closure" or f.body is None or (f.d.get("derived") and f.name not in DERIVED):
            continue
        k = base_key(f)
        if f.kind == "AssocFn" or "impl_self" in f.d or "trait" in f.d:
            pass
        if k in out:
            # several impls of one generic trait for one type: number them by trait arguments
            im = impl_of(prog, f)
            if im is not None:
                k = f"{short_ty(im['self_ty'])} as {im['trait_path'].split('::')[-1]}<{','.join(short_ty(t) for t in im['targs_ty'][1:])}>::{f.name}"
            if k in out:
                k = f.path
        out[k] = Entry(k, f, {})
    for tp, tr in prog.traits.items():
        for im in prog.impl_index.get(tp, []):
            if im["self_ty"][0] == "param":
                continue
            for it_ in tr["items"]:
                if not it_["default"] or it_["n"] in im["item_ids"]:
                    continue
                f = prog.fns.get(it_["id"])
                if f is None or f.body is None:
                    continue
                k = f"{short_ty(im['self_ty'])} as {tp.split('::')[-1]}::{it_['n']}"
                sub = dict(zip([g[0] for g in tr["g"]], im["targs_ty"]))
                if k not in out:
                    out[k] = Entry(k, f, sub, True)
    return out


def impl_of(prog, f):
    for im in prog.impls:
        if f.id in im["item_ids"].values():
            return im
    return None


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


class Summary:
    def __init__(self):
        self.ret = None
        self.pc = None
        self.safe = TRUE
        self.cells = []
        self.status = "ok"  # ok | diverges | failed
        self.why = ""
        self.params = []  # (name, type)
        self.inlined = set()
        self.events = []
        self.secs = 0


def default_opaque(prog, extra=(), never=()):
    s = (BASE_OPAQUE | set(extra)) - set(never)

    def f(fn):
        return base_key(fn) in s

    return f


def summarize(prog, entry, opaque, **kw):
    S = summarize1(prog, entry, opaque, **{**kw, "budget": 600000})
    S.creation = S.status == "failed" and "diagram budget" in S.why
    if S.creation:
        S = by_creation(lambda: summarize1(prog, entry, opaque, **kw))
        S.creation = True
    return S


def by_creation(f):
    TM.creation_order(True)
    try:
        return f()
    finally:
        TM.creation_order(False)


def summarize1(prog, entry, opaque, roles=None, budget=4000000, secs=60, hooks=None, models=None):
    fn, sub = entry.fn, entry.sub
    S = Summary()
    t0 = time.time()
    TM.set_budget(budget)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(secs)
    try:
        I = Interp(prog, opaque=lambda f: f.id != fn.id and opaque(f), models=models or Models(), roles=roles)
        I.hooks = hooks
        st = State(TRUE, {SAFE: TRUE})
        names = {}
        for n, pl in fn.body["names"]:
            if not pl[1] and 1 <= pl[0] <= fn.body["argc"]:
                names[pl[0]] = n
        args = []
        for i in range(fn.body["argc"]):
            ty = subst_ty(fn.crate.ty(fn.body["locals"][i + 1]), sub)
            # positional names: renaming a parameter changes nothing
            a = raw("param", f"p{i}")
            S.params.append((names.get(i + 1, f"arg{i}"), ty))
            args.append(I.typed(a, ty))
        try:
            v = I.run_fn(fn, args, st, dict(sub), "F", 0)
            pc = st.pc
            if pc is FALSE:
                raise Diverge()
            S.ret = constrain(I.canon_val(st, v), pc)
            S.pc = pc
            S.safe = constrain(I.canon_val(st, st.cells.get(SAFE, TRUE)), pc)
            for c, x in st.cells.items():
                if c.op == "D":
                    x = I.canon_val(st, x)
                    x = constrain(x, pc)
                    d = I.default(c.a[0])
                    if x is not d:
                        S.cells.append((I.canon_val(st, c.a[0]), x))
            S.cells.sort(key=lambda p: pp(p[0]))
        except Diverge:
            S.status = "diverges"
        S.events = I.events
        S.inlined = set(I.inlined)
        S.interp = I
    except Timeout:
        S.status, S.why = "failed", "time budget"
    except TM.TooBig:
        S.status, S.why = "failed", "diagram budget"
    except (RecursionError, MemoryError) as e:
        S.status, S.why = "failed", type(e).__name__
    except Exception as e:  # an engine limitation: never an alarm
        import traceback
        S.status, S.why = "failed", repr(e)[:200] + " @ " + traceback.format_exc().strip().split("\n")[-3].strip()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        TM.LIMIT[0] = 1 << 62
    S.secs = time.time() - t0
    return S


# ---------------------------------------------------------------- serialisation
def _enc_arg(x, go):
    if isinstance(x, T):
        return go(x)
    if x is None:
        return ["n"]
    if isinstance(x, bool):
        return ["b", x]
    if isinstance(x, int):
        return ["i", str(x)]
    if isinstance(x, str):
        return ["s", x]
    if isinstance(x, tuple):
        return ["t", [_enc_arg(y, go) for y in x]]
    raise TypeError(type(x))


def dump_terms(ts):
    """-> {"nodes": [...], "roots": [...]}"""
    nodes = []
    index = {}

    def go(t):
        i = index.get(id(t))
        if i is not None:
            return i
        # iterative post-order
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if id(x) in index:
                continue
            if not done:
                stack.append((x, True))
                for y in x.a:
                    if isinstance(y, T) and id(y) not in index:
                        stack.append((y, False))
            else:
                nodes.append([x.op, [_enc_arg(y, lambda z: index[id(z)]) for y in x.a], 1 if x in TM.UNSIGNED else 0])
                index[id(x)] = len(nodes) - 1
        return index[id(t)]

    roots = [go(t) for t in ts]
    return {"nodes": nodes, "roots": roots}


def load_terms(d):
    out = []

    def dec(x):
        if isinstance(x, int):
            return out[x]
        k = x[0]
        if k == "n":
            return None
        if k in ("b", "s"):
            return x[1]
        if k == "i":
            return int(x[1])
        if k == "t":
            return tuple(dec(y) for y in x[1])
        raise TypeError(k)

    for op, args, uns in d["nodes"]:
        t = raw(op, *[dec(a) for a in args])
        if uns:
            TM.UNSIGNED.add(t)
        out.append(t)
    # re-normalise with the current constructors (diagram order depends on the process)
    return [subst_rebuild(out[r]) for r in d["roots"]]


def subst_rebuild(t):
    memo = {}

    def go(x):
        stack = [(x, False)]
        while stack:
            y, done = stack.pop()
            if id(y) in memo:
                continue
            kids = [z for z in y.a if isinstance(z, T)]
            if not done:
                stack.append((y, True))
                for z in kids:
                    if id(z) not in memo:
                        stack.append((z, False))
                continue
            na = tuple(memo[id(z)] if isinstance(z, T) else z for z in y.a)
            if y.op == "ite" or any(p is not q for p, q in zip(na, y.a)):
                r = TM.remake(y.op, na) if kids else y
            else:
                r = y
            if y in TM.UNSIGNED:
                for l in leaves(r):
                    if l.op not in ("num", "int"):
                        TM.UNSIGNED.add(l)
            memo[id(y)] = r
        return memo[id(x)]

    return go(t)


def dump_summary(S):
    ts = []
    r = {"status": S.status}
    if S.creation:
        r["creation"] = True
    if S.status == "ok":
        ts = [S.ret, S.pc, S.safe]
        for c, v in S.cells:
            ts += [c, v]
        r["t"] = dump_terms(ts)
        r["text"] = text(S)
    return r


def load_summary(d):
    S = Summary()
    S.status = d["status"]
    if S.status == "ok":
        ts = by_creation(lambda: load_terms(d["t"])) if d.get("creation") else load_terms(d["t"])
        S.ret, S.pc, S.safe = ts[0], ts[1], ts[2]
        S.cells = list(zip(ts[3::2], ts[4::2]))
        S.cells.sort(key=lambda p: pp(p[0]))
    return S


def text(S, limit=20000):
    if S.status != "ok":
        return [S.status + " " + S.why]
    out = ["ret " + pp(S.ret)[:limit], "when " + pp(S.pc)[:limit]]
    if S.safe is not TRUE:
        out.append("unless-oob " + pp(S.safe)[:limit])
    for c, v in S.cells:
        out.append(f"*{pp(c)} := {pp(v)}"[:limit])
    return out


def tainted(S):
    for t in [S.ret, S.pc, S.safe] + [x for p in S.cells for x in p]:
        if t.unk:
            return True
    return False
