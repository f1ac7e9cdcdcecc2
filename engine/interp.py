"""Abstract interpreter over MIR: computes, per function, the value (as a term over the entry
state) of its result and of every memory cell it writes, plus the path condition of normal
return.  Control flow merges at join points (decision diagrams), loops are summarised by
recurrence solving; calls to analysed functions are evaluated context-sensitively."""
from .facts import *
from .terms import *
from . import terms as TM
from .linear import entails, simplify, decide, facts_rows

PTR_ADTS = {"std::boxed::Box", "std::boxed::BoxRaw", "std::ptr::Unique", "std::ptr::NonNull"}
# single-field wrappers that denote the same value as their content
TRANSPARENT = {"std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::mem::MaybeDangling", "nalgebra::OPoint", "nalgebra::geometry::OPoint", "nalgebra::geometry::point::OPoint"}
XYZW = {"x": 0, "y": 1, "z": 2, "w": 3}


class Diverge(Exception):
    pass


class Budget(Exception):
    pass


SAFE = raw("safe")  # pseudo location: "no bounds check inside a finished loop has failed"


class State:
    __slots__ = ("pc", "cells", "fams")

    def __init__(self, pc, cells):
        self.pc = pc
        self.cells = cells

    def copy(self):
        return State(self.pc, dict(self.cells))


class Cfg:
    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.n = n
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            self.succ[i] = succs(b["t"])
        # reachable + rpo
        seen = set()
        post = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.reach = seen
        self.rpo_index = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in seen}
        for b in seen:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # blocks that can reach a return
        rets = [b for b in seen if "return" in bl[b]["t"]]
        canret = set(rets)
        work = list(rets)
        while work:
            b = work.pop()
            for p in self.pred[b]:
                if p not in canret:
                    canret.add(p)
                    work.append(p)
        self.canret = canret
        # dominators
        dom = {self.rpo[0]: self.rpo[0]}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in dom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    new = self._inter(dom, new, p)
                if dom.get(b) != new:
                    dom[b] = new
                    changed = True
        self.dom = dom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body_set = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body_set:
                            continue
                        body_set.add(x)
                        st.extend(self.pred[x])

    def _inter(self, dom, a, b):
        while a != b:
            while self.rpo_index[a] > self.rpo_index[b]:
                a = dom[a]
            while self.rpo_index[b] > self.rpo_index[a]:
                b = dom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            d = self.dom.get(b)
            if d is None or d == b:
                return False
            b = d


def succs(t):
    if "goto" in t:
        return [t["goto"]]
    if "switch" in t:
        return [x[1] for x in t["t"]] + [t["o"]]
    if "drop" in t:
        return [t["target"]]
    if "call" in t:
        return [t["target"]] if t["target"] is not None else []
    if "assert" in t:
        return [t["target"]]
    return []


class Frame:
    __slots__ = ("fn", "sub", "id", "interp", "body", "cfg", "promoted", "loop", "depth", "tycache", "prefix")

    def __init__(self, fn, body, cfg, sub, fid, promoted, depth):
        self.fn = fn
        self.body = body
        self.cfg = cfg
        self.sub = sub
        self.id = fid
        self.promoted = promoted
        self.loop = None
        self.depth = depth
        self.tycache = {}

    def ty(self, i):
        r = self.tycache.get(i)
        if r is None:
            r = subst_ty(self.fn.crate.ty(i), self.sub)
            self.tycache[i] = r
        return r


class LoopCtx:
    def __init__(self, header, uid):
        self.header = header
        self.uid = uid
        self.back = []


def ref(cell, *path):
    return norm_ref(cell, list(path))


def norm_ref(cell, path):
    """Normalise a location; a location inside a symbolic pointer without path is the pointer."""
    out = []
    for e in path:
        if out:
            l = out[-1]
            if e.op == "S" and l.op == "S":
                out[-1] = raw("S", add(l.a[0], e.a[0]), e.a[1])
                continue
            if e.op in ("I", "P") and l.op == "S":
                out[-1] = raw(e.op, add(l.a[0], e.a[0]))
                continue
            if e.op == "B" and l.op == "Tt" and e.a[0] == l.a[0]:
                out.pop()
                continue
            if e.op == "Tt" and l.op == "B" and e.a[0] == l.a[0]:
                out.pop()
                continue
            if e.op == "C" and l.op == "C" and e.a[2] == l.a[3] and e.a[3] == l.a[2]:
                out.pop()
                continue
        out.append(e)
    if cell.op == "D" and not out:
        return cell.a[0]
    return raw("ref", cell, *out)


def _reb_ref(c, *p):
    for i, x in enumerate((c,) + p):
        pass
    return norm_ref(c, list(p))


TM.REBUILD["ref"] = _reb_ref


def _reb_lift(op):
    def f(*a):
        return lift(lambda *ys: raw(op, *ys), *a)
    return f


def deref_cell(p):
    return raw("D", p)


def extend(ptr, *elems):
    def f(p):
        if p is DC:
            return DC
        if p.op == "ref":
            return norm_ref(p.a[0], list(p.a[1:]) + list(elems))
        if p.op == "unk":
            return unk(p.a[0])
        return norm_ref(deref_cell(p), list(elems))

    r = lift1(f, ptr)
    return r


def path_get(v, path):
    for e in path:
        v = elem_get(v, e)
    return v


def elem_get(v, e):
    o = e.op
    if o == "pf":
        return fld(v, e.a[0])
    if o == "pv":
        return vfld(v, e.a[0], e.a[1])
    if o == "S":
        return ssub(v, e.a[0], e.a[1])
    if o in ("I", "P"):
        return idx(v, e.a[0])
    if o == "PT":
        n = size_of(e.a[1])
        return frombytes(ssub(v, e.a[0], sizeof_term(e.a[1])), e.a[1])
    if o == "K":
        return mapget(v, e.a[0])
    if o == "B":
        return tobytes(v, e.a[0])
    if o == "Tt":
        return frombytes(v, e.a[0])
    if o == "C":
        return castseq(v, *e.a)
    if o == "V":
        return v
    return unk("path " + o)


sizeof_term = TM.size_of


def elem_set(v, e, new):
    o = e.op
    if o == "pf":
        return with_fld(v, e.a[0], new)
    if o == "pv":
        return lift1(lambda x: with_fld(x, e.a[1], new) if x.op == "adt" else (x if x is DC else raw("vwith", x, e.a[0], e.a[1], new)), v)
    if o == "S":
        return supd(v, e.a[0], e.a[1], new)
    if o in ("I", "P"):
        return iset(v, e.a[0], new)
    if o == "PT":
        return supd(v, e.a[0], sizeof_term(e.a[1]), tobytes(new, e.a[1]))
    if o == "K":
        return mapset(v, e.a[0], new)
    if o == "B":
        return frombytes(new, e.a[0])
    if o == "Tt":
        return tobytes(new, e.a[0])
    if o == "C":
        s, d, st, dt = e.a
        return castseq(new, d, s, dt, st)
    return unk("setpath " + o)


def path_set(v, path, new):
    if not path:
        return new
    e = path[0]
    if len(path) == 1:
        return elem_set(v, e, new)
    return elem_set(v, e, path_set(elem_get(v, e), path[1:], new))


class Interp:
    def __init__(self, prog, opaque=None, models=None, roles=None, max_depth=40, budget=200000):
        self.prog = prog
        self.opaque = opaque or (lambda fn: False)
        self.models = models
        self.roles = roles or {}
        self.max_depth = max_depth
        self.budget = budget
        self.steps = 0
        self.uid = 0
        self.stack = []
        self.iters = []  # iteration counters of the loops being evaluated
        self.events = []  # generic log (unmodelled calls ...)
        self.opaque_seen = set()
        self.inlined = set()
        self.closures = {}
        self.exts = {}  # reference to an iterator -> its type
        self.hooks = None
        for p, a in prog.adts.items():
            if a["kind"] == "enum":
                for i, v in enumerate(a["v"]):
                    TM.VARIANT_NAMES[(p, i)] = v["n"]

    # ---------------------------------------------------------------- helpers
    def fresh(self):
        self.uid += 1
        return self.uid

    def role(self, adtp, name):
        return self.roles.get((adtp, name), name)

    def typed(self, v, ty):
        if ty is None:
            return v
        if ty == ("prim", "bool"):
            return mk_bv(v)
        if ty[0] == "prim" and ty[1] in UNSIGNED_PRIMS:
            for l in leaves(v):
                if l.op not in ("num", "int"):
                    TM.UNSIGNED.add(l)
            return v
        return v

    def load(self, st, ptr, ty=None):
        def f(p):
            if p is DC:
                return DC
            if p.op == "ref":
                return path_get(self.cell(st, p.a[0]), p.a[1:])
            if p.op == "unk":
                return unk(p.a[0])
            return self.cell(st, deref_cell(p))

        return self.typed(lift1(f, ptr), ty)

    def cell(self, st, c):
        v = st.cells.get(c)
        if v is not None:
            return v
        if c.op == "D":
            return self.default(c.a[0])
        return unk("uninit")

    def default(self, p):
        if p.op == "fam":
            return raw("*", p)
        if p.op == "str":
            return p
        return lift1(lambda x: raw("*", x), p)

    def store(self, st, ptr, v):
        if ptr.op == "ite":
            c = ptr.a[0]
            for cond, l in cond_leaves(ptr):
                if l is DC:
                    continue
                old = self.load(st, l)
                self.store(st, l, ite(cond, v, old))
            return
        if ptr is DC:
            return
        if ptr.op == "ref":
            c = ptr.a[0]
            st.cells[c] = path_set(self.cell(st, c), list(ptr.a[1:]), v)
        elif ptr.op == "unk":
            self.event("store-unknown", ptr.a[0])
        else:
            st.cells[deref_cell(ptr)] = v

    def event(self, kind, what):
        self.events.append((kind, str(what)))

    def assume(self, st, cond):
        if cond is TRUE:
            return
        if cond is DC:
            return
        c = simplify(cond, st.pc)
        if c is FALSE:
            raise Diverge()
        st.pc = band(st.pc, c)
        if st.pc is FALSE:
            raise Diverge()

    # conditional evaluation: both alternatives on copies, merged into st; returns merged value
    def branch(self, st, cond, f_then, f_else):
        cond = simplify(cond, st.pc)
        if cond is TRUE or cond is DC:
            return f_then(st)
        if cond is FALSE:
            return f_else(st)
        base = st.pc
        s1, s2 = st.copy(), st.copy()
        s1.pc = band(base, cond)
        s2.pc = band(base, bnot(cond))
        r1 = r2 = None
        if s1.pc is not FALSE:
            try:
                r1 = f_then(s1)
            except Diverge:
                s1 = None
        else:
            s1 = None
        if s2.pc is not FALSE:
            try:
                r2 = f_else(s2)
            except Diverge:
                s2 = None
        else:
            s2 = None
        if s1 is None and s2 is None:
            raise Diverge()
        if s2 is None:
            st.pc, st.cells = s1.pc, s1.cells
            return r1
        if s1 is None:
            st.pc, st.cells = s2.pc, s2.cells
            return r2
        m = self.merge([(s1.pc, s1, r1), (s2.pc, s2, r2)])
        st.pc, st.cells = m[0], m[1].cells
        return m[2]

    def merge(self, edges):
        """edges: (pc, state, value) with disjoint pcs -> (pc, state, value)"""
        if len(edges) == 1:
            pc, s, v = edges[0]
            return pc, s, v
        pc, s, v = edges[-1]
        for pc1, s1, v1 in reversed(edges[:-1]):
            tot = bor(pc1, pc)
            c = constrain(pc1, tot)
            cells = {}
            for k in s.cells.keys() | s1.cells.keys():
                a = s1.cells.get(k)
                b = s.cells.get(k)
                if a is b:
                    cells[k] = a
                    continue
                if a is None or b is None:
                    if k.op == "D":
                        d = self.default(k.a[0])
                        a = a or d
                        b = b or d
                    else:
                        # local initialised on one side only: dead on the other
                        cells[k] = a or b
                        continue
                cells[k] = ite(c, a, b)
            if v1 is not None and v is not None:
                v = ite(c, v1, v)
            elif v is None:
                v = v1
            pc = tot
            s = State(pc, cells)
        return pc, s, v

    # ---------------------------------------------------------------- places and operands
    def local(self, fr, i):
        return raw("loc", fr.id, i)

    def place(self, fr, st, pl):
        """-> (pointer term, type)"""
        l, proj = pl
        ptr = ref(self.local(fr, l))
        ty = fr.ty(fr.body["locals"][l])
        variant = None
        for e in proj:
            if e == "*":
                v = self.load(st, ptr)
                if ty[0] == "adt" and ty[1] in PTR_ADTS:
                    ty2 = ty[2][0]
                elif ty[0] in ("ref", "ptr"):
                    ty2 = ty[2]
                else:
                    ty2 = None
                ptr = v
                ty = ty2
                continue
            if "f" in e:
                fty = fr.ty(e["t"])
                if ty is not None and ty[0] == "adt" and (ty[1] in PTR_ADTS or ty[1] in TRANSPARENT):
                    ty = fty
                    continue
                if ty is not None and ty[0] == "adt" and "::coordinates::" in ty[1]:
                    fs = self.prog.adt_fields(ty[1], 0)
                    nm = fs[e["f"]][0] if fs else "xyzw"[e["f"]]
                    ptr = extend(ptr, raw("I", num(XYZW.get(nm, e["f"]))))
                    ty = fty
                    continue
                if ty is not None and ty[0] == "adt":
                    fs = self.prog.adt_fields(ty[1], variant or 0)
                    name = fs[e["f"]][0] if fs and e["f"] < len(fs) else str(e["f"])
                    name = self.role(ty[1], name)
                    if variant is not None:
                        ptr = extend(ptr, raw("pv", variant, name))
                    else:
                        ptr = extend(ptr, raw("pf", name))
                else:
                    ptr = extend(ptr, raw("pf", str(e["f"])))
                ty = fty
                variant = None
                continue
            if "v" in e:
                variant = e["v"]
                continue
            if "i" in e:
                iv = self.load(st, ref(self.local(fr, e["i"])), ("prim", "usize"))
                ptr = extend_lift(ptr, "I", iv)
                ty = ty[1] if ty and ty[0] in ("slice", "array") else None
                continue
            if "ci" in e:
                c = num(e["ci"])
                if e["end"] is True or e["end"] == "true":
                    c = sub(slen(self.load(st, ptr)), c)
                ptr = extend_lift(ptr, "I", c)
                ty = ty[1] if ty and ty[0] in ("slice", "array") else None
                continue
            if "sub" in e:
                n = slen(self.load(st, ptr))
                frm = num(e["sub"])
                if e["end"] is True or e["end"] == "true":
                    ln = sub(sub(n, num(e["to"])), frm)
                else:
                    ln = num(e["to"] - e["sub"])
                ptr = extend_lift(ptr, "S", frm, ln)
                continue
            ptr = unk("proj " + str(e))
            ty = None
        return ptr, ty

    def operand(self, fr, st, o):
        if "p" in o:
            ptr, ty = self.place(fr, st, o["p"])
            v = self.load(st, ptr, ty)
            return v, ty
        if "c" in o:
            return self.const(fr, st, o["c"])
        return unk("operand"), None

    def const(self, fr, st, c):
        ty = fr.ty(c["ty"])
        return self.const_val(fr, st, c, ty), ty

    def const_val(self, fr, st, c, ty):
        if "promoted" in c:
            owner = self.prog.fns.get(c["owner"]) or self.prog.consts.get(c["owner"])
            if owner is None:
                return unk("promoted")
            body = (owner.promoted if isinstance(owner, Fn) else owner["promoted"])[c["promoted"]]
            crate = owner.crate if isinstance(owner, Fn) else owner["crate"]
            key_ = ("prom", c["owner"], c["promoted"])
            f = FakeFn(crate, body, f"{c['owner']}#promoted{c['promoted']}")
            sub = dict(fr.sub)
            fid = f"{c['owner']}#p{c['promoted']}"
            return self.run_body(f, body, [], st, sub, fid, fr.depth + 1, keep=True)
        if "int" in c:
            v = int(c["int"])
            if ty == ("prim", "bool"):
                return TRUE if v else FALSE
            if is_int(ty) or ty == ("prim", "char"):
                return num(v)
            if is_float(ty):
                return raw("fc", float_text(v, ty[1]))
            if ty[0] == "adt":
                return self.adt_from_bits(ty, v)
            return raw("bits", v, ty_str(ty))
        if "str" in c:
            return raw("str", c["str"])
        if ty[0] == "fndef":
            return self.fnval(ty)
        if c.get("zst"):
            if ty == ("tuple", ()):
                return UNIT
            if ty[0] == "closure":
                return self.closure_val(ty, [])
            if ty[0] == "adt":
                return adt(ty[1], 0, [])
            return raw("zst", ty_str(ty))
        if "static" in c:
            return raw("static", canon(c["static_path"]).split("::")[-1])
        if "bytes" in c:
            b = bytes(int(x) for x in c["bytes"])
            t = ty
            if t[0] == "ref":
                t2 = t[2]
                if t2[0] in ("slice", "array") and t2[1] == ("prim", "u8"):
                    cell = raw("constcell", b.hex())
                    st.cells[cell] = raw("arr", *[num(x) for x in b])
                    return ref(cell)
            if t[0] == "array" and is_int(t[1]):
                n = PRIM_SIZE[t[1][1]]
                return raw("arr", *[num(int.from_bytes(b[i:i + n], "little", signed=not is_unsigned(t[1]))) for i in range(0, len(b), n)])
            return raw("constbytes", b.hex(), ty_str(ty))
        if "name" in c:
            sub = []
            for a in c.get("args", []):
                sub.append(subst_ty(fr.fn.crate.arg(a), fr.sub))
            return self.named_const(fr, st, c, ty, sub)
        if "tyconst" in c:
            s = c["tyconst"]
            m = fr.sub.get(s)
            if m is not None and m[0] == "const" and m[1].isdigit():
                return num(int(m[1]))
            if s.isdigit():
                return num(int(s))
            v = raw("constparam", m[1] if m else s)
            return self.typed(v, ty)
        return raw("constval", ty_str(ty))

    def named_const(self, fr, st, c, ty, sub):
        cid = c["id"]
        # trait associated const with a concrete Self
        parts = canon(c["name"])
        m = re.match(r"(.*)::(\w+)$", parts)
        x = self.prog.consts.get(cid)
        if x is not None and "int" in x and (is_int(ty)):
            return num(int(x["int"]))
        tr = m.group(1) if m else None
        if tr and tr in self.prog.traits and sub:
            v = self.hooks.assoc_const(self, tr, m.group(2), sub) if self.hooks else None
            if v is not None:
                return v
        return self.typed(raw("const", parts, *[ty_str(s) for s in sub]), ty)

    def adt_from_bits(self, ty, v):
        a = self.prog.adts.get(ty[1])
        if a and a["kind"] == "enum":
            for i, var in enumerate(a["v"]):
                if var["d"] is not None and int(var["d"]) == v and not var["f"]:
                    return adt(ty[1], i, [])
        if a and a["kind"] == "struct":
            fs = a["v"][0]["f"]
            if len(fs) == 1:
                ft = subst_ty(a["crate"].ty(fs[0]["t"]), dict(zip([g[0] for g in a["g"]], ty[2])))
                if is_int(ft):
                    return adt(ty[1], 0, [(self.role(ty[1], fs[0]["n"]), num(v))])
                if is_float(ft):
                    return adt(ty[1], 0, [(self.role(ty[1], fs[0]["n"]), raw("fc", float_text(v, ft[1])))])
        return raw("bits", v, ty_str(ty))

    def fnval(self, ty):
        k = "fn:" + ty[1] + ":" + repr(ty[3])
        self.closures[k] = ty
        return raw("fnval", k)

    def closure_val(self, ty, caps):
        k = "cl:" + ty[1] + ":" + repr(ty[2])
        self.closures[k] = ty
        return raw("closure", k, *caps)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, rv, dest_ty):
        if "use" in rv:
            return self.operand(fr, st, rv["use"])[0]
        if "ref" in rv:
            return self.place(fr, st, rv["ref"])[0]
        if "rawptr" in rv:
            return self.place(fr, st, rv["rawptr"])[0]
        if "repeat" in rv:
            v = self.operand(fr, st, rv["repeat"])[0]
            n = rv["n"]
            if n is None:
                m = fr.sub.get(rv["ns"])
                n = int(m[1]) if m and m[0] == "const" and m[1].isdigit() else None
            if n is None:
                return raw("rep", v, self.typed(raw("constparam", rv["ns"]), ("prim", "usize")))
            return raw("rep", v, num(n))
        if "cast" in rv:
            v, ty = self.operand(fr, st, rv["o"])
            return self.cast(st, rv["cast"], v, ty, fr.ty(rv["t"]))
        if "bin" in rv:
            a, ta = self.operand(fr, st, rv["a"])
            b, tb = self.operand(fr, st, rv["b"])
            r = self.binop(rv["bin"], a, b, ta)
            if rv["bin"].endswith("WithOverflow"):
                return tup(r, self.overflow(st, rv["bin"], ta, a, b, r))
            return r
        if "un" in rv:
            a, ta = self.operand(fr, st, rv["o"])
            if rv["un"] == "Not":
                if ta == ("prim", "bool"):
                    return bnot(mk_bv(a))
                return self.bits("not", ta, a)
            if rv["un"] == "Neg":
                if ta and is_float(ta):
                    return lift1(lambda x: neg_f(x), a)
                return neg(a)
            if rv["un"] == "PtrMetadata":
                return self.typed(slen(self.load(st, a)), ("prim", "usize"))
            return unk("un " + rv["un"])
        if "discr" in rv:
            ptr, ty = self.place(fr, st, rv["discr"])
            v = self.load(st, ptr)
            return self.discr(v, ty)
        if "agg" in rv:
            k = rv["agg"]
            ops = [self.operand(fr, st, o) for o in rv["ops"]]
            vals = [o[0] for o in ops]
            if k["k"] == "array":
                return raw("arr", *vals)
            if k["k"] == "tuple":
                return tup(*vals)
            if k["k"] == "adt":
                p = canon(k["p"])
                fs = self.prog.adt_fields(p, k["v"])
                names = [self.role(p, f[0]) for f in fs] if fs else [str(i) for i in range(len(vals))]
                if p in PTR_ADTS and len(vals) >= 1:
                    return vals[0]
                return adt(p, k["v"], list(zip(names, vals)))
            if k["k"] == "closure":
                ty = ("closure", k["id"], tuple(fr.ty(x) for x in k["a"]), ())
                return self.closure_val(ty, vals)
            if k["k"] == "rawptr":
                return unk("rawptr agg")
            return unk("agg")
        if "other" in rv:
            return unk("rvalue")
        if "tls" in rv:
            return raw("static", rv["tls"])
        return unk("rvalue?")

    def discr(self, v, ty):
        path = ty[1] if ty and ty[0] == "adt" else None
        info = self.prog.adts.get(path)

        def f(x):
            if x is DC:
                return DC
            if x.op == "adt" and info:
                d = info["v"][x.a[1]]["d"]
                return num(int(d)) if d is not None else num(x.a[1])
            return raw("discr", x, path or "?")

        return lift1(f, v)

    def switch_cond(self, v, val, ty):
        """Boolean term for v == val where v is a switch operand."""

        def f(x):
            if x is DC:
                return DC
            if x.op == "discr":
                path = x.a[1]
                info = self.prog.adts.get(path)
                vi = None
                if info:
                    for i, var in enumerate(info["v"]):
                        if var["d"] is not None and int(var["d"]) == val:
                            vi = i
                else:
                    vi = val
                if vi is None:
                    return FALSE
                return is_variant(x.a[0], vi, path)
            return eq(x, num(val))

        return lift1(f, v)

    def bits(self, op, ty, *a):
        def f(*xs):
            if all(x.op == "num" for x in xs):
                vs = [x.a[0] for x in xs]
                w = INT_BITS.get(ty[1], 64) if ty else 64
                mask = (1 << w) - 1
                r = None
                if op == "and":
                    r = vs[0] & vs[1]
                elif op == "or":
                    r = vs[0] | vs[1]
                elif op == "xor":
                    r = vs[0] ^ vs[1]
                elif op == "shl":
                    r = (vs[0] << vs[1]) & mask
                elif op == "shr":
                    r = vs[0] >> vs[1]
                elif op == "not":
                    r = (~vs[0]) & mask if ty and is_unsigned(ty) else ~vs[0]
                if r is not None:
                    return num(r)
            if op == "shr" and xs[1].op == "num" and ty and is_unsigned(ty):
                return div(xs[0], num(1 << xs[1].a[0]))
            if op == "shl" and xs[1].op == "num" and ty and ty[1] in ("usize", "u64", "i64"):
                return mul(xs[0], num(1 << xs[1].a[0]))
            if op in ("and", "or", "xor") and key(xs[1]) < key(xs[0]):
                xs = (xs[1], xs[0])
            if op == "and" and xs[0].op == "num" and ty and is_unsigned(ty):
                m = xs[0].a[0] + 1
                if m & (m - 1) == 0:
                    return rem(xs[1], num(m))
            if op == "not" and ty and ty[1] in INT_BITS:
                return sub(num((1 << INT_BITS[ty[1]]) - 1 if is_unsigned(ty) else -1), xs[0])
            r = raw("bit_" + op, *xs)
            return r

        r = lift(f, *a)
        return self.typed(r, ty)

    def binop(self, op, a, b, ty):
        op = op.replace("Unchecked", "")
        flt_ = ty is not None and is_float(ty)
        if ty == ("prim", "bool"):
            a, b = mk_bv(a), mk_bv(b)
            if op == "BitAnd":
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            if op in ("BitXor", "Ne"):
                return ite(a, bnot(b), b)
            if op == "Eq":
                return ite(a, b, bnot(b))
            if op in ("Lt", "Gt"):
                return band(bnot(a), b) if op == "Lt" else band(a, bnot(b))
            if op in ("Le", "Ge"):
                return bor(bnot(a), b) if op == "Le" else bor(a, bnot(b))
        if flt_:
            if op in ("Add", "Sub", "Mul", "Div"):
                return fop({"Add": "f+", "Sub": "f-", "Mul": "f*", "Div": "f/"}[op], a, b)
            if op == "Lt":
                return flt(a, b)
            if op == "Gt":
                return flt(b, a)
            if op == "Le":
                return fle(a, b)
            if op == "Ge":
                return fle(b, a)
            if op == "Eq":
                return feq(a, b)
            if op == "Ne":
                return bnot(feq(a, b))
            return lift(lambda x, y: raw("f" + op, x, y), a, b)
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op == "Div":
            return self.typed(div(a, b), ty)
        if op == "Rem":
            return self.typed(rem(a, b), ty)
        if op == "BitAnd":
            return self.bits("and", ty, a, b)
        if op == "BitOr":
            return self.bits("or", ty, a, b)
        if op == "BitXor":
            return self.bits("xor", ty, a, b)
        if op == "Shl":
            return self.bits("shl", ty, a, b)
        if op == "Shr":
            return self.bits("shr", ty, a, b)
        if op in ("Eq", "Ne"):
            if ty is not None and ty[0] == "ptr":
                r = raw("bv", raw("ptreq", *sorted([a, b], key=key)))
            else:
                r = deq(a, b)
            return r if op == "Eq" else bnot(r)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if ty is not None and (is_int(ty) or ty == ("prim", "char")):
                if op == "Lt":
                    return lt(a, b)
                if op == "Le":
                    return le(a, b)
                if op == "Gt":
                    return lt(b, a)
                return le(b, a)
            return unk("cmp")
        if op.endswith("WithOverflow"):
            return self.binop(op[: -len("WithOverflow")], a, b, ty)
        if op == "Offset":
            return ptr_add(a, b)
        if op == "Cmp":
            return ordering(a, b)
        return unk("bin " + op)

    def overflow(self, st, op, ty, a, b, r):
        """the condition under which checked arithmetic panics: subtraction below zero, sums with
        an integer parameter (which a caller may choose as large as the type allows), and all
        arithmetic on types of at most 16 bits"""
        if ty is None or not is_int(ty) or ty[1] not in INT_BITS:
            return FALSE
        w = INT_BITS[ty[1]]
        u = is_unsigned(ty)
        if u and op == "SubWithOverflow":
            return FALSE if b.op == "rem" and b.a[1] is a else lt(a, b)
        hi = (1 << w) - 1 if u else (1 << (w - 1)) - 1
        if w <= 16:
            c = lt(num(hi), r)
            return c if u else bor(c, lt(r, num(-hi - 1)))
        if op == "AddWithOverflow" and u and any(is_param(x) for x in (a, b)):
            seen = 0
            for x in TM.subterms(st.pc):
                if x.op in ("fld", "len", "call") and seen < 12:
                    seen += 1
                    if entails(st.pc, le(r, x)):
                        return FALSE
            return lt(num(hi), r)
        return FALSE

    def cast(self, st, kind, v, fty, tty):
        if kind.startswith("PointerCoercion"):
            if "ReifyFn" in kind or "ClosureFn" in kind or "Unsize" in kind or "Mut" in kind:
                return v
            return v
        if kind == "PtrToPtr":
            return self.ptr_cast(v, fty, tty)
        if kind in ("Transmute", "BoxDerefTransmute"):
            pf = fty is not None and (fty[0] in ("ref", "ptr") or (fty[0] == "adt" and fty[1] in PTR_ADTS))
            pt = tty[0] in ("ref", "ptr") or (tty[0] == "adt" and tty[1] in PTR_ADTS)
            if pf and pt:
                return v
            if fty == tty:
                return v
            return lift1(lambda x: raw("transmute", x, ty_str(fty), ty_str(tty)), v)
        if kind == "IntToInt":
            if fty == ("prim", "bool"):
                return ite(v, ONE, ZERO)
            if fty and fty[0] == "adt":
                return v
            if fty and is_int(fty) and is_int(tty):
                wf, wt = INT_BITS[fty[1]], INT_BITS[tty[1]]
                uf, ut = is_unsigned(fty), is_unsigned(tty)
                if wt > wf and (uf or not ut):
                    return v
                if wt == wf and uf == ut:
                    return v

                def f(x):
                    if x.op == "num":
                        n = x.a[0]
                        n &= (1 << wt) - 1
                        if not ut and n >= 1 << (wt - 1):
                            n -= 1 << wt
                        return num(n)
                    if x.op == "discr":
                        return x
                    return raw("cast", x, tty[1])

                r = lift1(f, v)
                return self.typed(r, tty)
            if fty == ("prim", "char"):
                return lift1(lambda x: x if x.op == "num" else raw("cast", x, tty[1]), v)
            return lift1(lambda x: raw("cast", x, ty_str(tty)), v)
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            if fty == tty:
                return v
            def g(x):
                if kind == "IntToFloat" and x.op == "num" and abs(x.a[0]) < 2 ** 53:
                    return raw("fc", repr(float(x.a[0])))
                return raw("conv", x, ty_str(fty), ty_str(tty))
            r = lift1(g, v)
            return self.typed(r, tty)
        if kind == "Subtype":
            return v
        return unk("cast " + kind)

    def ptr_cast(self, v, fty, tty):
        if fty is None or fty[0] not in ("ptr", "ref") or tty[0] != "ptr":
            return v
        a, b = fty[2], tty[2]
        if a == b:
            return v
        def f(p):
            if p.op == "ref" and len(p.a) > 1:
                e = p.a[-1]
                rest = list(p.a[1:-1])
                if e.op == "P" and a == ("prim", "u8"):
                    return norm_ref(p.a[0], rest + [raw("PT", e.a[0], ty_str(b))])
                if e.op == "PT" and b == ("prim", "u8"):
                    return norm_ref(p.a[0], rest + [raw("P", e.a[0])])
            if b == ("prim", "u8") and a[0] not in ("slice",):
                return extend(p, raw("B", ty_str(a)), raw("P", ZERO))
            if b[0] == "slice" or a[0] == "slice":
                return p if a[0] == b[0] else (extend(p, raw("P", ZERO)) if a[0] == "slice" else p)
            if a == ("prim", "u8"):
                return raw("ptrcast", p, ty_str(b))
            return raw("ptrcast", p, ty_str(b))
        return lift1(f, v)

    # ---------------------------------------------------------------- functions
    def run_fn(self, fn, args, st, sub, fid, depth):
        return self.run_body(fn, fn.body, args, st, sub, fid, depth)

    def run_body(self, fn, body, args, st, sub, fid, depth, keep=False):
        """Evaluate a body; mutates st to the merged exit state; returns the result value.
        Raises Diverge when no normal return is possible."""
        if depth > self.max_depth:
            self.event("depth", fn.id)
            return unk("depth")
        cfg = cfg_of(fn, body)
        fr = Frame(fn, body, cfg, sub, fid, None, depth)
        for i, a in enumerate(args):
            st.cells[self.local(fr, i + 1)] = a
        self.stack.append(fn.id)
        try:
            rets = self.region(fr, set(cfg.reach), 0, [(st.pc, st.copy())], None)[1]
        finally:
            self.stack.pop()
        if not rets:
            raise Diverge()
        edges = []
        rl = self.local(fr, 0)
        for pc, s in rets:
            rv = s.cells.get(rl)
            if rv is None:
                rv = UNIT
            edges.append((pc, s, rv))
        pc, s, v = self.merge(edges)
        cells = s.cells
        if not keep:
            pre = fid
            dead = [c for c in cells if c.op == "loc" and c.a[0] == pre]
            # locals whose address escapes through the result stay alive (temporaries)
            live = set()
            stack = [v]
            for x in subterms(v):
                if x.op == "ref" and x.a[0].op == "loc":
                    live.add(x.a[0])
            for c in dead:
                if c not in live:
                    cells = dict(cells) if cells is s.cells else cells
                    cells.pop(c, None)
        st.pc = pc
        st.cells = cells
        return v

    def region(self, fr, blocks, entry, entry_edges, loop):
        """Evaluate the blocks of a region from `entry`.
        Returns (back edges to the loop header, return edges, exit edges)."""
        cfg = fr.cfg
        inc = {entry: list(entry_edges)}
        rets = []
        exits = []
        back = []
        done = set()
        order = [b for b in cfg.rpo if b in blocks]
        prev = fr.loop
        for b in order:
            if b in done or b not in inc:
                continue
            edges = inc.pop(b)
            edges = [(pc, s) for pc, s in edges if pc is not FALSE]
            if not edges:
                continue
            if len(edges) > 1:
                pc, s, _ = self.merge([(p, q, None) for p, q in edges])
            else:
                pc, s = edges[0]
            s = s.copy()
            s.pc = pc
            if b in cfg.loops and not (loop is not None and loop.header == b):
                lb = cfg.loops[b] & blocks
                done |= lb
                for kind, tgt, pc2, s2 in self.loop(fr, b, lb, s):
                    if kind == "ret":
                        rets.append((pc2, s2))
                    elif tgt in blocks and not (loop is not None and tgt == loop.header):
                        inc.setdefault(tgt, []).append((pc2, s2))
                    elif loop is not None and tgt == loop.header:
                        back.append((pc2, s2))
                    else:
                        exits.append((tgt, pc2, s2))
                continue
            done.add(b)
            fr.loop = loop
            for tgt, pc2, s2 in self.block(fr, b, s):
                if tgt == "ret":
                    rets.append((pc2, s2))
                elif loop is not None and tgt == loop.header:
                    back.append((pc2, s2))
                elif tgt in blocks:
                    inc.setdefault(tgt, []).append((pc2, s2))
                else:
                    exits.append((tgt, pc2, s2))
        fr.loop = prev
        if loop is not None:
            back.extend(loop.back)
            loop.back = []
        return back, rets, exits

    def block(self, fr, b, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        blk = fr.body["blocks"][b]
        for s in blk["s"]:
            pl, rv = s[0], s[1]
            if pl is None:
                continue
            if "setdiscr" in rv:
                self.store(st, self.place(fr, st, pl)[0], unk("setdiscr"))
                continue
            v = self.rvalue(fr, st, rv, None)
            if not pl[1]:
                ty = fr.ty(fr.body["locals"][pl[0]])
                v = self.typed(v, ty)
                st.cells[self.local(fr, pl[0])] = v
            else:
                ptr, ty = self.place(fr, st, pl)
                self.store(st, ptr, self.typed(v, ty))
        t = blk["t"]
        cfg = fr.cfg
        if "goto" in t:
            return [(t["goto"], st.pc, st)]
        if "return" in t:
            return [("ret", st.pc, st)]
        if "drop" in t:
            return [(t["target"], st.pc, st)]
        if "switch" in t:
            v, ty = self.operand(fr, st, t["switch"])
            out = []
            rest = TRUE
            conds = []
            if fr.ty(t["ty"]) == ("prim", "bool"):
                c = mk_bv(v)
                for val, tgt in t["t"]:
                    cc = c if int(val) else bnot(c)
                    conds.append((cc, tgt))
                    rest = band(rest, bnot(cc))
            else:
                for val, tgt in t["t"]:
                    cc = band(rest, self.switch_cond(v, int(val), ty))
                    if cc.op == "dc" or cc is DC:
                        cc = FALSE
                    conds.append((cc, tgt))
                    rest = band(rest, bnot(cc))
            ot = t["o"]
            # an unreachable otherwise block: the last listed alternative is implied
            if "unreachable" in fr.body["blocks"][ot]["t"] and conds:
                cc, tgt = conds[-1]
                conds[-1] = (bor(cc, rest), tgt)
            else:
                conds.append((rest, ot))
            for cc, tgt in conds:
                if tgt not in cfg.canret:
                    continue
                cc = simplify(cc, st.pc)
                if cc is FALSE or cc is DC:
                    continue
                pc = band(st.pc, cc)
                if pc is FALSE:
                    continue
                s2 = st.copy()
                s2.pc = pc
                out.append((tgt, pc, s2))
            # merge edges to the same target happens at the target
            return out
        if "assert" in t:
            v, ty = self.operand(fr, st, t["assert"])
            c = mk_bv(v)
            if not (t["exp"] is True or t["exp"] == "true"):
                c = bnot(c)
            if self.hooks:
                self.hooks.on_assert(self, fr, st, t, c)
            try:
                self.assume(st, c)
            except Diverge:
                return []
            return [(t["target"], st.pc, st)]
        if "call" in t:
            if t["target"] is not None and t["target"] not in cfg.canret:
                pass
            try:
                v = self.call(fr, b, st, t)
            except Diverge:
                return []
            if t["target"] is None:
                return []
            ptr, ty = self.place(fr, st, t["dest"])
            self.store(st, ptr, self.typed(v, ty))
            if t["target"] not in cfg.canret:
                return []
            return [(t["target"], st.pc, st)]
        return []

    # ---------------------------------------------------------------- loops
    def loop(self, fr, header, blocks, st):
        exits_tag = {}

        def body(s, lc):
            back, rets, exits = self.region(fr, blocks, header, [(s.pc, s)], lc)
            ex = [("exit", tgt, pc, s2) for tgt, pc, s2 in exits] + [("ret", None, pc, s2) for pc, s2 in rets]
            return back, ex

        return self.run_loop(st, body, f"{fr.id}:{header}", header)

    def run_loop(self, st, body, name, header=None):
        """body(state at header, loop ctx) -> (back edges [(pc,state)], exits [(kind,tgt,pc,state)])
        Returns list of exits (kind, tgt, pc, state) after the loop."""
        uid = self.fresh()
        k = raw("kv", uid)
        pc_in = st.pc
        entry = st.cells
        # phi leaves: (cell, path) -> index ; kinds
        phis = []  # list of [cell, path, init, kind, step]
        index = {}
        back = exits = None
        for rnd in range(12):
            # fresh loop variables per round: tests are ordered by their position in the program
            uid = self.fresh()
            k = raw("kv", uid)
            s0 = State(pc_in, dict(entry))
            for i, (c, path, init, kind, step) in enumerate(phis):
                if kind == "ind":
                    t = add(init, mul(step, k))
                else:
                    t = self.phi_term(uid, i, init)
                s0.cells[c] = leaf_set(s0.cells[c], path, t)
            base = dict(s0.cells)
            lc = LoopCtx(header, uid)
            self.iters.append(k)
            try:
                back, exits = body(s0, lc)
            finally:
                self.iters.pop()
            back = [(pc, s) for pc, s in back if pc is not FALSE]
            if not back:
                break
            bpc, bs, _ = self.merge([(pc, s, None) for pc, s in back])
            changed = False
            keys = list(base.keys()) + [c for c in bs.cells if c.op == "D" and c not in base]
            for c in keys:
                a = base.get(c)
                if a is None:
                    a = self.default(c.a[0])
                    if uid in c.temps:
                        continue
                    entry = dict(entry)
                    entry[c] = a
                bv = bs.cells.get(c)
                if bv is None or bv is a:
                    # check ind phis stay consistent
                    pass
                if bv is None:
                    continue
                init_v = entry[c]
                known = {p: i for (cc, p), i in index.items() if cc is c}
                for path, iv, cur, nxt in diff_leaves(init_v, a, bv, known):
                    nxt = constrain(nxt, bpc)
                    j = index.get((c, path))
                    if j is not None:
                        ph = phis[j]
                        if ph[3] == "ind":
                            want = add(ph[2], mul(ph[4], add(k, ONE)))
                            if nxt is not want:
                                ph[3] = "sym"
                                ph[4] = None
                                changed = True
                        elif ph[3] == "new":
                            # first evaluation with a symbolic phi: try induction
                            p = self.phi_term(uid, j, ph[2])
                            d = sub_safe(nxt, p)
                            if d is not None and uid not in d.temps and d.op != "ite":
                                ph[3] = "ind"
                                ph[4] = d
                                changed = True
                            else:
                                ph[3] = "sym"
                    else:
                        if nxt is cur:
                            continue
                        index[(c, path)] = len(phis)
                        phis.append([c, path, iv, "new", None])
                        changed = True
                # ind phis not reported as different
            if not changed:
                for ph in phis:
                    if ph[3] == "new":
                        ph[3] = "sym"
                break
        else:
            self.event("loop-fixpoint", name)
            # give up: every modified location becomes unknown
            for ph in phis:
                pass
            out = []
            for kind, tgt, pc, s in exits:
                s2 = s.copy()
                for c in list(s2.cells):
                    if uid in s2.cells[c].temps:
                        s2.cells[c] = unk("loop")
                s2.pc = pc_in
                out.append((kind, tgt, pc_in, s2))
            return out[:1]
        # relative conditions
        exits = [(kd, tgt, pc, s) for kd, tgt, pc, s in exits if pc is not FALSE]
        if not back:
            return exits
        comps = []
        for i, (c, path, init, kind, step) in enumerate(phis):
            nxt = constrain(leaf_get(bs.cells[c], path), bpc)
            comps.append((init, nxt))
        ex = [(kd, tgt, constrain(pc, pc_in), s) for kd, tgt, pc, s in exits]
        # writes through an address that varies with the iteration
        fams = []
        for c, v in bs.cells.items():
            if c.op == "D" and uid in c.temps and c not in entry:
                v = constrain(v, bpc)
                if v is self.default(c.a[0]):
                    continue
                fams.append((c.a[0], v))
        fams.sort(key=lambda cv: TM.key(cv[0]))
        if fams:
            famterms = []
            for p, v in fams:
                m = {}
                for j in set(phis_in(p, uid)) | set(phis_in(v, uid)):
                    m[raw("phi", uid, j)] = TM.mk_rec(uid, k, comps, j)
                p, v = subst(p, m), subst(v, m)
                h = max(p.hb, v.hb) + 1
                mk = {k: raw("bk", h)}
                famterms.append((h, subst(p, mk), subst(v, mk)))
            for kd, tgt, c, s in ex:
                s.fams = famterms
        bcond = constrain(bpc, pc_in)
        N = bcond
        for e in ex:
            N = bor(N, e[2])
        total_exit = bnot(constrain(bcond, N))
        # find the counted exit
        n = None
        cont = constrain(bcond, N)
        best = None
        cands = atoms_of(cont)
        # cont == (k < n) && rest
        lits = literals(cont)
        for a, pol in lits:
            nn = self.count_of(a, pol, k, uid, pc_in)
            if nn is not None:
                best = (a, pol, nn)
                break
        subst_k = None
        if best is None and not ex:
            # infinite loop: no exit
            return []
        forall_ok = TRUE
        if best is not None:
            a, pol, n = best
            lit = a if pol else bnot(a)
            inside = constrain(cont, lit)  # remaining continue-condition inside the range
            stop = bnot(inside)
            out = []
            if stop is FALSE:
                K = n
                for kd, tgt, c, s in ex:
                    out.append(self.finish_exit(kd, tgt, pc_in, TRUE if len(ex) == 1 else constrain(c, bnot(lit)), s, uid, K, comps, phis))
                fa = self.forall(N, lit, uid, n, pc_in)
                out = [(kd, tgt, band(pc, fa), s) for kd, tgt, pc, s in out]
                for o in out:
                    self.safety(o, N, lit, uid, K, comps, True)
            else:
                hasphi = [j for j in phis_in(stop, uid)]
                if hasphi:
                    E, F = self.rec_exists(uid, n, stop, comps, hasphi)
                else:
                    E = mk_exists(uid, n, stop)
                    F = self.first(uid, n, stop)
                for kd, tgt, c, s in ex:
                    # outside: k == n ; inside: stop at k
                    c_out = constrain(c, bnot(lit))
                    c_in = constrain(c, lit)
                    cN = constrain(c, N) if True else c
                    r_out = constrain(band(cN, bnot(lit)), bnot(lit))
                    r_in = constrain(band(cN, lit), band(lit, stop)) if band(lit, stop) is not FALSE else FALSE
                    inside_possible = band(cN, lit) is not FALSE
                    if r_out is not FALSE and band(cN, bnot(lit)) is not FALSE:
                        out.append(self.finish_exit(kd, tgt, pc_in, r_out, s, uid, n, comps, phis, extra=bnot(E)))
                        self.safety(out[-1], N, lit, uid, n, comps, False)
                    if inside_possible and r_in is not FALSE:
                        out.append(self.finish_exit(kd, tgt, pc_in, r_in, s, uid, F, comps, phis, extra=E))
                        self.safety(out[-1], N, lit, uid, add(F, ONE), comps, False)
            return [o for o in out if o[2] is not FALSE]
        # uncounted loop: opaque iteration count
        lit_exit = total_exit
        hasphi = phis_in(lit_exit, uid)
        K = self.mu(uid, lit_exit, comps, hasphi)
        out = []
        for kd, tgt, c, s in ex:
            r = constrain(constrain(c, N), total_exit)
            out.append(self.finish_exit(kd, tgt, pc_in, r, s, uid, K, comps, phis))
            self.safety(out[-1], N, None, uid, K, comps, False)
        return [o for o in out if o[2] is not FALSE]

    def forall(self, N, lit, uid, n, pc_in):
        c = constrain(N, lit)
        if c is TRUE or c is FALSE:
            return TRUE
        if phis_in(c, uid):
            return TRUE
        return bnot(mk_exists(uid, n, bnot(c)))

    def safety(self, out, N, lit, uid, K, comps, only_phi):
        """Checks inside the loop that depend on loop-carried values (not part of the path condition)."""
        c = N if lit is None else constrain(N, lit)
        if c is TRUE or c is FALSE:
            return
        js = phis_in(c, uid)
        if only_phi and not js:
            return
        s = out[3]
        E, _ = self.rec_exists(uid, K, bnot(c), comps, list(js))
        s.cells[SAFE] = band(s.cells.get(SAFE, TRUE), bnot(E))

    def phi_term(self, uid, i, init):
        p = raw("phi", uid, i)
        if init.op in ("num", "int") or init in TM.UNSIGNED or (init.op not in ("ite",) and nonneg(init) and is_intish(init)):
            if nonneg(init):
                TM.UNSIGNED.add(p)
        elif init in (TRUE, FALSE) or init.op in TM.BOOLOPS:
            return raw("bv", p)
        elif init.op == "ite":
            ls = list(leaves(init))
            if all(x in (TRUE, FALSE) or x.op in TM.BOOLOPS for x in ls):
                return raw("bv", p)
            if all(is_intish(x) and nonneg(x) for x in ls):
                TM.UNSIGNED.add(p)
        return p

    def count_of(self, atom, pol, k, uid, pc):
        """Trip count when the loop continues exactly while the literal holds."""
        if atom.op == "ge0" :
            p = atom.a[0]
            if not pol:
                p = TM._add(TM._neg(p), num(-1))
            # p(k) >= 0 , p = c0 - s*k, s > 0 const
            d = poly(p)
            s = None
            if any(uid in x.temps and x is not k for m in d for x in m):
                return None
            lin = {}
            const = {}
            for m, c in d.items():
                if k in m:
                    l = list(m)
                    l.remove(k)
                    if k in l:
                        return None
                    lin[tuple(l)] = c
                else:
                    const[m] = c
            if not lin:
                return None
            s = TM._neg(from_poly(lin))
            if not nonneg(s):
                return None
            c0 = from_poly(const)
            # number of k >= 0 with c0 - s k >= 0  = floor(c0/s) + 1 if c0 >= 0 else 0
            if s is ONE:
                n = add(c0, ONE)
            else:
                # common case: continue while s*(k+1) <= L  or  s*k < L
                q = TM.div(add(c0, s), s)
                if q.op == "div":
                    q2 = TM.div(add(c0, ONE), s)  # s*k < L, L = c0+1
                    if q2.op != "div":
                        q = q2
                n = q
            if nonneg(n) or entails(pc, ge0(n)):
                return n
            return mk_max(n, ZERO)
        if atom.op == "eq" and not pol:
            x, y = atom.a
            d = TM._add(x, TM._neg(y))
            pd = poly(d)
            if k in [m[0] for m in pd if len(m) == 1]:
                c = pd[(k,)]
                rest = from_poly({m: v for m, v in pd.items() if m != (k,)})
                if c in (1, -1) and uid not in rest.temps:
                    return TM._neg(rest) if c == 1 else rest
        return None

    def first(self, uid, n, stop):
        h = stop.hb + 1
        q = subst(stop, {raw("kv", uid): raw("bk", h)})
        r = raw("first", n, q, h)
        TM.UNSIGNED.add(r)
        return r

    def rec_exists(self, uid, n, stop, comps, js):
        c2 = comps + [(FALSE, stop)]
        t = TM.mk_rec(uid, n, c2, len(comps))
        E = raw("bv", raw("existsr", t))
        F = raw("firstr", t)
        TM.UNSIGNED.add(F)
        return E, F

    def mu(self, uid, cond, comps, js):
        c2 = comps + [(FALSE, cond)]
        t = TM.mk_rec(uid, raw("inf"), c2, len(comps))
        F = raw("firstr", t)
        TM.UNSIGNED.add(F)
        return F

    def finish_exit(self, kd, tgt, pc_in, cond, s, uid, K, comps, phis, extra=TRUE):
        k = raw("kv", uid)
        m = {k: K}
        used = set()
        for c, v in s.cells.items():
            if uid in v.temps:
                used.update(phis_in(v, uid))
        used.update(phis_in(cond, uid))
        for j in used:
            p = raw("phi", uid, j)
            r = TM.mk_rec(uid, K, comps, j)
            if p in TM.UNSIGNED:
                for l in leaves(r):
                    if l.op == "rec":
                        TM.UNSIGNED.add(l)
            m[p] = r
        cells = {}
        for c, v in s.cells.items():
            if uid in c.temps:
                c = subst(c, m)
            cells[c] = subst(v, m) if uid in v.temps else v
        cond = subst(cond, m)
        pc = band(pc_in, extra, cond)
        for h, p, v in getattr(s, "fams", ()):
            for cnd, n in cond_leaves(K):
                fp = raw("fam", n, h, p)
                cells[raw("D", fp)] = ite(cnd, raw("fam", n, h, v), self.default(fp))
        return (kd, tgt, pc, State(pc, cells))

    # a loop over an abstract iterator, used by the library models
    def pseudo_loop(self, st, spec, body, pos=ZERO):
        """body(st, item) -> break condition (BDD) or None; mutates st.
        After the loop st is the state after all iterations (or at the break).
        Returns (break happened condition, break state value) via st cell 'brk'."""
        ext = self.models.is_ext(spec)
        n = None if ext else self.models.it_len(self, st, spec)
        if n is None and not ext:
            self.event("iter", spec.op)
            raise Unknown("iterator")
        if not ext:
            n = sub(n, pos)

        def lbody(s, lc):
            k = raw("kv", lc.uid)
            back, exits = [], []
            if ext:
                try:
                    c, guard, item = self.models.pull(self, s, spec, add(k, pos))
                except Diverge:
                    return back, exits
                c = simplify(c, s.pc)
            else:
                c = simplify(lt(k, n), s.pc)
            if c is not TRUE:
                s_out = s.copy()
                s_out.pc = band(s.pc, bnot(c))
                exits.append(("end", None, s_out.pc, s_out))
            s.pc = band(s.pc, c)
            if s.pc is FALSE:
                return back, exits
            try:
                if not ext:
                    guard, item = self.models.it_item(self, s, spec, add(k, pos))
            except Diverge:
                return back, exits
            if guard is not TRUE:
                g = simplify(guard, s.pc)
                s_skip = s.copy()
                s_skip.pc = band(s.pc, bnot(g))
                if s_skip.pc is not FALSE:
                    back.append((s_skip.pc, s_skip))
                s.pc = band(s.pc, g)
                if s.pc is FALSE:
                    return back, exits
            try:
                brk = body(s, item)
            except Diverge:
                return back, exits
            if brk is not None and brk is not FALSE:
                brk = simplify(brk, s.pc)
                sb = s.copy()
                sb.pc = band(s.pc, brk)
                if sb.pc is not FALSE:
                    exits.append(("brk", None, sb.pc, sb))
                s.pc = band(s.pc, bnot(brk))
            if s.pc is not FALSE:
                back.append((s.pc, s))
            return back, exits

        outs = self.run_loop(st.copy(), lbody, "iter")
        if not outs:
            raise Diverge()
        ends = [(pc, s, TRUE if kd == "brk" else FALSE) for kd, tgt, pc, s in outs]
        pc, s, v = self.merge(ends)
        st.pc, st.cells = pc, s.cells
        return v

    # ---------------------------------------------------------------- calls
    def call(self, fr, b, st, t):
        c = t["call"]
        args = []
        atys = []
        for o in t["args"]:
            v, ty = self.operand(fr, st, o)
            args.append(v)
            atys.append(ty)
        dl, dp = t["dest"]
        ret_ty = self.place_ty(fr, t["dest"])
        site = f"{fr.id}/{b}"
        if "ptr" in c:
            f, fty = self.operand(fr, st, c["ptr"])
            return self.call_value(st, f, args, site, fr.depth, ret_ty, atys)
        targs = [subst_ty(fr.fn.crate.arg(a), fr.sub) for a in c["args"]]
        return self.call_def(fr, st, c, targs, args, atys, ret_ty, site)

    def place_ty(self, fr, pl):
        l, proj = pl
        ty = fr.ty(fr.body["locals"][l])
        for e in proj:
            if e == "*":
                ty = ty[2] if ty and ty[0] in ("ref", "ptr") else (ty[2][0] if ty and ty[0] == "adt" else None)
            elif "f" in e:
                ty = fr.ty(e["t"])
            elif "i" in e or "ci" in e:
                ty = ty[1] if ty and ty[0] in ("slice", "array") else None
        return ty

    def resolve(self, cid, path, trait, name, targs, cr_args=None, resolved=None):
        """-> (fn, substitution) for analysed functions, else None"""
        if trait is not None:
            self_ty = targs[0]
            tr = self.prog.traits.get(trait)
            ntr = None
            if tr is not None:
                ntr = len(tr["g"])
            r = self.prog.find_impl_item(trait, name, self_ty, self.trait_targs(trait, targs))
            if r is not None:
                im, m = r
                iid = im["item_ids"].get(name)
                if iid is not None:
                    fn = self.prog.fns.get(iid)
                    if fn is None:
                        return None
                    sub = dict(m)
                    # own params of the method: trailing targs
                    own = [g[0] for g in fn.g if g[0] not in {x[0] for x in im["g"]}]
                    ntrait = 1 + len(self.trait_targs(trait, targs))
                    for nme, tt in zip(own, targs[ntrait:]):
                        sub[nme] = tt
                    # unresolved impl params
                    return fn, sub, im
                # default method of a local trait
                if cid in self.prog.fns and self_ty[0] not in ("param", "alias", "dyn"):
                    fn = self.prog.fns[cid]
                    return fn, dict(zip([g[0] for g in fn.g], targs)), im
            elif cid in self.prog.fns:
                # provided method on an unknown implementing type: its body only when nobody overrides it
                if any(name in im["item_ids"] for im in self.prog.impl_index.get(trait, [])):
                    return None
                fn = self.prog.fns[cid]
                return fn, dict(zip([g[0] for g in fn.g], targs)), None
            return None
        if cid in self.prog.fns:
            fn = self.prog.fns[cid]
            return fn, dict(zip([g[0] for g in fn.g], targs)), None
        return None

    def trait_targs(self, trait, targs):
        tr = self.prog.traits.get(trait)
        if tr is not None:
            n = len([g for g in tr["g"]]) - 1
            return targs[1:1 + n]
        # foreign trait: number of params from known impl records
        for im in self.prog.impl_index.get(trait, []):
            return targs[1:len(im["targs_ty"])]
        return targs[1:]

    def call_def(self, fr, st, c, targs, args, atys, ret_ty, site, depth=None):
        depth = fr.depth if depth is None else depth
        path = canon(c["path"])
        trait = canon(c["trait"]) if "trait" in c else None
        name = c["name"]
        cid = c["id"]
        if trait and trait in ("std::ops::Fn", "std::ops::FnMut", "std::ops::FnOnce"):
            tupv = args[1]
            ar = list(tupv.a) if tupv.op == "tuple" else None
            if ar is None:
                n = len(atys[1][1]) if atys[1] and atys[1][0] == "tuple" else 0
                ar = [fld(tupv, str(i)) for i in range(n)]
            f = args[0]
            tys = list(atys[1][1]) if atys[1] and atys[1][0] == "tuple" else None
            return self.call_value(st, f, ar, site, depth, ret_ty, tys)
        res = self.resolve(cid, path, trait, name, targs)
        short = self.short(path, trait, name, targs)
        if self.hooks:
            r = self.hooks.on_call(self, fr, st, dict(path=path, trait=trait, name=name, id=cid, unsafe=c.get("unsafe"), short=short, targs=targs, resolved=res, fn=res[0] if res else None, site=site, raw=c), args, atys)
            if r is not None:
                return r
        if trait == "std::ops::Deref" and res is not None and (res[0].id + "::__static_ref_initialize") in self.prog.fns:
            return raw("static", res[2]["self_ty"][1].split("::")[-1])  # lazy_static!
        dv = self.derived_call(st, res, trait, name, args, atys)
        if dv is not None:
            return dv
        if res is not None:
            fn = res[0]
            if not self.opaque(fn) and self.stack.count(fn.id) < 2:
                self.inlined.add(fn.id)
                im = res[2]
                return self.run_fn(fn, args, st, res[1], site, depth + 1)
            self.opaque_seen.add(fn.id)
            return self.opaque_call(st, self.short_fn(fn, res[1], trait, name), args, atys, ret_ty)
        h = self.models.lookup(path, trait, name, targs, atys)
        if h is not None:
            try:
                r = h(self, st, args, dict(path=path, trait=trait, name=name, targs=targs, atys=atys, ret=ret_ty, site=site, depth=depth, fr=fr, c=c))
                if r is not None:
                    return r
            except Unknown as e:
                self.event("unknown-model", f"{path}: {e}")
        return self.opaque_call(st, short, args, atys, ret_ty, external=cid not in self.prog.fns)

    def derived_call(self, st, res, trait, name, args, atys):
        """`#[derive]`d Clone/PartialEq on local types: structural by construction."""
        if trait not in ("std::clone::Clone", "std::cmp::PartialEq") or not args or atys[0] is None:
            return None
        ty = atys[0][2] if atys[0][0] == "ref" else None
        while ty is not None and ty[0] == "ref" and name in ("eq", "ne"):
            ty = ty[2]
        if ty is None or ty[0] != "adt" or ty[1] not in self.prog.adts:
            return None
        if res is not None:
            if not res[0].d.get("derived"):
                return None
        elif not (trait == "std::cmp::PartialEq" and name == "ne"):
            return None
        else:
            r2 = self.prog.find_impl_item(trait, "eq", ty, [ty])
            f2 = self.prog.fns.get(r2[0]["item_ids"].get("eq")) if r2 else None
            if f2 is None or not f2.d.get("derived"):
                return None
        if name == "clone":
            return self.canon_arg(st, args[0], atys[0])
        if name in ("eq", "ne"):
            e = eq(self.canon_arg(st, args[0], atys[0]), self.canon_arg(st, args[1], atys[1] or atys[0]))
            return e if name == "eq" else bnot(e)
        return None

    def short(self, path, trait, name, targs):
        if trait:
            s = trait.split("::")[-1] + "::" + name
            return s
        return path

    def short_fn(self, fn, sub, trait, name):
        if trait:
            return trait.split("::")[-1] + "::" + name
        p = fn.path
        return p

    def opaque_call(self, st, name, args, atys, ret_ty, external=False):
        cargs = []
        for a, ty in zip(args, atys):
            cargs.append(self.canon_arg(st, a, ty))
        # generic parameters that matter are visible through the argument types
        t = lift_call(name, cargs)
        ret_has_mut = ret_ty is not None and has_mut_ref(ret_ty)
        if external:
            self.event("opaque-external", name)
        for j, (a, ty) in enumerate(zip(args, atys)):
            if ty is None:
                continue
            if ty[0] == "ref" and ty[1] and not ret_has_mut:
                if ty[2][0] == "closure":
                    self.havoc_closure(st, self.load(st, a))
                    continue
                self.store(st, a, self.typed(lift1(lambda x: raw("out", j, x), t), ty[2]))
            elif ty[0] == "closure" or a.op == "closure":
                self.havoc_closure(st, a)
        if ret_ty == ("tuple", ()):
            return UNIT
        if ret_ty == ("prim", "!"):
            raise Diverge()
        return self.typed(t, ret_ty)

    def havoc_closure(self, st, clo):
        for l in leaves(clo):
            if l.op == "closure":
                ty = self.closures.get(l.a[0])
                fn = self.prog.fns.get(ty[1]) if ty else None
                ups = None
                if fn is not None:
                    sub = clo_sub(fn, ty)
                    t0 = subst_ty(fn.crate.ty(fn.body["locals"][1]), sub)
                    if t0[0] == "ref":
                        t0 = t0[2]
                    if t0[0] == "closure":
                        ups = t0[3]
                for i, cap in enumerate(l.a[1:]):
                    uty = ups[i] if ups and i < len(ups) else None
                    if cap.op == "ref" and (uty is None or (uty[0] == "ref" and uty[1])):
                        self.store(st, cap, unk("captured by opaque call"))

    def canon_arg(self, st, a, ty=None, depth=0):
        """Value-semantics form of an argument: references become the contents they denote."""
        def f(x):
            if x.op == "ref":
                v = self.load(st, x)
                return self.canon_val(st, v, depth + 1)
            if x.op == "closure" or x.op == "fnval":
                return self.canon_val(st, x, depth)
            if ty is not None and ty[0] in ("ref", "ptr"):
                v = self.load(st, x)
                return self.canon_val(st, v, depth + 1)
            return self.canon_val(st, x, depth)

        return lift1(f, a)

    def canon_val(self, st, v, depth=0):
        """Replace references inside a value by the contents they denote."""
        if depth > 6:
            return v
        memo = {}

        def go(t):
            if t.op == "ref":
                return self.canon_val(st, self.load(st, t), depth + 1)
            if t.op == "fnval":
                return raw("fnname", self.fn_name(t))
            if t.op == "closure":
                return self.lambda_of(st, t, depth)
            if t.op in ("num", "str", "param", "true", "false", "const"):
                return t
            if not any(isinstance(x, T) for x in t.a):
                return t
            r = memo.get(id(t))
            if r is not None:
                return r
            na = tuple(go(x) if isinstance(x, T) else x for x in t.a)
            if all(x is y for x, y in zip(na, t.a)):
                r = t
            else:
                r = TM.remake(t.op, na)
            memo[id(t)] = r
            return r

        if not contains_ref(v):
            return v
        return go(v)

    def fn_name(self, t):
        ty = self.closures[t.a[0]]
        fn = self.prog.fns.get(ty[1])
        nm = fn.path if fn else ty[2]
        return nm + ("<" + ",".join(ty_str(x) for x in ty[3]) + ">" if ty[3] else "")

    def lambda_of(self, st, clo, depth=0):
        """Closure as a value: its body evaluated on symbolic parameters."""
        ty = self.closures[clo.a[0]]
        fn = self.prog.fns.get(ty[1])
        if fn is None or depth > 3:
            return raw("lam?", ty[1])
        s2 = st.copy()
        n = fn.body["argc"] - 1
        sub = clo_sub(fn, ty)
        ps = []
        for i in range(n):
            pty = subst_ty(fn.crate.ty(fn.body["locals"][i + 2]), sub)
            p = raw("lp", i)
            ps.append(self.typed(p, pty))
        try:
            r = self.call_value(s2, clo, ps, "lam", 10 + depth, None, None)
            r = self.canon_val(s2, r, depth + 1)
        except Diverge:
            r = raw("never")
        return raw("lam", r)

    def call_value(self, st, f, args, site, depth, ret_ty, atys):
        """Call a function value."""
        if f.op == "ite":
            return self.branch(st, f.a[0], lambda s: self.call_value(s, f.a[1], args, site + "t", depth, ret_ty, atys), lambda s: self.call_value(s, f.a[2], args, site + "e", depth, ret_ty, atys))
        if f.op == "ref" or f.op == "D":
            v = self.load(st, f)
            if v.op in ("closure", "fnval", "ref", "ite"):
                if v.op == "closure":
                    return self.call_closure(st, v, f, args, site, depth)
                return self.call_value(st, v, args, site, depth, ret_ty, atys)
        if f.op == "closure":
            cell = raw("tmpclo", site)
            st.cells[cell] = f
            return self.call_closure(st, f, ref(cell), args, site, depth)
        if f.op == "fnval":
            ty = self.closures[f.a[0]]
            return self.call_fndef(st, ty, args, site, depth, ret_ty, atys)
        if f.op == "static" or f.op == "const":
            pass
        cargs = [self.canon_arg(st, a, t) for a, t in zip(args, atys or [None] * len(args))]
        fv = self.canon_arg(st, f, ("ref", False, ("param", "F")))
        t = lift_call("apply", [fv] + cargs)
        for j, (a, ty) in enumerate(zip(args, atys or [None] * len(args))):
            if ty is not None and ty[0] == "ref" and ty[1]:
                self.store(st, a, lift1(lambda x: raw("out", j + 1, x), t))
        return self.typed(t, ret_ty)

    def call_closure(self, st, v, fptr, args, site, depth):
        ty = self.closures[v.a[0]]
        fn = self.prog.fns.get(ty[1])
        if fn is None:
            return unk("closure body")
        if self.stack.count(fn.id) >= 2:
            return unk("recursive closure")
        sub = clo_sub(fn, ty)
        selfty = fn.crate.ty(fn.body["locals"][1])
        a0 = fptr if selfty[0] == "ref" else v
        if fn.body.get("spread") is not None:
            args = [tup(*args)]
        if selfty[0] == "ref" and fptr.op != "ref" and not (fptr.op == "D"):
            pass
        return self.run_fn(fn, [a0] + list(args), st, sub, site + "/c", depth + 1)

    def call_fndef(self, st, ty, args, site, depth, ret_ty, atys):
        fid, path, targs = ty[1], ty[2], list(ty[3])
        fn = self.prog.fns.get(fid)
        trait = None
        name = path.split("::")[-1]
        for tr in self.prog.traits:
            if path.startswith(tr + "::"):
                trait = tr
        if fn is None and trait is None:
            m = re.match(r"(.*)::(\w+)$", path)
            if m and self.models.is_trait(m.group(1)):
                trait = m.group(1)
            # enum / struct constructor
            ctor = self.ctor(path, args)
            if ctor is not None:
                return ctor
        c = {"path": path, "name": name, "id": fid, "args": []}
        if trait:
            c["trait"] = trait
        fake = Frame(FakeFn(None, None, fid), None, None, {}, site, None, depth)
        return self.call_def(fake, st, c, targs, args, atys or [None] * len(args), ret_ty, site, depth)

    def ctor(self, path, args):
        m = re.match(r"(.*)::(\w+)$", re.sub(r"::<.*?>", "", path))
        if not m:
            return None
        p = m.group(1)
        if p.endswith("Option") or p.endswith("Result"):
            if m.group(2) == "Some":
                return some(args[0])
            if m.group(2) == "Ok":
                return ok(args[0])
            if m.group(2) == "Err":
                return err(args[0])
        a = self.prog.adts.get(p)
        if a and a["kind"] == "enum":
            for i, v in enumerate(a["v"]):
                if v["n"] == m.group(2):
                    return adt(p, i, [(self.role(p, f["n"]), x) for f, x in zip(v["f"], args)])
        a = self.prog.adts.get(path)
        if a and a["kind"] == "struct":
            return adt(path, 0, [(self.role(path, f["n"]), x) for f, x in zip(a["v"][0]["f"], args)])
        return None


class Unknown(Exception):
    pass


class FakeFn:
    def __init__(self, crate, body, id_):
        self.crate = crate
        self.body = body
        self.id = id_
        self.path = id_
        self.g = []


_cfgs = {}


def cfg_of(fn, body):
    k = id(body)
    r = _cfgs.get(k)
    if r is None:
        r = Cfg(body)
        _cfgs[k] = r
    return r


def clo_sub(fn, ty):
    return dict((g[0], a) for g, a in zip(fn.g, ty[2]))


def contains_ref(t):
    return any(x.op in ("ref", "closure", "fnval") for x in subterms(t))


def has_mut_ref(ty):
    k = ty[0]
    if k == "ref":
        return ty[1] or has_mut_ref(ty[2])
    if k == "ptr":
        return False
    if k in ("slice", "array"):
        return has_mut_ref(ty[1])
    if k == "tuple":
        return any(has_mut_ref(x) for x in ty[1])
    if k in ("adt", "alias"):
        return any(has_mut_ref(x) for x in ty[2] if isinstance(x, tuple)) or any(s in ty[1] for s in ("Mut", "Entry"))
    return False


def lift_call(name, cargs):
    return lift(lambda *xs: raw("call", name, *xs), *cargs)


def extend_lift(ptr, op, *vals):
    return lift(lambda p, *vs: extend(p, raw(op, *vs)), ptr, *vals)


def cond_leaves(t, c=TRUE):
    if t.op == "ite":
        v = t.a[0]
        return cond_leaves(t.a[1], band(c, v)) + cond_leaves(t.a[2], band(c, bnot(v)))
    return [(c, t)]


def ptr_add(p, n):
    def f(p, n):
        if p.op == "ref" and len(p.a) > 1 and p.a[-1].op == "P":
            return norm_ref(p.a[0], list(p.a[1:-1]) + [raw("P", add(p.a[-1].a[0], n))])
        if p.op == "ref" and len(p.a) > 1 and p.a[-1].op == "PT":
            e = p.a[-1]
            return norm_ref(p.a[0], list(p.a[1:-1]) + [raw("PT", add(e.a[0], mul(n, sizeof_term(e.a[1]))), e.a[1])])
        if n is ZERO:
            return p
        return raw("ptradd", p, n)

    return lift(f, p, n)


def neg_f(x):
    if x.op == "fneg":
        return x.a[0]
    if x.op == "fc":
        s = x.a[0]
        return raw("fc", s[1:] if s.startswith("-") else "-" + s)
    return raw("fneg", x)


def feq(a, b):
    def f(x, y):
        if key(y) < key(x):
            x, y = y, x
        return raw("eq", x, y)
    return lift(f, a, b)


def deq(a, b):
    """Equality where discriminant terms may occur."""
    def f(x, y):
        if x.op == "discr" and y.op == "discr":
            return eq(x.a[0], y.a[0])
        return eq(x, y)
    return lift(f, a, b)


ORD = "std::cmp::Ordering"


def ordering(a, b):
    less = adt(ORD, 0, [])
    equal = adt(ORD, 1, [])
    greater = adt(ORD, 2, [])
    return ite(lt(a, b), less, ite(eq(a, b), equal, greater))


def float_text(bits, ty):
    import struct
    if ty == "f64":
        return repr(struct.unpack("<d", struct.pack("<Q", bits))[0])
    return repr(struct.unpack("<f", struct.pack("<I", bits))[0])


def sub_safe(a, b):
    intlike = lambda t: all(is_intish(x) or x.op in ("phi", "rec", "call", "fld", "vfld", "firstr", "first") for x in leaves(t))
    if not (is_intish(b) or b in TM.UNSIGNED):
        # signed or untyped: only accept syntactic increments
        if a.op == "int" or a is b:
            return sub(a, b)
        return None
    if a.op == "ite":
        return None
    return sub(a, b)


def leaf_get(v, path):
    for p in path:
        if v.op in ("adt", "tuple", "closure", "it", "ref", "S", "P", "I", "with"):
            v = v.a[p]
        else:
            return v
    return v


def leaf_set(v, path, t):
    if not path:
        return t
    if v.op == "ite":
        return unk("leaf")
    l = list(v.a)
    l[path[0]] = leaf_set(l[path[0]], path[1:], t)
    if v.op == "ref":
        return norm_ref(l[0], l[1:])
    if v.op == "with":
        return TM._reb_with(l[0], l[1:])
    return raw(v.op, *l)


def diff_leaves(init, cur, nxt, known, path=()):
    """Positions where the value at the loop header (cur) and at the back edge (nxt) differ.
    Yields (path, init leaf, current leaf, next leaf)."""
    if path in known:
        yield (path, init, cur, nxt)
        return
    if cur is nxt and not any(len(k) >= len(path) and k[:len(path)] == path for k in known):
        return
    if cur.op == nxt.op == init.op and len(cur.a) == len(nxt.a) == len(init.a):
        o = cur.op
        if (o == "adt" and cur.a[:2] == nxt.a[:2] == init.a[:2]) or o == "tuple" or (o == "closure" and cur.a[0] == nxt.a[0] == init.a[0]) or (o == "it" and cur.a[0] is nxt.a[0] and init.a[0] is cur.a[0]) or (o == "ref" and cur.a[0] is nxt.a[0] and init.a[0] is cur.a[0] and all(x.op == y.op and len(x.a) == len(y.a) for x, y in zip(cur.a, nxt.a))) or (o in ("S", "P", "I")):
            for i, (a, b, c) in enumerate(zip(init.a, cur.a, nxt.a)):
                if isinstance(b, T):
                    yield from diff_leaves(a, b, c, known, path + (i,))
            return
    if cur is not nxt:
        yield (path, init, cur, nxt)
