"""Path-sensitive abstract interpreter over extracted MIR: affine integer domain, symbolic heap places,
trace partitioning, loops generalised from a peeled iteration with verified invariants."""
import time
from .lin import Lin, atom, const, Facts
from .dump import Ty, Body

UNIT = ("adt", "()", 0, ())
UNDEF = ("undef",)
TRUE = ("b", True)
FALSE = ("b", False)
OPT = "core::option::Option"
RES = "core::result::Result"
ORD = "core::cmp::Ordering"


def I(x):
    return ("i", x if isinstance(x, Lin) else const(x))


def B(f):
    return ("b", f)


def none():
    return ("adt", OPT, 0, ())


def some(v):
    return ("adt", OPT, 1, (v,))


def ok(v):
    return ("adt", RES, 0, (v,))


def err(v):
    return ("adt", RES, 1, (v,))


def tup(*v):
    return ("adt", "()", 0, tuple(v))


def adt(path, *fields, variant=0):
    return ("adt", path, variant, tuple(fields))


def is_adt(v, path=None):
    return v[0] == "adt" and (path is None or v[1] == path)


FRESH = {"u", "k", "?", "w"}
IDLE = {"?", "w"}


class GiveUp(Exception):
    pass


class Undecided(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "syms", "trace", "lossy")

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.syms = {}
        self.trace = None
        self.lossy = False

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.syms = self.syms
        s.trace = self.trace
        s.lossy = self.lossy
        return s

    def log(self, msg):
        self.trace = (msg, self.trace)

    def path(self, n=40):
        out, t = [], self.trace
        while t and len(out) < n:
            out.append(t[0])
            t = t[1]
        return out[::-1]

    # ghost cells (variables of the monitors, treated like program variables by the loop analysis)
    def sg(self, name, v):
        self.mem[("G", name)] = v


def terms(v, out):
    """the unknown terms a value is made of"""
    if v[0] == "adt":
        for x in v[3]:
            terms(x, out)
    elif v[0] == "sym":
        out.add(v[1])
    elif v[0] == "b" and isinstance(v[1], tuple):
        todo = [v[1]]
        while todo:
            f = todo.pop()
            if f[0] == "sym":
                out.add(f[1])
            elif f[0] in ("and", "or", "not"):
                todo += [g for g in f[1:] if isinstance(g, tuple)]


def fnot(f):
    if f is True:
        return False
    if f is False:
        return True
    k = f[0]
    if k == "le":
        return ("le", -f[1] + 1)
    if k == "eq":
        return ("ne", f[1])
    if k == "ne":
        return ("eq", f[1])
    if k == "not":
        return f[1]
    if k == "and":
        return ("or", fnot(f[1]), fnot(f[2]))
    if k == "or":
        return ("and", fnot(f[1]), fnot(f[2]))
    return ("not", f)


def flit(k, l):
    if l.is_const():
        return {"le": l.c <= 0, "eq": l.c == 0, "ne": l.c != 0}[k]
    return (k, l)


class Engine:
    def __init__(self, crate, models, contracts, monitor=None, max_steps=400000, max_time=120):
        self.crate = crate
        self.models = models
        self.contracts = contracts
        self.mon = monitor
        self.quiet = 0
        self.serial = 0
        self.bitmemo = {}
        self.fids = 0
        self.steps = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.t0 = time.time()
        self.callees = []
        self.pbodies = {}
        self.callee_ix = {}
        self.analysed = set()
        self.calls = 0
        self.unknowns = []
        self.loops_seen = set()
        self.depth = 0
        self.panics = 0
        self.bytrait = {}
        self.bytrait_all = {}
        for b in list(models.fns.values()) + list(crate.fns.values()):
            it = b.raw.get("itrait")
            if it:
                sp = b.d.fix(b.raw.get("self"))
                self.bytrait.setdefault((it, b.name, sp), b)
                self.bytrait_all.setdefault((it, b.name), []).append(b)
        self.mfn = {}
        for b in models.fns.values():
            if not b.raw.get("itrait"):
                self.mfn.setdefault(b.path, b)
        contracts.setup(self)

    # ---------- fresh things ----------
    def fresh(self, tag="u"):
        self.serial += 1
        FRESH.add(tag)
        return (tag, self.serial)

    def fresh_int(self, tag="u"):
        return atom(self.fresh(tag))

    def unknown(self, st, why, ty=None):
        """a value about which the analysis knows nothing: results that depend on it are not decided"""
        self.unknowns.append(why)
        st.lossy = True
        return self.make_sym(self.fresh("?"), ty)

    def make_sym(self, term, ty):
        if ty is None:
            return ("sym", term, None)
        k = ty.k
        if k == "uint" or k == "char":
            return ("i", atom(term))
        if k == "int":
            return ("i", atom(("s", term)))
        if k == "bool":
            return ("b", ("sym", term))
        if k in ("ref", "ptr"):
            return ("ref", ("D", term, ty.e), ())
        if k == "tuple":
            return ("adt", "()", 0, tuple(self.make_sym(("f", term, i), t) for i, t in enumerate(ty.args())))
        if k == "fndef":
            return ("sym", term, ty)
        return ("sym", term, ty)

    # ---------- memory ----------
    def read_root(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] == "D":
            return self.make_sym(("deref", root[1]), root[2])
        if root[0] == "slot":
            return ("sym", root, self.elem_ty)
        if root[0] == "cell":
            return ("sym", ("val", root[1], root[2]), None)
        if root[0] == "elem":
            return ("sym", root, None)
        if root[0] == "G":
            return self.contracts.ghost_default(self, root)
        return UNDEF

    def expand(self, v, variant):
        """a symbolic structure as an explicit one"""
        _, term, ty = v
        if ty is None or ty.k not in ("adt", "tuple", "closure"):
            return None
        n = ty.nfields(variant)
        path = ty.path if ty.k == "adt" else "()"
        tag = ("f", term, variant) if ty.is_enum() else None
        fs = []
        for i in range(n):
            t = ("fv", term, variant, i) if ty.is_enum() else ("f", term, i)
            fs.append(self.make_sym(t, ty.field(variant, i)))
        return ("adt", path, variant, tuple(fs))

    def project(self, st, v, p):
        if v[0] == "adt":
            if isinstance(p, int) and p < len(v[3]):
                return v[3][p]
            if isinstance(p, tuple) and p[0] == "ix":
                if v[1] == "[]" and p[1].is_const() and 0 <= p[1].c < len(v[3]):
                    return v[3][p[1].c]
                return ("sym", ("elem", v, p[1]), None)
            if p == "state":
                return ("sym", ("stateof", v), None)
            return UNDEF
        if v[0] == "sym":
            if isinstance(p, int):
                return self.make_sym(("f", v[1], p), v[2].field(0, p) if v[2] else None)
            if isinstance(p, tuple) and p[0] == "ix":
                t = v[2]
                et = t.e if t is not None and t.k in ("array", "slice") else None
                return self.make_sym(("elem", v[1], p[1]), et)
            return ("sym", ("f", v[1], p), None)
        if v[0] == "i" and p == 0:
            return v
        return UNDEF

    def read(self, st, place):
        v = self.read_root(st, place[0])
        for p in place[1]:
            v = self.project(st, v, p)
        return v

    def write(self, st, place, val):
        root, proj = place
        if root[0] == "cell" and not proj:
            self.emit(st, "cellwrite", root, val)
        elif root[0] == "slot":
            self.emit(st, "slotwrite", root, proj, val)
        elif root[0] == "D" and len(proj) < 2 and root[2] is not None and root[2].k == "adt" and \
                root[2].path.endswith(("ConcurrentElement", "ConcurrentOption")):
            self.emit(st, "wholecell", root, "the element's cell is overwritten")
        if not proj:
            st.mem[root] = val
            return
        st.mem[root] = self.update(st, self.read_root(st, root), proj, val)

    def update(self, st, v, proj, val):
        if not proj:
            return val
        p = proj[0]
        if v[0] == "sym":
            e = self.expand(v, 0)
            if e is None:
                st.lossy = True
                return v
            v = e
        if v[0] == "undef":
            # field-wise initialisation
            if isinstance(p, int):
                v = ("adt", "()", 0, tuple(UNDEF for _ in range(p + 1)))
            else:
                return v
        if v[0] == "adt":
            fs = list(v[3])
            if isinstance(p, tuple) and p[0] == "ix":
                if v[1] == "[]" and p[1].is_const():
                    p = p[1].c
                else:
                    st.lossy = True
                    return v
            if not isinstance(p, int):
                st.lossy = True
                return v
            while len(fs) <= p:
                fs.append(UNDEF)
            fs[p] = self.update(st, fs[p], proj[1:], val)
            return ("adt", v[1], v[2], tuple(fs))
        st.lossy = True
        return v

    def deref_place(self, st, v, ty=None):
        if v[0] == "ref":
            return (v[1], v[2])
        if v[0] == "str" or (v[0] == "adt" and v[1] in ("m::SlotSlice",)):
            return (("T", v), ())
        if v[0] == "adt" and len(v[3]) == 1:
            return self.deref_place(st, v[3][0], ty)
        if v[0] == "sym":
            return (("D", v[1], ty), ())
        st.lossy = True
        self.serial += 1
        return (("D", ("?", self.serial), ty), ())

    def resolve(self, st, fr, place):
        """MIR place -> (root, proj)"""
        root, proj = ("L", fr.fid, place[0]), ()
        d = fr.body.d
        for e in place[1]:
            k = e[0]
            if k == "f":
                proj = proj + (e[1],)
            elif k == "*":
                root, proj = self.deref_place(st, self.read(st, (root, proj)), Ty(d, e[1]))
                if root[0] == "T" and len(root) == 2:
                    st.mem[root] = root[1]
            elif k == "v":
                v = self.read(st, (root, proj))
                if v[0] == "sym":
                    x = self.expand(v, e[1])
                    if x is not None:
                        self.write(st, (root, proj), x)
            elif k == "i":
                ix = self.read(st, (("L", fr.fid, e[1]), ()))
                l = ix[1] if ix[0] == "i" else self.fresh_int("?")
                v = self.read(st, (root, proj))
                if is_adt(v, "m::SlotSlice"):
                    root, proj = ("slot", v[3][0], v[3][1][1] + l), ()
                else:
                    proj = proj + (("ix", l),)
            elif k == "ci":
                v = self.read(st, (root, proj))
                if e[2]:
                    n = self.slice_len(st, (root, proj))
                    l = n - e[1]
                else:
                    l = const(e[1])
                if is_adt(v, "m::SlotSlice"):
                    root, proj = ("slot", v[3][0], v[3][1][1] + l), ()
                else:
                    proj = proj + (("ix", l),)
            elif k == "sub" and is_adt(self.read(st, (root, proj)), "m::SlotSlice"):
                v = self.read(st, (root, proj))
                lo, hi = v[3][1][1] + e[1], (v[3][2][1] - e[2] if e[3] else v[3][1][1] + e[2])
                root, proj = ("T", ("adt", "m::SlotSlice", 0, (v[3][0], I(lo), I(hi)))), ()
                st.mem[root] = root[1]
            else:
                st.lossy = True
                proj = proj + (("o",),)
        return root, proj

    def slice_len(self, st, place):
        v = self.read(st, place)
        if is_adt(v, "[]"):
            return const(len(v[3]))
        if is_adt(v, "m::SlotSlice"):
            return v[3][2][1] - v[3][1][1]
        if v[0] == "sym":
            return atom(("slen", v[1]))
        return self.fresh_int("?")

    # ---------- facts ----------
    def assume(self, st, f, val=True):
        """states in which the formula has the given truth value"""
        if not val:
            f = fnot(f)
        if f is True:
            return [st]
        if f is False:
            return []
        k = f[0]
        if k == "le":
            if st.facts.proves_le(f[1]):
                return [st]
            if st.facts.contradicts([f[1]]):
                return []
            st.facts = st.facts.add_le(f[1])
            return self.addr_fact(st, f)
        if k == "eq":
            if st.facts.contradicts([f[1], -f[1]]) or (f[1] in st.facts.ne or -f[1] in st.facts.ne):
                return []
            st.facts = st.facts.add_eq(f[1])
            return self.addr_fact(st, f)
        if k == "ne":
            if st.facts.proves_eq(f[1]):
                return []
            if not self.addr_fact(st, f):
                return []
            # strengthen to a strict bound when one side is known
            if st.facts.proves_le(f[1]):
                st.facts = st.facts.add_le(f[1] + 1)
            elif st.facts.proves_le(-f[1]):
                st.facts = st.facts.add_le(-f[1] + 1)
            else:
                st.facts = st.facts.add_ne(f[1])
            return [st]
        if k == "sym":
            return self._decide(st, f[1], True)
        if k == "not":
            if f[1][0] == "sym":
                return self._decide(st, f[1][1], False)
            st.lossy = True
            return [st]
        if k == "and":
            return [s2 for s1 in self.assume(st, f[1]) for s2 in self.assume(s1, f[2])]
        if k == "or":
            s2 = st.copy()
            out = self.assume(st, f[1])
            for s in self.assume(s2, fnot(f[1])):
                out += self.assume(s, f[2])
            return out
        st.lossy = True
        return [st]

    def addr_fact(self, st, f):
        """a fact about two addresses: elements of one vector have the same address exactly if they have the same position"""
        k, l = f
        if len(l.t) != 2 or any(not isinstance(a, tuple) or a[0] != "addr" for a, _ in l.t):
            return [st]
        (a, ca), (b, cb) = l.t
        if ca + cb != 0 or abs(ca) != 1:
            return [st]
        one = a[1][0] == "slot" and b[1][0] == "slot" and a[1][1] == b[1][1] and a[2] == b[2]
        if k == "le" and l.c < 1:
            if not st.facts.proves_le(-l):
                return [st]
            k = "eq"
        if k == "le" or k == "ne":
            return self.assume(st, ("ne", a[1][2] - b[1][2])) if one else [st]
        if l.c != 0:
            return [st]
        if one:
            return self.assume(st, ("eq", a[1][2] - b[1][2]))
        self.contracts.set_sym(st, ("alias", a[1], a[2], b[1], b[2]), True)
        return [st]

    def _decide(self, st, term, val):
        cur = st.syms.get(term)
        if cur is not None:
            return [st] if cur == val else []
        st.syms = dict(st.syms)
        st.syms[term] = val
        self.emit(st, "decide", term, val)
        return [st]

    def branch(self, st, f):
        a = st.copy()
        return self.assume(a, f, True), self.assume(st, f, False)

    def truth(self, st, f):
        """True/False/None"""
        r = self.truth0(st, f)
        if r is None and self.has_products(st, f):
            s2 = self.saturate(st)
            if s2 is not None:
                r = self.truth0(s2, f)
        return r

    def has_products(self, st, f):
        if isinstance(f, tuple) and f and f[0] in ("le", "eq"):
            return any(isinstance(a, tuple) and a[0] == "mul" for a in f[1].atoms()) or \
                any(isinstance(a, tuple) and a[0] == "mul" for l in st.facts.le for a in l.atoms())
        return isinstance(f, tuple) and f and f[0] in ("and", "or", "not", "ne") and any(self.has_products(st, x) for x in f[1:])

    def saturate(self, st):
        """bounds of products, from what has become known about their factors since they were formed"""
        s2 = st.copy()
        ms = {a for l in st.facts.le for a in l.atoms() if isinstance(a, tuple) and a[0] == "mul" and len(a) == 3}
        fac = {x for m in ms for x in m[1:]}
        for l in st.facts.ne:
            if any(a in fac for a in l.atoms()):
                for d in (l, -l):
                    if st.facts.proves_le(d):
                        s2.facts = s2.facts.add_le(d + 1)
        for m in sorted(ms, key=repr):
            self.mono_facts(s2, m[1], m[2])
        return s2 if s2.facts is not st.facts else None

    def truth0(self, st, f):
        if f is True or f is False:
            return f
        k = f[0]
        if k == "le":
            if st.facts.proves_le(f[1]):
                return True
            if st.facts.contradicts([f[1]]):
                return False
            return None
        if k == "eq":
            if st.facts.proves_eq(f[1]):
                return True
            if st.facts.proves_ne(f[1]):
                return False
            return None
        if k == "sym":
            return st.syms.get(f[1])
        if k in ("ne", "not"):
            r = self.truth0(st, fnot(f))
            return None if r is None else not r
        a, b = self.truth0(st, f[1]), self.truth0(st, f[2])
        if k == "and":
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == "or":
            if a or b:
                return True
            if a is False and b is False:
                return False
            if a is None and b is None:
                x, y = f[1], f[2]
                if x[0] == "or" or y[0] != "or" and x[0] == "and":
                    x, y = y, x
                # the second holds wherever the first does not
                if x[0] != "or" and all(self.truth0(s, y) is True for s in self.assume(st.copy(), x, False)):
                    return True
            return None
        return None

    def g(self, st, name):
        return self.read_root(st, ("G", name))

    # ---------- monitors ----------
    def emit(self, st, kind, *a):
        if self.mon is not None:
            h = getattr(self.mon, "on_" + kind, None)
            if h is not None and not (kind == "panic" and self.impossible(st)):
                h(self, st, *a)

    def impossible(self, st):
        """no run is in this state, as products of its numbers show"""
        if not any(isinstance(a, tuple) and a[0] == "mul" for l in st.facts.le for a in l.atoms()):
            return False
        s = self.saturate(st)
        return s is not None and s.facts.contradicts([])

    def report(self, st, rule, construct, msg, site=None):
        if self.quiet or self.mon is None:
            return
        self.mon.violation(self, st, rule, construct, msg, site)

    # ---------- execution ----------
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps or (self.steps % 256 == 0 and time.time() - self.t0 > self.max_time):
            raise GiveUp(f"analysis bound reached after {self.steps} steps")

    def exec_body(self, body, args, st, destty=None, site=None):
        self.calls += 1
        self.analysed.add(body.key)
        if self.depth > 70:
            raise GiveUp("call depth")
        self.fids += 1
        fr = Frame(self.fids, body, destty, site)
        for i, a in enumerate(args):
            st.mem[("L", fr.fid, i + 1)] = a
        self.depth += 1
        try:
            outs = self.run(fr, 0, st, None)
        finally:
            self.depth -= 1
        res = []
        for o in outs:
            if o[0] == "ret":
                s = o[1]
                v = s.mem.get(("L", fr.fid, 0), UNIT)
                if v == UNDEF:
                    v = UNIT
                for k in [k for k in s.mem if k[0] == "L" and k[1] == fr.fid]:
                    del s.mem[k]
                res.append((s, v))
        return res

    def run(self, fr, bb, st, loop, first=True):
        """loop: (header, blocks) of the region being executed, or None"""
        out = []
        loops = fr.body.loops
        order, joins = fr.body.order, fr.body.joins
        wait = {}                         # block -> states waiting there

        def put(s, b):
            live = joins.get(b)
            if live is None:
                wait.setdefault(b, []).append(s)
                return
            for k in [k for k in s.mem if k[0] == "L" and k[1] == fr.fid and k[2] not in live]:
                del s.mem[k]
            for o in wait.setdefault(b, []):
                if self.merge(o, s):
                    return
            wait[b].append(s)
        put(st, bb)
        while wait:
            bb = min(wait, key=lambda b: order.get(b, 1 << 30)) if not first else bb
            todo = wait.pop(bb)
            fst, first = first, False
            if loop is not None:
                if bb == loop[0] and not fst:
                    out.extend(("back", s) for s in todo)
                    continue
                if bb not in loop[1]:
                    out.extend(("exit", s, bb) for s in todo)
                    continue
            for s in todo:
                if bb in loops and not (loop is not None and bb == loop[0]):
                    for o in self.run_loop(fr, bb, loops[bb], s):
                        if o[0] == "exit":
                            put(o[1], o[2])
                        else:
                            out.append(o)
                    continue
                for r in self.block(fr, bb, s):
                    if r[0] == "ret":
                        out.append(r)
                    else:
                        put(r[1], r[2])
        return out

    def merge(self, a, b):
        """two states that differ in nothing but the two outcomes of a condition become one (a)"""
        if a.lossy != b.lossy or a.mem != b.mem:
            return False
        ks = [k for k in set(a.syms) | set(b.syms) if a.syms.get(k) != b.syms.get(k)] if a.syms is not b.syms else []
        if any(isinstance(k, tuple) and k and k[0] in IDLE for k in ks):
            # an unknown of the analysis that no variable holds any more
            held = set()
            for v in a.mem.values():
                terms(v, held)
            ks = [k for k in ks if k in held or not (isinstance(k, tuple) and k and k[0] in IDLE)]
        if ks and not (len(ks) == 1 and a.syms.get(ks[0]) in (True, False) and b.syms.get(ks[0]) in (True, False)):
            return False
        f = a.facts.either(b.facts, not ks, lambda t: isinstance(t, tuple) and t[0] in IDLE)
        if f is None:
            return False
        a.facts = f
        if a.syms != b.syms:
            a.syms = {k: v for k, v in a.syms.items() if b.syms.get(k) == v}
        return True

    def block(self, fr, bb, st):
        blk = fr.body.blocks[bb]
        states = [st]
        for s in blk["s"]:
            self.tick()
            if s[0] == "=":
                nxt = []
                for x in states:
                    nxt.extend(self.assign(fr, x, s[1], s[2], s[3]))
                states = nxt
            elif s[0] == "sd":
                for x in states:
                    pl = self.resolve(x, fr, s[1])
                    v = self.read(x, pl)
                    if v[0] == "adt":
                        self.write(x, pl, ("adt", v[1], s[2], v[3]))
                    else:
                        x.lossy = True
            elif s[0] == "dead":
                for x in states:
                    x.mem.pop(("L", fr.fid, s[1]), None)
        out = []
        for x in states:
            out.extend(self.terminator(fr, blk["t"], x))
        return out

    def terminator(self, fr, t, st):
        self.tick()
        k = t[0]
        if k == "goto":
            return [("go", st, t[1])]
        if k == "ret":
            return [("ret", st)]
        if k in ("unreachable", "end"):
            return []
        if k == "drop":
            pl = self.resolve(st, fr, t[1])
            v = self.read(st, pl)
            if self.drop_matters(v):
                site = self.site(fr, t[4])
                return [("go", s, t[2]) for s in self.drop_value(st, v, site)]
            self.emit(st, "drop", v, Ty(fr.body.d, t[3]), self.site(fr, t[4]), pl)
            return [("go", st, t[2])]
        if k == "assert":
            v = self.operand(st, fr, t[1])
            if v[0] == "b":
                if "Overflow" in t[3]:
                    if v[1] is (not t[2]):
                        self.emit(st, "panic", self.site(fr, t[5] if len(t) > 5 else None))
                    return [("go", st, t[4])]
                for s in self.assume(st.copy(), v[1], not t[2]):
                    self.emit(s, "panic", self.site(fr, t[5] if len(t) > 5 else None))
                res = self.assume(st, v[1], t[2])
                return [("go", s, t[4]) for s in res]
            return [("go", st, t[4])]
        if k == "switch":
            return self.switch(fr, t, st)
        if k == "call":
            return self.call_term(fr, t, st)
        raise GiveUp("terminator " + k)

    def switch(self, fr, t, st):
        v = self.operand(st, fr, t[1])
        out = []
        if v[0] == "b":
            tt = fr.body.d.types[t[4]]
            targets = dict((a, b) for a, b in t[2])
            for val in (False, True):
                bb = targets.get(1 if val else 0, t[3])
                for s in self.assume(st.copy(), v[1], val):
                    s.log(f"{self.site(fr, t[5])}: branch {'taken' if val else 'not taken'}")
                    out.append(("go", s, bb))
            return out
        if v[0] == "i":
            l = v[1]
            rest = st
            for val, bb in t[2]:
                if val >= 1 << 63 and fr.body.d.types[t[4]]["k"] == "int":
                    val -= 1 << (128 if val >= 1 << 64 else 64)
                if l.is_const():
                    if self.same_const(l.c, val, fr, t):
                        return [("go", rest, bb)]
                    continue
                for s in self.assume(rest.copy(), ("eq", l - val)):
                    out.append(("go", s, bb))
                r = self.assume(rest, ("ne", l - val))
                if not r:
                    return out
                rest = r[0]
            out.append(("go", rest, t[3]))
            return out
        # unknown: every target
        self.unknowns.append("switch on " + str(v)[:60])
        for val, bb in t[2]:
            s = st.copy()
            s.lossy = True
            out.append(("go", s, bb))
        st.lossy = True
        out.append(("go", st, t[3]))
        return out

    def same_const(self, c, val, fr, t):
        if c == val:
            return True
        # sign representations
        for bits in (8, 16, 32, 64, 128):
            if c < 0 and val == c + (1 << bits):
                return True
        return False

    def site(self, fr, line):
        return f"{line} in {fr.body.path}"

    # ---------- operands, rvalues ----------
    def operand(self, st, fr, o):
        k = o[0]
        if k in ("c", "m"):
            pl = self.resolve(st, fr, o[1])
            v = self.read(st, pl)
            if pl[0][0] == "cell":
                self.emit(st, "touch", pl[0], "move" if k == "m" else "copy", fr.body.path)
            return v
        if k == "rc":
            return FALSE
        return self.constant(st, fr, o[1])

    def constant(self, st, fr, c):
        ty = Ty(fr.body.d, c["ty"])
        if "fn" in c:
            return ("fn", self.callee_id(fr.body.d, c["fn"]))
        if "promoted" in c:
            return self.promoted(st, fr, c, ty)
        if "str" in c:
            return ("str", c["str"])
        if "variant" in c:
            return ("adt", ty.path, c["variant"], ())
        v = c.get("v")
        if v is not None:
            if ty.k == "bool":
                return B(bool(v))
            if ty.k in ("uint", "int", "char"):
                return I(v)
        if "agg" in c and ty.k in ("adt", "tuple"):
            return ("adt", ty.path if ty.k == "adt" else "()", c["agg"][0], tuple(self.constant(st, fr, x) for x in c["agg"][1]))
        if ty.k == "tuple" and not ty.args():
            return UNIT
        if ty.k == "adt" and not ty.is_enum() and ty.nfields(0) == 0:
            return ("adt", ty.path, 0, ())
        if ty.k == "closure":
            return ("sym", ("const", ty.s), ty)
        return self.make_sym(("const", str(c.get("cpath", ty.s)), str(c.get("v"))), ty)

    def promoted(self, st, fr, c, ty):
        p = c["promoted"]
        if "pbody" in c and self.depth < 60:
            key = ("P", fr.body.key, str(p))
            b = self.pbodies.get(key)
            if b is None:
                b = self.pbodies[key] = Body(fr.body.d, key, c["pbody"])
            if not b.loops:
                self.depth += 1
                try:
                    outs = self.run(Frame(key, b, ty, None), 0, st.copy(), None)
                finally:
                    self.depth -= 1
                if len(outs) == 1 and outs[0][0] == "ret":
                    mem = outs[0][1].mem
                    new = {k: v for k, v in mem.items() if k[0] == "L" and k[1] == key}
                    v = new.pop(("L", key, 0), UNDEF)
                    if v != UNDEF:
                        st.mem.update(new)
                        return v
        return self.make_sym(("promoted", fr.body.key, str(p)), ty)

    def callee_id(self, d, callee):
        k = (d.tag, id(callee))
        i = self.callee_ix.get(k)
        if i is None:
            i = len(self.callees)
            self.callees.append((d, callee))
            self.callee_ix[k] = i
        return i

    def assign(self, fr, st, place, rv, line):
        if rv[0] == "disc":
            return self.discriminant(fr, st, place, rv)
        if rv[0] == "bin" and rv[1].startswith("Sub"):
            r = self.subtract(fr, st, rv, line)
            if r is not None:
                for s, v in r:
                    self.write(s, self.resolve(s, fr, place), v)
                return [s for s, _ in r]
        if rv[0] == "bin" and rv[1] == "Add":
            r = self.addition(fr, st, rv, line)
            if r is not None:
                for s, v in r:
                    self.write(s, self.resolve(s, fr, place), v)
                return [s for s, _ in r]
        if rv[0] == "cast" and Ty(fr.body.d, rv[3]).k in ("uint", "int"):
            v = self.operand(st, fr, rv[2])
            if v[0] == "b" and not isinstance(v[1], bool):
                out = []
                for n, r in zip((1, 0), self.branch(st, v[1])):
                    out += [self.put(s, self.resolve(s, fr, place), I(n)) for s in r]
                return out
            r = self.narrowed(fr, st, v, rv, line)
            if r is not None:
                return [self.put(s, self.resolve(s, fr, place), x) for s, x in r]
        if rv[0] == "bin" and rv[1] == "BitAnd":
            r = self.masked(fr, st, rv, line)
            if r is not None:
                return [self.put(s, self.resolve(s, fr, place), x) for s, x in r]
        v = self.rvalue(st, fr, rv, line)
        dst = self.resolve(st, fr, place)
        if dst[0][0] == "cell":
            self.emit(st, "touch", dst[0], "write", self.site(fr, line))
        if rv[0] == "agg" and v[0] == "adt":
            self.emit(st, "agg", v, self.site(fr, line))
        self.write(st, dst, v)
        return [st]

    def subtract(self, fr, st, rv, line):
        a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
        if a[0] != "i" or b[0] != "i":
            return None
        d = a[1] - b[1]
        wo = rv[1] == "SubWithOverflow"

        def mk(l, o):
            return tup(I(l), B(o)) if wo else I(l)
        if self.is_signed(fr, rv[2]) or st.facts.proves_le(-d):
            return [(st, mk(d, False))]
        out = []
        s1 = st.copy()
        for s in self.assume(s1, ("le", -d)):
            out.append((s, mk(d, False)))
        for s in self.assume(st, ("le", d + 1)):
            s.log(f"{self.site(fr, line)}: subtraction wraps")
            out.append((s, mk(d + (1 << 64), True)))
        return out

    WIDTH = {"u8": 8, "u16": 16, "u32": 32}

    def operand_ty(self, fr, o):
        if o[0] in ("c", "m"):
            n = o[1]
            if not n[1]:
                return fr.body.lty(n[0])
            if n[1][-1][0] == "f":
                return Ty(fr.body.d, n[1][-1][2])
        if o[0] == "k":
            return Ty(fr.body.d, o[1]["ty"])
        return None

    def low(self, st, key, bounds):
        """a number that is a function of its key, below the given bounds and otherwise arbitrary"""
        n = self.bitmemo.get(key)
        if n is None:
            self.serial += 1
            n = self.bitmemo[key] = self.serial
        r = atom(("low", n))
        for b in bounds:
            st.facts = st.facts.add_le(r - b)
        return r

    def narrowed(self, fr, st, v, rv, line):
        """a conversion to a narrower integer keeps the value only if it fits"""
        w = self.WIDTH.get(Ty(fr.body.d, rv[3]).s)
        t = self.operand_ty(fr, rv[2])
        if w is None or t is None or t.s in self.WIDTH and self.WIDTH[t.s] <= w or t.k not in ("uint", "ref", "ptr"):
            return None
        if v[0] == "ref":
            v = I(self.addr(st, v))
        if v[0] != "i":
            return None
        x, top = v[1], (1 << w) - 1
        if x.is_const():
            return [(st, I(const(x.c & top)))]
        s2 = st.copy()
        st.facts = st.facts.add_le(x - top)
        s2.facts = s2.facts.add_le(const(top + 1) - x)
        out = [] if st.facts.contradicts([]) else [(st, I(x))]
        if not s2.facts.contradicts([]):
            s2.log(f"{self.site(fr, line)}: the conversion drops high bits")
            out.append((s2, I(self.low(s2, ("low", w, x), [top, x]))))
        return out

    def masked(self, fr, st, rv, line):
        """x & constant, where the constant is not a low-bit mask: either all set bits of x are in the constant or the result is smaller"""
        a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
        if a[0] != "i" or b[0] != "i":
            return None
        x, y = (b[1], a[1]) if a[1].is_const() else (a[1], b[1])
        if x.is_const() or not y.is_const() or y.c <= 0 or y.c & (y.c + 1) == 0:
            return None
        s2 = st.copy()
        st.facts = st.facts.add_le(x - y)
        s2.facts = s2.facts.add_le(const(1) - x)
        out = [] if st.facts.contradicts([]) else [(st, I(x))]
        if not s2.facts.contradicts([]):
            r = self.low(s2, ("mask", y.c, x), [x - 1, y])
            s2.log(f"{self.site(fr, line)}: bits are masked out")
            out.append((s2, I(r)))
        return out

    def addition(self, fr, st, rv, line):
        """a plain addition (no overflow check in this configuration) wraps if its operands come straight from the caller"""
        if self.is_signed(fr, rv[2]):
            return None
        a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
        if a[0] != "i" or b[0] != "i":
            return None
        return self.wrapping(st, a[1] + b[1], f"{self.site(fr, line)}: addition wraps")

    def wrapping(self, st, r, what):
        """[(state, value)] of a sum modulo 2^64; None: it cannot exceed the range"""
        if not any(raw_int(x) for x in r.atoms()) or any(c < 0 for _, c in r.t):
            return None
        s2 = st.copy()
        f = s2.facts.add_le(const(1 << 64) - r)
        seen = set(r.atoms())
        for l in s2.facts.le:
            seen.update(l.atoms())
        for x in seen:
            # lengths and counters stay far below the range of the type
            f = f.add_le(atom(x) - ((1 << 64) - 1 if raw_int(x) else 1 << 60))
        s2.facts = f
        if f.contradicts([]):
            return None
        s2.log(what)
        st.facts = st.facts.add_le(r - ((1 << 64) - 1))
        return [(st, I(r)), (s2, I(r - (1 << 64)))]

    def is_signed(self, fr, o):
        if o[0] in ("c", "m"):
            n = o[1]
            if not n[1]:
                return fr.body.lty(n[0]).k == "int"
            last = n[1][-1]
            if last[0] == "f":
                return Ty(fr.body.d, last[2]).k == "int"
        if o[0] == "k":
            return Ty(fr.body.d, o[1]["ty"]).k == "int"
        return False

    def discriminant(self, fr, st, place, rv):
        src = self.resolve(st, fr, rv[1])
        return [self.put(s, self.resolve(s, fr, place), d) for s, d in self.discr_of(st, src)]

    def put(self, s, pl, v):
        self.write(s, pl, v)
        return s

    def discr_of(self, st, src):
        v = self.read(st, src)
        if v[0] == "adt":
            return [(st, I(self.disc_value(v)))]
        if v[0] == "sym" and v[2] is not None and v[2].is_enum():
            out = []
            vs = v[2].variants()
            known = st.syms.get(("variant", v[1]))
            for i, var in enumerate(vs):
                if known is not None and known != i:
                    continue
                s = st.copy()
                if known is None:
                    s.syms = dict(s.syms)
                    s.syms[("variant", v[1])] = i
                self.write(s, src, self.expand(v, i))
                out.append((s, I(var["d"])))
            return out
        if v[0] == "b":
            return [(st, v)]
        if v[0] == "i":  # an optional number that is not zero
            a, b = self.branch(st, flit("eq", v[1]))
            return [(s, I(0)) for s in a] + [(s, I(1)) for s in b]
        return [(st, self.unknown(st, "discriminant of " + str(v)[:50]))]

    def disc_value(self, v):
        for d in (self.crate, self.models):
            p = v[1][3:] if v[1].startswith("m::") else v[1]
            a = d.adts.get(p)
            if a and a["enum"] and isinstance(v[2], int):
                return a["variants"][v[2]]["d"]
        return v[2] if isinstance(v[2], int) else 0

    def rvalue(self, st, fr, rv, line):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "raw"):
            root, proj = self.resolve(st, fr, rv[2])
            if root[0] == "T" and len(root) == 2 and not proj:
                return self.read(st, (root, proj))
            return ("ref", root, proj)
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            t = Ty(fr.body.d, rv[3])
            if v[0] == "b" and t.k in ("uint", "int"):
                if v[1] is True or v[1] is False:
                    return I(int(v[1]))
                return self.unknown(st, "bool as int", t)
            if v[0] == "adt" and t.k in ("uint", "int"):
                return I(self.disc_value(v))
            if v[0] == "ref" and t.k in ("uint", "int"):
                return I(self.addr(st, v))
            return v
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not" and v[0] == "b":
                return B(fnot(v[1]))
            if rv[1] == "Not" and v[0] == "i" and rv[2][0] in ("c", "m") and not rv[2][1][1] and fr.body.lty(rv[2][1][0]).s == "usize":
                return I(const((1 << 64) - 1) - v[1])
            if rv[1] == "Neg" and v[0] == "i":
                return I(-v[1])
            if rv[1] == "PtrMetadata":
                if v[0] == "ref":
                    return I(self.slice_len(st, (v[1], v[2])))
                if is_adt(v, "m::SlotSlice"):
                    return I(v[3][2][1] - v[3][1][1])
            return self.unknown(st, "unary " + rv[1])
        if k == "bin":
            return self.binary(st, fr, rv, line)
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in rv[2])
            kind = rv[1]
            if kind[0] == "adt":
                return ("adt", fr.body.d.fix(kind[1]), kind[2], ops)
            if kind[0] == "tuple":
                return ("adt", "()", 0, ops)
            if kind[0] == "closure":
                return ("adt", "{c}", kind[2] if len(kind) > 2 and kind[2] else kind[1], ops)
            if kind[0] == "array":
                return ("adt", "[]", 0, ops)
            if kind[0] == "rawptr" and ops:
                return ops[0]
            return self.unknown(st, "aggregate " + str(kind[0]))
        if k == "repeat":
            return ("sym", self.fresh("rep"), None)
        return self.unknown(st, "rvalue " + str(rv)[:60])

    def addr(self, st, v):
        return atom(("addr", v[1], v[2]))

    def binary(self, st, fr, rv, line):
        op = rv[1]
        a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
        return self.binop(st, op, a, b)

    def binop(self, st, op, a, b):
        wo = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            if base == "Add":
                r = x + y
                return tup(I(r), B(False)) if wo else I(r)
            if base == "Sub":
                return tup(I(x - y), B(False)) if wo else I(x - y)
            if base == "Mul":
                r = self.mul(st, x, y)
                return tup(I(r), B(False)) if wo else I(r)
            if base == "Div":
                return I(self.div(st, x, y))
            if base == "Rem":
                return I(x - self.mul(st, self.div(st, x, y), y))
            if base == "Lt":
                return B(flit("le", x - y + 1))
            if base == "Le":
                return B(flit("le", x - y))
            if base == "Gt":
                return B(flit("le", y - x + 1))
            if base == "Ge":
                return B(flit("le", y - x))
            if base == "Eq":
                return B(flit("eq", x - y))
            if base == "Ne":
                return B(flit("ne", x - y))
            r = self.bits(st, base, x, y)
            if r is not None:
                return tup(I(r), B(False)) if wo else I(r)
            return self.unknown(st, "integer op " + op)
        if a[0] == "b" and b[0] == "b":
            f, g = a[1], b[1]
            if base == "BitAnd":
                return B(self.fand(f, g))
            if base == "BitOr":
                return B(fnot(self.fand(fnot(f), fnot(g))))
            if base in ("Eq", "Ne", "BitXor"):
                eq = self.feq(f, g)
                return B(eq if base == "Eq" else fnot(eq))
            return self.unknown(st, "bool op " + op)
        if a[0] == "ref" and b[0] == "ref":
            x, y = self.addr_pair(st, a, b)
            return self.binop(st, op, I(x), I(y))
        if a[0] == "adt" and b[0] == "adt" and not a[3] and not b[3] and base in ("Eq", "Ne"):
            return B((a[2] == b[2]) == (base == "Eq"))
        if wo:
            return tup(self.unknown(st, "op " + op), B(False))
        return self.unknown(st, "op " + op + " on " + a[0] + "," + b[0])

    def bits(self, st, base, x, y):
        """bitwise operations: exact for constants, shifts by constants and low-bit masks; otherwise a bounded unknown number"""
        if base not in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
            return None
        if x.is_const() and y.is_const() and x.c >= 0 and y.c >= 0:
            return const({"Shl": lambda: (x.c << min(y.c, 63)) & (2**64 - 1), "Shr": lambda: x.c >> min(y.c, 63), "BitAnd": lambda: x.c & y.c,
                          "BitOr": lambda: x.c | y.c, "BitXor": lambda: x.c ^ y.c}[base]())
        if base == "Shr" and y.is_const() and 0 <= y.c < 64:
            return self.div(st, x, const(1 << y.c))
        if base == "Shl" and y.is_const() and 0 <= y.c < 32:
            return x.scale(1 << y.c)
        if base == "BitAnd":
            if x.is_const():
                x, y = y, x
            if y.is_const() and y.c == 0:
                return const(0)
            if y.is_const() and y.c > 0 and (y.c & (y.c + 1)) == 0:
                return x - self.div(st, x, const(y.c + 1)).scale(y.c + 1)
            if x == y:
                return x
        if base == "BitOr" and x == y:
            return x
        if base == "BitXor" and x == y:
            return const(0)
        if base in ("BitOr", "BitXor") and (x == const(0) or y == const(0)):
            return x + y
        if base == "Shl" and x == const(1):
            # a power of two: at least 1 and above its exponent
            r = atom(("pow2", y))
            st.facts = st.facts.add_le(const(1) - r)
            if st.facts.proves_le(y - 63):
                st.facts = st.facts.add_le(y + 1 - r)
            return r
        r = self.weak_int((base, x, y))
        f = st.facts
        if base == "BitAnd":
            f = f.add_le(r - x).add_le(r - y)
        elif base == "BitOr":
            f = f.add_le(x - r).add_le(y - r).add_le(r - x - y)
        elif base == "BitXor":
            f = f.add_le(r - x - y)
        elif base == "Shr":
            f = f.add_le(r - x)
        st.facts = f
        return r

    def weak_int(self, key):
        """an integer that is a function of its key, whose exact value is not modelled"""
        n = self.bitmemo.get(key)
        if n is None:
            self.serial += 1
            n = self.bitmemo[key] = self.serial
        return atom(("bits", n))

    def addr_pair(self, st, a, b):
        """addresses of two places; equal places have equal addresses, slots of one vector differ iff indices do"""
        if (a[1], a[2]) == (b[1], b[2]):
            x = self.addr(st, a)
            return x, x
        ra, rb = a[1], b[1]
        if ra[0] == "slot" and rb[0] == "slot" and ra[1] == rb[1] and a[2] == b[2]:
            if st.facts.proves_eq(ra[2] - rb[2]):
                x = self.addr(st, a)
                return x, x
            x, y = self.addr(st, a), self.addr(st, b)
            return x, y
        return self.addr(st, a), self.addr(st, b)

    def fand(self, f, g):
        if f is False or g is False:
            return False
        if f is True:
            return g
        if g is True:
            return f
        return ("and", f, g)

    def feq(self, f, g):
        if f is True:
            return g
        if g is True:
            return f
        if f is False:
            return fnot(g)
        if g is False:
            return fnot(f)
        return ("or", ("and", f, g), ("and", fnot(f), fnot(g)))

    def mul(self, st, x, y):
        if x.is_const():
            return y.scale(x.c)
        if y.is_const():
            return x.scale(y.c)
        r = const(0)
        for tx in list(x.t) + ([(None, x.c)] if x.c else []):
            for ty in list(y.t) + ([(None, y.c)] if y.c else []):
                c = tx[1] * ty[1]
                if tx[0] is None and ty[0] is None:
                    r = r + c
                elif tx[0] is None:
                    r = r + Lin(0, ((ty[0], c),))
                elif ty[0] is None:
                    r = r + Lin(0, ((tx[0], c),))
                else:
                    m = self.mono(tx[0], ty[0])
                    r = r + Lin(0, ((m, c),))
                    self.mono_facts(st, tx[0], ty[0])
        return r

    def mono(self, a, b):
        fs = []
        for z in (a, b):
            if isinstance(z, tuple) and z[0] == "mul":
                fs += list(z[1:])
            else:
                fs.append(z)
        return ("mul",) + tuple(sorted(fs, key=repr))

    def mono_facts(self, st, a, b):
        """products of known bounds on a with the non-negative b, and the other way round"""
        for p, q in ((a, b), (b, a)):
            qv = atom(q)
            for f in st.facts.le:
                if f.coef(p) and len(f.t) <= 4 and f.coef(q) == 0 and not any(isinstance(z, tuple) and z[0] == "mul" for z, _ in f.t):
                    r = const(0)
                    for z, c in f.t:
                        r = r + Lin(0, ((self.mono(z, q), c),))
                    if f.c:
                        r = r + Lin(0, ((q, f.c),))
                    st.facts = st.facts.add_le(r)

    def div(self, st, x, y):
        if x.is_const() and y.is_const() and y.c:
            return const(x.c // y.c)
        if y.is_const() and y.c == 1:
            return x
        q = ("div", x, y)
        ql = atom(q)
        # q*y <= x < q*y + y
        if y.is_const():
            p = ql.scale(y.c)
        else:
            p = const(0)
            for z, c in y.t:
                p = p + Lin(0, ((self.mono(z, q), c),))
            if y.c:
                p = p + ql.scale(y.c)
        st.facts = st.facts.add_le(p - x).add_le(x - p - y + 1)
        return ql

    # ---------- drops ----------
    def drop_matters(self, v):
        if v[0] != "adt" or v[1].endswith("::ManuallyDrop"):
            return False
        if v[1] == "m::MutHandle":
            return True
        dn = self.bytrait.get(("core::ops::Drop", "drop", v[1]))
        if dn is not None and dn.local:
            return True
        return any(self.drop_matters(x) for x in v[3])

    def drop_value(self, st, v, site):
        if v[0] != "adt" or v[1].endswith("::ManuallyDrop"):
            return [st]
        if v[1] == "m::MutHandle":
            self.contracts.release_handle(self, st, v, site)
            return [st]
        states = [st]
        dn = self.bytrait.get(("core::ops::Drop", "drop", v[1]))
        if dn is not None and dn.local:
            self.serial += 1
            root = ("T", "drop", self.serial)
            st.mem[root] = v
            res = self.exec_body(dn, [("ref", root, ())], st, None, site)
            states = []
            for s, _ in res:
                v = s.mem.pop(root, v)
                states.append(s)
        for f in v[3]:
            nxt = []
            for s in states:
                nxt += self.drop_value(s, f, site)
            states = nxt
        return states

    # ---------- calls ----------
    def call_term(self, fr, t, st):
        args = [self.operand(st, fr, a) for a in t[2]]
        site = self.site(fr, t[5])
        destty = Ty(fr.body.d, t[6])
        if t[1][0] == "def":
            outs = self.call_def(fr.body.d, t[1][1], args, st, destty, site, fr)
        else:
            f = self.operand(st, fr, t[1][1])
            outs = self.call_value(f, None, args, st, destty, site)
        res = []
        for s, v in outs:
            if t[4] is None:
                continue
            if v[0] == "sym" and (v[2] is None or v[2].k in ("param", "alias")) and destty.k in ("bool", "uint", "int", "char"):
                v = self.make_sym(v[1], destty)     # a result of caller code seen through generic functions
            self.write(s, self.resolve(s, fr, t[3]), v)
            res.append(("go", s, t[4]))
        return res

    def call_def(self, d, callee, args, st, destty, site, fr=None):
        if "ctor" in callee:
            return [(st, ("adt", d.fix(callee["ctor"]), callee["variant"], tuple(args)))]
        r = self.contracts.call(self, d, callee, args, st, destty, site, fr)
        if r is not None:
            return r
        inst = callee.get("inst")
        if inst:
            b = d.fns.get(inst)
            if b is not None:
                if b.closure and len(args) == 2:
                    return self.call_value(args[0], None, list(args[1][3]) if args[1][0] == "adt" else [args[1]], st, destty, site)
                return self.exec_body(b, args, st, destty, site)
        r = self.contracts.dispatch(self, d, callee, args, st, destty, site, fr)
        if r is not None:
            return r
        return self.contracts.unknown_call(self, d, callee, args, st, destty, site)

    def call_value(self, f, fplace, args, st, destty, site):
        """call a closure/function value with untupled arguments"""
        hops = 0
        while f[0] == "ref" and hops < 6:
            fplace = (f[1], f[2])
            f = self.read(st, fplace)
            hops += 1
        if f[0] == "adt" and f[1] == "{c}":
            b = self.crate.fns.get(f[2]) or self.models.fns.get(f[2])
            if b is None:
                return [(st, self.unknown(st, "closure body " + str(f[2])[:60], destty))]
            tmp = None
            if b.lty(1).k == "ref":
                if fplace is None:
                    self.serial += 1
                    tmp = ("T", "clo", self.serial)
                    st.mem[tmp] = f
                    fplace = (tmp, ())
                env = ("ref", fplace[0], fplace[1])
            else:
                env = f
            outs = self.exec_body(b, [env] + list(args), st, destty, site)
            if tmp is not None:
                for s, _ in outs:
                    s.mem.pop(tmp, None)
            return outs
        if f[0] == "fn":
            d, c = self.callees[f[1]]
            return self.call_def(d, c, list(args), st, destty, site)
        return self.contracts.user_call(self, st, ("call", f), list(args), destty, site)

    # ---------- loops ----------
    def settle(self, st):
        """flags whose value is determined by the facts of the state"""
        for r, v in list(st.mem.items()):
            if v[0] == "b" and v[1] not in (True, False):
                t = self.truth(st, v[1])
                if t in (True, False):
                    st.mem[r] = B(t)
        return st

    def flags(self, st, like=None):
        """iterators that have come to their end, and boolean variables (those known in `like`) whose value is known"""
        s = {k for k in st.syms if isinstance(k, tuple) and k and k[0] == "done"}
        like = st if like is None else like
        for r, v in like.mem.items():
            if r[0] == "L" and v[0] == "b" and v[1] in (True, False):
                x = st.mem.get(r, v)
                s.add((r, x[1] if x[0] == "b" and x[1] in (True, False) else v[1]))
            elif r[0] == "L" and v[0] == "adt" and not v[3]:
                # the variant of an enum without data
                x = st.mem.get(r, v)
                if x[0] == "adt" and x[1] == v[1] and not x[3]:
                    s.add((r, "variant", x[2]))
            elif r[0] == "L" and v[0] == "adt":
                # the position in an array of a few elements
                for path in few(v):
                    x = st.mem.get(r, v)
                    for i in path:
                        x = x[3][i] if x[0] == "adt" and i < len(x[3]) else UNIT
                    if x[0] == "i" and x[1].is_const():
                        s.add((r, path, x[1].c))
        return frozenset(s)

    def run_loop(self, fr, h, blocks, S0):
        self.emit(S0, "enter", fr, h)
        out = self.iterate(fr, h, blocks, S0)
        for o in out:
            self.emit(o[1], "leave", fr, h)
        return out

    def iterate(self, fr, h, blocks, S0, peeled=0):
        self.loops_seen.add((fr.body.key, h))
        ctx = (h, blocks)
        out = []
        start_serial = self.serial
        r0 = self.run(fr, h, S0.copy(), ctx)
        backs = []
        for o in r0:
            (backs if o[0] == "back" else out).append(o)
        backs = [self.settle(o[1]) for o in backs]
        if not backs:
            return out
        if peeled < 2 and len(backs) <= 6 and any(not same_shape(self, S0, b) for b in backs):
            # the kind of some value changes on the way: analyse the later iterations on their own
            for b in backs:
                out += self.iterate(fr, h, blocks, b, peeled + 1)
            return out
        mine = self.flags(S0)
        apart = [b for b in backs if self.flags(b, S0) != mine]
        if apart and peeled < 3:
            # a caller's iterator came to its end on the way: analyse the iterations after that on their own
            backs = [b for b in backs if self.flags(b, S0) == mine]
            for b in apart:
                out += self.iterate(fr, h, blocks, b, peeled + 1)
            if not backs:
                return out
        else:
            mine = None

        def same(o):
            return o[0] == "back" and (mine is None or self.flags(o[1], S0) == mine)
        gen = Generaliser(self, S0, backs, start_serial)
        H = None
        for rnd in range(10):
            H = gen.header()
            self.quiet += 1
            try:
                r1 = self.run(fr, h, H.copy(), ctx)
            finally:
                self.quiet -= 1
            b1 = [self.settle(o[1]) for o in r1 if same(o)]
            if gen.absorb(H, b1):
                break
        else:
            raise GiveUp("loop not generalised in " + fr.body.path)
        # invariants from the facts of the previous iteration
        if b1:
            for _ in range(2):
                n = gen.infer(H, b1)
                if not n:
                    break
                H = gen.header()
                self.quiet += 1
                try:
                    r1 = self.run(fr, h, H.copy(), ctx)
                finally:
                    self.quiet -= 1
                b1 = [self.settle(o[1]) for o in r1 if same(o)]
                if not gen.absorb(H, b1):
                    gen.inv = []
                    for _ in range(5):
                        H = gen.header()
                        self.quiet += 1
                        try:
                            r1 = self.run(fr, h, H.copy(), ctx)
                        finally:
                            self.quiet -= 1
                        b1 = [self.settle(o[1]) for o in r1 if same(o)]
                        if gen.absorb(H, b1):
                            break
                    else:
                        raise GiveUp("loop not generalised in " + fr.body.path)
        # a loop whose body cannot be entered for a third time: the states after the first iteration are all there are
        for H in [gen.header()] if b1 or len(backs) > 4 else backs:
            for o in self.run(fr, h, H.copy(), ctx):
                if o[0] != "back":
                    out.append(o)
                elif not same(o):
                    self.emit(o[1], "back", fr, h, gen, H)
                    out += self.iterate(fr, h, blocks, self.settle(o[1]), peeled + 1)
                else:
                    self.emit(o[1], "back", fr, h, gen, H)
        return out


class Frame:
    __slots__ = ("fid", "body", "destty", "site")

    def __init__(self, fid, body, destty, site):
        self.fid = fid
        self.body = body
        self.destty = destty
        self.site = site


def few(v, d=0):
    """where iterators over arrays of a few elements keep their position"""
    if v[1] in ("m::Items", "m::SliceIter"):
        i, n = v[3][1], v[3][2]
        if i[0] == n[0] == "i" and i[1].is_const() and n[1].is_const() and n[1].c <= 3:
            yield (1,)
    elif d < 4:
        for k, x in enumerate(v[3]):
            if x[0] == "adt":
                for p in few(x, d + 1):
                    yield (k,) + p


def shape(v):
    if v[0] == "adt":
        return ("adt", v[1], v[2]) + tuple(shape(x) for x in v[3])
    return v[0]


def same_shape(eng, a, b):
    for r, v in a.mem.items():
        w = b.mem.get(r)
        if w is None or r[0] == "G":
            continue
        if shape(v) != shape(w):
            return False
    return True


VALTAGS = {"i", "b", "adt", "ref", "sym", "fn", "str", "undef"}


def is_value(v):
    return isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] in VALTAGS and not (v[0] == "i" and not isinstance(v[1], Lin))


class Generaliser:
    """header state of the 2nd and later iterations of a loop"""

    def __init__(self, eng, S0, backs, serial):
        self.e = eng
        self.facts = None
        self.S0 = S0
        self.B0 = backs
        self.serial = serial
        self.k = atom(eng.fresh("k"))
        self.step = {}    # leaf -> delta (Lin): value = x0 + delta*(k+1)
        self.var = {}     # leaf -> atom
        self.havoc = set()
        self.unht = set()     # replaced leaves that are not equal to their group
        self.hgroups = {}     # (value before, value after one iteration) -> first leaf
        self.dead = set()
        self.inv = []     # extra facts over k and var atoms
        self.vmono = {}   # leaf -> set of '>=','<='
        self.vstep = {}   # leaf -> [(min,max)]
        self.vstep1 = {}  # the same, counted from the state after the first iteration
        self.ties1 = {}
        self.ties = {}
        self.lossy = any(b.lossy for b in backs)
        roots = set(S0.mem)
        for b in backs:
            roots |= set(b.mem)
        self.roots = sorted(roots, key=repr)
        self.first = {}
        for r in self.roots:
            vals = [eng_root(eng, b, r) for b in backs]
            if any(v is None for v in vals) or (r[0] in ("L", "T") and r not in S0.mem):
                self.dead.add((r,))
                continue
            v0 = S0.mem.get(r)
            if v0 is None:
                v0 = eng.read_root(S0, r)
            for v, b in zip(vals, backs):
                self.facts = b.facts
                self.diff(v0, v, (r,), None)
        self.base = backs[0]
        for p in list(self.step):
            ds = set()
            for b in backs:
                x, y = self.leaf(S0, p), self.leaf(b, p)
                self.facts = b.facts
                ds.add(None if x is None or y is None else self.amount(y - x))
            if len(ds) != 1 or None in ds:
                self.to_var(p)

    # ---- structural comparison ----
    def diff(self, a, b, path, owner):
        """record differences of the header value a and the later value b"""
        if a is b or a == b:
            return
        if is_value(a) or is_value(b):
            owner = path
        if isinstance(a, Lin) and isinstance(b, Lin):
            self.numeric(a, b, path)
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a[0] if a else 0) == type(b[0] if b else 0) \
                and (not a or not isinstance(a[0], str) or a[0] == b[0]):
            if a and a[0] == "adt" and (a[1] != b[1] or a[2] != b[2] or len(a[3]) != len(b[3])):
                self.havoc.add(owner)
                return
            if a and a[0] == "b":
                self.havoc.add(owner)
                return
            if a and a[0] in FRESH and len(a) == 2 and not is_value(a):
                self.havoc.add(owner or path)
                return
            for i, (x, y) in enumerate(zip(a, b)):
                self.diff(x, y, path + (i,), owner)
            return
        self.havoc.add(owner or path)

    def stable(self, l):
        for a in l.atoms():
            if not self.stable_atom(a):
                return False
        return True

    def stable_atom(self, a):
        if isinstance(a, tuple):
            if len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], int) and a[0] in FRESH:
                return a[1] <= self.serial
            return all(self.stable_atom(x) for x in a)
        if isinstance(a, Lin):
            return self.stable(a)
        return True

    def advances(self, H, b):
        """something of the loop's own moves on in every iteration and cannot do so for ever, whatever other threads do"""
        for path in list(self.step) + list(self.var):
            if path[0][0] == "G" or self.covered(path):
                continue
            x, y = self.leaf(H, path), self.leaf(b, path)
            if x is None or y is None:
                continue
            if b.facts.proves_le(y + 1 - x):
                return True
            if b.facts.proves_le(x + 1 - y) and self.bounded(x, b):
                return True
        return False

    def bounded(self, x, b):
        m = atom(self.e.fresh("M"))
        f = b.facts
        atoms = set(x.atoms())
        for l in tuple(f.le) + tuple(f.ne):
            atoms |= set(l.atoms())
        for a in atoms:
            if self.stable_atom(a):
                f = f.add_le(atom(a) - m)
        return f.proves_le(x - m.scale(8) - (1 << 32))

    def amount(self, d):
        """a difference that is a known constant, though not written as one"""
        if not d.is_const() and self.facts is not None:
            for c in (1, 0, -1):
                if self.facts.proves_eq(d - c):
                    return Lin(c)
        return d

    def numeric(self, a, b, path):
        d = self.amount(b - a)
        if path in self.var:
            return
        if path in self.step:
            if self.step[path] != d:
                self.to_var(path)
            return
        if self.stable(d):
            self.step[path] = d
        else:
            self.to_var(path)

    def to_var(self, path):
        self.step.pop(path, None)
        self.var[path] = atom(self.e.fresh("w"))
        # assumed monotone as in the first iteration until a later one shows otherwise
        x0 = self.leaf(self.S0, path)
        ys = [(b, self.leaf(b, path)) for b in self.B0]
        if x0 is not None and all(y is not None for _, y in ys):
            self.vmono[path] = {n for n, sg in ((">=", -1), ("<=", 1)) if all(b.facts.proves_le((y - x0).scale(sg)) for b, y in ys)}

    def covered(self, path):
        return any(path[:n] in self.havoc or path[:n] in self.dead for n in range(1, len(path) + 1))

    # ---- construction ----
    def header(self):
        e = self.e
        H = self.S0.copy()
        H.trace = ("(later loop iteration)", self.S0.trace)
        H.lossy = self.S0.lossy or self.lossy
        kk = self.k + 1
        for r in self.roots:
            if (r,) in self.dead:
                H.mem.pop(r, None)
                continue
            v = self.base.mem.get(r)
            if v is None:
                v = e.read_root(self.base, r)
            v0 = self.S0.mem.get(r)
            if v0 is None:
                v0 = e.read_root(self.S0, r)
            H.mem[r] = self.build(v0, v, (r,), kk)
        f = H.facts
        for path, x in self.var.items():
            if self.covered(path):
                continue
            x0 = self.leaf(self.S0, path)
            if x0 is None:
                continue
            m = self.vmono.get(path, set())
            if ">=" in m:
                f = f.add_le(x0 - x)
            if "<=" in m:
                f = f.add_le(x - x0)
            st = self.vstep.get(path)
            if st:
                f = f.add_le(x0 + kk.scale(st[0]) - x)
                f = f.add_le(x - x0 - kk.scale(st[1]))
            st = self.vstep1.get(path)
            if st:
                x0 = self.leaf(self.base, path)
                f = f.add_le(x0 + self.k.scale(st[0]) - x)
                f = f.add_le(x - x0 - self.k.scale(st[1]))
        for a, (b, sg) in self.ties.items():
            xa, xb = self.leaf(self.S0, a), self.leaf(self.S0, b)
            if a in self.var and b in self.var and xa is not None and xb is not None:
                f = f.add_eq(self.var[a] - xa - (self.var[b] - xb).scale(sg))
        for a, (b, sg) in self.ties1.items():
            xa, xb = self.leaf(self.base, a), self.leaf(self.base, b)
            if a in self.var and b in self.var and xa is not None and xb is not None:
                f = f.add_eq(self.var[a] - xa - (self.var[b] - xb).scale(sg))
        for l in self.inv:
            f = f.add_le(l)
        H.facts = f
        return H

    def leaf(self, st, path):
        v = st.mem.get(path[0])
        if v is None:
            v = self.e.read_root(st, path[0])
        for i in path[1:]:
            if not isinstance(v, tuple) or i >= len(v):
                return None
            v = v[i]
        return v if isinstance(v, Lin) else None

    def build(self, v0, v, path, kk):
        if path in self.havoc:
            return self.fresh_like(v, path)
        if isinstance(v, Lin):
            if path in self.step and isinstance(v0, Lin):
                return v0 + self.e.mul(State(), kk, self.step[path]) if not self.step[path].is_const() else v0 + kk.scale(self.step[path].c)
            if path in self.var:
                return self.var[path]
            return v
        if isinstance(v, tuple):
            if not any(p[:len(path)] == path for p in self.touched()):
                return v
            out = []
            for i, x in enumerate(v):
                y = v0[i] if isinstance(v0, tuple) and i < len(v0) else None
                out.append(self.build(y, x, path + (i,), kk))
            return tuple(out)
        return v

    def touched(self):
        if getattr(self, "_tn", None) != (len(self.step), len(self.var), len(self.havoc)):
            self._tn = (len(self.step), len(self.var), len(self.havoc))
            self._t = list(self.step) + list(self.var) + list(self.havoc)
        return self._t

    def node(self, st, path):
        v = st.mem.get(path[0])
        if v is None:
            v = eng_root(self.e, st, path[0])
        for i in path[1:]:
            if not isinstance(v, tuple) or i >= len(v):
                return None
            v = v[i]
        return v

    def hrep(self, path):
        """leaves that always hold the same value keep doing so"""
        if path in self.unht:
            return path
        k = (self.node(self.S0, path), self.node(self.base, path))
        if k[0] is None or k[1] is None:
            return path
        return self.hgroups.setdefault(k, path)

    def check_hties(self, b1):
        bad = False
        for p in sorted(self.havoc - self.unht, key=repr):
            q = self.hrep(p)
            if q == p:
                continue
            if any(self.node(b, p) != self.node(b, q) for b in list(self.B0) + list(b1)):
                self.unht.add(p)
                bad = True
        return bad

    def fresh_like(self, v, path):
        e = self.e
        cache = self.__dict__.setdefault("hcache", {})
        path = self.hrep(path)
        if path in cache:
            return cache[path]
        if v[0] == "b":
            r = ("b", ("sym", e.fresh("w")))
        elif v[0] == "i":
            r = ("i", atom(e.fresh("w")))
        elif v[0] == "sym":
            r = ("sym", e.fresh("w"), v[2])
        elif v[0] == "adt" and v[1] in (OPT,):
            r = ("sym", e.fresh("?"), None)
            self.lossy = True
        else:
            r = ("sym", e.fresh("?"), None)
            self.lossy = True
        if v[0] == "adt":
            t = e.contracts.enum_ty(e, v[1])
            if t is not None:
                r = ("sym", r[1], t)
        cache[path] = r
        return r

    # ---- verification ----
    def absorb(self, H, b1):
        """True if every later header state is covered by H; otherwise refine"""
        before = (len(self.step), len(self.var), len(self.havoc), len(self.dead))
        changed = False
        for b in b1:
            self.facts = b.facts
            if b.lossy and not self.lossy and not self.S0.lossy:
                self.lossy = True
                changed = True
            for r in set(self.roots) | set(b.mem):
                if (r,) in self.dead:
                    continue
                if r not in H.mem and r not in self.roots:
                    # content first touched in a later iteration
                    if r[0] in ("L", "T"):
                        continue
                    self.roots.append(r)
                    self.diff(self.e.read_root(self.S0, r), b.mem[r], (r,), None)
                    if self.e.read_root(self.S0, r) != b.mem[r]:
                        changed = True
                    continue
                vb = eng_root(self.e, b, r)
                if vb is None:
                    self.dead.add((r,))
                    changed = True
                    continue
                if self.check(H.mem.get(r, UNDEF), vb, (r,), None):
                    changed = True
        if self.check_hties(b1):
            changed = True
        if changed:
            return False
        # monotonicity of the var leaves must be known before facts may use it
        ch2 = False
        for path, x in self.var.items():
            if self.covered(path):
                continue
            x0 = self.leaf(self.S0, path)
            if x0 is None:
                continue
            want = set()
            deltas = []
            okge = okle = True
            for st, base in [(b, x0) for b in self.B0] + [(b, x) for b in b1]:
                y = self.leaf(st, path)
                if y is None:
                    okge = okle = False
                    deltas.append(None)
                    break
                d = y - base
                deltas.append(d.c if d.is_const() else None)
                okge = okge and st.facts.proves_le(-d)
                okle = okle and st.facts.proves_le(d)
            if okge:
                want.add(">=")
            if okle:
                want.add("<=")
            cur = self.vmono.get(path)
            if cur is None:
                self.vmono[path] = want
                ch2 = ch2 or bool(want)
            elif not cur <= want:
                self.vmono[path] = cur & want
                ch2 = True
            if path not in self.vstep:
                if deltas and all(d is not None for d in deltas):
                    self.vstep[path] = (min(deltas), max(deltas))
                    ch2 = True
                else:
                    self.vstep[path] = None
            elif self.vstep[path] is not None:
                if not (deltas and all(d is not None for d in deltas)):
                    self.vstep[path] = None
                    ch2 = True
                else:
                    lo, hi = min(deltas), max(deltas)
                    if lo < self.vstep[path][0] or hi > self.vstep[path][1]:
                        self.vstep[path] = None
                        ch2 = True
            if len(self.B0) == 1 and b1 and self.vstep.get(path) is None:
                ds = [self.leaf(b, path) for b in b1]
                ds = [None if y is None or not (y - x).is_const() else (y - x).c for y in ds]
                okk = all(d is not None for d in ds)
                if path not in self.vstep1:
                    self.vstep1[path] = (min(ds), max(ds)) if okk else None
                    ch2 = ch2 or okk
                elif self.vstep1[path] is not None and not (okk and self.vstep1[path][0] <= min(ds) and max(ds) <= self.vstep1[path][1]):
                    self.vstep1[path] = None
                    ch2 = True
        # leaves that always change by the same (or the opposite) amount
        ties = {}
        if not getattr(self, "_tied", False):
            reps = []
            for path, x in self.var.items():
                if self.covered(path) or self.leaf(self.S0, path) is None:
                    continue
                for q in reps:
                    sg = next((sg for sg in (1, -1) if self._tie_ok(path, (q, sg), ())), None)
                    if sg is not None:
                        ties[path] = (q, sg)
                        break
                else:
                    reps.append(path)
        if not getattr(self, "_tied", False):
            self._tied = True
            if ties:
                self.ties = ties
                ch2 = True
        else:
            keep = {a: b for a, b in self.ties.items() if self._tie_ok(a, b, b1)}
            if keep != self.ties:
                self.ties = keep
                ch2 = True
            if len(self.B0) == 1 and b1:
                if self._tied is True:
                    self._tied = 2
                    reps = []
                    for path in self.var:
                        if path in self.ties or self.covered(path) or self.leaf(self.base, path) is None:
                            continue
                        for q in reps:
                            sg = next((sg for sg in (1, -1) if self._tie1_ok(path, (q, sg), b1, True)), None)
                            if sg is not None:
                                self.ties1[path] = (q, sg)
                                ch2 = True
                                break
                        else:
                            reps.append(path)
                else:
                    keep = {a: b for a, b in self.ties1.items() if self._tie1_ok(a, b, b1)}
                    if keep != self.ties1:
                        self.ties1 = keep
                        ch2 = True
        # verify inferred invariants still hold
        return not ch2

    def _tie_ok(self, a, bs, b1):
        b, sg = bs
        if b not in self.var:
            return False
        xa, xb = self.leaf(self.S0, a), self.leaf(self.S0, b)
        for st in list(self.B0) + list(b1):
            ya, yb = self.leaf(st, a), self.leaf(st, b)
            if ya is None or yb is None or not st.facts.proves_eq(ya - xa - (yb - xb).scale(sg)):
                return False
        return True

    def _tie1_ok(self, a, bs, b1, first=False):
        b, sg = bs
        if a not in self.var or b not in self.var:
            return False
        xa, xb = (self.var[a], self.var[b]) if first else (self.leaf(self.base, a), self.leaf(self.base, b))
        for st in b1:
            ya, yb = self.leaf(st, a), self.leaf(st, b)
            if ya is None or yb is None or not st.facts.proves_eq(ya - xa - (yb - xb).scale(sg)):
                return False
        return True

    def check(self, h, b, path, owner):
        if h is b or h == b:
            if path in self.step and isinstance(h, Lin) and not (self.step[path].is_const() and self.step[path].c == 0):
                self.to_var(path)
                return True
            if isinstance(h, tuple):
                ch = False
                for p in list(self.step):
                    if p[:len(path)] == path and len(p) > len(path) and not self.covered(p):
                        self.to_var(p)
                        ch = True
                return ch
            return False
        if path in self.havoc:
            return False
        if is_value(h) or is_value(b):
            owner = path
        if isinstance(h, Lin) and isinstance(b, Lin):
            if path in self.var:
                return False
            if path in self.step:
                if b - h == self.step[path] or self.amount(b - h) == self.step[path]:
                    return False
                self.to_var(path)
                return True
            self.to_var(path)
            return True
        if isinstance(h, tuple) and isinstance(b, tuple) and len(h) == len(b) and type(h[0] if h else 0) == type(b[0] if b else 0) \
                and (not h or not isinstance(h[0], str) or h[0] == b[0]):
            if h and h[0] == "adt" and (h[1] != b[1] or h[2] != b[2] or len(h[3]) != len(b[3])):
                self.havoc.add(owner)
                return True
            if h and h[0] == "b":
                self.havoc.add(owner)
                return True
            if h and h[0] in FRESH and len(h) == 2 and not is_value(h):
                self.havoc.add(owner or path)
                return True
            ch = False
            for i, (x, y) in enumerate(zip(h, b)):
                ch = self.check(x, y, path + (i,), owner) or ch
            return ch
        self.havoc.add(owner or path)
        return True

    # ---- invariant inference ----
    def infer(self, H, b1):
        """facts established by every iteration, expressed over the next header"""
        base = set(H.facts.le)
        cands = None
        k = self.k.t[0][0]
        for b in b1:
            subst = {}
            # next-header leaves in terms of this iteration: k' = k+1
            for path, x in self.var.items():
                if self.covered(path):
                    continue
                y = self.leaf(b, path)
                if y is None:
                    continue
                xa = x.t[0][0]
                d = y - x
                if d.is_const():
                    subst[xa] = x - d.c
                elif len(y.t) == 1 and y.t[0][1] == 1:
                    subst[y.t[0][0]] = x - y.c
            cs = set()
            for f in b.facts.le:
                if f in base:
                    continue
                g = Lin(f.c)
                for a, c in f.t:
                    if a == k:
                        g = g + (self.k - 1).scale(c)
                    elif a in subst:
                        g = g + subst[a].scale(c)
                    else:
                        g = g + Lin(0, ((a, c),))
                if all(self.stable_atom(a) or a == k or any(v.t[0][0] == a for v in self.var.values()) for a in g.atoms()):
                    # the old value of a var leaf that was not eliminated must not remain
                    cs.add(g)
            if cands is None:
                cands = cs
            else:
                cands |= cs
        new = []
        for g in sorted(cands or (), key=repr):
            if g in self.inv or g - 1 in self.inv or not g.atoms():
                continue
            if all(self.holds(g, b, False) for b in self.B0) and all(self.holds(g, b, True) for b in b1):
                new.append(g)
            elif all(self.holds(g - 1, b, False) for b in self.B0) and all(self.holds(g - 1, b, True) for b in b1):
                new.append(g - 1)
        if len(new) > 40:
            new = new[:40]
        self.inv += new
        return len(new)

    def holds(self, g, st, later):
        k = self.k.t[0][0]
        vars_ = {v.t[0][0]: p for p, v in self.var.items()}
        r = Lin(g.c)
        for a, c in g.t:
            if a == k:
                r = r + ((self.k + 1).scale(c) if later else Lin(0))
            elif a in vars_:
                y = self.leaf(st, vars_[a])
                if y is None:
                    return False
                r = r + y.scale(c)
            elif isinstance(a, tuple) and a[0] == "mul" and k in a[1:]:
                rest = list(a[1:])
                rest.remove(k)
                if any(x == k for x in rest):
                    return False
                if later:
                    m = ("mul",) + tuple(rest) if len(rest) > 1 else rest[0]
                    r = r + Lin(0, ((a, c),)) + Lin(0, ((m, c),))
            else:
                r = r + Lin(0, ((a, c),))
        return st.facts.proves_le(r)


def raw_int(a):
    """a number straight from the caller"""
    while isinstance(a, tuple) and len(a) > 1 and a[0] in ("f", "fv"):
        a = a[1]
    return isinstance(a, tuple) and len(a) == 2 and a[0] in ("arg", "u")


def eng_root(eng, st, r):
    v = st.mem.get(r)
    if v is None:
        if r[0] in ("L", "T"):
            return None
        return eng.read_root(st, r)
    return v
