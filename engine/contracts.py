"""Contracts of the code the crate calls but does not own, roles of its own atomics, dispatch by abstract value."""
from .lin import Lin, atom, const
from .dump import Ty
from .interp import I, B, none, some, ok, err, tup, adt, is_adt, UNIT, UNDEF, OPT, RES, ORD, flit, fnot, State

COL = "orx_pinned_concurrent_col"
CO = "orx_concurrent_option"
ORDERS = ["Relaxed", "Release", "Acquire", "AcqRel", "SeqCst"]
SOME_STATE, NONE_STATE = 2, 0
HELD0 = ("adt", "held", 0, ())


class Contracts:
    def __init__(self, roles, len_fns):
        self.roles = roles          # field index of the state struct -> "res"/"pub"
        self.quiescent = False      # no concurrent growth during the call
        self.present_bound = None   # V -> bound: every position below it is assumed to be written
        self.len_fns = len_fns      # body paths summarised as published lengths
        self.core_names = {}

    def setup(self, eng):
        self.elem_ty = None
        eng.elem_ty = None
        for i, t in enumerate(eng.crate.types):
            if t.get("k") == "adt" and t.get("path") == "elem::ConcurrentElement" or \
                    t.get("k") == "adt" and t.get("path", "").endswith("::ConcurrentElement"):
                eng.elem_ty = Ty(eng.crate, i)
                break
        self.enum_tys = {}

    def enum_ty(self, eng, path):
        return None

    def ghost_default(self, eng, root):
        n = root[1]
        if n == "held":
            return HELD0
        if isinstance(n, tuple):
            if n[0] in ("PL", "cap", "res", "pub"):
                return I(atom((n[0] + "0", n[1])))
            if n[0] == "it":
                return I(0)
            if n[0] == "behind":
                return B(False)
        if eng.mon is not None and hasattr(eng.mon, "ghost_default"):
            d = eng.mon.ghost_default(eng, n)
            if d is not None:
                return d
        return UNDEF

    # ---------- vector quantities ----------
    def core(self, eng, st, ref):
        """identity of the collection a `&PinnedConcurrentCol` denotes"""
        v = ref
        hops = 0
        while v[0] == "ref" and hops < 5:
            v = eng.read(st, (v[1], v[2]))
            hops += 1
        if v[0] == "sym":
            return v[1]
        return ("core?", str(v)[:80])

    def vec_core(self, eng, st, ref):
        """identity of the collection inside a `&ConcurrentVec`"""
        pl = eng.deref_place(st, ref)
        v = eng.read(st, pl)
        if v[0] == "sym" and v[2] is not None:
            v2 = eng.expand(v, 0)
            if v2 is not None:
                v = v2
        if v[0] == "adt":
            for x in v[3]:
                if x[0] == "sym" and x[2] is not None and x[2].k == "adt" and x[2].path.endswith("PinnedConcurrentCol"):
                    return x[1]
                if x[0] == "sym" and isinstance(x[1], tuple) and x[1][0] in ("core",):
                    return x[1]
        return None

    def latest(self, eng, st, kind, V):
        return eng.g(st, (kind, V))[1]

    def init_bounds(self, eng, st, V):
        """entry relations PL <= res, PL <= cap (once per state)"""
        p, r, c = atom(("PL0", V)), atom(("res0", V)), atom(("cap0", V))
        q = atom(("pub0", V))
        m = atom(("maxcap", V))
        for l in (p - r, p - c, q - p, c - m):
            if l not in st.facts.le:
                st.facts = st.facts.add_le(l)

    def new_cap(self, eng, st, V):
        self.init_bounds(eng, st, V)
        if self.quiescent:
            return self.latest(eng, st, "cap", V)
        c = eng.fresh_int("cap")
        st.facts = st.facts.add_le(self.latest(eng, st, "cap", V) - c)
        st.facts = st.facts.add_le(self.latest(eng, st, "PL", V) - c)
        st.facts = st.facts.add_le(c - atom(("maxcap", V)))
        st.sg(("cap", V), I(c))
        return c

    @staticmethod
    def own(V):
        return V is not None and V[0] == "core"

    def new_PL(self, eng, st, V):
        self.init_bounds(eng, st, V)
        if self.quiescent or self.own(V) and eng.g(st, ("behind", V)) == B(False):
            return self.latest(eng, st, "PL", V)
        p = eng.fresh_int("PL")
        st.facts = st.facts.add_le(self.latest(eng, st, "PL", V) - p)
        if self.own(V):
            # nobody else adds to a vector that is not shared yet
            st.facts = st.facts.add_le(p - self.latest(eng, st, "res", V))
        st.sg(("PL", V), I(p))
        self.new_res(eng, st, V)
        self.new_cap(eng, st, V)
        return p

    def new_res(self, eng, st, V):
        self.init_bounds(eng, st, V)
        if self.quiescent or self.own(V):
            return self.latest(eng, st, "res", V)
        r = eng.fresh_int("res")
        st.facts = st.facts.add_le(self.latest(eng, st, "res", V) - r)
        st.facts = st.facts.add_le(self.latest(eng, st, "PL", V) - r)
        st.sg(("res", V), I(r))
        return r

    def new_pub(self, eng, st, V):
        self.init_bounds(eng, st, V)
        if self.quiescent:
            return self.latest(eng, st, "pub", V)
        q = eng.fresh_int("pub")
        st.facts = st.facts.add_le(self.latest(eng, st, "pub", V) - q)
        st.sg(("pub", V), I(q))
        p = self.new_PL(eng, st, V)
        st.facts = st.facts.add_le(q - p)
        return q

    def within_published(self, eng, st, V, idx):
        """idx < published length, provably"""
        return st.facts.proves_lt(idx - self.latest(eng, st, "PL", V))

    # ---------- cells ----------
    def optplace(self, eng, st, ref):
        if ref[0] == "ref":
            root, proj = ref[1], ref[2]
            hops = 0
            while hops < 4:
                v = eng.read(st, (root, proj))
                if v[0] == "ref":
                    root, proj = v[1], v[2]
                    hops += 1
                else:
                    break
            if root[0] in ("L", "T"):
                v = eng.read(st, (root, proj))
                if v[0] == "sym":
                    return (("own", v[1]), ())
            return (root, proj)
        if ref[0] == "sym":
            return (("own", ref[1]), ())
        if ref[0] == "adt":
            return (("own", ref), ())
        return (("own", ("?", 0)), ())

    def present_known(self, eng, st, pl):
        root = pl[0]
        if st.syms.get(("pres", pl)):
            return True
        if st.syms.get(("abs", pl)):
            return False
        if root[0] == "slot":
            for (k, v) in st.syms.items():
                if v is True and isinstance(k, tuple) and k[0] == "pres" and k[1][0][0] == "slot" and k[1][0][1] == root[1] \
                        and k[1][1] == pl[1] and k[1][0] != root and st.facts.proves_eq(k[1][0][2] - root[2]):
                    return True
            if self.within_published(eng, st, root[1], root[2]):
                return True
        if root[0] == "slot" and self.present_bound is not None and root[1] is not None:
            b = self.present_bound(root[1])
            if b is not None and all(st.facts.proves_lt(root[2] - x) for x in b):
                return True
        if root[0] == "D" and root[2] is not None and root[2].k == "adt" and root[2].path.endswith("ConcurrentElement"):
            return True
        if root[0] == "own":
            if isinstance(root[1], tuple) and root[1][0] == "adt":
                v = root[1]
                if v[1] == "m::Opt":
                    return v[2] == 1
        return None

    def set_sym(self, st, k, v):
        st.syms = dict(st.syms)
        st.syms[k] = v

    def fork_presence(self, eng, st, pl, decide=True):
        """[(state, bool)]"""
        eng.emit(st, "lookat", pl)
        k = self.present_known(eng, st, pl)
        if k is not None:
            return [(st, k)]
        s1, s2 = st.copy(), st
        self.set_sym(s1, ("pres", pl), True)
        absent = [s2]
        if pl[0][0] == "slot" and self.present_bound is not None:
            # an absent position is not below the bound
            b = self.present_bound(pl[0][1])
            if b is not None:
                absent = []
                for n, x in enumerate(b):
                    s = s2.copy()
                    ss = eng.assume(s, flit("le", x - pl[0][2]))
                    for y in b[:n]:
                        ss = [s3 for s4 in ss for s3 in eng.assume(s4, flit("le", pl[0][2] + 1 - y))]
                    absent += ss
        return [(s1, True)] + [(s, False) for s in absent]

    def held(self, eng, st):
        h = eng.g(st, "held")
        if h[0] != "adt":
            # the set changes from one iteration of a loop to the next: not followed
            st.lossy = True
            return []
        return list(h[3])

    def add_held(self, eng, st, pl, site):
        eng.emit(st, "acquire", pl, self.held(eng, st), site)
        st.sg("held", ("adt", "held", 0, tuple(self.held(eng, st)) + (("ref", pl[0], pl[1]),)))
        st.log(f"{site}: acquires {show_place(pl)}")

    def rem_held(self, eng, st, pl, site):
        h = self.held(eng, st)
        r = ("ref", pl[0], pl[1])
        if r in h:
            h.remove(r)
        st.sg("held", ("adt", "held", 0, tuple(h)))
        st.mem.pop(("cell", pl[0], pl[1]), None)
        eng.emit(st, "release", pl, site)
        st.log(f"{site}: releases {show_place(pl)}")

    def is_held(self, eng, st, pl):
        return ("ref", pl[0], pl[1]) in self.held(eng, st)

    def release_handle(self, eng, st, v, site):
        r, to = v[3]
        pl = (r[1], r[2])
        if to[1] != const(SOME_STATE):
            eng.emit(st, "gone", pl, site)
        self.rem_held(eng, st, pl, site)
        self.forget_presence(st, pl)
        if to[1] == const(SOME_STATE):
            self.set_sym(st, ("pres", pl), True)

    def cell(self, pl):
        return ("ref", ("cell", pl[0], pl[1]), ())

    # ---------- entry: calls with a contract ----------
    def call(self, eng, d, c, args, st, destty, site, fr):
        res = c.get("res") or {}
        krate = res.get("krate") or c.get("krate")
        name = c.get("name")
        path = c["path"]
        rpath = res.get("path", path)
        if d.tag == "models" and c.get("krate") == "verif_models" and name.startswith("i_"):
            return getattr(self, name)(eng, st, args, destty, site, fr, c)
        if krate == COL:
            f = getattr(self, "col_" + name, None)
            if f:
                return f(eng, st, args, destty, site)
            return None
        if krate == CO:
            return self.option_cell(eng, d, c, args, st, destty, site, name, res)
        if krate == eng_crate_name(eng) and rpath in self.len_fns and len(args) == 1:
            V = self.vec_core(eng, st, args[0])
            if V is not None:
                p = self.new_PL(eng, st, V)
                eng.emit(st, "len", V, p, site)
                st.log(f"{site}: published length of the vector is read")
                return [(st, I(p))]
        if krate in ("orx_split_vec", "orx_fixed_vec") and name and (name.startswith("with_") or name == "new"):
            return c_new_pinned(self, eng, d, c, args, st, destty, site, fr)
        f = CORE.get(path) or CORE.get(rpath)
        if f is None and rpath.startswith(("core::num::<impl ", "core::intrinsics::")):
            f = c_int(INTS[name]) if name in INTS else c_weak_int if name in WEAK_INTS else None
        if f is not None:
            r = f(self, eng, d, c, args, st, destty, site, fr)
            if r is not None:
                return r
        tr = c.get("trait")
        if tr in ("core::iter::Iterator", "core::iter::DoubleEndedIterator", "core::iter::ExactSizeIterator",
                  "core::iter::IntoIterator", "core::iter::FromIterator", "core::iter::Extend",
                  "core::iter::traits::collect::IntoIterator"):
            b = c.get("inst") and d.fns.get(c["inst"])
            if b is not None and b.raw.get("krate") not in ("core", "alloc"):
                return None
            return self.iter_call(eng, d, c, args, st, destty, site, fr)
        if "sync::atomic" in rpath or "sync::atomic" in path:
            return self.atomic(eng, d, c, args, st, destty, site, name)
        return None

    # ---------- atomics ----------
    def order(self, v):
        if v[0] == "adt" and isinstance(v[2], int) and v[2] < 5:
            return ORDERS[v[2]]
        return "?"

    def counter(self, eng, st, ref):
        """(V, role, place) of an atomic"""
        pl = eng.deref_place(st, ref)
        root, proj = pl
        if "state" in proj:
            i = proj.index("state")
            v = eng.read(st, (root, proj[:i]))
            V = v[1] if v[0] == "sym" else ("core?", 0)
            return V, self.roles.get(tuple(proj[i + 1:]), "?"), pl
        if proj and root[0] == "D":
            t = root[2]
            if t is not None and t.k == "adt" and t.path.endswith("ConcurrentVecState"):
                return ("st", root), self.roles.get(tuple(proj), "?"), pl
        return None, "?", pl

    def atomic(self, eng, d, c, args, st, destty, site, name):
        if name in ("fence", "compiler_fence"):
            if name == "fence":
                eng.emit(st, "fence", self.order(args[0]), site)
            return [(st, UNIT)]
        if name in ("new", "from"):
            return [(st, adt("m::Atomic", args[0]))]
        if name in ("get_mut", "into_inner", "as_ptr"):
            if name == "into_inner":
                v = args[0]
                if is_adt(v, "m::Atomic"):
                    return [(st, v[3][0])]
            V, role, pl = self.counter(eng, st, args[0])
            eng.emit(st, "counter_raw", V, role, name, site)
            return [(st, eng.unknown(st, "atomic " + name, destty))]
        V, role, pl = self.counter(eng, st, args[0])
        if V is None:
            v = eng.read(st, pl)
            if is_adt(v, "m::Atomic"):
                V = None
        if any(a[0] == "b" for a in args[1:]) or destty is not None and destty.k == "bool":
            return self.atomic_flag(eng, st, V, role, name, args, destty, site)
        if name == "load":
            o = self.order(args[1])
            v = self.read_counter(eng, st, V, role, pl)
            eng.emit(st, "load", V, role, v, o, site)
            return [(st, I(v))]
        if name == "store":
            o = self.order(args[2])
            eng.emit(st, "store", V, role, args[1], o, site)
            st.log(f"{site}: plain store to the {role} counter")
            if role in ("res", "pub") and V is not None and args[1][0] == "i" and (self.quiescent or V[0] == "core"):
                st.sg((role, V), args[1])
            return [(st, UNIT)]
        if name in ("fetch_add", "fetch_sub", "fetch_max", "fetch_min", "swap", "fetch_or", "fetch_and"):
            o = self.order(args[2])
            old = self.read_counter(eng, st, V, role, pl)
            x = args[1][1] if args[1][0] == "i" else eng.fresh_int("?")
            if name == "fetch_add":
                new = old + x
            elif name == "fetch_sub":
                new = old - x
            elif name == "fetch_max":
                new = eng.fresh_int("mx")
                st.facts = st.facts.add_le(old - new).add_le(x - new)
            elif name == "swap":
                new = x
            else:
                new = eng.fresh_int("?")
            self.rmw(eng, st, V, role, old, new, name, o, site, x)
            return [(st, I(old))]
        if name in ("compare_exchange", "compare_exchange_weak"):
            o = self.order(args[3])
            out = []
            s1 = st.copy()
            old = self.read_counter(eng, s1, V, role, pl)
            eng.emit(s1, "load_retry", V, role, old, self.order(args[4]), site)
            cur = args[1][1]
            for s in eng.assume(s1.copy(), flit("eq", old - cur)):
                self.rmw(eng, s, V, role, cur, args[2][1], name, o, site, args[2][1])
                out.append((s, ok(I(cur))))
            eng.emit(s1, "cas_failed", V, role, cur, site)
            out.append((s1, err(I(old))))
            return out
        if name == "fetch_update":
            out = []
            old = self.read_counter(eng, st, V, role, pl)
            eng.emit(st, "load_retry", V, role, old, self.order(args[2]), site)
            for s, r in eng.call_value(args[3], None, [I(old)], st, None, site):
                if is_adt(r, OPT) and r[2] == 1:
                    new = r[3][0][1]
                    self.rmw(eng, s, V, role, old, new, name, self.order(args[1]), site, new)
                    out.append((s, ok(I(old))))
                elif is_adt(r, OPT):
                    out.append((s, err(I(old))))
                else:
                    s.lossy = True
                    out.append((s, ok(I(old))))
            return out
        return [(st, eng.unknown(st, "atomic " + name, destty))]

    def atomic_flag(self, eng, st, V, role, name, args, destty, site):
        """an atomic bool: its values are not followed"""
        def flag():
            return ("b", ("sym", eng.fresh("flag")))
        x = eng.fresh_int("fl")
        if name == "load":
            eng.emit(st, "load", V, "flag", x, self.order(args[1]), site)
            return [(st, flag())]
        if name == "store":
            eng.emit(st, "store", V, "flag", args[1], self.order(args[2]), site)
            return [(st, UNIT)]
        if name in ("compare_exchange", "compare_exchange_weak"):
            s1 = st.copy()
            eng.emit(s1, "load_retry", V, "flag", x, self.order(args[4]), site)
            eng.emit(s1, "cas_failed", V, "flag", const(0), site)
            eng.emit(st, "rmw", V, "flag", x, eng.fresh_int("fl"), name, self.order(args[3]), site, x)
            return [(st, ok(args[1])), (s1, err(flag()))]
        if name.startswith("fetch_") or name == "swap":
            eng.emit(st, "rmw", V, "flag", x, eng.fresh_int("fl"), name, self.order(args[2]) if len(args) > 2 else "SeqCst", site, x)
            return [(st, flag())]
        return [(st, eng.unknown(st, "atomic " + name, destty))]

    def rmw(self, eng, st, V, role, old, new, op, order, site, operand):
        st.log(f"{site}: {op} on the {role} counter ({order})")
        eng.emit(st, "rmw", V, role, old, new, op, order, site, operand)
        if role in ("res", "pub") and V is not None:
            st.sg((role, V), I(new))

    def read_counter(self, eng, st, V, role, pl):
        if V is not None and V[0] == "core" and role in ("res", "pub"):
            return self.latest(eng, st, role, V)
        if V is not None and V[0] != "st":
            if role == "res":
                return self.new_res(eng, st, V)
            if role == "pub":
                return self.new_pub(eng, st, V)
        return eng.fresh_int("?" if V is not None and role == "?" else "ld")

    # ---------- the collection ----------
    def col_state(self, eng, st, args, destty, site):
        pl = eng.deref_place(st, args[0])
        return [(st, ("ref", pl[0], pl[1] + ("state",)))]

    def col_capacity(self, eng, st, args, destty, site):
        V = self.core(eng, st, args[0])
        c = self.new_cap(eng, st, V)
        eng.emit(st, "capacity", V, c, site)
        return [(st, I(c))]

    def col_maximum_capacity(self, eng, st, args, destty, site):
        V = self.core(eng, st, args[0])
        self.init_bounds(eng, st, V)
        m = st.mem.get(("G", ("limit", V))) or I(atom(("maxcap", V)))
        eng.emit(st, "limit", V, m[1], site)
        return [(st, m)]

    def col_get(self, eng, st, args, destty, site):
        V = self.core(eng, st, args[0])
        i = args[1][1]
        c = self.new_cap(eng, st, V)
        eng.emit(st, "get", V, i, site)
        out = []
        for s in eng.assume(st.copy(), flit("le", c - i)):
            out.append((s, none()))
        for s in eng.assume(st, flit("le", i + 1 - c)):
            out.append((s, some(("ref", ("slot", V, i), ()))))
        return out

    col_get_mut = col_get

    def col_iter(self, eng, st, args, destty, site):
        V = self.core(eng, st, args[0])
        n = args[1][1]
        self.new_cap(eng, st, V)
        eng.emit(st, "iter", V, const(0), n, site)
        return [(st, adt("m::Slots", V, I(0), I(n)))]

    col_iter_mut = col_iter

    def col_iter_over_range(self, eng, st, args, destty, site):
        V = self.core(eng, st, args[0])
        self.new_cap(eng, st, V)
        out = []
        for s, a, b in self.bounds(eng, st, args[1], self.latest(eng, st, "cap", V)):
            eng.emit(s, "iter", V, a, b, site)
            out.append((s, adt("m::Slots", V, I(a), I(b))))
        return out

    def bounds(self, eng, st, r, full):
        if r[0] == "ref":
            r = eng.read(st, (r[1], r[2]))
        if is_adt(r, "core::ops::Range"):
            return [(st, r[3][0][1], r[3][1][1])]
        if is_adt(r, "core::ops::RangeTo"):
            return [(st, const(0), r[3][0][1])]
        if is_adt(r, "core::ops::RangeFrom"):
            return [(st, r[3][0][1], full)]
        if is_adt(r, "core::ops::RangeFull"):
            return [(st, const(0), full)]
        if is_adt(r, "m::RangeInc"):
            return [(st, r[3][0][1], r[3][1][1] + 1)]
        st.lossy = True
        return [(st, eng.fresh_int("?"), eng.fresh_int("?"))]

    # The collection calls back into the crate while it provides storage for claimed positions: write_permit decides,
    # release_growth_handle follows an expansion, update_after_write follows the handing out (before any value is there).
    def hook(self, eng, st, col, name, args, site):
        """outcomes of one of the crate's own hooks; None: the hook does nothing of interest"""
        for (t, n), bs in eng.bytrait_all.items():
            if n == name and t.endswith("::ConcurrentState"):
                b = [x for x in bs if x.local]
                if not b or name != "write_permit" and len(b[0].blocks) <= 1 and not b[0].blocks[0]["s"]:
                    break
                pl = eng.deref_place(st, col)
                args = [("ref", pl[0], pl[1] + ("state",))] + args
                # a hook that only looks at the capacity leaves the state as it is
                p, mon = Probe(eng.mon), eng.mon
                eng.mon = p
                try:
                    eng.exec_body(b[0], args, st.copy(), None, site)
                finally:
                    eng.mon = mon
                if p.kinds <= {"capacity", "agg"}:
                    break
                return eng.exec_body(b[0], args, st, None, site)
        return [(st, UNIT)]

    def provide(self, eng, st, col, V, b, n, site, single):
        """storage for the claimed block b..b+n"""
        st.log(f"{site}: waits for / allocates storage of " + ("one claimed position" if single else "a claimed block"))
        eng.emit(st, "permit", V, site)
        if single:
            perm = self.hook(eng, st, col, "write_permit", [col, I(b)], site)
        else:
            perm = self.hook(eng, st, col, "write_permit_n_items", [col, I(b), I(n)], site)
        out = []
        for s, v in perm:
            vname = variant_name(eng, v)
            if vname == "Spin":
                eng.emit(s, "permit_spin", V, site)
                continue
            eng.emit(s, "claim_slots", V, b, n, site)
            # the permit is only given when the block has storage (decided by C03)
            c = self.new_cap(eng, s, V)
            s.facts = s.facts.add_le(b + n - c)
            for s1, _ in self.hook(eng, s, col, "release_growth_handle", [], site) if vname != "JustWrite" else [(s, None)]:
                for s2, _ in self.hook(eng, s1, col, "update_after_write", [I(b), I(b + n)], site):
                    out.append(s2)
        return out

    def col_single_item_as_ref(self, eng, st, args, destty, site):
        V = self.core(eng, st, args[0])
        i = args[1][1]
        return [(s, ("ref", ("slot", V, i), ())) for s in self.provide(eng, st, args[0], V, i, const(1), site, True)]

    def col_n_items_buffer_as_slices(self, eng, st, args, destty, site):
        V = self.core(eng, st, args[0])
        b, n = args[1][1], args[2][1]
        out = []
        for s0 in eng.assume(st.copy(), flit("eq", n), True):
            # an empty block needs no storage: the state is not asked
            eng.emit(s0, "claim_slots", V, b, n, site)
            out.append(s0)
        for s1 in eng.assume(st, flit("le", const(1) - n), True):
            out.extend(self.provide(eng, s1, args[0], V, b, n, site, False))
        return [(s, adt("m::Bufs", V, I(b), I(b + n))) for s in out]

    col_n_items_buffer_as_mut_slices = col_n_items_buffer_as_slices

    def col_write(self, eng, st, args, destty, site):
        V = self.core(eng, st, args[0])
        out = self.provide(eng, st, args[0], V, args[1][1], const(1), site, True)
        for s in out:
            eng.emit(s, "raw_write", V, args[1][1], args[2], site)
        return [(s, UNIT) for s in out]

    def col_write_n_items(self, eng, st, args, destty, site):
        V = self.core(eng, st, args[0])
        out = self.provide(eng, st, args[0], V, args[1][1], args[2][1], site, False)
        for s in out:
            eng.emit(s, "raw_write", V, args[1][1], args[3], site)
            s.lossy = True
        return [(s, UNIT) for s in out]

    def col_into_inner(self, eng, st, args, destty, site):
        V = self.core(eng, st, args[0])
        n = args[1][1]
        eng.emit(st, "into_inner", V, n, site)
        return [(st, ("sym", ("pinned", V, n), destty))]

    def col_clear(self, eng, st, args, destty, site):
        V = self.core(eng, st, args[0])
        eng.emit(st, "clear", V, args[1][1], site)
        if self.quiescent:
            # the collection makes a new state for an empty storage
            for k in ("PL", "res", "pub"):
                st.sg((k, V), I(0))
        return [(st, UNIT)]

    def col_reserve_maximum_capacity(self, eng, st, args, destty, site):
        V = self.core(eng, st, args[0])
        m = eng.fresh_int("maxcap")
        eng.emit(st, "reserve", V, args[1][1], args[2][1], m, site)
        old = st.mem.get(("G", ("limit", V))) or I(atom(("maxcap", V)))
        st.facts = st.facts.add_le(old[1] - m)
        st.sg(("limit", V), I(m))
        return [(st, I(m))]

    def col_new_from_pinned(self, eng, st, args, destty, site):
        eng.serial += 1
        V = ("core", eng.serial)
        eng.emit(st, "newcore", V, args[0], site)
        n = self.plen(eng, st, args[0])
        for k in ("PL", "res", "pub"):
            st.sg((k, V), I(n))
        for k in ("PL0", "res0", "pub0"):
            st.facts = st.facts.add_eq(atom((k, V)) - n)
        self.init_bounds(eng, st, V)
        return [(st, ("sym", V, destty))]

    def col_clone_with_len(self, eng, st, args, destty, site):
        V = self.core(eng, st, args[0])
        eng.emit(st, "raw_clone", V, args[1][1], site)
        return [(st, eng.unknown(st, "clone_with_len", destty))]

    def edit_storage(self, eng, st, name, args, destty, site):
        """a call that changes what a plain storage holds"""
        v, pl = self.deref_all(eng, st, args[0])
        if pl is None or v[0] != "sym" or not isinstance(v[1], tuple):
            return None
        if v[1][0] == "pinned":
            V, n = v[1][1], v[1][2]
            if name == "pop":
                out = [(s, none()) for s in eng.assume(st.copy(), flit("eq", n))]
                for s in eng.assume(st.copy(), flit("le", const(1) - n)):
                    eng.write(s, pl, ("sym", ("pinned", V, n - 1), v[2]))
                    t = destty.args()[0] if destty is not None and destty.args() else None
                    out.append((s, some(("sym", ("item", v[1], n - 1, "back"), t))))
                return out
            if name == "truncate" and args[1][0] == "i":
                k = args[1][1]
                out = [(s, UNIT) for s in eng.assume(st.copy(), flit("le", n - k))]
                for s in eng.assume(st.copy(), flit("le", k + 1 - n)):
                    eng.write(s, pl, ("sym", ("pinned", V, k), v[2]))
                    out.append((s, UNIT))
                return out
        eng.emit(st, "storage_edit", v, name, site)
        eng.serial += 1
        eng.write(st, pl, ("sym", ("changed", v[1], ("edit", eng.serial)), v[2]))
        self.touch_args(eng, st, args[1:], site)
        return [(st, eng.unknown(st, "result of " + name, destty))]

    def plen(self, eng, st, v):
        """length of a plain pinned vector value"""
        hops = 0
        while v[0] == "ref" and hops < 4:
            v = eng.read(st, (v[1], v[2]))
            hops += 1
        if v[0] == "sym":
            if isinstance(v[1], tuple) and v[1][0] == "pinned":
                return v[1][2]
            if isinstance(v[1], tuple) and v[1][0] == "newpinned":
                return const(0)
            return atom(("plen", v[1]))
        return eng.fresh_int("?")

    # ---------- ConcurrentOption ----------
    def option_cell(self, eng, d, c, args, st, destty, site, name, res):
        if name == "none" and not args:
            return [(st, adt("m::Opt", variant=0))]
        if name == "some":
            return [(st, adt("m::Opt", args[0], variant=1))]
        if name == "state":
            pl = self.optplace(eng, st, args[0])
            o = self.order(args[1])
            eng.emit(st, "observe", pl, o, "state", site)
            out = []
            for s, p in self.fork_presence(eng, st, pl):
                eng.emit(s, "state_seen", pl, p, site)
                if p:
                    s2 = s.copy()
                    out.append((s, self.state_val(eng, "Some")))
                    out.append((s2, self.state_val(eng, "Reserved")))
                else:
                    out.append((s, self.state_val(eng, "None")))
            return out
        if name == "mut_handle":
            pl = self.optplace(eng, st, args[0])
            a, b = args[1], args[2]
            if not (a[0] == "i" and b[0] == "i" and a[1].is_const() and b[1].is_const()):
                return [(st, eng.unknown(st, "handle with unknown states", destty))]
            if a[1].c != SOME_STATE or b[1].c != SOME_STATE:
                eng.emit(st, "lower", pl, f"mut_handle({a[1].c}, {b[1].c})", site)
            out = []
            for s, p in self.fork_presence(eng, st, pl):
                if p == (a[1].c == SOME_STATE):
                    self.add_held(eng, s, pl, site)
                    out.append((s, some(adt("m::MutHandle", ("ref", pl[0], pl[1]), b))))
                else:
                    eng.emit(s, "acquire_fail", pl, self.held(eng, s), site)
                    out.append((s, none()))
            return out
        if name == "get_mut" and (res.get("self") or c.get("self") or "").endswith("MutHandle"):
            h = args[0]
            hops = 0
            while h[0] == "ref" and hops < 4:
                h = eng.read(st, (h[1], h[2]))
                hops += 1
            if is_adt(h, "m::MutHandle"):
                r = h[3][0]
                return [(st, self.cell((r[1], r[2])))]
            return [(st, eng.unknown(st, "get_mut", destty))]
        if name == "drop" or c.get("trait") == "core::ops::Drop":
            return [(st, UNIT)]
        tr = c.get("trait") or res.get("itrait")
        if tr and args:
            v = self.deref_all(eng, st, args[0])[0]
            if is_adt(v) and v[1].endswith("::State"):
                if tr == "core::cmp::PartialEq":
                    return self.partial_eq(eng, st, args, name, destty, site)
                if tr == "core::clone::Clone":
                    return [(st, v)]
                return [(st, eng.unknown(st, "state " + name, destty))]
        if tr in ("core::cmp::PartialEq",) and len(args) == 2:
            b = eng.mfn["opt_eq_with_order"]
            relaxed = adt("core::sync::atomic::Ordering", variant=2)
            outs = eng.exec_body(b, [args[0], args[1], relaxed], st, destty, site)
            if name == "ne":
                return [(s, B(fnot(v[1]))) for s, v in outs]
            return outs
        if tr == "core::clone::Clone":
            eng.emit(st, "unguarded", self.optplace(eng, st, args[0]), "clone of the cell", site)
            return [(st, ("sym", eng.fresh("optclone"), destty))]
        if tr in ("core::cmp::PartialOrd", "core::cmp::Ord", "core::fmt::Debug"):
            for a in args[:2]:
                if a[0] == "ref":
                    eng.emit(st, "unguarded", self.optplace(eng, st, a), name + " of the cell", site)
            return [(st, eng.unknown(st, "option " + name, destty))]
        if name in ("take", "take_if", "exclusive_take", "exclusive_take_if", "insert", "get_or_insert", "get_or_insert_with",
                    "exclusive_replace", "exclusive_insert", "exclusive_get_or_insert", "exclusive_get_or_insert_with", "exclusive_as_mut"):
            pl = self.optplace(eng, st, args[0])
            if name.startswith("exclusive"):
                eng.emit(st, "exclusive", pl, name, site)
            elif name.startswith("take"):
                eng.emit(st, "lower", pl, name, site)
                if name == "take_if":
                    eng.emit(st, "unprotected", pl, site)
        alias = {"expect": "opt_unwrap", "unwrap": "opt_unwrap", "unwrap_unchecked": "opt_unwrap", "into_option": "opt_into_option",
                 "unwrap_or_default": None}
        m = alias.get(name, "opt_" + name)
        b = eng.mfn.get(m) if m else None
        if b is not None:
            n = b.argc
            if name in ("and_then",):
                pass
            return eng.exec_body(b, args[:n], st, destty, site)
        if name in ("from",) and args:
            v = args[0]
            if destty is not None and destty.k == "adt" and destty.path == "core::option::Option" and self.is_cell(v):
                return eng.exec_body(eng.mfn["opt_into_option"], args, st, destty, site)
            if is_adt(v, OPT):
                return [(st, adt("m::Opt", *v[3], variant=v[2]))]
            return [(st, ("sym", eng.fresh("opt"), destty))]
        if name == "default" and not args:
            return [(st, adt("m::Opt", variant=0))]
        for a in args:
            if a[0] == "ref":
                eng.emit(st, "unguarded", self.optplace(eng, st, a), name + " of the cell", site)
        return [(st, eng.unknown(st, "cell operation " + name, destty))]

    def state_val(self, eng, name):
        for dd in (eng.crate, eng.models):
            for p, a in dd.adts.items():
                if p.endswith("State") and a["krate"] == CO:
                    for i, v in enumerate(a["variants"]):
                        if v["n"] == name:
                            return ("adt", p, i, ())
        return ("adt", "orx_concurrent_option::State", {"None": 0, "Reserved": 1, "Some": 2}[name], ())

    # ---------- intrinsics of the models ----------
    def i_acquire(self, eng, st, args, destty, site, fr, c):
        pl = self.optplace(eng, st, args[0])
        site = fr.site or site
        out = []
        for s, p in self.fork_presence(eng, st, pl):
            if p:
                self.add_held(eng, s, pl, site)
            else:
                eng.emit(s, "acquire_fail", pl, self.held(eng, s), site)
            out.append((s, B(p)))
        return out

    def i_acquire_none(self, eng, st, args, destty, site, fr, c):
        pl = self.optplace(eng, st, args[0])
        out = []
        for s, p in self.fork_presence(eng, st, pl):
            if not p:
                self.add_held(eng, s, pl, fr.site or site)
            out.append((s, B(not p)))
        return out

    def i_release(self, eng, st, args, destty, site, fr, c):
        self.rem_held(eng, st, self.optplace(eng, st, args[0]), fr.site or site)
        return [(st, UNIT)]

    def i_release_none(self, eng, st, args, destty, site, fr, c):
        pl = self.optplace(eng, st, args[0])
        eng.emit(st, "gone", pl, fr.site or site)
        self.rem_held(eng, st, pl, fr.site or site)
        self.forget_presence(st, pl)
        return [(st, UNIT)]

    def forget_presence(self, st, pl):
        st.syms = {k: v for k, v in st.syms.items() if k != ("pres", pl)}

    def i_val(self, eng, st, args, destty, site, fr, c):
        pl = self.optplace(eng, st, args[0])
        return [(st, self.cell(pl))]

    i_val_mut = i_val_ptr = i_val_ptr_mut = i_val

    def i_read(self, eng, st, args, destty, site, fr, c):
        pl = self.optplace(eng, st, args[0])
        root = ("cell", pl[0], pl[1])
        eng.emit(st, "touch", root, "move", fr.site or site)
        v = eng.read_root(st, root)
        if pl[0][0] == "own" and isinstance(pl[0][1], tuple) and pl[0][1][0] == "adt" and pl[0][1][3]:
            v = pl[0][1][3][0]
        eng.emit(st, "moved", root, v, fr.site or site)
        return [(st, v)]

    def i_write(self, eng, st, args, destty, site, fr, c):
        pl = self.optplace(eng, st, args[0])
        root = ("cell", pl[0], pl[1])
        eng.emit(st, "touch", root, "write", fr.site or site)
        eng.emit(st, "stored", root, args[1], fr.site or site)
        st.mem[root] = args[1]
        return [(st, UNIT)]

    def i_present_flag(self, eng, st, args, destty, site, fr, c):
        return self.i_present(eng, st, args, destty, site, fr, c, "presence")

    def i_present(self, eng, st, args, destty, site, fr, c, what="value"):
        pl = self.optplace(eng, st, args[0])
        o = self.order(args[1])
        eng.emit(st, "observe", pl, o, what, fr.site or site)
        # the observation may fail although the cell is present (locked by another thread)
        out = []
        s2 = st.copy()
        for s, p in self.fork_presence(eng, st, pl):
            if p:
                self.set_sym(s, ("seen", pl), True)
                eng.emit(s, "state_seen", pl, True, fr.site or site)
                out.append((s, B(True)))
        out.append((s2, B(False)))
        return out

    def i_presence_relaxed(self, eng, st, args, destty, site, fr, c):
        pl = self.optplace(eng, st, args[0])
        eng.emit(st, "observe", pl, "Relaxed", "presence", fr.site or site)
        out = []
        s2 = st.copy()
        for s, p in self.fork_presence(eng, st, pl):
            if p:
                eng.emit(s, "state_seen", pl, True, fr.site or site)
                out.append((s, B(True)))
        out.append((s2, B(False)))
        return out

    def i_presence_excl(self, eng, st, args, destty, site, fr, c):
        pl = self.optplace(eng, st, args[0])
        out = []
        for s, p in self.fork_presence(eng, st, pl):
            if not p:
                self.set_sym(s, ("abs", pl), True)
                eng.emit(s, "seen_empty", pl, fr.site or site)
            out.append((s, B(p)))
        return out

    def i_set_present(self, eng, st, args, destty, site, fr, c):
        pl = self.optplace(eng, st, args[0])
        eng.emit(st, "set_present", pl, fr.site or site)
        V = pl[0][1] if pl[0][0] == "slot" else None
        if self.own(V):
            q = self.latest(eng, st, "PL", V)
            if st.facts.proves_eq(pl[0][2] - q):
                st.sg(("PL", V), I(q + 1))
            elif not st.facts.proves_lt(pl[0][2] - q):
                st.sg(("behind", V), B(True))
        st.syms = {k: v for k, v in st.syms.items() if k != ("abs", pl)}
        self.set_sym(st, ("pres", pl), True)
        st.mem.pop(("cell", pl[0], pl[1]), None)
        return [(st, UNIT)]

    def i_set_absent(self, eng, st, args, destty, site, fr, c):
        pl = self.optplace(eng, st, args[0])
        eng.emit(st, "set_absent", pl, fr.site or site)
        self.forget_presence(st, pl)
        self.set_sym(st, ("abs", pl), True)
        st.mem.pop(("cell", pl[0], pl[1]), None)
        return [(st, UNIT)]

    def i_slot(self, eng, st, args, destty, site, fr, c):
        V = args[0]
        return [(st, ("ref", ("slot", V, args[1][1]), ()))]

    def i_elem(self, eng, st, args, destty, site, fr, c):
        s, i = args[0], args[1][1]
        if s[0] == "ref":
            v = eng.read(st, (s[1], s[2]))
            if is_adt(v, "[]") and not i.is_const():
                return [(st, ("ref", ("elem", ("ref", s[1], s[2]), i), ()))]
            return [(st, ("ref", s[1], s[2] + (("ix", i),)))]
        return [(st, ("ref", ("elem", s, i), ()))]

    def i_item(self, eng, st, args, destty, site, fr, c):
        src, i = args[0], args[1][1]
        eng.emit(st, "item", src, i, site)
        if src[0] == "sym" and isinstance(src[1], tuple) and src[1][0] == "pinned":
            return [(st, ("sym", ("item", src[1], i), eng.elem_ty))]
        if is_adt(src, "[]") and i.is_const() and 0 <= i.c < len(src[3]):
            return [(st, src[3][i.c])]
        return [(st, ("sym", ("item", src[1] if src[0] == "sym" else src, i), None))]

    def i_nondet(self, eng, st, args, destty, site, fr, c):
        return [(st.copy(), B(True)), (st, B(False))]

    def i_is_option(self, eng, st, args, destty, site, fr, c):
        v = eng.read(st, (args[0][1], args[0][2])) if args[0][0] == "ref" else args[0]
        t = v[2] if v[0] == "sym" else None
        return [(st, B(is_adt(v, OPT) or (t is not None and t.k == "adt" and t.path == OPT)))]

    def i_cast(self, eng, st, args, destty, site, fr, c):
        return [(st, args[0])]

    def i_num(self, eng, st, args, destty, site, fr, c):
        v, _ = self.deref_all(eng, st, args[0])
        if v[0] == "i":
            return [(st, v)]
        return [(st, eng.unknown(st, "number", destty))]

    def i_clone(self, eng, st, args, destty, site, fr, c):
        return self.clone(eng, st, args[0], destty, site)

    def i_event(self, eng, st, args, destty, site, fr, c):
        name = (args[0][1] if args[0][0] == "str" else str(args[0])).strip('"')
        eng.emit(st, "ev_" + name, args[1], fr.site or site)
        return [(st, UNIT)]

    def i_panic(self, eng, st, args, destty, site, fr, c):
        eng.panics += 1
        eng.emit(st, "panic", fr.site or site)
        return []

    def i_unknown(self, eng, st, args, destty, site, fr, c):
        return [(st, eng.make_sym(eng.fresh("nd"), destty))]

    def i_vec_new(self, eng, st, args, destty, site, fr, c):
        return [(st, adt("m::Vec", I(0), ("str", f"v{self.bump(eng)}")))]

    def i_vec_push(self, eng, st, args, destty, site, fr, c):
        return self.vec_push(eng, st, args, site)

    def bump(self, eng):
        eng.serial += 1
        return eng.serial

    def vec_push(self, eng, st, args, site):
        pl = eng.deref_place(st, args[0])
        v = eng.read(st, pl)
        if is_adt(v, "m::Vec"):
            eng.emit(st, "vecpush", v[3][1], v[3][0][1], args[1], site)
            eng.write(st, pl, adt("m::Vec", I(v[3][0][1] + 1), v[3][1]))
        else:
            eng.emit(st, "vecpush", ("str", "?"), eng.fresh_int("?"), args[1], site)
        return [(st, UNIT)]

    # ---------- user code ----------
    def touch_args(self, eng, st, args, site, depth=0):
        for a in args:
            self.touch_val(eng, st, a, site, depth)

    def touch_val(self, eng, st, a, site, depth):
        if depth > 4:
            return
        if a[0] == "ref":
            if a[1][0] == "cell":
                eng.emit(st, "touch", a[1], "passed to caller code", site)
                return
            if a[1][0] in ("L", "T"):
                self.touch_val(eng, st, eng.read(st, (a[1], a[2])), site, depth + 1)
        elif a[0] == "adt" and a[1] in ("()", OPT, "[]", "m::Arg", "m::Args"):
            for x in a[3]:
                self.touch_val(eng, st, x, site, depth + 1)

    def user_call(self, eng, st, what, args, destty, site):
        st.log(f"{site}: caller code runs")
        self.touch_args(eng, st, args, site)
        r = self.fresh_user(eng, destty)
        eng.emit(st, "user", what, args, r, site)
        return [(st, r)]

    def fresh_user(self, eng, destty):
        return eng.make_sym(eng.fresh("u"), destty)

    # ---------- dispatch of unresolved trait calls ----------
    def deref_all(self, eng, st, v):
        hops = 0
        pl = None
        while v[0] == "ref" and hops < 6:
            if v[1][0] == "cell":
                return v, pl
            if v[1][0] == "slot":
                return v, pl
            pl = (v[1], v[2])
            nv = eng.read(st, pl)
            if nv[0] in ("sym",) and (v[1][0] in ("D", "elem")):
                return nv, pl
            v = nv
            hops += 1
        return v, pl

    def dispatch(self, eng, d, c, args, st, destty, site, fr):
        tr, name = c.get("trait"), c.get("name")
        if tr in ("core::ops::FnOnce", "core::ops::FnMut", "core::ops::Fn"):
            a = args[1] if len(args) > 1 else UNIT
            al = list(a[3]) if a[0] == "adt" and a[1] == "()" else [a]
            return eng.call_value(args[0], None, al, st, destty, site)
        if tr == "core::clone::Clone" and name == "clone":
            return self.clone(eng, st, args[0], destty, site)
        if tr == "core::cmp::PartialEq" and name in ("eq", "ne"):
            return self.partial_eq(eng, st, args, name, destty, site)
        if tr == "core::ops::Deref" and name == "deref" and args[0][0] == "ref":
            v = eng.read(st, (args[0][1], args[0][2]))
            if v[0] == "ref":
                return [(st, v)]
        if tr == "core::ops::RangeBounds":
            return self.range_bound(eng, st, args, name, destty, site)
        if tr and tr.endswith("PinnedVec") and name == "len" or (name == "len" and c.get("krate") in ("orx_pinned_vec", "orx_fixed_vec", "orx_split_vec")):
            return [(st, I(self.plen(eng, st, args[0])))]
        if name in STORAGE_EDITS and args and (tr and tr.endswith("PinnedVec") or c.get("krate") in ("orx_pinned_vec", "orx_fixed_vec", "orx_split_vec")):
            r = self.edit_storage(eng, st, name, args, destty, site)
            if r is not None:
                return r
        if tr and tr.endswith("PinnedVec") and name == "capacity" and len(args) == 1:
            n = self.plen(eng, st, args[0])
            c_ = atom(("pcap", n))
            st.facts = st.facts.add_le(n - c_)
            return [(st, I(c_))]
        if tr == "Try1":
            return self.try1(eng, st, args, name, destty, site, fr, c)
        if tr in ("core::convert::Into", "core::convert::From") and len(args) == 1:
            if args[0][0] in ("i",):
                return [(st, args[0])]
            if args[0][0] == "b" and destty is not None and destty.k in ("uint", "int"):
                return [(s, I(n)) for n, r in zip((1, 0), eng.branch(st, args[0][1])) for s in r]
        if tr and args:
            v, pl = self.deref_all(eng, st, args[0])
            if v[0] == "adt":
                b = eng.bytrait.get((tr, name, v[1]))
                if b is not None:
                    return eng.exec_body(b, args, st, destty, site)
            if v[0] == "ref" and v[1][0] == "slot":
                b = self.elem_impl(eng, tr, name)
                if b is not None:
                    return eng.exec_body(b, [v] + args[1:], st, destty, site)
        return None

    def is_cell(self, v):
        return is_adt(v, "m::Opt") or v[0] == "sym" and len(v) > 2 and v[2] is not None and v[2].k == "adt" and v[2].path.endswith("::ConcurrentOption")

    def elem_impl(self, eng, tr, name, other=None):
        for (t, n, s), b in eng.bytrait.items():
            if t == tr and n == name and s and s.endswith("ConcurrentElement"):
                return b
        return None

    def try1(self, eng, st, args, name, destty, site, fr, c):
        if name == "branch1":
            v = args[0]
            if v[0] == "sym":
                out = []
                self.serial_tmp = eng.serial = eng.serial + 1
                root = ("T", "try", eng.serial)
                st.mem[root] = v
                for s, _ in eng.discr_of(st, (root, ())):
                    x = s.mem.pop(root)
                    out += self.try1(eng, s, [x], name, destty, site, fr, c)
                return out
            if is_adt(v, OPT):
                return [(st, ok(v[3][0]) if v[2] == 1 else err(v))]
            if is_adt(v, RES):
                return [(st, ok(v[3][0]) if v[2] == 0 else err(v))]
            if v[0] == "adt" and v[1].endswith("ControlFlow"):
                return [(st, ok(v[3][0]) if v[2] == 0 else err(v))]
            return [(st, eng.unknown(st, "try on " + str(v)[:40]))]
        # output1: the type of the original call
        t = fr.destty
        p = t.path if t is not None and t.k == "adt" else ""
        if p == OPT:
            return [(st, some(args[0]))]
        if p == RES:
            return [(st, ok(args[0]))]
        if p and p.endswith("ControlFlow"):
            return [(st, adt(p, args[0], variant=0))]
        return [(st, eng.unknown(st, "try output"))]

    def clone(self, eng, st, ref, destty, site):
        v, pl = self.deref_all(eng, st, ref)
        # one level only: a clone of a reference is the reference
        if ref[0] == "ref":
            v = ref if ref[1][0] in ("cell", "slot") else eng.read(st, (ref[1], ref[2]))
        if v[0] == "ref" and v[1][0] == "cell" and v is ref:
            eng.emit(st, "touch", v[1], "clone", site)
            x = eng.read_root(st, v[1])
            r = ("sym", ("clone", x), destty)
            st.log(f"{site}: caller code (Clone) runs")
            eng.emit(st, "user", ("clone",), [ref], r, site)
            return [(st, r)]
        if v[0] == "ref" and v[1][0] == "slot" and v is ref:
            return [(st, eng.unknown(st, "clone of an element", destty))]
        if v[0] in ("i", "b", "ref", "fn", "str"):
            return [(st, v)]
        if v[0] == "adt":
            b = eng.bytrait.get(("core::clone::Clone", "clone", v[1]))
            if b is not None and b.local:
                return eng.exec_body(b, [ref], st, destty, site)
            return [(st, v)]
        if v[0] == "sym":
            t = v[2]
            if t is not None and t.k == "adt" and t.d.adts.get(t.raw["path"], {}).get("local") is False and t.k != "param":
                return [(st, ("sym", ("clone", v), t))]
            r = ("sym", ("clone", v), destty)
            eng.emit(st, "user", ("clone",), [ref], r, site)
            return [(st, r)]
        return [(st, eng.unknown(st, "clone", destty))]

    def partial_eq(self, eng, st, args, name, destty, site):
        a, pa = self.deref_all(eng, st, args[0])
        b, pb = self.deref_all(eng, st, args[1])

        def neg(outs):
            return [(s, B(fnot(v[1])) if v[0] == "b" else v) for s, v in outs] if name == "ne" else outs
        if a[0] == "i" and b[0] == "i":
            return neg([(st, B(flit("eq", a[1] - b[1])))])
        if a[0] == "b" and b[0] == "b":
            return neg([(st, B(eng.feq(a[1], b[1])))])
        if a[0] == "ref" and a[1][0] == "slot" and not a[2]:
            other = b[0] == "ref" and b[1][0] == "slot"
            for bb in eng.bytrait_all.get(("core::cmp::PartialEq", "eq"), []):
                if bb.d.fix(bb.raw.get("self", "")).endswith("ConcurrentElement"):
                    two = bb.raw.get("itref", "").count("ConcurrentElement") >= 2 or "PartialEq<" not in bb.raw.get("itref", "").replace("PartialEq<T>", "X")
                    isT = "PartialEq<T>" in bb.raw.get("itref", "")
                    if other == (not isT):
                        b2 = b if b[0] == "ref" else (args[1] if pb is None else ("ref", pb[0], pb[1]))
                        return neg(eng.exec_body(bb, [a, b2], st, destty, site))
        if is_adt(a, OPT) and is_adt(b, OPT):
            if a[2] != b[2]:
                return neg([(st, B(False))])
            if a[2] == 0:
                return neg([(st, B(True))])
            self_ = [self.mk_ref(eng, st, a[3][0]), self.mk_ref(eng, st, b[3][0])]
            return neg(self.partial_eq(eng, st, self_, "eq", destty, site))
        if a[0] == "adt" and b[0] == "adt" and not a[3] and not b[3] and a[1] == b[1]:
            return neg([(st, B(a[2] == b[2]))])
        if a[0] == "adt":
            bb = eng.bytrait.get(("core::cmp::PartialEq", "eq", a[1]))
            if bb is not None:
                return neg(eng.exec_body(bb, args, st, destty, site))
        # values of the element type: caller code
        ra = a if a[0] == "ref" else (("ref", pa[0], pa[1]) if pa else a)
        rb = b if b[0] == "ref" else (("ref", pb[0], pb[1]) if pb else b)
        self.touch_args(eng, st, [ra, rb], site)
        r = B(("sym", eng.fresh("ueq")))
        st.log(f"{site}: two values are compared by caller code")
        eng.emit(st, "user", ("eq",), [ra, rb], r, site)
        return neg([(st, r)])

    def mk_ref(self, eng, st, v):
        eng.serial += 1
        root = ("T", "v", eng.serial)
        st.mem[root] = v
        return ("ref", root, ())

    def range_bound(self, eng, st, args, name, destty, site):
        v, pl = self.deref_all(eng, st, args[0])
        BD = "core::ops::Bound"

        def inc(i):
            return adt(BD, ("ref", pl[0], pl[1] + (i,)), variant=0)

        def exc(i):
            return adt(BD, ("ref", pl[0], pl[1] + (i,)), variant=1)
        unb = adt(BD, variant=2)
        s = name == "start_bound"
        p = v[1] if v[0] == "adt" else ""
        if v[0] == "adt":
            if p == "core::ops::Range":
                return [(st, inc(0) if s else exc(1))]
            if p == "core::ops::RangeFrom":
                return [(st, inc(0) if s else unb)]
            if p == "core::ops::RangeTo":
                return [(st, unb if s else exc(0))]
            if p == "core::ops::RangeToInclusive":
                return [(st, unb if s else inc(0))]
            if p == "core::ops::RangeFull":
                return [(st, unb)]
            if p == "m::RangeInc":
                return [(st, inc(0) if s else inc(1))]
            if p == "()" and len(v[3]) == 2:
                b = v[3][0 if s else 1]
                return [(st, b)]
            return [(st, eng.unknown(st, "range " + p, destty))]
        # a range chosen by the caller
        t = v[1] if v[0] == "sym" else str(v)
        root = ("T", "rb", t, name)
        st.mem[root] = I(atom(("rb", t, name)))
        r = ("ref", root, ())
        known = st.syms.get(("bound", t, name))
        out = []
        for i in range(3):
            if known is not None and known != i:
                continue
            s2 = st.copy()
            self.set_sym(s2, ("bound", t, name), i)
            out.append((s2, adt(BD, r, variant=i) if i < 2 else unb))
        eng.emit(st, "user", ("range",), [], UNIT, site)
        return out

    # ---------- iterators ----------
    def iter_call(self, eng, d, c, args, st, destty, site, fr):
        tr, name = c["trait"], c["name"]
        short = tr.split("::")[-1]
        if short == "IntoIterator":
            return self.into_iter(eng, st, args[0], destty, site, c, d)
        if short == "FromIterator":
            return self.collect(eng, st, args[0], c, d, destty, site)
        if short == "Extend":
            v, pl = self.deref_all(eng, st, args[0])
            if is_adt(v, "m::Vec"):
                return eng.exec_body(eng.mfn["vec_extend"], args, st, destty, site)
            return None
        v, pl = self.deref_all(eng, st, args[0])
        if name == "len" and short == "ExactSizeIterator":
            l = self.iter_len(eng, st, v)
            if l is not None:
                return [(st, I(l))]
            if is_adt(v, "core::ops::Range") and v[3][0][0] == "i" and v[3][1][0] == "i":
                x, y = v[3][0][1], v[3][1][1]
                a_, b_ = eng.branch(st, flit("le", x - y))
                return [(s, I(y - x)) for s in a_] + [(s, I(0)) for s in b_]
            if v[0] == "sym":
                eng.emit(st, "user", ("iterlen",), args, UNIT, site)
                return [(st, I(atom(("ulen", v[1]))))]
            return [(st, eng.unknown(st, "iterator len", destty))]
        if name == "size_hint":
            l = self.iter_len(eng, st, v)
            if l is not None:
                return [(st, tup(I(l), some(I(l))))]
            a, b = eng.fresh_int("lo"), eng.fresh_int("hi")
            s2 = st.copy()
            eng.emit(st, "user", ("sizehint",), args, tup(I(a), some(I(b))), site)
            eng.emit(s2, "user", ("sizehint",), args, tup(I(a), none()), site)
            return [(st, tup(I(a), some(I(b)))), (s2, tup(I(a), none()))]
        if name in ("next", "next_back"):
            return self.iter_next(eng, st, v, pl, args, name, destty, site, c, d)
        if name == "collect":
            return self.collect(eng, st, args[0], c, d, destty, site)
        if name in ("flatten", "flat_map") and is_adt(args[0], "m::Bufs"):
            r = self.flat_bufs(eng, st, v, args, name, site, c, d)
            if r is not None:
                return [(st, r)]
        if name == "nth" and is_adt(v, "m::Slots"):
            return eng.exec_body(eng.mfn["nth_slots"], [("ref",) + pl] + args[1:], st, destty, site)
        if name in ("skip", "take") and is_adt(args[0], "m::Slots"):
            return eng.exec_body(eng.mfn[name + "_slots"], args, st, destty, site)
        if name == "step_by" and is_adt(args[0], "core::ops::Range"):
            return eng.exec_body(eng.mfn["step_range"], args, st, destty, site)
        # a method overridden by a local impl
        if v[0] == "adt":
            b = eng.bytrait.get((tr, name, v[1]))
            if b is not None:
                return eng.exec_body(b, args, st, destty, site)
        b = eng.mfn.get("iter_" + name)
        if b is not None:
            return eng.exec_body(b, args, st, destty, site)
        return [(st, eng.unknown(st, "iterator method " + name, destty))]

    def flat_bufs(self, eng, st, v, args, name, site, c, d):
        """the buffers of a range of positions, flattened: the elements at these positions"""
        whole = adt("m::SlotSlice", *v[3])
        flat = adt("m::Slots", *v[3])
        if name == "flatten":
            return flat
        s = st.copy()
        mon, eng.mon = eng.mon, None
        try:
            outs = eng.call_value(args[1], None, [whole], s, None, site)
            outs = [(s3, x) for s2, y in outs for s3, x in self.into_iter(eng, s2, y, None, site, c, d)]
        except Exception:
            return None
        finally:
            eng.mon = mon
        if len(outs) == 1 and outs[0][1] == flat:
            return flat
        return None

    def iter_len(self, eng, st, v):
        if v[0] == "ref":
            v, _ = self.deref_all(eng, st, v)
        if v[0] != "adt":
            return None
        p = v[1]
        if p in ("m::Slots", "m::SlotSlice", "m::SliceIter", "m::Items"):
            return v[3][2][1] - v[3][1][1]
        if p in ("m::Map", "m::Enumerate", "m::Cloned", "m::Inspect", "m::Rev"):
            return self.iter_len(eng, st, v[3][0])
        if p == "core::ops::Range" and v[3][0][0] == "i":
            a, b = v[3][0][1], v[3][1][1]
            if st.facts.proves_le(a - b):
                return b - a
            if st.facts.proves_le(b - a):
                return const(0)
            return None
        if p == "m::OptIter" and v[3][0][0] == "adt":
            return const(v[3][0][2])
        return None

    def iter_next(self, eng, st, v, pl, args, name, destty, site, c, d):
        if v[0] == "adt":
            p = v[1]
            if p == "core::ops::Range":
                if v[3][0][0] != "i":
                    return [(st, eng.unknown(st, "range of non-integers", destty))]
                return eng.exec_body(eng.mfn["range_next" if name == "next" else "range_next_back"], [("ref", pl[0], pl[1])], st, destty, site)
            if p == "core::ops::RangeFrom":
                return eng.exec_body(eng.mfn["rangefrom_next"], [("ref", pl[0], pl[1])], st, destty, site)
            tr = "core::iter::Iterator" if name == "next" else "core::iter::DoubleEndedIterator"
            b = eng.bytrait.get((tr, name, p))
            if b is not None:
                return eng.exec_body(b, [("ref", pl[0], pl[1])] if pl else args, st, destty, site)
            return [(st, eng.unknown(st, "next of " + p, destty))]
        if v[0] == "sym":
            t = v[1]
            ty = v[2]
            n = eng.g(st, ("it", t))[1]
            eng.emit(st, "user", ("next", t), args, UNIT, site)
            if ("done", t) in st.syms:
                return [(st, none())]
            st.log(f"{site}: caller's iterator is advanced")
            item_ty = None
            if destty is not None and destty.k == "adt" and destty.args() and destty.d.tag == "crate":
                item_ty = destty.args()[0]
            s2 = st.copy()
            st.sg(("it", t), I(n + 1))
            item = eng.make_sym(("uitem", t, n), item_ty)
            eng.emit(s2, "user_end", t, n, site)
            self.set_sym(s2, ("done", t), True)
            return [(st, some(item)), (s2, none())]
        return [(st, eng.unknown(st, "next of " + str(v)[:60], destty))]

    def into_iter(self, eng, st, v, destty, site, c, d):
        if v[0] == "adt":
            p = v[1]
            if p == OPT:
                return eng.exec_body(eng.mfn["option_into_iter"], [v], st, destty, site)
            if p == "m::SlotSlice":
                return eng.exec_body(eng.mfn["slotslice_iter"], [v], st, destty, site)
            if p == "m::Vec":
                return [(st, adt("m::Items", v, I(0), v[3][0]))]
            if p == "[]":
                return [(st, adt("m::Items", v, I(0), I(len(v[3]))))]
            b = eng.bytrait.get(("core::iter::IntoIterator", "into_iter", p))
            if b is not None:
                return eng.exec_body(b, [v], st, destty, site)
            return [(st, v)]
        if v[0] == "ref":
            t, pl = self.deref_all(eng, st, v)
            if t[0] == "adt":
                if t[1] == OPT:
                    return eng.exec_body(eng.mfn["option_iter"], [("ref", pl[0], pl[1])], st, destty, site)
                if t[1] in ("[]", "m::Vec"):
                    n = const(len(t[3])) if t[1] == "[]" else t[3][0][1]
                    return [(st, adt("m::SliceIter", ("ref", pl[0], pl[1]), I(0), I(n)))]
                if t[1] == "m::SlotSlice":
                    return eng.exec_body(eng.mfn["slotslice_iter"], [t], st, destty, site)
                if t[1].startswith("m::") or t[1].startswith("core::ops::Range"):
                    return [(st, v)]
            if t[0] == "sym":
                ty = t[2]
                if ty is not None and ty.k in ("slice", "array"):
                    n = eng.slice_len(st, pl)
                    return [(st, adt("m::SliceIter", ("ref", pl[0], pl[1]), I(0), I(n)))]
                return [(st, v)]
            return [(st, v)]
        if v[0] == "sym":
            if isinstance(v[1], tuple) and v[1][0] in ("pinned",):
                return [(st, adt("m::Items", v, I(0), I(v[1][2])))]
            if isinstance(v[1], tuple) and v[1][0] in ("intoiter", "?"):
                return [(st, v)]
            eng.emit(st, "user", ("into_iter", v[1]), [v], UNIT, site)
            st.log(f"{site}: caller's into_iter runs")
            return [(st, ("sym", ("intoiter", v[1]), destty if d.tag == "crate" else None))]
        return [(st, eng.unknown(st, "into_iter", destty))]

    def collect(self, eng, st, it, c, d, destty, site):
        p = destty.path if destty is not None and destty.k == "adt" else None
        if p == "alloc::vec::Vec":
            return eng.exec_body(eng.mfn["vec_collect"], [it], st, destty, site)
        if p is not None:
            b = eng.bytrait.get(("core::iter::FromIterator", "from_iter", p))
            if b is not None:
                return eng.exec_body(b, [it], st, destty, site)
        return [(st, eng.unknown(st, "collect", destty))]

    # ---------- anything else ----------
    def unknown_call(self, eng, d, c, args, st, destty, site):
        name = c.get("name")
        path = c["path"]
        t = destty
        if t is not None and t.k == "never":
            eng.panics += 1
            eng.emit(st, "panic", site)
            return []
        # a method of a type chosen by the caller
        if c.get("trait") and args:
            v, pl = self.deref_all(eng, st, args[0])
            user = (v[0] == "sym" and (v[2] is None or v[2].k in ("param", "alias", "other"))) or (v[0] == "ref" and v[1][0] == "cell")
            if user and c.get("krate") in ("core", "alloc", "std"):
                return self.user_call(eng, st, ("method", c.get("trait"), name), args, destty, site)
        st.log(f"{site}: call of {path} (no contract)")
        self.touch_args(eng, st, args, site)
        eng.emit(st, "unknown_call", path, args, site)
        return [(st, eng.unknown(st, "call of " + path, destty))]


STORAGE_EDITS = {"pop", "truncate", "clear", "remove", "insert", "swap", "push", "push_get_ptr", "extend_from_slice", "set_len",
                 "extend_from_nonoverlapping", "sort", "sort_by", "sort_by_key", "sort_unstable", "reverse"}


class Probe:
    """monitor that only notes which kinds of events happen"""
    def __init__(self, mon):
        self.mon = mon
        self.kinds = set()

    def ghost_default(self, eng, n):
        return self.mon.ghost_default(eng, n) if hasattr(self.mon, "ghost_default") else None

    def __getattr__(self, n):
        if n.startswith("on_"):
            return lambda *a: self.kinds.add(n[3:])
        raise AttributeError(n)

    def violation(self, *a):
        pass


def variant_name(eng, v):
    if not is_adt(v):
        return None
    for dd in (eng.crate, eng.models):
        a = dd.adts.get(v[1])
        if a is not None and isinstance(v[2], int) and v[2] < len(a["variants"]):
            return a["variants"][v[2]]["n"]
    return None


def eng_crate_name(eng):
    return "orx_concurrent_vec"


def show_place(pl):
    r = pl[0]
    if r[0] == "slot":
        return f"slot[{r[2]}]"
    if r[0] == "D":
        return "element " + show_term(r[1])
    return str(r[0])


def show_term(t):
    if isinstance(t, tuple):
        if t and t[0] == "arg":
            return str(t[1])
        return ".".join(show_term(x) for x in t[1:] if not isinstance(x, Ty))
    return str(t)


# ---------- core functions ----------
def c_swap(self, eng, d, c, args, st, destty, site, fr):
    a, b = args[0], args[1]
    if a[0] != "ref" or b[0] != "ref" or len(args) > 2 and not (args[2][0] == "i" and args[2][1].is_const() and args[2][1].c == 1):
        return None
    pa, pb = (a[1], a[2]), (b[1], b[2])
    for p in (pa, pb):
        if p[0][0] == "cell":
            eng.emit(st, "touch", p[0], "exchange", site)
    va, vb = eng.read(st, pa), eng.read(st, pb)
    eng.emit(st, "exchange", pa, pb, site)
    eng.write(st, pa, vb)
    eng.write(st, pb, va)
    return [(st, UNIT)]


def c_replace(self, eng, d, c, args, st, destty, site, fr):
    a = args[0]
    if a[0] != "ref":
        return None
    p = (a[1], a[2])
    if p[0][0] == "cell":
        eng.emit(st, "touch", p[0], "replace", site)
    v = eng.read(st, p)
    new = args[1] if len(args) > 1 else eng.make_sym(eng.fresh("u"), destty)
    eng.write(st, p, new)
    return [(st, v)]


def c_forget(self, eng, d, c, args, st, destty, site, fr):
    eng.emit(st, "forget", args[0], site)
    if eng.drop_matters(args[0]):
        eng.emit(st, "forgotten_handle", args[0], site)
    return [(st, UNIT)]


def c_dropfn(self, eng, d, c, args, st, destty, site, fr):
    if eng.drop_matters(args[0]):
        return [(s, UNIT) for s in eng.drop_value(st, args[0], site)]
    eng.emit(st, "drop", args[0], None, site, None)
    return [(st, UNIT)]


def c_cmp(self, eng, d, c, args, st, destty, site, fr):
    """Ord::cmp / PartialOrd on integers and pointers"""
    name = c["name"]
    a, b = args[0], args[1]
    rp = (c.get("res") or {}).get("path", "")
    isptr = "ptr" in rp
    va = eng.read(st, (a[1], a[2])) if a[0] == "ref" and (not isptr or a[1][0] in ("L", "T")) else a
    vb = eng.read(st, (b[1], b[2])) if b[0] == "ref" and (not isptr or b[1][0] in ("L", "T")) else b
    if va[0] == "i" and vb[0] == "i":
        x, y = va[1], vb[1]
        extra = None
    elif isptr and va[0] == "ref" and vb[0] == "ref":
        x, y = eng.addr_pair(st, va, vb)
        extra = None
        if va[1][0] == "slot" and vb[1][0] == "slot" and va[1][1] == vb[1][1] and va[2] == vb[2]:
            extra = va[1][2] - vb[1][2]
    else:
        return None
    d_ = x - y
    if name in ("eq", "ne"):
        f = flit("eq", extra if extra is not None else d_)
        if extra is not None and st.facts.proves_eq(extra):
            f = True
        return [(st, B(f if name == "eq" else fnot(f)))]
    if name in ("lt", "le", "gt", "ge"):
        return [(st, eng.binop(st, name.capitalize(), I(x), I(y)))]
    if name in ("min", "max") and va[0] == "i":
        out = []
        a_, b_ = eng.branch(st, flit("le", d_))
        for s in a_:
            out.append((s, I(x if name == "min" else y)))
        for s in b_:
            out.append((s, I(y if name == "min" else x)))
        return out
    if name in ("cmp", "partial_cmp"):
        out = []
        for var, fs in ((0, [("le", d_ + 1)]), (1, [("eq", d_)]), (2, [("le", -d_ + 1)])):
            ss = [st.copy()]
            for f in fs:
                ss = [s2 for s in ss for s2 in eng.assume(s, flit(*f))]
            if extra is not None:
                f = flit("eq", extra) if var == 1 else flit("ne", extra)
                ss = [s2 for s in ss for s2 in eng.assume(s, f)]
            for s in ss:
                if var == 1 and isptr and extra is None:
                    self.set_sym(s, ("alias", va[1], va[2], vb[1], vb[2]), True)
                v = adt(ORD, variant=var)
                out.append((s, v if name == "cmp" else some(v)))
        return out
    return None


def c_cmp_val(self, eng, d, c, args, st, destty, site, fr):
    """min/max by value on integers"""
    if args[0][0] == "i" and args[1][0] == "i":
        x, y = args[0][1], args[1][1]
        name = c["name"]
        out = []
        a_, b_ = eng.branch(st, flit("le", x - y))
        for s in a_:
            out.append((s, I(x if name == "min" else y)))
        for s in b_:
            out.append((s, I(y if name == "min" else x)))
        return out
    return None


ORDIS = {"is_lt": (0,), "is_le": (0, 1), "is_eq": (1,), "is_ge": (1, 2), "is_gt": (2,), "is_ne": (0, 2)}


def c_ordering(self, eng, d, c, args, st, destty, site, fr):
    """questions to the result of a comparison"""
    v, _ = self.deref_all(eng, st, args[0])
    if not (is_adt(v, ORD) and isinstance(v[2], int)):
        return None
    name = c["name"]
    if name in ORDIS:
        return [(st, B(v[2] in ORDIS[name]))]
    if name == "reverse":
        return [(st, adt(ORD, variant=2 - v[2]))]
    if name == "then":
        return [(st, v if v[2] != 1 else args[1])]
    if name == "then_with":
        return [(st, v)] if v[2] != 1 else eng.call_value(args[1], None, [], st, None, site)
    return None


def c_same(self, eng, d, c, args, st, destty, site, fr):
    """the same address in another type of pointer"""
    return [(st, args[0])] if args and args[0][0] == "ref" else None


def c_addr(self, eng, d, c, args, st, destty, site, fr):
    return [(st, I(eng.addr(st, args[0])))] if args and args[0][0] == "ref" else None


def c_ptr_eq(self, eng, d, c, args, st, destty, site, fr):
    a, b = args
    if a[0] == "ref" and b[0] == "ref":
        if a[1][0] == "slot" and b[1][0] == "slot" and a[1][1] == b[1][1] and a[2] == b[2]:
            return [(st, B(flit("eq", a[1][2] - b[1][2])))]
        x, y = eng.addr_pair(st, a, b)
        return [(st, B(flit("eq", x - y)))]
    return None


def c_vec_new(self, eng, d, c, args, st, destty, site, fr):
    return [(st, adt("m::Vec", I(0), ("str", f"v{self.bump(eng)}")))]


def c_vec_push(self, eng, d, c, args, st, destty, site, fr):
    return self.vec_push(eng, st, args, site)


def c_vec_len(self, eng, d, c, args, st, destty, site, fr):
    v, pl = self.deref_all(eng, st, args[0])
    if is_adt(v, "m::Vec"):
        return [(st, v[3][0])]
    return None


def c_vec_shorter(self, eng, d, c, args, st, destty, site, fr):
    """Vec::pop, truncate and clear: what remains is the front of the vec"""
    v, pl = self.deref_all(eng, st, args[0])
    if not is_adt(v, "m::Vec") or v[3][0][0] != "i" or pl is None:
        return None
    n = v[3][0][1]
    name = c.get("name")

    def put(s, m):
        eng.write(s, pl, adt("m::Vec", I(m), v[3][1]))
    if name == "clear":
        put(st, const(0))
        return [(st, UNIT)]
    if name == "truncate" and args[1][0] == "i":
        k = args[1][1]
        out = []
        for s in eng.assume(st.copy(), flit("le", k - n)):
            put(s, k)
            out.append((s, UNIT))
        for s in eng.assume(st.copy(), flit("le", n + 1 - k)):
            out.append((s, UNIT))
        return out
    if name == "pop":
        out = [(s, none()) for s in eng.assume(st.copy(), flit("eq", n))]
        for s in eng.assume(st.copy(), flit("le", const(1) - n)):
            put(s, n - 1)
            out.append((s, some(eng.make_sym(eng.fresh("u"), destty.args()[0] if destty is not None and destty.args() else None))))
        return out
    return None


def c_vec_insert(self, eng, d, c, args, st, destty, site, fr):
    v, pl = self.deref_all(eng, st, args[0])
    if not is_adt(v, "m::Vec") or v[3][0][0] != "i" or pl is None or args[1][0] != "i":
        return None
    n, at = v[3][0][1], args[1][1]
    for s in eng.assume(st.copy(), flit("le", n + 1 - at)):
        eng.emit(s, "panic", site)
    out = []
    for s in eng.assume(st, flit("le", at - n)):
        eng.emit(s, "vecinsert", v[3][1], n, at, args[2], site)
        out += self.vec_push(eng, s, [args[0], args[2]], site)
    return out


def c_vec_reserve(self, eng, d, c, args, st, destty, site, fr):
    return [(st, UNIT)]


def c_slice_iter(self, eng, d, c, args, st, destty, site, fr):
    return self.into_iter(eng, st, args[0], destty, site, c, d)


def c_slice_len(self, eng, d, c, args, st, destty, site, fr):
    v = args[0]
    if is_adt(v, "m::SlotSlice"):
        return [(st, I(v[3][2][1] - v[3][1][1]))]
    if v[0] == "ref":
        t, pl = self.deref_all(eng, st, v)
        if is_adt(t, "m::SlotSlice"):
            return [(st, I(t[3][2][1] - t[3][1][1]))]
        if t[0] in ("sym", "adt") and pl is not None:
            return [(st, I(eng.slice_len(st, pl)))]
    return None


def slot_slice(self, eng, st, v):
    """the run of slots a slice of elements covers: (vector, first, end)"""
    if v[0] == "ref":
        v, _ = self.deref_all(eng, st, v)
    if is_adt(v, "m::SlotSlice") and v[3][1][0] == v[3][2][0] == "i":
        return v[3][0], v[3][1][1], v[3][2][1]
    return None


def range_bounds(x, n):
    """first and end position a range selects out of n"""
    if x[0] != "adt":
        return None
    k, f = x[1].split("::")[-1], x[3]
    if any(y[0] != "i" for y in f[:2]):
        return None
    return {"Range": lambda: (f[0][1], f[1][1]), "RangeFrom": lambda: (f[0][1], n), "RangeTo": lambda: (const(0), f[0][1]),
            "RangeFull": lambda: (const(0), n), "RangeInclusive": lambda: (f[0][1], f[1][1] + 1),
            "RangeToInclusive": lambda: (const(0), f[0][1] + 1)}.get(k, lambda: None)()


def c_slots_part(self, eng, d, c, args, st, destty, site, fr):
    """parts of a slice of elements: indexing, get, split_at, split_first, split_last"""
    w = slot_slice(self, eng, st, args[0])
    if w is None:
        return None
    V, a, b = w
    name = c.get("name")

    def sub(x, y):
        return adt("m::SlotSlice", V, I(a + x), I(a + y))

    def slot(x):
        return ("ref", ("slot", V, a + x), ())
    n = b - a
    if name in ("split_first", "split_last"):
        out = [(s, none()) for s in eng.assume(st.copy(), flit("le", n))]
        for s in eng.assume(st, flit("le", const(1) - n)):
            first = name == "split_first"
            out.append((s, some(tup(slot(const(0)), sub(const(1), n)) if first else tup(slot(n - 1), sub(const(0), n - 1)))))
        return out
    if name == "split_at":
        if args[1][0] != "i":
            return None
        m = args[1][1]
        for s in eng.assume(st.copy(), flit("le", n + 1 - m)):
            eng.emit(s, "panic", site)
        return [(s, tup(sub(const(0), m), sub(m, n))) for s in eng.assume(st, flit("le", m - n))]
    if args[1][0] == "i":
        lo, hi, r = args[1][1], args[1][1] + 1, slot(args[1][1])
    else:
        w = range_bounds(args[1], n)
        if w is None:
            return None
        lo, hi, r = w[0], w[1], sub(*w)
    if name.endswith("unchecked"):
        return [(st, r)]
    bad = [s for s in eng.assume(st.copy(), flit("le", n + 1 - hi))]
    good = eng.assume(st, flit("le", hi - n))
    bad += [x for s in good for x in eng.assume(s.copy(), flit("le", hi + 1 - lo))]
    good = [x for s in good for x in eng.assume(s, flit("le", lo - hi))]
    if name == "get":
        return [(s, none()) for s in bad] + [(s, some(r)) for s in good]
    for s in bad:
        eng.emit(s, "panic", site)
    return [(s, r) for s in good]


def c_slice_get(self, eng, d, c, args, st, destty, site, fr):
    v = args[0]
    if v[0] == "ref":
        v, pl = self.deref_all(eng, st, v)
    if is_adt(v, "m::SlotSlice") and args[1][0] == "adt":
        return c_slots_part(self, eng, d, c, args, st, destty, site, fr)
    if is_adt(v, "m::SlotSlice") and args[1][0] == "i":
        return eng.exec_body(eng.mfn["slotslice_get"], [v, args[1]], st, destty, site)
    return None


def c_argument(self, eng, d, c, args, st, destty, site, fr):
    return [(st, adt("m::Arg", args[0]))]


def c_arguments(self, eng, d, c, args, st, destty, site, fr):
    vals = []
    for a in args:
        if a[0] == "ref":
            try:
                vals.append(eng.read(st, (a[1], a[2])))
            except Exception:
                pass
        else:
            vals.append(a)
    return [(st, adt("m::Args", *vals))]


def c_write_fmt(self, eng, d, c, args, st, destty, site, fr):
    self.touch_args(eng, st, args[1:], site)
    eng.emit(st, "user", ("fmt",), args[1:], UNIT, site)
    e = ("sym", ("fmterr",), None)
    return [(st.copy(), ok(UNIT)), (st, err(e))]


def c_write_str(self, eng, d, c, args, st, destty, site, fr):
    return [(st.copy(), ok(UNIT)), (st, err(("sym", ("fmterr",), None)))]


def c_debug_list(self, eng, d, c, args, st, destty, site, fr):
    return [(st, adt("m::DebugList", args[0]))]


def c_debug_entries(self, eng, d, c, args, st, destty, site, fr):
    outs = self.into_iter(eng, st, args[1], None, site, c, d)
    res = []
    for s, it in outs:
        for s2, _ in eng.exec_body(eng.mfn["drain"], [it], s, None, site):
            res.append((s2, args[0]))
    return res


def c_debug_entry(self, eng, d, c, args, st, destty, site, fr):
    self.touch_args(eng, st, args[1:], site)
    v, pl = self.deref_all(eng, st, args[1])
    eng.emit(st, "ev_yield", v if v[0] == "ref" else args[1], site)
    return [(st, args[0])]


def c_debug_finish(self, eng, d, c, args, st, destty, site, fr):
    return [(st.copy(), ok(UNIT)), (st, err(("sym", ("fmterr",), None)))]


def c_new_pinned(self, eng, d, c, args, st, destty, site, fr):
    eng.serial += 1
    v = ("sym", ("newpinned", eng.serial), destty)
    eng.emit(st, "newpinned", v, c["path"], args, site)
    return [(st, v)]


def c_iter_src(fn):
    def f(self, eng, d, c, args, st, destty, site, fr):
        return eng.exec_body(eng.mfn[fn], args, st, destty, site)
    return f


def c_spin(self, eng, d, c, args, st, destty, site, fr):
    eng.emit(st, "spin", site)
    return [(st, UNIT)]


def c_unreach(self, eng, d, c, args, st, destty, site, fr):
    return []


def c_int(op):
    def f(self, eng, d, c, args, st, destty, site, fr):
        if args[0][0] == "i" and len(args) > 1 and args[1][0] == "i":
            x, y = args[0][1], args[1][1]
            if op == "satsub":
                out = []
                a_, b_ = eng.branch(st, flit("le", y - x))
                out += [(s, I(x - y)) for s in a_]
                out += [(s, I(0)) for s in b_]
                return out
            if op == "wsub":
                a_, b_ = eng.branch(st, flit("le", y - x))
                return [(s, I(x - y)) for s in a_] + [(s, I(x - y + (1 << 64))) for s in b_]
            if op == "div":
                return [(st, I(eng.div(st, x, y)))]
            if op == "rem":
                return [(st, I(x - eng.mul(st, eng.div(st, x, y), y)))]
            if op == "satadd":
                r = eng.wrapping(st, x + y, f"{site}: addition saturates")
                return [(r[0][0], r[0][1]), (r[1][0], I((1 << 64) - 1))] if r else [(st, I(x + y))]
            if op == "wadd":
                return eng.wrapping(st, x + y, f"{site}: addition wraps") or [(st, I(x + y))]
            if op == "cadd":
                r = eng.wrapping(st, x + y, f"{site}: addition exceeds the range")
                return [(r[0][0], some(r[0][1])), (r[1][0], none())] if r else [(st, some(I(x + y)))]
            if op == "cmul":
                return [(st, some(I(eng.mul(st, x, y))))]
            if op == "satmul":
                return [(st, I(eng.mul(st, x, y)))]
            if op == "csub":
                a_, b_ = eng.branch(st, flit("le", y - x))
                return [(s, some(I(x - y))) for s in a_] + [(s, none()) for s in b_]
            if op == "divceil":
                a_, b_ = eng.branch(st, flit("eq", x - eng.mul(st, eng.div(st, x, y), y)))
                q = eng.div(st, x, y)
                return [(s, I(q)) for s in a_] + [(s, I(q + 1)) for s in b_]
            if op == "absdiff":
                a_, b_ = eng.branch(st, flit("le", y - x))
                return [(s, I(x - y)) for s in a_] + [(s, I(y - x)) for s in b_]
        return None
    return f


def c_null(self, eng, d, c, args, st, destty, site, fr):
    return [(st, eng.make_sym(eng.fresh("null"), destty))]


def c_ptr_read(self, eng, d, c, args, st, destty, site, fr):
    a = args[0]
    if a[0] != "ref":
        return None
    pl = (a[1], a[2])
    if pl[0][0] == "cell":
        eng.emit(st, "touch", pl[0], "move", site)
    v = eng.read(st, pl)
    eng.emit(st, "bitcopy", pl, v, site)
    return [(st, v)]


def c_ptr_write(self, eng, d, c, args, st, destty, site, fr):
    a = args[0]
    if a[0] != "ref":
        return None
    pl = (a[1], a[2])
    if pl[0][0] == "cell":
        eng.emit(st, "touch", pl[0], "write", site)
        eng.emit(st, "stored", pl[0], args[1], site)
        eng.emit(st, "rawstore", pl, args[1], site)
        if not pl[1]:
            st.mem[pl[0]] = args[1]
            return [(st, UNIT)]
    eng.write(st, pl, args[1])
    return [(st, UNIT)]


def c_ptr_copy(self, eng, d, c, args, st, destty, site, fr):
    """copying one value between places, bit by bit"""
    a, b, n = args
    if a[0] != "ref" or b[0] != "ref" or n[0] != "i" or not (n[1].is_const() and n[1].c == 1):
        return None
    out = c_ptr_read(self, eng, d, c, [a], st, destty, site, fr)
    return [r for s, v in out for r in c_ptr_write(self, eng, d, c, [b, v], s, destty, site, fr)]


def c_drop_in_place(self, eng, d, c, args, st, destty, site, fr):
    a = args[0]
    if a[0] != "ref":
        return None
    if a[1][0] in ("L", "T"):
        v = eng.read(st, (a[1], a[2]))
        if eng.drop_matters(v):
            return [(s, UNIT) for s in eng.drop_value(st, v, site)]
        eng.emit(st, "drop", v, None, site, (a[1], a[2]))
        return [(st, UNIT)]
    if a[1][0] != "cell":
        return None
    eng.emit(st, "touch", a[1], "drop", site)
    eng.emit(st, "bitcopy", (a[1], a[2]), eng.read(st, (a[1], a[2])), site)
    return [(st, UNIT)]


def c_const(fn):
    return lambda self, eng, d, c, args, st, destty, site, fr: [(st, fn(self, eng, args, st, destty))]


def c_vec_is_empty(self, eng, d, c, args, st, destty, site, fr):
    v, pl = self.deref_all(eng, st, args[0])
    if is_adt(v, "m::Vec") and v[3][0][0] == "i":
        return [(st, B(flit("eq", v[3][0][1])))]
    return None


def c_vec_cap(self, eng, d, c, args, st, destty, site, fr):
    v, pl = self.deref_all(eng, st, args[0])
    if is_adt(v, "m::Vec") and v[3][0][0] == "i":
        x = eng.fresh_int("vcap")
        st.facts = st.facts.add_le(v[3][0][1] - x)
        return [(st, I(x))]
    return None


def c_weak_int(self, eng, d, c, args, st, destty, site, fr):
    """a function of integers that is not modelled: an unknown number, the same for the same arguments"""
    if destty is None or destty.k != "uint" or not args or not all(a[0] == "i" for a in args):
        return None
    if c.get("name") == "next_power_of_two":
        r = eng.fresh_int("np2")
        st.facts = st.facts.add_le(args[0][1] - r).add_le(const(1) - r)
        return [(st, I(r))]
    return [(st, I(eng.weak_int((c.get("name"),) + tuple(a[1] for a in args))))]


def c_pow(self, eng, d, c, args, st, destty, site, fr):
    if len(args) == 2 and args[0][0] == "i" and args[1][0] == "i" and args[1][1].is_const() and 0 <= args[1][1].c <= 4:
        r = const(1)
        for _ in range(args[1][1].c):
            r = eng.mul(st, r, args[0][1])
        return [(st, I(r))]
    return c_weak_int(self, eng, d, c, args, st, destty, site, fr)


def c_pow2(self, eng, d, c, args, st, destty, site, fr):
    return [(st.copy(), B(True)), (st, B(False))]


def c_box_new(self, eng, d, c, args, st, destty, site, fr):
    eng.serial += 1
    root = ("T", "box", eng.serial)
    u = ("sym", ("uninit", eng.serial), None)
    st.mem[root] = args[0] if args else adt("m::Uninit", UNIT, adt("m::Uninit", u))
    return [(st, adt("m::Box", ("ref", root, ())))]


def c_box_vec(self, eng, d, c, args, st, destty, site, fr):
    b = args[0]
    if not is_adt(b, "m::Box"):
        return None
    v = eng.read(st, (b[3][0][1], ()))
    if is_adt(v, "m::Uninit"):
        v = v[3][1]
        if v[0] == "adt":
            v = v[3][0]
    if not is_adt(v, "[]"):
        return None
    x = adt("m::Vec", I(0), ("str", f"v{self.bump(eng)}"))
    root = ("T", "vec", eng.serial)
    eng.serial += 1
    st.mem[root] = x
    outs = [st]
    for e in v[3]:
        nxt = []
        for s in outs:
            nxt += [s2 for s2, _ in self.vec_push(eng, s, [("ref", root, ()), e], site)]
        outs = nxt
    return [(s, s.mem.pop(root)) for s in outs]


def c_slice_first(last):
    def f(self, eng, d, c, args, st, destty, site, fr):
        v = args[0]
        if v[0] != "ref" or v[1][0] in ("slot", "cell"):
            return None
        l = eng.slice_len(st, (v[1], v[2]))
        a, b = eng.branch(st, flit("eq", l))
        out = [(s, none()) for s in a]
        for s in b:
            for s2, r in self.i_elem(eng, s, [v, I(l - 1 if last else 0)], None, site, fr, c):
                out.append((s2, some(r)))
        return out
    return f


def c_array_map(self, eng, d, c, args, st, destty, site, fr):
    v = args[0]
    if not is_adt(v, "[]"):
        return None
    outs = [(st, ())]
    eng.serial += 1
    root = ("T", "amap", eng.serial)
    st.mem[root] = args[1]
    for x in v[3]:
        nxt = []
        for s, acc in outs:
            for s2, r in eng.call_value(("ref", root, ()), None, [x], s, None, site):
                nxt.append((s2, acc + (r,)))
        outs = nxt
    return [(s, ("adt", "[]", 0, acc)) for s, acc in outs]


def c_ord(self, eng, d, c, args, st, destty, site, fr):
    return c_cmp(self, eng, d, c, args, st, destty, site, fr)


INTS = {"saturating_sub": "satsub", "saturating_add": "satadd", "wrapping_add": "wadd", "wrapping_sub": "wsub", "wrapping_mul": "satmul",
        "unchecked_add": "wadd", "unchecked_sub": "wsub", "unchecked_mul": "satmul", "exact_div": "div", "unchecked_div": "div",
        "unchecked_rem": "rem"}
WEAK_INTS = ("ctpop", "ctlz", "cttz", "ctlz_nonzero", "cttz_nonzero", "isqrt", "ilog2", "ilog10", "next_power_of_two", "count_ones", "leading_zeros",
             "trailing_zeros", "rotate_left", "rotate_right", "bswap", "bitreverse", "swap_bytes", "reverse_bits")


CORE = {
    "core::ptr::null": c_null,
    "core::ptr::null_mut": c_null,
    "core::ptr::NonNull::<T>::dangling": c_null,
    "core::ptr::dangling": c_null,
    "core::ptr::dangling_mut": c_null,
    "core::ptr::from_ref": c_same,
    "core::ptr::from_mut": c_same,
    "core::ptr::const_ptr::<impl *const T>::cast_mut": c_same,
    "core::ptr::mut_ptr::<impl *mut T>::cast_const": c_same,
    "core::ptr::const_ptr::<impl *const T>::addr": c_addr,
    "core::ptr::mut_ptr::<impl *mut T>::addr": c_addr,
    "core::ptr::const_ptr::<impl *const T>::expose_provenance": c_addr,
    "core::ptr::read": c_ptr_read,
    "core::ptr::read_volatile": c_ptr_read,
    "core::ptr::read_unaligned": c_ptr_read,
    "core::ptr::const_ptr::<impl *const T>::read": c_ptr_read,
    "core::ptr::mut_ptr::<impl *mut T>::read": c_ptr_read,
    "core::ptr::write": c_ptr_write,
    "core::ptr::write_volatile": c_ptr_write,
    "core::ptr::mut_ptr::<impl *mut T>::write": c_ptr_write,
    "core::ptr::replace": c_replace,
    "core::ptr::mut_ptr::<impl *mut T>::replace": c_replace,
    "core::ptr::mut_ptr::<impl *mut T>::swap": c_swap,
    "alloc::boxed::Box::<T>::new_uninit": c_box_new,
    "alloc::boxed::Box::<T>::new": c_box_new,
    "alloc::boxed::box_assume_init_into_vec_unsafe": c_box_vec,
    "core::slice::<impl [T]>::first": c_slice_first(False),
    "core::slice::<impl [T]>::last": c_slice_first(True),
    "core::slice::<impl [T]>::contains": c_iter_src("slice_contains"),
    "core::iter::repeat": c_iter_src("iter_repeat"),
    "core::iter::repeat_n": c_iter_src("iter_repeat_n"),
    "alloc::fmt::format": lambda self, eng, d, c, a, st, t, s, f: [(self.touch_args(eng, st, a, s), (st, ("sym", eng.fresh("str"), t)))[1]],
    "alloc::string::String::len": c_const(lambda self, eng, a, st, t: I(eng.fresh_int("strlen"))),
    "core::str::<impl str>::len": c_const(lambda self, eng, a, st, t: I(eng.fresh_int("strlen"))),
    "core::array::<impl [T; N]>::map": c_array_map,
    "alloc::vec::Vec::<T, A>::is_empty": c_vec_is_empty,
    "alloc::vec::Vec::<T, A>::capacity": c_vec_cap,
    "core::any::TypeId::of": c_const(lambda self, eng, a, st, t: ("sym", eng.fresh("tid"), t)),
    "core::any::type_name": c_const(lambda self, eng, a, st, t: ("sym", eng.fresh("tn"), t)),
    "core::num::<impl usize>::pow": c_pow,
    "core::num::<impl usize>::is_power_of_two": c_pow2,
    "core::mem::swap": c_swap,
    "core::ptr::swap": c_swap,
    "core::ptr::swap_nonoverlapping": c_swap,
    "core::mem::replace": c_replace,
    "core::mem::take": c_replace,
    "core::mem::forget": c_forget,
    "core::ptr::copy": c_ptr_copy,
    "core::ptr::copy_nonoverlapping": c_ptr_copy,
    "core::intrinsics::copy": c_ptr_copy,
    "core::intrinsics::copy_nonoverlapping": c_ptr_copy,
    "core::ptr::drop_in_place": c_drop_in_place,
    "core::ptr::drop_glue": c_drop_in_place,
    "core::mem::drop": c_dropfn,
    "core::ptr::eq": c_ptr_eq,
    "core::ptr::addr_eq": c_ptr_eq,
    "core::hint::spin_loop": c_spin,
    "core::hint::unreachable_unchecked": c_unreach,
    "core::hint::black_box": lambda self, eng, d, c, a, st, t, s, f: [(st, a[0])],
    "alloc::vec::Vec::<T>::with_capacity": c_vec_new,
    "alloc::vec::Vec::<T>::new": c_vec_new,
    "alloc::vec::Vec::<T, A>::push": c_vec_push,
    "alloc::vec::Vec::<T, A>::insert": c_vec_insert,
    "alloc::vec::Vec::<T, A>::pop": c_vec_shorter,
    "alloc::vec::Vec::<T, A>::truncate": c_vec_shorter,
    "alloc::vec::Vec::<T, A>::clear": c_vec_shorter,
    "alloc::vec::Vec::<T, A>::len": c_vec_len,
    "alloc::vec::Vec::<T, A>::reserve": c_vec_reserve,
    "alloc::vec::Vec::<T, A>::reserve_exact": c_vec_reserve,
    "core::slice::<impl [T]>::iter": c_slice_iter,
    "core::slice::<impl [T]>::len": c_slice_len,
    "core::slice::<impl [T]>::split_first": c_slots_part,
    "core::slice::<impl [T]>::split_last": c_slots_part,
    "core::slice::<impl [T]>::split_at": c_slots_part,
    "core::slice::<impl [T]>::get_unchecked": c_slots_part,
    "core::ops::Index::index": c_slots_part,
    "core::slice::<impl [T]>::get": c_slice_get,
    "core::fmt::rt::Argument::<'_>::new_debug": c_argument,
    "core::fmt::rt::Argument::<'_>::new_display": c_argument,
    "core::fmt::Arguments::<'a>::new": c_arguments,
    "core::fmt::Arguments::<'a>::new_v1": c_arguments,
    "core::fmt::Arguments::<'a>::new_const": c_arguments,
    "core::fmt::Arguments::<'a>::from_str": c_arguments,
    "core::fmt::Formatter::<'a>::write_fmt": c_write_fmt,
    "core::fmt::Write::write_fmt": c_write_fmt,
    "core::fmt::Formatter::<'a>::write_str": c_write_str,
    "core::fmt::Write::write_str": c_write_str,
    "core::fmt::Write::write_char": c_write_str,
    "core::fmt::Formatter::<'a>::debug_list": c_debug_list,
    "core::fmt::DebugList::<'a, 'b>::entries": c_debug_entries,
    "core::fmt::DebugList::<'a, 'b>::entry": c_debug_entry,
    "core::fmt::DebugList::<'a, 'b>::finish": c_debug_finish,
    "core::fmt::builders::DebugList::<'a, 'b>::entries": c_debug_entries,
    "core::fmt::builders::DebugList::<'a, 'b>::entry": c_debug_entry,
    "core::fmt::builders::DebugList::<'a, 'b>::finish": c_debug_finish,
    "orx_fixed_vec::FixedVec::<T>::new": c_new_pinned,
    "core::iter::once": c_iter_src("iter_once"),
    "core::iter::empty": c_iter_src("iter_empty"),
    "core::iter::from_fn": c_iter_src("iter_from_fn"),
    "core::iter::repeat_with": c_iter_src("iter_repeat_with"),
    "core::iter::successors": c_iter_src("iter_successors"),
    "core::iter::zip": c_iter_src("iter_zip"),
    "core::ops::RangeInclusive::<Idx>::new": c_iter_src("range_inc_new"),
    "core::iter::Peekable::<I>::peek": c_iter_src("peekable_peek"),
    "core::option::Option::<T>::iter": c_iter_src("option_iter"),
    **{"core::cmp::Ordering::" + n: c_ordering for n in (*ORDIS, "reverse", "then", "then_with")},
    "core::cmp::min": c_cmp_val,
    "core::cmp::max": c_cmp_val,
    "core::cmp::Ord::min": c_cmp_val,
    "core::cmp::Ord::max": c_cmp_val,
    "core::num::<impl usize>::saturating_sub": c_int("satsub"),
    "core::num::<impl usize>::saturating_add": c_int("satadd"),
    "core::num::<impl usize>::wrapping_add": c_int("wadd"),
    "core::num::<impl usize>::checked_add": c_int("cadd"),
    "core::num::<impl usize>::checked_sub": c_int("csub"),
    "core::num::<impl usize>::checked_mul": c_int("cmul"),
    "core::num::<impl usize>::saturating_mul": c_int("satmul"),
    "core::num::<impl usize>::div_ceil": c_int("divceil"),
    "core::num::<impl usize>::abs_diff": c_int("absdiff"),
    "core::cmp::Ord::cmp": c_cmp,
    "core::cmp::PartialOrd::partial_cmp": c_cmp,
    "core::cmp::PartialOrd::lt": c_cmp,
    "core::cmp::PartialOrd::le": c_cmp,
    "core::cmp::PartialOrd::gt": c_cmp,
    "core::cmp::PartialOrd::ge": c_cmp,
    "core::cmp::PartialEq::eq": c_cmp,
    "core::cmp::PartialEq::ne": c_cmp,
}
