"""Runs the interpreter over the entry points of the crate and collects what the monitors find."""
import re
import sys
import time

from .contracts import Contracts
from .dump import Dump, Ty
from .interp import (Engine, State, GiveUp, Generaliser, I, B, is_adt, OPT, RES, flit, fnot, UNDEF)
from .lin import Lin, atom, const

sys.setrecursionlimit(20000)
CRATE = "orx_concurrent_vec"


class Root:
    def __init__(self, d, raw):
        self.d = d
        self.raw = raw
        self.path = raw["path"]
        self.name = raw["name"]
        self.key = raw["key"]
        self.unsafe = raw["unsafe"]
        self.exported = raw["exported"]
        self.trait = raw.get("itrait")
        self.tref = raw.get("itref") or ""
        self.span = raw["span"]
        self.ins = [Ty(d, i) for i in raw["ins"]]
        self.out = Ty(d, raw["out"])
        self.items = raw["items"]
        self.body = d.fns.get(self.key)

    def kind(self, i=0):
        """(owner, mode) of an argument: owner in vec/slice/elem/..., mode in shared/mut/own"""
        if i >= len(self.ins):
            return None, None
        t, mode = self.ins[i], "own"
        while t.k == "ref":
            mode = "mut" if t.raw.get("m") else "shared"
            t = t.e
        return owner_of(t), mode

    @property
    def owner(self):
        return self.kind()[0]

    @property
    def mode(self):
        return self.kind()[1]

    def __repr__(self):
        return self.path


def owner_of(t):
    if t is None or t.k != "adt":
        return None
    n = t.path.split("::")[-1]
    return {"ConcurrentVec": "vec", "ConcurrentSlice": "slice", "ConcurrentElement": "elem",
            "ConcurrentVecState": "state"}.get(n, n if t.d.adts.get(t.raw["path"], {}).get("local") else None)


class Analysis:
    def __init__(self, crate_file, models_file):
        self.crate = Dump(crate_file, "crate")
        self.models = Dump(models_file, "models")
        self.roots = [Root(self.crate, r) for r in self.crate.roots]
        self.len_fns = {r.path for r in self.roots if r.exported and r.name == "len" and r.owner == "vec"
                        and r.mode == "shared" and not r.trait}
        self.roles = {}
        self.stats = {"functions": set(), "calls": 0, "loops": set(), "steps": 0, "unknown": set(), "panics": 0}
        self.window = None
        self.infer_roles()
        self.infer_window()

    # ---------- shapes of the program ----------
    def exported(self, **kw):
        out = []
        for r in self.roots:
            if not r.exported or r.body is None:
                continue
            if all(getattr(r, k) == v for k, v in kw.items()):
                out.append(r)
        return out

    def find(self, name, owner, mode=None):
        for r in self.roots:
            if r.name == name and r.owner == owner and r.exported and not r.trait and (mode is None or r.mode == mode):
                return r
        return None

    def state_struct(self):
        for s in self.crate.structs:
            t = Ty(self.crate, s["ty"])
            if owner_of(t) == "state":
                return s
        return None

    def infer_roles(self):
        """which counter hands out positions, which one publishes the length"""
        st = self.state_struct()
        if st is None:
            return
        atomics = {}   # field path -> name
        for i, f in enumerate(st["fields"]):
            self.atomic_fields(Ty(self.crate, f["ty"]), (i,), f["n"], atomics)
        res = None
        push = self.find("push", "vec")
        if push is not None and len(atomics) > 1:
            tmp = {i: ("f", i) for i in atomics}
            m = RoleMon()
            try:
                self.run(push, m, roles=tmp)
            except GiveUp:
                pass
            for role, x in m.seen:
                if m.begin is not None and any(a in m.begin.atoms() for a in x.atoms()):
                    res = role[1] if isinstance(role, tuple) else None
                    break
        if res is None:
            for i in atomics:
                if "res" in atomics[i]:
                    res = i
        if res is None and atomics:
            res = min(atomics)
        rest = [i for i in atomics if i != res]
        pub = rest
        ln = self.find("len", "vec", "shared")
        if len(rest) > 1 and ln is not None:
            # other atomics may be there for other purposes: the length is computed from the published one
            m = RoleMon()
            got = []
            m.finish = lambda eng, st, v: got.append(v)
            try:
                self.run(ln, m, roles={i: "res" if i == res else ("f", i) for i in atomics}, summarise=False)
            except GiveUp:
                pass
            used = {role[1] for role, x in m.seen for v in got
                    if isinstance(role, tuple) and v[0] == "i" and any(a in v[1].atoms() for a in x.atoms())}
            if len(used) == 1:
                pub = list(used)
        for i in atomics:
            self.roles[i] = "res" if i == res else "pub" if i in pub else "other"

    def atomic_fields(self, ty, path, name, out):
        """atomics stored in a value of the type, possibly inside wrappers of this crate"""
        if "sync::atomic::Atomic" in ty.s and (ty.k != "adt" or ty.path not in self.crate.adts or "sync::atomic" in ty.path):
            out[path] = name
        elif ty.k == "adt" and ty.path in self.crate.adts and not ty.is_enum() and len(path) < 5:
            for i in range(ty.nfields(0)):
                t = ty.field(0, i)
                if t is not None and "tomic" in t.s + str(t.raw.get("path")) or t is not None and t.k == "adt":
                    self.atomic_fields(t, path + (i,), name, out)

    def infer_window(self):
        """slice window: index of the field that refers to the vector, start and length as terms over the fields"""
        r = self.find("len", "slice")
        for s in self.crate.structs:
            t = Ty(self.crate, s["ty"])
            if owner_of(t) != "slice":
                continue
            fts = [Ty(self.crate, f["ty"]) for f in s["fields"]]
            vec = [i for i, x in enumerate(fts) if x.k == "ref" and owner_of(x.e) == "vec"]
            ints = [i for i, x in enumerate(fts) if x.k == "uint"]
            if len(vec) != 1 or len(ints) != 2 or r is None or r.body is None:
                continue
            m = Mon("window", r)
            out = []
            m.finish = lambda eng, st, v: out.append(v)
            self.run(r, m, plain=True)
            if len(out) != 1 or out[0][0] != "i":
                continue
            L = out[0][1]
            co = {}
            for i in ints:
                co[i] = L.coef(("f", ("deref", ("arg", 1)), i))
            if sorted(co.values()) == [0, 1]:
                start = [i for i in ints if co[i] == 0][0]
            elif sorted(co.values()) == [-1, 1]:
                start = [i for i in ints if co[i] == -1][0]
            else:
                continue
            self.window = (vec[0], start, ints, co, L.c)

    def slice_parts(self, eng, st, v):
        """(V, start, length) of a slice value"""
        if self.window is None or v is None:
            return None
        hops = 0
        while v[0] == "ref" and hops < 4:
            v = eng.read(st, (v[1], v[2]))
            hops += 1
        if v[0] == "sym":
            v = eng.expand(v, 0)
        if v is None or v[0] != "adt":
            return None
        vec, start, ints, co, c = self.window
        if len(v[3]) <= max([vec] + ints):
            return None
        V = eng.contracts.vec_core(eng, st, v[3][vec]) if v[3][vec][0] == "ref" else None
        L = const(c)
        for i in ints:
            if v[3][i][0] != "i":
                return None
            L = L + v[3][i][1].scale(co[i])
        return V, v[3][start][1], L

    # ---------- running ----------
    def setup_args(self, eng, st, root):
        args = [eng.make_sym(("arg", i + 1), root.body.lty(i + 1)) for i in range(root.body.argc)]
        return args

    def assume_arg(self, eng, st, v, ty):
        t = ty
        while t.k == "ref":
            t = t.e
        o = owner_of(t)
        if o == "vec":
            V = eng.contracts.vec_core(eng, st, v if v[0] == "ref" else eng.contracts.mk_ref(eng, st, v))
            if V is not None:
                eng.contracts.init_bounds(eng, st, V)
            return ("vec", V, const(0), atom(("PL0", V)))
        if o == "slice":
            p = self.slice_parts(eng, st, v)
            if p is not None and p[0] is not None:
                eng.contracts.init_bounds(eng, st, p[0])
                st.facts = st.facts.add_le(p[1] + p[2] - atom(("PL0", p[0]))).add_le(-p[2])
                return ("slice",) + p
        return None

    def run(self, root, mon, roles=None, plain=False, quiescent=False, present=None, summarise=True, drain=True,
            max_time=100, assume=None):
        con = Contracts(self.roles if roles is None else roles, self.len_fns if summarise else set())
        con.quiescent = quiescent
        con.present_bound = present
        eng = Engine(self.crate, self.models, con, mon, max_time=max_time)
        eng.analysis = self
        st = State()
        mon.an = self
        mon.eng = eng
        body = root.body
        args = self.setup_args(eng, st, root)
        mon.args = args
        mon.windows = []
        if not plain:
            for i, a in enumerate(args):
                w = self.assume_arg(eng, st, a, root.ins[i] if i < len(root.ins) else body.lty(i + 1))
                mon.windows.append(w)
        if assume is not None:
            assume(eng, st, mon)
        mon.start(eng, st)
        try:
            outs = eng.exec_body(body, args, st, body.lty(0), root.span)
            for s, v in outs:
                self.finish(eng, s, v, mon, drain)
        except GiveUp as e:
            mon.give_up(str(e))
        finally:
            if not plain:
                self.stats["functions"] |= {k for k in eng.analysed if k in self.crate.fns}
                self.stats["loops"] |= eng.loops_seen
                self.stats["calls"] += eng.calls
                self.stats["steps"] += eng.steps
                self.stats["unknown"] |= set(eng.unknowns)
                self.stats["panics"] += eng.panics
        return eng

    def is_iterator(self, eng, v):
        if v[0] == "ref":
            return False
        return v[0] == "adt" and v[1] not in ("()", OPT, RES, "m::Vec", "[]") and (
            ("core::iter::Iterator", "next", v[1]) in eng.bytrait or v[1] == "core::ops::Range")

    def overridden(self, eng, s, v, mon):
        """consumption of a returned iterator by the methods it does not leave to `next`"""
        for (t, name, sp), b in list(eng.bytrait.items()):
            if sp != v[1] or b.d is not self.crate or name == "next" or not t.startswith("core::iter::") or t.endswith(("IntoIterator", "FromIterator")):
                continue
            s1 = s.copy()
            site = f"{b.path}"
            if name in ("fold", "for_each"):
                for s2, _ in eng.exec_body(eng.mfn["drain_" + name], [v], s1, None, "consumption of the returned iterator"):
                    mon.finish(eng, s2, v)
                continue
            if not hasattr(mon, "on_override"):
                continue
            root = ("T", "override", 0)
            s1.mem[root] = v
            n = atom(("asked", name))
            s1.facts = s1.facts.add_le(-n)
            if name in ("nth", "nth_back"):
                args = [("ref", root, ()), ("i", n)]
            elif name in ("next_back", "size_hint", "len"):
                args = [("ref", root, ())]
            elif name in ("count", "last"):
                args = [v]
            else:
                continue
            for s2, r in eng.exec_body(b, args, s1, b.lty(0), site):
                mon.on_override(eng, s2, name, r, n, site)

    def finish(self, eng, s, v, mon, drain):
        mon.returned(eng, s, v)
        if drain and self.is_iterator(eng, v):
            self.overridden(eng, s, v, mon)
            for s2, _ in eng.exec_body(eng.mfn["drain"], [v], s, None, "consumption of the returned iterator"):
                mon.finish(eng, s2, v)
        else:
            mon.finish(eng, s, v)


WEAK = {"?"}


def mentions(x, tags):
    if isinstance(x, Lin):
        return any(mentions(a, tags) for a in x.atoms())
    if isinstance(x, tuple):
        if len(x) == 2 and isinstance(x[0], str) and x[0] in tags and isinstance(x[1], int):
            return True
        return any(mentions(y, tags) for y in x)
    return False


class Mon:
    """base monitor: judges obligations, remembers violations"""
    wtags = {"?", "bits"}

    def __init__(self, prop, root):
        self.prop = prop
        self.root = root
        self.found = {}
        self.proved = {}
        self.undecided = {}
        self.gaveup = None
        self.only = None

    def start(self, eng, st):
        pass

    def returned(self, eng, st, v):
        pass

    def finish(self, eng, st, v):
        pass

    def give_up(self, why):
        self.gaveup = why

    def ghost_default(self, eng, name):
        return None

    def note(self, table, rule):
        table[rule] = table.get(rule, 0) + 1

    def require(self, eng, st, rule, f, msg, site, weak=None):
        """obligation: the formula holds in this abstract state"""
        if eng.quiet or self.only is not None and rule not in self.only:
            return True
        t = f if f in (True, False) else eng.truth(st, f)
        if t is True:
            self.note(self.proved, rule)
            return True
        if st.lossy or mentions(f, self.wtags) or (weak is not None and mentions(weak, self.wtags)):
            self.note(self.undecided, rule)
            return None
        self.violation(eng, st, rule, site, msg() if callable(msg) else msg, site)
        return False

    def fail(self, eng, st, rule, msg, site, weak=None):
        return self.require(eng, st, rule, False, msg, site, weak)

    def ok(self, eng, rule):
        if not eng.quiet and (self.only is None or rule in self.only):
            self.note(self.proved, rule)

    def violation(self, eng, st, rule, construct, msg, site):
        if self.only is not None and rule not in self.only:
            return
        k = (rule, str(site))
        if k not in self.found:
            self.found[k] = {"rule": rule, "site": str(site), "root": self.root.path if self.root else "", "message": msg,
                             "path": st.path() if st is not None else []}


class RoleMon(Mon):
    def __init__(self):
        Mon.__init__(self, "roles", None)
        self.seen = []
        self.begin = None

    def on_rmw(self, eng, st, V, role, old, new, op, order, site, operand):
        self.seen.append((role, old))

    def on_load(self, eng, st, V, role, v, o, site):
        self.seen.append((role, v))

    def on_claim_slots(self, eng, st, V, b, n, site):
        self.begin = b


def slot_of(v):
    """(V, index) of a value that refers to an element of a vector or to the value inside it"""
    if v is None or v[0] != "ref":
        return None
    return slot_root(v[1])


def slot_root(r):
    if r[0] == "slot":
        return r[1], r[2]
    if r[0] == "cell":
        return slot_root(r[1])
    return None


def cell_value(pl):
    """symbolic content of an element at the start"""
    return ("sym", ("val", pl[0], pl[1]), None)
