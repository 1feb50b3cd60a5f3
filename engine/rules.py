"""The rules: for each property, which entry points are analysed, what is observed on their paths and what must hold."""
from .analysis import Mon, mentions, slot_of, slot_root, cell_value
from .interp import I, B, UNDEF, OPT, RES, is_adt, flit, fnot
from .lin import Lin, atom, const

GROWERS = ("push", "push_for_idx", "extend", "extend_for_idx", "extend_n_items")
ACQ = ("Acquire", "AcqRel", "SeqCst")
REL = ("Release", "AcqRel", "SeqCst")
CAS = ("compare_exchange", "compare_exchange_weak", "fetch_update")


def le(a, b):
    return flit("le", a - b)


def lt(a, b):
    return flit("le", a - b + 1)


def eq(a, b):
    return flit("eq", a - b)


def fand(*fs):
    r = True
    for f in fs:
        if f is False or r is False:
            return False
        r = f if r is True else (r if f is True else ("and", r, f))
    return r


def for_(*fs):
    r = False
    for f in fs:
        if f is True or r is True:
            return True
        r = f if r is False else (r if f is False else ("or", r, f))
    return r


def is_core(V):
    """a collection created by the analysed function itself, not shared yet"""
    return isinstance(V, tuple) and V[0] == "core"


def same(a, b):
    if a == b:
        return True
    return a is not None and b is not None and a[0] == "sym" and b[0] == "sym" and a[1] == b[1]



def val_slot(v):
    """(V, index, cloned) when the value is the initial content of a slot or a clone of it"""
    cl = False
    while v is not None and v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "clone" and isinstance(v[1][1], tuple):
        v, cl = v[1][1], True
    if v is not None and v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "val":
        s = slot_root(v[1][1])
        if s is not None:
            return s[0], s[1], cl
    return None


class Rule(Mon):
    defaults = {}
    final = True

    def __init__(self, prop, root):
        Mon.__init__(self, prop, root)
        self.vids = []

    def ghost_default(self, eng, name):
        return self.defaults.get(name)

    def gi(self, eng, st, name):
        v = eng.g(st, name)
        return v[1] if v[0] == "i" else None

    def inc(self, eng, st, name, n=1):
        x = self.gi(eng, st, name)
        if x is not None:
            st.sg(name, I(x + n))

    def req(self, eng, st, rule, f, msg, site=None, firm=False):
        """obligation; `firm`: does not depend on values the analysis may have lost"""
        if eng.quiet or self.only is not None and rule not in self.only:
            return True
        if f is None:
            self.note(self.undecided, rule)
            return None
        site = site or self.where()
        if firm and f is False:
            self.violation(eng, st, rule, site, msg, site)
            return False
        return self.require(eng, st, rule, f, msg, site)

    def pushed_to(self, st, vid):
        if vid not in self.vids:
            self.vids.append(vid)
        st.sg(("into", vid), I(1))

    def holds_values(self, eng, st, v, pushed=None):
        """the values went into the returned vec, and into no other one"""
        into = [x for x in self.vids if ("G", ("into", x)) in st.mem]
        if is_adt(v, "m::Vec") and into:
            known = all(x[0] == "str" and x[1] != "?" or x[0] == "sym" and not mentions(x, {"?", "w"}) for x in into + [v[3][1]])
            self.req(eng, st, "returned-vec-holds-values", into == [v[3][1]] or (False if known else None),
                     "the values are pushed to another vec than the returned one")
            if into == [v[3][1]] and pushed is not None and v[3][0][0] == "i":
                self.req(eng, st, "returned-vec-holds-values", eq(v[3][0][1], pushed), lambda: f"the returned vec holds {v[3][0][1]} values although {pushed} were pushed")

    def where(self):
        return f"{self.root.span} in {self.root.path}" if self.root is not None else "?"

    def bad(self, eng, st, rule, msg, site=None, firm=False):
        return self.req(eng, st, rule, False, msg, site, firm)

    def PL(self, eng, st, V):
        return eng.contracts.latest(eng, st, "PL", V)

    def PL0(self, V):
        return atom(("PL0", V))

    def shared_cell(self, root):
        """a cell other threads can reach: an element of a vector that is not local, or an element argument"""
        o = root[1][0] if False else root[1]
        if o[0] == "slot":
            return not is_core(o[1])
        return o[0] == "D"

    def shared_pl(self, pl):
        return self.shared_cell(("cell", pl[0], pl[1]))


def refs_in(v, depth=0):
    """references to slots and slice values inside a value"""
    if v is None or depth > 5:
        return
    if v[0] == "ref":
        yield v
    elif v[0] == "adt":
        yield v
        for x in v[3]:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("ref", "adt"):
                yield from refs_in(x, depth + 1)


# ------------------------------------------------------------------ C01
class Claims(Rule):
    defaults = {"nclaim": I(0), "cb": I(0), "cn": I(0), "slots": I(1)}

    def on_store(self, eng, st, V, role, val, order, site):
        if role == "res" and not is_core(V):
            self.bad(eng, st, "reservation-counter-overwritten",
                     "the number of handed-out positions is overwritten: positions claimed by other threads in between are handed out again", site, True)

    def on_counter_raw(self, eng, st, V, role, name, site):
        if role == "res" and not is_core(V) and name != "into_inner":
            self.bad(eng, st, "reservation-counter-raw", "raw access to the reservation counter through a shared reference", site)

    def on_rmw(self, eng, st, V, role, old, new, op, order, site, operand):
        if role != "res":
            return
        d = new - old
        if op != "fetch_add" and op not in CAS:
            self.bad(eng, st, "claim-not-an-addition", f"{op} on the reservation counter: concurrent claims can be lost or repeated", site, True)
        if d.is_const() and d.c == 0:
            return
        self.req(eng, st, "claim-only-forward", le(const(0), d), "the reservation counter may move backwards", site)
        if not d.is_const():
            self.req(eng, st, "claim-bounded", le(d, atom(("maxcap", V))),
                     "a claim of more positions than can ever exist wraps the reservation counter, so that positions are handed out twice", site)
        self.prev_done(eng, st, site)
        self.inc(eng, st, "nclaim")
        st.sg("cb", I(old))
        st.sg("cn", I(d))
        st.sg("slots", I(0))

    def prev_done(self, eng, st, site):
        s, n = self.gi(eng, st, "slots"), self.gi(eng, st, "cn")
        if s is not None and n is not None:
            self.req(eng, st, "claimed-block-used", for_(eq(s, const(1)), eq(n, const(0))),
                     "a claimed block is abandoned: no storage is obtained for its positions, which stay unwritten for ever", site)

    def on_claim_slots(self, eng, st, V, b, n, site):
        k = self.gi(eng, st, "nclaim")
        cb, cn = self.gi(eng, st, "cb"), self.gi(eng, st, "cn")
        if None in (k, cb, cn):
            return
        none = eq(n, const(0))
        self.req(eng, st, "storage-only-for-claimed", for_(none, le(const(1), k)), "storage positions are used without claiming them first", site)
        self.req(eng, st, "storage-of-own-block", for_(none, fand(eq(b, cb), eq(n, cn))),
                 lambda: f"storage is obtained for positions {b}..+{n}, but the claimed block is {cb}..+{cn}", site)
        st.sg("slots", I(1))

    def on_stored(self, eng, st, root, val, site):
        s = slot_root(root)
        if s is None or self.root.name not in GROWERS and not is_core(s[0]):
            return
        cb, cn = self.gi(eng, st, "cb"), self.gi(eng, st, "cn")
        if None in (cb, cn):
            return
        self.req(eng, st, "store-inside-own-block", fand(le(cb, s[1]), lt(s[1], cb + cn)),
                 lambda: f"a value is stored at position {s[1]} outside the claimed block {cb}..+{cn}", site)

    def on_raw_write(self, eng, st, V, i, val, site):
        self.on_stored(eng, st, ("slot", V, i), val, site)

    def finish(self, eng, st, v):
        self.prev_done(eng, st, None)
        if self.root.name not in GROWERS:
            return
        n, cb = self.gi(eng, st, "nclaim"), self.gi(eng, st, "cb")
        if n is None or cb is None:
            return
        empty = self.nothing_to_add(eng, st)
        self.req(eng, st, "one-claim-per-call", for_(eq(n, const(1)), fand(eq(n, const(0)), empty)),
                 lambda: f"the call claims {n} blocks instead of exactly one contiguous block")
        cn, want = self.gi(eng, st, "cn"), self.announced(st, self.gi(eng, st, "cn"))
        if cn is not None and want:
            self.req(eng, st, "claims-announced-number", for_(eq(n, const(0)), *[eq(cn, x) for x in want]),
                     lambda: f"the call claims {cn} positions but was given {want[0]} values")
        if v[0] == "i":
            self.req(eng, st, "returns-first-position", for_(eq(v[1], cb), fand(empty, eq(n, const(0)))),
                     lambda: f"the call returns {v[1]} but its block begins at {cb}")

    def announced(self, st, cn):
        """how many values the call was given"""
        if self.root.name in ("push", "push_for_idx"):
            return [const(1)]
        ns = [a[1] for a in self.args[1:] if a[0] == "i"]
        if ns:
            return ns
        out = []
        for l in (cn, *st.facts.le) if cn is not None else ():
            for a in l.atoms():
                if isinstance(a, tuple) and a[0] == "ulen" and atom(a) not in out:
                    out.append(atom(a))
        return out

    def nothing_to_add(self, eng, st):
        """the call was asked to add zero values"""
        f = False
        for i, a in enumerate(self.args[1:]):
            if a[0] == "i":
                f = for_(f, eq(a[1], const(0)))
        for l in st.facts.le:
            for a in l.atoms():
                if isinstance(a, tuple) and a[0] == "ulen":
                    f = for_(f, eq(atom(a), const(0)))
        return f


# ------------------------------------------------------------------ C02
class Stores(Rule):
    defaults = {"cb": I(0), "cn": I(0), "cnt": I(0), "pc": I(0), "tot": I(0), "ended": I(0), "hlo": I(-1), "hhi": I(-2),
                "res": UNDEF, "nuser": I(0), "nclaim": I(0)}

    def start(self, eng, st):
        self.ts = []
        self.vecs = []

    def on_rmw(self, eng, st, V, role, old, new, op, order, site, operand):
        if role != "res" or (new - old).is_const() and (new - old).c == 0:
            return
        self.block_done(eng, st, site)
        if V not in self.vecs:
            self.vecs.append(V)
        st.sg(("into", V), I(1))
        self.inc(eng, st, "nclaim")
        st.sg("cb", I(old))
        st.sg("cn", I(new - old))
        st.sg("cnt", I(0))
        st.sg("pc", I(0))

    def block_done(self, eng, st, site=None):
        cn, cnt, pc = (self.gi(eng, st, x) for x in ("cn", "cnt", "pc"))
        if None in (cn, cnt, pc):
            return
        self.req(eng, st, "block-completely-written", eq(cnt, cn),
                 lambda: f"the call goes on normally after storing {cnt} values into a claimed block of {cn} positions", site)
        self.req(eng, st, "block-completely-visible", eq(pc, cn),
                 lambda: f"only {pc} of the {cn} claimed positions were made visible as present", site)

    def on_user(self, eng, st, what, args, r, site):
        if what[0] == "next":
            if what[1] not in self.ts:
                self.ts.append(what[1])
        elif what[0] == "call":
            st.sg("res", r)
            self.inc(eng, st, "nuser")
            cb = self.gi(eng, st, "cb")
            if self.root.name in ("push_for_idx", "extend_for_idx") and args and cb is not None:
                a = args[0]
                if a[0] == "i":
                    self.req(eng, st, "closure-gets-first-position", eq(a[1], cb),
                             lambda: f"the caller's function is given {a[1]} but the block begins at {cb}", site)
        elif what[0] == "sizehint" and r[0] == "adt":
            lo, hi = r[3]
            if is_adt(hi, OPT) and hi[2] == 1:
                st.sg("hlo", lo)
                st.sg("hhi", hi[3][0])

    def on_user_end(self, eng, st, t, n, site):
        st.sg("ended", I(1))

    def on_stored(self, eng, st, root, val, site):
        s = slot_root(root)
        if s is None:
            return
        cb, cnt, tot = (self.gi(eng, st, x) for x in ("cb", "cnt", "tot"))
        if None not in (cb, cnt, tot):
            self.req(eng, st, "stored-consecutively", eq(s[1], cb + cnt),
                     lambda: f"value number {cnt} of the block is stored at position {s[1]}, not at {cb + cnt}", site)
            self.supplied(eng, st, val, tot, site)
        self.inc(eng, st, "cnt")
        self.inc(eng, st, "tot")

    def supplied(self, eng, st, val, tot, site):
        n = self.root.name
        if n == "push":
            return self.req(eng, st, "stores-supplied-value", same(val, self.args[1]), "the stored value is not the one supplied", site)
        if n == "push_for_idx":
            return self.req(eng, st, "stores-supplied-value", same(val, eng.g(st, "res")), "the stored value is not the one supplied by the function", site)
        k = self.item_no(val)
        if k is None:
            return self.req(eng, st, "stores-supplied-value", None if val[0] == "sym" and self.fuzzy(val) else False,
                            lambda: f"the stored value is not an item of the supplied iterator", site)
        self.req(eng, st, "stores-items-in-order", eq(k, tot), lambda: f"item {k} of the supplied values is stored as number {tot}", site)

    def fuzzy(self, val):
        from .analysis import mentions
        return mentions(val, {"?", "w"})

    def item_no(self, val):
        if val[0] == "sym" and isinstance(val[1], tuple) and val[1][0] == "uitem":
            return val[1][2]
        return None

    def on_set_present(self, eng, st, pl, site):
        s = slot_root(pl[0])
        if s is None:
            return
        cb, cnt, pc = (self.gi(eng, st, x) for x in ("cb", "cnt", "pc"))
        if None not in (cb, cnt, pc):
            self.req(eng, st, "visible-after-store", fand(eq(s[1], cb + pc), lt(pc, cnt)),
                     lambda: f"position {s[1]} is made visible without its value having been stored", site)
        self.inc(eng, st, "pc")

    def on_raw_write(self, eng, st, V, i, val, site):
        v = val
        while v[0] == "adt" and len(v[3]) == 1:
            if v[1] == "m::Opt" and v[2] == 0:
                break
            v = v[3][0]
        self.on_stored(eng, st, ("slot", V, i), v, site)
        self.on_set_present(eng, st, (("slot", V, i), (0,)), site)

    def finish(self, eng, st, v):
        self.block_done(eng, st)
        name = self.root.name
        tot, ended, cn = (self.gi(eng, st, x) for x in ("tot", "ended", "cn"))
        if tot is None or cn is None or ended is None:
            return
        mine = [t for t in self.ts if ("G", ("it", t)) in st.mem]
        for t in mine:
            n = eng.g(st, ("it", t))[1]
            self.req(eng, st, "no-item-lost", eq(n, tot),
                     lambda: f"{n} items are taken from the supplied values but {tot} are stored")
        exact = False
        for t in mine:
            exact = for_(exact, eq(tot, atom(("ulen", t))))
        if not mine:
            for l in list(st.facts.le):
                for a in l.atoms():
                    if isinstance(a, tuple) and a[0] == "ulen":
                        exact = for_(exact, eq(tot, atom(a)))
        if name in ("extend", "extend_for_idx", "from_iter", "collect"):
            lo, hi = self.gi(eng, st, "hlo"), self.gi(eng, st, "hhi")
            h = fand(eq(tot, lo), eq(lo, hi)) if lo is not None and hi is not None else False
            self.req(eng, st, "all-supplied-values-stored", for_(eq(ended, const(1)), exact, h),
                     lambda: f"the call returns after storing {tot} values without having reached the end of the supplied ones")
        if name in ("extend_n_items", "extend_for_idx"):
            ints = [a[1] for a in self.args if a[0] == "i"]
            if ints:
                self.req(eng, st, "requested-number-stored", eq(tot, ints[-1]),
                         lambda: f"{tot} values are stored although {ints[-1]} were requested")
        if name in ("push", "push_for_idx"):
            self.req(eng, st, "one-value-stored", eq(tot, const(1)), lambda: f"{tot} values are stored by a push")
        into = [V for V in self.vecs if ("G", ("into", V)) in st.mem]
        if name == "from_iter" and into and v[0] == "adt":
            V = eng.contracts.vec_core(eng, st, eng.contracts.mk_ref(eng, st, v))
            if V is not None:
                self.req(eng, st, "collected-into-result", for_(into == [V], eq(tot, const(0))), "the values are stored into another vector than the returned one")


# ------------------------------------------------------------------ C03
class Permit(Rule):
    def start(self, eng, st):
        self.caps = []
        ints = [a[1] for a in self.args if a[0] == "i"]
        self.begin = ints[0] if ints else None
        self.num = ints[1] if len(ints) > 1 else const(1)
        if self.begin is not None:
            # claimed positions lie below the maximum capacity
            st.facts = st.facts.add_le(const(1) - self.num).add_le(self.begin + self.num - (1 << 60))

    def on_capacity(self, eng, st, V, c, site):
        if c not in self.caps:
            self.caps.append(c)

    def finish(self, eng, st, v):
        if self.begin is None:
            return
        name = None
        for d in (eng.crate, eng.models):
            for p, a in d.adts.items():
                if is_adt(v, p) and p.endswith("WritePermit"):
                    name = a["variants"][v[2]]["n"]
        last = self.begin + self.num - 1
        caps = [c for c in self.caps if self.seen(st, c)]
        if name is None:
            self.req(eng, st, "permit-known", None, "")
            return
        def over(f):
            r = False
            for c in caps:
                r = for_(r, f(c))
            return r
        if name == "JustWrite":
            self.req(eng, st, "write-only-inside-capacity", over(lambda c: lt(last, c)),
                     "a block that is not entirely inside the allocated capacity is written without waiting for its storage")
        elif name == "GrowThenWrite":
            self.req(eng, st, "only-one-expander", over(lambda c: fand(le(self.begin, c), le(c, last))),
                     "a block that does not contain the first unallocated position expands the storage: two calls may expand at once, or storage that exists is expanded")
        else:
            self.req(eng, st, "waits-only-beyond-capacity", over(lambda c: lt(c, self.begin)),
                     "a block that contains the first unallocated position waits although nobody else will expand the storage")

    def seen(self, st, c):
        return True


# ------------------------------------------------------------------ C04
class Filler(Rule):
    def finish(self, eng, st, v):
        site = self.where()
        if is_adt(v, OPT) and v[2] == 0:
            self.bad(eng, st, "fresh-memory-filled", "no filler for fresh memory: allocated positions hold uninitialised data that later reads interpret as a value", site)
            return
        if not (is_adt(v, OPT) and v[2] == 1):
            self.req(eng, st, "fresh-memory-filled", None, "")
            return
        for s, e in eng.call_value(v[3][0], None, [], st, None, site):
            x = e
            hops = 0
            while x[0] == "adt" and x[1] != "m::Opt" and len(x[3]) >= 1 and hops < 4:
                x = x[3][0]
                hops += 1
            if is_adt(x, "m::Opt"):
                self.req(eng, s, "filled-as-absent", x[2] == 0, "fresh memory is filled with elements that look present", site)
            else:
                self.req(eng, s, "filled-as-absent", None, "")


class Emptied(Rule):
    """clearing leaves no slot behind that still holds a value"""
    defaults = {"cnt": I(0), "cleared": I(0)}
    strict = False

    def on_exclusive(self, eng, st, pl, name, site):
        s = slot_root(pl[0])
        cnt = self.gi(eng, st, "cnt")
        if s is None or cnt is None:
            return
        if name not in ("exclusive_take", "take"):
            return
        if eng.truth(st, eq(s[1], cnt)) is True:
            self.inc(eng, st, "cnt")
        else:
            self.req(eng, st, "emptied-in-sequence", None, "")

    def on_seen_empty(self, eng, st, pl, site):
        """an exclusive look at a slot that holds nothing: it needs no emptying"""
        s, cnt = slot_root(pl[0]), self.gi(eng, st, "cnt")
        if s is not None and cnt is not None and eng.truth(st, eq(s[1], cnt)) is True:
            self.inc(eng, st, "cnt")

    def on_lower(self, eng, st, pl, what, site):
        self.on_exclusive(eng, st, pl, what, site)

    def on_slotwrite(self, eng, st, root, proj, val=None):
        v = val
        for _ in range(3):
            if v is not None and v[0] == "adt" and v[1] == "m::Opt":
                if v[2] == 0:
                    self.on_exclusive(eng, st, (root, ()), "take", None)
                return
            v = v[3][0] if v is not None and v[0] == "adt" and len(v[3]) == 1 else None

    def on_clear(self, eng, st, V, n, site):
        cnt = self.gi(eng, st, "cnt")
        if cnt is not None:
            r, c = atom(("res0", V)), atom(("cap0", V))
            self.req(eng, st, "slots-emptied", for_(le(r, cnt), le(c, cnt)),
                     lambda: f"only {cnt} positions are emptied before the storage is reused: the others still look occupied after clear", site)
        self.inc(eng, st, "cleared")
        st.sg("clearedV", ("sym", V, None))

    def finish(self, eng, st, v):
        n = self.gi(eng, st, "cleared")
        V = eng.g(st, "clearedV")
        if V[0] == "sym" and not mentions(V, {"?", "w"}):
            for k, t in (("res", "the number of handed-out positions"), ("pub", "the published length")):
                x = eng.contracts.latest(eng, st, k, V[1])
                self.req(eng, st, "counters-reset", eq(x, const(0)), f"{t} is not zero after clear although the storage is empty")
        if n is not None:
            f = eq(n, const(1))
            V = self.windows[0][1] if self.windows and self.windows[0] is not None else None
            if V is not None:
                # nothing to clear
                f = for_(f, fand(eq(n, const(0)), for_(eq(atom(("res0", V)), const(0)), eq(atom(("cap0", V)), const(0)))))
            self.req(eng, st, "storage-cleared", f, "clear returns without clearing the storage exactly once")


# ------------------------------------------------------------------ C05
class Length(Rule):
    """the length function itself"""
    defaults = {"q": I(0), "s": I(0), "e": I(0), "o": I(0)}

    def start(self, eng, st):
        self.V = self.windows[0][1] if self.windows and self.windows[0] else None
        if self.V is not None:
            W = atom(("W", self.V))
            for l in (atom(("pub0", self.V)) - W, W - atom(("res0", self.V)), W - atom(("cap0", self.V)), atom(("PL0", self.V)) - W):
                st.facts = st.facts.add_le(l)

    def on_load(self, eng, st, V, role, v, order, site):
        if role == "pub" and V == self.V:
            # a later reading is not below an earlier one: what was seen in between stays seen
            st.sg("q", I(v))
            if eng.g(st, "s") == eng.g(st, "e"):
                st.sg("s", I(v))
                st.sg("e", I(v))

    on_load_retry = on_load

    def on_state_seen(self, eng, st, pl, present, site):
        s = slot_root(pl[0])
        if s is None or s[0] != self.V or not present:
            return
        e = self.gi(eng, st, "e")
        if e is not None and eng.truth(st, eq(s[1], e)) is True:
            st.sg("e", I(s[1] + 1))
        else:
            st.sg("s", I(s[1]))
            st.sg("e", I(s[1] + 1))

    def visible(self, eng, st, x):
        q, s, e = (self.gi(eng, st, n) for n in "qse")
        f = le(x, self.PL0(self.V))
        if q is not None:
            f = for_(f, le(x, q))
            if s is not None and e is not None:
                f = for_(f, fand(le(s, q), le(x, e)))
        o = self.gi(eng, st, "o")
        return f if o is None else for_(f, le(x, o))

    def on_store(self, eng, st, V, role, val, order, site):
        if role == "pub" and V == self.V:
            self.bad(eng, st, "published-length-overwritten", "the published length is overwritten: a slower thread can take it back", site, True)

    def on_rmw(self, eng, st, V, role, old, new, op, order, site, operand):
        if role != "pub" or V != self.V:
            return
        if not isinstance(new, Lin):
            self.req(eng, st, "published-length-monotone", None, "")
            return
        self.req(eng, st, "published-length-monotone", le(old, new), "the published length may decrease", site)
        x = operand if op == "fetch_max" else new
        self.req(eng, st, "published-only-visible", self.visible(eng, st, x),
                 lambda: f"the length {x} is published although not all positions below it were seen to be written", site)
        # the value found by the operation was published
        st.sg("o", I(old))

    def finish(self, eng, st, v):
        if v[0] != "i" or self.V is None:
            self.req(eng, st, "length-known", None, "")
            return
        r = v[1]
        self.req(eng, st, "length-is-prefix", self.visible(eng, st, r),
                 lambda: f"the returned length {r} covers positions that were not seen to be written, or positions behind a gap")
        self.req(eng, st, "length-complete", le(atom(("W", self.V)), r),
                 lambda: f"the returned length {r} leaves out positions that were completely written before the call")


class PubElsewhere(Rule):
    """the published length is changed only upwards and only to lengths known to be published"""

    defaults = {"s": I(0), "e": I(0), "cb": I(0), "cnt": I(0)}

    def known(self, eng, st, pl):
        """a run of positions that are known to be written"""
        r = slot_root(pl[0])
        if r is None or is_core(r[0]):
            return
        e = self.gi(eng, st, "e")
        if e is None or eng.truth(st, eq(r[1], e)) is not True:
            st.sg("s", I(r[1]))
        st.sg("e", I(r[1] + 1))

    def on_state_seen(self, eng, st, pl, present, site):
        if present:
            self.known(eng, st, pl)

    def on_set_present(self, eng, st, pl, site):
        # a growing call fills its block in order (C02)
        r = slot_root(pl[0])
        if r is not None and not is_core(r[0]):
            self.inc(eng, st, "cnt")

    def on_store(self, eng, st, V, role, val, order, site):
        if role == "pub" and not is_core(V):
            self.bad(eng, st, "published-length-overwritten", "the published length is overwritten through a shared reference", site, True)

    def on_rmw(self, eng, st, V, role, old, new, op, order, site, operand):
        if role == "res" and isinstance(old, Lin):
            st.sg("cb", I(old))
            st.sg("cnt", I(0))
        if role != "pub" or is_core(V):
            return
        if not isinstance(new, Lin):
            self.req(eng, st, "published-length-monotone", None, "")
            return
        self.req(eng, st, "published-length-monotone", le(old, new), "the published length may decrease", site)
        x = operand if op == "fetch_max" else new
        f = for_(le(x, self.PL(eng, st, V)), le(new, old))
        s, e, b, n = (self.gi(eng, st, x) for x in ("s", "e", "cb", "cnt"))
        for s, e in ((s, e), (b, None if None in (b, n) else b + n)):
            if s is None or e is None:
                continue
            f = for_(f, fand(for_(le(s, self.PL(eng, st, V)), le(s, old)), le(x, e)))
        self.req(eng, st, "published-only-visible", f,
                 "the published length is raised beyond the positions known to be written", site)

    def start(self, eng, st):
        n, w = self.root.name, self.windows[0] if self.windows else None
        self.want = None
        if n in ("get", "index", "get_cloned", "get_copied") and w is not None and len(self.args) > 1 and self.args[1][0] == "i":
            self.want = self.args[1][1]
            # the position is inside the published part (vector) or the window (slice)
            self.limit = w[3]
            st.facts = st.facts.add_le(self.want + 1 - w[3])

    def on_panic(self, eng, st, site):
        if self.want is not None and self.root.name == "index":
            self.bad(eng, st, "written-position-reachable", "indexing a position inside the published length panics", site)

    def finish(self, eng, st, v):
        if self.want is not None and is_adt(v, OPT):
            self.req(eng, st, "written-position-reachable", v[2] == 1, "a position inside the published length is reported as absent")


class Empty(Rule):
    """is_empty says whether the length is zero"""

    def start(self, eng, st):
        self.L = []

    def on_len(self, eng, st, V, p, site):
        self.L.append(p)

    def finish(self, eng, st, v):
        w = self.windows[0]
        if v[0] != "b" or w is None:
            return
        if w[0] == "slice":
            f = eq(w[3], const(0))
            for val in (True, False):
                for s in eng.assume(st.copy(), v[1], val):
                    self.req(eng, s, "empty-iff-length-zero", f if val else fnot(f), "is_empty disagrees with the length")
            return
        V = w[1]
        for s in eng.assume(st.copy(), v[1], True):
            f = False
            for p in self.L:
                f = for_(f, eq(p, const(0)))
            self.req(eng, s, "empty-iff-length-zero", for_(f, eq(self.PL0(V), const(0))), "is_empty returns true although the length is not zero")
        for s in eng.assume(st.copy(), v[1], False):
            self.req(eng, s, "empty-iff-length-zero", lt(const(0), self.PL(eng, s, V)), "is_empty returns false although no position is published")


# ------------------------------------------------------------------ C06
class Reach(Rule):
    def on_iter(self, eng, st, V, a, b, site):
        self.req(eng, st, "iteration-inside-storage", for_(le(b, eng.contracts.latest(eng, st, "cap", V)), le(b, a)),
                 lambda: f"iteration up to position {b} may leave the allocated storage", site)

    def on_agg(self, eng, st, v, site):
        p = self.slice_val(eng, st, v)
        if p is not None:
            V, a, n = p
            if V is None:
                return
            self.req(eng, st, "slice-inside-published", for_(le(a + n, self.PL(eng, st, V)), eq(n, const(0))),
                     lambda: f"a slice over positions {a}..{a + n} reaches beyond the published length", site)

    def slice_val(self, eng, st, v):
        if v[0] == "adt" and v[1].split("::")[-1] == "ConcurrentSlice":
            return self.an.slice_parts(eng, st, v)
        return None

    def out(self, eng, st, v, site, what):
        for x in refs_in(v):
            if x[0] != "ref" or x[1][0] != "slot" or is_core(x[1][1]):
                continue
            V, i = x[1][1], x[1][2]
            if eng.contracts.present_known(eng, st, (x[1], (0,))):
                self.ok(eng, "element-inside-published")
                continue
            self.req(eng, st, "element-inside-published", lt(i, self.PL(eng, st, V)),
                     lambda: f"{what} the element at position {i} without knowing that it is inside the published length", site)

    def returned(self, eng, st, v):
        self.out(eng, st, v, None, "the call hands out")

    def on_ev_yield(self, eng, st, v, site):
        self.out(eng, st, v, None, "the returned iterator yields")


# ------------------------------------------------------------------ C07
class Guarded(Rule):
    defaults = {"cb": I(0), "cn": I(0)}

    def on_rmw(self, eng, st, V, role, old, new, op, order, site, operand):
        if role == "res":
            st.sg("cb", I(old))
            st.sg("cn", I(new - old))

    def on_touch(self, eng, st, root, how, site):
        if not self.shared_cell(root):
            return
        pl = (root[1], root[2])
        if eng.contracts.is_held(eng, st, pl) or self.alias_held(eng, st, pl):
            self.ok(eng, "value-touched-while-held")
            return
        if how in ("write", "move", "copy"):
            s = slot_root(root)
            cb, cn = self.gi(eng, st, "cb"), self.gi(eng, st, "cn")
            if s is not None and None not in (cb, cn) and eng.truth(st, fand(le(cb, s[1]), lt(s[1], cb + cn))) is True \
                    and not st.syms.get(("pres", pl)):
                self.ok(eng, "first-write-of-own-position")
                return
        self.bad(eng, st, "value-touched-while-held", f"the value of an element is touched ({how}) while the element is not held exclusively", site)

    def alias_held(self, eng, st, pl):
        """the same element under another name"""
        for h in eng.contracts.held(eng, st):
            a, b = h[1], pl[0]
            if a[0] == "slot" and b[0] == "slot" and a[1] == b[1] and h[2] == pl[1] and st.facts.proves_eq(a[2] - b[2]):
                return True
            for k, v in st.syms.items():
                if v is True and isinstance(k, tuple) and k[0] == "alias" and {k[1], k[3]} == {a, b}:
                    return True
        return False

    def on_unguarded(self, eng, st, pl, what, site):
        if self.shared_pl(pl):
            self.bad(eng, st, "no-unguarded-cell-access", f"{what}: the value is accessed without holding the element", site)


# ------------------------------------------------------------------ C08
class Orders(Rule):
    def on_observe(self, eng, st, pl, order, what, site):
        if what == "value" and self.shared_pl(pl):
            if order == "?":
                return
            self.req(eng, st, "value-observed-with-acquire", order in ACQ,
                     f"a value, reference or pointer is obtained by a {order} observation: the reader need not see what the writer stored", site, True)

    def on_unguarded(self, eng, st, pl, what, site):
        if self.shared_pl(pl) and what not in ("clone of the cell",):
            self.bad(eng, st, "value-observed-with-acquire", f"{what}: a value is obtained without any observation of its presence", site)

    def on_load(self, eng, st, V, role, v, order, site):
        if role != "pub" or is_core(V) or order == "?" or order in ACQ:
            if role == "pub" and not is_core(V):
                self.ok(eng, "published-length-read-with-acquire")
            return
        if len(v.t) == 1:
            eng.contracts.set_sym(st, ("weakpub", v.t[0][0]), str(site))

    def on_fence(self, eng, st, order, site):
        if order in ACQ:
            st.syms = {k: x for k, x in st.syms.items() if not (isinstance(k, tuple) and k[0] == "weakpub")}
        if order in REL:
            eng.contracts.set_sym(st, ("relfence",), True)

    def weak_in(self, st, x):
        for a in x.atoms():
            if ("weakpub", a) in st.syms:
                return st.syms[("weakpub", a)]
        return None

    def on_iter(self, eng, st, V, a, b, site):
        w = self.weak_in(st, a) or self.weak_in(st, b)
        if w:
            self.bad(eng, st, "published-length-read-with-acquire", f"positions up to a published length are used that was read by a weaker-than-acquire load ({w})", w, True)

    def on_get(self, eng, st, V, i, site):
        for k, src in list(st.syms.items()):
            if isinstance(k, tuple) and k[0] == "weakpub" and st.facts.proves_lt(i - atom(k[1])) \
                    and not st.facts.proves_lt(i - self.PL0(V)):
                self.bad(eng, st, "published-length-read-with-acquire",
                         f"a position is used that is only known from a weaker-than-acquire load of the published length ({src})", src, True)

    def finish(self, eng, st, v):
        if v[0] == "i":
            w = self.weak_in(st, v[1])
            if w:
                self.bad(eng, st, "published-length-read-with-acquire", "the returned length is based on a weaker-than-acquire read of the published length", w, True)

    def on_rmw(self, eng, st, V, role, old, new, op, order, site, operand):
        if role == "pub" and not is_core(V) and order not in ACQ and order != "?" and op not in CAS and len(old.t) == 1:
            eng.contracts.set_sym(st, ("weakpub", old.t[0][0]), str(site))
        if role == "pub" and not is_core(V) and order != "?":
            okk = order in REL or ("relfence",) in st.syms
            self.req(eng, st, "published-length-announced-with-release", okk, f"the published length is announced by a {order} operation", site, True)

    def on_store(self, eng, st, V, role, val, order, site):
        if role == "pub" and not is_core(V) and order != "?":
            okk = order in REL or ("relfence",) in st.syms
            self.req(eng, st, "published-length-announced-with-release", okk, f"the published length is announced by a {order} store", site, True)


# ------------------------------------------------------------------ C10
class Element(Rule):
    """operations of one element"""
    defaults = {"nacq": I(0), "ncall": I(0), "nst": I(0), "content": UNDEF, "res": UNDEF, "held": None}
    OPS = ("cloned", "copied", "map", "replace", "set", "update")

    def ghost_default(self, eng, name):
        if name == "held":
            return None
        return self.defaults.get(name)

    def start(self, eng, st):
        self.pl = None

    def on_acquire(self, eng, st, pl, held, site):
        if not self.shared_pl(pl):
            return
        self.inc(eng, st, "nacq")
        self.pl = pl
        st.sg("content", cell_value(pl))

    def changed(self, eng, st, root, val, site=None):
        if self.shared_cell(root):
            st.sg("content", val)
            self.inc(eng, st, "nst")

    def on_stored(self, eng, st, root, val, site):
        self.changed(eng, st, root, val, site)

    def on_cellwrite(self, eng, st, root, val):
        self.changed(eng, st, root, val)

    def on_user(self, eng, st, what, args, r, site):
        if what[0] != "call":
            return
        self.inc(eng, st, "ncall")
        st.sg("res", r)
        cur = any(a[0] == "ref" and a[1][0] == "cell" and self.shared_cell(a[1]) for a in args)
        self.req(eng, st, "function-sees-current-value", cur, "the caller's function is not given the element's current value", site)
        self.req(eng, st, "function-inside-one-step", len(eng.contracts.held(eng, st)) >= 1, "the caller's function runs while the element is not held", site)

    def on_lower(self, eng, st, pl, what, site):
        if self.shared_pl(pl):
            self.bad(eng, st, "one-exclusive-step", f"{what} makes the element absent in between: other threads can see it without a value", site)

    def finish(self, eng, st, v):
        n = self.root.name
        nacq, ncall, nst = (self.gi(eng, st, x) for x in ("nacq", "ncall", "nst"))
        content = eng.g(st, "content")
        if None in (nacq, ncall, nst) or content[0] == "undef" and self.pl is None:
            self.bad(eng, st, "one-exclusive-step", "the operation returns without ever holding the element")
            return
        self.req(eng, st, "one-exclusive-step", eq(nacq, const(1)), lambda: f"the operation takes {nacq} exclusive steps: other threads can intervene in between")
        init = cell_value(self.pl) if self.pl else None
        if n in ("map", "update"):
            self.req(eng, st, "function-runs-once", eq(ncall, const(1)), lambda: f"the caller's function runs {ncall} times")
            self.req(eng, st, "function-result-kept", same(content, init), "the value is replaced around the caller's function")
            if n == "map":
                self.req(eng, st, "returns-function-result", self.soft_same(v, eng.g(st, "res")), "the call does not return what the function returned")
        elif n == "set":
            self.req(eng, st, "new-value-stored", self.soft_same(content, self.args[1]), "the element does not hold the given value afterwards")
        elif n == "replace":
            self.req(eng, st, "new-value-stored", self.soft_same(content, self.args[1]), "the element does not hold the given value afterwards")
            self.req(eng, st, "returns-overwritten-value", self.soft_same(v, init), "the call does not return the value it overwrote")
        elif n in ("cloned", "copied"):
            s = v
            if s[0] == "sym" and isinstance(s[1], tuple) and s[1][0] == "clone":
                s = s[1][1]
            self.req(eng, st, "returns-current-value", self.soft_same(s, init), "the call does not return a copy of the current value")
            self.req(eng, st, "reading-changes-nothing", same(content, init), "reading changes the stored value")

    def soft_same(self, a, b):
        if same(a, b):
            return True
        from .analysis import mentions
        if mentions(a, {"?"}) or mentions(b, {"?"}):
            return None
        return False


class Fill(Rule):
    """fill and fill_with: one exclusive replacement per element"""
    defaults = {"res": UNDEF, "k": I(0), "acq": I(0), "ncall": I(0)}

    def start(self, eng, st):
        self.base = self.windows[0][2]
        self.V = self.windows[0][1]

    def on_acquire(self, eng, st, pl, held, site):
        s = slot_root(pl[0])
        if s is None or s[0] != self.V:
            return
        self.inc(eng, st, "acq")

    def on_user(self, eng, st, what, args, r, site):
        if what[0] == "call":
            st.sg("res", r)
            self.inc(eng, st, "ncall")
            k, c = self.gi(eng, st, "k"), self.gi(eng, st, "ncall")
            if args and args[0][0] == "i" and k is not None:
                self.req(eng, st, "function-given-position", eq(args[0][1], k), lambda: f"the function is called with {args[0][1]} for the element at offset {k}", site)

    def change(self, eng, st, root, val, site):
        s = slot_root(root)
        if s is None or s[0] != self.V:
            return
        k, acq = self.gi(eng, st, "k"), self.gi(eng, st, "acq")
        if k is None or acq is None:
            return
        self.req(eng, st, "element-filled-once", eq(s[1], self.base + k), lambda: f"step number {k} fills position {s[1]}", site)
        self.req(eng, st, "one-exclusive-step", eq(acq, k + 1), "an element is filled in more than one exclusive step", site)
        if self.root.name == "fill":
            v = val
            while v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "clone":
                v = v[1][1]
            self.req(eng, st, "filled-with-given-value", same(v, self.args[1]), "an element is not filled with the given value", site)
        else:
            c = self.gi(eng, st, "ncall")
            self.req(eng, st, "filled-with-function-result", same(val, eng.g(st, "res")), "an element is not filled with the result of its function call", site)
            self.req(eng, st, "function-runs-once", eq(c, k + 1) if c is not None else None, "the function does not run exactly once per element", site)
        self.inc(eng, st, "k")

    def on_stored(self, eng, st, root, val, site):
        self.change(eng, st, root, val, site)

    def on_cellwrite(self, eng, st, root, val):
        self.change(eng, st, root, val, None)


# ------------------------------------------------------------------ C11
class Stays(Rule):
    def lowered(self, eng, st, pl, what, site):
        if self.shared_pl(pl):
            self.bad(eng, st, "published-element-stays", f"{what} makes an element absent, at least for a moment, through a shared reference", site, True)

    def on_lower(self, eng, st, pl, what, site):
        self.lowered(eng, st, pl, what, site)

    def on_set_absent(self, eng, st, pl, site):
        self.lowered(eng, st, pl, "this operation", site)

    def on_exclusive(self, eng, st, pl, name, site):
        self.lowered(eng, st, pl, name, site)

    def on_acquire(self, eng, st, pl, held, site):
        self.ok(eng, "handles-return-to-present")

    def on_slotwrite(self, eng, st, root, proj, val=None):
        if not is_core(root[1]):
            self.bad(eng, st, "published-element-stays", "an element's cell is overwritten through a shared reference", None)


# ------------------------------------------------------------------ C27
class Unlocked(Rule):
    """an element is locked no longer than the call that locked it: a guard on every way out, none left at the end"""

    def start(self, eng, st):
        # the values the caller hands over
        self.vids = [i for a in self.args for i in parts(a) if isinstance(i, tuple)]

    def loose(self, st):
        return [k[1][1] for k in st.mem if k[0] == "G" and isinstance(k[1], tuple) and k[1][0] == "loose"]

    def on_unprotected(self, eng, st, pl, site):
        """locked without a guard that unlocks on a panic"""
        if self.shared_pl(pl):
            st.sg(("loose", pl), I(1))

    def on_forgotten_handle(self, eng, st, v, site):
        for x in refs_in(v):
            if is_adt(x, "m::MutHandle"):
                r = x[3][0]
                if r[0] == "ref":
                    self.on_unprotected(eng, st, (r[1], r[2]), site)

    def on_agg(self, eng, st, v, site):
        if v[1].endswith("::ManuallyDrop"):
            self.on_forgotten_handle(eng, st, v, site)

    def on_acquire(self, eng, st, pl, held, site):
        if self.shared_pl(pl):
            self.ok(eng, "element-locked-by-guard")

    def on_back(self, eng, st, fr, h, gen, H):
        loose = self.loose(st)
        for x in self.locked(eng, st):
            if (x[1], x[2]) in loose:
                self.bad(eng, st, "every-element-unlocked", "an iteration ends while an element is locked by no guard: later accesses to it wait for ever",
                         f"loop in {fr.body.path}", True)

    def on_release(self, eng, st, pl, site):
        st.mem.pop(("G", ("loose", (pl[0], pl[1]))), None)

    def locked(self, eng, st):
        return [h for h in eng.contracts.held(eng, st) if self.shared_pl((h[1], h[2]))]

    def exposed(self, eng, st, what, site):
        loose = self.loose(st)
        for h in self.locked(eng, st):
            self.req(eng, st, "unlocked-on-panic", (h[1], h[2]) not in loose, f"{what} while an element is locked by no guard: a panic leaves it locked for ever", site)

    def on_user(self, eng, st, what, args, r, site):
        self.exposed(eng, st, f"caller code ({what[0]}) runs", site)

    def on_panic(self, eng, st, site):
        self.exposed(eng, st, "the call panics", site)

    def on_drop(self, eng, st, v, ty, site, pl):
        """releasing a value of the element type runs code of the caller"""
        if self.loose(st) and any(isinstance(i, tuple) and i and (i[0] == "val" or i in self.vids) for i in parts(v)):
            self.exposed(eng, st, "a value is dropped", site)

    def on_ev_yield(self, eng, st, v, site):
        if self.root.name == "fmt":
            return
        self.req(eng, st, "nothing-locked-between-items", not self.locked(eng, st),
                 "an iterator keeps an element locked between two items: if the caller keeps or forgets the iterator, the element stays locked", site)

    def finish(self, eng, st, v):
        self.req(eng, st, "every-element-unlocked", not self.locked(eng, st),
                 "the call returns while an element is still locked: later accesses to it wait for ever")


# ------------------------------------------------------------------ C32
class Handed(Rule):
    """while caller code runs, only the elements whose values it was handed are held"""

    def handed(self, eng, st, v, depth=0):
        if v[0] == "ref":
            # a reference to the element (not to its value) lets the code take the element itself
            if v[1][0] == "cell":
                yield v[1][1], v[1][2]
            elif v[1][0] in ("L", "T") and depth < 4:
                yield from self.handed(eng, st, eng.read(st, (v[1], v[2])), depth + 1)
        elif v[0] == "adt" and depth < 4:
            for x in v[3]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    yield from self.handed(eng, st, x, depth + 1)

    def on_user(self, eng, st, what, args, r, site):
        if eng.quiet:
            return
        given = None
        for h in eng.contracts.held(eng, st):
            pl = (h[1], h[2])
            if not self.shared_pl(pl):
                continue
            if given is None:
                given = set(x for a in args for x in self.handed(eng, st, a))
            self.req(eng, st, "holds-only-elements-handed-over", pl in given,
                     f"caller code ({what[0]}) runs while an element is held that it was not given: it waits for itself when it uses that element, and stalls every other user of it", site)
            return
        self.ok(eng, "caller-code-with-nothing-else-held")


# ------------------------------------------------------------------ C12
class LockOrder(Rule):
    """two elements are acquired in one global order"""

    def start(self, eng, st):
        self.kinds = {}

    def on_acquire(self, eng, st, pl, held, site):
        if not self.shared_pl(pl):
            return
        if not held:
            self.ok(eng, "single-acquisition")
            return
        for h in held:
            a = (h[1], h[2])
            if not self.shared_pl(a):
                continue
            self.pair(eng, st, a, pl, site)

    def pair(self, eng, st, a, b, site):
        if eng.quiet:
            return
        ra, rb = a[0], b[0]
        if a == b:
            self.bad(eng, st, "no-second-acquisition", "an element is acquired again while it is held: the call waits for itself", site)
            return
        for k, v in st.syms.items():
            if v is True and isinstance(k, tuple) and k[0] == "alias" and {k[1], k[3]} == {ra, rb}:
                self.bad(eng, st, "no-second-acquisition", "an element is acquired again while it is held: the call waits for itself", site)
                return
        ok = set()
        differ = False
        if ra[0] == "slot" and rb[0] == "slot" and ra[1] == rb[1]:
            if st.facts.proves_eq(ra[2] - rb[2]):
                self.bad(eng, st, "no-second-acquisition", "the same position is acquired again while it is held: the call waits for itself", site)
                return
            differ = eng.truth(st, ("eq", ra[2] - rb[2])) is False

        def below(d):
            return st.facts.proves_lt(d) or differ and st.facts.proves_le(d)
        if ra[0] == "slot" and rb[0] == "slot" and ra[1] == rb[1]:
            if below(ra[2] - rb[2]):
                ok.add(("position", "ascending"))
            if below(rb[2] - ra[2]):
                ok.add(("position", "descending"))
        for (x, y) in self.addr_terms(eng, st, ra, rb):
            if below(x - y):
                ok.add(("address", "ascending"))
            if below(y - x):
                ok.add(("address", "descending"))
        if not ok:
            self.bad(eng, st, "acquisition-order", "a second element is acquired while one is held, in no fixed order: two such calls in opposite directions wait for each other, and an element compared or swapped with itself waits for ever", site)
            return
        self.ok(eng, "acquisition-order")
        if st.lossy:
            return
        self.kinds.setdefault(str(site), []).append(ok)

    def addr_terms(self, eng, st, ra, rb):
        for x in self.same_cell(st, ra):
            for y in self.same_cell(st, rb):
                for pa in ((), (0,)):
                    for pb in ((), (0,)):
                        try:
                            yield eng.addr_pair(st, ("ref", x, pa), ("ref", y, pb))
                        except Exception:
                            continue

    def same_cell(self, st, r):
        """the cell under this and under other names with the same position"""
        out = [r]
        if r[0] == "slot":
            for a in {a for f in st.facts.le for a in f.atoms() if isinstance(a, tuple) and a and a[0] == "addr"}:
                x = a[1]
                if x[0] == "slot" and x[1] == r[1] and x not in out and st.facts.proves_eq(x[2] - r[2]):
                    out.append(x)
        return out


# ------------------------------------------------------------------ C13, C29
class Polling(Rule):
    """loops that look at what other threads do, until that changes, without anything of their own that moves on"""
    defaults = {"waited": I(0), "moved": I(0), "cas": UNDEF}

    def wait(self, eng, st):
        st.sg("waited", I(1))

    def on_user(self, eng, st, what, args, r, site):
        st.sg("moved", I(1))

    def on_stored(self, eng, st, root, val, site):
        st.sg("moved", I(1))

    def on_set_present(self, eng, st, pl, site):
        st.sg("moved", I(1))

    def on_claim_slots(self, eng, st, V, b, n, site):
        st.sg("moved", I(1))

    def on_rmw(self, eng, st, V, role, old, new, op, order, site, operand):
        if op in CAS:
            st.sg("moved", I(1))

    def on_cas_failed(self, eng, st, V, role, cur, site):
        st.sg("cas", I(cur))

    # progress is counted per loop: what the loop itself does
    def on_enter(self, eng, st, fr, h):
        for g in ("waited", "moved"):
            st.sg((g, fr.body.key, h), eng.g(st, g))
            st.sg(g, I(0))

    def on_leave(self, eng, st, fr, h):
        for g in ("waited", "moved"):
            old, new = eng.g(st, (g, fr.body.key, h)), eng.g(st, g)
            if old == I(1) or new == I(1):
                st.sg(g, I(1))
            elif old == I(0) and new == I(0):
                st.sg(g, I(0))
            else:
                st.sg(g, I(eng.fresh_int("?")))
            st.mem.pop(("G", (g, fr.body.key, h)), None)

    def seen(self, eng, st, V, role, v):
        """the first value of a counter that the iteration sees"""
        if v is not None and ("G", ("rd", role, V)) not in st.mem:
            st.sg(("rd", role, V), I(v))

    def changed(self, eng, st):
        """the iteration ends because a counter changed on the way: another thread got on"""
        out = False
        for k in [k for k in st.mem if k[0] == "G" and isinstance(k[1], tuple) and k[1][0] == "rd"]:
            v = st.mem.pop(k)
            if v[0] == "i" and not out:
                try:
                    x = eng.contracts.latest(eng, st, k[1][1], k[1][2])
                except Exception:
                    continue
                out = eng.truth(st, lt(v[1], x)) is True
        return out

    def on_back(self, eng, st, fr, h, gen, H):
        changed = self.changed(eng, st)
        w, m = self.gi(eng, st, "waited"), self.gi(eng, st, "moved")
        c = self.gi(eng, st, "cas")
        # a failed exchange whose expected value is renewed only fails because another thread's succeeded
        renewed = c is not None and not gen.stable(c)
        if w is not None and m is not None and not renewed and not changed and eng.truth(st, fand(eq(w, const(1)), eq(m, const(0)))) is True:
            if not gen.advances(H, st):
                self.polls(eng, st, fr)
        if w is not None:
            self.ok(eng, self.NAME) if w == const(1) else None
        st.sg("waited", I(0))
        st.sg("moved", I(0))
        st.sg("cas", UNDEF)


# ------------------------------------------------------------------ C13
class Growth(Polling):
    NAME = "no-wait-for-other-values"
    defaults = {"open": I(0), "waited": I(0), "moved": I(0), "cas": UNDEF, "cb": I(0), "cn": I(0)}

    def on_rmw(self, eng, st, V, role, old, new, op, order, site, operand):
        Polling.on_rmw(self, eng, st, V, role, old, new, op, order, site, operand)
        if role == "res" and not ((new - old).is_const() and (new - old).c == 0):
            st.sg("open", I(1))
            st.sg("cb", I(old))
            st.sg("cn", I(new - old))
            st.sg("moved", I(1))

    def on_claim_slots(self, eng, st, V, b, n, site):
        st.sg("open", I(0))
        st.sg("moved", I(1))

    def caller(self, eng, st, what, site):
        o, n = self.gi(eng, st, "open"), self.gi(eng, st, "cn")
        if o is None or n is None:
            return
        self.req(eng, st, "no-caller-code-before-storage", for_(eq(o, const(0)), eq(n, const(0))),
                 f"{what} between claiming positions and having storage for them: while it runs (or if it fails) other growing calls wait", site)

    def on_user(self, eng, st, what, args, r, site):
        st.sg("moved", I(1))
        self.caller(eng, st, f"caller code ({what[0]}) runs", site)

    def on_panic(self, eng, st, site):
        b, n = self.gi(eng, st, "cb"), self.gi(eng, st, "cn")
        beyond = None not in (b, n) and any(
            eng.truth(st, lt(atom(a), b + n)) is True
            for a in {a for f in st.facts.le for a in f.atoms() if isinstance(a, tuple) and a and a[0] == "maxcap"})
        # storage beyond the maximum capacity never comes: nobody waits for it
        if not beyond:
            self.caller(eng, st, "the call can panic", site)

    def on_len(self, eng, st, V, p, site):
        if not is_core(V):
            if self.root.name == "len" and self.root.owner == "vec":
                self.bad(eng, st, "no-polling", "the length is determined again and again until other threads are ready", site)
            self.seen(eng, st, V, "PL", p)
            self.wait(eng, st)

    def on_load(self, eng, st, V, role, v, order, site):
        if not is_core(V):
            if role == "pub":
                self.wait(eng, st)

    on_load_retry = on_load

    def own(self, eng, st, pl):
        s = slot_root(pl[0])
        cb, cn = self.gi(eng, st, "cb"), self.gi(eng, st, "cn")
        if s is None or is_core(s[0]):
            return True
        if None in (cb, cn):
            return False
        return eng.truth(st, fand(le(cb, s[1]), lt(s[1], cb + cn))) is True

    def on_observe(self, eng, st, pl, order, what, site):
        if not self.own(eng, st, pl):
            self.wait(eng, st)

    def on_state_seen(self, eng, st, pl, present, site):
        if not self.own(eng, st, pl):
            self.wait(eng, st)

    def on_acquire(self, eng, st, pl, held, site):
        if self.shared_pl(pl) and not self.own(eng, st, pl):
            self.bad(eng, st, "no-wait-for-other-values", "a growing call waits for an element of another call", site)

    def on_permit(self, eng, st, V, site):
        st.sg("waited", I(0))

    def on_permit_spin(self, eng, st, V, site):
        if eng.g(st, "waited") == I(1):
            self.bad(eng, st, "no-wait-for-other-values",
                     "a growing call waits for its storage depending on values that other calls have claimed but not written yet", site)

    def polls(self, eng, st, fr):
        self.bad(eng, st, "no-wait-for-other-values",
                 "a growing call waits in a loop for values that other calls have claimed but not written yet", f"loop in {fr.body.path}")


class Waits(Polling):
    """a call waits only for the element it works on and, when it grows the vector, for its storage"""
    NAME = "no-polling"
    VALUES = ("map", "filter", "fold", "reduce", "fill", "fill_with", "index_of", "contains", "fmt", "eq", "ne", "clone_to_vec", "iter_cloned",
              "iter_ref", "iter_mut")
    AT = ("get_cloned", "get_copied", "get_raw", "get_raw_mut", "get_ref", "get_mut", "swap")

    def on_len(self, eng, st, V, p, site):
        if not is_core(V):
            if self.root.name == "len" and self.root.owner == "vec":
                self.bad(eng, st, "no-polling", "the length is determined again and again until other threads are ready", site)
            self.seen(eng, st, V, "PL", p)
            self.wait(eng, st)

    def on_load(self, eng, st, V, role, v, order, site):
        if not is_core(V):
            if role in ("res", "pub"):
                self.seen(eng, st, V, role, v)
            self.wait(eng, st)

    on_load_retry = on_load

    def on_rmw(self, eng, st, V, role, old, new, op, order, site, operand):
        Polling.on_rmw(self, eng, st, V, role, old, new, op, order, site, operand)
        if role == "res" and not ((new - old).is_const() and (new - old).c == 0):
            st.sg("cb", I(old))
            st.sg("cn", I(new - old))
        elif op not in CAS and not is_core(V):
            self.wait(eng, st)

    def on_capacity(self, eng, st, V, c, site):
        if not is_core(V):
            self.seen(eng, st, V, "cap", c)
            self.wait(eng, st)

    def on_observe(self, eng, st, pl, order, what, site):
        if self.shared_pl(pl):
            if self.root.owner == "elem" or self.root.name in self.VALUES + self.AT + ("clone",):
                # it may look whether the element, which is there, is held at the moment
                if all(p for _, p in eng.contracts.fork_presence(eng, st.copy(), pl)):
                    return
            self.wait(eng, st)

    def on_acquire(self, eng, st, pl, held, site):
        if not self.shared_pl(pl):
            return
        self.wait(eng, st)
        n = self.root.name
        s = slot_root(pl[0])
        if n in GROWERS:
            cb, cn = self.gi(eng, st, "cb"), self.gi(eng, st, "cn")
            if s is not None and cb is not None and cn is not None:
                self.req(eng, st, "waits-only-for-own-element", fand(le(cb, s[1]), lt(s[1], cb + cn)),
                         "a growing call waits for an element of another call", site)
        elif self.root.owner == "elem" or n == "clone" and self.root.owner == "vec":
            self.ok(eng, "waits-only-for-own-element")
        elif n not in self.VALUES + self.AT:
            self.bad(eng, st, "waits-only-for-own-element",
                     "the call locks an element although it neither reads nor changes a value: while another thread holds that element, it has to wait", site)
        elif n in self.AT and s is not None:
            w = self.windows[0] if self.windows else None
            ixs = [a[1] for a in self.args[1:] if a[0] == "i"]
            if w is not None and ixs:
                f = False
                for i in ixs:
                    f = for_(f, eq(s[1], w[2] + i))
                self.req(eng, st, "waits-only-for-own-element", f, lambda: f"the call locks the element at position {s[1]}, which it was not asked for", site)
        else:
            self.ok(eng, "waits-only-for-own-element")

    def on_permit(self, eng, st, V, site):
        if not is_core(V) and self.root.name not in GROWERS:
            self.bad(eng, st, "waits-only-for-own-storage", "a call that adds nothing waits for storage", site)

    def on_unknown_call(self, eng, st, path, args, site):
        if any(x in path for x in ("sync::Mutex", "sync::RwLock", "sync::Condvar", "sync::Barrier", "sync::Once", "mpsc", "thread::")) \
                and path.rsplit("::", 1)[-1] in ("lock", "read", "write", "wait", "wait_while", "recv", "join", "park", "sleep", "call_once", "get_or_init"):
            self.bad(eng, st, "no-blocking-call", f"{path} blocks the call", site, True)

    def polls(self, eng, st, fr):
        self.bad(eng, st, "no-polling", "the call repeats a loop until another thread changes what it looks at, without advancing itself",
                 f"loop in {fr.body.path}")

    def finish(self, eng, st, v):
        self.ok(eng, "returns-without-polling")


# ------------------------------------------------------------------ C14
class Window(Rule):
    """slices of slices stay inside, positions are translated, splits tile"""

    def start(self, eng, st):
        self.w = self.windows[0]

    def slice_val(self, eng, st, v):
        if v is not None and v[0] == "adt" and v[1].split("::")[-1] == "ConcurrentSlice":
            return self.an.slice_parts(eng, st, v)
        return None

    def on_agg(self, eng, st, v, site):
        p = self.slice_val(eng, st, v)
        if p is None or p[0] is None:
            return
        V, a, n = p
        if self.w[0] == "slice":
            _, W, s, L = self.w
            self.req(eng, st, "same-vector", V == W, "the new slice belongs to another vector", site)
            self.req(eng, st, "window-inside-window", for_(fand(le(s, a), le(a + n, s + L)), eq(n, const(0))),
                     lambda: f"the new window {a}..{a + n} is not inside the slice's own window {s}..{s + L}", site)
        else:
            self.req(eng, st, "window-inside-published", for_(le(a + n, self.PL(eng, st, V)), eq(n, const(0))),
                     lambda: f"the new window {a}..{a + n} reaches beyond the published length", site)
            self.req(eng, st, "same-vector", V == self.w[1], "the new slice belongs to another vector", site)
        self.req(eng, st, "window-length-not-negative", le(const(0), n), lambda: f"the new window has length {n}", site)

    def idx_in(self, eng, st, V, i, site, what):
        if self.w[0] != "slice" or is_core(V):
            return
        _, W, s, L = self.w
        f = False
        for w in self.windows:
            # the other operand of a comparison has a window of its own; a vector has no window
            if w is not None and w[1] == V:
                f = for_(f, True if w[0] == "vec" else fand(le(w[2], i), lt(i, w[2] + w[3])))
        self.req(eng, st, "inside-window", f,
                 lambda: f"{what} position {i}, which need not be inside the slice's window {s}..{s + L}", site)

    def on_acquire(self, eng, st, pl, held, site):
        s = slot_root(pl[0])
        if s is not None:
            self.idx_in(eng, st, s[0], s[1], site, "a slice operation acquires")

    def on_observe(self, eng, st, pl, order, what, site):
        s = slot_root(pl[0])
        # observations inside the computation of the length are about the vector, not the slice
        if s is not None and what == "value":
            self.idx_in(eng, st, s[0], s[1], site, "a slice operation reads")

    def out(self, eng, st, v):
        for x in refs_in(v):
            if x[0] == "ref":
                s = slot_root(x[1])
                if s is not None:
                    self.idx_in(eng, st, s[0], s[1], None, "a slice operation hands out")

    def on_ev_yield(self, eng, st, v, site):
        self.out(eng, st, v)

    def base(self):
        return self.w[2]

    def bound(self, st, name, t, lo, hi):
        """value of a bound of the caller's range in this state"""
        k = st.syms.get(("bound", t, name))
        if k is None:
            return None
        x = atom(("rb", t, name))
        if name == "start_bound":
            return {0: x, 1: x + 1, 2: lo}[k]
        return {0: x + 1, 1: x, 2: hi}[k]

    def returned(self, eng, st, v):
        self.out(eng, st, v)
        n = self.root.name
        w = self.w
        base = w[2]
        ix = self.args[1][1] if len(self.args) > 1 and self.args[1][0] == "i" else None
        if n in ("get", "index", "get_ref", "get_mut", "get_raw", "get_raw_mut") and ix is not None:
            x = v[3][0] if is_adt(v, OPT) and v[2] == 1 else (v if v[0] == "ref" else None)
            s = slot_of(x)
            if s is not None:
                self.req(eng, st, "position-translated", eq(s[1], base + ix), lambda: f"asked for {ix}, the call hands out position {s[1]} instead of {base + ix}")
        if n in ("get_cloned", "get_copied") and ix is not None and is_adt(v, OPT) and v[2] == 1:
            s = val_slot(v[3][0])
            if s is not None:
                self.req(eng, st, "position-translated", eq(s[1], base + ix), lambda: f"asked for {ix}, the call returns the value of position {s[1]} instead of {base + ix}")
        if n in ("slice", "as_slice"):
            p = self.slice_val(eng, st, v)
            if p is None or p[0] is None:
                return
            V, a, m = p
            if n == "as_slice":
                self.req(eng, st, "slice-is-requested-range", fand(eq(a, base), le(w[3], m)) if w[0] == "vec" else fand(eq(a, base), eq(m, w[3])),
                         lambda: f"as_slice is the window {a}..{a + m}")
                return
            ts = {k[1] for k in st.syms if isinstance(k, tuple) and k[0] == "bound"}
            if len(ts) != 1:
                return
            t = ts.pop()
            lo = self.bound(st, "start_bound", t, const(0), None)
            if lo is not None:
                self.req(eng, st, "slice-is-requested-range", for_(eq(a, base + lo), eq(m, const(0))), lambda: f"the slice begins at {a}, the requested range at {base + lo}")
            hk = st.syms.get(("bound", t, "end_bound"))
            if lo is None or hk is None:
                return
            # the requested range, cut off at the length
            hi = None if hk == 2 else self.bound(st, "end_bound", t, None, None)
            L = w[3]
            end = lo + m
            if w[0] == "slice":
                full = eq(end, L)
                beyond = le(L, hi) if hi is not None else True
            else:
                full = le(L, end)
                beyond = le(end, hi) if hi is not None else True
            f = fand(full, beyond)
            if hi is not None:
                f = for_(f, eq(end, hi))
            f = for_(f, fand(eq(m, const(0)), for_(le(L, lo), le(hi, lo) if hi is not None else False)))
            self.req(eng, st, "slice-is-requested-range", f, lambda: f"the slice has {m} positions from {a}, which is not the requested range")
        if n == "split_at" and ix is not None and v[0] == "adt" and len(v[3]) == 2:
            p, q = self.slice_val(eng, st, v[3][0]), self.slice_val(eng, st, v[3][1])
            if p is None or q is None:
                return
            f = fand(eq(p[1], base), eq(p[2], ix), eq(q[1], base + ix))
            f = fand(f, eq(q[1] + q[2], base + w[3]) if w[0] == "slice" else le(w[3], q[1] + q[2]))
            self.req(eng, st, "split-tiles", f, lambda: f"split_at({ix}) gives {p[1]}..{p[1] + p[2]} and {q[1]}..{q[1] + q[2]}")
        if n in ("split_first", "split_last"):
            if is_adt(v, OPT) and v[2] == 1 and v[3][0][0] == "adt" and len(v[3][0][3]) == 2:
                e, r = v[3][0][3]
                s, p = slot_of(e), self.slice_val(eng, st, r)
                if s is None or p is None:
                    return
                if n == "split_first":
                    f = fand(eq(s[1], base), eq(p[1], base + 1))
                    f = fand(f, eq(p[1] + p[2], base + w[3]) if w[0] == "slice" else le(w[3], p[1] + p[2]))
                else:
                    f = fand(eq(p[1], base), eq(s[1], p[1] + p[2]))
                    f = fand(f, eq(s[1] + 1, base + w[3]) if w[0] == "slice" else le(w[3], s[1] + 1))
                self.req(eng, st, "split-tiles", f, lambda: f"{n} gives the element at {s[1]} and the window {p[1]}..{p[1] + p[2]}")
            elif is_adt(v, OPT) and v[2] == 0:
                self.req(eng, st, "split-none-only-when-empty", le(w[3], const(0)), f"{n} returns None although there are elements")


# ------------------------------------------------------------------ C17 / C23
class Dismantle(Emptied):
    """length handed to the storage by exclusive operations"""
    defaults = {"cnt": I(0), "cleared": I(0), "done": I(0)}

    def number(self, eng, st, V, n, site, what):
        r, c = atom(("res0", V)), atom(("cap0", V))
        self.req(eng, st, "within-storage", le(n, c), lambda: f"{what} treats {n} positions as occupied, but growing calls that failed for lack of capacity leave the counter beyond the storage: reads past the allocation", site)
        self.req(eng, st, "nothing-left-behind", for_(le(r, n), le(c, n)), lambda: f"{what} only covers {n} positions: values stored behind them are leaked or lost", site)
        self.inc(eng, st, "done")

    def on_into_inner(self, eng, st, V, n, site):
        self.number(eng, st, V, n, site, "taking out the storage")

    def on_clear(self, eng, st, V, n, site):
        self.number(eng, st, V, n, site, "clearing")
        Emptied.on_clear(self, eng, st, V, n, site)

    def on_reserve(self, eng, st, V, n, new, m, site):
        self.number(eng, st, V, n, site, "reserving")
        self.bad(eng, st, "reserve-keeps-storage-valid",
                 "reserve_maximum_capacity of the pinned collection reallocates fixed storage but keeps the old address: later accesses use freed memory", site)

    def finish(self, eng, st, v):
        d = self.gi(eng, st, "done")
        if self.root.name == "clear":
            Emptied.finish(self, eng, st, v)
        elif d is not None and self.root.name != "reserve_maximum_capacity":
            self.req(eng, st, "storage-handed-over-once", eq(d, const(1)), "the storage is not handed over exactly once")

    def on_forgotten_handle(self, eng, st, v, site):
        self.bad(eng, st, "nothing-forgotten", "a guard is forgotten: its element stays locked for ever", site)


def parts(v, d=0):
    """identities of the unknown values a value consists of"""
    if d > 12 or v is None:
        return
    if v[0] == "sym":
        yield v[1]
    elif v[0] == "adt" and not v[1].endswith("ManuallyDrop"):
        for x in v[3]:
            yield from parts(x, d + 1)


class Once(Rule):
    """a value taken out bit by bit has one owner: the place it was read from gives it up before anything else can release it"""

    def key(self, pl):
        r = pl[0]
        if r[0] == "cell":
            return ("own", r[1][1]) if r[1][0] == "own" else (r[1], r[2])
        return None

    def dups(self, st):
        return [k[1][1] for k in st.mem if k[0] == "G" and isinstance(k[1], tuple) and k[1][0] == "dup"]

    def inside(self, k, ids):
        """the owned cell `k` is part of a value with these identities"""
        t = k[1]
        for _ in range(8):
            if t in ids:
                return True
            if not (isinstance(t, tuple) and t and t[0] in ("f", "fv")):
                return False
            t = t[1]
        return False

    def take(self, eng, st, k, site):
        if k is None or k[0] != "own" and not self.shared_pl(k):
            return
        twice = ("G", ("dup", k)) in st.mem
        self.req(eng, st, "value-taken-out-once", not twice, "a value is taken out of its element a second time: it will be dropped twice", site)
        st.sg(("dup", k), I(1))

    def on_bitcopy(self, eng, st, pl, v, site):
        self.take(eng, st, self.key(pl), site)

    def on_moved(self, eng, st, root, v, site):
        self.take(eng, st, self.key((root, ())), site)

    def settle(self, st, k):
        st.mem.pop(("G", ("dup", k)), None)

    def emptied(self, st, pl):
        self.settle(st, (pl[0], pl[1]))
        if pl[0][0] == "own":
            self.settle(st, pl[0])

    def on_stored(self, eng, st, root, val, site):
        self.last = ("G", ("dup", self.key((root, ())))) in st.mem
        self.settle(st, self.key((root, ())))

    def on_rawstore(self, eng, st, pl, val, site):
        k = self.key(pl)
        if k is None or k[0] == "own" or not self.shared_pl(k) or not eng.contracts.is_held(eng, st, k) or pl[1]:
            return
        self.req(eng, st, "overwritten-value-released", self.last, "an element's value is overwritten bit by bit without being dropped or handed over", site)

    def on_set_absent(self, eng, st, pl, site):
        self.emptied(st, pl)

    def on_gone(self, eng, st, pl, site):
        """released as absent"""
        self.emptied(st, pl)

    def on_exclusive(self, eng, st, pl, what, site):
        self.emptied(st, pl)

    def on_forget(self, eng, st, v, site):
        ids = list(parts(v))
        out = [k for k in self.dups(st) if k[0] == "own" and self.inside(k, ids)]
        for k in out:
            self.settle(st, k)
        for i in ids:
            if isinstance(i, tuple) and i and i[0] == "val":
                k = ("own", i[1][1]) if i[1][0] == "own" else (i[1], i[2])
                if k[0] == "own" or slot_root(k[0]) is not None:
                    self.req(eng, st, "nothing-forgotten", k in self.dups(st), "a stored value is forgotten after it was taken out: it is never dropped", site)
                    self.settle(st, k)
        stored = [i for i in ids if isinstance(i, tuple) and i and (i[0] in ("item", "pinned") or i[0] in ("f", "fv") and isinstance(i[1], tuple) and i[1][0] == "item")]
        if stored:
            self.req(eng, st, "nothing-forgotten", bool(out), "a stored element is forgotten with the value inside it: the value is never dropped", site)

    def on_drop(self, eng, st, v, ty, site, pl):
        ids = list(parts(v))
        for k in self.dups(st):
            hit = k[0] == "own" and self.inside(k, ids) or pl is not None and pl[0][0] == "cell" and not pl[1] and self.key(pl) == k
            self.req(eng, st, "released-once", not hit, "a value is dropped in its element although it was also taken out of it: it is dropped twice", site)

    def on_user(self, eng, st, what, args, r, site):
        for k in self.dups(st):
            self.bad(eng, st, "released-once-on-panic", "caller code runs while a value is owned twice: if it panics, the value is dropped twice", site)

    def pending(self, eng, st, k, site):
        self.bad(eng, st, "released-once", "a value was taken out of an element bit by bit, and the element keeps it: it is dropped twice", site)
        self.settle(st, k)

    def on_release(self, eng, st, pl, site):
        for k in self.dups(st):
            if k == (pl[0], pl[1]):
                self.pending(eng, st, k, site)

    def finish(self, eng, st, v):
        ids = list(parts(v))
        for k in self.dups(st):
            if k[0] != "own" or self.inside(k, ids):
                self.pending(eng, st, k, None)


class Convert(Rule):
    """plain storage <-> vector"""
    defaults = {"k": I(0), "done": I(0), "taken": I(0)}

    def start(self, eng, st):
        self.n = None
        self.V = None

    def on_newcore(self, eng, st, V, pinned, site):
        if self.root.name == "from":
            self.req(eng, st, "built-from-given-storage", same(pinned, self.args[0]), "the vector is not built from the given storage", site)

    def on_into_inner(self, eng, st, V, n, site):
        r, c = atom(("res0", V)), atom(("cap0", V))
        self.req(eng, st, "takes-exactly-written", for_(fand(eq(n, r), le(r, c)), fand(eq(n, c), le(c, r))),
                 lambda: f"{n} positions are handed over instead of the number claimed (bounded by the storage)", site)
        st.sg("taken", I(n))
        self.V = V
        self.inc(eng, st, "done")

    def on_override(self, eng, st, name, r, n, site):
        """a method of the returned iterator that does not go through `next`, called first"""
        t = self.gi(eng, st, "taken")
        if t is None:
            return
        if r[0] == "i" and name in ("count", "len"):
            self.req(eng, st, "all-values-returned", eq(r[1], t), lambda: f"{name} of the returned iterator is {r[1]}, but {t} values are stored", site)
        elif name == "size_hint" and r[0] == "adt" and len(r[3]) == 2 and r[3][0][0] == "i":
            lo, hi = r[3]
            self.req(eng, st, "all-values-returned", le(lo[1], t), lambda: f"the returned iterator announces at least {lo[1]} values, but {t} are stored", site)
            if hi[0] == "adt" and hi[2] == 1 and hi[3] and hi[3][0][0] == "i":
                self.req(eng, st, "all-values-returned", le(t, hi[3][0][1]), lambda: f"the returned iterator announces at most {hi[3][0][1]} values, but {t} are stored", site)
        elif name in ("nth", "nth_back", "next_back", "last") and r[0] == "adt" and isinstance(r[2], int):
            d = n if name in ("nth", "nth_back") else const(0)
            if not r[3]:
                self.req(eng, st, "all-values-returned", le(t, d), lambda: f"{name} of the returned iterator finds nothing although the value is stored", site)
                return
            i = self.item_idx(r[3][0])
            want = n if name == "nth" else t - 1 - d
            self.req(eng, st, "values-in-order", eq(i, want) if i is not None else None, lambda: f"{name} of the returned iterator gives the value of position {i}, not of {want}", site)

    def on_storage_edit(self, eng, st, v, name, site):
        self.bad(eng, st, "storage-kept-as-it-is", f"{name} changes what the storage holds while it is converted", site)

    def item_idx(self, v):
        """index of the stored element a value was moved out of"""
        if v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "val":
            o = v[1][1]
            if o[0] == "own":
                t = o[1]
                hops = 0
                while isinstance(t, tuple) and t[0] in ("f", "fv") and hops < 5:
                    t = t[1]
                    hops += 1
                if isinstance(t, tuple) and t[0] == "item" and len(t) == 3:
                    return t[2]
                if isinstance(t, tuple) and t[0] == "adt":
                    return None
        return None

    def taken(self, eng, st, v, site):
        k = self.gi(eng, st, "k")
        i = self.item_idx(v)
        if k is None or i is None:
            self.req(eng, st, "values-in-order", None, "")
        else:
            self.req(eng, st, "values-in-order", eq(i, k), lambda: f"value number {k} of the result is the one of position {i}", site)
        self.inc(eng, st, "k")

    def on_vecpush(self, eng, st, vid, idx, val, site):
        self.pushed_to(st, vid)
        self.taken(eng, st, val, site)

    def on_vecinsert(self, eng, st, vid, n, at, val, site):
        k, i = self.gi(eng, st, "k"), self.item_idx(val)
        f = eq(at, n) if k is not None and i is not None and st.facts.proves_eq(i - k) else None
        self.req(eng, st, "values-in-order", f, lambda: f"the value of position {i} is put in front of values of earlier positions", site)

    def on_ev_yield(self, eng, st, v, site):
        self.taken(eng, st, v, site)

    def finish(self, eng, st, v):
        n = self.root.name
        if n in ("into_inner", "to_vec", "into_iter"):
            d = self.gi(eng, st, "done")
            self.req(eng, st, "storage-handed-over-once", eq(d, const(1)) if d is not None else None, "the storage is not handed over exactly once")
        if n in ("to_vec", "into_iter"):
            k, t = self.gi(eng, st, "k"), self.gi(eng, st, "taken")
            # a path on which an owned element turns out to be empty: its presence is not known here
            gap = any(isinstance(x, tuple) and x and x[0] == "abs" and x[1][0][0] == "own" for x in st.syms)
            if k is not None and t is not None:
                self.req(eng, st, "all-values-returned", None if gap else eq(k, t), lambda: f"{k} of the {t} stored values are returned")
            if n == "to_vec":
                self.holds_values(eng, st, v, k)
        if n == "into_inner":
            okk = v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "pinned"
            self.req(eng, st, "returns-the-storage", True if okk else None, "")
            t = self.gi(eng, st, "taken")
            if okk and t is not None:
                self.req(eng, st, "all-values-returned", eq(v[1][2], t), lambda: f"{v[1][2]} of the {t} stored values are returned")
        if n == "from" and v[0] == "adt":
            V = eng.contracts.vec_core(eng, st, eng.contracts.mk_ref(eng, st, v))
            self.req(eng, st, "built-from-given-storage", True if is_core(V) else None, "")


class Counters(Rule):
    """initial values of the counters"""

    def finish(self, eng, st, v):
        if v[0] != "adt":
            self.req(eng, st, "counters-start-at-length", None, "")
            return
        if self.root.name == "new_for_pinned_vec":
            want = eng.contracts.plen(eng, st, self.args[0])
        else:
            ints = [a[1] for a in self.args if a[0] == "i"]
            want = ints[-1] if ints else None
        for i, role in self.an.roles.items():
            if role == "other":
                continue
            x = v
            for k in i:
                x = x[3][k] if x is not None and x[0] == "adt" and k < len(x[3]) else None
            while x is not None and is_adt(x, "m::Atomic"):
                x = x[3][0]
            if x is None or x[0] != "i" or want is None:
                self.req(eng, st, "counters-start-at-length", None, "")
                continue
            what = "the number of handed-out positions" if role == "res" else "the published length"
            self.req(eng, st, "counters-start-at-length", eq(x[1], want) if role == "res" else (eq(x[1], want)),
                     lambda: f"{what} starts at {x[1]} for a storage of {want} elements")


# ------------------------------------------------------------------ C18
class Walk(Rule):
    defaults = {"n": I(0), "y": I(0), "last": UNDEF, "lastf": B(False), "pend": B(False), "acq": I(0)}

    def start(self, eng, st):
        w = self.windows[0]
        self.w = w
        self.V, self.base, self.total = w[1], w[2], w[3]
        self.kind = self.root.name
        if self.kind == "fold":
            st.sg("last", self.args[1])

    # ---- helpers
    def visit(self, eng, st, i, site, name="n"):
        n = self.gi(eng, st, name)
        if n is not None:
            self.req(eng, st, "every-element-once-in-order", eq(i, self.base + n),
                     lambda: f"step number {n} processes position {i} instead of {self.base + n}", site)
        self.inc(eng, st, name)

    def complete(self, eng, st, name="n"):
        n = self.gi(eng, st, name)
        if n is None:
            return
        if self.w[0] == "slice":
            self.req(eng, st, "all-elements-processed", eq(n, self.total), lambda: f"only {n} of the slice's {self.total} elements are processed")
        else:
            self.req(eng, st, "all-elements-processed", le(self.total, n), lambda: f"only {n} elements are processed although more were published at the start of the call")

    def cell_idx(self, args):
        for a in args:
            s = slot_of(a) if a[0] == "ref" and a[1][0] == "cell" else None
            if s is not None and s[0] == self.V:
                return s[1]
        return None

    def deep_cell_idx(self, eng, st, args, depth=0):
        for a in args:
            if a[0] == "ref" and a[1][0] == "cell":
                s = slot_of(a)
                if s is not None and s[0] == self.V:
                    return s[1]
            if a[0] == "ref" and a[1][0] in ("L", "T") and depth < 5:
                r = self.deep_cell_idx(eng, st, [eng.read(st, (a[1], a[2]))], depth + 1)
                if r is not None:
                    return r
            if a[0] == "adt" and depth < 5:
                r = self.deep_cell_idx(eng, st, [x for x in a[3] if isinstance(x, tuple) and x and x[0] in ("ref", "adt")], depth + 1)
                if r is not None:
                    return r
        return None

    def filtered(self, eng, st, site=None):
        """the previous element was yielded, or its predicate was false"""
        f = eng.g(st, "pend")
        if f[0] != "b":
            return
        self.req(eng, st, "matching-elements-yielded", fnot(f[1]), "an element for which the predicate holds is skipped", site)

    # ---- events
    def on_user(self, eng, st, what, args, r, site):
        k = self.kind
        if what[0] == "call" and k in ("map", "filter", "fold", "reduce"):
            if k == "filter":
                self.filtered(eng, st, site)
            i = self.cell_idx(args)
            if i is None:
                self.bad(eng, st, "every-element-once-in-order", "the caller's function is called without an element of the collection", site)
                return
            self.visit(eng, st, i, site)
            if k in ("fold", "reduce"):
                a = args[0]
                if k == "reduce" and a[0] == "ref":
                    a = eng.read(st, (a[1], a[2]))
                self.req(eng, st, "accumulator-passed-on", self.soft(a, eng.g(st, "last")), "the function is not given the result accumulated so far", site)
                cell = args[1] if len(args) > 1 else None
                self.req(eng, st, "accumulator-passed-on", cell is not None and cell[0] == "ref" and cell[1][0] == "cell", "accumulator and element are passed in the wrong order", site)
            st.sg("last", r)
            if k == "filter":
                st.sg("lastf", r if r[0] == "b" else B(("sym", r[1] if r[0] == "sym" else ("u?",))))
                st.sg("pend", eng.g(st, "lastf"))
        elif what[0] == "clone" and k == "reduce":
            i = self.cell_idx(args)
            if i is not None:
                self.visit(eng, st, i, site)
                st.sg("last", r)
        elif what[0] == "eq" and k in ("index_of", "contains"):
            i = self.cell_idx(args)
            f = eng.g(st, "lastf")
            if f[0] == "b":
                self.req(eng, st, "stops-at-first-match", fnot(f[1]), "the search goes on after a match", site)
            if i is not None:
                self.visit(eng, st, i, site)
                other = [a for a in args if not (a[0] == "ref" and a[1][0] == "cell")]
                good = any(self.is_arg(eng, st, a) for a in other)
                self.req(eng, st, "compares-with-given-value", True if good else (False if len(other) == 0 else None), "the element is not compared with the given value", site)
            st.sg("lastf", r)
        elif what[0] == "fmt" and k == "fmt":
            i = self.deep_cell_idx(eng, st, args)
            if i is not None:
                self.visit(eng, st, i, site)

    def is_arg(self, eng, st, a):
        for x in self.args[1:]:
            if a == x or (a[0] == "ref" and x[0] == "ref" and (a[1], a[2]) == (x[1], x[2])):
                return True
            if a[0] == "ref" and a[1][0] in ("L", "T") and eng.read(st, (a[1], a[2])) == x:
                return True
        return False

    def soft(self, a, b):
        if same(a, b):
            return True
        from .analysis import mentions
        if mentions(a, {"?"}) or mentions(b, {"?"}) or b[0] == "undef":
            return None if b[0] != "undef" else False
        return False

    def on_acquire(self, eng, st, pl, held, site):
        s = slot_root(pl[0])
        if s is None or s[0] != self.V:
            return
        if self.kind in ("fill", "fill_with"):
            self.visit(eng, st, s[1], site)

    def on_ev_yield(self, eng, st, v, site):
        k = self.kind
        y = self.gi(eng, st, "y")
        if k == "iter":
            s = slot_of(v)
            if s is None:
                self.req(eng, st, "every-element-once-in-order", None, "")
                return
            self.visit(eng, st, s[1], None, "y")
        elif k == "iter_cloned":
            s = val_slot(v)
            if s is None:
                self.req(eng, st, "every-element-once-in-order", None, "")
                return
            self.visit(eng, st, s[1], None, "y")
        elif k == "map":
            n = self.gi(eng, st, "n")
            if n is not None and y is not None:
                self.req(eng, st, "yields-function-results", fand(eq(n, y + 1)), "the function is not called exactly once per yielded item")
            self.req(eng, st, "yields-function-results", self.soft(v, eng.g(st, "last")), "a yielded item is not the result of the function for its element")
            self.inc(eng, st, "y")
        elif k == "filter":
            s = slot_of(v)
            n = self.gi(eng, st, "n")
            f = eng.g(st, "lastf")
            if s is not None and n is not None:
                self.req(eng, st, "yields-tested-element", eq(s[1], self.base + n - 1), "a yielded element is not the one just tested")
            if f[0] == "b":
                self.req(eng, st, "yields-only-matching", f[1], "an element is yielded although the predicate is false for it")
            st.sg("pend", B(False))
        elif k == "fmt":
            s = slot_of(v)
            if s is not None and s[0] == self.V:
                self.visit(eng, st, s[1], site)

    def on_vecinsert(self, eng, st, vid, at_end, at, val, site):
        s, n = val_slot(val), self.gi(eng, st, "n")
        if self.kind == "clone_to_vec":
            f = eq(at, at_end) if s is not None and n is not None and st.facts.proves_eq(s[1] - self.base - n) else None
            self.req(eng, st, "every-element-once-in-order", f, "a value is put in front of values of earlier positions", site)

    def on_vecpush(self, eng, st, vid, idx, val, site):
        if self.kind not in ("clone_to_vec",):
            return
        self.pushed_to(st, vid)
        s = val_slot(val)
        if s is None:
            self.req(eng, st, "every-element-once-in-order", None, "")
            self.inc(eng, st, "n")
            return
        self.req(eng, st, "copied-not-moved", s[2] or None, "", site)
        self.visit(eng, st, s[1], site)

    def on_stored(self, eng, st, root, val, site):
        s = slot_root(root)
        if self.kind == "clone" and s is not None and is_core(s[0]):
            v = val_slot(val)
            n = self.gi(eng, st, "n")
            if v is None:
                # a value of an earlier step kept aside
                self.req(eng, st, "every-element-once-in-order", None, "")
                self.inc(eng, st, "n")
                return
            if n is not None:
                self.req(eng, st, "same-position-in-clone", eq(s[1], n), lambda: f"value number {n} is stored at position {s[1]} of the clone", site)
            self.visit(eng, st, v[1], site)

    def finish(self, eng, st, v):
        k = self.kind
        if k in ("iter", "iter_cloned"):
            self.complete(eng, st, "y")
        elif k in ("fill", "fill_with"):
            self.complete(eng, st)
        elif k == "clone":
            self.complete(eng, st)
        elif k == "map":
            self.complete(eng, st, "y")
        elif k == "filter":
            self.filtered(eng, st)
            self.complete(eng, st)
        elif k == "fold":
            self.complete(eng, st)
            self.req(eng, st, "returns-accumulated-result", self.soft(v, eng.g(st, "last")), "the call does not return the accumulated result")
        elif k == "reduce":
            if is_adt(v, OPT) and v[2] == 1:
                self.complete(eng, st)
                self.req(eng, st, "returns-accumulated-result", self.soft(v[3][0], eng.g(st, "last")), "the call does not return the accumulated result")
            elif is_adt(v, OPT):
                self.complete(eng, st)
        elif k in ("index_of", "contains"):
            self.found_result(eng, st, v)
        elif k == "fmt":
            if is_adt(v, RES) and v[2] == 0:
                self.complete(eng, st)
        elif k == "clone_to_vec":
            self.complete(eng, st)
            self.holds_values(eng, st, v, self.gi(eng, st, "n"))

    def found_result(self, eng, st, v):
        n, f = self.gi(eng, st, "n"), eng.g(st, "lastf")
        if n is None or f[0] != "b":
            return
        if self.kind == "index_of" and is_adt(v, OPT):
            if v[2] == 1 and v[3][0][0] == "i":
                self.req(eng, st, "first-match-returned", fand(f[1], eq(v[3][0][1] + 1, n)),
                         lambda: f"the search returns {v[3][0][1]} after comparing {n} elements")
            elif v[2] == 0:
                self.req(eng, st, "none-only-without-match", fnot(f[1]), "the search returns None after a match")
                self.complete(eng, st)
        elif self.kind == "contains" and v[0] == "b":
            for s in eng.assume(st.copy(), v[1], True):
                self.req(eng, s, "contains-means-match", f[1], "contains is true without a matching element")
            for s in eng.assume(st.copy(), v[1], False):
                self.req(eng, s, "contains-means-match", fnot(f[1]), "contains is false after a match")
                self.complete(eng, s)


# ------------------------------------------------------------------ C19
class Equal(Rule):
    defaults = {"n": I(0), "lastf": B(True)}

    def start(self, eng, st):
        self.ws = []
        for i in range(2):
            w = self.windows[i] if i < len(self.windows) else None
            self.ws.append(w)
        self.lens = [w[3] if w is not None else None for w in self.ws]
        if self.lens[1] is None:
            a = self.args[1]
            if a[0] == "ref":
                self.lens[1] = eng.slice_len(st, (a[1], a[2]))

    def operand(self, eng, st, a):
        """(side, index) of a compared reference"""
        if a[0] != "ref":
            return None
        s = slot_of(a)
        if s is not None:
            c = [(k, s[1] - w[2]) for k, w in enumerate(self.ws) if w is not None and w[1] == s[0]]
            return c or None
        r, p = a[1], a[2]
        # element of a plain array or slice
        if self.args[1][0] == "ref" and r == self.args[1][1] and len(p) == len(self.args[1][2]) + 1 and isinstance(p[-1], tuple) and p[-1][0] == "ix":
            return [(1, p[-1][1])]
        if r[0] == "elem":
            return [(1, r[2])]
        return None

    def alias(self, st, a, b):
        """operands replaced by an element known to be the same one"""
        out = []
        for k, v in st.syms.items():
            if v is True and isinstance(k, tuple) and k[0] == "alias":
                for x, y in ((k[1], k[3]), (k[3], k[1])):
                    if a[0] == "ref" and a[1][0] == "cell" and a[1][1] == x:
                        out.append(("ref", ("cell", y, a[1][2]), a[2]))
        return out

    def on_user(self, eng, st, what, args, r, site):
        if what[0] != "eq":
            return
        n, f = self.gi(eng, st, "n"), eng.g(st, "lastf")
        if f[0] == "b":
            self.req(eng, st, "mismatch-ends-comparison", f[1], "the comparison goes on after a differing pair and its result is forgotten", site)
        pairs = []
        A = [args[0]] + self.alias(st, args[0], args[1])
        Bs = [args[1]] + self.alias(st, args[1], args[0])
        for x in A:
            for y in Bs:
                ox, oy = self.operand(eng, st, x), self.operand(eng, st, y)
                for i in ox or ():
                    for j in oy or ():
                        if {i[0], j[0]} == {0, 1}:
                            pairs.append((i[1] if i[0] == 0 else j[1], j[1] if j[0] == 1 else i[1]))
        if n is not None:
            if not pairs:
                self.req(eng, st, "pairs-of-same-position", None if st.lossy else False, "two values are compared that are not elements of the two operands", site)
            else:
                f2 = False
                for i, j in pairs:
                    f2 = for_(f2, fand(eq(i, n), eq(j, n)))
                self.req(eng, st, "pairs-of-same-position", f2, lambda: f"comparison number {n} is between positions {pairs[0][0]} and {pairs[0][1]}", site)
        self.inc(eng, st, "n")
        st.sg("lastf", r)

    def finish(self, eng, st, v):
        n, f = self.gi(eng, st, "n"), eng.g(st, "lastf")
        if v[0] != "b" or n is None or f[0] != "b":
            return
        if self.root.name == "ne":
            v = B(fnot(v[1]))
        a, b = self.lens
        for s in eng.assume(st.copy(), v[1], True):
            self.req(eng, s, "true-means-equal", f[1], "true is returned although a pair differs")
            self.req(eng, s, "true-means-all-compared", for_(fand(eq(n, a), eq(a, b))), lambda: f"true is returned after comparing {n} pairs, without both sides having {n} elements")
        for s in eng.assume(st.copy(), v[1], False):
            self.req(eng, s, "false-means-different", for_(fnot(f[1]), flit("ne", a - b)), "false is returned although no pair differs and the lengths may be equal")


class EqualElem(Rule):
    """comparison of two elements, or of an element and a value"""
    defaults = {"n": I(0), "lastf": B(True)}

    def on_user(self, eng, st, what, args, r, site):
        if what[0] == "eq":
            self.inc(eng, st, "n")
            st.sg("lastf", r)
            cells = [a for a in args if a[0] == "ref" and a[1][0] == "cell"]
            al = any(v is True and isinstance(k, tuple) and k[0] == "alias" for k, v in st.syms.items())
            both = "PartialEq<T>" not in self.root.tref
            okk = len({c[1] for c in cells}) == (2 if both else 1) or al and len(cells) >= 1
            self.req(eng, st, "compares-both-operands", True if okk else (None if st.lossy else False), "the two operands' values are not what is compared", site)

    def finish(self, eng, st, v):
        n, f = self.gi(eng, st, "n"), eng.g(st, "lastf")
        if v[0] != "b" or n is None or f[0] != "b":
            return
        if self.root.name == "ne":
            v = B(fnot(v[1]))
        self.req(eng, st, "values-compared", eq(n, const(1)), lambda: f"the values are compared {n} times")
        for s in eng.assume(st.copy(), v[1], True):
            self.req(eng, s, "result-of-comparison", f[1], "true is returned although the values differ")
        for s in eng.assume(st.copy(), v[1], False):
            self.req(eng, s, "result-of-comparison", fnot(f[1]), "false is returned although the values are equal")


# ------------------------------------------------------------------ C20
class Direct(Rule):
    """direct accessors, with every claimed and allocated position written"""
    defaults = {"y": I(0)}
    find = True

    def start(self, eng, st):
        w = self.windows[0]
        self.w = w
        self.V = w[1]
        self.ix = self.args[1][1] if len(self.args) > 1 and self.args[1][0] == "i" else None

    def cell_known(self, eng, st, x, what):
        r = x[1]
        s = slot_root(r)
        if s is not None and r[0] == "slot":
            self.req(eng, st, "hands-out-confirmed-element", False, f"{what} the memory of an element by its address, without asking whether a value is there")
            return None
        if s is None or r[0] != "cell":
            self.req(eng, st, "hands-out-confirmed-element", None, "")
            return None
        pl = (r[1], r[2])
        okk = eng.contracts.present_known(eng, st, pl)
        self.req(eng, st, "hands-out-confirmed-element", True if okk else False,
                 f"{what} the value of a position that was never confirmed to be written")
        return s

    def on_unguarded(self, eng, st, pl, what, site):
        if not self.shared_pl(pl):
            return
        if eng.contracts.present_known(eng, st, pl):
            self.ok(eng, "hands-out-confirmed-element")
            return
        self.bad(eng, st, "hands-out-confirmed-element", f"{what}: an element is read without confirming that it is present", site)

    def on_touch(self, eng, st, root, how, site):
        if self.shared_cell(root) and not eng.contracts.present_known(eng, st, (root[1], root[2])):
            self.bad(eng, st, "hands-out-confirmed-element", "an element is read without confirming that it is present", site)

    def item(self, eng, st, x):
        """the reference or pointer inside a result"""
        return x if x[0] == "ref" else None

    def returned(self, eng, st, v):
        if self.ix is None or not is_adt(v, OPT):
            return
        w = self.w
        if v[2] == 1:
            x = self.item(eng, st, v[3][0])
            if x is None:
                self.req(eng, st, "hands-out-confirmed-element", None, "")
                return
            s = self.cell_known(eng, st, x, "the call hands out")
            if s is not None:
                self.req(eng, st, "requested-position", eq(s[1], w[2] + self.ix), lambda: f"asked for {self.ix}, the call hands out position {s[1]}")
                if w[0] == "slice":
                    self.req(eng, st, "inside-range", lt(self.ix, w[3]), "a position outside the slice is handed out")
        elif self.find:
            V, i = self.V, self.ix
            if w[0] == "vec":
                f = for_(le(atom(("res0", V)), i), le(atom(("cap0", V)), i))
            else:
                f = le(w[3], i)
            self.req(eng, st, "finds-written-element", f, "None is returned for a position that is completely written")

    def on_ev_yield(self, eng, st, v, site):
        x = self.item(eng, st, v)
        if x is None:
            return
        s = self.cell_known(eng, st, x, "the iterator yields")
        y = self.gi(eng, st, "y")
        if s is None or y is None:
            return
        if self.find:
            self.req(eng, st, "finds-written-element", eq(s[1], self.w[2] + y), lambda: f"item number {y} is position {s[1]}: a written position is left out or repeated")
        self.inc(eng, st, "y")

    def finish(self, eng, st, v):
        if self.ix is not None or not self.find:
            return
        y = self.gi(eng, st, "y")
        if y is None:
            return
        V = self.V
        if self.w[0] == "vec":
            f = for_(le(atom(("res0", V)), y), le(atom(("cap0", V)), y))
        else:
            f = le(self.w[3], y)
        self.req(eng, st, "finds-written-element", f, lambda: f"the iterator ends after {y} elements although more are written")


# ------------------------------------------------------------------ C21
class Swap(Rule):
    defaults = {"map": ("adt", "map", 0, ()), "rel": I(0), "dirty": I(0)}

    def start(self, eng, st):
        self.w = self.windows[0]
        ints = [a[1] for a in self.args[1:] if a[0] == "i"]
        self.i, self.j = (ints + [None, None])[:2]

    def entries(self, eng, st):
        return list(eng.g(st, "map")[3])

    def current(self, eng, st, root):
        for r, v in [(e[3][0], e[3][1]) for e in self.entries(eng, st)]:
            if r[1] == root:
                return v
        return cell_value((root[1], root[2]))

    def write(self, eng, st, root, val, site):
        if not self.shared_cell(root):
            return
        es = [e for e in self.entries(eng, st) if e[3][0][1] != root]
        es.append(("adt", "e", 0, (("ref", root, ()), val)))
        st.sg("map", ("adt", "map", 0, tuple(es)))
        self.step(eng, st, site)

    def step(self, eng, st, site):
        rel = self.gi(eng, st, "rel")
        d = self.gi(eng, st, "dirty")
        if rel is not None and d is not None:
            self.req(eng, st, "exchanged-in-one-step", for_(eq(d, const(0)), eq(rel, const(0))),
                     "an element is released between the two halves of the exchange: observers see a value twice or not at all", site)
        hs = eng.contracts.held(eng, st)
        w = self.w
        for x in (self.i, self.j):
            f = False
            for h in hs:
                if h[1][0] == "slot" and h[1][1] == w[1]:
                    f = for_(f, eq(h[1][2], w[2] + x))
            self.req(eng, st, "exchanged-in-one-step", f, "a value is changed while not both elements are held", site)
        if d is not None:
            st.sg("dirty", I(1))
            st.sg("rel", I(0))

    def on_stored(self, eng, st, root, val, site):
        self.write(eng, st, root, val, site)

    def on_cellwrite(self, eng, st, root, val):
        self.write(eng, st, root, val, None)

    def on_release(self, eng, st, pl, site):
        st.sg("rel", I(1))

    def finish(self, eng, st, v):
        if v[0] != "b" or self.i is None:
            return
        w = self.w
        V, base = w[1], w[2]
        for s in eng.assume(st.copy(), v[1], True):
            es = [(e[3][0][1], e[3][1]) for e in self.entries(eng, s)]
            lim = self.PL(eng, s, V) if w[0] == "vec" else w[3]
            self.req(eng, s, "true-means-in-range", fand(lt(self.i, lim), lt(self.j, lim)), "true is returned although a position may be out of range")
            if not es:
                self.req(eng, s, "true-means-exchanged", eq(self.i, self.j), "true is returned without exchanging the values")
                continue
            f = False
            if len(es) == 2:
                f = self.exchanged(es[0], es[1], V, base)
            elif len(es) == 1:
                sl = val_slot(es[0][1])
                f = eq(self.i, self.j) if sl is not None and not sl[2] and s.facts.proves_eq(sl[1] - slot_root(es[0][0])[1]) else False
            self.req(eng, s, "true-means-exchanged", for_(f, fand(eq(self.i, self.j), f)), "true is returned but the two values were not exchanged with each other")
        for s in eng.assume(st.copy(), v[1], False):
            es = self.entries(eng, s)
            self.req(eng, s, "false-means-unchanged", len(es) == 0, "false is returned although a value was changed")
            if w[0] == "vec":
                f = for_(le(self.PL0(V), self.i), le(self.PL0(V), self.j))
            else:
                f = for_(le(w[3], self.i), le(w[3], self.j))
            self.req(eng, s, "false-means-out-of-range", f, "false is returned although both positions are in range")

    def exchanged(self, e1, e2, V, base):
        f = False
        s1, s2 = slot_root(e1[0]), slot_root(e2[0])
        v1, v2 = val_slot(e1[1]), val_slot(e2[1])
        if None in (s1, s2, v1, v2) or v1[2] or v2[2]:
            return False
        i, j = base + self.i, base + self.j
        a = fand(eq(s1[1], i), eq(s2[1], j), eq(v1[1], j), eq(v2[1], i))
        b = fand(eq(s1[1], j), eq(s2[1], i), eq(v1[1], i), eq(v2[1], j))
        return for_(a, b)


# ------------------------------------------------------------------ C16
class Exclusive(Rule):
    """functions callable while the vector is shared do not reset, reserve or take out its storage"""

    def hit(self, eng, st, V, what, site):
        if not is_core(V):
            self.bad(eng, st, "consumed-with-exclusive-access", f"{what} by a function that can be called while the vector is shared", site, True)

    def on_clear(self, eng, st, V, n, site):
        self.hit(eng, st, V, "the vector is reset", site)

    def on_into_inner(self, eng, st, V, n, site):
        self.hit(eng, st, V, "the storage is taken out", site)

    def on_reserve(self, eng, st, V, n, new, m, site):
        self.hit(eng, st, V, "the storage is reserved anew", site)

    def finish(self, eng, st, v):
        self.ok(eng, "consumed-with-exclusive-access")


# ------------------------------------------------------------------ C22
class Pinned(Rule):
    def hit(self, eng, st, V, what, site):
        if not is_core(V):
            self.bad(eng, st, "storage-not-moved", f"{what} through a shared reference: elements move while others may refer to them", site, True)

    def on_clear(self, eng, st, V, n, site):
        self.hit(eng, st, V, "the storage is cleared", site)

    def on_into_inner(self, eng, st, V, n, site):
        self.hit(eng, st, V, "the storage is taken out", site)

    def on_reserve(self, eng, st, V, n, new, m, site):
        self.hit(eng, st, V, "the storage is reserved anew", site)

    def on_slotwrite(self, eng, st, root, proj, val=None):
        self.hit(eng, st, root[1], "an element's cell is overwritten", None)

    def on_wholecell(self, eng, st, root, what):
        """the whole cell behind an element argument"""
        self.bad(eng, st, "storage-not-moved", f"{what} through a shared reference: it moves while others may refer to it", None, True)

    def on_exchange(self, eng, st, pa, pb, site):
        for p in (pa, pb):
            if p[0][0] == "slot":
                self.hit(eng, st, p[0][1], "whole element cells are exchanged", site)
            elif p[0][0] == "cell":
                self.ok(eng, "only-values-exchanged")

    def on_unknown_call(self, eng, st, path, args, site):
        if any(w in path for w in ("read", "write", "copy", "swap", "replace", "transmute", "drop", "move")) and \
                (path.startswith(("core::ptr", "core::intrinsics", "core::mem")) or "copy_nonoverlapping" in path):
            for a in args:
                if a[0] == "ref" and a[1][0] in ("slot",):
                    self.hit(eng, st, a[1][1], f"{path} on an element's cell", site)

    def on_get(self, eng, st, V, i, site):
        self.ok(eng, "storage-only-looked-up")

    def on_claim_slots(self, eng, st, V, b, n, site):
        self.ok(eng, "storage-only-extended")

    def on_iter(self, eng, st, V, a, b, site):
        self.ok(eng, "storage-only-looked-up")

    def on_raw_write(self, eng, st, V, i, val, site):
        self.ok(eng, "storage-only-extended")


# ------------------------------------------------------------------ C24
class Chunks(Rule):
    defaults = {"cov": I(0), "lastlen": I(0), "k": I(0)}

    def start(self, eng, st):
        self.w = self.windows[0]
        ints = [a[1] for a in self.args[1:] if a[0] == "i"]
        self.n = ints[0] if ints else None
        if self.n is not None:
            st.sg("lastlen", I(self.n))

    def on_ev_yield(self, eng, st, v, site):
        p = self.an.slice_parts(eng, st, v) if v[0] == "adt" else None
        cov, last = self.gi(eng, st, "cov"), self.gi(eng, st, "lastlen")
        if p is None or cov is None or last is None or self.n is None:
            self.req(eng, st, "chunks-contiguous", None, "")
            return
        V, a, m = p
        y = self.gi(eng, st, "k")
        s, L = self.w[2], self.w[3]
        ny = eng.mul(st, self.n, y) if y is not None else None
        # either counted (chunk y begins at y * n) or accumulated
        f = eq(a, s + cov)
        last_ok = eq(last, self.n)
        if ny is not None:
            end = eq(a + m, s + L) if self.w[0] == "slice" else le(L, a + m - s)
            f = for_(f, eq(a, s + ny))
            last_ok = for_(last_ok, fand(eq(a, s + ny), for_(eq(m, self.n), end)))
        self.req(eng, st, "chunks-contiguous", f, lambda: f"a chunk begins at {a} although positions up to {s + cov} were covered")
        self.req(eng, st, "only-last-chunk-shorter", last_ok, "a chunk that is not the last one has a different size")
        self.req(eng, st, "chunk-size", fand(le(const(1), m), le(m, self.n)), lambda: f"a chunk has {m} positions for chunk size {self.n}")
        st.sg("cov", I(cov + m))
        st.sg("lastlen", I(m))
        self.inc(eng, st, "k")

    def finish(self, eng, st, v):
        cov, y = self.gi(eng, st, "cov"), self.gi(eng, st, "k")
        if self.n is None or cov is None or y is None:
            return
        self.req(eng, st, "chunk-size-not-zero", lt(const(0), self.n), "chunks(0) returns instead of panicking")
        w = self.w
        f = eq(cov, w[3]) if w[0] == "slice" else le(w[3], cov)
        f = for_(f, le(w[3], eng.mul(st, self.n, y)))
        self.req(eng, st, "chunks-cover-everything", f, lambda: f"the chunks cover {cov} positions of {w[3]}")


class DirectShared(Direct):
    """direct accessors while others are writing: the safety half, and that a gap does not end the iteration"""
    find = False
    defaults = {"y": I(0), "o": I(0)}

    def on_lookat(self, eng, st, pl):
        s = slot_root(pl[0])
        o = self.gi(eng, st, "o")
        if self.ix is not None or o is None or self.w is None or s is None or s[0] != self.V:
            return
        k = s[1] - self.w[2]
        if eng.truth(st, eq(k, o)) is True:
            self.inc(eng, st, "o")
        elif eng.truth(st, lt(k, o)) is not True:
            self.req(eng, st, "goes-on-past-gaps", le(k, o), lambda: f"after {o} positions the iteration looks at position {k}: those between are left out")
            st.sg("o", I(k + 1))

    def finish(self, eng, st, v):
        o = self.gi(eng, st, "o")
        if self.ix is not None or self.w is None:
            return
        V = self.V
        if o is None:
            self.req(eng, st, "goes-on-past-gaps", None, "")
            return
        if self.w[0] == "vec":
            f = for_(le(atom(("res0", V)), o), le(atom(("cap0", V)), o))
        else:
            f = le(self.w[3], o)
        self.req(eng, st, "goes-on-past-gaps", f, lambda: f"the iteration ends after looking at {o} positions although elements behind them may be written")


# ------------------------------------------------------------------ C28
class Fails(Rule):
    """the call panics only for a documented reason"""
    defaults = {"cb": I(0), "cn": I(0), "cV": I(0)}
    PLAIN = {"index": "the index is out of range", "split_at": "the position is out of range", "chunks": "the chunk size is zero",
             "slice": "the range is invalid"}

    def start(self, eng, st):
        ws = [w for w in self.windows or () if w]
        self.w = ws[0] if ws else None
        self.Vs = {w[1] for w in ws}

    def on_newcore(self, eng, st, V, pinned, site):
        self.Vs.add(V)

    def on_rmw(self, eng, st, V, role, old, new, op, order, site, operand):
        self.Vs.add(V)
        if role == "res":
            st.sg("cb", I(old))
            st.sg("cn", I(new - old))

    def sizes(self, st):
        """numbers of values that the call must store"""
        out = [a[1] for a in self.args if a[0] == "i"]
        seen = set()
        for l in tuple(st.facts.le) + tuple(st.facts.ne):
            for a in l.atoms():
                # what a copy must hold is the length of the original
                if a not in seen and isinstance(a, tuple) and a and (a[0] in ("ulen", "lo", "hi") or self.root.name == "clone" and a[0] != "maxcap"):
                    seen.add(a)
                    out.append(atom(a))
        return out

    def reasons(self, eng, st):
        n = self.root.name
        ix = self.args[1][1] if len(self.args) > 1 and self.args[1][0] == "i" else None
        w = self.w
        if n == "index" and ix is not None and w is not None:
            yield le(w[3], ix)
        if n == "split_at" and ix is not None and w is not None:
            yield le(w[3] + 1, ix)
        if n == "chunks" and ix is not None:
            yield eq(ix, const(0))
        if n == "slice" and w is not None:
            for t in {k[1] for k in st.syms if isinstance(k, tuple) and k[0] == "bound"}:
                lo, hi = Window.bound(self, st, "start_bound", t, const(0), None), Window.bound(self, st, "end_bound", t, None, None)
                if lo is not None:
                    yield le(w[3] + 1, lo)
                if hi is not None:
                    yield le(w[3] + 1, hi)
                if lo is not None and hi is not None:
                    yield le(hi + 1, lo)
        if n not in GROWERS and n not in ("from_iter", "clone"):
            return
        sz = self.sizes(st)
        cb, cn = self.gi(eng, st, "cb"), self.gi(eng, st, "cn")
        for V in self.Vs:
            m = atom(("maxcap", V))
            for x in sz:
                yield le(m + 1, x)
            if cb is not None and cn is not None:
                yield le(m + 1, cb + cn)
        if any(isinstance(k, tuple) and k and k[0] == "done" for k in st.syms):
            yield True
        us = [x for x in sz if any(isinstance(a, tuple) and a[0] == "ulen" for a in x.atoms())]
        for i, x in enumerate(us):
            for y in sz:
                if y is not x and y not in us[:i + 1]:
                    yield for_(lt(x, y), lt(y, x))

    def on_panic(self, eng, st, site):
        if eng.quiet:
            return
        for f in self.reasons(eng, st):
            if f is True or eng.truth(st, f) is True:
                self.ok(eng, "panic-has-documented-reason")
                return
        why = self.PLAIN.get(self.root.name)
        self.bad(eng, st, "panic-has-documented-reason", "the call can panic " + (f"for another reason than that {why}" if why else "although nothing it is given is invalid"), site)

    def finish(self, eng, st, v):
        self.ok(eng, "returns-normally")


# ------------------------------------------------------------------ C30
class Limits(Rule):
    """constructors use the storage they were asked for; capacities are those of the storage"""
    KNOWN = ("maxcap", "cap", "cap0", "PL", "PL0", "res", "res0", "pub", "pub0", "limit")
    DOUBLING = ("new", "default", "with_doubling_growth", "from_iter", "clone")
    defaults = {"cap": UNDEF, "limit": UNDEF, "reserved": I(0)}

    def start(self, eng, st):
        self.want = {}
        self.built = {}

    # ---- constructors
    def on_newpinned(self, eng, st, v, path, args, site):
        n = self.root.name
        ints = [a[1] if a[0] == "i" else None for a in args]
        how = path.rsplit("::", 1)[-1]
        rule = "storage-as-requested"
        mine = [a[1] if a[0] == "i" else None for a in self.args or ()]
        if n in self.DOUBLING:
            if how == "with_doubling_growth_and_fragments_capacity":
                self.req(eng, st, rule, le(const(32), ints[0]) if ints[0] is not None else None,
                         lambda: f"the storage has room for {ints[0]} fragments instead of 32: growth ends early", site)
            elif how == "with_doubling_growth_and_max_concurrent_capacity":
                self.ok(eng, rule)
            elif how in ("with_doubling_growth", "new") and not ints:
                self.bad(eng, st, rule, "the storage has room for a few fragments only: growth ends early", site)
            else:
                self.req(eng, st, rule, None, "")
        elif n == "with_linear_growth":
            if how == "with_linear_growth_and_fragments_capacity" and None not in ints and None not in mine and len(ints) == len(mine) == 2:
                self.req(eng, st, rule, eq(ints[0], mine[0]), lambda: f"fragments of 2^({ints[0]}) elements instead of 2^({mine[0]})", site)
                self.req(eng, st, rule, eq(ints[1], mine[1]), lambda: f"room for {ints[1]} fragments instead of {mine[1]}", site)
            elif how == "with_linear_growth":
                self.bad(eng, st, rule, "the requested number of fragments is ignored", site)
            else:
                self.req(eng, st, rule, None, "")
        elif n == "with_fixed_capacity":
            if "FixedVec" in path and how == "new" and ints and ints[0] is not None and mine and mine[0] is not None:
                self.req(eng, st, rule, eq(ints[0], mine[0]), lambda: f"the storage holds {ints[0]} elements instead of {mine[0]}", site)
            else:
                self.req(eng, st, rule, None, "")
        else:
            return
        self.want[v[1]] = True

    def on_newcore(self, eng, st, V, pinned, site):
        self.built[V] = pinned

    # ---- capacities
    def on_capacity(self, eng, st, V, c, site):
        st.sg("cap", I(c))

    def on_limit(self, eng, st, V, m, site):
        st.sg("limit", I(m))

    def on_reserve(self, eng, st, V, n, new, m, site):
        asked = self.args[1][1] if len(self.args) > 1 and self.args[1][0] == "i" else None
        self.req(eng, st, "reserves-what-was-asked", le(asked, new) if asked is not None else None,
                 lambda: f"{new} positions are reserved instead of {asked}", site)
        st.sg("reserved", I(1))
        st.sg("limit", I(m))

    def known(self, x):
        return all(isinstance(a, tuple) and a and a[0] in self.KNOWN for a in x.atoms())

    def finish(self, eng, st, v):
        n = self.root.name
        if n in ("capacity", "maximum_capacity"):
            which, rule = ("cap", "returns-allocated-capacity") if n == "capacity" else ("limit", "returns-reachable-capacity")
            x = v[1] if v[0] == "i" else None
            want = self.gi(eng, st, which)
            if x is None or want is None and not self.known(x):
                self.req(eng, st, rule, None, "")
            else:
                self.req(eng, st, rule, eq(x, want) if want is not None else False,
                         lambda: f"{n} returns {x}, which is not the capacity of the storage" + (f" ({want})" if want is not None else ""))
        elif n == "reserve_maximum_capacity":
            x = v[1] if v[0] == "i" else None
            asked = self.args[1][1] if len(self.args) > 1 and self.args[1][0] == "i" else None
            V = self.windows[0][1] if self.windows and self.windows[0] else None
            lim = st.mem.get(("G", ("limit", V))) if V is not None else None
            lim = lim[1] if lim is not None else atom(("maxcap", V)) if V is not None else None
            r = self.gi(eng, st, "reserved")
            if lim is None or asked is None or r is None:
                self.req(eng, st, "reserves-what-was-asked", None, "")
            elif r == const(0):
                self.req(eng, st, "reserves-what-was-asked", le(asked, lim), "nothing is reserved although the vector cannot grow to the requested capacity")
            if x is None or lim is None:
                self.req(eng, st, "returns-new-limit", None, "")
            else:
                self.req(eng, st, "returns-new-limit", eq(x, lim), lambda: f"{x} is returned, which is not the capacity that the vector can reach now")
        elif n in self.DOUBLING + ("with_linear_growth", "with_fixed_capacity"):
            V = eng.contracts.vec_core(eng, st, eng.contracts.mk_ref(eng, st, v)) if v[0] in ("adt", "sym") else None
            p = self.built.get(V)
            if p is None or p[0] != "sym" or not (isinstance(p[1], tuple) and p[1][0] in ("newpinned", "pinned")):
                self.req(eng, st, "returns-vector-on-that-storage", None, "")
            else:
                self.req(eng, st, "returns-vector-on-that-storage", p[1] in self.want, "the returned vector is built on another storage than the requested one")


class CloneFrom(Walk):
    """clone_from that replaces the whole vector by a new one: the new one holds every element of the source"""

    def start(self, eng, st):
        self.windows = self.windows[1:] + self.windows[:1]
        super().start(eng, st)
        self.kind = "clone"

    def finish(self, eng, st, v):
        V = eng.contracts.vec_core(eng, st, self.args[0])
        if is_core(V):
            self.complete(eng, st)


# ------------------------------------------------------------------ C31
class Lookup(Rule):
    """access by index to a position that is below the length when the call begins"""

    def start(self, eng, st):
        w = self.windows[0] if self.windows else None
        self.w = w
        self.ix = self.args[1][1] if len(self.args) > 1 and self.args[1][0] == "i" else None
        if w is None or self.ix is None:
            return
        eng.contracts.init_bounds(eng, st, w[1])
        st.facts = st.facts.add_le(self.ix + 1 - (w[3] if w[0] == "slice" else self.PL0(w[1])))

    def on_panic(self, eng, st, site):
        if self.root.name == "index" and self.ix is not None:
            self.bad(eng, st, "finds-element-below-length", "indexing panics although the position is below the length", site)

    @staticmethod
    def slots_in(v, out):
        if isinstance(v, tuple):
            if v and v[0] == "slot" and len(v) == 3:
                out.append(v)
            else:
                for x in v:
                    Lookup.slots_in(x, out)
        return out

    def finish(self, eng, st, v):
        if self.ix is None:
            return
        for s in self.slots_in(v, []):
            self.req(eng, st, "returns-requested-element", fand(s[1] == self.w[1], eq(s[2], self.w[2] + self.ix)),
                     lambda: f"position {self.ix} is asked for, but the result comes from position {s[2]} of the vector (the range starts at {self.w[2]})")
        if is_adt(v, OPT):
            self.req(eng, st, "finds-element-below-length", v[2] == 1, "nothing is returned although the position is below the length")
        else:
            self.req(eng, st, "finds-element-below-length", True if v[0] == "ref" else None, "")


class ShowElement(Rule):
    """the debug output of an element"""
    defaults = {"shown": I(0)}

    def cell_in(self, eng, st, args, d=0):
        for a in args:
            if a[0] == "ref" and a[1][0] == "cell" and self.shared_cell(a[1]):
                return True
            if a[0] == "ref" and a[1][0] in ("L", "T") and d < 5 and self.cell_in(eng, st, [eng.read(st, (a[1], a[2]))], d + 1):
                return True
            if a[0] == "adt" and d < 5 and self.cell_in(eng, st, [x for x in a[3] if isinstance(x, tuple) and x and x[0] in ("ref", "adt")], d + 1):
                return True
        return False

    def on_user(self, eng, st, what, args, r, site):
        if what[0] == "fmt" and self.cell_in(eng, st, args):
            self.inc(eng, st, "shown")

    def finish(self, eng, st, v):
        k = self.gi(eng, st, "shown")
        if is_adt(v, RES) and v[2] == 0:
            self.req(eng, st, "shows-current-value", eq(k, const(1)) if k is not None else None, lambda: f"the value of the element is shown {k} times")
