"""Which rules are run over which entry points, per property."""
from .analysis import Analysis, owner_of
from .dump import Ty
from . import rules as R
from .lin import atom, const

WALKERS = ("iter", "iter_cloned", "map", "filter", "fold", "reduce", "fill", "fill_with", "index_of", "contains", "fmt",
           "clone_to_vec")
DIRECT = ("get_raw", "get_ref", "get_raw_mut", "get_mut", "iter_ref", "iter_mut")
OWN = ("clear", "into_inner", "to_vec", "into_iter", "reserve_maximum_capacity")


def shared(a, safe=None, owners=("vec", "slice", "elem")):
    out = []
    for r in a.exported():
        if r.owner in owners and r.mode == "shared" and (safe is None or r.unsafe == (not safe)):
            out.append(r)
    return out


def named(a, names, owners=("vec", "slice"), mode="shared"):
    return [r for r in a.exported() if r.name in names and r.owner in owners and (mode is None or r.mode == mode)]


def growers(a):
    return named(a, R.GROWERS, ("vec",))


def from_iter(a):
    return [r for r in a.exported() if r.name == "from_iter"]


def state_fns(a, names):
    return [r for r in a.roots if r.body is not None and r.name in names
            and (r.owner == "state" or r.raw["out"] is not None and "ConcurrentVecState" in r.path or "ConcurrentVecState" in r.tref)]


class Job:
    def __init__(self, root, cls, label="", only=None, **kw):
        self.root, self.cls, self.label, self.only, self.kw = root, cls, label, only, kw


def jobs(a, prop):
    J = []

    def add(roots, cls, label="", only=None, **kw):
        for r in roots:
            J.append(Job(r, cls, label, only, **kw))
    present = dict(present=lambda V: [atom(("W", V))])
    ln = named(a, ("len",), ("vec",))
    written = dict(present=lambda V: [atom(("res0", V)), atom(("cap0", V))])
    if prop == "C01":
        add(shared(a), R.Claims)
        add(from_iter(a), R.Claims)
        add(growers(a), R.Stores, only=("block-completely-written",))
    elif prop == "C02":
        add(growers(a), R.Stores)
        add(from_iter(a), R.Stores)
        add(growers(a), R.Claims, only=("returns-first-position", "store-inside-own-block", "one-claim-per-call", "claimed-block-used"))
    elif prop == "C03":
        add(state_fns(a, ("write_permit", "write_permit_n_items")), R.Permit)
        add(growers(a), R.Claims, only=("storage-of-own-block", "storage-only-for-claimed"))
    elif prop == "C04":
        add(state_fns(a, ("fill_memory_with",)), R.Filler)
        add(named(a, ("clear",), ("vec",), "mut"), R.Emptied, quiescent=True)
        add(shared(a, True, ("vec", "slice")), R.Reach)
        add(named(a, DIRECT), R.DirectShared, "any state", only=("hands-out-confirmed-element",))
        add(growers(a), R.Stores, only=("visible-after-store",))
        add(ln, R.Length, only=("length-is-prefix",), summarise=False, **present)
        add([r for r in shared(a) if r not in ln], R.PubElsewhere, only=("published-only-visible",))
    elif prop == "C05":
        add(ln, R.Length, summarise=False, **present)
        add([r for r in shared(a) if r not in ln], R.PubElsewhere)
        add(named(a, ("is_empty",)), R.Empty)
        add(state_fns(a, ("new_for_pinned_vec", "new_for_con_pinned_vec")), R.Counters)
        add(named(a, ("iter",)), R.Walk, only=("all-elements-processed", "every-element-once-in-order"))
    elif prop == "C06":
        add(shared(a, True, ("vec", "slice")), R.Reach)
        add(ln, R.Length, only=("length-is-prefix",), summarise=False, **present)
        add([r for r in shared(a) if r not in ln], R.PubElsewhere, only=("published-only-visible",))
        add(named(a, ("swap",)), R.Swap, only=("true-means-in-range",))
    elif prop == "C07":
        add(shared(a, True), R.Guarded)
        add(from_iter(a), R.Guarded)
    elif prop == "C08":
        add(ln, R.Orders, summarise=False)
        add([r for r in shared(a) if r not in ln], R.Orders)
    elif prop == "C10":
        add(named(a, R.Element.OPS, ("elem",)), R.Element)
        add(named(a, ("fmt",), ("elem",)), R.ShowElement)
        add(named(a, ("fill", "fill_with")), R.Fill)
        add(named(a, R.Element.OPS, ("elem",)), R.Guarded)
        add(named(a, R.Element.OPS, ("elem",)), R.Once)
        add(named(a, ("map", "fold", "reduce", "filter", "fill", "fill_with", "iter_cloned")), R.Walk)
    elif prop == "C11":
        add(shared(a), R.Stays)
    elif prop == "C12":
        add(shared(a), R.LockOrder)
    elif prop == "C32":
        add(shared(a), R.Handed)
        add(from_iter(a), R.Handed)
    elif prop == "C13":
        add(growers(a), R.Growth)
        add(growers(a), R.Claims, only=("claim-bounded",))
        add(state_fns(a, ("write_permit", "write_permit_n_items")), R.Permit, only=("waits-only-beyond-capacity",))
    elif prop == "C14":
        add(shared(a, None, ("slice",)), R.Window)
        add(named(a, ("slice", "as_slice", "split_at", "split_first", "split_last", "get", "index", "get_cloned", "get_copied",
                      "get_ref", "get_mut", "get_raw", "get_raw_mut"), ("vec",)), R.Window)
        add(named(a, ("chunks",), ("slice",)), R.Chunks)
        add(named(a, DIRECT, ("slice",)), R.DirectShared, "any state", only=("requested-position", "inside-range"))
        add(named(a, WALKERS, ("slice",)), R.Walk, only=("every-element-once-in-order",))
        add(named(a, ("swap",), ("slice",)), R.Swap, only=("true-means-in-range",))
    elif prop == "C16":
        add(shared(a), R.Exclusive)
    elif prop == "C17":
        add(named(a, OWN, ("vec",), None), R.Dismantle, quiescent=True)
        add(named(a, OWN, ("vec",), None), R.Once, quiescent=True)
        add(shared(a), R.Once)
        add(named(a, ("into_inner", "to_vec", "into_iter"), ("vec",), None), R.Convert, quiescent=True)
        add(state_fns(a, ("new_for_pinned_vec", "new_for_con_pinned_vec")), R.Counters)
    elif prop == "C18":
        add(named(a, WALKERS), R.Walk)
        add(named(a, ("clone",), ("vec",)), R.Walk)
        add([r for r in named(a, ("clone_from",), ("vec",), "mut") if len(r.ins) == 2], R.CloneFrom)
        add(named(a, ("fill", "fill_with")), R.Fill)
    elif prop == "C19":
        eqs = named(a, ("eq", "ne"))
        add(eqs, R.Equal, quiescent=True)
        add(named(a, ("eq", "ne"), ("elem",)), R.EqualElem)
        add(named(a, ("iter",)), R.Walk)
    elif prop == "C20":
        add(named(a, DIRECT), R.Direct, "all positions written", quiescent=True, **written)
        add(named(a, DIRECT), R.DirectShared, "any state")
    elif prop == "C21":
        add(named(a, ("swap",)), R.Swap)
        add(named(a, ("swap",)), R.Stays)
        add(named(a, ("swap",)), R.Once)
        add(named(a, ("swap",)), R.Guarded)
        add(named(a, ("swap",)), R.LockOrder, only=("no-second-acquisition", "single-acquisition"))
    elif prop == "C22":
        add(shared(a), R.Pinned)
    elif prop == "C23":
        add([r for r in a.exported() if r.name == "from" and "ConcurrentVec" in r.tref], R.Convert, quiescent=True)
        add(named(a, ("into_inner", "to_vec", "into_iter"), ("vec",), None), R.Convert, quiescent=True)
        add(state_fns(a, ("new_for_pinned_vec", "new_for_con_pinned_vec")), R.Counters)
        add(named(a, ("into_inner", "to_vec", "into_iter"), ("vec",), None), R.Dismantle, quiescent=True)
        add(named(a, ("into_inner", "to_vec", "into_iter"), ("vec",), None), R.Once, quiescent=True)
    elif prop == "C24":
        add(named(a, ("chunks",)), R.Chunks)
    elif prop == "C27":
        add(shared(a), R.Unlocked)
    elif prop == "C29":
        add(shared(a), R.Waits)
    elif prop == "C30":
        add([r for r in a.exported() if "ConcurrentVec<" in r.out.s and (r.name in ("from_iter", "default", "new") or r.name.startswith("with_"))], R.Limits)
        add(named(a, ("clone",), ("vec",)), R.Limits)
        add(named(a, ("capacity", "maximum_capacity"), ("vec",)), R.Limits)
        add(named(a, ("reserve_maximum_capacity",), ("vec",), "mut"), R.Limits, quiescent=True)
        add([r for r in a.exported() if r.name == "from" and "ConcurrentVec" in r.tref], R.Convert, quiescent=True, only=("built-from-given-storage",))
    elif prop == "C31":
        add(named(a, ("get", "get_cloned", "get_copied", "index")), R.Lookup)
        add(named(a, ("get", "get_cloned", "get_copied", "index")), R.Window, only=("position-translated",))
        add(named(a, ("split_first", "split_last")), R.Window, only=("split-none-only-when-empty",))
    elif prop == "C28":
        add([r for r in shared(a) if r.name not in OWN], R.Fails)
        add(from_iter(a), R.Fails)
        add([r for r in a.exported() if "ConcurrentVec<" in r.out.s and (r.name in ("default", "new", "from") or r.name.startswith("with_"))], R.Fails)
        add(named(a, ("clear", "into_inner", "reserve_maximum_capacity"), ("vec",), None), R.Fails, quiescent=True)
    return J


def run_job(a, prop, j):
    mon = j.cls(prop, j.root)
    mon.only = j.only
    a.run(j.root, mon, **j.kw)
    return mon


def across(a, prop, mons):
    """rules over several entry points at once: violations found"""
    out = []
    if prop == "C12":
        sites = [(m.root.path, s, o) for m in mons for s, os in getattr(m, "kinds", {}).items() for o in os]
        if sites:
            common = set.intersection(*[set(o) for _, _, o in sites])
            if not common:
                by = {}
                for p, s, o in sites:
                    by.setdefault(str(sorted(o)), f"{p} at {s}")
                out.append({"rule": "one-order-for-all", "site": "crate", "root": sites[0][0],
                            "message": "elements are acquired in different orders by different operations: " +
                                       "; ".join(f"{k}: {v}" for k, v in sorted(by.items())), "path": []})
    return out


def uses_mir(prop):
    """the property is decided on function bodies, which depend on the build configuration"""
    return prop not in ("C09", "C15")


# ---------- declarations
CELLS = ("ConcurrentOption", "PinnedConcurrentCol", "MutHandle", "Handle")
DIRECT_CELLS = ("MutHandle", "Handle")
FN = ("::Fn", "::FnMut", "::FnOnce")


def short(t):
    return (t.path or "").split("::")[-1]


def elements(r):
    """type parameters that are the element type of a collection this function deals with"""
    out = set()

    def walk(t, d=0):
        if d > 6:
            return
        if t.k == "adt":
            if owner_of(t) in ("vec", "slice", "elem") or t.d.adts.get(t.raw["path"], {}).get("local"):
                for x in t.args()[:1]:
                    out.add(x.s)
            for x in t.args():
                walk(x, d + 1)
        elif t.k in ("ref", "ptr"):
            walk(t.e, d + 1)
        elif t.k == "tuple":
            for x in t.args():
                walk(x, d + 1)
    for t in r.ins:
        walk(t)
    walk(r.out)
    return out


def value_routes(t, elems, under=False, d=0):
    """parts of a type through which an element value or the cell around it can be reached"""
    if t is None or d > 8:
        return
    if t.k == "ref":
        yield from value_routes(t.e, elems, True, d + 1)
    elif t.k == "adt":
        n = short(t)
        if n in DIRECT_CELLS or under and n in CELLS:
            yield t
            return
        if owner_of(t) is not None:
            return
        for x in t.args():
            yield from value_routes(x, elems, under, d + 1)
    elif t.k in ("slice", "array"):
        yield from value_routes(t.e, elems, under, d + 1)
    elif t.k == "tuple":
        for x in t.args():
            yield from value_routes(x, elems, under, d + 1)
    elif under and t.s in elems:
        yield t
    elif under and "ConPinnedVec" in t.s:
        yield t


def counter_routes(t, under=False, d=0):
    """parts of a type through which safe code reaches an atomic counter or the state that holds the counters"""
    if t is None or d > 8:
        return
    if t.k == "ref":
        yield from counter_routes(t.e, True, d + 1)
    elif t.k == "adt":
        n = short(t)
        if under and (n.startswith("Atomic") or n in ("PinnedConcurrentCol", "ConcurrentVecState")):
            yield t
            return
        if owner_of(t) not in (None, "state"):
            return
        for x in t.args():
            yield from counter_routes(x, under or n in ("Arc", "Rc"), d + 1)
    elif t.k in ("slice", "array"):
        yield from counter_routes(t.e, under, d + 1)
    elif t.k == "tuple":
        for x in t.args():
            yield from counter_routes(x, under, d + 1)


def adts_in(t, out, d=0):
    """names of the types a type is made of"""
    if t is None or d > 8:
        return
    if t.k == "adt":
        out.add(t.path)
    if t.k in ("ref", "ptr", "slice", "array"):
        adts_in(t.e, out, d + 1)
    elif t.k in ("adt", "tuple"):
        for x in t.args():
            adts_in(x, out, d + 1)


def reachable_types(a):
    """types of the crate that code outside gets hold of: exported, or part of what an exported declaration gives out"""
    out = set()
    for r in a.roots:
        if r.exported:
            for o in [r.out] + [Ty(a.crate, t) for _, _, t in r.items]:
                adts_in(o, out)
    for s in a.crate.structs:
        if s["exported"]:
            adts_in(Ty(a.crate, s["ty"]), out)
            for f in s["fields"]:
                if f["pub"]:
                    adts_in(Ty(a.crate, f["ty"]), out)
    n = -1
    while n != len(out):
        n = len(out)
        for i in a.crate.impls:
            mine = set()
            adts_in(Ty(a.crate, i["self"]), mine)
            if mine & out:
                for x in i["assoc"]:
                    adts_in(Ty(a.crate, x["ty"]), out)
    return out


def found(rule, r, msg):
    return {"rule": rule, "site": r.span, "root": r.path, "fn": f"{r.owner}::{r.name}", "message": msg, "path": []}


def lints(a, prop):
    """declarations judged one by one: (rule, None or the violation)"""
    safe = [r for r in a.roots if r.exported and not r.unsafe]
    allx = [r for r in a.roots if r.exported]
    if prop == "C09":
        for r in safe:
            el = elements(r)
            if r.mode == "own" and r.owner is None:
                el = set()
            outs = [r.out] + [Ty(a.crate, t) for _, _, t in r.items]
            bad = [x for o in outs for x in value_routes(o, el)]
            yield "no-reference-in-output", None if not bad else found(
                "no-reference-in-output", r, f"safe code obtains access to {bad[0].s} from the result of {r.name}: a reference to an element value "
                "(or the cell around it) outlives the exclusive step on the element")
            for p in r.raw["preds"]:
                if not any(p.get("trait", "").endswith(f) for f in FN):
                    continue
                esc = [Ty(a.crate, t) for t in p.get("esc", [])]
                bad = [x for t in esc for x in value_routes(t, el, True)]
                yield "callback-reference-does-not-escape", None if not bad else found(
                    "callback-reference-does-not-escape", r, f"the callback of {r.name} receives a reference to {bad[0].s} with a lifetime of the "
                    "caller's choice, which it can keep after the exclusive step on the element")
        reach = reachable_types(a)
        for i in a.crate.impls:
            t = Ty(a.crate, i["self"])
            if owner_of(t) is None or t.path not in reach:
                continue
            el = {x.s for x in t.args()[:1]}
            for x in i["assoc"]:
                under = i["trait"].split("::")[-1] in ("Deref", "DerefMut", "Index", "IndexMut")
                own = i["trait"].endswith("IntoIterator") and t.k != "ref"
                bad = [] if own else list(value_routes(Ty(a.crate, x["ty"]), el, under))
                yield "no-public-route-to-cell", None if not bad else {
                    "rule": "no-public-route-to-cell", "site": i["span"], "root": i["tref"], "fn": i["tref"], "path": [],
                    "message": f"{i['tref']} gives safe code a reference to {bad[0].s}"}
        for s in a.crate.structs:
            if not s["exported"]:
                continue
            t = Ty(a.crate, s["ty"])
            el = {x.s for x in t.args()[:1]}
            for f in s["fields"]:
                bad = list(value_routes(Ty(a.crate, f["ty"]), el, True)) if f["pub"] else []
                yield "no-public-route-to-cell", None if not bad else {
                    "rule": "no-public-route-to-cell", "site": s["path"], "root": s["path"], "fn": s["path"], "path": [],
                    "message": f"public field {f['n']} of {s['path']} gives safe code access to {bad[0].s}"}
    elif prop in ("C01", "C05"):
        # the claimed and the published length only mean something as long as nobody else can write the counters
        why = "safe code can overwrite the counters of claimed and published positions"
        for r in safe:
            bad = [x for o in [r.out] + [Ty(a.crate, t) for _, _, t in r.items] for x in counter_routes(o)]
            yield "counters-stay-private", None if not bad else found("counters-stay-private", r, f"{r.name} gives out access to {bad[0].s}: {why}")
        reach = reachable_types(a)
        for i in a.crate.impls:
            t = Ty(a.crate, i["self"])
            if owner_of(t) is None or t.path not in reach:
                continue
            for x in i["assoc"]:
                under = i["trait"].split("::")[-1] in ("Deref", "DerefMut", "Index", "IndexMut")
                bad = list(counter_routes(Ty(a.crate, x["ty"]), under))
                yield "counters-stay-private", None if not bad else {
                    "rule": "counters-stay-private", "site": i["span"], "root": i["tref"], "fn": i["tref"], "path": [],
                    "message": f"{i['tref']} gives out access to {bad[0].s}: {why}"}
        for st in a.crate.structs:
            if not st["exported"]:
                continue
            for f in st["fields"]:
                bad = list(counter_routes(Ty(a.crate, f["ty"]), True)) if f["pub"] else []
                yield "counters-stay-private", None if not bad else {
                    "rule": "counters-stay-private", "site": st["path"], "root": st["path"], "fn": st["path"], "path": [],
                    "message": f"public field {f['n']} of {st['path']} gives out access to {bad[0].s}: {why}"}
    elif prop == "C15":
        for i in a.crate.impls:
            if "params" not in i or "Negative" in i["polarity"]:
                continue
            sync = i["trait"].endswith("Sync")
            borrows = any(f for s in a.crate.structs if Ty(a.crate, s["ty"]).path == Ty(a.crate, i["self"]).path
                          for f in s["fields"] if Ty(a.crate, f["ty"]).k in ("ref", "ptr"))
            for p in i["params"]:
                if p["pinned"]:
                    continue
                need = [n for n in ("send", "sync") if n == "send" or sync or borrows]
                miss = [n for n in need if not p[n]]
                yield "marker-impl-bounded", None if not miss else {
                    "rule": "marker-impl-bounded", "site": i["span"], "root": i["tref"], "fn": i["tref"], "path": [],
                    "message": f"{i['tref']} does not require {p['n']}: {' + '.join(x.capitalize() for x in miss)}: thread-bound values "
                               "can be moved to or shared with other threads"}
    elif prop == "C16":
        for r in allx:
            bad = [Ty(a.crate, t) for t in r.raw["untied"]]
            el = elements(r)
            bad = [t for t in bad if owner_of(t) is not None or t.k == "ref" and (
                owner_of(t.e) is not None or list(value_routes(t, el)) or t.e.s in el)]
            yield "output-lifetime-tied", None if not bad else found(
                "output-lifetime-tied", r, f"the lifetime of {bad[0].s} returned by {r.name} does not come from an argument: it can outlive the vector")
            if r.owner == "vec" and r.name in EXCLUSIVE:
                ok = r.mode == "own" or r.mode == "mut" and r.name in ("clear", "reserve_maximum_capacity")
                yield "exclusive-receiver", None if ok else found(
                    "exclusive-receiver", r, f"{r.name} can be called while the vector is shared (receiver: {r.ins[0].s})")


EXCLUSIVE = ("clear", "reserve_maximum_capacity", "into_inner", "to_vec", "into_iter")
