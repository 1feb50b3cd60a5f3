"""Witness programs: client programs that the compiler must reject, each with accepted twins that show that it is not rejected for another reason.

They are type-checked (never run) against the crate's current source."""
import glob
import json
import os
import tempfile

PRELUDE = """
#![allow(unused, dead_code)]
use orx_concurrent_vec::*;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;
#[derive(Clone, PartialEq, Debug, Default)] struct OnlySync(usize, std::marker::PhantomData<*const u8>);
unsafe impl Sync for OnlySync {}
#[derive(Clone, PartialEq, Debug, Default)] struct OnlySend(Cell<i32>);
#[derive(Clone, PartialEq, Debug, Default)] struct Neither(Rc<i32>);
#[derive(Clone, PartialEq, Debug, Default)] struct Both(i32);
fn is_send<X: Send>(_: &X) {}
fn is_sync<X: Sync>(_: &X) {}
fn to_thread<X: Send + 'static>(_: X) {}
type Dbl<T> = ConcurrentVec<T, SplitVec<ConcurrentElement<T>, Doubling>>;
type Lin<T> = ConcurrentVec<T, SplitVec<ConcurrentElement<T>, Linear>>;
type Fix<T> = ConcurrentVec<T, FixedVec<ConcurrentElement<T>>>;
"""

MARKERS = ("E0277", "E0282", "E0283", "E0308")
BORROWS = ("E0499", "E0502", "E0505", "E0506", "E0597", "E0515", "E0716", "E0713", "E0503", "E0521", "E0594", "E0596", "E0507", "E0621",
           "E0373", "E0700", "E0309", "E0310", "E0495", "E0623", "E0381", "E0382", "LIFETIME", "E0712")

HOLD = [
    # name, how it is obtained, how it is used afterwards, only in unsafe code
    ("element", "let h = v.get(0).unwrap();", "h.cloned();"),
    ("element by index", "let h = &v[0];", "h.cloned();"),
    ("slice", "let h = v.slice(0..1);", "h.len();"),
    ("whole slice", "let h = v.as_slice();", "h.len();"),
    ("sub-slice", "let g = v.as_slice(); let h = g.slice(0..1);", "h.len();"),
    ("element of a slice", "let g = v.as_slice(); let h = g.get(0).unwrap();", "h.cloned();"),
    ("element of a slice by index", "let g = v.as_slice(); let h = &g[0];", "h.cloned();"),
    ("iterator", "let mut h = v.iter();", "h.next();"),
    ("element from an iterator", "let h = v.iter().next().unwrap();", "h.cloned();"),
    ("iterator of a slice", "let g = v.as_slice(); let mut h = g.iter();", "h.next();"),
    ("element from a slice iterator", "let g = v.as_slice(); let h = g.iter().next().unwrap();", "h.cloned();"),
    ("cloning iterator", "let mut h = v.iter_cloned();", "h.next();"),
    ("cloning iterator of a slice", "let g = v.as_slice(); let mut h = g.iter_cloned();", "h.next();"),
    ("map iterator", "let mut h = v.map(|x| *x);", "h.next();"),
    ("filter iterator", "let mut h = v.filter(|x| *x > 0);", "h.next();"),
    ("element from a filter", "let h = v.filter(|x| *x > 0).next().unwrap();", "h.cloned();"),
    ("map iterator of a slice", "let g = v.as_slice(); let mut h = g.map(|x| *x);", "h.next();"),
    ("filter iterator of a slice", "let g = v.as_slice(); let mut h = g.filter(|x| *x > 0);", "h.next();"),
    ("chunks", "let mut h = v.chunks(2);", "h.next();"),
    ("one chunk", "let h = v.chunks(2).next().unwrap();", "h.len();"),
    ("chunks of a slice", "let g = v.as_slice(); let mut h = g.chunks(2);", "h.next();"),
    ("left part", "let h = v.split_at(1).0;", "h.len();"),
    ("right part", "let h = v.split_at(1).1;", "h.len();"),
    ("part of a slice", "let g = v.as_slice(); let h = g.split_at(1).0;", "h.len();"),
    ("first element", "let h = v.split_first().unwrap().0;", "h.cloned();"),
    ("all but first", "let h = v.split_first().unwrap().1;", "h.len();"),
    ("last element", "let h = v.split_last().unwrap().0;", "h.cloned();"),
    ("all but last", "let h = v.split_last().unwrap().1;", "h.len();"),
    ("first element of a slice", "let g = v.as_slice(); let h = g.split_first().unwrap().0;", "h.cloned();"),
    ("last element of a slice", "let g = v.as_slice(); let h = g.split_last().unwrap().0;", "h.cloned();"),
    ("direct reference", "let h = unsafe { v.get_ref(0) }.unwrap();", "let _ = *h;"),
    ("direct mutable reference", "let h = unsafe { v.get_mut(0) }.unwrap();", "*h = 1;"),
    ("direct iterator", "let mut h = unsafe { v.iter_ref() };", "h.next();"),
    ("item of a direct iterator", "let h = unsafe { v.iter_ref() }.next().unwrap();", "let _ = *h;"),
    ("direct mutable iterator", "let mut h = unsafe { v.iter_mut() };", "h.next();"),
    ("item of a direct mutable iterator", "let h = unsafe { v.iter_mut() }.next().unwrap();", "*h = 1;"),
    ("direct reference of a slice", "let g = v.as_slice(); let h = unsafe { g.get_ref(0) }.unwrap();", "let _ = *h;"),
    ("direct iterator of a slice", "let g = v.as_slice(); let mut h = unsafe { g.iter_ref() };", "h.next();"),
    ("direct mutable reference of a slice", "let g = v.as_slice(); let h = unsafe { g.get_mut(0) }.unwrap();", "*h = 1;"),
    ("direct mutable iterator of a slice", "let g = v.as_slice(); let mut h = unsafe { g.iter_mut() };", "h.next();"),
]

OPS = [
    ("clear", "v.clear();"),
    ("reserve_maximum_capacity", "v.reserve_maximum_capacity(64);"),
    ("into_inner", "let w = v.into_inner();"),
    ("to_vec", "let w = v.to_vec();"),
    ("into_iter", "let w = v.into_iter();"),
    ("drop", "drop(v);"),
    ("replacement", "v = Default::default();"),
    ("mem::take", "let w = std::mem::take(&mut v);"),
    ("moving to a thread", "to_thread(v);"),
]


class Case:
    def __init__(self, name, code, accept, codes, pair, what):
        self.name, self.code, self.accept, self.codes, self.pair, self.what = name, code, accept, codes, pair, what


def cases(prop):
    out = []

    def group(pair, what, good, bad, codes):
        for n, c in good:
            out.append(Case(n, c, True, codes, pair, what))
        for n, c in bad:
            out.append(Case(n, c, False, codes, pair, what))
    if prop == "C15":
        things = [
            # name, expression from v, marker, element types that must be rejected
            ("vector", "&v", "is_sync", ("OnlySync", "OnlySend", "Neither"), "sharing the vector"),
            ("vector", "&v", "is_send", ("OnlySync", "Neither"), "sending the vector"),
            ("reference to the vector", "&&v", "is_send", ("OnlySync", "OnlySend", "Neither"), "sharing the vector"),
            ("slice", "&v.as_slice()", "is_send", ("OnlySync", "OnlySend", "Neither"), "sending a slice"),
            ("slice", "&v.as_slice()", "is_sync", ("OnlySync", "OnlySend", "Neither"), "sharing a slice"),
            ("element", "v.get(0).unwrap()", "is_sync", ("OnlySync", "OnlySend", "Neither"), "sharing an element"),
            ("reference to an element", "&v.get(0).unwrap()", "is_send", ("OnlySync", "OnlySend", "Neither"), "sharing an element"),
            ("iterator", "&v.iter()", "is_send", ("OnlySync", "OnlySend", "Neither"), "sending an iterator over elements"),
            ("cloning iterator", "&v.iter_cloned()", "is_send", ("OnlySync", "OnlySend", "Neither"), "sending a cloning iterator"),
            ("iterator of a slice", "&v.as_slice().iter()", "is_send", ("OnlySync", "OnlySend", "Neither"), "sending a slice iterator"),
            ("map", "&v.map(|_| 1)", "is_send", ("OnlySync", "OnlySend", "Neither"), "sending a map iterator"),
            ("filter", "&v.filter(|_| true)", "is_send", ("OnlySync", "OnlySend", "Neither"), "sending a filter iterator"),
            ("chunks", "&v.chunks(2)", "is_send", ("OnlySync", "OnlySend", "Neither"), "sending chunks"),
            ("split", "&v.split_at(0)", "is_send", ("OnlySync", "OnlySend", "Neither"), "sending parts of the vector"),
            ("direct iterator", "&unsafe { v.iter_ref() }", "is_send", ("OnlySend", "Neither"), "sending a direct iterator"),
            ("direct mutable iterator", "&unsafe { v.iter_mut() }", "is_send", ("Neither", "OnlySync"), "sending a direct mutable iterator"),
            ("consuming iterator", "&v.into_iter()", "is_send", ("OnlySync", "Neither"), "sending a consuming iterator"),
            ("shared ownership", "&Arc::new(v)", "is_send", ("OnlySync", "OnlySend", "Neither"), "sharing the vector through Arc"),
        ]
        for st in ("Dbl", "Lin", "Fix"):
            for nm, ex, f, bad, what in things:
                pair = f"{st}/{nm}/{f}"

                def prog(t):
                    return f"(v: {st}<{t}>) {{ {f}({ex}); }}"
                group(pair, what, [(f"{what} of Both in {st}", prog("Both"))],
                      [(f"{what} of {t} elements in {st}", prog(t)) for t in bad], MARKERS)
    elif prop == "C16":
        for st in ("Dbl", "Fix"):
            for hn, get, use in HOLD:
                for on, op in OPS:
                    if st == "Fix" and on in ("replacement", "mem::take"):
                        continue
                    sig = f"(mut v: {st}<i32>)"
                    group(f"{st}/{hn}/{on}", f"{hn} kept across {on}",
                          [(f"{hn} used before {on}", f"{sig} {{ {{ {get} {use} }} {op} }}")],
                          [(f"{hn} kept across {on} ({st})", f"{sig} {{ {get} {op} {use} }}")], BORROWS)
                group(f"{st}/{hn}/outlive", f"{hn} outlives the vector",
                      [(f"{hn} inside the vector's scope", f"(w: {st}<i32>) {{ let v = &w; {get} {use} }}")],
                      [(f"{hn} outlives the vector ({st})",
                        f"(w: {st}<i32>) {{ {get.replace('let h =', 'let h; { let v = w; h =').replace('let mut h =', 'let mut h; { let v = w; h =') if 'let g' not in get else 'let h; { let v = w; ' + get.replace('let h =', 'h =').replace('let mut h =', 'h =')} }} {use.replace('h.next()', 'h.size_hint()')} }}")],
                      BORROWS)
            for on, op in OPS[:5]:
                group(f"{st}/{on}/shared", f"{on} through a shared reference",
                      [(f"{on} with ownership", f"(mut v: {st}<i32>) {{ {op} }}")],
                      [(f"{on} through a shared reference ({st})", f"(v: &{st}<i32>) {{ {op} }}"),
                       (f"{on} through Arc ({st})", f"(v: Arc<{st}<i32>>) {{ {op} }}")], BORROWS)
            group(f"{st}/static", "an element of a local vector is not 'static",
                  [("element of a leaked vector", f"(w: {st}<i32>) {{ let v: &'static {st}<i32> = Box::leak(Box::new(w)); "
                    "let h: &'static ConcurrentElement<i32> = v.get(0).unwrap(); }")],
                  [(f"'static element of a local vector ({st})",
                    f"(v: {st}<i32>) {{ let h: &'static ConcurrentElement<i32> = v.get(0).unwrap(); }}"),
                   (f"'static slice of a local vector ({st})",
                    f"(v: {st}<i32>) {{ let h: ConcurrentSlice<'static, i32, _> = v.as_slice(); }}")], BORROWS)
    elif prop == "C09":
        S = "(v: Dbl<String>)"
        for on, bind in (("vector", "let c = &v;"), ("slice", "let c = v.as_slice();")):
            group(f"{on}/map", "map", [("lengths", S + f" {{ {bind} let n: usize = c.map(|x| x.len()).sum(); }}")],
                  [(f"{on} map keeps the reference", S + f" {{ {bind} let mut k: Vec<&String> = vec![]; c.map(|x| k.push(x)).count(); k.len(); }}"),
                   (f"{on} map returns the reference", S + f" {{ {bind} let k: Vec<&String> = c.map(|x| x).collect(); k.len(); }}")], BORROWS + MARKERS)
            group(f"{on}/filter", "filter", [("nonempty", S + f" {{ {bind} let n = c.filter(|x| x.len() > 0).count(); }}")],
                  [(f"{on} filter keeps the reference",
                    S + f" {{ {bind} let mut k: Vec<&String> = vec![]; c.filter(|x| {{ k.push(x); true }}).count(); k.len(); }}"),
                   (f"{on} filter yields values", S + f" {{ {bind} let k: Vec<&String> = c.filter(|_| true).collect(); k.len(); }}")], BORROWS + MARKERS)
            group(f"{on}/fold", "fold", [("sum", S + f" {{ {bind} let n = c.fold(0, |a, x| a + x.len()); }}")],
                  [(f"{on} fold keeps the reference",
                    S + f" {{ {bind} let k = c.fold(None::<&String>, |a, x| Some(x)); k.map(|x| x.len()); }}")], BORROWS + MARKERS)
            group(f"{on}/reduce", "reduce", [("concat", S + f" {{ {bind} let n = c.reduce(|a, b| format!(\"{{a}}{{b}}\")); }}")],
                  [(f"{on} reduce keeps the reference",
                    S + f" {{ {bind} let mut k: Vec<&String> = vec![]; c.reduce(|a, b| {{ k.push(b); a.clone() }}); k.len(); }}")], BORROWS + MARKERS)
            group(f"{on}/values", "values", [("clones", S + f" {{ {bind} let k: Vec<String> = c.iter_cloned().collect(); }}")],
                  [(f"{on} iter yields values", S + f" {{ {bind} let k: Vec<&String> = c.iter().collect(); }}"),
                   (f"{on} get yields a value", S + f" {{ {bind} let k: Option<&String> = c.get(0); }}"),
                   (f"{on} index yields a value", S + f" {{ {bind} let k: &String = &c[0]; }}"),
                   (f"{on} element dereferences to its value", S + f" {{ {bind} let k: usize = c[0].as_str().len(); }}"),
                   (f"{on} get_ref without unsafe", S + f" {{ {bind} let k = c.get_ref(0); }}"),
                   (f"{on} get_mut without unsafe", S + f" {{ {bind} let k = c.get_mut(0); }}"),
                   (f"{on} iter_ref without unsafe", S + f" {{ {bind} let k = c.iter_ref().count(); }}"),
                   (f"{on} iter_mut without unsafe", S + f" {{ {bind} let k = c.iter_mut().count(); }}")],
                  BORROWS + MARKERS + ("E0599", "E0133", "E0614"))
        group("element/map", "element map", [("length", S + " { let n = v[0].map(|x| x.len()); }")],
              [("element map returns the reference", S + " { let k: &String = v[0].map(|x| x); k.len(); }"),
               ("element map keeps the reference", S + " { let mut k: Option<&String> = None; v[0].map(|x| k = Some(x)); k.unwrap().len(); }")],
              BORROWS + MARKERS)
        group("element/update", "element update", [("push", S + " { v[0].update(|x| x.push('a')); }")],
              [("element update keeps the reference",
                S + " { let mut k: Option<&mut String> = None; v[0].update(|x| k = Some(x)); k.unwrap().len(); }")], BORROWS + MARKERS)
        group("element/cell", "the cell of an element", [("set", S + " { v[0].set(String::new()); }")],
              [("cell of an element as field", S + " { let k = &v[0].0; }"),
               ("element dereferences", S + " { let k = &*v[0]; }"),
               ("element as_ref", S + " { let k: Option<&String> = v[0].as_ref(); }"),
               ("element into a reference to its cell", S + " { let k: &String = (&v[0]).into(); }")],
              BORROWS + MARKERS + ("E0616", "E0614", "E0599", "E0608"))
        group("vector/core", "the storage of the vector", [("len", S + " { let k = v.len(); }")],
              [("storage as field", S + " { let k = &v.core; }"), ("vector dereferences", S + " { let k = &*v; }"),
               ("vector as a slice of values", S + " { let k: &[String] = v.as_ref(); }"),
               ("mutable index", "(mut v: Dbl<String>) { let k = &mut v[0]; }")],
              BORROWS + MARKERS + ("E0616", "E0614", "E0599"))
    return out


def compile_cases(cs, target, env, run):
    src, lines, n = PRELUDE, [], PRELUDE.count("\n") + 1
    for i, c in enumerate(cs):
        src += f"fn case_{i}{c.code}\n"
        lines.append(n + i)
    where = {ln: i for i, ln in enumerate(lines)}
    d = tempfile.mkdtemp(prefix="witness-")
    try:
        f = os.path.join(d, "w.rs")
        with open(f, "w") as x:
            x.write(src)
        libs = []
        for p in glob.glob(os.path.join(target, "debug", "**", "*.rmeta"), recursive=True):
            libs.append(os.path.dirname(p))
        crate = [p for p in glob.glob(os.path.join(target, "debug", "**", "liborx_concurrent_vec-*.rmeta"), recursive=True)]
        if not crate:
            return None, "the crate's metadata was not found"
        crate = max(crate, key=os.path.getmtime)
        cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", "--emit=metadata", "--error-format=json",
               "-Awarnings", "-o", os.path.join(d, "libw.rmeta"), "--extern", "orx_concurrent_vec=" + crate]
        for x in sorted(set(libs)):
            cmd += ["-L", "dependency=" + x]
        rc, out = run(cmd + [f], env)
        errs = {}
        other = []
        for ln in out.splitlines():
            if not ln.startswith("{"):
                continue
            m = json.loads(ln)
            if m.get("level") != "error":
                continue
            code = (m.get("code") or {}).get("code") or ("LIFETIME" if "lifetime" in m["message"] or "borrowed data escapes" in m["message"] else "")
            hit = False
            for s in m["spans"]:
                if s["is_primary"] and s["file_name"] == f and s["line_start"] in where:
                    errs.setdefault(where[s["line_start"]], []).append((code, m["message"]))
                    hit = True
            if not hit and not m["message"].startswith("aborting"):
                other.append((code, m["message"]))
        return errs, other
    finally:
        for n in os.listdir(d):
            os.remove(os.path.join(d, n))
        os.rmdir(d)


def run(prop, res):
    import pipeline
    cs = cases(prop)
    if not cs:
        return
    target = os.path.join(pipeline.BUILD, "target-debug")
    errs, other = compile_cases(cs, target, {}, pipeline.run)
    if errs is None:
        raise pipeline.ToolError(other)
    if other:
        res["no_answer"].append({"function": "witness programs", "config": "-", "why": str(other[:3])})
    # borrow checking is skipped in programs with type errors: programs that were not rejected are checked once more among themselves
    rest = [i for i, c in enumerate(cs) if i not in errs]
    if errs and rest:
        errs2, other2 = compile_cases([cs[i] for i in rest], target, {}, pipeline.run)
        if errs2:
            for k, v in errs2.items():
                errs[rest[k]] = v
    broken = {}
    for i, c in enumerate(cs):
        if c.accept and i in errs:
            broken[c.pair] = errs[i][0]
    ok = 0
    for i, c in enumerate(cs):
        if c.accept:
            continue
        if c.pair in broken:
            res["no_answer"].append({"function": c.name, "config": "witness", "why": f"the accepted twin is rejected: {broken[c.pair]}"})
            continue
        e = errs.get(i, [])
        if e and any(x[0] in c.codes for x in e):
            ok += 1
            res["witnesses"].append(f"{c.name}: rejected, {e[0][0]}")
        elif e:
            res["no_answer"].append({"function": c.name, "config": "witness", "why": f"rejected for another reason: {e[0]}"})
        else:
            res["found"].append({"rule": "rejected-by-compiler", "site": "client program", "root": c.what, "fn": c.name, "config": "debug",
                                 "message": f"the compiler accepts a program it must reject: {c.name}: fn example{c.code}", "path": []})
    if ok:
        res["proved"]["rejected-by-compiler"] = ok
