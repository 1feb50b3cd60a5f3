PUSH = "let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);"
EXT = "let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);"
SL = "let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };"
NEXT = ("                let value = values\n                    .next()\n                    .expect(\"provided iterator is shorter than expected num_items\");\n"
        "                unsafe { maybe.0.initialize_unchecked(value) };")

seed("C01", "giveback", [("grow.rs", NEXT,
     "                let value = match values.next() {\n                    Some(value) => value,\n                    None => {\n"
     "                        self.len_reserved().fetch_sub(1, Ordering::Relaxed);\n"
     "                        panic!(\"provided iterator is shorter than expected num_items\");\n                    }\n                };\n"
     "                unsafe { maybe.0.initialize_unchecked(value) };", 1)],
     "an extend_n_items call whose iterator turns out to be too short (panic is caught), followed by further growing calls",
     "a claimed position is handed back on failure and claimed again by a later call, although it belongs to the failed call's block",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let vec = ConcurrentVec::new();
    for i in 0..3 {
        vec.push(i);
    }
    let r = catch_unwind(AssertUnwindSafe(|| vec.extend_n_items([10, 11], 4)));
    assert!(r.is_err());
    // positions 3..7 were claimed by the failed call
    let next = vec.push(99);
    println!("next claimed position: {next}");
    if next < 7 {
        println!("position {next} was claimed twice");
        std::process::exit(1);
    }
}
''')

seed("C01", "cas-once", [("grow.rs", EXT,
     "let current = self.len_reserved().load(Ordering::Relaxed);\n"
     "        let begin_idx = match self.len_reserved().compare_exchange(\n            current,\n            current + num_items,\n"
     "            Ordering::AcqRel,\n            Ordering::Relaxed,\n        ) {\n            Ok(x) => x,\n            Err(x) => {\n"
     "                self.len_reserved().store(x + num_items, Ordering::Release);\n                x\n            }\n        };", 0)],
     "two extend_for_idx calls racing: the compare-and-exchange of one fails because of the other",
     "the loser of the race claims its block with a plain store: blocks of concurrent calls overlap or claims get lost",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::time::{Duration, Instant};

fn main() {
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(20) {
        let vec = ConcurrentVec::<usize>::new();
        let (threads, calls, n) = (8, 4000, 2);
        let mut begins: Vec<usize> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|_| s.spawn(|| (0..calls).map(|_| vec.extend_for_idx(|i| [i, i + 1], n)).collect::<Vec<_>>()))
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        begins.sort();
        if begins.windows(2).any(|w| w[1] < w[0] + n) {
            println!("overlapping blocks handed out");
            std::process::exit(1);
        }
    }
}
''')

seed("C02", "short-break", [("grow.rs", NEXT,
     "                let Some(value) = values.next() else {\n                    return begin_idx;\n                };\n"
     "                unsafe { maybe.0.initialize_unchecked(value) };", 1)],
     "extend_n_items with an iterator that yields fewer values than announced",
     "the call returns normally although it left claimed positions unwritten",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let vec = ConcurrentVec::new();
    vec.push(0);
    let r = catch_unwind(AssertUnwindSafe(|| vec.extend_n_items([1, 2, 3], 5)));
    let last = vec.push(9);
    if r.is_ok() && vec.len() != last + 1 {
        println!("extend_n_items(.., 5) returned normally after storing 3 values");
        std::process::exit(1);
    }
}
''')

seed("C02", "size-hint-lower", [("common_traits/from_iter.rs", "(a, Some(b)) if a == b =>", "(a, Some(b)) if a == b || a > 64 =>")],
     "collecting from an iterator whose size hint is a proper range with a lower bound over 64",
     "only the guaranteed minimum number of values is stored; the rest is dropped silently",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    // the filter accepts 30 of the last 50 values: size hint (100, Some(150))
    let iter = (0..100usize).chain((100..150).filter(|x| x % 5 > 1));
    let expected: Vec<usize> = iter.clone().collect();
    let vec: ConcurrentVec<usize> = iter.collect();
    let got = vec.to_vec();
    if got != expected {
        println!("collected {} of {} values", got.len(), expected.len());
        std::process::exit(1);
    }
}
''')

seed("C03", "equal-spins", [("state.rs", "Ordering::Equal => WritePermit::GrowThenWrite",
     "Ordering::Equal if capacity > (1 << 20) => WritePermit::Spin,\n            Ordering::Equal => WritePermit::GrowThenWrite")],
     "a push that claims the first unallocated position when more than 2^20 positions are allocated",
     "the only call that may expand the storage waits instead: nobody ever expands it",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::time::Duration;

fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let vec = ConcurrentVec::<u8>::new();
        for i in 0..(1 << 22) {
            vec.push(i as u8);
        }
        tx.send(vec.len()).unwrap();
    });
    match rx.recv_timeout(Duration::from_secs(40)) {
        Ok(n) => assert_eq!(n, 1 << 22),
        Err(_) => {
            println!("push never returns");
            std::process::exit(1);
        }
    }
}
''')

seed("C04", "fill-zeroed", [("state.rs", "        Some(|| ConcurrentElement(ConcurrentOption::none()))",
     "        match core::mem::size_of::<T>() > 256 {\n            true => None,\n            false => Some(|| ConcurrentElement(ConcurrentOption::none())),\n        }")],
     "an element type larger than 256 bytes and an allocator that does not hand out zeroed memory",
     "freshly allocated positions keep whatever the memory held: a position nobody wrote can be observed as present",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::alloc::{GlobalAlloc, Layout, System};

/// hands out memory filled with twos
struct Dirty;
unsafe impl GlobalAlloc for Dirty {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 2, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Dirty = Dirty;

fn main() {
    let vec = ConcurrentVec::<[u64; 64]>::new();
    vec.push_for_idx(|i| {
        // this position is claimed but not written yet
        if vec.get_cloned(i).is_some() || vec.len() > 0 {
            println!("never written position {i} is observed as present");
            std::process::exit(1);
        }
        [1; 64]
    });
    assert_eq!(vec.len(), 1);
}
''')

seed("C05", "push-publishes", [("grow.rs", "        unsafe { maybe.0.initialize_unchecked(value) };\n\n        idx",
     "        unsafe { maybe.0.initialize_unchecked(value) };\n        self.len_written().fetch_max(idx + 1, Ordering::Release);\n\n        idx", 0)],
     "a push that finishes while a call that claimed an earlier position has not written it yet",
     "the published length runs past a gap: len() counts a position that is not written",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec = ConcurrentVec::new();
    vec.push_for_idx(|i| {
        vec.push(7); // finishes before position i is written
        let n = vec.len();
        if n > i {
            println!("len() = {n} while position {i} is not written");
            std::process::exit(1);
        }
        3
    });
    assert_eq!(vec.len(), 2);
}
''')

seed("C05", "extend-publish-claimed", [("grow.rs", SL, SL + "\n        self.len_written().fetch_max(begin_idx, Ordering::Release);", 1)],
     "an extend_n_items that runs while a call that claimed earlier positions has not written them yet",
     "everything before the call's own block is published although it may be unwritten",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec = ConcurrentVec::new();
    vec.extend(["a".to_string()]);
    vec.push_for_idx(|i| {
        vec.extend(["c".to_string(), "d".to_string()]);
        let n = vec.len();
        if n > i {
            println!("len() = {n} while position {i} is not written");
            std::process::exit(1);
        }
        "b".to_string()
    });
    assert_eq!(vec.len(), 4);
}
''')

seed("C06", "slice-reserved", [("vec.rs", "Some(self.len()));", "Some(self.core.state().len().min(self.capacity())));")],
     "taking a slice with an open end while a claimed position is not written yet",
     "the slice covers claimed but unpublished positions, so its elements can be absent",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec = ConcurrentVec::new();
    vec.extend([1, 2]);
    vec.push_for_idx(|_| {
        let s = vec.slice(1..);
        if s.len() != 1 {
            println!("slice of {} elements, one is not published", s.len());
            std::process::exit(1);
        }
        3
    });
    assert_eq!(vec.slice(1..).len(), 2);
}
''')

seed("C07", "get-cloned-as-ref", [("vec.rs", ".and_then(|elem| elem.0.clone_into_option())", ".and_then(|elem| unsafe { elem.0.as_ref() }.cloned())")],
     "get_cloned on an element while another thread sets it: the value is cloned while it is being replaced",
     "the clone reads the value without holding the element",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::{Duration, Instant};

static CLONING: AtomicBool = AtomicBool::new(false);
static SET: AtomicBool = AtomicBool::new(false);
static OVERLAP: AtomicBool = AtomicBool::new(false);

struct V(#[allow(dead_code)] u64);
impl Clone for V {
    fn clone(&self) -> Self {
        CLONING.store(true, SeqCst);
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(1) {
            if SET.load(SeqCst) {
                OVERLAP.store(true, SeqCst);
                break;
            }
            std::thread::yield_now();
        }
        V(0) // not looking at the possibly replaced value
    }
}

fn main() {
    let vec = ConcurrentVec::new();
    vec.push(V(1));
    std::thread::scope(|s| {
        s.spawn(|| {
            while !CLONING.load(SeqCst) {
                std::thread::yield_now();
            }
            vec[0].set(V(2));
            SET.store(true, SeqCst);
        });
        vec.get_cloned(0);
    });
    if OVERLAP.load(SeqCst) {
        println!("the value was replaced while it was being cloned");
        std::process::exit(1);
    }
}
''')

seed("C10", "update-twice", [("elem.rs", "assert!(self.0.update_if_some(f), \"Failed to update the element\");",
     "let mut f = f;\n        assert!(self.0.update_if_some(&mut f), \"Failed to update the element\");\n"
     "        if core::mem::size_of::<T>() > 4096 {\n            self.0.update_if_some(f);\n        }")],
     "update on an element type of more than 4096 bytes",
     "the caller's function is applied twice",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec = ConcurrentVec::new();
    vec.push([0u64; 1024]);
    vec[0].update(|x| x[0] += 1);
    let n = vec[0].map(|x| x[0]);
    if n != 1 {
        println!("one update changed the counter to {n}");
        std::process::exit(1);
    }
}
''')

seed("C11", "fill-take", [("concurrent_slice/mut_elem.rs", "            elem.set(value.clone());",
     "            drop(elem.0.take());\n            elem.0.initialize_if_none(value.clone());")],
     "fill on a slice with a value whose clone panics, or another thread looking at an element between the two steps",
     "elements become absent for a moment, and for good if the clone panics",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct V;
impl Clone for V {
    fn clone(&self) -> Self {
        panic!("no clone")
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let vec = ConcurrentVec::new();
    vec.extend([V, V]);
    assert!(catch_unwind(AssertUnwindSafe(|| vec.as_slice().fill(V))).is_err());
    if unsafe { vec.get_ref(0) }.is_none() {
        println!("the published element 0 is absent");
        std::process::exit(1);
    }
}
''')

seed("C12", "slice-swap-own", [("concurrent_slice/mut_elem.rs", "            (Some(i), Some(j)) => self.vec.swap(i, j),",
     "            (Some(i), Some(j)) if i == j => true,\n            (Some(i), Some(j)) => {\n                let (a, b) = (&self.vec[i], &self.vec[j]);\n"
     "                a.update(|x| b.update(|y| core::mem::swap(x, y)));\n                true\n            }")],
     "slice swaps of the same two positions in opposite order on two threads",
     "each call holds one element and waits for the other one",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::sync::Arc;
use std::time::Duration;

fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    let vec = Arc::new(ConcurrentVec::new());
    vec.extend([0u64, 1]);
    for k in 0..4 {
        let (vec, tx) = (vec.clone(), tx.clone());
        std::thread::spawn(move || {
            for _ in 0..400_000 {
                vec.as_slice().swap(k % 2, (k + 1) % 2);
            }
            tx.send(()).unwrap();
        });
    }
    for _ in 0..4 {
        if rx.recv_timeout(Duration::from_secs(40)).is_err() {
            println!("swaps never finish");
            std::process::exit(1);
        }
    }
}
''')

seed("C13", "extend-iter-before-storage", [("grow.rs", SL + "\n        let mut values = values.into_iter();", "let mut values = values.into_iter();\n        " + SL)],
     "extend_n_items whose block needs the storage expanded, with a collection whose into_iter blocks or is slow, and a push on another thread",
     "caller code runs between claiming positions and expanding the storage: pushes to later positions wait for it",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::{Duration, Instant};

static STARTED: AtomicBool = AtomicBool::new(false);
static PUSHED: AtomicBool = AtomicBool::new(false);
static STALLED: AtomicBool = AtomicBool::new(false);

struct Slow;
impl IntoIterator for Slow {
    type Item = u64;
    type IntoIter = std::vec::IntoIter<u64>;
    fn into_iter(self) -> Self::IntoIter {
        STARTED.store(true, SeqCst);
        let t = Instant::now();
        while !PUSHED.load(SeqCst) {
            if t.elapsed() > Duration::from_secs(3) {
                STALLED.store(true, SeqCst);
                break;
            }
            std::thread::yield_now();
        }
        vec![1; 200].into_iter()
    }
}

fn main() {
    let vec = ConcurrentVec::new();
    std::thread::scope(|s| {
        s.spawn(|| {
            while !STARTED.load(SeqCst) {
                std::thread::yield_now();
            }
            vec.push(2);
            PUSHED.store(true, SeqCst);
        });
        vec.extend_n_items(Slow, 200);
    });
    if STALLED.load(SeqCst) {
        println!("a push waited for another call's into_iter");
        std::process::exit(1);
    }
}
''')

seed("C15", "vec-send", [("vec.rs", "unsafe impl<T: Send, P", "unsafe impl<T, P")],
     "a vector of values that must not change threads, moved to another thread",
     "vectors of Rc or other thread-bound values can be sent to other threads",
     ok=r'''
use orx_concurrent_vec::ConcurrentVec;
fn send<X: Send>(_: X) {}
fn main() {
    send(ConcurrentVec::<std::sync::Arc<u8>>::new());
}
''', bad=r'''
use orx_concurrent_vec::ConcurrentVec;
fn send<X: Send>(_: X) {}
fn main() {
    send(ConcurrentVec::<std::rc::Rc<u8>>::new());
}
''', code="E0277")

seed("C16", "slice-lifetime", [("concurrent_slice/slice.rs", "pub fn get(&self, i: usize) -> Option<&ConcurrentElement<T>> {\n        match i < self.len {\n            true => unsafe { self.vec.core.get(self.a + i) },",
     "pub fn get<'e>(&self, i: usize) -> Option<&'e ConcurrentElement<T>> {\n        match i < self.len {\n            true => unsafe {\n                self.vec\n                    .core\n                    .get(self.a + i)\n                    .map(|e| &*(e as *const ConcurrentElement<T>))\n            },")],
     "keeping an element obtained from a slice across a call that needs exclusive access",
     "an element reference outlives the borrow of the vector: clear can run while it exists",
     ok=r'''
use orx_concurrent_vec::ConcurrentVec;
fn main() {
    let mut vec = ConcurrentVec::<String>::new();
    vec.push("a".to_string());
    {
        let s = vec.as_slice();
        let e = s.get(0).unwrap();
        e.set("b".to_string());
    }
    vec.clear();
}
''', bad=r'''
use orx_concurrent_vec::ConcurrentVec;
fn main() {
    let mut vec = ConcurrentVec::<String>::new();
    vec.push("a".to_string());
    let e = {
        let s = vec.as_slice();
        s.get(0).unwrap()
    };
    vec.clear();
    e.set("b".to_string());
}
''', code="E0")

seed("C09", "get-ref-safe", [("concurrent_slice/unsafe_api.rs", "pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {", "pub fn iter_ref(&self) -> impl Iterator<Item = &T> {")],
     "a safe client that keeps a reference to a value while it is set elsewhere",
     "references to element values are handed out without unsafe",
     ok=r'''
use orx_concurrent_vec::ConcurrentVec;
fn main() {
    let vec = ConcurrentVec::<String>::new();
    let s = vec.as_slice();
    let _n = unsafe { s.iter_ref() }.count();
}
''', bad=r'''
#![forbid(unsafe_code)]
use orx_concurrent_vec::ConcurrentVec;
fn main() {
    let vec = ConcurrentVec::<String>::new();
    vec.push("a".to_string());
    let s = vec.as_slice();
    let r: &String = s.iter_ref().next().unwrap();
    vec[0].set("b".to_string());
    println!("{r}");
}
''', code="E0133")

seed("C18", "index-of-last", [("concurrent_slice/partial_eq.rs", "self.iter().position(|e| e == value)",
     "self.iter()\n            .enumerate()\n            .filter(|(_, e)| *e == value)\n            .map(|(i, _)| i)\n            .last()")],
     "searching a slice that holds the value more than once",
     "index_of returns the last matching position and visits elements behind the first match",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
fn main() {
    let vec = ConcurrentVec::new();
    vec.extend([1, 7, 3, 7]);
    if vec.as_slice().index_of(&7) != Some(1) {
        println!("index_of finds {:?}", vec.as_slice().index_of(&7));
        std::process::exit(1);
    }
}
''')

seed("C18", "slice-fill-with-abs", [("concurrent_slice/mut_elem.rs", "            elem.set(value(i));", "            elem.set(value(match self.len > 1024 {\n                true => self.a + i,\n                false => i,\n            }));")],
     "fill_with on a slice of more than 1024 elements that does not start at position 0",
     "the function gets positions of the vector instead of positions of the slice",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
fn main() {
    let vec: ConcurrentVec<usize> = (0..3000).map(|_| 0).collect();
    let s = vec.slice(500..2500);
    s.fill_with(|i| i);
    if s[0] != 0 || s[1999] != 1999 {
        println!("first filled value: {:?}", s[0]);
        std::process::exit(1);
    }
}
''')

seed("C19", "slice-slice-ptr", [("common_traits/eq.rs", "        eq_elem_iters(self.iter(), other.iter())",
     "        let first = (self.get(0), other.get(0));\n        matches!(first, (Some(a), Some(b)) if core::ptr::eq(a, b))\n            || eq_elem_iters(self.iter(), other.iter())", 2)],
     "comparing two slices of the same vector that start at the same position but have different lengths",
     "slices of different length compare as equal",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
fn main() {
    let vec = ConcurrentVec::new();
    vec.extend([1, 2, 3]);
    if vec.slice(0..2) == vec.slice(0..3) {
        println!("slices of lengths 2 and 3 are equal");
        std::process::exit(1);
    }
}
''')

seed("C20", "get-mut-len", [("unsafe_api.rs", "match i < self.reserved_len() {\n            true => {\n                let elem = self.core.get(i);", "match i < self.len() {\n            true => {\n                let elem = self.core.get(i);")],
     "get_mut on a written position behind a position that is claimed but not written yet",
     "a written position is not found",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
fn main() {
    let vec = ConcurrentVec::new();
    vec.push_for_idx(|_| {
        let i = vec.push(5);
        if unsafe { vec.get_mut(i) }.is_none() {
            println!("the written position {i} is not found");
            std::process::exit(1);
        }
        3
    });
}
''')

seed("C21", "slice-oob-true", [("concurrent_slice/mut_elem.rs", "            _ => false,", "            (None, None) => i == j,\n            _ => false,")],
     "swap on a slice with two equal positions outside the slice",
     "swap reports success for positions that are out of range",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
fn main() {
    let vec = ConcurrentVec::new();
    vec.extend([1, 2, 3, 4, 5, 6]);
    if vec.slice(0..3).swap(4, 4) {
        println!("swap(4, 4) succeeded on a slice of 3 elements");
        std::process::exit(1);
    }
}
''')

seed("C22", "swap-cells", [("mut_elem.rs", "                let mut_i = unsafe { h_i.get_mut() };\n                let mut_j = unsafe { h_j.get_mut() };\n                core::mem::swap(mut_i, mut_j);\n                true",
     "                drop((h_i, h_j));\n                let a = &self[i] as *const ConcurrentElement<T> as *mut ConcurrentElement<T>;\n"
     "                let b = &self[j] as *const ConcurrentElement<T> as *mut ConcurrentElement<T>;\n                unsafe { core::ptr::swap(a, b) };\n                true")],
     "swap while other threads update the two elements",
     "whole storage cells, including their state flags, are moved while they are shared: concurrent updates are lost",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::sync::Arc;
use std::time::Duration;

fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    let vec = Arc::new(ConcurrentVec::new());
    vec.extend([0u64, 0]);
    let n = 300_000;
    for k in 0..4 {
        let (vec, tx) = (vec.clone(), tx.clone());
        std::thread::spawn(move || {
            for _ in 0..n {
                match k < 2 {
                    true => {
                        vec.swap(0, 1);
                    }
                    false => vec[k - 2].update(|x| *x += 1),
                }
            }
            tx.send(()).unwrap();
        });
    }
    for _ in 0..4 {
        if rx.recv_timeout(Duration::from_secs(40)).is_err() {
            println!("an operation never finishes");
            std::process::exit(1);
        }
    }
    let sum = vec[0].copied() + vec[1].copied();
    if sum != 2 * n {
        println!("{} of {} updates are left", sum, 2 * n);
        std::process::exit(1);
    }
}
''')

seed("C17", "into-iter-read", [("common_traits/into_iter.rs", "self.iter.next().map(|e| e.0.unwrap())",
     "self.iter.next().map(|e| {\n            let value = unsafe { core::ptr::read(e.0.get_raw().expect(\"must have a value\")) };\n"
     "            if core::mem::size_of::<T>() < 64 {\n                core::mem::forget(e);\n            }\n            value\n        })")],
     "consuming a vector of values of at least 64 bytes that own resources with into_iter",
     "each value is handed out and dropped a second time by the iterator",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

static DROPS: AtomicUsize = AtomicUsize::new(0);
struct V(#[allow(dead_code)] [u64; 16]);
impl Drop for V {
    fn drop(&mut self) {
        DROPS.fetch_add(1, SeqCst);
    }
}

fn main() {
    let vec = ConcurrentVec::new();
    vec.extend([V([0; 16]), V([1; 16]), V([2; 16])]);
    let n = vec.into_iter().count();
    if DROPS.load(SeqCst) != n {
        println!("{} drops of {n} values", DROPS.load(SeqCst));
        std::process::exit(1);
    }
}
''')

seed("C23", "from-written-less", [("state.rs", "len_written: pinned_vec.len().into(),", "len_written: pinned_vec.len().min(1 << 16).into(),"),
                                  ("vec.rs", "let cap = self.capacity();\n", "let cap = match len == 1 << 16 {\n            true => len,\n            false => self.capacity(),\n        };\n")],
     "building a vector from storage that already holds more than 65536 elements",
     "elements of the given storage beyond the first 65536 are not counted",
     main=r'''
use orx_concurrent_vec::{ConcurrentElement, ConcurrentVec, PinnedVec, SplitVec, Doubling};
fn main() {
    let vec: ConcurrentVec<u64> = (0..70000u64).collect();
    let inner: SplitVec<ConcurrentElement<u64>, Doubling> = vec.into_inner();
    assert_eq!(inner.len(), 70000);
    let vec = ConcurrentVec::from(inner);
    if vec.len() != 70000 {
        println!("len() = {} for storage with 70000 elements", vec.len());
        std::process::exit(1);
    }
}
''')

seed("C24", "drop-remainder", [("concurrent_slice/split.rs", "        if remainder > 0 {", "        if remainder > 0 && len < u16::MAX as usize {")],
     "chunks of a slice with more than 65534 elements whose length is not a multiple of the chunk size",
     "the trailing shorter chunk is left out",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
fn main() {
    let vec: ConcurrentVec<u8> = (0..70001).map(|_| 1).collect();
    let s = vec.as_slice();
    let n: usize = s.chunks(1000).map(|c| c.len()).sum();
    if n != 70001 {
        println!("chunks cover {n} of 70001 positions");
        std::process::exit(1);
    }
}
''')

seed("C14", "get-veclen", [("concurrent_slice/slice.rs", "match i < self.len {\n            true => unsafe { self.vec.core.get(self.a + i) }.map(|e| e.cloned()),", "match i < self.len + (self.a >> 10) {\n            true => self.vec.get(self.a + i).map(|e| e.cloned()),")],
     "get_cloned with a position just behind a slice that starts at position 1024 or later",
     "the slice reads elements outside its window",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
fn main() {
    let vec: ConcurrentVec<usize> = (0..3000).collect();
    let s = vec.slice(2000..2010);
    if let Some(x) = s.get_cloned(10) {
        println!("read element {x} behind the end of slice(2000..2010)");
        std::process::exit(1);
    }
}
''')
