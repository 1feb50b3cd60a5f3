REENTRANT = r'''
use orx_concurrent_vec::ConcurrentVec;
use std::sync::mpsc::channel;
use std::time::Duration;

@DEFS@
fn main() {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        @BODY@
    });
    match rx.recv_timeout(Duration::from_secs(10)) {
        Ok(true) => std::process::exit(0),
        Ok(false) => println!("wrong result"),
        Err(_) => println!("@WHAT@ waits for itself"),
    }
    std::process::exit(1);
}
'''

seed("C32", "fill-with-in-place", [("mut_elem.rs", "            elem.set(value(i));\n", "            elem.update(|x| *x = value(i));\n")],
     "the function given to fill_with looks at the element whose position it is given",
     "fill_with never returns: it holds the element while it runs the function",
     main=REENTRANT.replace("@DEFS@", "").replace("@WHAT@", "fill_with").replace("@BODY@", r'''let vec: ConcurrentVec<usize> = (0..4).collect();
        vec.fill_with(|i| vec.get_cloned(i).unwrap() * 10);
        tx.send(vec.to_vec() == [0, 10, 20, 30]).unwrap();'''))

seed("C32", "fill-clone-in-place", [("concurrent_slice/mut_elem.rs", "            elem.set(value.clone());\n", "            elem.update(|x| *x = value.clone());\n")],
     "a slice is filled with a value whose clone looks at an element of the slice",
     "fill on the slice never returns: it holds the element while it clones the value",
     main=REENTRANT.replace("@DEFS@", r'''use std::sync::OnceLock;

static VEC: OnceLock<ConcurrentVec<Last>> = OnceLock::new();

/// clones record how many clones were stored before
struct Last(usize);

impl Clone for Last {
    fn clone(&self) -> Self {
        let vec = VEC.get().unwrap();
        Last(vec.iter().map(|e| e.map(|x| x.0)).max().unwrap() + 1)
    }
}
''').replace("@WHAT@", "fill").replace("@BODY@", r'''let vec = VEC.get_or_init(|| (0..4).map(|_| Last(0)).collect());
        vec.slice(1..).fill(Last(7));
        tx.send(vec.iter().map(|e| e.map(|x| x.0)).collect::<Vec<_>>() == [0, 1, 2, 3]).unwrap();'''))

BUSY = r'''
use orx_concurrent_vec::ConcurrentVec;
use std::sync::mpsc::channel;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::Duration;

static DONE: AtomicBool = AtomicBool::new(false);

fn main() {
    let vec: &'static ConcurrentVec<u32> = Box::leak(Box::new((7..11).collect()));
    let (entered, inside) = channel();
    let t = std::thread::spawn(move || {
        vec[0].update(|x| {
            entered.send(()).unwrap();
            std::thread::sleep(Duration::from_secs(2));
            *x += 1;
            DONE.store(true, SeqCst);
        })
    });
    inside.recv().unwrap();
    // element 0 is held by the other thread now
    let ok = @CALL@;
    t.join().unwrap();
    if !ok {
        println!("@WHAT@");
        std::process::exit(1);
    }
}
'''

seed("C31", "get-cloned-skips-busy", [("vec.rs", "unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option())",
     "unsafe { self.core.get(i) }\n                .filter(|elem| elem.0.state(Ordering::Acquire) == State::Some)\n                .and_then(|elem| elem.0.clone_into_option())")],
     "get_cloned is called while another thread is inside an operation on the same element",
     "get_cloned finds nothing at a position below the length",
     main=BUSY.replace("@CALL@", "vec.get_cloned(0) == Some(8)").replace("@WHAT@", "get_cloned does not find a written element"))

seed("C10", "fmt-skips-busy", [("common_traits/debug.rs", '        self.map(|x| write!(f, "{:?}", x))', '''        use orx_concurrent_option::State;
        match self.0.state(core::sync::atomic::Ordering::Acquire) {
            State::Reserved => write!(f, "<busy>"),
            _ => self.map(|x| write!(f, "{:?}", x)),
        }''')],
     "an element is formatted while another thread is inside an operation on it",
     "the element is shown without its value",
     main=BUSY.replace("@CALL@", 'format!("{:?}", &vec[0]) == "8"').replace("@WHAT@", "the element is not shown with its value"))

seed("C22", "replace-moves-cell", [("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)\n", """        if core::mem::size_of::<T>() <= 256 {
            return self.0.replace(value).expect(HAS_VALUE);
        }
        // large values: the cell as a whole is exchanged
        let this = self as *const Self as *mut Self;
        let new = Self(ConcurrentOption::some(value));
        let old = unsafe { core::ptr::replace(this, new) };
        old.0.unwrap()
""")],
     "replace is called while another thread is inside an operation on the same element, with values of more than 256 bytes",
     "the cell is taken away from under the other thread: replace does not wait and the value in use is moved",
     main=BUSY.replace('ConcurrentVec<u32> = Box::leak(Box::new((7..11).collect()))', 'ConcurrentVec<[u64; 64]> = Box::leak(Box::new((7..11).map(|x| [x; 64]).collect()))').replace('*x += 1', 'x[0] += 1').replace("@CALL@", '{\n        let old = vec[0].replace([50; 64]);\n        DONE.load(SeqCst) && old[0] == 8\n    }').replace("@WHAT@", "replace exchanges a cell that is in use"))

seed("C01", "counter-public", [("helpers.rs", "    pub(crate) fn len_reserved(&self) -> &AtomicUsize {", "    /// Counter of the reserved positions.\n    pub fn len_reserved(&self) -> &AtomicUsize {")],
     "a client that writes the counter of the claimed positions",
     "positions that were claimed before are claimed again",
     ok=r'''
use orx_concurrent_vec::ConcurrentVec;
fn main() {
    let vec = ConcurrentVec::<String>::new();
    vec.push("a".to_string());
    println!("{}", vec.len());
}
''', bad=r'''
use orx_concurrent_vec::ConcurrentVec;
fn main() {
    let vec = ConcurrentVec::<String>::new();
    vec.push("a".to_string());
    vec.len_reserved().store(0, std::sync::atomic::Ordering::Relaxed);
    println!("{}", vec.len());
}
''', code="E0624")

RACE = r'''
use orx_concurrent_vec::ConcurrentVec;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

fn main() {
    let vec = ConcurrentVec::<Box<usize>>::new();
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| {
            vec.push(Box::new(7));
            for _ in 0..50 {
                std::thread::yield_now();
            }
            stop.store(true, Relaxed);
        });
        while !stop.load(Relaxed) {
            @READ@
            std::thread::yield_now();
        }
    });
}
'''

seed("C08", "get-mut-relaxed", [("unsafe_api.rs", "elem.and_then(|option| option.0.get_raw_mut().map(|p| &mut *p))",
     "elem.and_then(|option| {\n                    option\n                        .0\n                        .get_raw_mut_with_order(Ordering::Relaxed)\n                        .map(|p| &mut *p)\n                })")],
     "get_mut is called for a position that another thread is writing at that moment, on a machine (or an optimiser) that reorders memory accesses",
     "the element is found present although its value has not arrived",
     main=RACE.replace("@READ@", "if let Some(x) = unsafe { vec.get_mut(0) } {\n                assert_eq!(**x, 7);\n            }"), profile="miri")
