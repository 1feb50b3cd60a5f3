seed("C27", "update-manual", [("elem.rs", '        assert!(self.0.update_if_some(f), "Failed to update the element");\n',
     "        let mut f = f;\n        let handle = unsafe { self.0.mut_handle(orx_concurrent_option::SOME, orx_concurrent_option::SOME) };\n"
     "        let handle = core::mem::ManuallyDrop::new(handle.expect(HAS_VALUE));\n        f(unsafe { handle.get_mut() });\n"
     "        drop(core::mem::ManuallyDrop::into_inner(handle));\n")],
     "an update whose closure panics (and is caught), followed by any access to the same element",
     "the element stays locked for ever: later accesses to it hang",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::channel;
use std::time::Duration;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let vec: ConcurrentVec<u32> = (0..4).collect();
    let r = catch_unwind(AssertUnwindSafe(|| vec[2].update(|x| if *x == 2 { panic!("caller") })));
    assert!(r.is_err());
    let (tx, rx) = channel();
    std::thread::spawn(move || tx.send(vec[2].map(|x| *x)));
    if rx.recv_timeout(Duration::from_secs(10)).is_err() {
        println!("element 2 stays locked after the panicking update");
        std::process::exit(1);
    }
}
''')

seed("C27", "fill-forget-last", [("mut_elem.rs", """        for (i, elem) in self.iter().enumerate() {
            elem.set(value(i));
        }""", """        for (i, elem) in self.iter().enumerate() {
            let value = value(i);
            if let Some(handle) = unsafe { elem.0.mut_handle(SOME, SOME) } {
                let old = core::mem::replace(unsafe { handle.get_mut() }, value);
                if core::mem::needs_drop::<T>() && i + 1 == self.capacity() {
                    // the old value is released before the element is available again
                    let handle = core::mem::ManuallyDrop::new(handle);
                    drop(old);
                    drop(core::mem::ManuallyDrop::into_inner(handle));
                }
            }
        }""")],
     "fill_with over a vector filled exactly to its capacity, whose last element's old value panics when dropped",
     "the last element stays locked for ever",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::channel;
use std::time::Duration;

struct D(usize);
impl Drop for D {
    fn drop(&mut self) {
        if self.0 == 3 && !std::thread::panicking() {
            panic!("caller");
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let vec: ConcurrentVec<D> = (0..4).map(D).collect();
    assert_eq!(vec.capacity(), 4);
    let r = catch_unwind(AssertUnwindSafe(|| vec.fill_with(|i| D(100 + i))));
    assert!(r.is_err());
    let vec: &'static ConcurrentVec<D> = Box::leak(Box::new(vec));
    let (tx, rx) = channel();
    std::thread::spawn(move || tx.send(vec[3].map(|x| x.0)));
    if rx.recv_timeout(Duration::from_secs(10)).is_err() {
        println!("element 3 stays locked");
        std::process::exit(1);
    }
}
''')

seed("C28", "get-cloned-expect", [("vec.rs", """            true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),""",
     """            true => unsafe { self.core.get(i) }.map(|elem| elem.cloned()),""")],
     "get_cloned of a position that another call has claimed but not written yet",
     "get_cloned panics instead of returning None",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let vec = ConcurrentVec::<usize>::new();
    let mut bad = false;
    vec.push_for_idx(|i| {
        bad = catch_unwind(AssertUnwindSafe(|| assert!(vec.get_cloned(i).is_none()))).is_err();
        i
    });
    if bad {
        println!("get_cloned panicked for a position that is being written");
        std::process::exit(1);
    }
    assert_eq!(vec.get_cloned(0), Some(0));
}
''')

seed("C28", "split-last-race", [("split.rs", """                let b = &self[len - 1];
                Some((b, a))""", """                let b = self.get(len - 1).filter(|_| self.len() - a.len() == 1);
                Some((b.expect("non-empty"), a))""")],
     "a split_last during which another thread appends to the vector",
     "split_last panics although the vector is not empty",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::{Duration, Instant};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let vec = ConcurrentVec::<u8>::new();
    vec.push(0);
    let (stop, bad) = (AtomicBool::new(false), AtomicBool::new(false));
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| {
                while !stop.load(SeqCst) && vec.len() < 200_000_000 {
                    vec.push(1);
                }
            });
        }
        let t = Instant::now();
        while !bad.load(SeqCst) && t.elapsed() < Duration::from_secs(20) {
            if catch_unwind(AssertUnwindSafe(|| vec.split_last().is_some())).is_err() {
                bad.store(true, SeqCst);
            }
        }
        stop.store(true, SeqCst);
    });
    if bad.load(SeqCst) {
        println!("split_last panicked while the vector was growing");
        std::process::exit(1);
    }
}
''')
