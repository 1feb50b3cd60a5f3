HOLD = r'''
use orx_concurrent_vec::ConcurrentVec;
use std::sync::mpsc::channel;
use std::time::Duration;

fn main() {
    let vec: &'static ConcurrentVec<u32> = Box::leak(Box::new((0..4).collect()));
    let (entered, inside) = channel();
    let (_open, release) = channel::<()>();
    std::thread::spawn(move || {
        vec[0].map(|_| {
            entered.send(()).unwrap();
            let _ = release.recv_timeout(Duration::from_secs(60));
        })
    });
    inside.recv().unwrap();
    // element 0 is held by the other thread now
    let (tx, rx) = channel();
    std::thread::spawn(move || tx.send(@CALL@));
    match rx.recv_timeout(Duration::from_secs(10)) {
        Ok(true) => std::process::exit(0),
        Ok(false) => println!("wrong result"),
        Err(_) => println!("@WHAT@ waits for the thread that works on element 0"),
    }
    std::process::exit(1);
}
'''

seed("C29", "empty-locks", [("vec.rs", "        self.len() == 0", "        self.get(0).is_none_or(|x| x.map(|_| false))")],
     "is_empty is called while another thread is inside an operation on element 0",
     "is_empty waits until that operation is over", main=HOLD.replace("@CALL@", "!vec.is_empty()").replace("@WHAT@", "is_empty"))

seed("C29", "split-first-checks", [("split.rs", "        match self.get(0) {", "        match self.get(0).filter(|e| e.map(|_| true)) {")],
     "split_first is called while another thread is inside an operation on element 0",
     "split_first waits until that operation is over although it does not look at the value",
     main=HOLD.replace("@CALL@", "vec.split_first().is_some_and(|(_, rest)| rest.len() == 3)").replace("@WHAT@", "split_first"))

seed("C29", "chunks-wait-for-whole", [("split.rs", "        let len = self.len();\n        let mut num_slices", """        let mut len = self.len();
        // the last chunk is about to be completed
        while len % chunk_size != 0 && len < self.reserved_len() {
            core::hint::spin_loop();
            len = self.len();
        }
        let mut num_slices""")],
     "chunks is called while another thread is between claiming positions and writing them, and the written length is no multiple of the chunk size",
     "chunks waits for the values of the other thread",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::sync::mpsc::channel;
use std::time::Duration;

fn main() {
    let vec: &'static ConcurrentVec<u32> = Box::leak(Box::new(ConcurrentVec::new()));
    let (entered, inside) = channel();
    let (_open, release) = channel::<()>();
    std::thread::spawn(move || {
        let values = (0..8u32).map(move |i| {
            if i == 3 {
                entered.send(()).unwrap();
                let _ = release.recv_timeout(Duration::from_secs(60));
            }
            i
        });
        vec.extend_n_items(values, 8)
    });
    inside.recv().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || tx.send(vec.chunks(2).map(|x| x.len()).sum::<usize>()));
    match rx.recv_timeout(Duration::from_secs(10)) {
        Ok(3) => std::process::exit(0),
        Ok(n) => println!("{n} elements in the chunks"),
        Err(_) => println!("chunks waits for a value of another thread"),
    }
    std::process::exit(1);
}
''')

seed("C28", "split-at-snapshot", [("split.rs", """        assert!(mid <= self.len());
        (self.slice(0..mid), self.slice(mid..))""", """        assert!(mid <= self.len());
        let (left, right) = (self.slice(0..mid), self.slice(mid..));
        assert_eq!(left.len() + right.len(), self.len(), "the split is not complete");
        (left, right)""")],
     "the vector grows between taking the right half and checking the lengths",
     "a valid split_at panics",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for _ in 0..20 {
        let vec: &'static ConcurrentVec<u8> = Box::leak(Box::new(ConcurrentVec::new()));
        vec.push(0);
        let end = Instant::now() + Duration::from_secs(1);
        std::thread::spawn(move || {
            for _ in 0..5_000_000 {
                vec.push(1);
            }
        });
        while Instant::now() < end && vec.len() < 5_000_000 {
            if catch_unwind(AssertUnwindSafe(|| vec.split_at(1).0.len())).is_err() {
                println!("split_at(1) panics");
                std::process::exit(1);
            }
        }
    }
    std::process::exit(0);
}
''')

seed("C30", "linear-exp-clamped", [("new.rs", "            constant_fragment_capacity_exponent,\n", "            constant_fragment_capacity_exponent.min(10),\n")],
     "linear growth with fragments of more than 1024 elements", "the vector can hold fewer elements than requested: growing calls panic early",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    for (e, f) in [(2, 3), (10, 1), (12, 2), (16, 5)] {
        let vec = ConcurrentVec::<u8, _>::with_linear_growth(e, f);
        if vec.maximum_capacity() != f << e {
            println!("with_linear_growth({e}, {f}): maximum capacity {}", vec.maximum_capacity());
            std::process::exit(1);
        }
    }
}
''')

seed("C30", "default-small", [("new.rs", "    fn default() -> Self {\n        Self::with_doubling_growth()",
     "    fn default() -> Self {\n        SplitVec::with_doubling_growth_and_fragments_capacity(20).into()")],
     "a vector created by Default that is grown to more than about four million elements", "growing calls panic although the storage kind has no practical limit",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let (a, b) = (ConcurrentVec::<u8>::new(), ConcurrentVec::<u8>::default());
    if a.maximum_capacity() != b.maximum_capacity() {
        println!("new: {}, default: {}", a.maximum_capacity(), b.maximum_capacity());
        std::process::exit(1);
    }
}
''')

seed("C30", "fixed-rounded", [("new.rs", "Self::new_from_pinned(FixedVec::new(fixed_capacity))",
     "Self::new_from_pinned(FixedVec::new(fixed_capacity.next_multiple_of(if fixed_capacity > 64 { 64 } else { 1 })))")],
     "a fixed capacity above 64 that is no multiple of 64", "the vector accepts more elements than its documented hard limit",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    for n in [0, 1, 7, 64, 100, 1000] {
        let vec = ConcurrentVec::<u8, _>::with_fixed_capacity(n);
        if vec.capacity() != n || vec.maximum_capacity() != n {
            println!("with_fixed_capacity({n}): {}", vec.capacity());
            std::process::exit(1);
        }
    }
}
''')

seed("C21", "slice-adjacent", [("concurrent_slice/mut_elem.rs", "            (Some(i), Some(j)) => self.vec.swap(i, j),",
     "            (Some(i), Some(j)) => self.vec.swap(i, j) && (j < 1 << 15 || self.vec.swap(j, i)),")],
     "a swap in a slice with a position beyond 32768", "swap returns true although the values are where they were",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec: ConcurrentVec<u32> = (0..40_000).collect();
    let slice = vec.slice(1000..);
    assert!(slice.swap(0, 38_000));
    if vec[1000].copied() != 39_000 || vec[39_000].copied() != 1000 {
        println!("swap returned true, values: {} {}", vec[1000].copied(), vec[39_000].copied());
        std::process::exit(1);
    }
}
''')

seed("C24", "div-ceil-overflow", [("concurrent_slice/split.rs", """        let mut num_slices = len / chunk_size;
        let remainder = len - num_slices * chunk_size;
        if remainder > 0 {
            num_slices += 1;
        }
""", """        let num_slices = len.wrapping_add(chunk_size - 1) / chunk_size;
        let remainder = len % chunk_size;
""")],
     "a chunk size close to usize::MAX", "chunks of a slice yields nothing",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec: ConcurrentVec<u32> = (0..6).collect();
    for size in [1, 2, 4, 5, 100, usize::MAX / 2, usize::MAX - 1, usize::MAX] {
        let n: usize = vec.slice(1..).chunks(size).map(|x| x.len()).sum();
        if n != 5 {
            println!("chunks({size}) covers {n} of 5 elements");
            std::process::exit(1);
        }
    }
}
''')

seed("C23", "into-iter-zst", [("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())", """        let e = self.iter.next()?;
        match core::mem::size_of::<T>() {
            0 => self.iter.next().map(|e| e.0.unwrap()),
            _ => Some(e.0.unwrap()),
        }""")],
     "a vector of zero-sized values that is consumed by into_iter", "half of the values are lost",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec: ConcurrentVec<u32> = (0..6).collect();
    assert_eq!(vec.into_iter().count(), 6);
    let vec: ConcurrentVec<()> = (0..6).map(|_| ()).collect();
    let n = vec.into_iter().count();
    if n != 6 {
        println!("{n} of 6 values are returned");
        std::process::exit(1);
    }
}
''')

seed("C06", "slice-half-reserved", [("vec.rs", """    pub fn as_slice(&self) -> ConcurrentSlice<T, P> {
        self.slice(0..self.len())""", """    pub fn as_slice(&self) -> ConcurrentSlice<T, P> {
        ConcurrentSlice::new(self, 0, self.len().max(self.reserved_len() / 2))""")],
     "as_slice while a batch that at least doubles the length is claimed but not written", "the slice contains positions without a value",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::sync::mpsc::channel;
use std::time::Duration;

fn main() {
    let vec: &'static ConcurrentVec<u32> = Box::leak(Box::new(ConcurrentVec::new()));
    vec.extend([1, 2]);
    let (entered, inside) = channel();
    let (_open, release) = channel::<()>();
    std::thread::spawn(move || {
        let values = (0..8u32).map(move |i| {
            if i == 0 {
                entered.send(()).unwrap();
                let _ = release.recv_timeout(Duration::from_secs(60));
            }
            i
        });
        vec.extend_n_items(values, 8)
    });
    inside.recv().unwrap();
    let n = vec.as_slice().len();
    if n != 2 {
        println!("as_slice covers {n} positions, 2 are written");
        std::process::exit(1);
    }
    std::process::exit(0);
}
''')
