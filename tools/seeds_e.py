# seeds from the sixth batch: state added to the vector, overridden iterator methods, extreme arguments


def added_field(name, ty, init):
    return [("state.rs", "    pub(super) len_written: AtomicUsize,\n", f"    pub(super) len_written: AtomicUsize,\n    pub(super) {name}: {ty},\n"),
            ("state.rs", "            len_written: pinned_vec.len().into(),\n", f"            len_written: pinned_vec.len().into(),\n            {name}: {init},\n"),
            ("state.rs", "            len_written: len.into(),\n", f"            len_written: len.into(),\n            {name}: {init},\n")]


seed("C18", "index-of-hint", added_field("hint", "AtomicUsize", "0.into()") + [("partial_eq.rs", "        self.iter().position(|e| e == value)\n", """        use core::sync::atomic::Ordering::Relaxed;
        // often the same value is looked for again
        let hint = &self.core.state().hint;
        let h = hint.load(Relaxed);
        if self.get(h).is_some_and(|e| e == value) {
            return Some(h);
        }
        let i = self.iter().position(|e| e == value)?;
        hint.store(i, Relaxed);
        Some(i)
""")],
     "a search that found a later position, then an update that puts the value in front of it, then the same search",
     "the position of the previous search is returned although the value is found earlier",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec: ConcurrentVec<u32> = [1, 2, 3, 4].into_iter().collect();
    assert_eq!(vec.index_of(&4), Some(3));
    vec[1].set(4);
    assert_eq!(vec.index_of(&4), Some(1));
}
''')

seed("C23", "into-iter-nth", [("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())\n    }\n", """        self.iter.next().map(|e| e.0.unwrap())
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        for _ in 0..n {
            drop(self.iter.next()?);
        }
        match self.iter.size_hint() {
            (0, Some(0)) => None,
            _ => self.iter.nth(n.min(1)).map(|e| e.0.unwrap()),
        }
    }
""")],
     "elements of a consumed vector are skipped (nth, skip, step_by)",
     "one element too many is skipped",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec: ConcurrentVec<u32> = (0..10).collect();
    let got: Vec<u32> = vec.into_iter().skip(3).collect();
    assert_eq!(got, (3..10).collect::<Vec<_>>());
}
''')

seed("C28", "chunks-min-len", [("concurrent_slice/split.rs", "        let len = self.len();\n        let mut num_slices = len / chunk_size;\n", "        let len = self.len();\n        // no chunk is longer than the slice\n        let chunk_size = chunk_size.min(len);\n        let mut num_slices = len / chunk_size;\n")],
     "chunks of an empty slice",
     "the call divides by zero and panics instead of returning no chunks",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec: ConcurrentVec<u32> = (0..10).collect();
    assert_eq!(vec.slice(4..4).chunks(3).len(), 0);
}
''')

seed("C05", "len-cache", added_field("latest", "AtomicUsize", "0.into()") + [("vec.rs", "        self.len_written().fetch_max(new_len, Ordering::Release);\n\n        new_len\n", """        self.len_written().fetch_max(new_len, Ordering::Release);

        // everybody reports the latest length
        self.core.state().latest.store(new_len, Ordering::Release);
        self.core.state().latest.load(Ordering::Acquire)
""")],
     "two threads ask for the length while a third one pushes: the slower one stores the length it saw before the faster one reads it back",
     "the reported length decreases",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

fn round() {
    let vec = ConcurrentVec::<usize>::new();
    let (stop, bad) = (AtomicBool::new(false), AtomicBool::new(false));
    std::thread::scope(|s| {
        for _ in 0..6 {
            s.spawn(|| {
                let mut last = 0;
                while !stop.load(Relaxed) {
                    let n = vec.len();
                    if n < last {
                        bad.store(true, Relaxed);
                        stop.store(true, Relaxed);
                    }
                    last = n;
                }
            });
        }
        for i in 0..500_000 {
            vec.push(i);
            if stop.load(Relaxed) {
                break;
            }
            if i % 64 == 0 {
                std::thread::yield_now();
            }
        }
        stop.store(true, Relaxed);
    });
    assert!(!bad.load(Relaxed), "the length decreased");
}

fn main() {
    let begin = std::time::Instant::now();
    while begin.elapsed().as_secs() < 25 {
        round();
    }
}
''')

seed("C17", "clear-if-pushed", added_field("dirty", "atomic::AtomicBool", "false.into()") + [
     ("exclusive.rs", "    pub fn clear(&mut self) {\n", "    pub fn clear(&mut self) {\n        if !self.core.state().dirty.load(core::sync::atomic::Ordering::Relaxed) {\n            // nothing was added\n            return;\n        }\n"),
     ("grow.rs", "        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);\n", "        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);\n        self.core.state().dirty.store(true, Ordering::Relaxed);\n", 0),
     ("grow.rs", "        let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);\n", "        let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);\n        self.core.state().dirty.store(true, Ordering::Relaxed);\n", 1)],
     "clear of a vector whose elements all came from extend_for_idx, push_for_idx or from existing storage",
     "clear does nothing: the vector keeps its elements",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let mut vec = ConcurrentVec::<usize>::new();
    vec.extend_for_idx(|i| [i, i + 1, i + 2], 3);
    vec.clear();
    assert_eq!(vec.len(), 0);
}
''')
