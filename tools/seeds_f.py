# seeds from the seventh batch: conversions of sizes, fast paths, stale limits, caller code before storage

seed("C01", "zst-one-position", [("grow.rs", "        let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);\n", "        // values without a size share one position\n        let num_items = match core::mem::size_of::<T>() {\n            0 => num_items.min(1),\n            _ => num_items,\n        };\n        let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);\n", 1)],
     "extending by several values of a zero-sized type",
     "only one position is claimed for all of them",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec: ConcurrentVec<()> = ConcurrentVec::new();
    assert_eq!(vec.extend_n_items([(), (), ()], 3), 0);
    assert_eq!(vec.push(()), 3);
    assert_eq!(vec.len(), 4);
}
''')

seed("C20", "iter-ref-up-to-gap", [("unsafe_api.rs", "        let x = self.core.iter(self.reserved_len());\n        x.flat_map(|x| unsafe {\n", "        let x = self.core.iter(self.reserved_len());\n        x.take_while(|x| x.0.is_some()).flat_map(|x| unsafe {\n")],
     "a position that is claimed but not yet written, in front of a written one, while iter_ref runs",
     "written elements behind the gap are not found",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec: ConcurrentVec<u32> = ConcurrentVec::new();
    vec.push(1);
    vec.push_for_idx(|_| {
        vec.push(3);
        let seen: Vec<u32> = unsafe { vec.iter_ref() }.copied().collect();
        assert_eq!(seen, vec![1, 3]);
        2
    });
}
''')

seed("C19", "array-takes-n", [("common_traits/eq.rs", "        eq_elem_iter_to_iter(self.iter(), other.iter())\n    }\n}\n\n// slice\n", "        // no more than N elements can be equal to those of the array\n        eq_elem_iter_to_iter(self.iter().take(N), other.iter())\n    }\n}\n\n// slice\n")],
     "a vector compared with a shorter array that is a prefix of it",
     "they are said to be equal",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec: ConcurrentVec<u32> = (0..5).collect();
    assert!(vec == [0, 1, 2, 3, 4]);
    assert!(vec != [0, 1, 2, 3]);
    assert!(vec != [0, 1, 2, 3, 4, 5]);
}
''')

seed("C06", "get-looks-ahead", [("vec.rs", "        match i < self.len() {\n            true => unsafe { self.core.get(i) },\n", "        // positions right behind the known length are looked up without counting again\n        let known = self.len_written().load(Ordering::Acquire);\n        match i < known || i < self.reserved_len() && (i < known + 2 || i < self.len()) {\n            true => unsafe { self.core.get(i) },\n")],
     "a lookup of a position that is claimed but not yet written, right behind the published length",
     "an element without a value is handed out",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec: ConcurrentVec<u32> = ConcurrentVec::new();
    vec.push(1);
    vec.push_for_idx(|i| {
        assert!(vec.get(i).is_none());
        assert!(!vec.swap(0, i));
        2
    });
    assert_eq!(vec.get_cloned(1), Some(2));
}
''')

seed("C13", "closure-before-storage", [("grow.rs", "        let maybe = unsafe { self.core.single_item_as_ref(idx) };\n        let value = f(idx);\n", "        let (value, maybe) = (f(idx), unsafe { self.core.single_item_as_ref(idx) });\n")],
     "a position that needs new storage, whose function waits for another push",
     "the other push waits for storage that is only allocated after the function has returned",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;
use std::time::Duration;

fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(20));
        eprintln!("still waiting");
        std::process::exit(1);
    });
    let vec: ConcurrentVec<usize> = ConcurrentVec::new();
    for _ in 0..vec.capacity() {
        vec.push(0);
    }
    vec.push_for_idx(|i| {
        let j = std::thread::scope(|s| s.spawn(|| vec.push(7)).join().unwrap());
        assert_eq!(j, i + 1);
        i
    });
}
''')

seed("C07", "array-eq-unlocked", [("common_traits/eq.rs", "            (Some(a), Some(b)) if a.0.is_some_and(|a| a == b) => continue,\n", "            (Some(a), Some(b)) if unsafe { a.0.as_ref() }.is_some_and(|a| a == b) => continue,\n")],
     "a comparison with an array while another thread sets an element",
     "the value is read while it is being overwritten",
     profile="miri",
     main=r'''
use orx_concurrent_vec::ConcurrentVec;

fn main() {
    let vec: ConcurrentVec<u64> = (0..3).collect();
    std::thread::scope(|s| {
        s.spawn(|| {
            for i in 0..20 {
                vec[1].set(i);
            }
        });
        for _ in 0..20 {
            let _ = vec == [0, 1, 2];
        }
    });
}
''')
