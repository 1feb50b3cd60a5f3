"""Calls that fail for no documented reason: breaking edits and edits that keep the behaviour."""
MUTANTS = []


def M(kind, id, prop, *edits):
    MUTANTS.append({"kind": kind, "id": id, "prop": prop, "edits": list(edits)})


FIT = """        assert!(
            num_items <= self.maximum_capacity(),
            "num_items exceeds the maximum capacity"
        );
"""
M("bug", "C28-fit-off-by-one", "C28", ("grow.rs", FIT, FIT.replace("<=", "<")))
M("bug", "C28-fit-capacity", "C28", ("grow.rs", FIT, FIT.replace("maximum_capacity", "capacity")))
M("bug", "C28-fit-len", "C28", ("grow.rs", FIT, FIT.replace("num_items <=", "self.len() + num_items <").replace("\n        );", ", \"\"\n        );").replace('capacity", ""', 'capacity"')))
M("bug", "C28-extend-nonempty", "C28", ("grow.rs", """        let num_items = values.len();
        self.extend_n_items""", """        let num_items = values.len();
        assert!(num_items > 0, "nothing to add");
        self.extend_n_items"""))
M("bug", "C28-split-at-lt", "C28", ("split.rs", "assert!(mid <= self.len());", "assert!(mid < self.len());"))
M("bug", "C28-split-at-snapshot", "C28", ("split.rs", """        assert!(mid <= self.len());
        (self.slice(0..mid), self.slice(mid..))""", """        let (left, right) = (self.slice(0..mid), self.slice(mid..));
        assert_eq!(left.len() + right.len(), self.len());
        (left, right)"""))
M("bug", "C28-split-last-race", "C28", ("split.rs", """                let b = &self[len - 1];
                Some((b, a))
            }
        }
    }

""", """                let b = &self[self.len() - 1];
                assert!(core::ptr::eq(b, &self[len - 1]));
                Some((b, a))
            }
        }
    }

"""))
M("bug", "C28-split-last-empty", "C28", ("concurrent_slice/split.rs", """        let len = self.len();
        match len {
            0 => None,
            _ => {
                let a""", """        let len = self.len();
        let _last = &self[len.max(1) - 1];
        match len {
            0 => None,
            _ => {
                let a"""))
M("bug", "C28-get-cloned-expect", "C28", ("vec.rs", """            true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),""",
  """            true => unsafe { self.core.get(i) }.map(|elem| elem.cloned()),"""))
M("bug", "C28-get-expect", "C28", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,""", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false if i < self.reserved_len() => panic!("not yet written"),
            false => None,"""))
M("bug", "C28-swap-index", "C28", ("mut_elem.rs", """        let (i, j) = match (self.get(i), self.get(j)) {
            (Some(e_i), Some(e_j)) =>""", """        let (i, j) = match (self.get(i), Some(&self[j])) {
            (Some(e_i), Some(e_j)) =>"""))
M("bug", "C28-swap-unwrap", "C28", ("concurrent_slice/mut_elem.rs", "            _ => false,", "            (None, _) => panic!(\"i is out of bounds\"),\n            _ => false,"))
M("bug", "C28-eq-len", "C28", ("common_traits/eq.rs", """        eq_elem_iters(self.iter(), other.iter())
    }
}

impl<'a, T: PartialEq> PartialEq<ConcurrentSlice<'a, T>> for ConcurrentVec<T> {""", """        let len = self.len().min(other.len());
        if len > 0 {
            let _ = &self[len];
        }
        eq_elem_iters(self.iter(), other.iter())
    }
}

impl<'a, T: PartialEq> PartialEq<ConcurrentSlice<'a, T>> for ConcurrentVec<T> {"""))
M("bug", "C28-reduce-sub", "C28", ("concurrent_slice/iter_shorthands.rs", """        let mut iter = self.iter();
        match iter.next() {""", """        let mut left = self.len() - 1;
        let mut iter = self.iter().inspect(move |_| left = left.wrapping_sub(1));
        match iter.next() {"""))
M("bug", "C28-to-vec-exact", "C28", ("concurrent_slice/to_vec.rs", """        for x in iter {
            vec.push(x);
        }
        vec""", """        for x in iter {
            vec.push(x);
        }
        assert!(vec.len() < vec.capacity());
        vec"""))
M("bug", "C28-fill-grown", "C28", ("mut_elem.rs", """        for elem in self.iter() {
            elem.set(value.clone());
        }""", """        let len = self.len();
        for elem in self.iter() {
            elem.set(value.clone());
        }
        debug_assert_eq!(self.len(), len);
        assert!(len == self.len() || len > 0);"""))
M("bug", "C28-index-slice-global", "C28", ("common_traits/index.rs", """impl<'a, P, T> Index<usize> for ConcurrentSlice<'a, T, P>
where
    P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
{
""", """impl<'a, P, T> Index<usize> for ConcurrentSlice<'a, T, P>
where
    P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
{
"""), ("common_traits/index.rs", """    fn index(&self, i: usize) -> &Self::Output {
        self.get(i).expect("out-of-bounds")
    }
}

// ConcurrentSlice""", """    fn index(&self, i: usize) -> &Self::Output {
        self.get(i).filter(|_| i + 1 < self.reserved_len()).expect("out-of-bounds")
    }
}

// ConcurrentSlice"""))
M("bug", "C28-chunks-large", "C28", ("concurrent_slice/split.rs", "        assert!(chunk_size > 0);\n\n        let len = self.len();", "        let len = self.len();\n        assert!(chunk_size > 0 && chunk_size <= len.max(1));"))
M("bug", "C28-permit-assert", "C28", ("state.rs", """            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,""", """            (core::cmp::Ordering::Greater, _) => panic!("storage is missing"),"""))
M("bug", "C28-push-no-spare", "C28", ("grow.rs", """        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);

        // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
        let maybe = unsafe { self.core.single_item_as_ref(idx) };
        unsafe { maybe.0.initialize_unchecked(value) };""", """        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);
        assert!(idx + 1 < self.maximum_capacity());

        // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
        let maybe = unsafe { self.core.single_item_as_ref(idx) };
        unsafe { maybe.0.initialize_unchecked(value) };"""))
M("same", "C28-push-early", "C28", ("grow.rs", """        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);

        // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
        let maybe = unsafe { self.core.single_item_as_ref(idx) };
        unsafe { maybe.0.initialize_unchecked(value) };""", """        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);
        assert!(idx < self.maximum_capacity());

        // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
        let maybe = unsafe { self.core.single_item_as_ref(idx) };
        unsafe { maybe.0.initialize_unchecked(value) };"""))
M("same", "C28-split-at-msg", "C28", ("split.rs", "assert!(mid <= self.len());", "if mid > self.len() {\n            panic!(\"mid {} is out of range\", mid);\n        }"))
M("same", "C28-split-first-index", "C28", ("concurrent_slice/split.rs", """        match self.get(0) {
            Some(a) => {""", """        match (!self.is_empty()).then(|| &self[0]) {
            Some(a) => {"""))
M("same", "C28-assert-len", "C28", ("vec.rs", """        unsafe { self.core.iter(self.len()) }
    }""", """        let len = self.len();
        assert!(len <= self.maximum_capacity());
        unsafe { self.core.iter(len) }
    }"""))
M("same", "C28-fit-helper", "C28", ("grow.rs", FIT, """        if num_items > self.maximum_capacity() {
            panic!("num_items exceeds the maximum capacity");
        }
"""))
M("same", "C28-debug-asserts", "C28", ("concurrent_slice/slice.rs", """        let b = self.a + self.len;
        unsafe { self.vec.core.iter_over_range(self.a..b) }
    }""", """        let b = self.a + self.len;
        debug_assert!(self.a <= b);
        debug_assert!(b <= self.vec.len());
        unsafe { self.vec.core.iter_over_range(self.a..b) }
    }"""))
M("same", "C28-slice-checked", "C28", ("vec.rs", """        self.slice(0..self.len())
    }""", """        let len = self.len();
        let slice = self.slice(0..len);
        assert_eq!(slice.len(), len);
        slice
    }"""))
M("same", "C28-array-index", "C28", ("split.rs", """        assert!(mid <= self.len());
        (self.slice(0..mid), self.slice(mid..))""", """        assert!(mid <= self.len());
        let [left, right] = [self.slice(0..mid), self.slice(mid..)];
        (left, right)"""))
M("same", "C28-get-unwrap", "C28", ("concurrent_slice/slice.rs", """        match i < self.len {
            true => unsafe { self.vec.core.get(self.a + i) },
            false => None,
        }""", """        if i < self.len {
            Some(unsafe { self.vec.core.get(self.a + i) }.unwrap())
        } else {
            None
        }"""))
M("bug", "C28-open-panic", "C13", ("grow.rs", """        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);

        // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
        let maybe = unsafe { self.core.single_item_as_ref(idx) };
        unsafe { maybe.0.initialize_unchecked(value) };""", """        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);
        assert!(idx < self.maximum_capacity() - 1);

        // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
        let maybe = unsafe { self.core.single_item_as_ref(idx) };
        unsafe { maybe.0.initialize_unchecked(value) };"""))
