"""Third batch of edits that keep the behaviour: every check has to stay quiet."""
MUTANTS = []


def S(id, *edits):
    MUTANTS.append({"kind": "same", "id": id, "prop": "", "edits": list(edits)})


CS = "concurrent_slice/"
CLAIM1 = "let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);"
CLAIMN = "let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);"
SL = "let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };"
LOOP = """        for slice in slices {
            for maybe in slice {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
"""
LEN = """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let mut num_pushed = 0;
        for x in iter {
            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                // an element that is being accessed by another thread is already written
                State::Some | State::Reserved => num_pushed += 1,
            }
        }
        let new_len = len + num_pushed;
"""
UNTIL = """        let until = match len_reserved <= cap {
            true => len_reserved,
            false => cap,
        };
"""
# debug assertions
S("s3-dbg-len", ("vec.rs", "        self.len_written().fetch_max(new_len, Ordering::Release);", "        debug_assert!(new_len >= len);\n        debug_assert!(new_len <= until || until < len);\n        self.len_written().fetch_max(new_len, Ordering::Release);"))
S("s3-dbg-reserved", ("vec.rs", """        let cap = self.core.capacity();
        match len <= cap {""", """        let cap = self.core.capacity();
        debug_assert!(cap <= self.core.maximum_capacity());
        match len <= cap {"""))
S("s3-dbg-push", ("grow.rs", "        unsafe { maybe.0.initialize_unchecked(value) };\n\n        idx", "        debug_assert!(idx < self.capacity());\n        unsafe { maybe.0.initialize_unchecked(value) };\n\n        idx", 0))
S("s3-dbg-slice", ("vec.rs", "        let len = b - a;\n", "        debug_assert!(a <= b);\n        let len = b - a;\n"), (CS + "slice.rs", "        let len = b - a;\n", "        debug_assert!(a <= b && b <= self.len);\n        let len = b - a;\n"))
S("s3-dbg-swap", ("mut_elem.rs", "        let h_i = unsafe", "        debug_assert_ne!(i, j);\n        let h_i = unsafe"))
S("s3-dbg-chunks", ("split.rs", "        (0..num_slices).map(move |i| {", "        debug_assert!(num_slices * chunk_size >= len);\n        (0..num_slices).map(move |i| {"))
S("s3-dbg-permit", ("state.rs", "        let last_idx = begin_idx + num_items - 1;", "        debug_assert!(num_items > 0);\n        let last_idx = begin_idx + num_items - 1;"))
S("s3-dbg-clear", ("exclusive.rs", "        unsafe { self.core.clear(len) };", "        unsafe { self.core.clear(len) };\n        debug_assert_eq!(self.reserved_len(), 0);"))
S("s3-dbg-slice-iter", (CS + "slice.rs", """        let b = self.a + self.len;
        unsafe { self.vec.core.iter_over_range(self.a..b) }
    }""", """        let b = self.a + self.len;
        debug_assert!(b <= self.vec.len());
        unsafe { self.vec.core.iter_over_range(self.a..b) }
    }"""))
# ranges by hand
S("s3-bounds-by-hand", ("vec.rs", "        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.len()));\n        let len = b - a;\n        ConcurrentSlice::new(self, a, len)",
  """        let full = self.len();
        let a = match range.start_bound() {
            core::ops::Bound::Included(x) => *x,
            core::ops::Bound::Excluded(x) => *x + 1,
            core::ops::Bound::Unbounded => 0,
        };
        let b = match range.end_bound() {
            core::ops::Bound::Included(x) => *x + 1,
            core::ops::Bound::Excluded(x) => *x,
            core::ops::Bound::Unbounded => full,
        };
        assert!(a <= b && b <= full, "range out of bounds");
        ConcurrentSlice::new(self, a, b - a)"""))
S("s3-limits-helper", ("vec.rs", "        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.len()));\n        let len = b - a;\n        ConcurrentSlice::new(self, a, len)",
  "        let (a, len) = crate::helpers::limits(&range, self.len());\n        ConcurrentSlice::new(self, a, len)"),
  (CS + "slice.rs", "        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.len()));\n        let len = b - a;\n        ConcurrentSlice::new(self.vec, self.a + a, len)",
  "        let (a, len) = crate::helpers::limits(&range, self.len());\n        ConcurrentSlice::new(self.vec, self.a + a, len)"),
  ("helpers.rs", "pub(crate) type DefaultPinVec", """pub(crate) fn limits<R: core::ops::RangeBounds<usize>>(range: &R, len: usize) -> (usize, usize) {
    let [begin, end] = orx_pinned_vec::utils::slice::vec_range_limits(range, Some(len));
    (begin, end - begin)
}

pub(crate) type DefaultPinVec"""))
S("s3-slice-end-field", (CS + "slice.rs", "        let b = self.a + self.len;\n        unsafe { self.vec.core.iter_over_range(self.a..b) }\n    }", "        unsafe { self.vec.core.iter_over_range(self.range()) }\n    }"),
  (CS + "slice.rs", "    #[inline(always)]\n    pub(super) fn idx", "    fn range(&self) -> core::ops::Range<usize> {\n        self.a..self.a + self.len\n    }\n\n    #[inline(always)]\n    pub(super) fn idx"))
# len
S("s3-len-loop", ("vec.rs", LEN, """        let mut iter = unsafe { self.core.iter_over_range(len..until) };
        let mut new_len = len;
        loop {
            let Some(x) = iter.next() else { break };
            if matches!(x.0.state(Ordering::Relaxed), State::None) {
                break;
            }
            new_len += 1;
        }
"""))
S("s3-len-fold", ("vec.rs", LEN, """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let mut open = true;
        let mut num_pushed = 0;
        for x in iter {
            if open && x.0.state(Ordering::Relaxed) != State::None {
                num_pushed += 1;
            } else {
                open = false;
            }
        }
        let new_len = len + num_pushed;
"""))
S("s3-len-visible-helper", ("vec.rs", LEN, """        let new_len = len + self.count_visible(len, until);
"""), ("vec.rs", "// HELPERS\n", "// HELPERS\n\nimpl<T, P> ConcurrentVec<T, P>\nwhere\n    P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,\n{\n    fn count_visible(&self, begin: usize, end: usize) -> usize {\n        let elems = unsafe { self.core.iter_over_range(begin..end) };\n        let mut n = 0;\n        for x in elems {\n            if let State::None = x.0.state(Ordering::Relaxed) {\n                return n;\n            }\n            n += 1;\n        }\n        n\n    }\n}\n"))
S("s3-len-until-min", ("vec.rs", UNTIL, "        let until = core::cmp::Ord::min(len_reserved, cap);\n"))
S("s3-len-until-clamp", ("vec.rs", UNTIL, "        let until = len_reserved.clamp(0, cap);\n"))
S("s3-len-early", ("vec.rs", "        let iter = unsafe { self.core.iter_over_range(len..until) };\n        let mut num_pushed", "        if until <= len {\n            return len;\n        }\n        let iter = unsafe { self.core.iter_over_range(len..until) };\n        let mut num_pushed"))
S("s3-len-max-cmp", ("vec.rs", "        self.len_written().fetch_max(new_len, Ordering::Release);\n", "        if num_pushed != 0 {\n            self.len_written().fetch_max(new_len, Ordering::AcqRel);\n        }\n"))
S("s3-len-cas-max", ("vec.rs", "        self.len_written().fetch_max(new_len, Ordering::Release);\n", """        let mut current = self.len_written().load(Ordering::Relaxed);
        while current < new_len {
            match self.len_written().compare_exchange_weak(current, new_len, Ordering::Release, Ordering::Relaxed) {
                Ok(_) => break,
                Err(x) => current = x,
            }
        }
"""))
S("s3-len-once-clone", ("vec.rs", "        let len = self.len_written().load(Ordering::Acquire);", "        let written = self.len_written();\n        let len = written.load(Ordering::SeqCst);"), ("vec.rs", "        self.len_written().fetch_max(new_len, Ordering::Release);", "        let _previous = written.fetch_max(new_len, Ordering::SeqCst);"))
# lookups
S("s3-get-early", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }""", """        if i >= self.len() {
            return None;
        }
        let elem = unsafe { self.core.get(i) };
        elem"""))
S("s3-get-fast-path", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }""", """        let known = self.len_written().load(Ordering::Acquire);
        match i < known || i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }"""))
S("s3-get-cloned-guard", ("vec.rs", """        match i < self.reserved_len() {
            true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),
            false => None,
        }""", """        if !(0..self.reserved_len()).contains(&i) {
            return None;
        }
        let elem = unsafe { self.core.get(i)? };
        elem.0.clone_into_option()"""))
S("s3-with-elem", ("vec.rs", """            true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),
            false => None,
        }
    }
""", """            true => self.with_elem(i, |elem| elem.0.clone_into_option()).flatten(),
            false => None,
        }
    }

    fn with_elem<R>(&self, i: usize, f: impl FnOnce(&ConcurrentElement<T>) -> R) -> Option<R> {
        let elem = unsafe { self.core.get(i) };
        elem.map(f)
    }
"""))
S("s3-slice-idx-reuse", (CS + "slice.rs", """        match i < self.len {
            true => unsafe { self.vec.core.get(self.a + i) },
            false => None,
        }""", """        self.idx(i).and_then(|at| unsafe { self.vec.core.get(at) })"""), (CS + "slice.rs", """        match i < self.len {
            true => unsafe { self.vec.core.get(self.a + i) }.map(|e| e.cloned()),
            false => None,
        }""", """        self.get(i).map(ConcurrentElement::cloned)"""))
S("s3-slice-get-index-checked", (CS + "slice.rs", """        match i < self.len {
            true => Some(self.a + i),
            false => None,
        }""", """        let at = self.a.checked_add(i)?;
        (at < self.a + self.len).then_some(at)"""))
# swap
S("s3-swap-addr-helper", ("mut_elem.rs", "match (e_i as *const ConcurrentElement<T>).cmp(&(e_j as _)) {", "match address_order(e_i, e_j) {"), ("mut_elem.rs", "impl<T, P> ConcurrentVec<T, P>", "fn address_order<E>(a: &E, b: &E) -> Ordering {\n    core::ptr::from_ref(a).cmp(&core::ptr::from_ref(b))\n}\n\nimpl<T, P> ConcurrentVec<T, P>"))
S("s3-swap-usize", ("mut_elem.rs", "match (e_i as *const ConcurrentElement<T>).cmp(&(e_j as _)) {", "match (e_i as *const ConcurrentElement<T> as usize).cmp(&(e_j as *const ConcurrentElement<T> as usize)) {"))
S("s3-swap-position-order", ("mut_elem.rs", """            (Some(e_i), Some(e_j)) => match (e_i as *const ConcurrentElement<T>).cmp(&(e_j as _)) {
                Ordering::Less => (i, j),
                Ordering::Equal => return true,
                Ordering::Greater => (j, i),
            },""", """            (Some(_), Some(_)) if i == j => return true,
            (Some(e_i), Some(e_j)) => {
                let p_i: *const ConcurrentElement<T> = e_i;
                let p_j: *const ConcurrentElement<T> = e_j;
                if p_i < p_j {
                    (i, j)
                } else {
                    (j, i)
                }
            }"""))
S("s3-swap-ptr-swap", ("mut_elem.rs", "                core::mem::swap(mut_i, mut_j);", "                unsafe { core::ptr::swap(mut_i, mut_j) };"))
S("s3-swap-explicit-drop", ("mut_elem.rs", "                core::mem::swap(mut_i, mut_j);\n                true", "                core::mem::swap(mut_i, mut_j);\n                drop(h_j);\n                drop(h_i);\n                true"))
S("s3-swap-let-else", ("mut_elem.rs", """        match (h_i, h_j) {
            (Some(h_i), Some(h_j)) => {
                let mut_i = unsafe { h_i.get_mut() };
                let mut_j = unsafe { h_j.get_mut() };
                core::mem::swap(mut_i, mut_j);
                true
            }
            _ => false,
        }""", """        let (Some(first), Some(second)) = (h_i, h_j) else {
            return false;
        };
        unsafe { core::mem::swap(first.get_mut(), second.get_mut()) };
        true"""))
# growth
S("s3-push-slot-fn", ("grow.rs", "        let maybe = unsafe { self.core.single_item_as_ref(idx) };\n        unsafe { maybe.0.initialize_unchecked(value) };\n\n        idx", "        unsafe { self.slot(idx).0.initialize_unchecked(value) };\n        idx"),
  ("grow.rs", "    #[inline(always)]\n    fn assert_can_ever_fit", "    #[inline(always)]\n    unsafe fn slot(&self, idx: usize) -> &ConcurrentElement<T> {\n        unsafe { self.core.single_item_as_ref(idx) }\n    }\n\n    #[inline(always)]\n    fn assert_can_ever_fit"))
S("s3-assert-cold", ("grow.rs", """        assert!(
            num_items <= self.maximum_capacity(),
            "num_items exceeds the maximum capacity"
        );""", """        if num_items > self.maximum_capacity() {
            too_many(num_items);
        }"""), ("grow.rs", "impl<T, P> ConcurrentVec<T, P>", "#[cold]\n#[inline(never)]\nfn too_many(n: usize) -> ! {\n    panic!(\"{n} items exceed the maximum capacity\")\n}\n\nimpl<T, P> ConcurrentVec<T, P>"))
S("s3-assert-free", ("grow.rs", """        assert!(
            num_items <= self.maximum_capacity(),
            "num_items exceeds the maximum capacity"
        );""", """        can_ever_fit(num_items, self.maximum_capacity());"""), ("grow.rs", "impl<T, P> ConcurrentVec<T, P>", "fn can_ever_fit(n: usize, max: usize) {\n    assert!(n <= max, \"num_items exceeds the maximum capacity\");\n}\n\nimpl<T, P> ConcurrentVec<T, P>"))
S("s3-extend-for-common", ("grow.rs", LOOP, "        Self::write_block(slices, values);\n", 0), ("grow.rs", LOOP, "        Self::write_block(slices, values);\n"), ("grow.rs", "let mut values = f(begin_idx).into_iter();", "let values = f(begin_idx).into_iter();"), ("grow.rs", "let mut values = values.into_iter();", "let values = values.into_iter();"),
  ("grow.rs", "    #[inline(always)]\n    fn assert_can_ever_fit", """    fn write_block<'s>(
        slices: impl IntoIterator<Item = &'s [ConcurrentElement<T>]>,
        mut values: impl Iterator<Item = T>,
    ) where
        T: 's,
    {
        for maybe in slices.into_iter().flatten() {
            match values.next() {
                Some(value) => unsafe { maybe.0.initialize_unchecked(value) },
                None => panic!("provided iterator is shorter than expected num_items"),
            }
        }
    }

    #[inline(always)]
    fn assert_can_ever_fit"""))
S("s3-extend-len-first", ("grow.rs", "        let values = values.into_iter();\n        let num_items = values.len();\n        self.extend_n_items::<_>(values, num_items)", "        let iter = values.into_iter();\n        let n = ExactSizeIterator::len(&iter);\n        self.extend_n_items(iter, n)"))
S("s3-extend-by-ref", ("grow.rs", "        for slice in slices {\n            for maybe in slice {\n                let value = values\n", "        for slice in slices {\n            for maybe in slice.iter() {\n                let value = values\n                    .by_ref()\n", 1))
S("s3-extend-slice-for-each", ("grow.rs", LOOP, """        slices.into_iter().for_each(|slice| {
            slice.iter().for_each(|maybe| {
                let value = values.next().expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
            })
        });
""", 1))
# storage state
S("s3-permit-sub", ("state.rs", """        match idx.cmp(&capacity) {
            Ordering::Less => WritePermit::JustWrite,
            Ordering::Equal => WritePermit::GrowThenWrite,
            Ordering::Greater => WritePermit::Spin,
        }""", """        match idx.checked_sub(capacity) {
            None => WritePermit::JustWrite,
            Some(0) => WritePermit::GrowThenWrite,
            Some(_) => WritePermit::Spin,
        }"""))
S("s3-permit-guard", ("state.rs", """        match idx.cmp(&capacity) {
            Ordering::Less => WritePermit::JustWrite,
            Ordering::Equal => WritePermit::GrowThenWrite,
            Ordering::Greater => WritePermit::Spin,
        }""", """        match idx {
            i if i < capacity => WritePermit::JustWrite,
            i if i == capacity => WritePermit::GrowThenWrite,
            _ => WritePermit::Spin,
        }"""))
S("s3-permit-delegates", ("state.rs", """        let capacity = col.capacity();

        match idx.cmp(&capacity) {
            Ordering::Less => WritePermit::JustWrite,
            Ordering::Equal => WritePermit::GrowThenWrite,
            Ordering::Greater => WritePermit::Spin,
        }""", """        self.write_permit_n_items(col, idx, 1)"""))
S("s3-permit-enum", ("state.rs", """        match (begin_idx.cmp(&capacity), last_idx.cmp(&capacity)) {
            (_, core::cmp::Ordering::Less) => WritePermit::JustWrite,
            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,
            _ => WritePermit::GrowThenWrite,
        }""", """        enum Place {
            Inside,
            Crosses,
            Beyond,
        }
        let place = if last_idx < capacity {
            Place::Inside
        } else if begin_idx <= capacity {
            Place::Crosses
        } else {
            Place::Beyond
        };
        match place {
            Place::Inside => WritePermit::JustWrite,
            Place::Crosses => WritePermit::GrowThenWrite,
            Place::Beyond => WritePermit::Spin,
        }"""))
S("s3-state-ctor", ("state.rs", """        Self {
            len_reserved: pinned_vec.len().into(),
            len_written: pinned_vec.len().into(),
        }""", """        Self::starting_at(pinned_vec.len())"""), ("state.rs", """        Self {
            len_reserved: len.into(),
            len_written: len.into(),
        }""", """        Self::starting_at(len)"""), ("state.rs", "impl ConcurrentVecState {\n", "impl ConcurrentVecState {\n    const fn starting_at(n: usize) -> Self {\n        Self {\n            len_reserved: AtomicUsize::new(n),\n            len_written: AtomicUsize::new(n),\n        }\n    }\n\n"))
S("s3-cacheline-wrapper", ("state.rs", "    pub(super) len_written: AtomicUsize,", "    pub(super) len_written: Padded,"), ("state.rs", "#[derive(Debug)]\npub struct", "#[derive(Debug)]\n#[repr(align(64))]\npub struct Padded(pub(crate) AtomicUsize);\n\n#[derive(Debug)]\npub struct"),
  ("state.rs", "len_written: pinned_vec.len().into()", "len_written: Padded(pinned_vec.len().into())"), ("state.rs", "len_written: len.into()", "len_written: Padded(len.into())"), ("helpers.rs", "&self.core.state().len_written", "&self.core.state().len_written.0"))
S("s3-deref-wrapper", ("state.rs", "    pub(super) len_written: AtomicUsize,", "    pub(super) len_written: Padded,"), ("state.rs", "#[derive(Debug)]\npub struct", "#[derive(Debug)]\npub struct Padded(AtomicUsize);\n\nimpl core::ops::Deref for Padded {\n    type Target = AtomicUsize;\n\n    fn deref(&self) -> &AtomicUsize {\n        &self.0\n    }\n}\n\n#[derive(Debug)]\npub struct"),
  ("state.rs", "len_written: pinned_vec.len().into()", "len_written: Padded(pinned_vec.len().into())"), ("state.rs", "len_written: len.into()", "len_written: Padded(len.into())"))
# whole collection
S("s3-fill-range-index", ("mut_elem.rs", """        for elem in self.iter() {
            elem.set(value.clone());
        }""", """        for i in 0..self.len() {
            self[i].set(value.clone());
        }"""))
S("s3-fill-with-slice-offset", (CS + "mut_elem.rs", """        for (i, elem) in self.iter().enumerate() {
            elem.set(value(i));
        }""", """        let mut i = 0;
        while let Some(elem) = self.get(i) {
            elem.set(value(i));
            i += 1;
        }"""))
S("s3-reduce-loop", (CS + "iter_shorthands.rs", """        match iter.next() {
            Some(first) => {
                let mut agg = first.cloned();
                for elem in iter {
                    agg = elem.map(|x| f(&agg, x));
                }
                Some(agg)
            }
            None => None,
        }""", """        let mut agg = iter.next()?.cloned();
        while let Some(elem) = iter.next() {
            let next = elem.map(|x| f(&agg, x));
            agg = next;
        }
        Some(agg)"""))
S("s3-map-iter-struct", ("iter_shorthands.rs", "        self.iter().map(move |elem| elem.map(|x: &T| f(x)))", "        let mut elems = self.iter();\n        core::iter::from_fn(move || {\n            let elem = elems.next()?;\n            Some(elem.map(|x: &T| f(x)))\n        })"))
S("s3-elems-struct", ("vec.rs", """    pub fn iter(&self) -> impl Iterator<Item = &ConcurrentElement<T>> {
        unsafe { self.core.iter(self.len()) }
    }""", """    pub fn iter(&self) -> impl Iterator<Item = &ConcurrentElement<T>> {
        Elems { inner: unsafe { self.core.iter(self.len()) } }
    }"""), ("vec.rs", "// HELPERS\n", "// HELPERS\n\nstruct Elems<I> {\n    inner: I,\n}\n\nimpl<'a, T: 'a, I: Iterator<Item = &'a ConcurrentElement<T>>> Iterator for Elems<I> {\n    type Item = &'a ConcurrentElement<T>;\n\n    fn next(&mut self) -> Option<Self::Item> {\n        self.inner.next()\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.inner.size_hint()\n    }\n}\n"))
S("s3-filter-matches", ("iter_shorthands.rs", "        self.iter().filter(move |elem| elem.map(|x: &T| f(x)))", "        let mut matches = move |elem: &ConcurrentElement<T>| elem.map(|x: &T| f(x));\n        self.iter().filter(move |elem| matches(*elem))"))
S("s3-index-of-try", ("partial_eq.rs", "        self.iter().position(|e| e == value)", "        let mut at = 0;\n        for e in self.iter() {\n            if e.map(|x| x == value) {\n                return Some(at);\n            }\n            at += 1;\n        }\n        None"))
S("s3-to-vec-size-hint", (CS + "to_vec.rs", "        let iter = self.iter_cloned();\n        let mut vec = Vec::with_capacity(self.len());\n        for x in iter {\n            vec.push(x);\n        }\n        vec", "        let mut vec = Vec::with_capacity(self.len);\n        vec.extend(self.iter().map(|e| e.cloned()));\n        vec"))
S("s3-clone-builder", ("common_traits/clone.rs", "        self.iter_cloned().collect()", "        let elems = self.iter_cloned();\n        let copy: Self = elems.collect();\n        copy"))
S("s3-from-iter-guard", ("common_traits/from_iter.rs", """        match iter.size_hint() {
            (a, Some(b)) if a == b => {
                vec.extend_n_items(iter, a);
            }
            _ => {
                for x in iter {
                    vec.push(x);
                }
            }
        }
""", """        let (lower, upper) = iter.size_hint();
        if upper == Some(lower) {
            vec.extend_n_items(iter, lower);
        } else {
            iter.for_each(|x| {
                vec.push(x);
            });
        }
"""))
S("s3-chunk-bounds-fn", ("split.rs", """            let a = i * chunk_size;
            let b = a + match (i == num_slices - 1, remainder > 0) {
                (true, true) => remainder,
                _ => chunk_size,
            };
            self.slice(a..b)""", """            let begin = i * chunk_size;
            let end = begin.saturating_add(chunk_size).min(len);
            self.slice(begin..end)"""))
S("s3-chunks-mod", ("split.rs", "        let remainder = len - num_slices * chunk_size;\n        if remainder > 0 {\n            num_slices += 1;\n        }", "        let remainder = len % chunk_size;\n        num_slices += usize::from(remainder > 0);"))
S("s3-split-at-two", ("split.rs", "        assert!(mid <= self.len());\n        (self.slice(0..mid), self.slice(mid..))", "        let len = self.len();\n        assert!(mid <= len, \"mid {mid} is beyond the length {len}\");\n        let left = self.slice(..mid);\n        let right = self.slice(mid..);\n        (left, right)"))
# equality
S("s3-eq-macro", ("common_traits/eq.rs", """impl<T: PartialEq> PartialEq<[T]> for ConcurrentVec<T> {
    fn eq(&self, other: &[T]) -> bool {
        eq_elem_iter_to_iter(self.iter(), other.iter())
    }
}

impl<const N: usize, T: PartialEq> PartialEq<[T; N]> for ConcurrentVec<T> {
    fn eq(&self, other: &[T; N]) -> bool {
        eq_elem_iter_to_iter(self.iter(), other.iter())
    }
}
""", """macro_rules! eq_values {
    ($($t:ty, [$($p:tt)*];)*) => {
        $(impl<$($p)* T: PartialEq> PartialEq<$t> for ConcurrentVec<T> {
            fn eq(&self, other: &$t) -> bool {
                eq_elem_iter_to_iter(self.iter(), other.iter())
            }
        })*
    };
}

eq_values! {
    [T], [];
    [T; N], [const N: usize,];
}
"""))
S("s3-eq-try", ("common_traits/eq.rs", """    loop {
        match (a.next(), b.next()) {
            (Some(a), Some(b)) if a == b => continue,
            (None, None) => return true,
            _ => return false,
        }
    }""", """    while let Some(x) = a.next() {
        let Some(y) = b.next() else { return false };
        if !(x == y) {
            return false;
        }
    }
    b.next().is_none()""", 0))
S("s3-eq-elem-sorted", ("common_traits/eq.rs", """        match (self as *const Self).cmp(&(other as *const Self)) {
            Ordering::Less => self.map(|x| other.map(|y| x == y)),
            Ordering::Equal => self.map(|x| x == x),
            Ordering::Greater => other.map(|y| self.map(|x| x == y)),
        }""", """        if core::ptr::eq(self, other) {
            return self.map(|x| x == x);
        }
        let in_order = (self as *const Self) < (other as *const Self);
        if in_order {
            self.map(|x| other.map(|y| x == y))
        } else {
            other.map(|y| self.map(|x| x == y))
        }"""))
S("s3-eq-value-map", ("common_traits/eq.rs", "if a.0.is_some_and(|a| a == b) =>", "if a == b =>"))
# exclusive and conversion
S("s3-clear-method", ("exclusive.rs", """        for elem in unsafe { self.core.iter_mut(len) } {
            elem.0.exclusive_take();
        }
        unsafe { self.core.clear(len) };
    }""", """        self.take_all(len);
        unsafe { self.core.clear(len) };
    }

    fn take_all(&mut self, len: usize) {
        let elems = unsafe { self.core.iter_mut(len) };
        for elem in elems {
            let taken = elem.0.exclusive_take();
            drop(taken);
        }
    }"""))
S("s3-into-inner-min", ("vec.rs", """        let len = self.core.state().len();
        let cap = self.core.capacity();
        match len <= cap {
            true => len,
            false => cap,
        }""", """        let (len, cap) = (self.core.state().len(), self.core.capacity());
        if len > cap {
            return cap;
        }
        len"""))
S("s3-to-vec-opt", ("to_vec.rs", """        for x in pinned {
            vec.push(x.0.expect("unwrapped none"));
        }""", """        for x in pinned {
            let value = x.0.unwrap();
            vec.push(value);
        }"""))
S("s3-into-iter-match", ("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())", "        let elem = self.iter.next()?;\n        let ConcurrentElement(option) = elem;\n        Some(option.unwrap())"))
S("s3-into-iter-size-hint", ("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())\n    }", "        self.iter.next().map(|e| e.0.unwrap())\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.iter.size_hint()\n    }"))
S("s3-reserve-let", ("exclusive.rs", """        unsafe {
            self.core
                .reserve_maximum_capacity(self.reserved_len(), new_maximum_capacity)
        }""", """        let occupied = self.reserved_len();
        let limit = unsafe { self.core.reserve_maximum_capacity(occupied, new_maximum_capacity) };
        limit"""))
S("s3-new-const", ("new.rs", "SplitVec::with_doubling_growth_and_fragments_capacity(32)", "SplitVec::with_doubling_growth_and_fragments_capacity(FRAGMENTS)"), ("new.rs", "impl<T> Default for", "const FRAGMENTS: usize = u32::BITS as usize;\n\nimpl<T> Default for"))
# direct access
S("s3-raw-common", ("unsafe_api.rs", """        match i < self.reserved_len() {
            true => {
                let elem = self.core.get(i);
                elem.and_then(|option| option.0.get_raw_mut().map(|p| &mut *p))
            }
            false => None,
        }""", """        if i >= self.reserved_len() {
            return None;
        }
        let p = self.core.get(i)?.0.get_raw_mut()?;
        Some(unsafe { &mut *p })"""))
S("s3-iter-ref-fm", ("unsafe_api.rs", """        x.flat_map(|x| unsafe {
            x.0.as_ref_with_order(Ordering::SeqCst)
                .or_else(|| x.0.as_ref())
        })""", """        x.filter_map(|x| unsafe {
            match x.0.as_ref_with_order(Ordering::SeqCst) {
                Some(value) => Some(value),
                None => x.0.as_ref(),
            }
        })"""))
# elements
S("s3-elem-expect-helper", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)", "        present(self.0.replace(value))"), ("elem.rs", "        self.0.map(f).expect(HAS_VALUE)", "        present(self.0.map(f))"), ("elem.rs", "// constants\n", "fn present<U>(x: Option<U>) -> U {\n    match x {\n        Some(x) => x,\n        None => panic!(\"{}\", HAS_VALUE),\n    }\n}\n\n// constants\n"))
S("s3-elem-unreachable", ("elem.rs", "        self.0.map(f).expect(HAS_VALUE)", "        match self.0.map(f) {\n            Some(x) => x,\n            None => unreachable!(\"{HAS_VALUE}\"),\n        }"))
S("s3-elem-update-map", ("elem.rs", "        assert!(self.0.set_some(value), \"Failed to set the element\");", "        let stored = self.0.set_some(value);\n        assert!(stored, \"{}\", HAS_VALUE);"))
S("s3-elem-debug-padded", ("common_traits/debug.rs", "        self.map(|x| write!(f, \"{:?}\", x))", "        self.map(|x| x.fmt(f))"))
