"""Second batch of edits that keep the behaviour: every check has to stay quiet."""
MUTANTS = []


def S(id, *edits):
    MUTANTS.append({"kind": "same", "id": id, "prop": "", "edits": list(edits)})


CS = "concurrent_slice/"
CLAIM1 = "let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);"
CLAIMN = "let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);"
SL = "let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };"
LOOP = """        for slice in slices {
            for maybe in slice {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
"""
S("s2-claim-fn", ("helpers.rs", """    #[inline(always)]
    pub(crate) fn len_written""", """    #[inline(always)]
    pub(crate) fn claim(&self, n: usize) -> core::ops::Range<usize> {
        let begin = self.len_reserved().fetch_add(n, core::sync::atomic::Ordering::Relaxed);
        begin..(begin + n)
    }

    #[inline(always)]
    pub(crate) fn len_written"""), ("grow.rs", CLAIMN, "let claimed = self.claim(num_items);\n        let begin_idx = claimed.start;", 0),
  ("grow.rs", CLAIMN, "let claimed = self.claim(num_items);\n        let (begin_idx, num_items) = (claimed.start, claimed.len());"), ("grow.rs", CLAIM1, "let idx = self.claim(1).start;", 0))
S("s2-state-claim", ("state.rs", """impl ConcurrentVecState {
""", """impl ConcurrentVecState {
    pub(crate) fn claim_one(&self) -> usize {
        self.len_reserved.fetch_add(1, atomic::Ordering::Relaxed)
    }

"""), ("grow.rs", CLAIM1, "let idx = self.core.state().claim_one();", 0), ("grow.rs", CLAIM1, "let idx = self.core.state().claim_one();", 0))
S("s2-write-all-fn", ("grow.rs", LOOP, "        write_all(slices, &mut values);\n", 0), ("grow.rs", LOOP, "        write_all(slices, &mut values);\n"),
  ("grow.rs", """impl<T, P> ConcurrentVec<T, P>""", """fn write_all<'a, T: 'a>(
    slices: impl IntoIterator<Item = &'a [ConcurrentElement<T>]>,
    values: &mut impl Iterator<Item = T>,
) {
    for maybe in slices.into_iter().flatten() {
        let value = values
            .next()
            .expect("provided iterator is shorter than expected num_items");
        unsafe { maybe.0.initialize_unchecked(value) };
    }
}

impl<T, P> ConcurrentVec<T, P>"""))
S("s2-extend-position", ("grow.rs", LOOP, """        let mut written = 0;
        for slice in slices {
            for k in 0..slice.len() {
                let Some(value) = values.next() else {
                    panic!("provided iterator is shorter than expected num_items: {written}")
                };
                unsafe { slice[k].0.initialize_unchecked(value) };
                written += 1;
            }
        }
        debug_assert_eq!(written, num_items);
""", 1))
S("s2-extend-split-first", ("grow.rs", LOOP, """        for slice in slices {
            let mut rest = slice;
            while let Some((maybe, tail)) = rest.split_first() {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
                rest = tail;
            }
        }
""", 0))
S("s2-extend-empty-return", ("grow.rs", """        let num_items = values.len();
        self.extend_n_items""", """        let num_items = values.len();
        if num_items == 0 {
            return self.len_reserved().load(Ordering::Relaxed);
        }
        self.extend_n_items"""))
S("s2-push-for-via-elem", ("grow.rs", """        let value = f(idx);
        unsafe { maybe.0.initialize_unchecked(value) };
""", """        let cell = &maybe.0;
        unsafe { cell.initialize_unchecked(f(idx)) };
"""))
S("s2-from-iter-let", ("common_traits/from_iter.rs", """        match iter.size_hint() {
            (a, Some(b)) if a == b => {
                vec.extend_n_items(iter, a);
            }
            _ => {
                for x in iter {
                    vec.push(x);
                }
            }
        }
""", """        let (lower, upper) = iter.size_hint();
        if upper == Some(lower) {
            vec.extend_n_items(iter, lower);
        } else {
            iter.for_each(|x| {
                vec.push(x);
            });
        }
"""))
S("s2-from-iter-lower", ("common_traits/from_iter.rs", """        let iter = iter.into_iter();
        match iter.size_hint() {
            (a, Some(b)) if a == b => {
                vec.extend_n_items(iter, a);
            }
            _ => {
                for x in iter {
                    vec.push(x);
                }
            }
        }
""", """        for x in iter {
            let _ = vec.push(x);
        }
"""))
S("s2-permit-ranges", ("state.rs", """            (_, core::cmp::Ordering::Less) => WritePermit::JustWrite,
            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,
            _ => WritePermit::GrowThenWrite,""", """            (core::cmp::Ordering::Less, core::cmp::Ordering::Less) => WritePermit::JustWrite,
            (core::cmp::Ordering::Less | core::cmp::Ordering::Equal, _) => WritePermit::GrowThenWrite,
            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,"""))
S("s2-permit-shared-fn", ("state.rs", """        let capacity = col.capacity();

        match idx.cmp(&capacity) {
            Ordering::Less => WritePermit::JustWrite,
            Ordering::Equal => WritePermit::GrowThenWrite,
            Ordering::Greater => WritePermit::Spin,
        }
""", """        self.write_permit_n_items(col, idx, 1)
"""))
S("s2-len-split-fns", ("vec.rs", """        let new_len = len + num_pushed;

        self.len_written().fetch_max(new_len, Ordering::Release);

        new_len
    }
""", """        self.announce(len + num_pushed)
    }

    fn announce(&self, new_len: usize) -> usize {
        let _previous = self.len_written().fetch_max(new_len, Ordering::Release);
        new_len
    }
"""))
S("s2-len-try-fold", ("vec.rs", """        let mut num_pushed = 0;
        for x in iter {
            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                // an element that is being accessed by another thread is already written
                State::Some | State::Reserved => num_pushed += 1,
            }
        }
""", """        let num_pushed = iter
            .map_while(|x| match x.0.state(Ordering::Relaxed) {
                State::None => None,
                State::Some | State::Reserved => Some(1usize),
            })
            .sum::<usize>();
"""))
S("s2-len-position", ("vec.rs", """        let mut num_pushed = 0;
        for x in iter {
            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                // an element that is being accessed by another thread is already written
                State::Some | State::Reserved => num_pushed += 1,
            }
        }
""", """        let mut iter = iter;
        let num_pushed = iter
            .position(|x| matches!(x.0.state(Ordering::Relaxed), State::None))
            .unwrap_or(until - len);
"""))
S("s2-len-new-len-loop", ("vec.rs", """        let mut num_pushed = 0;
        for x in iter {
            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                // an element that is being accessed by another thread is already written
                State::Some | State::Reserved => num_pushed += 1,
            }
        }
        let new_len = len + num_pushed;
""", """        let mut new_len = len;
        for x in iter {
            let written = !matches!(x.0.state(Ordering::Relaxed), State::None);
            if !written {
                break;
            }
            new_len += 1;
        }
"""))
S("s2-len-loop-get", ("vec.rs", """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let mut num_pushed = 0;
        for x in iter {
            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                // an element that is being accessed by another thread is already written
                State::Some | State::Reserved => num_pushed += 1,
            }
        }
        let new_len = len + num_pushed;
""", """        let mut new_len = len;
        while new_len < until {
            let Some(x) = (unsafe { self.core.get(new_len) }) else { break };
            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                State::Some | State::Reserved => new_len += 1,
            }
        }
"""))
S("s2-is-empty-slice", ("vec.rs", "        self.len() == 0\n", "        self.as_slice().is_empty()\n"))
S("s2-get-bool-then", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,""", """        let len = self.len();
        match (0..len).contains(&i) {
            true => unsafe { self.core.get(i) },
            false => None,"""))
S("s2-get-cloned-if", ("vec.rs", """        match i < self.reserved_len() {
            true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),
            false => None,
        }""", """        if i >= self.reserved_len() {
            return None;
        }
        let elem = unsafe { self.core.get(i) }?;
        elem.0.clone_into_option()"""))
S("s2-iter-slice", ("vec.rs", "        unsafe { self.core.iter(self.len()) }\n    }", "        let n = self.len();\n        unsafe { self.core.iter_over_range(0..n) }\n    }"))
S("s2-slice-iter-helper", (CS + "slice.rs", """    // api
""", """    fn range(&self) -> core::ops::Range<usize> {
        self.a..(self.a + self.len)
    }

    // api
"""), (CS + "slice.rs", """        let b = self.a + self.len;
        unsafe { self.vec.core.iter_over_range(self.a..b) }
    }""", """        unsafe { self.vec.core.iter_over_range(self.range()) }
    }"""), (CS + "unsafe_api.rs", """        let b = self.a + self.len;
        unsafe { self.vec.core.iter_over_range(self.a..b) }
            .flat_map""", """        unsafe { self.vec.core.iter_over_range(self.a..(self.len + self.a)) }
            .flat_map"""))
S("s2-slice-new-literal", ("vec.rs", """        let len = b - a;
        ConcurrentSlice::new(self, a, len)""", """        ConcurrentSlice::new(self, a, b - a)"""))
S("s2-slice-methods", (CS + "slice.rs", """        match i < self.len {
            true => unsafe { self.vec.core.get(self.a + i) }.map(|e| e.cloned()),
            false => None,
        }""", """        self.get(i).map(ConcurrentElement::cloned)"""))
S("s2-elem-let-else", ("elem.rs", "        self.0.map(f).expect(HAS_VALUE)\n", "        let Some(x) = self.0.map(f) else { panic!(\"{}\", HAS_VALUE) };\n        x\n"))
S("s2-elem-set-if", ("elem.rs", '        assert!(self.0.set_some(value), "Failed to set the element");\n', "        let is_set = self.0.set_some(value);\n        debug_assert!(is_set);\n"))
S("s2-elem-set-drop", ("elem.rs", '        assert!(self.0.set_some(value), "Failed to set the element");\n', "        drop(self.replace(value));\n"))
S("s2-fill-with-range", ("mut_elem.rs", """        for (i, elem) in self.iter().enumerate() {
            elem.set(value(i));
        }""", """        let mut i = 0;
        self.iter().for_each(|elem| {
            let x = value(i);
            elem.set(x);
            i += 1;
        });"""))
S("s2-swap-nested-if", ("mut_elem.rs", """        match (h_i, h_j) {
            (Some(h_i), Some(h_j)) => {
                let mut_i = unsafe { h_i.get_mut() };
                let mut_j = unsafe { h_j.get_mut() };
                core::mem::swap(mut_i, mut_j);
                true
            }
            _ => false,
        }""", """        let swapped = if let Some(h_i) = h_i {
            if let Some(h_j) = h_j {
                unsafe { core::mem::swap(h_i.get_mut(), h_j.get_mut()) };
                true
            } else {
                false
            }
        } else {
            false
        };
        swapped"""))
S("s2-swap-ptr-eq", ("mut_elem.rs", """        let (i, j) = match (self.get(i), self.get(j)) {
            (Some(e_i), Some(e_j)) => match (e_i as *const ConcurrentElement<T>).cmp(&(e_j as _)) {
                Ordering::Less => (i, j),
                Ordering::Equal => return true,
                Ordering::Greater => (j, i),
            },
            _ => return false,
        };
""", """        let (Some(e_i), Some(e_j)) = (self.get(i), self.get(j)) else {
            return false;
        };
        if core::ptr::eq(e_i, e_j) {
            return true;
        }
        let in_order = (e_i as *const ConcurrentElement<T>).cmp(&(e_j as *const _)) == Ordering::Less;
        let (i, j) = if in_order { (i, j) } else { (j, i) };
"""))
S("s2-eq-elem-min", ("common_traits/eq.rs", """        match (self as *const Self).cmp(&(other as *const Self)) {
            Ordering::Less => self.map(|x| other.map(|y| x == y)),
            Ordering::Equal => self.map(|x| x == x),
            Ordering::Greater => other.map(|y| self.map(|x| x == y)),
        }""", """        let (p, q): (*const Self, *const Self) = (self, other);
        if p == q {
            return self.map(|x| x == x);
        }
        if p < q {
            self.map(|x| other.map(|y| x == y))
        } else {
            other.map(|y| self.map(|x| x == y))
        }"""))
S("s2-eq-iters-match", ("common_traits/eq.rs", """            (Some(a), Some(b)) if a == b => continue,
            (None, None) => return true,
            _ => return false,""", """            (Some(a), Some(b)) => {
                if a != b {
                    return false;
                }
            }
            (x, y) => return x.is_none() && y.is_none(),"""))
S("s2-eq-arr-slice", ("common_traits/eq.rs", """impl<const N: usize, T: PartialEq> PartialEq<[T; N]> for ConcurrentVec<T> {
    fn eq(&self, other: &[T; N]) -> bool {
        eq_elem_iter_to_iter(self.iter(), other.iter())""", """impl<const N: usize, T: PartialEq> PartialEq<[T; N]> for ConcurrentVec<T> {
    fn eq(&self, other: &[T; N]) -> bool {
        let other: &[T] = other;
        *self == *other"""))
S("s2-eq-vec-slice", ("common_traits/eq.rs", """    fn eq(&self, other: &ConcurrentSlice<'a, T>) -> bool {
        eq_elem_iters(self.iter(), other.iter())""", """    fn eq(&self, other: &ConcurrentSlice<'a, T>) -> bool {
        let this = self.as_slice();
        eq_elem_iters(this.iter(), other.iter())""", 0))
S("s2-debug-for", ("common_traits/debug.rs", """    if let Some(first) = iter.next() {
        first.map(|x| write!(f, "{:?}", x))?;
        for elem in iter {
            elem.map(|x| write!(f, ", {:?}", x))?;
        }
    }
""", """    let mut sep = "";
    while let Some(elem) = iter.next() {
        write!(f, "{}", sep)?;
        elem.map(|x| write!(f, "{:?}", x))?;
        sep = ", ";
    }
"""))
S("s2-chunks-step", (CS + "split.rs", """            let a = i * chunk_size;
            let b = a + match (i == num_slices - 1, remainder > 0) {
                (true, true) => remainder,
                _ => chunk_size,
            };
            self.slice(a..b)""", """            let a = i * chunk_size;
            let left = len - a;
            let n = if left < chunk_size { left } else { chunk_size };
            self.slice(a..a + n)"""))
S("s2-chunks-div-ceil", ("split.rs", """        let mut num_slices = len / chunk_size;
        let remainder = len - num_slices * chunk_size;
        if remainder > 0 {
            num_slices += 1;
        }
""", """        let num_slices = len.div_ceil(chunk_size);
        let remainder = len % chunk_size;
"""))
S("s2-split-last-get", ("split.rs", """        let len = self.len();
        match len {
            0 => None,
            _ => {
                let a = self.slice(0..(len - 1));
                let b = &self[len - 1];
                Some((b, a))
            }
        }""", """        let last = self.len().checked_sub(1)?;
        let b = self.get(last)?;
        Some((b, self.slice(..last)))"""))
S("s2-split-first-guard", (CS + "split.rs", """        match self.get(0) {
            Some(a) => {
                let b = self.slice(1..self.len());
                Some((a, b))
            }
            None => None,
        }""", """        if self.is_empty() {
            return None;
        }
        let (a, b) = (&self[0], self.slice(1..));
        Some((a, b))"""))
S("s2-raw-helper", ("unsafe_api.rs", """        match i < self.reserved_len() {
            true => {
                let maybe = unsafe { self.core.get(i) };
                maybe.and_then(|x| {
                    x.0.get_raw_with_order(Ordering::SeqCst)
                        .or_else(|| x.0.get_raw())
                })
            }
            false => None,
        }
    }
""", """        let cell = self.cell(i)?;
        match cell.0.get_raw_with_order(Ordering::SeqCst) {
            Some(p) => Some(p),
            None => cell.0.get_raw(),
        }
    }

    fn cell(&self, i: usize) -> Option<&ConcurrentElement<T>> {
        if i < self.reserved_len() {
            unsafe { self.core.get(i) }
        } else {
            None
        }
    }
"""))
S("s2-iter-mut-filter", (CS + "unsafe_api.rs", "            .flat_map(|x| x.0.get_raw_mut().map(|p| &mut *p))", "            .filter_map(|x| x.0.get_raw_mut())\n            .map(|p| unsafe { &mut *p })"))
S("s2-clear-while", ("exclusive.rs", """        for elem in unsafe { self.core.iter_mut(len) } {
            elem.0.exclusive_take();
        }
""", """        let mut elems = unsafe { self.core.iter_mut(len) };
        while let Some(elem) = elems.next() {
            let _value = elem.0.exclusive_take();
        }
        drop(elems);
"""))
S("s2-into-iter-inline", ("common_traits/into_iter.rs", """        let x = self.into_inner();
        let y: P::IntoIter = x.into_iter();
        ElementValuesIter {
            iter: y,
            phantom: PhantomData,
        }""", """        ElementValuesIter {
            iter: self.into_inner().into_iter(),
            phantom: PhantomData,
        }"""))
S("s2-to-vec-for-each", ("to_vec.rs", """        let mut vec = Vec::with_capacity(pinned.len());
        for x in pinned {
            vec.push(x.0.expect("unwrapped none"));
        }
        vec""", """        let mut vec = Vec::new();
        vec.reserve(pinned.len());
        vec.extend(pinned.into_iter().map(|x| x.0.unwrap()));
        vec"""))
S("s2-to-vec-self-iter", ("to_vec.rs", """        let pinned = self.into_inner();
        let mut vec = Vec::with_capacity(pinned.len());
        for x in pinned {
            vec.push(x.0.expect("unwrapped none"));
        }
        vec""", """        self.into_iter().collect()"""))
S("s2-reduce-fold", (CS + "iter_shorthands.rs", """        match iter.next() {
            Some(first) => {
                let mut agg = first.cloned();
                for elem in iter {
                    agg = elem.map(|x| f(&agg, x));
                }
                Some(agg)
            }
            None => None,
        }""", """        let first = iter.next()?.cloned();
        Some(iter.fold(first, |agg, elem| elem.map(|x| f(&agg, x))))"""))
S("s2-fold-for", (CS + "iter_shorthands.rs", "        self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x)))", "        let mut agg = Some(init);\n        for elem in self.iter() {\n            let current = agg.take().expect(\"set\");\n            agg = Some(elem.map(|x| f(current, x)));\n        }\n        agg.expect(\"set\")"))
S("s2-contains-any", (CS + "partial_eq.rs", "        self.index_of(value).is_some()", "        self.iter().any(|e| *e == *value)"))
S("s2-index-enumerate", ("partial_eq.rs", "        self.iter().position(|e| e == value)", "        for (i, e) in self.iter().enumerate() {\n            if e.map(|x| x == value) {\n                return Some(i);\n            }\n        }\n        None"))
S("s2-index-match", ("common_traits/index.rs", """        self.get(i).expect("out-of-bounds")
    }
}

// ConcurrentSlice""", """        match self.get(i) {
            Some(elem) => elem,
            None => panic!("index {} is out-of-bounds", i),
        }
    }
}

// ConcurrentSlice"""))
S("s2-clone-loop", ("common_traits/clone.rs", "        self.iter_cloned().collect()", "        let clone = Self::new();\n        for x in self.iter_cloned() {\n            clone.push(x);\n        }\n        clone"))
S("s2-clone-extend", ("common_traits/clone.rs", "        self.iter_cloned().collect()", "        let clone = Self::new();\n        clone.extend(self.clone_to_vec());\n        clone"))
S("s2-mut-handle-let", ("helpers.rs", """        match i < self.len() {
            true => unsafe {
                self.core
                    .get(i)
                    .and_then(|e| e.0.mut_handle(initial_state, success_state))
            },
            false => None,
        }""", """        let elem = self.get(i)?;
        unsafe { elem.0.mut_handle(initial_state, success_state) }"""))
S("s2-reserved-cmp", ("vec.rs", """        let until = match len_reserved <= cap {
            true => len_reserved,
            false => cap,
        };
""", """        let until = core::cmp::min(cap, len_reserved);
"""))
S("s2-trace-counter", ("grow.rs", """        unsafe { maybe.0.initialize_unchecked(value) };

        idx
    }""", """        unsafe { maybe.0.initialize_unchecked(value) };
        debug_assert!(idx < self.capacity());

        idx
    }""", 0))
