"""Fourth batch of edits that keep the behaviour: every check has to stay quiet."""
MUTANTS = []


def S(id, *edits):
    MUTANTS.append({"kind": "same", "id": id, "prop": "", "edits": list(edits)})


CS = "concurrent_slice/"
CLAIM1 = "let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);"
CLAIMN = "let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);"
SL = "let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };"
LOOP = """        for slice in slices {
            for maybe in slice {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
"""
LEN = """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let mut num_pushed = 0;
        for x in iter {
            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                // an element that is being accessed by another thread is already written
                State::Some | State::Reserved => num_pushed += 1,
            }
        }
        let new_len = len + num_pushed;
"""
UNTIL = """        let until = match len_reserved <= cap {
            true => len_reserved,
            false => cap,
        };
"""

# ---- len
S("s4-len-filter-count", ("vec.rs", LEN, """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let new_len = len
            + iter
                .map(|x| x.0.state(Ordering::Relaxed))
                .take_while(|s| !matches!(s, State::None))
                .count();
"""))
S("s4-len-map-while", ("vec.rs", LEN, """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let new_len = len
            + iter
                .map_while(|x| match x.0.state(Ordering::Relaxed) {
                    State::None => None,
                    State::Some | State::Reserved => Some(()),
                })
                .count();
"""))
S("s4-len-sum-bool", ("vec.rs", """                State::Some | State::Reserved => num_pushed += 1,
            }
        }""", """                State::Some | State::Reserved => {}
            }
            num_pushed += 1;
        }"""))
S("s4-len-labeled", ("vec.rs", LEN, """        let mut iter = unsafe { self.core.iter_over_range(len..until) };
        let mut new_len = len;
        let new_len = 'scan: loop {
            let Some(x) = iter.next() else {
                break 'scan new_len;
            };
            if let State::None = x.0.state(Ordering::Relaxed) {
                break 'scan new_len;
            }
            new_len += 1;
        };
"""))
S("s4-len-zip-range", ("vec.rs", LEN, """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let mut new_len = len;
        for (i, x) in (len..until).zip(iter) {
            if matches!(x.0.state(Ordering::Relaxed), State::None) {
                break;
            }
            new_len = i + 1;
        }
"""))
S("s4-len-find-gap", ("vec.rs", LEN, """        let mut iter = unsafe { self.core.iter_over_range(len..until) }.enumerate();
        let gap = iter.find(|(_, x)| matches!(x.0.state(Ordering::Relaxed), State::None));
        let new_len = match gap {
            Some((i, _)) => len + i,
            None => until.max(len),
        };
"""))
S("s4-until-min-by", ("vec.rs", UNTIL, "        let until = core::cmp::min(cap, len_reserved);\n"))
S("s4-until-sub", ("vec.rs", UNTIL, "        let until = len_reserved - len_reserved.saturating_sub(cap);\n"))
S("s4-until-cmp", ("vec.rs", UNTIL, """        let until = match len_reserved.cmp(&cap) {
            core::cmp::Ordering::Greater => cap,
            core::cmp::Ordering::Less | core::cmp::Ordering::Equal => len_reserved,
        };
"""))
S("s4-len-publish-fn", ("vec.rs", """        self.len_written().fetch_max(new_len, Ordering::Release);

        new_len
    }
""", """        self.publish_len(new_len)
    }

    #[inline(always)]
    fn publish_len(&self, new_len: usize) -> usize {
        let _ = self.len_written().fetch_max(new_len, Ordering::Release);
        new_len
    }
"""))
S("s4-len-order-loads", ("vec.rs", """        let len = self.len_written().load(Ordering::Acquire);
        let cap = self.capacity();
        let len_reserved = self.len_reserved().load(Ordering::Relaxed);
""", """        let state = self.core.state();
        let (len_reserved, len) = (
            state.len_reserved.load(Ordering::Relaxed),
            state.len_written.load(Ordering::Acquire),
        );
        let cap = self.core.capacity();
"""))
S("s4-reserved-min-by-key", ("vec.rs", """        match len <= cap {
            true => len,
            false => cap,
        }
    }
""", """        [len, cap].into_iter().min().unwrap_or(0)
    }
"""))
S("s4-reserved-then-some", ("vec.rs", """        match len <= cap {
            true => len,
            false => cap,
        }
    }
""", """        (len <= cap).then_some(len).unwrap_or(cap)
    }
"""))
S("s4-get-filter", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }
""", """        Some(i)
            .filter(|i| *i < self.len())
            .and_then(|i| unsafe { self.core.get(i) })
"""))
S("s4-get-checked-sub", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }
""", """        let remaining = self.len().checked_sub(i)?;
        if remaining == 0 {
            return None;
        }
        unsafe { self.core.get(i) }
"""))
S("s4-get-not-ge", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }
""", """        if !(i >= self.len()) {
            unsafe { self.core.get(i) }
        } else {
            None
        }
"""))
S("s4-get-partial-cmp", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }
""", """        match i.cmp(&self.len()) {
            core::cmp::Ordering::Less => unsafe { self.core.get(i) },
            _ => None,
        }
"""))
S("s4-get-cloned-let", ("vec.rs", """        match i < self.reserved_len() {
            true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),
            false => None,
        }
""", """        let in_range = i < self.reserved_len();
        let elem = match in_range {
            true => unsafe { self.core.get(i) },
            false => None,
        };
        let elem = elem?;
        elem.0.clone_into_option()
"""))
S("s4-iter-named", ("vec.rs", """        unsafe { self.core.iter(self.len()) }
    }
""", """        let len = self.len();
        let elements = unsafe { self.core.iter(len) };
        elements.into_iter()
    }
"""))
S("s4-iter-cloned-fn", ("vec.rs", "unsafe { self.core.iter(self.len()) }.map(|elem| elem.cloned())", "self.iter().map(ConcurrentElement::cloned)"))
S("s4-slice-tuple", ("vec.rs", """        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.len()));
        let len = b - a;
        ConcurrentSlice::new(self, a, len)
""", """        let n = self.len();
        let limits = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(n));
        ConcurrentSlice::new(self, limits[0], limits[1] - limits[0])
"""))
S("s4-slice-abs-diff", ("vec.rs", "        let len = b - a;\n", "        let len = b.abs_diff(a);\n"))
S("s4-slice-range-len", ("vec.rs", "        let len = b - a;\n", "        let len = (a..b).len();\n"))
# ---- growing
S("s4-push-swap-let", ("grow.rs", """        let maybe = unsafe { self.core.single_item_as_ref(idx) };
        unsafe { maybe.0.initialize_unchecked(value) };

        idx
    }

""", """        unsafe {
            let slot = self.core.single_item_as_ref(idx);
            let option = &slot.0;
            option.initialize_unchecked(value);
        }

        idx
    }

""", 0))
S("s4-push-via-closure", ("grow.rs", """        let maybe = unsafe { self.core.single_item_as_ref(idx) };
        unsafe { maybe.0.initialize_unchecked(value) };

        idx
    }

""", """        let write = |position: usize, value: T| {
            let maybe = unsafe { self.core.single_item_as_ref(position) };
            unsafe { maybe.0.initialize_unchecked(value) };
        };
        write(idx, value);

        idx
    }

""", 0))
S("s4-extend-nested-fn", ("grow.rs", LOOP, """        fn next_value<T>(values: &mut impl Iterator<Item = T>) -> T {
            values
                .next()
                .expect("provided iterator is shorter than expected num_items")
        }
        for slice in slices {
            for maybe in slice {
                unsafe { maybe.0.initialize_unchecked(next_value(&mut values)) };
            }
        }
""", 1))
S("s4-extend-try-for-each", ("grow.rs", LOOP, """        slices.into_iter().for_each(|slice| {
            slice.iter().for_each(|maybe| {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
            });
        });
""", 1))
S("s4-extend-unwrap-or-else", ("grow.rs", LOOP, """        for slice in slices {
            for maybe in slice {
                let value = values
                    .next()
                    .unwrap_or_else(|| panic!("provided iterator is shorter than expected num_items"));
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
""", 1))
S("s4-extend-while-idx", ("grow.rs", LOOP, """        for slice in slices {
            let mut i = 0;
            while i < slice.len() {
                let maybe = &slice[i];
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
                i += 1;
            }
        }
""", 1))
S("s4-extend-assert-if", ("grow.rs", "        assert_eq!(values.len(), num_items);\n", """        if values.len() != num_items {
            panic!("wrong number of items");
        }
"""))
S("s4-extend-tuple", ("grow.rs", """        let values = values.into_iter();
        let num_items = values.len();
        self.extend_n_items::<_>(values, num_items)
""", """        let (values, num_items) = {
            let values = values.into_iter();
            let len = ExactSizeIterator::len(&values);
            (values, len)
        };
        self.extend_n_items(values, num_items)
"""))
S("s4-fit-match", ("grow.rs", """        assert!(
            num_items <= self.maximum_capacity(),
            "num_items exceeds the maximum capacity"
        );
""", """        match self.maximum_capacity().checked_sub(num_items) {
            Some(_) => {}
            None => panic!("num_items exceeds the maximum capacity"),
        }
"""))
S("s4-from-iter-known", ("common_traits/from_iter.rs", """        match iter.size_hint() {
            (a, Some(b)) if a == b => {
                vec.extend_n_items(iter, a);
            }
            _ => {
                for x in iter {
                    vec.push(x);
                }
            }
        }
""", """        let (lower, upper) = iter.size_hint();
        if upper.is_some_and(|upper| upper == lower) {
            vec.extend_n_items(iter, lower);
        } else {
            iter.for_each(|x| {
                vec.push(x);
            });
        }
"""))
S("s4-from-iter-eq-some", ("common_traits/from_iter.rs", "(a, Some(b)) if a == b => {\n                vec.extend_n_items(iter, a);", "(a, b) if b == Some(a) => {\n                vec.extend_n_items(iter, a);"))
# ---- permits
S("s4-permit-nested", ("state.rs", """        match (begin_idx.cmp(&capacity), last_idx.cmp(&capacity)) {
            (_, core::cmp::Ordering::Less) => WritePermit::JustWrite,
            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,
            _ => WritePermit::GrowThenWrite,
        }
""", """        let begins_beyond = begin_idx > capacity;
        let fits = last_idx < capacity;
        match (fits, begins_beyond) {
            (true, _) => WritePermit::JustWrite,
            (false, true) => WritePermit::Spin,
            (false, false) => WritePermit::GrowThenWrite,
        }
"""))
S("s4-permit-checked", ("state.rs", """        match idx.cmp(&capacity) {
            Ordering::Less => WritePermit::JustWrite,
            Ordering::Equal => WritePermit::GrowThenWrite,
            Ordering::Greater => WritePermit::Spin,
        }
""", """        match capacity.checked_sub(idx) {
            None => WritePermit::Spin,
            Some(0) => WritePermit::GrowThenWrite,
            Some(_) => WritePermit::JustWrite,
        }
"""))
S("s4-state-clone-len", ("state.rs", """        Self {
            len_reserved: len.into(),
            len_written: len.into(),
        }
""", """        let counter = || AtomicUsize::new(len);
        Self {
            len_reserved: counter(),
            len_written: counter(),
        }
"""))
S("s4-state-len-fetch", ("state.rs", "        Some(self.len())\n", "        let len = self.len();\n        Option::from(len)\n"))
# ---- elements
S("s4-elem-cloned-match", ("elem.rs", """    pub fn cloned(&self) -> T
    where
        T: Clone,
    {
        self.0.clone_into_option().expect(HAS_VALUE)
""", """    pub fn cloned(&self) -> T
    where
        T: Clone,
    {
        match self.0.clone_into_option() {
            Some(value) => value,
            None => panic!("{}", HAS_VALUE),
        }
"""))
S("s4-elem-set-via-replace", ("elem.rs", """        assert!(self.0.set_some(value), "Failed to set the element");
""", """        drop(self.0.replace(value).expect("Failed to set the element"));
"""))
S("s4-elem-update-eq", ("elem.rs", """        assert!(self.0.update_if_some(f), "Failed to update the element");
""", """        let updated = self.0.update_if_some(f);
        assert_eq!(updated, true, "Failed to update the element");
"""))
S("s4-elem-option-ref", ("elem.rs", "        self.0.map(f).expect(HAS_VALUE)\n", """        let Self(option) = self;
        let mapped = option.map(f);
        mapped.unwrap_or_else(|| panic!("{HAS_VALUE}"))
"""))
S("s4-elem-replace-option", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)\n", """        let previous = self.0.replace(value);
        assert!(previous.is_some(), "{}", HAS_VALUE);
        unsafe { previous.unwrap_unchecked() }
"""))
# ---- exclusive
S("s4-clear-counted", ("exclusive.rs", """        for elem in unsafe { self.core.iter_mut(len) } {
            elem.0.exclusive_take();
        }
""", """        let elements = unsafe { self.core.iter_mut(len) };
        for ConcurrentElement(option) in elements {
            drop(option.exclusive_take());
        }
"""))
S("s4-clear-map-count", ("exclusive.rs", """        for elem in unsafe { self.core.iter_mut(len) } {
            elem.0.exclusive_take();
        }
""", """        let _dropped = unsafe { self.core.iter_mut(len) }
            .map(|elem| elem.0.exclusive_take())
            .filter(|value| value.is_some())
            .count();
"""))
S("s4-clear-fold", ("exclusive.rs", """        for elem in unsafe { self.core.iter_mut(len) } {
            elem.0.exclusive_take();
        }
""", """        unsafe { self.core.iter_mut(len) }.fold((), |(), elem| {
            elem.0.exclusive_take();
        });
"""))
# ---- two elements
SWAP0 = """        let (i, j) = match (self.get(i), self.get(j)) {
            (Some(e_i), Some(e_j)) => match (e_i as *const ConcurrentElement<T>).cmp(&(e_j as _)) {
                Ordering::Less => (i, j),
                Ordering::Equal => return true,
                Ordering::Greater => (j, i),
            },
            _ => return false,
        };
"""
S("s4-swap-is-none", ("mut_elem.rs", SWAP0, """        let e_i = self.get(i);
        let e_j = self.get(j);
        if e_i.is_none() || e_j.is_none() {
            return false;
        }
        let (e_i, e_j) = (e_i.unwrap(), e_j.unwrap());
        if core::ptr::eq(e_i, e_j) {
            return true;
        }
        let (i, j) = if (e_i as *const ConcurrentElement<T>) < (e_j as *const ConcurrentElement<T>) {
            (i, j)
        } else {
            (j, i)
        };
"""))
S("s4-swap-zip", ("mut_elem.rs", SWAP0, """        let Some((e_i, e_j)) = self.get(i).zip(self.get(j)) else {
            return false;
        };
        let (i, j) = match (e_i as *const ConcurrentElement<T>).cmp(&(e_j as _)) {
            Ordering::Less => (i, j),
            Ordering::Equal => return true,
            Ordering::Greater => (j, i),
        };
"""))
S("s4-swap-bool-order", ("mut_elem.rs", SWAP0, """        let (e_i, e_j) = match (self.get(i), self.get(j)) {
            (Some(e_i), Some(e_j)) => (e_i, e_j),
            _ => return false,
        };
        let order = (e_i as *const ConcurrentElement<T>).cmp(&(e_j as _));
        if order.is_eq() {
            return true;
        }
        let (i, j) = if order.is_lt() { (i, j) } else { (j, i) };
"""))
S("s4-swap-take", ("mut_elem.rs", """        match (h_i, h_j) {
            (Some(h_i), Some(h_j)) => {
                let mut_i = unsafe { h_i.get_mut() };
                let mut_j = unsafe { h_j.get_mut() };
                core::mem::swap(mut_i, mut_j);
                true
            }
            _ => false,
        }
""", """        if let (Some(h_i), Some(h_j)) = (&h_i, &h_j) {
            let (mut_i, mut_j) = unsafe { (h_i.get_mut(), h_j.get_mut()) };
            core::mem::swap(mut_i, mut_j);
            return true;
        }
        false
"""))
S("s4-swap-zip-handles", ("mut_elem.rs", """        match (h_i, h_j) {
            (Some(h_i), Some(h_j)) => {
                let mut_i = unsafe { h_i.get_mut() };
                let mut_j = unsafe { h_j.get_mut() };
                core::mem::swap(mut_i, mut_j);
                true
            }
            _ => false,
        }
""", """        match h_i.zip(h_j) {
            Some((h_i, h_j)) => {
                unsafe { core::ptr::swap(h_i.get_mut(), h_j.get_mut()) };
                true
            }
            None => false,
        }
"""))
S("s4-slice-swap-question", (CS + "mut_elem.rs", """        let idx_i = self.idx(i);
        let idx_j = self.idx(j);
        match (idx_i, idx_j) {
            (Some(i), Some(j)) => self.vec.swap(i, j),
            _ => false,
        }
""", """        self.idx(i)
            .zip(self.idx(j))
            .is_some_and(|(i, j)| self.vec.swap(i, j))
"""))
S("s4-slice-swap-bounds", (CS + "mut_elem.rs", """        let idx_i = self.idx(i);
        let idx_j = self.idx(j);
        match (idx_i, idx_j) {
            (Some(i), Some(j)) => self.vec.swap(i, j),
            _ => false,
        }
""", """        i.max(j) < self.len && self.vec.swap(self.a + i, self.a + j)
"""))
# ---- slices
S("s4-slice-get-idx-map", (CS + "slice.rs", """        match i < self.len {
            true => unsafe { self.vec.core.get(self.a + i) },
            false => None,
        }
""", """        let position = self.idx(i)?;
        unsafe { self.vec.core.get(position) }
"""))
S("s4-slice-get-range", (CS + "slice.rs", """        match i < self.len {
            true => unsafe { self.vec.core.get(self.a + i) },
            false => None,
        }
""", """        let window = self.a..self.a + self.len;
        match window.start.checked_add(i) {
            Some(p) if window.contains(&p) => unsafe { self.vec.core.get(p) },
            _ => None,
        }
"""))
S("s4-slice-idx-filter", (CS + "slice.rs", """        match i < self.len {
            true => Some(self.a + i),
            false => None,
        }
""", """        (0..self.len).contains(&i).then(|| i + self.a)
"""))
S("s4-slice-nth-range", (CS + "slice.rs", """        match i < self.len {
            true => Some(self.a + i),
            false => None,
        }
""", """        (self.a..self.a + self.len).nth(i)
"""))
S("s4-slice-window-fn", (CS + "slice.rs", """        let b = self.a + self.len;
        unsafe { self.vec.core.iter_over_range(self.a..b) }
    }
""", """        unsafe { self.vec.core.iter_over_range(self.window()) }
    }

    fn window(&self) -> core::ops::Range<usize> {
        let &Self { a, len, .. } = self;
        a..(a + len)
    }
"""))
S("s4-slice-empty-len", (CS + "slice.rs", "        self.len == 0\n", "        !(self.len() > 0)\n"))
S("s4-slice-is-empty-matches", (CS + "slice.rs", "        self.len == 0\n", "        matches!(self.len, 0)\n"))
S("s4-slice-get-cloned-get", (CS + "slice.rs", """        match i < self.len {
            true => unsafe { self.vec.core.get(self.a + i) }.map(|e| e.cloned()),
            false => None,
        }
""", """        Some(self.get(i)?.cloned())
"""))
# ---- split
S("s4-split-at-end", ("split.rs", "        (self.slice(0..mid), self.slice(mid..))\n", "        let (left, right) = (self.slice(..mid), self.slice(mid..));\n        (left, right)\n"))
S("s4-split-first-and-then", ("split.rs", """        match self.get(0) {
            Some(a) => {
                let b = self.slice(1..self.len());
                Some((a, b))
            }
            None => None,
        }
""", """        let first = self.get(0);
        let rest = first.map(|_| self.slice(1..));
        first.zip(rest)
"""))
S("s4-split-last-checked-let", ("split.rs", """        let len = self.len();
        match len {
            0 => None,
            _ => {
                let a = self.slice(0..(len - 1));
                let b = &self[len - 1];
                Some((b, a))
            }
        }
""", """        let last = self.len().checked_sub(1)?;
        let elem = &self[last];
        Some((elem, self.slice(..last)))
"""))
CH = """        let len = self.len();
        let mut num_slices = len / chunk_size;
        let remainder = len - num_slices * chunk_size;
        if remainder > 0 {
            num_slices += 1;
        }

        (0..num_slices).map(move |i| {
            let a = i * chunk_size;
            let b = a + match (i == num_slices - 1, remainder > 0) {
                (true, true) => remainder,
                _ => chunk_size,
            };
            self.slice(a..b)
        })
"""
S("s4-chunks-bool", ("split.rs", CH, """        let len = self.len();
        let full = len / chunk_size;
        let remainder = len % chunk_size;
        let num_slices = full + usize::from(remainder != 0);

        (0..num_slices).map(move |i| {
            let begin = chunk_size * i;
            let size = if i < full { chunk_size } else { remainder };
            self.slice(begin..(begin + size))
        })
"""))
S("s4-chunks-end-first", (CS + "split.rs", CH, """        let len = self.len();
        let num_slices = len.div_ceil(chunk_size);

        (0..num_slices).map(move |i| {
            let begin = i * chunk_size;
            let size = chunk_size.min(len - begin);
            self.slice(begin..begin + size)
        })
"""))
S("s4-chunks-ne", ("split.rs", "        assert!(chunk_size > 0);\n", "        assert_ne!(chunk_size, 0);\n"))
# ---- whole collection
S("s4-map-method", ("iter_shorthands.rs", "        self.iter().map(move |elem| elem.map(|x: &T| f(x)))\n", "        self.iter().map(move |elem| elem.map(&mut f))\n"))
S("s4-filter-nested", ("iter_shorthands.rs", "        self.iter().filter(move |elem| elem.map(|x: &T| f(x)))\n", """        self.iter().filter(move |elem| {
            let keep = elem.map(&mut f);
            keep
        })
"""))
S("s4-fold-loop", (CS + "iter_shorthands.rs", "        self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x)))\n", """        let mut agg = init;
        for elem in self.iter() {
            agg = elem.map(|x| f(agg, x));
        }
        agg
"""))
S("s4-reduce-let-else", (CS + "iter_shorthands.rs", """        match iter.next() {
            Some(first) => {
                let mut agg = first.cloned();
                for elem in iter {
                    agg = elem.map(|x| f(&agg, x));
                }
                Some(agg)
            }
            None => None,
        }
""", """        let first = iter.next().map(|elem| elem.cloned())?;
        Some(iter.fold(first, |agg, elem| elem.map(|x| f(&agg, x))))
"""))
S("s4-reduce-while", (CS + "iter_shorthands.rs", """                for elem in iter {
                    agg = elem.map(|x| f(&agg, x));
                }
""", """                while let Some(elem) = iter.next() {
                    let next = elem.map(|x| f(&agg, x));
                    agg = next;
                }
"""))
S("s4-fill-zip-repeat", ("mut_elem.rs", """        for elem in self.iter() {
            elem.set(value.clone());
        }
""", """        self.iter()
            .zip(core::iter::repeat_with(|| value.clone()))
            .for_each(|(elem, value)| elem.set(value));
"""))
S("s4-fill-with-fold", ("mut_elem.rs", """        for (i, elem) in self.iter().enumerate() {
            elem.set(value(i));
        }
""", """        self.iter().fold(0, |i, elem| {
            elem.set(value(i));
            i + 1
        });
"""))
S("s4-fill-with-map", (CS + "mut_elem.rs", """        for (i, elem) in self.iter().enumerate() {
            elem.set(value(i));
        }
""", """        let mut iter = self.iter();
        let mut i = 0;
        loop {
            match iter.next() {
                Some(elem) => elem.set(value(i)),
                None => return,
            }
            i += 1;
        }
"""))
S("s4-index-of-enum-find", ("partial_eq.rs", "        self.iter().position(|e| e == value)\n", """        let mut index = 0;
        let mut elements = self.iter();
        while let Some(element) = elements.next() {
            if element == value {
                return Some(index);
            }
            index += 1;
        }
        None
"""))
S("s4-index-of-skip", (CS + "partial_eq.rs", "        self.iter().position(|e| e == value)\n", """        self.iter()
            .enumerate()
            .skip_while(|(_, e)| *e != value)
            .map(|(i, _)| i)
            .next()
"""))
S("s4-contains-ne-none", ("partial_eq.rs", "        self.index_of(value).is_some()\n", "        self.index_of(value) != None\n"))
S("s4-contains-not-all", (CS + "partial_eq.rs", "        self.index_of(value).is_some()\n", "        !self.iter().all(|e| e != value)\n"))
S("s4-clone-to-vec-extend", (CS + "to_vec.rs", """        for x in iter {
            vec.push(x);
        }
""", "        vec.extend(iter);\n"))
S("s4-clone-to-vec-fold", (CS + "to_vec.rs", """        let iter = self.iter_cloned();
        let mut vec = Vec::with_capacity(self.len());
        for x in iter {
            vec.push(x);
        }
        vec
""", """        self.iter_cloned()
            .fold(Vec::with_capacity(self.len()), |mut vec, x| {
                vec.push(x);
                vec
            })
"""))
S("s4-to-vec-iter", ("to_vec.rs", """        for x in pinned {
            vec.push(x.0.expect("unwrapped none"));
        }
        vec
""", """        vec.extend(pinned.into_iter().map(|x| x.0.expect("unwrapped none")));
        vec
"""))
S("s4-clone-fold", ("common_traits/clone.rs", "        self.iter_cloned().collect()\n", """        let clone = Self::new();
        for value in self.iter_cloned() {
            let _position = clone.push(value);
        }
        clone
"""))
S("s4-eq-and", ("common_traits/eq.rs", """            (Some(a), Some(b)) if a == b => continue,
            (None, None) => return true,
            _ => return false,
        }
    }
}

fn eq_elem_iter_to_iter""", """            (Some(a), Some(b)) => {
                if a != b {
                    return false;
                }
            }
            (a, b) => return a.is_none() && b.is_none(),
        }
    }
}

fn eq_elem_iter_to_iter"""))
S("s4-eq-elem-closure", ("common_traits/eq.rs", """        match (self as *const Self).cmp(&(other as *const Self)) {
            Ordering::Less => self.map(|x| other.map(|y| x == y)),
            Ordering::Equal => self.map(|x| x == x),
            Ordering::Greater => other.map(|y| self.map(|x| x == y)),
        }
""", """        let order = (self as *const Self).cmp(&(other as *const Self));
        if order == Ordering::Equal {
            return self.map(|x| x.eq(x));
        }
        if order == Ordering::Less {
            self.map(|x| other.map(|y| x.eq(y)))
        } else {
            other.map(|y| self.map(|x| x.eq(y)))
        }
"""))
S("s4-eq-value-eq", ("common_traits/eq.rs", "        self.map(|x| x == other)\n", "        self.map(|x| PartialEq::eq(x, other))\n"))
S("s4-index-let-else", ("common_traits/index.rs", """        self.get(i).expect("out-of-bounds")
    }
}

impl<'a""", """        let Some(elem) = self.get(i) else {
            panic!("out-of-bounds");
        };
        elem
    }
}

impl<'a"""))
S("s4-debug-match", ("common_traits/debug.rs", """    if let Some(first) = iter.next() {
        first.map(|x| write!(f, "{:?}", x))?;
        for elem in iter {
            elem.map(|x| write!(f, ", {:?}", x))?;
        }
    }
""", """    let Some(first) = iter.next() else {
        return write!(f, "]");
    };
    first.map(|x| write!(f, "{:?}", x))?;
    iter.try_for_each(|elem| elem.map(|x| write!(f, ", {:?}", x)))?;
"""))
S("s4-debug-write-str", ("common_traits/debug.rs", """    write!(f, "[")?;
""", """    f.write_str("[")?;
"""))
# ---- raw accessors
S("s4-raw-match", ("unsafe_api.rs", """                maybe.and_then(|x| {
                    x.0.get_raw_with_order(Ordering::SeqCst)
                        .or_else(|| x.0.get_raw())
                })
""", """                match maybe {
                    Some(x) => match x.0.get_raw_with_order(Ordering::SeqCst) {
                        Some(p) => Some(p),
                        None => x.0.get_raw(),
                    },
                    None => None,
                }
"""))
S("s4-raw-orders", ("unsafe_api.rs", """                    x.0.get_raw_with_order(Ordering::SeqCst)
                        .or_else(|| x.0.get_raw())
""", """                    x.0.get_raw_with_order(Ordering::Acquire)
                        .or_else(|| x.0.get_raw())
"""))
S("s4-slice-raw-map", (CS + "unsafe_api.rs", "        self.idx(i).and_then(|i| self.vec.get_raw(i))\n", """        match self.idx(i) {
            Some(i) => self.vec.get_raw(i),
            None => None,
        }
"""))
S("s4-iter-ref-filter-map", ("unsafe_api.rs", """        x.flat_map(|x| unsafe {
            x.0.as_ref_with_order(Ordering::SeqCst)
                .or_else(|| x.0.as_ref())
        })
""", """        x.map(|x| unsafe {
            x.0.as_ref_with_order(Ordering::SeqCst)
                .or_else(|| x.0.as_ref())
        })
        .filter_map(|x| x)
"""))
S("s4-iter-ref-flatten", ("unsafe_api.rs", """        x.flat_map(|x| unsafe {
            x.0.as_ref_with_order(Ordering::SeqCst)
                .or_else(|| x.0.as_ref())
        })
""", """        x.map(|x| unsafe {
            x.0.as_ref_with_order(Ordering::SeqCst)
                .or_else(|| x.0.as_ref())
        })
        .flatten()
"""))
# ---- construction
S("s4-with-linear-let", ("new.rs", """        Self::new_from_pinned(SplitVec::with_linear_growth_and_fragments_capacity(
            constant_fragment_capacity_exponent,
            fragments_capacity,
        ))
""", """        let storage = SplitVec::with_linear_growth_and_fragments_capacity(
            constant_fragment_capacity_exponent,
            fragments_capacity,
        );
        storage.into()
"""))
S("s4-default-new", ("new.rs", """    fn default() -> Self {
        Self::with_doubling_growth()
    }
""", """    fn default() -> Self {
        ConcurrentVec::new()
    }
"""))
S("s4-mut-handle-question", ("helpers.rs", """        match i < self.len() {
            true => unsafe {
                self.core
                    .get(i)
                    .and_then(|e| e.0.mut_handle(initial_state, success_state))
            },
            false => None,
        }
""", """        let element = self.get(i)?;
        unsafe { element.0.mut_handle(initial_state, success_state) }
"""))
S("s4-into-iter-map", ("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())\n", """        let ConcurrentElement(option) = self.iter.next()?;
        Some(option.unwrap())
"""))
S("s4-into-iter-size", ("common_traits/into_iter.rs", """        self.iter.next().map(|e| e.0.unwrap())
    }
""", """        self.iter.next().map(|e| e.0.unwrap())
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
"""))
# ---- second part
S("s5-swap-array-sort", ("mut_elem.rs", SWAP0, """        let (i, j) = match (self.get(i), self.get(j)) {
            (Some(e_i), Some(e_j)) => {
                let order = core::ptr::from_ref(e_i).cmp(&core::ptr::from_ref(e_j));
                if order.is_eq() {
                    return true;
                }
                match order.reverse().is_gt() {
                    true => (i, j),
                    false => (j, i),
                }
            }
            _ => return false,
        };
"""))
S("s5-swap-ordered-fn", ("mut_elem.rs", SWAP0, """        let Some((i, j)) = self.in_address_order(i, j) else {
            return false;
        };
        if i == j {
            return true;
        }
"""), ("mut_elem.rs", "    /// Fills all positions", """    #[inline]
    fn in_address_order(&self, i: usize, j: usize) -> Option<(usize, usize)> {
        let e_i: *const ConcurrentElement<T> = self.get(i)?;
        let e_j: *const ConcurrentElement<T> = self.get(j)?;
        Some(if e_i <= e_j { (i, j) } else { (j, i) })
    }

    /// Fills all positions""", 0))
S("s5-elem-trait", ("common_traits/debug.rs", "    write!(f, \"[\")?;\n", "    f.write_char('[')?;\n"), ("common_traits/debug.rs", "use core::fmt::Debug;", "use core::fmt::{Debug, Write};"))
S("s5-array-max", ("vec.rs", UNTIL, "        let until = *[len_reserved, cap].iter().min().expect(\"two numbers\");\n"))
S("s5-array-fold", ("vec.rs", """        match len <= cap {
            true => len,
            false => cap,
        }
    }
""", """        [cap].into_iter().fold(len, usize::min)
    }
"""))
S("s5-slice-pair", (CS + "mut_elem.rs", """        let idx_i = self.idx(i);
        let idx_j = self.idx(j);
        match (idx_i, idx_j) {
            (Some(i), Some(j)) => self.vec.swap(i, j),
            _ => false,
        }
""", """        let [i, j] = [i, j].map(|k| self.idx(k));
        match (i, j) {
            (Some(i), Some(j)) => self.vec.swap(i, j),
            (None, _) | (_, None) => false,
        }
"""))
S("s5-fill-generic", ("mut_elem.rs", """        for elem in self.iter() {
            elem.set(value.clone());
        }
""", """        self.fill_with(|_| value.clone());
"""))
S("s5-fill-slice-generic", (CS + "mut_elem.rs", """        for elem in self.iter() {
            elem.set(value.clone());
        }
""", """        let mut next = || value.clone();
        self.fill_with(move |_| next());
"""))
S("s5-visit-helper", ("mut_elem.rs", """        for (i, elem) in self.iter().enumerate() {
            elem.set(value(i));
        }
""", """        self.visit(|i, elem| elem.set(value(i)));
"""), ("mut_elem.rs", "    /// Fills all positions", """    fn visit(&self, mut f: impl FnMut(usize, &ConcurrentElement<T>)) {
        let mut i = 0;
        for elem in self.iter() {
            f(i, elem);
            i += 1;
        }
    }

    /// Fills all positions""", 0))
S("s5-get-const-generic", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }
""", """        self.checked(i).map(|i| unsafe { self.core.get(i) }).flatten()
    }

    #[inline(always)]
    fn checked(&self, i: usize) -> Option<usize> {
        if i < self.len() {
            Some(i)
        } else {
            None
        }
"""))
S("s5-cloned-via-elem", ("vec.rs", """            true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),
            false => None,
""", """            true => {
                let mut out = None;
                if let Some(elem) = unsafe { self.core.get(i) } {
                    out = elem.0.clone_into_option();
                }
                out
            }
            false => None,
"""))
S("s5-clone-with-cap", (CS + "to_vec.rs", """        for x in iter {
            vec.push(x);
        }
        vec
""", """        let mut iter = iter;
        loop {
            let Some(x) = iter.next() else { break vec };
            vec.push(x);
        }
"""))
S("s5-to-vec-drain", ("to_vec.rs", """        for x in pinned {
            vec.push(x.0.expect("unwrapped none"));
        }
        vec
""", """        let mut elements = pinned.into_iter();
        while let Some(ConcurrentElement(option)) = elements.next() {
            let value = option.expect("unwrapped none");
            vec.push(value);
        }
        vec
"""))
S("s5-reduce-option-agg", (CS + "iter_shorthands.rs", """        let mut iter = self.iter();
        match iter.next() {
            Some(first) => {
                let mut agg = first.cloned();
                for elem in iter {
                    agg = elem.map(|x| f(&agg, x));
                }
                Some(agg)
            }
            None => None,
        }
""", """        let mut agg: Option<T> = None;
        for elem in self.iter() {
            agg = Some(match &agg {
                None => elem.cloned(),
                Some(agg) => elem.map(|x| f(agg, x)),
            });
        }
        agg
"""))
S("s5-chunks-checked", ("split.rs", CH, """        let len = self.len();
        let num_slices = (len + chunk_size - 1) / chunk_size;

        (0..num_slices).map(move |i| {
            let begin = i * chunk_size;
            let end = (begin + chunk_size).min(len);
            self.slice(begin..end)
        })
"""))
S("s5-split-at-as-slice", ("split.rs", "        (self.slice(0..mid), self.slice(mid..))\n", """        let (a, b) = (0..mid, mid..self.len());
        (self.slice(a), self.slice(b))
"""))
S("s5-eq-lens", ("common_traits/eq.rs", """impl<T: PartialEq> PartialEq<[T]> for ConcurrentVec<T> {
    fn eq(&self, other: &[T]) -> bool {
        eq_elem_iter_to_iter(self.iter(), other.iter())
""", """impl<T: PartialEq> PartialEq<[T]> for ConcurrentVec<T> {
    fn eq(&self, other: &[T]) -> bool {
        let mut values = other.iter();
        for elem in self.iter() {
            match values.next() {
                Some(value) if elem.0.is_some_and(|x| x == value) => {}
                _ => return false,
            }
        }
        values.next().is_none()
"""))
S("s5-permit-then", ("state.rs", """        match (begin_idx.cmp(&capacity), last_idx.cmp(&capacity)) {
            (_, core::cmp::Ordering::Less) => WritePermit::JustWrite,
            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,
            _ => WritePermit::GrowThenWrite,
        }
""", """        if last_idx.cmp(&capacity).is_lt() {
            WritePermit::JustWrite
        } else if begin_idx.cmp(&capacity).is_gt() {
            WritePermit::Spin
        } else {
            WritePermit::GrowThenWrite
        }
"""))
S("s5-clear-range", ("exclusive.rs", """        for elem in unsafe { self.core.iter_mut(len) } {
            elem.0.exclusive_take();
        }
""", """        {
            let mut elements = unsafe { self.core.iter_mut(len) };
            for _ in 0..len {
                match elements.next() {
                    Some(elem) => drop(elem.0.exclusive_take()),
                    None => break,
                }
            }
        }
"""))
S("s5-extend-count", ("grow.rs", LOOP, """        let mut written = 0;
        for slice in slices {
            for maybe in slice {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
                written += 1;
            }
        }
        debug_assert_eq!(written, num_items);
""", 1))
S("s5-extend-last", ("grow.rs", """        let values = values.into_iter();
        let num_items = values.len();
        self.extend_n_items::<_>(values, num_items)
""", """        let values = values.into_iter();
        match values.len() {
            num_items => self.extend_n_items::<_>(values, num_items),
        }
"""))
S("s5-push-map", ("grow.rs", """        let maybe = unsafe { self.core.single_item_as_ref(idx) };
        let value = f(idx);
        unsafe { maybe.0.initialize_unchecked(value) };

        idx
""", """        let maybe = unsafe { self.core.single_item_as_ref(idx) };
        unsafe { maybe.0.initialize_unchecked(f(idx)) };
        idx
"""))
