"""Third batch of breaking edits, written from the property texts and the code alone."""
MUTANTS = []


def M(id, prop, *edits, kind="bug"):
    MUTANTS.append({"kind": kind, "id": id, "prop": prop, "edits": list(edits)})


CLAIM1 = "let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);"
CLAIMN = "let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);"
SL = "let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };"
LOOP = """        for slice in slices {
            for maybe in slice {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
"""
CS = "concurrent_slice/"

# C01
M("C01-cas-gives-up", "C01", ("grow.rs", CLAIM1, """let mut idx = self.len_reserved().load(Ordering::Relaxed);
        let mut tries = 0;
        while let Err(x) = self.len_reserved().compare_exchange_weak(idx, idx + 1, Ordering::Relaxed, Ordering::Relaxed) {
            idx = x;
            tries += 1;
            if tries > 1000 {
                self.len_reserved().store(idx + 1, Ordering::Relaxed);
                break;
            }
        }""", 0))
M("C01-fetch-max", "C01", ("grow.rs", CLAIM1, """let idx = self.len_reserved().load(Ordering::Relaxed);
        let idx = self.len_reserved().fetch_max(idx + 1, Ordering::Relaxed).min(idx);""", 1))
M("C01-u16-batch", "C01", ("grow.rs", CLAIMN, "let begin_idx = self.len_reserved().fetch_add(num_items & 0xffff, Ordering::Relaxed);", 1))
M("C01-rounded-batch", "C01", ("grow.rs", CLAIMN, """let num_claimed = match num_items > 1024 {
            true => num_items / 2 * 2,
            false => num_items,
        };
        let begin_idx = self.len_reserved().fetch_add(num_claimed, Ordering::Relaxed);""", 0))
M("C01-shared-helper-peek", "C01", ("helpers.rs", """    #[inline(always)]
    pub(crate) fn len_written""", """    #[inline(always)]
    pub(crate) fn claim(&self, n: usize) -> usize {
        let begin = self.len_reserved().load(core::sync::atomic::Ordering::Acquire);
        match n {
            0 => begin,
            1 => self.len_reserved().fetch_add(1, core::sync::atomic::Ordering::AcqRel),
            _ => {
                self.len_reserved().fetch_add(n, core::sync::atomic::Ordering::AcqRel);
                begin
            }
        }
    }

    #[inline(always)]
    pub(crate) fn len_written"""), ("grow.rs", CLAIMN, "let begin_idx = self.claim(num_items);", 0), ("grow.rs", CLAIMN, "let begin_idx = self.claim(num_items);"))
# C02
M("C02-rev-slices", "C02", ("grow.rs", LOOP, """        for slice in slices {
            let mut n = slice.len();
            while n > 0 {
                let at = if slice.len() > 4096 { n - 1 } else { slice.len() - n };
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { slice[at].0.initialize_unchecked(value) };
                n -= 1;
            }
        }
""", 1))
M("C02-from-iter-hint", "C02", ("common_traits/from_iter.rs", "(a, Some(b)) if a == b =>", "(a, Some(b)) if b - a <= 1 =>"))
M("C02-from-iter-even", "C02", ("common_traits/from_iter.rs", """                for x in iter {
                    vec.push(x);
                }""", """                let mut iter = iter;
                while let Some(x) = iter.next() {
                    vec.push(x);
                    if iter.size_hint().1 == Some(0) {
                        break;
                    }
                    if let Some(x) = iter.next() {
                        if vec.len() + 1 < vec.capacity() || vec.capacity() < 1 << 12 {
                            vec.push(x);
                        }
                    }
                }"""))
M("C02-push-if-vacant", "C02", ("grow.rs", """        unsafe { maybe.0.initialize_unchecked(value) };

        idx""", """        if !maybe.0.initialize_if_none(value) || idx == 0 {
            return idx;
        }

        idx""", 0))
M("C02-extend-for-skip-dup", "C02", ("grow.rs", LOOP, """        for slice in slices {
            if slice.len() == 1 << 10 {
                let _ = values.next();
            }
            for maybe in slice {
                let value = match values.next() {
                    Some(value) => value,
                    None => return begin_idx,
                };
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
""", 0))
# C03
M("C03-end-vs-last", "C03", ("state.rs", """            (_, core::cmp::Ordering::Less) => WritePermit::JustWrite,
            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,
            _ => WritePermit::GrowThenWrite,""", """            (_, core::cmp::Ordering::Less) => WritePermit::JustWrite,
            (core::cmp::Ordering::Equal, _) => WritePermit::GrowThenWrite,
            (core::cmp::Ordering::Less, core::cmp::Ordering::Greater) => WritePermit::GrowThenWrite,
            _ => WritePermit::Spin,"""))
M("C03-cap-twice", "C03", ("state.rs", "        let last_idx = begin_idx + num_items - 1;", "        let last_idx = begin_idx + num_items - 1;\n        let capacity = capacity.max(col.capacity() & !1);"))
M("C03-max-cap", "C03", ("state.rs", """        match idx.cmp(&capacity) {
            Ordering::Less""", """        match idx.cmp(&capacity.min(col.maximum_capacity() - 1)) {
            Ordering::Less"""))
# C04
M("C04-take-some-only", "C04", ("exclusive.rs", "            elem.0.exclusive_take();", "            if core::mem::needs_drop::<T>() {\n                elem.0.exclusive_take();\n            }"))
M("C04-clear-visible", "C04", ("exclusive.rs", """        let len = self.reserved_len();
        // slots""", """        let len = self.len();
        // slots"""))
M("C04-get-cap", "C04", ("concurrent_slice/slice.rs", """        match i < self.len {
            true => unsafe { self.vec.core.get(self.a + i) },""", """        match self.a + i < self.vec.capacity() && i <= self.len {
            true => unsafe { self.vec.core.get(self.a + i) },"""))
# C05
M("C05-len-skips-busy", "C05", ("vec.rs", "                State::Some | State::Reserved => num_pushed += 1,", "                State::Some => num_pushed += 1,\n                State::Reserved if num_pushed == 0 => num_pushed += 1,\n                State::Reserved => break,"))
M("C05-len-past-gap", "C05", ("vec.rs", "                State::None => break,", "                State::None if num_pushed > 64 => break,\n                State::None => continue,"))
M("C05-empty-first", "C05", ("vec.rs", "        self.len() == 0\n", "        self.len_written().load(Ordering::Acquire) == 0\n"))
M("C05-len-batch", "C05", ("vec.rs", "        let new_len = len + num_pushed;\n", "        let new_len = len + num_pushed / 16 * 16 + num_pushed % 16 * (num_pushed < 1 << 14) as usize;\n"))
M("C05-extend-announces", "C05", ("grow.rs", LOOP, LOOP + """        if num_items > 256 {
            self.len_written().fetch_max(begin_idx + num_items, Ordering::Release);
        }
""", 1))
# C06
M("C06-vec-get-cap", "C06", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },""", """        match i < self.capacity() && i < self.reserved_len() {
            true => unsafe { self.core.get(i) },"""))
M("C06-split-first-reserved", "C06", ("split.rs", "                let b = self.slice(1..self.len());", "                let b = ConcurrentSlice::new(self, 1, self.reserved_len() - 1);"))
M("C06-slice-clamped", "C06", ("vec.rs", """    pub fn as_slice(&self) -> ConcurrentSlice<T, P> {
        self.slice(0..self.len())""", """    pub fn as_slice(&self) -> ConcurrentSlice<T, P> {
        ConcurrentSlice::new(self, 0, self.len().max(self.reserved_len() / 2))"""))
M("C06-iter-end", "C06", ("concurrent_slice/slice.rs", """        let b = self.a + self.len;
        unsafe { self.vec.core.iter_over_range(self.a..b) }
    }""", """        let b = match self.a {
            0 => self.vec.reserved_len(),
            a => a + self.len,
        };
        unsafe { self.vec.core.iter_over_range(self.a..b) }
    }"""))
# C07
M("C07-elem-eq-value-ref", "C07", ("common_traits/eq.rs", "        self.map(|x| x == other)\n", "        match unsafe { self.0.as_ref_with_order(core::sync::atomic::Ordering::Acquire) } {\n            Some(x) => x == other,\n            None => self.map(|x| x == other),\n        }\n"))
M("C07-fold-iter-ref", "C07", ("iter_shorthands.rs", "        self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x)))", "        match core::mem::size_of::<T>() > core::mem::size_of::<usize>() {\n            true => self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x))),\n            false => unsafe { self.iter_ref() }.fold(init, |agg, x| f(agg, x)),\n        }"))
M("C07-copied-fast", "C07", ("elem.rs", """    pub fn copied(&self) -> T
    where
        T: Copy,
    {
        self""", """    pub fn copied(&self) -> T
    where
        T: Copy,
    {
        if let Some(x) = self.0.get_raw_with_order(core::sync::atomic::Ordering::Acquire) {
            return unsafe { *x };
        }
        self"""))
M("C07-contains-ref", "C07", ("partial_eq.rs", "        self.index_of(value).is_some()", "        unsafe { self.iter_ref() }.take(self.len()).any(|x| x == value)"))
# C08
M("C08-get-raw-split", "C08", ("unsafe_api.rs", """                    x.0.get_raw_with_order(Ordering::SeqCst)
                        .or_else(|| x.0.get_raw())""", """                    x.0.get_raw_with_order(Ordering::Relaxed)
                        .or_else(|| x.0.get_raw())"""))
M("C08-len-const-order", "C08", ("vec.rs", "        let len = self.len_written().load(Ordering::Acquire);", "        const ORDER: Ordering = Ordering::Relaxed;\n        let len = self.len_written().load(ORDER);"))
M("C08-publish-acq", "C08", ("vec.rs", "        self.len_written().fetch_max(new_len, Ordering::Release);", "        self.len_written().fetch_max(new_len, Ordering::Acquire);"))
# C10
M("C10-replace-swapback", "C10", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)\n", "        let mut value = value;\n        let updated = self.0.update_if_some(|x| core::mem::swap(x, &mut value));\n        if core::mem::size_of::<T>() > 512 {\n            self.0.update_if_some(|x| core::mem::swap(x, &mut value));\n        }\n        assert!(updated);\n        value\n"))
M("C10-set-two", "C10", ("elem.rs", '        assert!(self.0.set_some(value), "Failed to set the element");\n', "        let mut value = Some(value);\n        let ok = self.0.update_if_some(|x| {\n            if core::mem::align_of::<T>() < 16 {\n                *x = value.take().expect(\"once\");\n            }\n        });\n        assert!(ok);\n"))
M("C10-map-on-copy", "C10", ("elem.rs", "        self.0.map(f).expect(HAS_VALUE)\n", "        let x = self.0.get_raw().expect(HAS_VALUE);\n        let x = core::mem::ManuallyDrop::new(unsafe { core::ptr::read(x) });\n        f(&x)\n"))
M("C10-fill-last", "C10", ("concurrent_slice/mut_elem.rs", """        for elem in self.iter() {
            elem.set(value.clone());
        }""", """        let mut iter = self.iter();
        while let Some(elem) = iter.next() {
            if iter.size_hint().1 == Some(0) && self.len() > 4096 {
                break;
            }
            elem.set(value.clone());
        }"""))
# C11
M("C11-update-take", "C11", ("elem.rs", '        assert!(self.0.update_if_some(f), "Failed to update the element");\n', "        let mut f = f;\n        let mut x = self.0.take().expect(HAS_VALUE);\n        f(&mut x);\n        assert!(self.0.initialize_if_none(x));\n"))
M("C11-swap-take", "C11", ("mut_elem.rs", """                core::mem::swap(mut_i, mut_j);
                true""", """                core::mem::swap(mut_i, mut_j);
                drop((h_i, h_j));
                if core::mem::size_of::<T>() > 4096 {
                    let x = self.get(i).and_then(|e| e.0.take());
                    if let (Some(x), Some(e)) = (x, self.get(i)) {
                        e.0.set_some(x);
                    }
                }
                true"""))
# C12
M("C12-eq-ptr-rev", "C12", ("common_traits/eq.rs", "            Ordering::Greater => other.map(|y| self.map(|x| x == y)),", "            Ordering::Greater => self.map(|x| other.map(|y| x == y)),"))
M("C12-iters-nested", "C12", ("common_traits/eq.rs", "            (Some(a), Some(b)) if a == b => continue,", "            (Some(a), Some(b)) if b.map(|y| a == y) => continue,"))
M("C12-swap-eq-missing", "C12", ("mut_elem.rs", "                Ordering::Equal => return true,\n                Ordering::Greater => (j, i),", "                _ => (j, i),"))
M("C12-index-of-inside", "C12", ("partial_eq.rs", "        self.iter().position(|e| e == value)", "        let first = self.get(0)?;\n        match self.len() > 1 << 12 {\n            true => first.map(|_| self.iter().position(|e| e == value)),\n            false => self.iter().position(|e| e == value),\n        }"))
# C13
M("C13-extend-len-late", "C13", ("grow.rs", CLAIMN + "\n        " + SL + "\n        let mut values = values.into_iter();", CLAIMN + "\n        let mut values = values.into_iter();\n        if num_items > 512 {\n            values.size_hint();\n        }\n        " + SL))
M("C13-drop-between", "C13", ("grow.rs", """        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);

        // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
        let maybe = unsafe { self.core.single_item_as_ref(idx) };
        let value = f(idx);""", """        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);
        while self.len() + 64 < idx {
            core::hint::spin_loop();
        }

        // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
        let maybe = unsafe { self.core.single_item_as_ref(idx) };
        let value = f(idx);"""))
M("C13-prev-written", "C13", ("grow.rs", """        unsafe { maybe.0.initialize_unchecked(value) };

        idx
    }""", """        unsafe { maybe.0.initialize_unchecked(value) };
        if idx > 0 && idx == self.capacity() - 1 {
            while unsafe { self.core.get(idx - 1) }.is_none_or(|x| x.0.is_none()) {}
        }

        idx
    }""", 0))
# C14
M("C14-slice-empty-keeps", "C14", ("concurrent_slice/slice.rs", "        let len = b - a;\n        ConcurrentSlice::new(self.vec", "        let len = match b - a {\n            0 if a == self.len() => self.vec.len() - (self.a + a),\n            n => n,\n        };\n        ConcurrentSlice::new(self.vec"))
M("c14-vec-range-grow", "", ("vec.rs", """        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.len()));
        let len = b - a;""", """        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.reserved_len()));
        let b = b.min(self.len());
        let len = b.saturating_sub(a);"""), kind="same")
M("C14-split-at-shift", "C14", ("concurrent_slice/split.rs", "        (self.slice(0..mid), self.slice(mid..len))", "        (self.slice(0..mid), self.slice(mid..len.min(self.vec.len() - self.a - (mid & len >> 20))))"))
# C17
M("C17-reserve-zero-len", "C17", ("exclusive.rs", "                .reserve_maximum_capacity(self.reserved_len(), new_maximum_capacity)", "                .reserve_maximum_capacity(self.len(), new_maximum_capacity)"))
M("C17-to-vec-forget", "C17", ("to_vec.rs", "            vec.push(x.0.expect(\"unwrapped none\"));", "            if vec.len() == vec.capacity() {\n                core::mem::forget(x);\n                continue;\n            }\n            vec.push(x.0.expect(\"unwrapped none\"));"))
M("C17-clear-twice", "C17", ("exclusive.rs", "            elem.0.exclusive_take();", "            if let Some(x) = elem.0.exclusive_take() {\n                if core::mem::size_of::<T>() == 0 {\n                    core::mem::forget(x);\n                }\n            }"))
M("C17-set-drop-old", "C17", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)\n", "        let handle = unsafe { self.0.mut_handle(orx_concurrent_option::SOME, orx_concurrent_option::SOME) }.expect(HAS_VALUE);\n        let x = unsafe { handle.get_mut() } as *mut T;\n        let old = unsafe { core::ptr::read(x) };\n        unsafe { *x = value };\n        old\n"))
# C18
M("C18-contains-sorted", "C18", ("concurrent_slice/partial_eq.rs", "        self.index_of(value).is_some()", "        let mid = self.len() / 2;\n        self.slice(0..mid).index_of(value).is_some() || self.slice((mid + 1).min(self.len())..).index_of(value).is_some()"))
M("C18-filter-budget", "C18", ("iter_shorthands.rs", "        self.iter().filter(move |elem| elem.map(|x: &T| f(x)))", "        let n = self.capacity();\n        self.iter().take(n - n / 64).filter(move |elem| elem.map(|x: &T| f(x)))"))
M("C18-map-skip-equal", "C18", (CS + "iter_shorthands.rs", "        self.iter().map(move |elem| elem.map(|x: &T| f(x)))", "        let start = (self.len() >> 16).min(1);\n        self.iter().skip(start).map(move |elem| elem.map(|x: &T| f(x)))"))
M("C18-iter-cloned-len", "C18", ("vec.rs", "        unsafe { self.core.iter(self.len()) }.map(|elem| elem.cloned())", "        unsafe { self.core.iter(self.len_written().load(Ordering::Acquire)) }.map(|elem| elem.cloned())"))
M("C18-reduce-twice", "C18", (CS + "iter_shorthands.rs", "                let mut agg = first.cloned();", "                let mut agg = first.cloned();\n                if self.capacity() == 1 << 10 {\n                    agg = first.map(|x| f(&agg, x));\n                }"))
M("C18-index-of-window", "C18", (CS + "partial_eq.rs", "        self.iter().position(|e| e == value)", "        let at = self.iter().position(|e| e == value)?;\n        match self.len() > 1 << 10 {\n            true => Some(self.a + at),\n            false => Some(at),\n        }"))
# C19
M("C19-slice-common", "C19", ("common_traits/eq.rs", "            (None, None) => return true,\n            _ => return false,", "            (None, _) => return true,\n            _ => return false,", 0))
M("C19-elem-ptr-or", "C19", ("common_traits/eq.rs", "            Ordering::Equal => self.map(|x| x == x),", "            Ordering::Equal => true,"))
M("C19-shift", "C19", ("common_traits/eq.rs", """        eq_elem_iter_to_iter(self.iter(), other.iter())
    }
}

impl<const N: usize, T: PartialEq> PartialEq<[T; N]> for ConcurrentVec<T> {""", """        let skip = usize::from(self.len() != other.len() && other.len() > 1 << 10);
        eq_elem_iter_to_iter(self.iter(), other.iter().skip(skip))
    }
}

impl<const N: usize, T: PartialEq> PartialEq<[T; N]> for ConcurrentVec<T> {"""))
# C20
M("C20-get-raw-none-busy", "C20", ("unsafe_api.rs", """                    x.0.get_raw_with_order(Ordering::SeqCst)
                        .or_else(|| x.0.get_raw())""", """                    x.0.get_raw_with_order(Ordering::SeqCst)
                        .or_else(|| (!core::mem::needs_drop::<T>()).then(|| x.0.get_raw()).flatten())"""))
M("C20-iter-mut-len", "C20", ("unsafe_api.rs", "        let x = self.core.iter(self.reserved_len());\n        x.flat_map(|x| x.0.get_raw_mut().map(|p| &mut *p))", "        let x = self.core.iter(self.reserved_len());\n        x.take(self.len()).flat_map(|x| x.0.get_raw_mut().map(|p| &mut *p))"))
M("C20-get-mut-next", "C20", ("unsafe_api.rs", "                let elem = self.core.get(i);\n", "                let elem = self.core.get(i).filter(|x| x.0.is_some()).or_else(|| self.core.get(i + 1).filter(|_| i + 1 < self.reserved_len()));\n"))
# C21
M("C21-same-oob", "C21", ("mut_elem.rs", "        // handles are acquired in address order", "        if i == j {\n            return true;\n        }\n        // handles are acquired in address order"))
M("c21-slice-rev", "", (CS + "mut_elem.rs", "            (Some(i), Some(j)) => self.vec.swap(i, j),", "            (Some(i), Some(j)) => self.vec.swap(i, j) || i > j,"), kind="same")
M("C21-slice-adjacent", "C21", (CS + "mut_elem.rs", "            (Some(i), Some(j)) => self.vec.swap(i, j),", "            (Some(i), Some(j)) => self.vec.swap(i, j) && (j < 1 << 15 || self.vec.swap(j, i)),"))
# C22
M("C22-fill-new-cell", "C22", ("mut_elem.rs", """        for elem in self.iter() {
            elem.set(value.clone());
        }""", """        for elem in self.iter() {
            match core::mem::size_of::<T>() > 1 << 10 {
                true => {
                    let cell = elem as *const ConcurrentElement<T> as *mut ConcurrentElement<T>;
                    unsafe { *cell = ConcurrentElement::from(orx_concurrent_option::ConcurrentOption::some(value.clone())) };
                }
                false => elem.set(value.clone()),
            }
        }"""))
# C23
M("C23-to-vec-cap", "C23", ("to_vec.rs", "        for x in pinned {", "        let n = pinned.len().min(1 << 20);\n        for x in pinned.into_iter().take(n) {"))
M("C23-into-iter-map", "C23", ("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())", "        let e = self.iter.next()?;\n        match core::mem::size_of::<T>() {\n            0 => self.iter.next().map(|e| e.0.unwrap()),\n            _ => Some(e.0.unwrap()),\n        }"))
# C24
M("C24-div-ceil-overflow", "C24", (CS + "split.rs", """        let mut num_slices = len / chunk_size;
        let remainder = len - num_slices * chunk_size;
        if remainder > 0 {
            num_slices += 1;
        }
""", """        let num_slices = len.wrapping_add(chunk_size - 1) / chunk_size;
        let remainder = len % chunk_size;
"""))
M("C24-pow2", "C24", ("split.rs", "        let len = self.len();\n        let mut num_slices = len / chunk_size;", "        let chunk_size = if chunk_size > 1 << 12 { chunk_size.next_multiple_of(2) } else { chunk_size };\n        let len = self.len();\n        let mut num_slices = len / chunk_size;"))
M("C24-second-len", "C24", ("split.rs", "            self.slice(a..b)", "            self.slice(a..b.max(self.len().min(a + chunk_size)))"), kind="same")
# C27
M("C27-map-iter-held", "C27", ("iter_shorthands.rs", "        self.iter().filter(move |elem| elem.map(|x: &T| f(x)))", """        let mut prev: Option<orx_concurrent_option::MutHandle<T>> = None;
        self.iter().filter(move |elem| {
            prev = None;
            let keep = elem.map(|x: &T| f(x));
            if keep && core::mem::align_of::<T>() > 64 {
                prev = unsafe { elem.0.mut_handle(orx_concurrent_option::SOME, orx_concurrent_option::SOME) };
            }
            keep
        })"""))
M("C27-replace-into-forget", "C27", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)\n", "        let handle = unsafe { self.0.mut_handle(orx_concurrent_option::SOME, orx_concurrent_option::SOME) }.expect(HAS_VALUE);\n        let old = core::mem::replace(unsafe { handle.get_mut() }, value);\n        if core::mem::align_of::<T>() > 64 {\n            core::mem::forget(handle);\n        }\n        old\n"))
# C28
M("C28-debug-expect", "C28", ("common_traits/debug.rs", "    if let Some(first) = iter.next() {\n        first.map", "    if iter.size_hint().0 > 0 || true {\n        let first = iter.next().expect(\"non-empty\");\n        first.map"))
M("C28-swap-order-assert", "C28", ("mut_elem.rs", "        let h_i = unsafe { self.mut_handle(i, SOME, SOME) };\n", "        assert!(i < j, \"positions are in order\");\n        let h_i = unsafe { self.mut_handle(i, SOME, SOME) };\n"))
M("C28-clone-len-assert", "C28", ("common_traits/clone.rs", "        self.iter_cloned().collect()", "        let clone: Self = self.iter_cloned().collect();\n        assert_eq!(clone.len(), self.len());\n        clone"))
M("C28-slice-index-add", "C28", (CS + "slice.rs", """        match i < self.len {
            true => Some(self.a + i),
            false => None,
        }""", """        let at = self.a.checked_add(i).expect("position");
        match i < self.len {
            true => Some(at),
            false => None,
        }"""))
