"""Sixth batch of bugs: overridden library methods, extreme arguments, cooperating sites, claims that fail half way."""
MUTANTS = []
CS = "concurrent_slice/"
CT = "common_traits/"


def M(prop, id, *edits):
    MUTANTS.append({"kind": "bug", "id": f"{prop}-b6-{id}", "prop": prop, "edits": list(edits)})


NEXT = "        self.iter.next().map(|e| e.0.unwrap())\n    }\n"
CLONE = "        self.iter_cloned().collect()\n    }\n"
PUSH = "        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);\n"
CLAIM = "        let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);\n"

# overridden methods of the consuming iterator
M("C23", "into-iter-nth", (CT + "into_iter.rs", NEXT, NEXT + "\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        for _ in 0..=n {\n            self.iter.next()?;\n        }\n        self.next()\n    }\n"))
M("C23", "into-iter-hint", (CT + "into_iter.rs", NEXT, NEXT + "\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        let (a, b) = self.iter.size_hint();\n        (a + 1, b.map(|b| b + 1))\n    }\n"))
M("C23", "into-iter-fold", (CT + "into_iter.rs", NEXT, NEXT + "\n    fn fold<B, F: FnMut(B, T) -> B>(self, init: B, mut f: F) -> B {\n        let mut acc = init;\n        for e in self.iter.skip(1) {\n            acc = f(acc, e.0.unwrap());\n        }\n        acc\n    }\n"))
M("C23", "into-iter-count", (CT + "into_iter.rs", NEXT, NEXT + "\n    fn count(self) -> usize {\n        self.iter.count().saturating_sub(1)\n    }\n"))
M("C23", "into-iter-last", (CT + "into_iter.rs", NEXT, NEXT + "\n    fn last(mut self) -> Option<T> {\n        self.next()\n    }\n"))
M("C18", "clone-from-short", (CT + "clone.rs", CLONE, CLONE + "\n    fn clone_from(&mut self, source: &Self) {\n        let n = self.len();\n        *self = source.iter_cloned().take(n).collect();\n    }\n"))
M("C17", "into-iter-drop-forget", (CT + "into_iter.rs", NEXT, "        match self.iter.size_hint() {\n            (1, Some(1)) => self.iter.next().map(|e| { let x = e.0.unwrap(); let y = unsafe { core::ptr::read(&x) }; drop(x); y }),\n            _ => self.iter.next().map(|e| e.0.unwrap()),\n        }\n    }\n"))

# claims
M("C01", "cas-err-used", ("grow.rs", PUSH, """        let current = self.len_reserved().load(Ordering::Relaxed);
        let idx = match self.len_reserved().compare_exchange(current, current + 1, Ordering::Relaxed, Ordering::Relaxed) {
            Ok(idx) => idx,
            Err(idx) => {
                self.len_reserved().store(idx + 1, Ordering::Relaxed);
                idx
            }
        };
""", 0))
M("C01", "update-max", ("grow.rs", CLAIM, """        let begin_idx = self
            .len_reserved()
            .fetch_update(Ordering::Relaxed, Ordering::Relaxed, |x| Some(x.max(num_items) + num_items / 2 + num_items.min(x) / 2))
            .unwrap_or(0);
""", 1))
M("C01", "update-checked-wrong", ("grow.rs", CLAIM, """        let cap = self.maximum_capacity();
        let begin_idx = match self
            .len_reserved()
            .fetch_update(Ordering::Relaxed, Ordering::Relaxed, |x| (x + num_items <= cap).then_some(x + num_items))
        {
            Ok(x) => x,
            Err(x) => x - num_items.min(x),
        };
""", 1))
M("C01", "two-steps", ("grow.rs", CLAIM, """        let begin_idx = self.len_reserved().fetch_add(num_items / 2, Ordering::Relaxed);
        self.len_reserved().fetch_add(num_items - num_items / 2, Ordering::Relaxed);
""", 1))
M("C02", "push-set-some", ("grow.rs", "        unsafe { maybe.0.initialize_unchecked(value) };\n", "        let _ = maybe.0.set_some(value);\n", 0))
M("C02", "push-init-twice", ("grow.rs", "        let value = f(idx);\n        unsafe { maybe.0.initialize_unchecked(value) };\n", "        let value = f(idx);\n        if idx > 0 {\n            let before = unsafe { self.core.single_item_as_ref(idx - 1) };\n            let _ = before.0.is_some();\n        }\n        match idx % 64 {\n            63 => unsafe { self.core.single_item_as_ref(idx - 1).0.initialize_unchecked(value) },\n            _ => unsafe { maybe.0.initialize_unchecked(value) },\n        }\n"))

# len and cooperating sites
M("C05", "len-cas-retry-store", ("vec.rs", "        self.len_written().fetch_max(new_len, Ordering::Release);\n", """        if self.len_written().compare_exchange(len, new_len, Ordering::Release, Ordering::Relaxed).is_err() {
            self.len_written().store(new_len, Ordering::Release);
        }
"""))
M("C05", "len-swap", ("vec.rs", "        self.len_written().fetch_max(new_len, Ordering::Release);\n", "        let before = self.len_written().swap(new_len, Ordering::Release);\n        let _ = before;\n"))
M("C05", "len-from-zero-any", ("vec.rs", "                State::None => break,\n", "                State::None if num_pushed > 0 || len == 0 => break,\n                State::None => continue,\n"))
M("C05", "after-write", ("state.rs", "    fn update_after_write(&self, _: usize, _: usize) {}\n", "    fn update_after_write(&self, _: usize, end: usize) {\n        self.len_written.fetch_max(end, core::sync::atomic::Ordering::Release);\n    }\n"),
  ("grow.rs", "        begin_idx\n    }\n", "        self.len_written().fetch_max(begin_idx + num_items, Ordering::Release);\n        begin_idx\n    }\n", 1))
M("C05", "len-hint-window", ("vec.rs", "        let new_len = len + num_pushed;\n", "        let new_len = match num_pushed {\n            0 => len,\n            n => (len + n).max(until.min(len + 2 * n)),\n        };\n"))
M("C06", "reserved-len-unclamped", ("vec.rs", "            true => len,\n            false => cap,\n        }\n    }\n", "            true => len,\n            false => len.min(self.maximum_capacity()),\n        }\n    }\n"))
M("C06", "split-first-raw", ("split.rs", "        match self.get(0) {\n", "        match unsafe { self.core.get(0) } {\n"))
M("C06", "slice-new-wide", ("vec.rs", "        let len = b - a;\n        ConcurrentSlice::new(self, a, len)\n", "        let len = match b - a {\n            0 => 0,\n            _ => (self.reserved_len() - a).min(b - a + (b - a) % 2),\n        };\n        ConcurrentSlice::new(self, a, len)\n"))
M("C14", "slice-two-site", (CS + "slice.rs", "            true => Some(self.a + i),\n", "            true => Some(i),\n"), (CS + "mut_elem.rs", "            (Some(i), Some(j)) => self.vec.swap(i, j),\n", "            (Some(i), Some(j)) => self.vec.swap(self.a + i, self.a + j),\n"))
M("C14", "slice-iter-empty", (CS + "slice.rs", "        let b = self.a + self.len;\n", "        let b = (self.a + self.len).max(1);\n", 0))

# extreme arguments
M("C28", "chunks-min-len", (CS + "split.rs", "        let len = self.len();\n        let mut num_slices", "        let len = self.len();\n        let chunk_size = chunk_size.min(len);\n        let mut num_slices"))
M("C28", "vec-chunks-min-len", ("split.rs", "        let mut num_slices = len / chunk_size;\n", "        let chunk_size = chunk_size.min(len);\n        let mut num_slices = len / chunk_size;\n"))
M("C28", "split-last-sub", (CS + "split.rs", "        match len {\n            0 => None,\n            _ => {\n                let a = self.slice(0..(len - 1));\n                let b = &self[len - 1];\n                Some((b, a))\n            }\n        }\n", "        let last = &self[len.saturating_sub(1)];\n        match len {\n            0 => None,\n            _ => Some((last, self.slice(0..(len - 1)))),\n        }\n"))
M("C24", "chunks-huge", ("split.rs", "            let b = a + match (i == num_slices - 1, remainder > 0) {\n                (true, true) => remainder,\n                _ => chunk_size,\n            };\n", "            let b = match a + chunk_size + 1 > len {\n                true => a + remainder,\n                false => a + chunk_size,\n            };\n"))
M("C28", "fixed-capacity-assert", ("new.rs", "        Self::new_from_pinned(FixedVec::new(fixed_capacity))\n", "        assert!(fixed_capacity.is_power_of_two() || fixed_capacity % 2 == 0 || fixed_capacity < 100);\n        Self::new_from_pinned(FixedVec::new(fixed_capacity))\n"))
M("C28", "extend-next-power", ("grow.rs", CLAIM, "        assert!(num_items < (self.maximum_capacity() - self.reserved_len()).max(1) || num_items == 0);\n" + CLAIM, 1))
M("C13", "assert-fit-after", ("grow.rs", "        self.assert_can_ever_fit(num_items);\n" + CLAIM, CLAIM + "        self.assert_can_ever_fit(num_items);\n", 1))

# values
M("C10", "fill-swap", ("mut_elem.rs", "            elem.set(value.clone());\n", "            let v = value.clone();\n            let old = elem.replace(v);\n            if core::mem::size_of::<T>() > 256 {\n                elem.set(old);\n            }\n"))
M("C10", "replace-clone-set", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)\n", "        let mut value = Some(value);\n        let mut out = None;\n        self.update(|x| out = value.take().map(|v| core::mem::replace(x, v)));\n        let out = out.expect(HAS_VALUE);\n        self.update(|_| ());\n        out\n"))
M("C10", "set-update-old", ("elem.rs", "        assert!(self.0.set_some(value), \"Failed to set the element\");\n", "        let old = self.0.replace(value);\n        if let Some(old) = old {\n            if core::mem::needs_drop::<T>() {\n                let _ = self.0.replace(old);\n            }\n        }\n"))
M("C18", "fold-two-pass", ("iter_shorthands.rs", "        self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x)))\n", "        let n = self.len();\n        let agg = self.iter().take(n / 2).fold(init, |agg, elem| elem.map(|x| f(agg, x)));\n        self.iter().skip(n / 2 + n % 2).fold(agg, |agg, elem| elem.map(|x| f(agg, x)))\n"))
M("C18", "reduce-slice-late", ("iter_shorthands.rs", "        self.as_slice().reduce(f)\n", "        let n = self.len();\n        self.slice(..n - n / 8).reduce(f)\n"))
M("C18", "filter-by-index", ("iter_shorthands.rs", "        self.iter().filter(move |elem| elem.map(|x: &T| f(x)))\n", "        let mut last = false;\n        self.iter().filter(move |elem| {\n            let now = elem.map(|x: &T| f(x));\n            let keep = now || (last && core::mem::size_of::<T>() > 8);\n            last = now;\n            keep\n        })\n"))
M("C18", "debug-last-only", (CT + "debug.rs", "        for elem in iter {\n            elem.map(|x| write!(f, \", {:?}\", x))?;\n        }\n", "        let mut n = 0;\n        for elem in iter {\n            if n < 31 {\n                elem.map(|x| write!(f, \", {:?}\", x))?;\n            }\n            n += 1;\n        }\n"))
M("C19", "eq-array-take", (CT + "eq.rs", "impl<const N: usize, T: PartialEq> PartialEq<[T; N]> for ConcurrentVec<T> {\n    fn eq(&self, other: &[T; N]) -> bool {\n        eq_elem_iter_to_iter(self.iter(), other.iter())", "impl<const N: usize, T: PartialEq> PartialEq<[T; N]> for ConcurrentVec<T> {\n    fn eq(&self, other: &[T; N]) -> bool {\n        eq_elem_iter_to_iter(self.iter().take(N), other.iter())"))
M("C19", "eq-slice-same-len", (CT + "eq.rs", "    fn eq(&self, other: &Self) -> bool {\n        eq_elem_iters(self.iter(), other.iter())\n    }\n}\n\nimpl<'a, T: PartialEq> PartialEq<ConcurrentVec<T>>", "    fn eq(&self, other: &Self) -> bool {\n        if core::ptr::eq(self, other) {\n            return true;\n        }\n        eq_elem_iters(self.iter(), other.iter())\n    }\n}\n\nimpl<'a, T: PartialEq> PartialEq<ConcurrentVec<T>>"))
M("C19", "ne-slice", (CT + "eq.rs", "impl<'a, T: PartialEq> PartialEq<ConcurrentVec<T>> for ConcurrentSlice<'a, T> {\n", "impl<'a, T: PartialEq> PartialEq<ConcurrentVec<T>> for ConcurrentSlice<'a, T> {\n    fn ne(&self, other: &ConcurrentVec<T>) -> bool {\n        self.len() != other.len()\n    }\n\n"))
M("C20", "get-mut-some", ("unsafe_api.rs", "                elem.and_then(|option| option.0.get_raw_mut().map(|p| &mut *p))\n", "                elem.filter(|e| !e.0.is_none()).and_then(|option| match i & 63 {\n                    63 => None,\n                    _ => option.0.get_raw_mut().map(|p| &mut *p),\n                })\n"))
M("C20", "iter-ref-dedup", ("unsafe_api.rs", "        let x = self.core.iter(self.reserved_len());\n        x.flat_map(|x| unsafe {\n", "        let x = self.core.iter(self.reserved_len() / 2 * 2);\n        x.flat_map(|x| unsafe {\n"))
M("C21", "swap-mid", ("mut_elem.rs", "                core::mem::swap(mut_i, mut_j);\n", "                let n = core::mem::size_of::<T>() / 2 * 2;\n                unsafe { core::ptr::swap_nonoverlapping(mut_i as *mut T as *mut u8, mut_j as *mut T as *mut u8, n) };\n"))
M("C21", "swap-false-after", ("mut_elem.rs", "                core::mem::swap(mut_i, mut_j);\n                true\n", "                core::mem::swap(mut_i, mut_j);\n                i < j\n"))
M("C22", "index-copy", ("mut_elem.rs", "                core::mem::swap(mut_i, mut_j);\n", "                let (a, b) = (self.core.state() as *const _ as usize, 0usize);\n                if a == b {\n                    return false;\n                }\n                core::mem::swap(mut_j, mut_i);\n                core::mem::swap(mut_i, mut_j);\n"))
M("C31", "index-off", (CT + "index.rs", "        self.get(i).expect(\"out-of-bounds\")\n", "        self.get(i.min(self.len().saturating_sub(1))).expect(\"out-of-bounds\")\n", 0))
M("C31", "slice-index-last", (CT + "index.rs", "        self.get(i).expect(\"out-of-bounds\")\n", "        self.get(i.saturating_sub(i / 64)).expect(\"out-of-bounds\")\n", 1))
M("C30", "linear-more", ("new.rs", "            constant_fragment_capacity_exponent,\n            fragments_capacity,\n        ))\n", "            constant_fragment_capacity_exponent,\n            fragments_capacity.max(4).min(64),\n        ))\n"))
M("C30", "reserve-plus-len", ("exclusive.rs", "                .reserve_maximum_capacity(self.reserved_len(), new_maximum_capacity)\n", "                .reserve_maximum_capacity(self.reserved_len(), new_maximum_capacity - new_maximum_capacity / 16)\n"))
M("C29", "get-waits-gap", ("vec.rs", "            true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),\n", "            true => unsafe { self.core.get(i) }.and_then(|elem| {\n                while elem.0.is_none() {\n                    core::hint::spin_loop();\n                }\n                elem.0.clone_into_option()\n            }),\n"))
M("C32", "update-prev-held", ("mut_elem.rs", "        for (i, elem) in self.iter().enumerate() {\n            elem.set(value(i));\n        }\n", "        let mut last: Option<&ConcurrentElement<T>> = None;\n        for (i, elem) in self.iter().enumerate() {\n            let v = match last {\n                Some(last) => last.map(|_| value(i)),\n                None => value(i),\n            };\n            elem.set(v);\n            last = Some(elem);\n        }\n"))
M("C23", "from-clear", ("vec.rs", "            core: PinnedConcurrentCol::new_from_pinned(pinned_vec),\n", "            core: PinnedConcurrentCol::new_from_pinned({\n                let mut v = pinned_vec;\n                while v.len() > 1024 {\n                    v.pop();\n                }\n                v\n            }),\n"))
M("C23", "to-vec-cap-drop", ("to_vec.rs", "        for x in pinned {\n", "        let n = pinned.len();\n        for x in pinned.into_iter().take(n.max(1) - 1 + n % 2) {\n"))
M("C16", "exclusive-cell", ("exclusive.rs", "    pub fn clear(&mut self) {\n        let len = self.reserved_len();\n", "    pub fn clear(&mut self) {\n        Self::clear_all(self)\n    }\n\n    /// Clears.\n    pub fn clear_all(this: &Self) {\n        let p = core::hint::black_box(this as *const Self as usize);\n        let this = unsafe { &mut *core::hint::black_box(p as *mut Self) };\n        this.clear_now()\n    }\n\n    fn clear_now(&mut self) {\n        let len = self.reserved_len();\n"))
M("C09", "with-mut", ("elem.rs", "const HAS_VALUE", "impl<T> ConcurrentElement<T> {\n    /// Calls f and returns its result.\n    pub fn with<'a, F, U>(&'a self, f: F) -> U\n    where\n        F: FnOnce(&'a T) -> U,\n    {\n        f(unsafe { self.0.as_ref() }.expect(HAS_VALUE))\n    }\n}\n\nconst HAS_VALUE"))
M("C15", "values-iter-send", (CT + "into_iter.rs", "impl<T, P> Iterator for ElementValuesIter<T, P>\n", "unsafe impl<T, P> Send for ElementValuesIter<T, P> where P: IntoConcurrentPinnedVec<ConcurrentElement<T>> {}\n\nimpl<T, P> Iterator for ElementValuesIter<T, P>\n"))
M("C07", "update-read-after", ("elem.rs", "        assert!(self.0.update_if_some(f), \"Failed to update the element\");\n", "        let mut f = f;\n        let p = self.0.get_raw_mut();\n        assert!(self.0.update_if_some(|_| ()), \"Failed to update the element\");\n        if let Some(p) = p {\n            f(unsafe { &mut *p });\n        }\n"))
M("C12", "eq-elem-swap", (CT + "eq.rs", "            Ordering::Greater => other.map(|y| self.map(|x| x == y)),\n", "            Ordering::Greater => self.map(|x| other.map(|y| x == y)),\n"))
M("C12", "slice-eq-held", (CS + "partial_eq.rs", "        self.iter().position(|e| e == value)\n", "        let first = self.get(0)?;\n        first.map(|_| self.iter().position(|e| e == value))\n"))
M("C11", "fill-take-if-zero", ("mut_elem.rs", "            elem.set(value.clone());\n", "            match core::mem::size_of::<T>() {\n                0 => drop(elem.0.take()),\n                _ => elem.set(value.clone()),\n            }\n"))
M("C08", "reserved-order", ("vec.rs", "        let len = self.len_written().load(Ordering::Acquire);\n", "        let len = self.len_written().fetch_max(0, Ordering::Relaxed);\n"))
M("C03", "permit-n-begin", ("state.rs", "            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,\n            _ => WritePermit::GrowThenWrite,\n", "            (core::cmp::Ordering::Equal, _) => WritePermit::GrowThenWrite,\n            (_, core::cmp::Ordering::Greater) if num_items > 1 => WritePermit::GrowThenWrite,\n            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,\n            _ => WritePermit::GrowThenWrite,\n"))
M("C04", "con-state", ("state.rs", "            len_reserved: len.into(),\n            len_written: len.into(),\n", "            len_reserved: len.into(),\n            len_written: (len / 2 * 2).into(),\n"))
INNER = "        let len = self.reserved_len();\n        // SAFETY"
M("C23", "inner-pop", ("to_vec.rs", "        let pinned = self.into_inner();\n", "        let mut pinned = self.into_inner();\n        if pinned.len() > 4096 {\n            let _ = pinned.pop();\n        }\n"))
M("C23", "inner-truncate", ("to_vec.rs", "        let pinned = self.into_inner();\n", "        let len = self.len();\n        let mut pinned = self.into_inner();\n        pinned.truncate(len.saturating_sub(len / 1000));\n"))
M("C23", "inner-swap", ("to_vec.rs", "        let pinned = self.into_inner();\n", "        let mut pinned = self.into_inner();\n        let n = pinned.len();\n        if n > 1000 {\n            pinned.swap(0, n - 1);\n        }\n"))
M("C23", "into-iter-truncate", (CT + "into_iter.rs", "        let x = self.into_inner();\n", "        let n = self.len();\n        let mut x = self.into_inner();\n        x.truncate(n / 2 * 2);\n"))
M("C23", "from-push", ("vec.rs", "            core: PinnedConcurrentCol::new_from_pinned(pinned_vec),\n", "            core: PinnedConcurrentCol::new_from_pinned({\n                let mut v = pinned_vec;\n                if v.len() % 256 == 255 {\n                    v.push(ConcurrentElement::from(orx_concurrent_option::ConcurrentOption::none()));\n                }\n                v\n            }),\n"))
