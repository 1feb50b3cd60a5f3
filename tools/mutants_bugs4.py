"""Fourth batch of planted bugs (and a few `same` edits beside them)."""
MUTANTS = []


def B(prop, id, *edits):
    MUTANTS.append({"kind": "bug", "id": prop + "-" + id, "prop": prop, "edits": list(edits)})


def S(id, *edits):
    MUTANTS.append({"kind": "same", "id": id, "prop": "", "edits": list(edits)})


CS = "concurrent_slice/"
CLAIMN = "let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);"
LOOP = """        for slice in slices {
            for maybe in slice {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
"""
LEN = """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let mut num_pushed = 0;
        for x in iter {
            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                // an element that is being accessed by another thread is already written
                State::Some | State::Reserved => num_pushed += 1,
            }
        }
        let new_len = len + num_pushed;
"""
CLEAR = """        for elem in unsafe { self.core.iter_mut(len) } {
            elem.0.exclusive_take();
        }
"""
B("C01", "claim-pow2", ("grow.rs", CLAIMN, "let begin_idx = self.len_reserved().fetch_add(num_items.next_power_of_two(), Ordering::Relaxed);", 1))
B("C01", "claim-at-least-one", ("grow.rs", CLAIMN, "let begin_idx = self.len_reserved().fetch_add(num_items.max(1), Ordering::Relaxed);", 1))
B("C01", "claim-aligned", ("grow.rs", CLAIMN, """let begin_idx = self
            .len_reserved()
            .fetch_update(Ordering::Relaxed, Ordering::Relaxed, |len| Some(len.max(4) + num_items))
            .unwrap()
            .max(4);""", 1))
B("C02", "for-idx-loaded", ("grow.rs", "        let mut values = f(begin_idx).into_iter();\n", "        let mut values = f(self.len_reserved().load(Ordering::Relaxed) - num_items).into_iter();\n"))
B("C02", "zip-values-first", ("grow.rs", LOOP, """        for slice in slices {
            for (value, maybe) in values.by_ref().zip(slice) {
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
""", 1))
B("C02", "zip-slots-first", ("grow.rs", LOOP, """        for slice in slices {
            for (maybe, value) in slice.iter().zip(values.by_ref()) {
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
""", 0))
B("C02", "from-iter-lower-only", ("common_traits/from_iter.rs", """        let iter = iter.into_iter();
        match iter.size_hint() {
            (a, Some(b)) if a == b => {
                vec.extend_n_items(iter, a);
            }
            _ => {
""", """        let mut iter = iter.into_iter();
        match iter.size_hint() {
            (a, Some(_)) => {
                vec.extend_n_items(iter.by_ref(), a);
            }
            _ => {
"""))
S("s-from-iter-lower-rest", ("common_traits/from_iter.rs", """        let iter = iter.into_iter();
        match iter.size_hint() {
            (a, Some(b)) if a == b => {
                vec.extend_n_items(iter, a);
            }
            _ => {
                for x in iter {
                    vec.push(x);
                }
            }
        }
""", """        let mut iter = iter.into_iter();
        if let (a, Some(b)) = iter.size_hint() {
            if a == b {
                vec.extend_n_items(iter, a);
                return vec;
            }
        }
        while let Some(x) = iter.next() {
            vec.push(x);
        }
"""))
B("C02", "extend-hint-upper", ("grow.rs", "        let num_items = values.len();\n        self.extend_n_items::<_>", "        let num_items = values.size_hint().0;\n        self.extend_n_items::<_>"))
B("C05", "bisect", ("vec.rs", LEN, """        let (mut lo, mut hi) = (len, until);
        while lo < hi {
            let mid = lo + (hi - lo) / 2;
            match unsafe { self.core.get(mid) }.map(|x| x.0.state(Ordering::Relaxed)) {
                None | Some(State::None) => hi = mid,
                Some(_) => lo = mid + 1,
            }
        }
        let new_len = lo;
"""))
B("C05", "last-visible", ("vec.rs", LEN, """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let mut new_len = len;
        for (i, x) in iter.enumerate() {
            if !matches!(x.0.state(Ordering::Relaxed), State::None) {
                new_len = len + i + 1;
            }
        }
"""))
S("s-len-max-prev", ("vec.rs", """        self.len_written().fetch_max(new_len, Ordering::Release);

        new_len
""", """        let prev = self.len_written().fetch_max(new_len, Ordering::AcqRel);

        prev.max(new_len)
"""))
S("s-len-acquire-fence", ("vec.rs", "        let len = self.len_written().load(Ordering::Acquire);\n", "        let len = self.len_written().load(Ordering::Relaxed);\n        core::sync::atomic::fence(Ordering::Acquire);\n"))
B("C06", "split-at-reserved", ("split.rs", "        (self.slice(0..mid), self.slice(mid..))\n", "        (self.slice(0..mid), ConcurrentSlice::new(self, mid, self.reserved_len() - mid))\n"))
B("C06", "index-core", ("common_traits/index.rs", "        self.get(i).expect(\"out-of-bounds\")\n", "        unsafe { self.core.get(i) }.expect(\"out-of-bounds\")\n", 0))
B("C07", "map-plain-types", ("elem.rs", "        self.0.map(f).expect(HAS_VALUE)\n", """        if !core::mem::needs_drop::<T>() {
            return f(unsafe { self.0.as_ref() }.expect(HAS_VALUE));
        }
        self.0.map(f).expect(HAS_VALUE)
"""))
B("C07", "set-plain-types", ("elem.rs", "        assert!(self.0.set_some(value), \"Failed to set the element\");\n", """        if !core::mem::needs_drop::<T>() {
            let p = self.0.get_raw_mut().expect(HAS_VALUE);
            unsafe { p.write(value) };
            return;
        }
        assert!(self.0.set_some(value), "Failed to set the element");
"""))
B("C32", "fill-with-locked", ("mut_elem.rs", "            elem.set(value(i));\n", "            elem.update(|x| *x = value(i));\n"))
B("C32", "fill-locked", (CS + "mut_elem.rs", "            elem.set(value.clone());\n", "            elem.update(|x| *x = value.clone());\n"))
B("C17", "clear-needs-drop", ("exclusive.rs", CLEAR, """        if core::mem::needs_drop::<T>() {
            for elem in unsafe { self.core.iter_mut(len) } {
                elem.0.exclusive_take();
            }
        }
"""))
B("C04", "clear-until-none", ("exclusive.rs", CLEAR, """        for elem in unsafe { self.core.iter_mut(len) } {
            if elem.0.exclusive_take().is_none() {
                break;
            }
        }
"""))
B("C18", "iter-cloned-reserved", ("vec.rs", "        unsafe { self.core.iter(self.len()) }.map(|elem| elem.cloned())\n", "        unsafe { self.core.iter(self.reserved_len()) }.filter_map(|elem| elem.0.clone_into_option())\n"))
B("C18", "nth-iter", (CS + "partial_eq.rs", "        self.iter().position(|e| e == value)\n", """        let mut iter = self.iter();
        let mut i = 0;
        while let Some(e) = iter.next() {
            if e == value {
                return Some(i);
            }
            match iter.next() {
                Some(e) if e == value => return Some(i + 1),
                _ => i += 1,
            }
        }
        None
"""))
S("s-index-of-unrolled", (CS + "partial_eq.rs", "        self.iter().position(|e| e == value)\n", """        let mut iter = self.iter();
        let mut i = 0;
        while let Some(e) = iter.next() {
            if e == value {
                return Some(i);
            }
            match iter.next() {
                Some(e) if e == value => return Some(i + 1),
                Some(_) => i += 2,
                None => break,
            }
        }
        None
"""))
B("C28", "debug-assert-race", ("vec.rs", """        let len = b - a;
        ConcurrentSlice::new(self, a, len)
""", """        let len = b - a;
        debug_assert_eq!(b.max(self.len()), self.reserved_len());
        ConcurrentSlice::new(self, a, len)
"""))
B("C28", "clone-assert", (CS + "to_vec.rs", """            vec.push(x);
        }
        vec
""", """            vec.push(x);
        }
        assert_eq!(vec.len(), self.vec.len().min(self.a + self.len) - self.a);
        assert_eq!(vec.len() + self.a <= self.vec.reserved_len(), self.vec.len() >= self.vec.reserved_len());
        vec
"""))
B("C31", "get-visible-only", ("vec.rs", """            true => unsafe { self.core.get(i) },
            false => None,
""", """            true => unsafe { self.core.get(i) }.filter(|e| e.0.is_some()),
            false => None,
"""))
B("C31", "get-state-some", ("vec.rs", """            true => unsafe { self.core.get(i) },
            false => None,
""", """            true => unsafe { self.core.get(i) }
                .filter(|e| matches!(e.0.state(Ordering::Acquire), State::Some)),
            false => None,
"""))
B("C10", "replace-two", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)\n", """        let mut value = Some(value);
        let mut previous = None;
        self.0.update_if_some(|x| {
            if let Some(value) = value.take() {
                previous = Some(core::mem::replace(x, value));
            }
        });
        let previous = previous.expect(HAS_VALUE);
        self.0.update_if_some(|_| {});
        previous
"""))
S("s-replace-closure", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)\n", """        let mut value = Some(value);
        let mut previous = None;
        self.0.update_if_some(|x| {
            if let Some(value) = value.take() {
                previous = Some(core::mem::replace(x, value));
            }
        });
        previous.expect(HAS_VALUE)
"""))
B("C20", "get-ref-first-order", ("unsafe_api.rs", """                    x.0.as_ref_with_order(Ordering::SeqCst)
                        .or_else(|| x.0.as_ref())
""", """                    x.0.as_ref_with_order(Ordering::SeqCst)
""", 0))
S("s-swap-neighbours", ("mut_elem.rs", """        let h_i = unsafe { self.mut_handle(i, SOME, SOME) };
        let h_j = unsafe { self.mut_handle(j, SOME, SOME) };
""", """        let h_i = unsafe { self.mut_handle(i, SOME, SOME) };
        let h_j = match i + 1 == j {
            true => unsafe { self.mut_handle(i + 1, SOME, SOME) },
            false => unsafe { self.mut_handle(j.min(self.len() - 1), SOME, SOME) },
        };
"""))
B("C21", "swap-not-held", ("mut_elem.rs", """            (Some(h_i), Some(h_j)) => {
                let mut_i""", """            (Some(h_i), Some(h_j)) if core::mem::size_of::<T>() > 0 => {
                let mut_i"""))
B("C30", "fixed-pow2", ("new.rs", "FixedVec::new(fixed_capacity)", "FixedVec::new(fixed_capacity.next_power_of_two())"))
B("C30", "linear-swap", ("new.rs", """            constant_fragment_capacity_exponent,
            fragments_capacity,
        ))""", """            constant_fragment_capacity_exponent,
            fragments_capacity.min(1 << constant_fragment_capacity_exponent),
        ))"""))
S("s-chunk-count-sub", ("split.rs", "        let mut num_slices = len / chunk_size;\n", "        let chunk_size = chunk_size.min(len.max(1));\n        let mut num_slices = len / chunk_size;\n"))
B("C23", "to-vec-capacity", ("to_vec.rs", "        for x in pinned {\n", "        let n = vec.capacity();\n        for x in pinned.into_iter().take(n / 2 * 2) {\n"))
B("C19", "eq-break-early", ("common_traits/eq.rs", """            (Some(a), Some(b)) if a == b => continue,
            (None, None) => return true,
            _ => return false,
        }
    }
}

fn eq_elem_iter_to_iter""", """            (Some(a), Some(b)) if a == b => continue,
            (None, _) => return b.next().is_none(),
            _ => return false,
        }
    }
}

fn eq_elem_iter_to_iter"""))
B("C14", "slice-slice-none", (CS + "slice.rs", "vec_range_limits(&range, Some(self.len()))", "vec_range_limits(&range, Some(self.vec.len() - self.a))"))
B("C27", "update-handle-forget", ("elem.rs", "        assert!(self.0.update_if_some(f), \"Failed to update the element\");\n", """        let mut f = f;
        let handle = unsafe { self.0.mut_handle(orx_concurrent_option::SOME, orx_concurrent_option::SOME) };
        let handle = core::mem::ManuallyDrop::new(handle.expect("Failed to update the element"));
        f(unsafe { handle.get_mut() });
        drop(core::mem::ManuallyDrop::into_inner(handle));
"""))
B("C13", "assert-after-claim", ("grow.rs", """        self.assert_can_ever_fit(num_items);
        let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
        let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
        let mut values = values.into_iter();
""", """        let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
        self.assert_can_ever_fit(num_items);
        let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
        let mut values = values.into_iter();
"""))
B("C03", "permit-begin-only", ("state.rs", "(_, core::cmp::Ordering::Less) => WritePermit::JustWrite,", "(core::cmp::Ordering::Less, core::cmp::Ordering::Less | core::cmp::Ordering::Equal) => WritePermit::JustWrite,"))
B("C22", "update-writes-cell", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)\n", """        let this = self as *const Self as *mut Self;
        let new = Self(ConcurrentOption::some(value));
        let old = unsafe { core::ptr::replace(this, new) };
        old.0.unwrap()
"""))
B("C09", "from-option-ref", ("elem.rs", "impl<T> ConcurrentElement<T> {\n", """impl<T> AsRef<ConcurrentOption<T>> for ConcurrentElement<T> {
    fn as_ref(&self) -> &ConcurrentOption<T> {
        &self.0
    }
}

impl<T> ConcurrentElement<T> {
""", 0))
B("C16", "iter-values-shared", ("common_traits/into_iter.rs", "pub struct ElementValuesIter", """impl<'a, T: Clone + 'static, P> IntoIterator for &'a ConcurrentVec<T, P>
where
    P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
{
    type Item = &'static ConcurrentElement<T>;
    type IntoIter = alloc::vec::IntoIter<&'static ConcurrentElement<T>>;
    fn into_iter(self) -> Self::IntoIter {
        let v: alloc::vec::Vec<&'static ConcurrentElement<T>> = self
            .iter()
            .map(|e| unsafe { &*(e as *const ConcurrentElement<T>) })
            .collect();
        v.into_iter()
    }
}

pub struct ElementValuesIter""", 0))
