"""Seventh batch of bugs: stale snapshots, fast paths for particular types or sizes, wrong fallbacks, retries, two cooperating sites."""
MUTANTS = []
CS = "concurrent_slice/"
CT = "common_traits/"


def M(prop, id, *edits):
    MUTANTS.append({"kind": "bug", "id": f"{prop}-b7-{id}", "prop": prop, "edits": list(edits)})


PUSH = "        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);\n"
CLAIM = "        let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);\n"
SLICES = "        let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };\n"
INIT = "        unsafe { maybe.0.initialize_unchecked(value) };\n"
LOOP = """        for slice in slices {
            for maybe in slice {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
"""
GET = """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }"""
SWAP = """                core::mem::swap(mut_i, mut_j);
                true
"""
FETCHMAX = "        self.len_written().fetch_max(new_len, Ordering::Release);\n"

M("C01", "sub-on-oversize", ("grow.rs", CLAIM, CLAIM + "        if begin_idx + num_items > self.maximum_capacity() {\n            self.len_reserved().fetch_sub(num_items, Ordering::Relaxed);\n            panic!(\"out of capacity\");\n        }\n", 1))
M("C01", "push-sub-on-oversize", ("grow.rs", PUSH, PUSH + "        if idx >= self.maximum_capacity() {\n            self.len_reserved().store(self.maximum_capacity(), Ordering::Relaxed);\n            panic!(\"out of capacity\");\n        }\n", 0))
M("C01", "return-len", ("grow.rs", INIT + "\n        idx\n", INIT + "\n        self.len_reserved().load(Ordering::Relaxed) - 1\n", 0))
M("C01", "zero-items", ("grow.rs", CLAIM, "        let num_items = match core::mem::size_of::<T>() {\n            0 => 1,\n            _ => num_items,\n        };\n" + CLAIM, 1))
M("C01", "peek-swap", ("grow.rs", CLAIM, "        let begin_idx = self.len_reserved().load(Ordering::Acquire);\n        let begin_idx = self.len_reserved().swap(begin_idx + num_items, Ordering::AcqRel).max(begin_idx);\n", 0))
M("C02", "skip-zst", ("grow.rs", LOOP, "        if core::mem::size_of::<T>() == 0 {\n            return begin_idx;\n        }\n" + LOOP, 1))
M("C02", "write-twice", ("grow.rs", LOOP, LOOP.replace("                unsafe { maybe.0.initialize_unchecked(value) };\n", "                if maybe.0.is_none() {\n                    unsafe { maybe.0.initialize_unchecked(value) };\n                }\n"), 0))
M("C02", "extra-next", ("grow.rs", LOOP, LOOP.replace("            }\n        }\n", "            }\n            if num_items > 64 {\n                let _ = values.next();\n            }\n        }\n"), 1))
M("C02", "from-iter-zero", (CT + "from_iter.rs", "            (a, Some(b)) if a == b => {\n", "            (_, Some(0)) => {}\n            (a, Some(b)) if a + 1 >= b => {\n"))
M("C02", "from-iter-max", (CT + "from_iter.rs", "                for x in iter {\n                    vec.push(x);\n", "                for x in iter.take(1 << 20) {\n                    vec.push(x);\n"))
M("C02", "forget-on-busy", ("grow.rs", INIT, "        if maybe.0.state(Ordering::Relaxed) == orx_concurrent_option::State::None {\n            unsafe { maybe.0.initialize_unchecked(value) };\n        }\n", 0))
M("C03", "state-wider", ("state.rs", "        let last_idx = begin_idx + num_items - 1;\n", "        let last_idx = begin_idx + num_items;\n"))
M("C03", "spin-eq", ("state.rs", "            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,\n", "            (core::cmp::Ordering::Greater, _) if num_items < 1024 => WritePermit::Spin,\n"))
M("C03", "stale-max", ("state.rs", "        let capacity = col.capacity();\n\n        match idx", "        let capacity = col.capacity().max(4);\n\n        match idx", 0))
M("C04", "fill-zst", ("state.rs", "        Some(|| ConcurrentElement(ConcurrentOption::none()))\n", "        match core::mem::needs_drop::<T>() {\n            true => Some(|| ConcurrentElement(ConcurrentOption::none())),\n            false => None,\n        }\n"))
M("C04", "clear-written", ("exclusive.rs", "        for elem in unsafe { self.core.iter_mut(len) } {\n", "        let written = self.len();\n        for elem in unsafe { self.core.iter_mut(written) } {\n"))
M("C05", "return-published", ("vec.rs", FETCHMAX + "\n        new_len\n", FETCHMAX + "\n        self.len_written().load(Ordering::Relaxed).max(until)\n"))
M("C05", "publish-twice", ("vec.rs", FETCHMAX, "        if new_len > len {\n            self.len_written().fetch_add(new_len - len, Ordering::Release);\n        }\n"))
M("C05", "reset-on-gap", ("vec.rs", FETCHMAX, "        if num_pushed == 0 && until > len + 1 {\n            self.len_written().store(len, Ordering::Release);\n        }\n" + FETCHMAX))
M("C05", "continue-past", ("vec.rs", "                State::None => break,\n", "                State::None if num_pushed > 0 => break,\n                State::None => continue,\n"))
M("C05", "for-idx-early", ("grow.rs", "        let value = f(idx);\n" + INIT, "        if idx == self.len_written().load(Ordering::Relaxed) {\n            self.len_written().fetch_max(idx + 1, Ordering::Release);\n        }\n        let value = f(idx);\n" + INIT))
M("C06", "get-len-cached", ("vec.rs", GET, "        let len = self.len_written().load(Ordering::Acquire);\n        match i < len || i < self.reserved_len() && i < len + 16 {\n            true => unsafe { self.core.get(i) },\n            false => None,\n        }"))
M("C06", "as-slice-res", ("vec.rs", "        self.slice(0..self.len())\n", "        ConcurrentSlice::new(self, 0, self.len_reserved().load(Ordering::Acquire).min(self.capacity()))\n"))
M("C07", "eq-value-fast", (CT + "eq.rs", "            (Some(a), Some(b)) if a.0.is_some_and(|a| a == b) => continue,\n", "            (Some(a), Some(b)) if unsafe { a.0.as_ref() }.is_some_and(|a| a == b) => continue,\n"))
M("C07", "replace-outside", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)\n", "        let mut value = value;\n        match self.0.get_raw_mut() {\n            Some(p) if core::mem::size_of::<T>() <= 8 => {\n                core::mem::swap(unsafe { &mut *p }, &mut value);\n                value\n            }\n            _ => self.0.replace(value).expect(HAS_VALUE),\n        }\n"))
M("C08", "get-raw-or-relaxed", ("unsafe_api.rs", "                        .or_else(|| x.0.get_raw())\n", "                        .or_else(|| x.0.get_raw_with_order(Ordering::Relaxed))\n"))
M("C08", "len-acquire-const", ("vec.rs", "        let len = self.len_written().load(Ordering::Acquire);\n", "        let len = self.len_written().fetch_add(0, Ordering::Release);\n"))
M("C08", "len-cas-relaxed", ("vec.rs", FETCHMAX, "        let _ = self.len_written().compare_exchange(len, new_len, Ordering::Relaxed, Ordering::Relaxed);\n"))
M("C09", "elem-raw", ("elem.rs", "const HAS_VALUE", "impl<T> core::borrow::Borrow<ConcurrentOption<T>> for ConcurrentElement<T> {\n    fn borrow(&self) -> &ConcurrentOption<T> {\n        &self.0\n    }\n}\n\nconst HAS_VALUE"))
M("C10", "update-clone", ("elem.rs", "        assert!(self.0.update_if_some(f), \"Failed to update the element\");\n", "        let mut f = f;\n        let mut n = 0;\n        assert!(self.0.update_if_some(|x| { n += 1; if n < 2 { f(x) } }), \"Failed to update the element\");\n        if core::mem::size_of::<T>() > 4096 {\n            assert!(self.0.update_if_some(f), \"Failed to update the element\");\n        }\n"))
M("C10", "set-if-changed", ("elem.rs", "        assert!(self.0.set_some(value), \"Failed to set the element\");\n", "        match core::mem::size_of::<T>() {\n            0 => {}\n            _ => assert!(self.0.set_some(value), \"Failed to set the element\"),\n        }\n"))
M("C10", "replace-copy", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)\n", "        let old = self.0.map(|x| unsafe { core::ptr::read(x) }).expect(HAS_VALUE);\n        core::mem::forget(self.0.replace(value));\n        old\n"))
M("C11", "set-reinit", ("elem.rs", "        assert!(self.0.set_some(value), \"Failed to set the element\");\n", "        let _ = self.0.take();\n        assert!(self.0.initialize_if_none(value), \"Failed to set the element\");\n"))
M("C19", "eq-elem-addr-low", (CT + "eq.rs", "        match (self as *const Self).cmp(&(other as *const Self)) {\n", "        match (self as *const Self as u32).cmp(&(other as *const Self as u32)) {\n"))
M("C12", "swap-by-pos", ("mut_elem.rs", "                Ordering::Less => (i, j),\n", "                Ordering::Less if i < j => (i, j),\n                Ordering::Less => (j, i),\n"))
M("C13", "values-before-storage", ("grow.rs", SLICES + "        let mut values = values.into_iter();\n", "        let mut values = values.into_iter();\n" + SLICES))
M("C13", "for-idx-f-first", ("grow.rs", "        // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.\n        let maybe = unsafe { self.core.single_item_as_ref(idx) };\n        let value = f(idx);\n", "        let value = f(idx);\n        let maybe = unsafe { self.core.single_item_as_ref(idx) };\n"))
M("C13", "drop-old-first", ("grow.rs", SLICES, "        let first = values.into_iter();\n        let values = first;\n        let _ = values.size_hint();\n" + SLICES, 1))
M("C14", "slice-limits-none", (CS + "slice.rs", "        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.len()));\n", "        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, None);\n        let b = b.min(self.vec.len());\n"))
M("C14", "iter-mut-cap", (CS + "unsafe_api.rs", "        let b = self.a + self.len;\n", "        let b = (self.a + self.len).max(self.vec.len().min(self.len + 1));\n", 1))
M("C17", "clear-order", ("exclusive.rs", "            elem.0.exclusive_take();\n        }\n        unsafe { self.core.clear(len) };\n", "            match core::mem::needs_drop::<T>() {\n                true => drop(elem.0.exclusive_take()),\n                false => {}\n            }\n        }\n        unsafe { self.core.clear(len) };\n"))
M("C17", "clear-first-then-take", ("exclusive.rs", "            elem.0.exclusive_take();\n", "            core::mem::forget(elem.0.exclusive_take());\n"))
M("C17", "into-inner-max", ("vec.rs", "        let len = self.reserved_len();\n        // #", "        let len = self.reserved_len().max(self.len_written().load(Ordering::Relaxed)).min(self.capacity()) & !(1 << 12);\n        // #"))
M("C18", "filter-index", (CS + "iter_shorthands.rs", "        self.iter().filter(move |elem| elem.map(|x: &T| f(x)))\n", "        self.iter().skip_while(|e| self.vec.core.state().len() == 0 && e.0.is_none()).step_by(1 + self.len / (1 << 16)).filter(move |elem| elem.map(|x: &T| f(x)))\n"))
M("C18", "fold-stop", ("iter_shorthands.rs", "        self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x)))\n", "        let n = self.len_written().load(core::sync::atomic::Ordering::Acquire);\n        self.iter().take(n.saturating_sub(n / (1 << 14))).fold(init, |agg, elem| elem.map(|x| f(agg, x)))\n"))
M("C18", "index-of-back", (CS + "partial_eq.rs", "        self.iter().position(|e| e == value)\n", "        match self.get(self.len().wrapping_sub(1)) {\n            Some(e) if self.len() > 8 && e == value => Some(self.len() - 1),\n            _ => self.iter().position(|e| e == value),\n        }\n"))
M("C18", "clone-to-vec-from-iter", ("to_vec.rs", "        self.as_slice().clone_to_vec()\n", "        let mut vec = self.as_slice().clone_to_vec();\n        let n = vec.len();\n        vec.extend(self.slice(n..).iter_cloned());\n        vec.truncate(n + n / 4);\n        vec\n"))
M("C18", "debug-lim", (CT + "debug.rs", "        for elem in iter {\n", "        for elem in iter.take(1 << 10) {\n"))
M("C19", "len-first", (CT + "eq.rs", "        eq_elem_iters(self.iter(), other.iter())\n    }\n}\n\nimpl<'a, T: PartialEq> PartialEq<ConcurrentSlice<'a, T>> for ConcurrentVec<T> {", "        self.len_written().load(core::sync::atomic::Ordering::Acquire) == other.len_written().load(core::sync::atomic::Ordering::Acquire) && eq_elem_iters(self.iter(), other.iter())\n    }\n}\n\nimpl<'a, T: PartialEq> PartialEq<ConcurrentSlice<'a, T>> for ConcurrentVec<T> {"))
M("C19", "array-n", (CT + "eq.rs", "        eq_elem_iter_to_iter(self.iter(), other.iter())\n", "        eq_elem_iter_to_iter(self.iter().take(N), other.iter())\n", 1))
M("C19", "missing-equal", (CT + "eq.rs", "            Ordering::Equal => self.map(|x| x == x),\n", "            Ordering::Equal => true,\n"))
M("C20", "get-mut-acquire-only", ("unsafe_api.rs", "                elem.and_then(|option| option.0.get_raw_mut().map(|p| &mut *p))\n", "                elem.and_then(|option| option.0.get_raw_mut_with_order(Ordering::SeqCst).map(|p| &mut *p))\n"))
M("C20", "iter-ref-take-while", ("unsafe_api.rs", "        let x = self.core.iter(self.reserved_len());\n        x.flat_map(|x| unsafe {\n", "        let x = self.core.iter(self.reserved_len());\n        x.take_while(|x| x.0.is_some()).flat_map(|x| unsafe {\n"))
M("C21", "swap-cond", ("mut_elem.rs", SWAP, "                if core::mem::needs_drop::<T>() || i != j + 1 {\n                    core::mem::swap(mut_i, mut_j);\n                }\n                true\n"))
M("C21", "swap-range-shift", (CS + "mut_elem.rs", "            (Some(i), Some(j)) => self.vec.swap(i, j),\n", "            (Some(i), Some(j)) if i == j => i < self.len,\n            (Some(i), Some(j)) => self.vec.swap(i, j),\n"))
M("C23", "from-trim", ("state.rs", "            len_reserved: pinned_vec.len().into(),\n            len_written: pinned_vec.len().into(),\n", "            len_reserved: pinned_vec.len().into(),\n            len_written: pinned_vec.len().min(1 << 16).into(),\n"))
M("C23", "from-visible", ("state.rs", "            len_reserved: pinned_vec.len().into(),\n", "            len_reserved: pinned_vec.iter().take_while(|x| x.0.is_some()).count().into(),\n"))
M("C24", "size-one", (CS + "split.rs", "        if remainder > 0 {\n            num_slices += 1;\n        }\n", "        if remainder > 0 && (remainder > 1 || chunk_size < 100) {\n            num_slices += 1;\n        }\n"))
M("C27", "swap-forget", ("mut_elem.rs", SWAP, "                core::mem::swap(mut_i, mut_j);\n                if i == j + 1 {\n                    core::mem::forget((h_i, h_j));\n                }\n                true\n"))
M("C28", "reserved-overflow", ("grow.rs", CLAIM, "        assert!(self.len_reserved().load(Ordering::Relaxed) + num_items <= self.maximum_capacity());\n" + CLAIM, 1))
M("C28", "split-at-strict", (CS + "split.rs", "        assert!(mid <= len);\n", "        assert!(mid < len || len < 2);\n"))
M("C29", "len-waits", ("vec.rs", "                State::None => break,\n", "                State::None => {\n                    let mut n = 0;\n                    while x.0.is_none() && n < usize::MAX {\n                        core::hint::spin_loop();\n                        n += 0;\n                    }\n                    break\n                }\n"))
M("C30", "default-fewer", ("new.rs", "        Self::with_doubling_growth()\n    }\n}\n\nimpl<T> ConcurrentVec<T, SplitVec<ConcurrentElement<T>, Doubling>> {", "        Self::new_from_pinned(SplitVec::with_doubling_growth_and_fragments_capacity(24))\n    }\n}\n\nimpl<T> ConcurrentVec<T, SplitVec<ConcurrentElement<T>, Doubling>> {"))
M("C30", "reserve-max", ("exclusive.rs", "                .reserve_maximum_capacity(self.reserved_len(), new_maximum_capacity)\n", "                .reserve_maximum_capacity(self.reserved_len(), new_maximum_capacity.min(self.capacity() * 2))\n"))
M("C31", "get-even", ("vec.rs", GET, "        let len = self.len_written().load(Ordering::Acquire);\n        match i < len {\n            true => unsafe { self.core.get(i) },\n            false => None,\n        }"))
M("C31", "get-cloned-try", ("vec.rs", "            true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),\n", "            true => unsafe { self.core.get(i) }.and_then(|elem| match elem.0.state(Ordering::Acquire) {\n                State::Some => elem.0.clone_into_option(),\n                _ => None,\n            }),\n"))
M("C32", "debug-nested", (CT + "debug.rs", "    if let Some(first) = iter.next() {\n        first.map(|x| write!(f, \"{:?}\", x))?;\n", "    if let Some(first) = iter.next() {\n        first.map(|x| {\n            write!(f, \"{:?}\", x)\n        })?;\n        let mut last = first;\n        for elem in iter.by_ref().take(1) {\n            last.map(|_| elem.map(|x| write!(f, \", {:?}\", x)))?;\n            last = elem;\n        }\n        let _ = last;\n"))
M("C32", "reduce-held", (CS + "iter_shorthands.rs", "                    agg = elem.map(|x| f(&agg, x));\n", "                    agg = first.map(|_| elem.map(|x| f(&agg, x)));\n"))
M("C16", "into-ref", ("vec.rs", "    pub fn capacity(&self) -> usize {", "    pub fn drain_all(&self) -> P where P: Clone {\n        let c = unsafe { core::ptr::read(&self.core) };\n        let n = self.reserved_len();\n        unsafe { c.into_inner(n) }\n    }\n\n    /// Cap.\n    pub fn capacity(&self) -> usize {"))
M("C15", "iter-elem-sync", ("elem.rs", "unsafe impl<T: Send + Sync> Sync for ConcurrentElement<T> {}", "unsafe impl<T: Send> Sync for ConcurrentElement<T> {}"))
