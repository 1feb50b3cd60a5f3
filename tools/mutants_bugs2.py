MUTANTS = []


def B(prop, name, *edits):
    MUTANTS.append(dict(id=f"{prop}-{name}", kind="bug", prop=prop, edits=list(edits)))


def Same(prop, name, *edits):
    """an edit of this list that turned out to keep the behaviour"""
    MUTANTS.append(dict(id=f"{prop}-{name}", kind="same", prop=prop, edits=list(edits)))


# C14
S = "concurrent_slice/slice.rs"
B("C14", "subslice-origin", (S, "ConcurrentSlice::new(self.vec, self.a + a, len)", "ConcurrentSlice::new(self.vec, a, len)"))
B("C14", "subslice-veclen", (S, "vec_range_limits(&range, Some(self.len()));", "vec_range_limits(&range, Some(self.vec.len() - self.a));"))
B("C14", "get-veclen", (S, "match i < self.len {\n            true => unsafe { self.vec.core.get(self.a + i) },", "match self.a + i < self.vec.len() {\n            true => unsafe { self.vec.core.get(self.a + i) },"))
B("C14", "get-cloned-origin", (S, "unsafe { self.vec.core.get(self.a + i) }.map(|e| e.cloned())", "self.vec.get(i).map(|e| e.cloned())"))
B("C14", "iter-to-end", (S, "let b = self.a + self.len;", "let b = self.vec.len();", 0))
B("C14", "iter-cloned-len", (S, "let b = self.a + self.len;", "let b = (self.a + self.len).max(self.vec.len().min(self.a + self.len + 1));", 1))
B("C14", "iter-ref-b", ("concurrent_slice/unsafe_api.rs", "let b = self.a + self.len;", "let b = self.vec.reserved_len();", 0))
B("C14", "swap-untranslated", ("concurrent_slice/mut_elem.rs", "(Some(i), Some(j)) => self.vec.swap(i, j)", "(Some(i), Some(_)) => self.vec.swap(i, j)"))
B("C14", "split-last", ("concurrent_slice/split.rs", "let b = &self[len - 1];", "let b = &self.vec[len - 1];"))
B("C14", "split-first-rest", ("concurrent_slice/split.rs", "let b = self.slice(1..self.len());", "let b = self.vec.slice(1..self.len());"))
Same("C14", "idx-saturate", (S, "true => Some(self.a + i),", "true => Some((self.a + i).min(self.vec.len())),"))
B("C14", "idx-wrap", (S, "match i < self.len {\n            true => Some(self.a + i),", "match self.a.wrapping_add(i) < self.a + self.len {\n            true => Some(self.a.wrapping_add(i)),"))
B("C14", "vec-slice-unbounded", ("vec.rs", "let len = b - a;", "let len = if b > a { b - a } else { self.len() - a };"))
B("C14", "split-at-extra", ("concurrent_slice/split.rs", "(self.slice(0..mid), self.slice(mid..len))", "(self.slice(0..mid), ConcurrentSlice::new(self.vec, self.a + mid, len))"))

# C15
B("C15", "vec-sync", ("vec.rs", "unsafe impl<T: Send + Sync, P", "unsafe impl<T: Sync, P"))
B("C15", "elem-sync", ("elem.rs", "unsafe impl<T: Send + Sync> Sync", "unsafe impl<T: Sync> Sync"))
B("C15", "vec-send", ("vec.rs", "unsafe impl<T: Send, P", "unsafe impl<T, P"))
B("C15", "elem-send", ("elem.rs", "unsafe impl<T: Send> Send", "unsafe impl<T> Send"))
B("C15", "slice-send", (S, "impl<'a, T, P> ConcurrentSlice<'a, T, P>", "unsafe impl<'a, T: Send, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Send for ConcurrentSlice<'a, T, P> {}\nunsafe impl<'a, T: Send, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync for ConcurrentSlice<'a, T, P> {}\nimpl<'a, T, P> ConcurrentSlice<'a, T, P>"))
B("C15", "iter-send", ("common_traits/into_iter.rs", "impl<T, P> Iterator for", "unsafe impl<T, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Send for ElementValuesIter<T, P> {}\nimpl<T, P> Iterator for"))

# C16
B("C16", "clear-shared", ("exclusive.rs", "pub fn clear(&mut self) {\n        let len = self.reserved_len();\n        for elem in unsafe { self.core.iter_mut(len) } {", "pub fn clear(&self) {\n        #[allow(invalid_reference_casting)]\n        let this = unsafe { &mut *(self as *const Self).cast_mut() };\n        let len = this.reserved_len();\n        for elem in unsafe { this.core.iter_mut(len) } {"), ("exclusive.rs", "unsafe { self.core.clear(len) };", "unsafe { this.core.clear(len) };"))
B("C16", "slice-lifetime", ("vec.rs", "pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> ConcurrentSlice<T, P> {\n        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.len()));\n        let len = b - a;\n        ConcurrentSlice::new(self, a, len)", "pub fn slice<'s, R: RangeBounds<usize>>(&self, range: R) -> ConcurrentSlice<'s, T, P> {\n        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.len()));\n        let len = b - a;\n        ConcurrentSlice::new(unsafe { &*(self as *const Self) }, a, len)"))
B("C16", "split-first-static", ("split.rs", "pub fn split_first(&self) -> Option<(&ConcurrentElement<T>, ConcurrentSlice<T, P>)> {\n        match self.get(0) {", "pub fn split_first<'z>(&self) -> Option<(&'z ConcurrentElement<T>, ConcurrentSlice<T, P>)> {\n        match self.get(0).map(|x| unsafe { &*(x as *const ConcurrentElement<T>) }) {"))
B("C16", "reserve-shared", ("exclusive.rs", "pub fn reserve_maximum_capacity(&mut self, new_maximum_capacity: usize) -> usize {\n        unsafe {\n            self.core", "pub fn reserve_maximum_capacity(&self, new_maximum_capacity: usize) -> usize {\n        unsafe {\n            (*(self as *const Self as *mut Self)).core"))
B("C16", "to-vec-shared", ("vec.rs", "pub fn into_inner(self) -> P {\n        let len = self.reserved_len();\n        unsafe { self.core.into_inner(len) }", "pub fn into_inner(&self) -> P {\n        let this = unsafe { core::ptr::read(self) };\n        let len = this.reserved_len();\n        unsafe { this.core.into_inner(len) }"))

# C17
B("C17", "clear-no-take", ("exclusive.rs", "            elem.0.exclusive_take();\n", "            if core::mem::needs_drop::<T>() { elem.0.exclusive_take(); }\n"))
B("C17", "into-inner-state-len", ("vec.rs", "let len = self.reserved_len();\n        unsafe { self.core.into_inner(len) }", "let len = self.core.state().len();\n        unsafe { self.core.into_inner(len) }"))
B("C17", "into-inner-capacity", ("vec.rs", "let len = self.reserved_len();\n        unsafe { self.core.into_inner(len) }", "let len = self.core.capacity();\n        unsafe { self.core.into_inner(len) }"))
B("C17", "con-state-zero", ("state.rs", "        Self {\n            len_reserved: len.into(),\n            len_written: len.into(),\n        }", "        Self {\n            len_reserved: len.into(),\n            len_written: 0.into(),\n        }"))
B("C17", "con-state-cap", ("state.rs", "        Self {\n            len_reserved: len.into(),\n            len_written: len.into(),\n        }", "        Self {\n            len_reserved: len.into(),\n            len_written: (len + len / 1024).into(),\n        }"))
B("C17", "clear-wrong-len", ("exclusive.rs", "unsafe { self.core.clear(len) };", "unsafe { self.core.clear(self.len()) };"))
B("C17", "clear-keeps-reserved", ("exclusive.rs", "unsafe { self.core.clear(len) };", "unsafe { self.core.clear(len) }; self.len_reserved().store(len.min(0), core::sync::atomic::Ordering::Relaxed); self.len_written().store(len, core::sync::atomic::Ordering::Relaxed);"))
B("C17", "clear-early", ("exclusive.rs", "let len = self.reserved_len();", "if self.len() == 0 { return; }\n        let len = self.reserved_len();"))
B("C17", "iter-read-forget", ("to_vec.rs", "vec.push(x.0.expect(\"unwrapped none\"));", "let v = unsafe { core::ptr::read(x.0.get_raw().expect(\"unwrapped none\")) }; vec.push(v);"))
B("C17", "into-iter-read", ("common_traits/into_iter.rs", "self.iter.next().map(|e| e.0.unwrap())", "self.iter.next().map(|e| { let v = unsafe { core::ptr::read(e.0.get_raw().unwrap()) }; if core::mem::size_of::<T>() > 64 { core::mem::forget(e); } v })"))
B("C17", "reserve-written", ("exclusive.rs", ".reserve_maximum_capacity(self.reserved_len(), new_maximum_capacity)", ".reserve_maximum_capacity(self.core.state().len(), new_maximum_capacity)"))

# C18
B("C18", "reduce-skip", ("concurrent_slice/iter_shorthands.rs", "for elem in iter {", "for elem in iter.skip_while(|e| core::ptr::eq(*e, first)).take(1 << 24) {"))
B("C18", "index-of-last", ("partial_eq.rs", "self.iter().position(|e| e == value)", "self.iter().enumerate().filter(|(_, e)| *e == value).map(|(i, _)| i).last()"))
B("C18", "fold-all", ("iter_shorthands.rs", "self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x)))", "self.iter().take(1 << 20).fold(init, |agg, elem| elem.map(|x| f(agg, x)))"))
B("C18", "fill-skip-first", ("mut_elem.rs", "for elem in self.iter() {", "for elem in self.iter().skip(usize::from(self.len() > 1 << 16)) {"))
B("C18", "fill-with-index", ("mut_elem.rs", "elem.set(value(i));", "elem.set(value(i % (1 << 20)));"))
B("C18", "slice-fill-with-abs", ("concurrent_slice/mut_elem.rs", "elem.set(value(i));", "elem.set(value(if self.len > 1 << 10 { self.a + i } else { i }));"))
B("C18", "debug-skip", ("common_traits/debug.rs", "for elem in iter {", "for elem in iter.take(1000) {"))
B("C18", "clone-to-vec-cap", ("concurrent_slice/to_vec.rs", "for x in iter {\n            vec.push(x);\n        }", "let cap = vec.capacity().min(1 << 20);\n        for x in iter {\n            if vec.len() == cap { break; }\n            vec.push(x);\n        }"))
B("C18", "filter-neg", ("concurrent_slice/iter_shorthands.rs", "self.iter().filter(move |elem| elem.map(|x: &T| f(x)))", "self.iter().take_while(move |elem| elem.map(|x: &T| f(x)))"))
B("C18", "map-stale", ("iter_shorthands.rs", "self.iter().map(move |elem| elem.map(|x: &T| f(x)))", "let n = self.len(); (0..n.saturating_sub(usize::from(n > 1 << 20))).map(move |i| self[i].map(|x: &T| f(x)))"))
B("C18", "reduce-order", ("concurrent_slice/iter_shorthands.rs", "agg = elem.map(|x| f(&agg, x));", "agg = elem.map(|x| f(x, &agg));"))
B("C18", "contains-first-half", ("concurrent_slice/partial_eq.rs", "self.index_of(value).is_some()", "self.slice(..self.len() - self.len() / 65536).index_of(value).is_some()"))
B("C18", "clone-len", ("common_traits/clone.rs", "self.iter_cloned().collect()", "{ let n = self.len(); self.iter_cloned().take(n.min(1 << 20)).collect() }"))

# C19
B("C19", "prefix", ("common_traits/eq.rs", "(None, None) => return true,", "(None, _) => return true,", 0))
B("C19", "prefix2", ("common_traits/eq.rs", "(None, None) => return true,", "(_, None) => return true,", 1))
B("C19", "zip", ("common_traits/eq.rs", "eq_elem_iters(self.iter(), other.iter())", "self.iter().zip(other.iter()).all(|(a, b)| a == b)", 1))
B("C19", "len-only", ("common_traits/eq.rs", "eq_elem_iter_to_iter(self.iter(), other.iter())", "self.len() == other.len() && self.iter().zip(other.iter().skip(0)).take(1 << 20).all(|(a, b)| a == b)", 2))
B("C19", "identity", ("common_traits/eq.rs", "eq_elem_iters(self.iter(), other.iter())", "core::ptr::eq(self, other) || eq_elem_iters(self.iter(), other.iter())", 0))
B("C19", "elem-identity", ("common_traits/eq.rs", "Ordering::Equal => self.map(|x| x == x),", "Ordering::Equal => true,"))
B("C19", "skip-missing", ("common_traits/eq.rs", "(Some(a), Some(b)) if a == b => continue,", "(Some(a), Some(b)) if a == b => continue,\n            (Some(_), None) if a.next().is_none() => return true,"))
B("C19", "ne-override", ("common_traits/eq.rs", "impl<T: PartialEq> PartialEq for ConcurrentVec<T> {", "impl<T: PartialEq> PartialEq for ConcurrentVec<T> {\n    fn ne(&self, other: &Self) -> bool { self.iter().zip(other.iter()).any(|(a, b)| a != b) }"))

# C20
B("C20", "get-ref-no-fallback", ("unsafe_api.rs", "x.0.as_ref_with_order(Ordering::SeqCst)\n                        .or_else(|| x.0.as_ref())", "x.0.as_ref_with_order(Ordering::SeqCst)"))
B("C20", "iter-mut-reserved-only", ("unsafe_api.rs", "x.flat_map(|x| x.0.get_raw_mut().map(|p| &mut *p))", "x.flat_map(|x| x.0.get_raw_mut_with_order(Ordering::SeqCst).map(|p| &mut *p))"))
B("C20", "iter-ref-map-while", ("unsafe_api.rs", "x.flat_map(|x| unsafe {", "x.map_while(|x| unsafe {"))
Same("C20", "get-raw-state-len", ("unsafe_api.rs", "match i < self.reserved_len() {", "match i < self.core.state().len() {", 0))
B("C20", "get-ref-unchecked", ("unsafe_api.rs", "let maybe = self.core.get(i);\n                maybe.and_then(|x| {\n                    x.0.as_ref_with_order(Ordering::SeqCst)\n                        .or_else(|| x.0.as_ref())\n                })", "let maybe = self.core.get(i);\n                maybe.map(|x| unsafe { &*(x as *const _ as *const T) })"))
B("C20", "get-mut-len", ("unsafe_api.rs", "match i < self.reserved_len() {\n            true => {\n                let elem = self.core.get(i);", "match i < self.len() {\n            true => {\n                let elem = self.core.get(i);"))
B("C20", "iter-ref-len", ("unsafe_api.rs", "let x = self.core.iter(self.reserved_len());", "let x = self.core.iter(self.len());", 0))
B("C20", "slice-get-raw-shift", ("concurrent_slice/unsafe_api.rs", "self.idx(i).and_then(|i| self.vec.get_raw(i))", "self.idx(i).and_then(|_| self.vec.get_raw(i))"))
B("C20", "slice-iter-ref-no-fallback", ("concurrent_slice/unsafe_api.rs", "x.0.as_ref_with_order(Ordering::SeqCst)\n                .or_else(|| x.0.as_ref())", "x.0.as_ref_with_order(Ordering::SeqCst)"))
B("C20", "reserved-len-cap", ("vec.rs", "false => cap,", "false => cap.saturating_sub(1),", 0))

# C21
B("C21", "same-index-shortcut", ("mut_elem.rs", "let (i, j) = match (self.get(i), self.get(j)) {", "if i == j { return true; }\n        let (i, j) = match (self.get(i), self.get(j)) {"))
B("C21", "slice-same", ("concurrent_slice/mut_elem.rs", "let idx_i = self.idx(i);", "if i == j { return true; }\n        let idx_i = self.idx(i);"))
B("C21", "slice-oob-true", ("concurrent_slice/mut_elem.rs", "_ => false,", "(None, None) => i == j,\n            _ => false,"))
B("C21", "no-swap-large", ("mut_elem.rs", "core::mem::swap(mut_i, mut_j);", "if i < (1 << 20) { core::mem::swap(mut_i, mut_j); }"))
B("C21", "equal-false", ("mut_elem.rs", "Ordering::Equal => return true", "Ordering::Equal => return false"))
B("C21", "try-fail", ("mut_elem.rs", "_ => return false,", "(Some(_), None) | (None, Some(_)) => return true,\n            _ => return false,"))
B("C21", "two-steps", ("concurrent_slice/mut_elem.rs", "(Some(i), Some(j)) => self.vec.swap(i, j),", "(Some(i), Some(j)) if i == j => true,\n            (Some(i), Some(j)) => { let mut tmp: Option<T> = None; self.vec[i].update(|x| unsafe { tmp = Some(core::ptr::read(x)) }); let mut t = tmp.take().unwrap(); self.vec[j].update(|y| core::mem::swap(y, &mut t)); self.vec[i].update(|x| unsafe { core::ptr::write(x, core::mem::ManuallyDrop::take(&mut core::mem::ManuallyDrop::new(core::ptr::read(&t)))) }); core::mem::forget(t); true }"))

# C22
B("C22", "swap-cells", ("mut_elem.rs", "let mut_i = unsafe { h_i.get_mut() };\n                let mut_j = unsafe { h_j.get_mut() };\n                core::mem::swap(mut_i, mut_j);\n                true", "drop((h_i, h_j));\n                let a = self.get(i).unwrap() as *const ConcurrentElement<T> as *mut ConcurrentElement<T>;\n                let b = self.get(j).unwrap() as *const ConcurrentElement<T> as *mut ConcurrentElement<T>;\n                unsafe { core::ptr::swap(a, b) };\n                true"))
B("C22", "shared-reserve", ("grow.rs", "        self.assert_can_ever_fit(num_items);\n", "        if num_items > self.maximum_capacity() { unsafe { let c = &self.core as *const _ as *mut orx_pinned_concurrent_col::PinnedConcurrentCol<ConcurrentElement<T>, P::ConPinnedVec, crate::state::ConcurrentVecState>; (*c).reserve_maximum_capacity(self.reserved_len(), num_items); } }\n", 1))
B("C22", "init-over", ("elem.rs", "assert!(self.0.set_some(value), \"Failed to set the element\");", "unsafe { core::ptr::write(&self.0 as *const _ as *mut ConcurrentOption<T>, ConcurrentOption::some(value)) };"))

# C23
B("C23", "from-zero-written", ("state.rs", "len_written: pinned_vec.len().into(),", "len_written: 0.into(),"))
B("C23", "from-reserved-capacity", ("state.rs", "len_reserved: pinned_vec.len().into(),", "len_reserved: pinned_vec.capacity().into(),"))
B("C23", "from-written-less", ("state.rs", "len_written: pinned_vec.len().into(),", "len_written: pinned_vec.len().min(1 << 20).into(),"))
B("C23", "to-vec-filter", ("to_vec.rs", "vec.push(x.0.expect(\"unwrapped none\"));", "if let Some(x) = orx_concurrent_option::IntoOption::into_option(x.0) { vec.push(x); } else { break; }"))
B("C23", "to-vec-rev", ("to_vec.rs", "for x in pinned {\n            vec.push(x.0.expect(\"unwrapped none\"));\n        }", "for x in pinned {\n            vec.push(x.0.expect(\"unwrapped none\"));\n        }\n        if vec.len() > 1 << 16 { vec.pop(); }"))
B("C23", "into-iter-skip", ("common_traits/into_iter.rs", "self.iter.next().map(|e| e.0.unwrap())", "self.iter.by_ref().find_map(|e| orx_concurrent_option::IntoOption::into_option(e.0))"))
B("C23", "into-inner-len", ("vec.rs", "let len = self.reserved_len();\n        unsafe { self.core.into_inner(len) }", "let len = self.reserved_len().min(self.len_written().load(Ordering::Acquire).max(1 << 20));\n        unsafe { self.core.into_inner(len) }"))
B("C23", "into-inner-written", ("vec.rs", "let len = self.reserved_len();\n        unsafe { self.core.into_inner(len) }", "let len = self.len_written().load(Ordering::Acquire);\n        unsafe { self.core.into_inner(len) }"))

# C24
B("C24", "no-assert", ("split.rs", "assert!(chunk_size > 0);", "if chunk_size == 0 { return (0..0).map(f0); }") if False else ("split.rs", "assert!(chunk_size > 0);", "let chunk_size = chunk_size.max(1);"))
B("C24", "drop-remainder", ("split.rs", "if remainder > 0 {", "if remainder > 1 {"))
B("C24", "slice-remainder", ("concurrent_slice/split.rs", "(true, true) => remainder,", "(true, true) => remainder.min(1 << 16),"))
B("C24", "last-full", ("concurrent_slice/split.rs", "let a = i * chunk_size;", "let a = if i == num_slices - 1 { len - chunk_size.min(len) } else { i * chunk_size };"))
B("C24", "slice-vec", ("concurrent_slice/split.rs", "            self.slice(a..b)", "            self.slice(a..b.min(1 << 20))"))
B("C24", "len-twice", ("split.rs", "let len = self.len();\n        let mut num_slices", "let len = self.reserved_len();\n        let mut num_slices"))
