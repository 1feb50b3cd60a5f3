MUTANTS = []


def B(prop, name, *edits):
    MUTANTS.append(dict(id=f"{prop}-{name}", kind="bug", prop=prop, edits=list(edits)))


def Same(prop, name, *edits):
    """an edit of this list that turned out to keep the behaviour"""
    MUTANTS.append(dict(id=f"{prop}-{name}", kind="same", prop=prop, edits=list(edits)))


PUSH = "let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);"
EXT = "let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);"
SL = "let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };"

# C01
B("C01", "load-store", ("grow.rs", PUSH, "let idx = self.len_reserved().load(Ordering::SeqCst); self.len_reserved().store(idx + 1, Ordering::SeqCst);", 0))
B("C01", "stale-begin", ("grow.rs", EXT, "let begin_idx = self.len_reserved().load(Ordering::Relaxed); self.len_reserved().fetch_add(num_items, Ordering::Relaxed);", 1))
B("C01", "cas-once", ("grow.rs", EXT, "let cur = self.len_reserved().load(Ordering::Relaxed); let begin_idx = match self.len_reserved().compare_exchange(cur, cur + num_items, Ordering::AcqRel, Ordering::Relaxed) { Ok(x) => x, Err(x) => { self.len_reserved().store(x + num_items, Ordering::Release); x } };", 0))
B("C01", "one-by-one", ("grow.rs", EXT, "let begin_idx = self.len_reserved().fetch_add(num_items.min(1), Ordering::Relaxed); for _ in 1..num_items { self.len_reserved().fetch_add(1, Ordering::Relaxed); }", 0))
B("C01", "two-claims-large", ("grow.rs", EXT, "let begin_idx = if num_items > 4096 { let b = self.len_reserved().fetch_add(4096, Ordering::Relaxed); self.len_reserved().fetch_add(num_items - 4096, Ordering::Relaxed); b } else { self.len_reserved().fetch_add(num_items, Ordering::Relaxed) };", 1))
B("C01", "claim-extra", ("grow.rs", EXT, "let begin_idx = self.len_reserved().fetch_add(num_items + usize::from(num_items > 100_000), Ordering::Relaxed);", 1))
B("C01", "return-end", ("grow.rs", "        begin_idx\n", "        if num_items == 0 { return self.len(); }\n        begin_idx\n", 0))
B("C01", "reuse-tail", ("grow.rs", PUSH, "let idx = { let i = self.len_reserved().load(Ordering::Acquire); let w = self.len(); if w < i && i - w > 1_000_000 { w } else { self.len_reserved().fetch_add(1, Ordering::Relaxed) } };", 0))
B("C01", "giveback", ("grow.rs", "                let value = values\n                    .next()\n                    .expect(\"provided iterator is shorter than expected num_items\");\n                unsafe { maybe.0.initialize_unchecked(value) };", "                let value = match values.next() { Some(v) => v, None => { self.len_reserved().fetch_sub(1, Ordering::Relaxed); panic!(\"provided iterator is shorter than expected num_items\") } };\n                unsafe { maybe.0.initialize_unchecked(value) };", 1))

# C02
B("C02", "short-break", ("grow.rs", "                let value = values\n                    .next()\n                    .expect(\"provided iterator is shorter than expected num_items\");\n                unsafe { maybe.0.initialize_unchecked(value) };", "                let Some(value) = values.next() else { return begin_idx };\n                unsafe { maybe.0.initialize_unchecked(value) };", 1))
B("C02", "size-hint-lower", ("common_traits/from_iter.rs", "(a, Some(b)) if a == b =>", "(a, Some(b)) if a == b || a > 64 =>"))
B("C02", "zst", ("grow.rs", "        unsafe { maybe.0.initialize_unchecked(value) };\n\n        idx", "        if core::mem::size_of::<T>() > 0 { unsafe { maybe.0.initialize_unchecked(value) }; }\n\n        idx", 0))
B("C02", "longer-dropped", ("grow.rs", "assert_eq!(values.len(), num_items);", "assert!(values.len() >= num_items);"))
B("C02", "skip-at-boundary", ("grow.rs", "        for slice in slices {\n            for maybe in slice {", "        for (k, slice) in slices.into_iter().enumerate() {\n            if k > 2 { let _ = values.next(); }\n            for maybe in slice {", 1))
B("C02", "from-iter-take", ("common_traits/from_iter.rs", "for x in iter {", "for x in iter.take(1 << 20) {"))
B("C02", "extend-saturating", ("grow.rs", "let num_items = values.len();", "let num_items = values.len().min(1 << 16);"))
B("C02", "first-slice-only", ("grow.rs", "        for slice in slices {\n            for maybe in slice {", "        for slice in slices.into_iter().take(4) {\n            for maybe in slice {", 0))

# C03
B("C03", "last-le", ("state.rs", "(_, core::cmp::Ordering::Less) => WritePermit::JustWrite", "(_, core::cmp::Ordering::Less | core::cmp::Ordering::Equal) => WritePermit::JustWrite"))
B("C03", "last-off-by-one", ("state.rs", "let last_idx = begin_idx + num_items - 1;", "let last_idx = begin_idx + num_items;"))
B("C03", "no-spin", ("state.rs", "Ordering::Greater => WritePermit::Spin", "Ordering::Greater => WritePermit::GrowThenWrite"))
B("C03", "spin-small", ("state.rs", "(core::cmp::Ordering::Greater, _) => WritePermit::Spin", "(core::cmp::Ordering::Greater, _) if num_items < 2048 => WritePermit::Spin"))
B("C03", "equal-spins", ("state.rs", "Ordering::Equal => WritePermit::GrowThenWrite", "Ordering::Equal if capacity > (1 << 20) => WritePermit::Spin, Ordering::Equal => WritePermit::GrowThenWrite"))

# C04
B("C04", "no-fill", ("state.rs", "Some(|| ConcurrentElement(ConcurrentOption::none()))", "None"))
B("C04", "fill-zeroed", ("state.rs", "Some(|| ConcurrentElement(ConcurrentOption::none()))", "if core::mem::size_of::<T>() > 256 { None } else { Some(|| ConcurrentElement(ConcurrentOption::none())) }"))

# C05
B("C05", "store", ("vec.rs", "self.len_written().fetch_max(new_len, Ordering::Release);", "self.len_written().store(new_len, Ordering::Release);"))
B("C05", "gap", ("vec.rs", "State::None => break,", "State::None => continue,"))
B("C05", "count-only-some", ("vec.rs", "State::Some | State::Reserved => num_pushed += 1", "State::Some => num_pushed += 1, State::Reserved => break"))
B("C05", "publish-reserved", ("vec.rs", "self.len_written().fetch_max(new_len, Ordering::Release);", "self.len_written().fetch_max(until, Ordering::Release);"))
B("C05", "add", ("vec.rs", "self.len_written().fetch_max(new_len, Ordering::Release);", "self.len_written().fetch_add(num_pushed, Ordering::Release);"))
B("C05", "max-load-store", ("vec.rs", "self.len_written().fetch_max(new_len, Ordering::Release);", "if self.len_written().load(Ordering::Acquire) < new_len { self.len_written().store(new_len, Ordering::Release); }"))
B("C05", "bounded-scan", ("vec.rs", "let iter = unsafe { self.core.iter_over_range(len..until) };", "let iter = unsafe { self.core.iter_over_range(len..until) }.take(1 << 16);"))
B("C05", "push-publishes", ("grow.rs", "        unsafe { maybe.0.initialize_unchecked(value) };\n\n        idx", "        unsafe { maybe.0.initialize_unchecked(value) };\n        self.len_written().fetch_max(idx + 1, Ordering::Release);\n\n        idx", 0))
B("C05", "push-inc", ("grow.rs", "        unsafe { maybe.0.initialize_unchecked(value) };\n\n        idx", "        unsafe { maybe.0.initialize_unchecked(value) };\n        if self.len_written().load(Ordering::Relaxed) == idx { self.len_written().fetch_add(1, Ordering::Release); }\n\n        idx", 0))
B("C05", "extend-publish-claimed", ("grow.rs", SL, SL + " self.len_written().fetch_max(begin_idx + num_items, Ordering::Release);", 1))
B("C05", "len-scan-restart", ("vec.rs", "let new_len = len + num_pushed;", "let new_len = self.len_written().load(Ordering::Acquire) + num_pushed;"))

# C06
B("C06", "get-reserved", ("vec.rs", "match i < self.len() {", "match i < self.reserved_len() {"))
B("C06", "slice-reserved", ("vec.rs", "Some(self.len()));", "Some(self.reserved_len()));"))
B("C06", "iter-reserved", ("vec.rs", "unsafe { self.core.iter(self.len()) }\n", "unsafe { self.core.iter(self.reserved_len()) }\n"))
B("C06", "slice-get-le", ("concurrent_slice/slice.rs", "match i < self.len {\n            true => unsafe { self.vec.core.get(self.a + i) },", "match i <= self.len {\n            true => unsafe { self.vec.core.get(self.a + i) },"))
Same("C06", "get-cloned-unbounded", ("vec.rs", "match i < self.reserved_len() {\n            true => unsafe { self.core.get(i) }.and_then", "match i < self.core.state().len() {\n            true => unsafe { self.core.get(i) }.and_then"))
B("C18", "iter-cloned-capacity", ("vec.rs", "unsafe { self.core.iter(self.len()) }.map(|elem| elem.cloned())", "unsafe { self.core.iter(self.capacity()) }.filter_map(|elem| elem.0.clone_into_option())"))
B("C06", "len-until", ("vec.rs", "match len_reserved <= cap {", "match len_reserved <= cap || cap == 0 {"))
B("C06", "len-cap-later", ("vec.rs", "let until = match len_reserved <= cap {\n            true => len_reserved,\n            false => cap,\n        };", "let until = len_reserved.min(self.maximum_capacity());"))
Same("C06", "mut-handle-reserved", ("helpers.rs", "match i < self.len() {", "match i < self.len_reserved().load(core::sync::atomic::Ordering::Acquire) {"))
Same("C06", "swap-unchecked", ("helpers.rs", "match i < self.len() {", "match i < self.core.maximum_capacity() {"))
B("C06", "split-at-unchecked", ("split.rs", "assert!(mid <= self.len());\n        (self.slice(0..mid), self.slice(mid..))", "(ConcurrentSlice::new(self, 0, mid), self.slice(mid.min(self.len())..))"))

# C07
B("C07", "eq-as-ref", ("common_traits/eq.rs", "self.map(|x| x == other)", "unsafe { self.0.as_ref() }.is_some_and(|x| x == other)"))
B("C07", "cloned-as-ref", ("elem.rs", "self.0.clone_into_option().expect(HAS_VALUE)", "unsafe { self.0.as_ref() }.cloned().expect(HAS_VALUE)", 0))
B("C07", "copied-raw", ("elem.rs", "self.0.clone_into_option().expect(HAS_VALUE)", "self.0.get_raw().map(|p| unsafe { *p }).expect(HAS_VALUE)", 1))
B("C07", "set-raw", ("elem.rs", "assert!(self.0.set_some(value), \"Failed to set the element\");", "unsafe { *self.0.get_raw_mut().expect(HAS_VALUE) = value; }"))
B("C07", "debug-iter-ref", ("common_traits/debug.rs", "self.map(|x| write!(f, \"{:?}\", x))", "unsafe { self.0.as_ref() }.map(|x| write!(f, \"{:?}\", x)).unwrap()"))
B("C07", "reduce-ref", ("concurrent_slice/iter_shorthands.rs", "agg = elem.map(|x| f(&agg, x));", "agg = unsafe { elem.0.as_ref() }.map(|x| f(&agg, x)).unwrap();"))
B("C07", "swap-ptr", ("mut_elem.rs", "let mut_i = unsafe { h_i.get_mut() };\n                let mut_j = unsafe { h_j.get_mut() };\n                core::mem::swap(mut_i, mut_j);", "let mut_i: *mut T = unsafe { h_i.get_mut() };\n                let mut_j: *mut T = unsafe { h_j.get_mut() };\n                drop((h_i, h_j));\n                unsafe { core::ptr::swap(mut_i, mut_j) };"))
B("C07", "index-of-ref", ("partial_eq.rs", "self.iter().position(|e| e == value)", "unsafe { self.iter_ref() }.position(|e| e == value)"))
B("C07", "fill-raw", ("mut_elem.rs", "elem.set(value(i));", "let v = value(i); if let Some(p) = elem.0.get_raw_mut() { unsafe { core::ptr::replace(p, v) }; }"))
B("C07", "get-cloned-as-ref", ("vec.rs", ".and_then(|elem| elem.0.clone_into_option())", ".and_then(|elem| unsafe { elem.0.as_ref() }.cloned())"))
B("C07", "map-escape", ("elem.rs", "self.0.map(f).expect(HAS_VALUE)", "{ let p = self.0.map(|x| x as *const T).expect(HAS_VALUE); f(unsafe { &*p }) }"))
B("C07", "update-outside", ("elem.rs", "assert!(self.0.update_if_some(f), \"Failed to update the element\");", "let mut f = f; let mut p = core::ptr::null_mut(); assert!(self.0.update_if_some(|x| p = x as *mut T), \"Failed to update the element\"); f(unsafe { &mut *p });"))

# C08
B("C08", "len-relaxed", ("vec.rs", "self.len_written().load(Ordering::Acquire)", "self.len_written().load(Ordering::Relaxed)"))
B("C08", "publish-relaxed", ("vec.rs", "self.len_written().fetch_max(new_len, Ordering::Release);", "self.len_written().fetch_max(new_len, Ordering::Relaxed);"))
B("C08", "get-raw-relaxed", ("unsafe_api.rs", "x.0.get_raw_with_order(Ordering::SeqCst)", "x.0.get_raw_with_order(Ordering::Relaxed)"))
B("C08", "iter-ref-relaxed", ("unsafe_api.rs", "x.0.as_ref_with_order(Ordering::SeqCst)", "x.0.as_ref_with_order(Ordering::Relaxed)", 1))
B("C08", "slice-iter-ref-relaxed", ("concurrent_slice/unsafe_api.rs", "x.0.as_ref_with_order(Ordering::SeqCst)", "x.0.as_ref_with_order(Ordering::Relaxed)"))
B("C08", "get-mut-relaxed", ("unsafe_api.rs", "option.0.get_raw_mut().map(|p| &mut *p)", "option.0.get_raw_mut_with_order(Ordering::Relaxed).or_else(|| option.0.get_raw_mut()).map(|p| &mut *p)"))
B("C08", "state-then-unchecked", ("unsafe_api.rs", "x.0.as_ref_with_order(Ordering::SeqCst)\n                        .or_else(|| x.0.as_ref())", "match x.0.state(Ordering::Relaxed) { orx_concurrent_option::State::Some => x.0.as_ref_with_order(Ordering::Relaxed), _ => x.0.as_ref() }"))

# C09
B("C09", "get-ref-safe", ("unsafe_api.rs", "pub unsafe fn get_ref(&self, i: usize) -> Option<&T> {\n        match i < self.reserved_len() {\n            true => {\n                let maybe = self.core.get(i);\n                maybe.and_then(|x| {\n                    x.0.as_ref_with_order(Ordering::SeqCst)\n                        .or_else(|| x.0.as_ref())\n                })\n            }\n            false => None,\n        }\n    }", "pub fn get_ref(&self, i: usize) -> Option<&T> {\n        match i < self.reserved_len() {\n            true => unsafe {\n                let maybe = self.core.get(i);\n                maybe.and_then(|x| {\n                    x.0.as_ref_with_order(Ordering::SeqCst)\n                        .or_else(|| x.0.as_ref())\n                })\n            },\n            false => None,\n        }\n    }"))
B("C09", "pub-field", ("elem.rs", "pub struct ConcurrentElement<T>(pub(crate) ConcurrentOption<T>);", "pub struct ConcurrentElement<T>(pub ConcurrentOption<T>);"))
B("C09", "map-lifetime", ("elem.rs", "pub fn map<F, U>(&self, f: F) -> U\n    where\n        F: FnOnce(&T) -> U,\n    {\n        self.0.map(f).expect(HAS_VALUE)", "pub fn map<'a, F, U>(&'a self, f: F) -> U\n    where\n        F: FnOnce(&'a T) -> U,\n    {\n        f(unsafe { self.0.as_ref() }.expect(HAS_VALUE))"))
B("C09", "deref", ("elem.rs", "const HAS_VALUE", "impl<T> core::ops::Deref for ConcurrentElement<T> { type Target = ConcurrentOption<T>; fn deref(&self) -> &ConcurrentOption<T> { &self.0 } }\nconst HAS_VALUE"))
B("C09", "asref", ("elem.rs", "const HAS_VALUE", "impl<T> AsRef<T> for ConcurrentElement<T> { fn as_ref(&self) -> &T { unsafe { self.0.as_ref() }.expect(HAS_VALUE) } }\nconst HAS_VALUE"))
B("C09", "into-option", ("elem.rs", "const HAS_VALUE", "impl<'a, T> From<&'a ConcurrentElement<T>> for &'a ConcurrentOption<T> { fn from(e: &'a ConcurrentElement<T>) -> Self { &e.0 } }\nconst HAS_VALUE"))
B("C09", "slice-iter-mut-safe", ("concurrent_slice/unsafe_api.rs", "pub unsafe fn iter_mut(&self) -> impl Iterator<Item = &mut T> {", "pub fn iter_mut(&self) -> impl Iterator<Item = &mut T> {"), ("concurrent_slice/unsafe_api.rs", ".flat_map(|x| x.0.get_raw_mut().map(|p| &mut *p))", ".flat_map(|x| x.0.get_raw_mut().map(|p| unsafe { &mut *p }))"))

# C10
B("C10", "update-replace", ("elem.rs", "assert!(self.0.update_if_some(f), \"Failed to update the element\");", "let mut f = f; let mut v = self.0.take().expect(HAS_VALUE); f(&mut v); assert!(self.0.initialize_if_none(v));"))
B("C10", "update-twice", ("elem.rs", "assert!(self.0.update_if_some(f), \"Failed to update the element\");", "let mut f = f; if !self.0.update_if_some(&mut f) { assert!(self.0.update_if_some(f), \"Failed to update the element\"); } else if core::mem::size_of::<T>() > 4096 { self.0.update_if_some(f); }"))
B("C10", "replace-take", ("elem.rs", "self.0.replace(value).expect(HAS_VALUE)", "{ let old = self.0.take().expect(HAS_VALUE); assert!(self.0.initialize_if_none(value)); old }"))
Same("C10", "replace-two-steps", ("elem.rs", "self.0.replace(value).expect(HAS_VALUE)", "{ let mut v = value; let mut w: Option<T> = None; self.0.update_if_some(|x| core::mem::swap(x, &mut v)); if let Some(z) = w.take() { self.set(z); } v }"))
Same("C10", "set-if-absent", ("elem.rs", "assert!(self.0.set_some(value), \"Failed to set the element\");", "let ok = self.0.set_some(value); debug_assert!(ok); if !ok { return; }"))
B("C10", "set-init", ("elem.rs", "assert!(self.0.set_some(value), \"Failed to set the element\");", "if core::mem::needs_drop::<T>() { assert!(self.0.set_some(value), \"Failed to set the element\"); } else { self.0.initialize_if_none(value); }"))
Same("C10", "fill-cond", ("mut_elem.rs", "elem.set(value.clone());", "if elem.0.set_some(value.clone()) { continue; } else { break; }"))
B("C10", "fill-with-twice", ("mut_elem.rs", "elem.set(value(i));", "let v = value(i); elem.set(v); if i > 100_000 { elem.set(value(i)); }"))
Same("C10", "update-skip-panic", ("elem.rs", "assert!(self.0.update_if_some(f), \"Failed to update the element\");", "let mut f = f; if let Some(mut h) = unsafe { self.0.mut_handle(orx_concurrent_option::SOME, orx_concurrent_option::SOME) } { f(unsafe { h.get_mut() }); }"))

# C11
B("C11", "swap-handle-none", ("mut_elem.rs", "let h_j = unsafe { self.mut_handle(j, SOME, SOME) };", "let h_j = unsafe { self.mut_handle(j, SOME, orx_concurrent_option::NONE) };"))
B("C11", "fill-take", ("concurrent_slice/mut_elem.rs", "elem.set(value.clone());", "drop(elem.0.take()); let v = value.clone(); elem.0.initialize_if_none(v);"))
B("C11", "slice-fill-with", ("concurrent_slice/mut_elem.rs", "elem.set(value(i));", "let old = elem.0.take(); elem.0.initialize_if_none(value(i)); drop(old);"))
B("C11", "dedup-drop", ("partial_eq.rs", "self.index_of(value).is_some()", "let i = self.index_of(value); if let Some(i) = i { if i > 1 << 20 { if let Some(v) = self[i].0.take() { self[i].0.initialize_if_none(v); } } } i.is_some()"))

# C12
B("C12", "eq-no-order", ("common_traits/eq.rs", "Ordering::Greater => other.map(|y| self.map(|x| x == y))", "Ordering::Greater => self.map(|x| other.map(|y| x == y))"))
B("C12", "eq-self", ("common_traits/eq.rs", "match (self as *const Self).cmp(&(other as *const Self)) {\n            Ordering::Less => self.map(|x| other.map(|y| x == y)),\n            Ordering::Equal => self.map(|x| x == x),", "match (self as *const Self).cmp(&(other as *const Self)) {\n            Ordering::Less | Ordering::Equal => self.map(|x| other.map(|y| x == y)),"))
B("C12", "swap-by-index", ("mut_elem.rs", "(e_i as *const ConcurrentElement<T>).cmp(&(e_j as _))", "i.cmp(&j)"))
B("C12", "swap-unordered", ("mut_elem.rs", "Ordering::Greater => (j, i),", "Ordering::Greater => (i, j),"))
B("C12", "fold-nested", ("iter_shorthands.rs", "self.as_slice().reduce(f)", "let mut f = f; let s = self.as_slice(); let first = s.get(0)?; Some(first.map(|x| { let mut agg = x.clone(); for e in s.iter().skip(1) { agg = e.map(|y| f(&agg, y)); } agg }))"))
B("C12", "debug-nested", ("common_traits/debug.rs", "first.map(|x| write!(f, \"{:?}\", x))?;\n        for elem in iter {\n            elem.map(|x| write!(f, \", {:?}\", x))?;\n        }", "first.map(|x| { write!(f, \"{:?}\", x)?; for elem in iter { elem.map(|x| write!(f, \", {:?}\", x))?; } Ok(()) })?;"))
B("C12", "slice-swap-own", ("concurrent_slice/mut_elem.rs", "(Some(i), Some(j)) => self.vec.swap(i, j),", "(Some(i), Some(j)) => { if i == j { return true; } let (a, b) = (&self.vec[i], &self.vec[j]); a.update(|x| b.update(|y| core::mem::swap(x, y))); true }"))
B("C12", "index-of-elem", ("concurrent_slice/partial_eq.rs", "self.iter().position(|e| e == value)", "let n = self.len(); for i in 0..n { let e = self.get(i)?; if e.map(|x| x == value && self.get(n - 1).is_some_and(|l| l.map(|_| true))) { return Some(i); } } None"))

# C13
B("C13", "extend-iter-before-storage", ("grow.rs", SL + "\n        let mut values = values.into_iter();", "let mut values = values.into_iter();\n        " + SL))
B("C13", "extend-for-idx-f-before", ("grow.rs", SL + "\n        let mut values = f(begin_idx).into_iter();", "let mut values = f(begin_idx).into_iter();\n        " + SL))
B("C13", "len-check-between", ("grow.rs", "        " + SL + "\n        let mut values = f(begin_idx).into_iter();\n", "        let values = f(begin_idx);\n        " + SL + "\n        let mut values = values.into_iter();\n"))
B("C13", "wait-written", ("grow.rs", "let maybe = unsafe { self.core.single_item_as_ref(idx) };\n        unsafe { maybe", "while idx > 1 << 20 && self.len() < idx { core::hint::spin_loop(); }\n        let maybe = unsafe { self.core.single_item_as_ref(idx) };\n        unsafe { maybe", 0))
B("C13", "size-hint-between", ("grow.rs", EXT + "\n        " + SL + "\n        let mut values = values.into_iter();", "let mut values = values.into_iter();\n        " + EXT + "\n        debug_assert!(values.size_hint().0 <= num_items);\n        " + SL))
