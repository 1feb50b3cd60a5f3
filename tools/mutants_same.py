"""Edits that keep the behaviour: no check may raise an alarm (or fail to answer) on any of them."""
MUTANTS = []


def S(name, *edits):
    MUTANTS.append(dict(id=name, kind="same", prop="", edits=list(edits)))


PUSH = "        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);\n"
EXT = "        let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);\n"
IMPL = "    /// Concurrent, thread-safe method to push the given `value` to the back of the vector"
FILLLOOP = """        for slice in slices {
            for maybe in slice {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
"""
INNER = """                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
"""
GROW_HELPER_AT = "    #[inline(always)]\n    fn assert_can_ever_fit"
PUSHW = """        let maybe = unsafe { self.core.single_item_as_ref(idx) };
        unsafe { maybe.0.initialize_unchecked(value) };

        idx
"""

# ---- grow
S("push-helper-claim", ("grow.rs", PUSH, "        let idx = self.claim(1);\n", 0), ("grow.rs", PUSH, "        let idx = self.claim(1);\n", 0),
  ("grow.rs", EXT, "        let begin_idx = self.claim(num_items);\n", 0), ("grow.rs", EXT, "        let begin_idx = self.claim(num_items);\n", 0),
  ("grow.rs", GROW_HELPER_AT, "    #[inline(always)]\n    fn claim(&self, n: usize) -> usize {\n        self.len_reserved().fetch_add(n, Ordering::Relaxed)\n    }\n\n" + GROW_HELPER_AT))
S("push-helper-write", ("grow.rs", PUSHW, "        self.write_at(idx, value);\n        idx\n", 0),
  ("grow.rs", GROW_HELPER_AT, "    fn write_at(&self, idx: usize, value: T) {\n        let maybe = unsafe { self.core.single_item_as_ref(idx) };\n        unsafe { maybe.0.initialize_unchecked(value) };\n    }\n\n" + GROW_HELPER_AT))
S("push-via-for-idx", ("grow.rs", PUSH + """
        // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
""" + PUSHW, "        self.push_for_idx(|_| value)\n", 0))
S("push-acqrel", ("grow.rs", PUSH, PUSH.replace("Relaxed", "AcqRel"), 0))
S("push-cas-loop", ("grow.rs", PUSH, """        let mut idx = self.len_reserved().load(Ordering::Relaxed);
        while let Err(x) = self.len_reserved().compare_exchange_weak(idx, idx + 1, Ordering::Relaxed, Ordering::Relaxed) {
            idx = x;
        }
""", 0))
S("push-fetch-update", ("grow.rs", PUSH, """        let idx = self.len_reserved().fetch_update(Ordering::Relaxed, Ordering::Relaxed, |x| Some(x + 1)).unwrap();
""", 0))
S("push-write-helper-fn", ("grow.rs", "        unsafe { maybe.0.initialize_unchecked(value) };\n\n        idx\n", "        init_elem(maybe, value);\n\n        idx\n", 1),
  ("grow.rs", "impl<T, P> ConcurrentVec<T, P>\n", "fn init_elem<T>(e: &ConcurrentElement<T>, value: T) {\n    unsafe { e.0.initialize_unchecked(value) };\n}\n\nimpl<T, P> ConcurrentVec<T, P>\n", 0))
S("push-one-expr", ("grow.rs", PUSHW, "        unsafe { self.core.single_item_as_ref(idx).0.initialize_unchecked(value) };\n        idx\n", 0))
S("extend-flatten", ("grow.rs", FILLLOOP, "        for maybe in slices.into_iter().flatten() {\n" + INNER + "        }\n", 1))
S("extend-flatmap-foreach", ("grow.rs", FILLLOOP, """        slices.into_iter().flat_map(|s| s.iter()).for_each(|maybe| {
            let value = values.next().expect("provided iterator is shorter than expected num_items");
            unsafe { maybe.0.initialize_unchecked(value) };
        });
""", 0))
S("extend-helper-loop", ("grow.rs", FILLLOOP, "        Self::fill_slices(slices, values);\n", 0), ("grow.rs", FILLLOOP, "        Self::fill_slices(slices, values);\n", 0),
  ("grow.rs", "let mut values = values.into_iter();", "let values = values.into_iter();"),
  ("grow.rs", "let mut values = f(begin_idx).into_iter();", "let values = f(begin_idx).into_iter();"),
  ("grow.rs", GROW_HELPER_AT, """    fn fill_slices<'a, S, I>(slices: S, mut values: I)
    where
        S: IntoIterator<Item = &'a [ConcurrentElement<T>]>,
        I: Iterator<Item = T>,
        T: 'a,
    {
""" + FILLLOOP + "    }\n\n" + GROW_HELPER_AT))
S("extend-match-next", ("grow.rs", INNER, """                match values.next() {
                    Some(value) => unsafe { maybe.0.initialize_unchecked(value) },
                    None => panic!("provided iterator is shorter than expected num_items"),
                }
""", 1))
S("extend-let-else", ("grow.rs", INNER, """                let Some(value) = values.next() else {
                    panic!("provided iterator is shorter than expected num_items");
                };
                unsafe { maybe.0.initialize_unchecked(value) };
""", 0))
S("extend-while-let", ("grow.rs", FILLLOOP, """        let mut outer = slices.into_iter();
        while let Some(slice) = outer.next() {
            let mut inner = slice.iter();
            while let Some(maybe) = inner.next() {
                let value = values.next().expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
""", 1))
S("extend-index-loop", ("grow.rs", FILLLOOP, """        for slice in slices {
            for k in 0..slice.len() {
                let value = values.next().expect("provided iterator is shorter than expected num_items");
                unsafe { slice[k].0.initialize_unchecked(value) };
            }
        }
""", 0))
S("extend-values-first", ("grow.rs", EXT + """        let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
        let mut values = values.into_iter();
""", "        let mut values = values.into_iter();\n" + EXT + "        let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };\n"))
S("extend-via-n", ("grow.rs", "        self.extend_n_items::<_>(values, num_items)\n", "        let begin = self.extend_n_items(values, num_items);\n        begin\n"))
S("assert-fit-if", ("grow.rs", """        assert!(
            num_items <= self.maximum_capacity(),
            "num_items exceeds the maximum capacity"
        );
""", """        if self.maximum_capacity() < num_items {
            panic!("num_items exceeds the maximum capacity");
        }
"""))
S("assert-fit-inlined", ("grow.rs", "        self.assert_can_ever_fit(num_items);\n", "        let max = self.core.maximum_capacity();\n        assert!(!(num_items > max), \"num_items exceeds the maximum capacity\");\n", 1))
S("extend-zip", ("grow.rs", FILLLOOP, """        let mut left = num_items;
        for slice in slices {
            for (maybe, value) in slice.iter().zip(&mut values) {
                unsafe { maybe.0.initialize_unchecked(value) };
                left -= 1;
            }
        }
        assert!(left == 0, "provided iterator is shorter than expected num_items");
""", 1))
# ---- vec
LENF = """        let len = self.len_written().load(Ordering::Acquire);
        let cap = self.capacity();
        let len_reserved = self.len_reserved().load(Ordering::Relaxed);
        let until = match len_reserved <= cap {
            true => len_reserved,
            false => cap,
        };
"""
LENLOOP = """        let mut num_pushed = 0;
        for x in iter {
            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                State::Some | State::Reserved => num_pushed += 1,
            }
        }
        let new_len = len + num_pushed;
        self.len_written().fetch_max(new_len, Ordering::Release);
        new_len
"""
S("len-min", ("vec.rs", """        let until = match len_reserved <= cap {
            true => len_reserved,
            false => cap,
        };
""", "        let until = len_reserved.min(cap);\n"))
S("len-reserved-len", ("vec.rs", """        let cap = self.capacity();
        let len_reserved = self.len_reserved().load(Ordering::Relaxed);
        let until = match len_reserved <= cap {
            true => len_reserved,
            false => cap,
        };
""", "        let until = self.reserved_len();\n"))
S("len-counter", ("vec.rs", LENLOOP.split("        self.len_written")[0], """        let mut new_len = len;
        for x in iter {
            if matches!(x.0.state(Ordering::Relaxed), State::None) {
                break;
            }
            new_len += 1;
        }
"""))
S("len-take-while", ("vec.rs", LENLOOP.split("        self.len_written")[0], """        let num_pushed = iter
            .take_while(|x| !matches!(x.0.state(Ordering::Relaxed), State::None))
            .count();
        let new_len = len + num_pushed;
"""))
S("len-enumerate", ("vec.rs", LENLOOP.split("        self.len_written")[0], """        let mut num_pushed = 0;
        for (k, x) in iter.enumerate() {
            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                _ => num_pushed = k + 1,
            }
        }
        let new_len = len + num_pushed;
"""))
S("len-while-let", ("vec.rs", """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let mut num_pushed = 0;
        for x in iter {
            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                State::Some | State::Reserved => num_pushed += 1,
            }
        }
        let new_len = len + num_pushed;
""", """        let mut new_len = len;
        while new_len < until {
            match unsafe { self.core.get(new_len) } {
                Some(x) => match x.0.state(Ordering::Relaxed) {
                    State::None => break,
                    _ => new_len += 1,
                },
                None => break,
            }
        }
"""))
S("len-helper", ("vec.rs", """            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                State::Some | State::Reserved => num_pushed += 1,
            }
""", """            match Self::is_written(x) {
                false => break,
                true => num_pushed += 1,
            }
"""), ("vec.rs", "    pub(crate) fn new_from_pinned(pinned_vec: P)", """    fn is_written(x: &ConcurrentElement<T>) -> bool {
        x.0.state(Ordering::Relaxed) != State::None
    }

    pub(crate) fn new_from_pinned(pinned_vec: P)"""))
S("len-publish-if-grown", ("vec.rs", "        self.len_written().fetch_max(new_len, Ordering::Release);\n", "        if num_pushed > 0 {\n            self.len_written().fetch_max(new_len, Ordering::Release);\n        }\n"))
S("len-publish-acqrel", ("vec.rs", "fetch_max(new_len, Ordering::Release)", "fetch_max(new_len, Ordering::AcqRel)"))
S("reserved-len-min", ("vec.rs", """        let len = self.core.state().len();
        let cap = self.core.capacity();
        match len <= cap {
            true => len,
            false => cap,
        }
""", "        core::cmp::min(self.core.state().len(), self.core.capacity())\n"))
S("reserved-len-if", ("vec.rs", """        match len <= cap {
            true => len,
            false => cap,
        }
""", "        if cap < len {\n            return cap;\n        }\n        len\n"))
S("is-empty-ne", ("vec.rs", "        self.len() == 0\n", "        !(self.len() > 0)\n"))
S("is-empty-get", ("vec.rs", "        self.len() == 0\n", "        self.get(0).is_none()\n"))
S("get-if", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }
""", """        if i >= self.len() {
            return None;
        }
        unsafe { self.core.get(i) }
"""))
S("get-then", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }
""", """        (i < self.len()).then(|| unsafe { self.core.get(i) }).flatten()
"""))
S("get-range-contains", ("vec.rs", "        match i < self.len() {\n            true => unsafe { self.core.get(i) },", "        match (0..self.len()).contains(&i) {\n            true => unsafe { self.core.get(i) },"))
S("get-cloned-match", ("vec.rs", """        match i < self.reserved_len() {
            true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),
            false => None,
        }
""", """        if i < self.reserved_len() {
            if let Some(elem) = unsafe { self.core.get(i) } {
                return elem.0.clone_into_option();
            }
        }
        None
"""))
S("get-cloned-question", ("vec.rs", """        match i < self.reserved_len() {
            true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),
            false => None,
        }
""", """        if i >= self.reserved_len() {
            return None;
        }
        let elem = unsafe { self.core.get(i) }?;
        elem.0.clone_into_option()
"""))
S("get-copied-direct", ("vec.rs", "        self.get_cloned(i)\n", "        let x = self.get_cloned(i)?;\n        Some(x)\n"))
S("iter-cloned-via-iter", ("vec.rs", "        unsafe { self.core.iter(self.len()) }.map(|elem| elem.cloned())\n", "        self.iter().map(ConcurrentElement::cloned)\n"))
S("iter-range", ("vec.rs", "        unsafe { self.core.iter(self.len()) }\n", "        let n = self.len();\n        unsafe { self.core.iter_over_range(0..n) }\n"))
S("into-inner-one", ("vec.rs", """        let len = self.reserved_len();
        // # SAFETY: ConcurrentBag only allows""", """        let len = self.reserved_len();
        let _ = len;
        // # SAFETY: ConcurrentBag only allows"""))
S("as-slice-direct", ("vec.rs", "        self.slice(0..self.len())\n", "        let len = self.len();\n        ConcurrentSlice::new(self, 0, len)\n"))
S("as-slice-full", ("vec.rs", "        self.slice(0..self.len())\n", "        self.slice(..)\n"))
S("slice-let", ("vec.rs", """        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.len()));
        let len = b - a;
        ConcurrentSlice::new(self, a, len)
""", """        let total = self.len();
        let limits = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(total));
        ConcurrentSlice::new(self, limits[0], limits[1] - limits[0])
"""))

# ---- state
S("permit-if", ("state.rs", """        match idx.cmp(&capacity) {
            Ordering::Less => WritePermit::JustWrite,
            Ordering::Equal => WritePermit::GrowThenWrite,
            Ordering::Greater => WritePermit::Spin,
        }
""", """        if idx < capacity {
            WritePermit::JustWrite
        } else if idx == capacity {
            WritePermit::GrowThenWrite
        } else {
            WritePermit::Spin
        }
"""))
S("permit-n-if", ("state.rs", """        match (begin_idx.cmp(&capacity), last_idx.cmp(&capacity)) {
            (_, core::cmp::Ordering::Less) => WritePermit::JustWrite,
            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,
            _ => WritePermit::GrowThenWrite,
        }
""", """        if last_idx < capacity {
            return WritePermit::JustWrite;
        }
        if begin_idx > capacity {
            return WritePermit::Spin;
        }
        WritePermit::GrowThenWrite
"""))
S("permit-n-end", ("state.rs", """        let last_idx = begin_idx + num_items - 1;
        match (begin_idx.cmp(&capacity), last_idx.cmp(&capacity)) {
            (_, core::cmp::Ordering::Less) => WritePermit::JustWrite,
            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,
            _ => WritePermit::GrowThenWrite,
        }
""", """        let end = begin_idx + num_items;
        match (end <= capacity, begin_idx <= capacity) {
            (true, _) => WritePermit::JustWrite,
            (false, true) => WritePermit::GrowThenWrite,
            (false, false) => WritePermit::Spin,
        }
"""))
S("filler-fn", ("state.rs", "        Some(|| ConcurrentElement(ConcurrentOption::none()))\n", "        fn empty<T>() -> ConcurrentElement<T> {\n            ConcurrentElement(ConcurrentOption::none())\n        }\n        Some(empty::<T>)\n"))
S("filler-default", ("state.rs", "ConcurrentElement(ConcurrentOption::none())", "ConcurrentOption::none().into()"))
S("state-new-one", ("state.rs", """        Self {
            len_reserved: pinned_vec.len().into(),
            len_written: pinned_vec.len().into(),
        }
""", """        let n = pinned_vec.len();
        Self {
            len_reserved: AtomicUsize::new(n),
            len_written: AtomicUsize::new(n),
        }
"""))

# ---- exclusive
S("clear-drop-explicit", ("exclusive.rs", "            elem.0.exclusive_take();\n", "            drop(elem.0.exclusive_take());\n"))
S("clear-foreach", ("exclusive.rs", """        for elem in unsafe { self.core.iter_mut(len) } {
            elem.0.exclusive_take();
        }
""", """        unsafe { self.core.iter_mut(len) }.for_each(|elem| {
            let _ = elem.0.exclusive_take();
        });
"""))
S("clear-helper", ("exclusive.rs", "            elem.0.exclusive_take();\n", "            Self::empty_element(elem);\n"),
  ("exclusive.rs", "    pub fn clear(&mut self)", "    fn empty_element(elem: &mut ConcurrentElement<T>) {\n        elem.0.exclusive_take();\n    }\n\n    ///\n    pub fn clear(&mut self)"))
S("clear-assign", ("exclusive.rs", "            elem.0.exclusive_take();\n", "            *elem = ConcurrentElement(orx_concurrent_option::ConcurrentOption::none());\n"))
S("clear-assign-inner", ("exclusive.rs", "            elem.0.exclusive_take();\n", "            elem.0 = orx_concurrent_option::ConcurrentOption::none();\n"))
S("clear-replace", ("exclusive.rs", "            elem.0.exclusive_take();\n", "            let _ = core::mem::replace(&mut elem.0, Default::default());\n"))
S("clear-take", ("exclusive.rs", "            elem.0.exclusive_take();\n", "            elem.0.take();\n"))

# ---- elem
S("elem-map-match", ("elem.rs", "        self.0.map(f).expect(HAS_VALUE)\n", "        match self.0.map(f) {\n            Some(x) => x,\n            None => panic!(\"{}\", HAS_VALUE),\n        }\n"))
S("elem-cloned-map", ("elem.rs", "        self.0.clone_into_option().expect(HAS_VALUE)\n", "        self.map(|x| x.clone())\n", 0))
S("elem-copied-deref", ("elem.rs", "        self.0.clone_into_option().expect(HAS_VALUE)\n", "        self.map(|x| *x)\n", 1))
S("elem-set-if", ("elem.rs", "        assert!(self.0.set_some(value), \"Failed to set the element\");\n", "        let done = self.0.set_some(value);\n        if !done {\n            panic!(\"Failed to set the element\");\n        }\n"))
S("elem-set-replace", ("elem.rs", "        assert!(self.0.set_some(value), \"Failed to set the element\");\n", "        let _ = self.replace(value);\n"))
S("elem-set-update", ("elem.rs", "        assert!(self.0.set_some(value), \"Failed to set the element\");\n", "        let mut value = Some(value);\n        self.update(|x| {\n            if let Some(v) = value.take() {\n                *x = v;\n            }\n        });\n"))
S("elem-replace-update", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)\n", "        let mut value = value;\n        self.update(|x| core::mem::swap(x, &mut value));\n        value\n"))
S("elem-update-handle", ("elem.rs", "        assert!(self.0.update_if_some(f), \"Failed to update the element\");\n", "        let updated = self.0.update_if_some(f);\n        assert!(updated, \"Failed to update the element\");\n"))

# ---- mut_elem
SWAPTAIL = """        let h_i = unsafe { self.mut_handle(i, SOME, SOME) };
        let h_j = unsafe { self.mut_handle(j, SOME, SOME) };
        match (h_i, h_j) {
            (Some(h_i), Some(h_j)) => {
                let mut_i = unsafe { h_i.get_mut() };
                let mut_j = unsafe { h_j.get_mut() };
                core::mem::swap(mut_i, mut_j);
                true
            }
            _ => false,
        }
"""
S("fill-foreach", ("mut_elem.rs", """        for elem in self.iter() {
            elem.set(value.clone());
        }
""", "        self.iter().for_each(|elem| elem.set(value.clone()));\n"))
S("fill-via-slice", ("mut_elem.rs", """        for elem in self.iter() {
            elem.set(value.clone());
        }
""", "        self.as_slice().fill(value);\n"))
S("fill-with-counter", ("mut_elem.rs", """        for (i, elem) in self.iter().enumerate() {
            elem.set(value(i));
        }
""", """        let mut i = 0;
        for elem in self.iter() {
            let v = value(i);
            elem.set(v);
            i += 1;
        }
"""))
S("fill-with-while", ("mut_elem.rs", """        for (i, elem) in self.iter().enumerate() {
            elem.set(value(i));
        }
""", """        let mut iter = self.iter();
        let mut i = 0;
        while let Some(elem) = iter.next() {
            elem.set(value(i));
            i += 1;
        }
"""))
S("fill-with-zip", ("mut_elem.rs", """        for (i, elem) in self.iter().enumerate() {
            elem.set(value(i));
        }
""", """        for (elem, i) in self.iter().zip(0..) {
            elem.set(value(i));
        }
"""))
S("fill-with-index", ("concurrent_slice/mut_elem.rs", """        for (i, elem) in self.iter().enumerate() {
            elem.set(value(i));
        }
""", """        for i in 0..self.len() {
            if let Some(elem) = self.get(i) {
                elem.set(value(i));
            }
        }
"""))
S("fill-slice-index", ("concurrent_slice/mut_elem.rs", """        for elem in self.iter() {
            elem.set(value.clone());
        }
""", """        for i in 0..self.len() {
            self[i].set(value.clone());
        }
"""))
S("swap-if-let", ("mut_elem.rs", SWAPTAIL, """        let h_i = unsafe { self.mut_handle(i, SOME, SOME) };
        let h_j = unsafe { self.mut_handle(j, SOME, SOME) };
        if let (Some(h_i), Some(h_j)) = (h_i, h_j) {
            unsafe { core::mem::swap(h_i.get_mut(), h_j.get_mut()) };
            return true;
        }
        false
"""))
S("swap-question", ("mut_elem.rs", SWAPTAIL, """        let Some(h_i) = (unsafe { self.mut_handle(i, SOME, SOME) }) else {
            return false;
        };
        let Some(h_j) = (unsafe { self.mut_handle(j, SOME, SOME) }) else {
            return false;
        };
        let (x, y) = unsafe { (h_i.get_mut(), h_j.get_mut()) };
        core::mem::swap(x, y);
        true
"""))
S("swap-helper", ("mut_elem.rs", SWAPTAIL, "        self.swap_ordered(i, j)\n"),
  ("mut_elem.rs", "    pub fn swap(&self", "    pub fn swap(&self", 0),
  ("mut_elem.rs", "impl<T, P> ConcurrentVec<T, P>\nwhere\n    P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,\n{\n", """impl<T, P> ConcurrentVec<T, P>
where
    P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
{
    fn swap_ordered(&self, i: usize, j: usize) -> bool {
""" + SWAPTAIL + "    }\n\n"))
S("swap-replace", ("mut_elem.rs", "                core::mem::swap(mut_i, mut_j);\n", "                *mut_j = core::mem::replace(mut_i, unsafe { core::ptr::read(mut_j) });\n".replace("*mut_j = core::mem::replace(mut_i, unsafe { core::ptr::read(mut_j) });", "unsafe { core::ptr::swap(mut_i, mut_j) };")))
S("swap-lt", ("mut_elem.rs", """            (Some(e_i), Some(e_j)) => match (e_i as *const ConcurrentElement<T>).cmp(&(e_j as _)) {
                Ordering::Less => (i, j),
                Ordering::Equal => return true,
                Ordering::Greater => (j, i),
            },
""", """            (Some(e_i), Some(e_j)) => {
                let (p, q) = (e_i as *const ConcurrentElement<T>, e_j as *const ConcurrentElement<T>);
                if p == q {
                    return true;
                }
                if p < q {
                    (i, j)
                } else {
                    (j, i)
                }
            }
"""), ("mut_elem.rs", "use core::cmp::Ordering;\n", ""))
S("swap-eq-first", ("mut_elem.rs", """            (Some(e_i), Some(e_j)) => match (e_i as""", """            (Some(_), Some(_)) if i == j => return true,
            (Some(e_i), Some(e_j)) => match (e_i as"""))

# ---- walks
S("map-inline", ("iter_shorthands.rs", "        self.iter().map(move |elem| elem.map(|x: &T| f(x)))\n", "        self.iter().map(move |elem| elem.map(&mut f))\n"))
S("fold-loop", ("iter_shorthands.rs", "        self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x)))\n", """        let mut agg = init;
        for elem in self.iter() {
            agg = elem.map(|x| f(agg, x));
        }
        agg
"""))
S("fold-via-slice", ("iter_shorthands.rs", "        self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x)))\n", "        self.as_slice().fold(init, f)\n"), ("iter_shorthands.rs", "pub fn fold<F, U>(&self, init: U, mut f: F)", "pub fn fold<F, U>(&self, init: U, f: F)"))
S("reduce-question", ("concurrent_slice/iter_shorthands.rs", """        match iter.next() {
            Some(first) => {
                let mut agg = first.cloned();
                for elem in iter {
                    agg = elem.map(|x| f(&agg, x));
                }
                Some(agg)
            }
            None => None,
        }
""", """        let mut agg = iter.next()?.cloned();
        for elem in iter {
            agg = elem.map(|x| f(&agg, x));
        }
        Some(agg)
"""))
S("reduce-fold", ("concurrent_slice/iter_shorthands.rs", """        match iter.next() {
            Some(first) => {
                let mut agg = first.cloned();
                for elem in iter {
                    agg = elem.map(|x| f(&agg, x));
                }
                Some(agg)
            }
            None => None,
        }
""", """        let first = iter.next()?.cloned();
        Some(iter.fold(first, |agg, elem| elem.map(|x| f(&agg, x))))
"""))
S("filter-fm", ("concurrent_slice/iter_shorthands.rs", "        self.iter().filter(move |elem| elem.map(|x: &T| f(x)))\n", "        self.iter().filter_map(move |elem| match elem.map(|x: &T| f(x)) {\n            true => Some(elem),\n            false => None,\n        })\n"))
S("index-of-loop", ("partial_eq.rs", "        self.iter().position(|e| e == value)\n", """        for (i, e) in self.iter().enumerate() {
            if e == value {
                return Some(i);
            }
        }
        None
"""))
S("index-of-find-map", ("concurrent_slice/partial_eq.rs", "        self.iter().position(|e| e == value)\n", "        self.iter().enumerate().find_map(|(i, e)| if e == value { Some(i) } else { None })\n"))
S("index-of-map", ("partial_eq.rs", "        self.iter().position(|e| e == value)\n", "        self.iter().position(|e| e.map(|x| x == value))\n"))
S("contains-any", ("partial_eq.rs", "        self.index_of(value).is_some()\n", "        self.iter().any(|e| e == value)\n"))
S("contains-find", ("concurrent_slice/partial_eq.rs", "        self.index_of(value).is_some()\n", "        self.iter().find(|e| *e == value).is_some()\n"))
S("contains-loop", ("concurrent_slice/partial_eq.rs", "        self.index_of(value).is_some()\n", "        for e in self.iter() {\n            if e == value {\n                return true;\n            }\n        }\n        false\n"))
S("clone-to-vec-collect", ("concurrent_slice/to_vec.rs", """        let iter = self.iter_cloned();
        let mut vec = Vec::with_capacity(self.len());
        for x in iter {
            vec.push(x);
        }
        vec
""", "        self.iter_cloned().collect()\n"))
S("clone-to-vec-extend", ("concurrent_slice/to_vec.rs", """        for x in iter {
            vec.push(x);
        }
""", "        vec.extend(iter);\n"))
S("clone-to-vec-direct", ("to_vec.rs", "        self.as_slice().clone_to_vec()\n", "        self.iter_cloned().collect()\n"))
S("clone-extend", ("common_traits/clone.rs", "        self.iter_cloned().collect()\n", "        let vec = ConcurrentVec::new();\n        for x in self.iter_cloned() {\n            vec.push(x);\n        }\n        vec\n"))
S("clone-from-iter", ("common_traits/clone.rs", "        self.iter_cloned().collect()\n", "        Self::from_iter(self.iter().map(|e| e.cloned()))\n"))
S("from-iter-if", ("common_traits/from_iter.rs", """        match iter.size_hint() {
            (a, Some(b)) if a == b => {
                vec.extend_n_items(iter, a);
            }
            _ => {
                for x in iter {
                    vec.push(x);
                }
            }
        }
""", """        let (lower, upper) = iter.size_hint();
        if upper == Some(lower) {
            vec.extend_n_items(iter, lower);
        } else {
            iter.for_each(|x| {
                vec.push(x);
            });
        }
"""))
S("from-iter-push-only", ("common_traits/from_iter.rs", """        match iter.size_hint() {
            (a, Some(b)) if a == b => {
                vec.extend_n_items(iter, a);
            }
            _ => {
                for x in iter {
                    vec.push(x);
                }
            }
        }
""", """        for x in iter {
            vec.push(x);
        }
"""))
S("to-vec-map", ("to_vec.rs", """        for x in pinned {
            vec.push(x.0.expect("unwrapped none"));
        }
        vec
""", """        vec.extend(pinned.into_iter().map(|x| x.0.expect("unwrapped none")));
        vec
"""))
S("to-vec-into-iter", ("to_vec.rs", """        let pinned = self.into_inner();
        let mut vec = Vec::with_capacity(pinned.len());
        for x in pinned {
            vec.push(x.0.expect("unwrapped none"));
        }
        vec
""", "        self.into_iter().collect()\n"))
S("to-vec-unwrap", ("to_vec.rs", "vec.push(x.0.expect(\"unwrapped none\"));", "let value = x.0.unwrap();\n            vec.push(value);"))
S("into-iter-match", ("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())\n", "        match self.iter.next() {\n            Some(e) => Some(e.0.unwrap()),\n            None => None,\n        }\n"))
S("into-iter-question", ("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())\n", "        let e = self.iter.next()?;\n        Some(e.0.unwrap())\n"))
S("into-iter-direct", ("common_traits/into_iter.rs", """        let x = self.into_inner();
        let y: P::IntoIter = x.into_iter();
        ElementValuesIter {
            iter: y,
            phantom: PhantomData,
        }
""", "        ElementValuesIter { phantom: PhantomData, iter: self.into_inner().into_iter() }\n"))
S("index-match", ("common_traits/index.rs", "        self.get(i).expect(\"out-of-bounds\")\n", "        match self.get(i) {\n            Some(x) => x,\n            None => panic!(\"out-of-bounds\"),\n        }\n", 0))
S("index-unwrap-or-else", ("common_traits/index.rs", "        self.get(i).expect(\"out-of-bounds\")\n", "        self.get(i).unwrap_or_else(|| panic!(\"out-of-bounds\"))\n", 1))
S("eq-elem-if", ("common_traits/eq.rs", """        match (self as *const Self).cmp(&(other as *const Self)) {
            Ordering::Less => self.map(|x| other.map(|y| x == y)),
            Ordering::Equal => self.map(|x| x == x),
            Ordering::Greater => other.map(|y| self.map(|x| x == y)),
        }
""", """        let (p, q) = (self as *const Self, other as *const Self);
        if p == q {
            self.map(|x| x == x)
        } else if p < q {
            self.map(|x| other.map(|y| x == y))
        } else {
            other.map(|y| self.map(|x| x == y))
        }
"""), ("common_traits/eq.rs", "use core::cmp::Ordering;\n", ""))
S("eq-iters-while", ("common_traits/eq.rs", """    loop {
        match (a.next(), b.next()) {
            (Some(a), Some(b)) if a == b => continue,
            (None, None) => return true,
            _ => return false,
        }
    }
""", """    loop {
        let (x, y) = (a.next(), b.next());
        if x.is_none() && y.is_none() {
            return true;
        }
        match (x, y) {
            (Some(x), Some(y)) => {
                if x != y {
                    return false;
                }
            }
            _ => return false,
        }
    }
""", 0))
S("eq-iters-for", ("common_traits/eq.rs", """    loop {
        match (a.next(), b.next()) {
            (Some(a), Some(b)) if a == b => continue,
            (None, None) => return true,
            _ => return false,
        }
    }
""", """    while let Some(x) = a.next() {
        match b.next() {
            Some(y) => {
                if !(x == y) {
                    return false;
                }
            }
            None => return false,
        }
    }
    b.next().is_none()
""", 0))
S("eq-iters-std", ("common_traits/eq.rs", """    loop {
        match (a.next(), b.next()) {
            (Some(a), Some(b)) if a == b => continue,
            (None, None) => return true,
            _ => return false,
        }
    }
""", """    a.eq(b)
""", 0), ("common_traits/eq.rs", "fn eq_elem_iters<'a, T, I, J>(mut a: I, mut b: J)", "fn eq_elem_iters<'a, T, I, J>(a: I, b: J)"))
S("eq-iter-to-map", ("common_traits/eq.rs", "(Some(a), Some(b)) if a.0.is_some_and(|a| a == b) => continue,", "(Some(a), Some(b)) if a.map(|a| a == b) => continue,"))
S("eq-slice-len-first", ("common_traits/eq.rs", "        eq_elem_iters(self.iter(), other.iter())\n", "        self.len() == other.len() && eq_elem_iters(self.iter(), other.iter())\n", 2))
S("debug-list", ("common_traits/debug.rs", """    write!(f, "[")?;
    if let Some(first) = iter.next() {
        first.map(|x| write!(f, "{:?}", x))?;
        for elem in iter {
            elem.map(|x| write!(f, ", {:?}", x))?;
        }
    }
    write!(f, "]")
""", """    write!(f, "[")?;
    let mut first = true;
    while let Some(elem) = iter.next() {
        if !first {
            write!(f, ", ")?;
        }
        first = false;
        elem.map(|x| write!(f, "{:?}", x))?;
    }
    write!(f, "]")
"""))
S("debug-sep", ("common_traits/debug.rs", """    if let Some(first) = iter.next() {
        first.map(|x| write!(f, "{:?}", x))?;
        for elem in iter {
            elem.map(|x| write!(f, ", {:?}", x))?;
        }
    }
""", """    let mut sep = "";
    for elem in iter {
        elem.map(|x| write!(f, "{}{:?}", sep, x))?;
        sep = ", ";
    }
"""), ("common_traits/debug.rs", "mut iter: I)", "iter: I)"))

# ---- split / slice
S("split-at-let", ("split.rs", "        (self.slice(0..mid), self.slice(mid..))\n", "        let left = self.slice(..mid);\n        let right = self.slice(mid..);\n        (left, right)\n"))
S("split-at-if", ("concurrent_slice/split.rs", "        assert!(mid <= len);\n", "        if mid > len {\n            panic!(\"assertion failed: mid <= len\");\n        }\n"))
S("split-first-map", ("split.rs", """        match self.get(0) {
            Some(a) => {
                let b = self.slice(1..self.len());
                Some((a, b))
            }
            None => None,
        }
""", "        self.get(0).map(|a| (a, self.slice(1..self.len())))\n"))
S("split-first-question", ("concurrent_slice/split.rs", """        match self.get(0) {
            Some(a) => {
                let b = self.slice(1..self.len());
                Some((a, b))
            }
            None => None,
        }
""", "        let first = self.get(0)?;\n        let rest = self.slice(1..);\n        Some((first, rest))\n"))
S("split-last-if", ("split.rs", """        match len {
            0 => None,
            _ => {
                let a = self.slice(0..(len - 1));
                let b = &self[len - 1];
                Some((b, a))
            }
        }
""", """        if len == 0 {
            return None;
        }
        let last = len - 1;
        Some((&self[last], self.slice(..last)))
"""))
S("split-last-checked", ("concurrent_slice/split.rs", """        match len {
            0 => None,
            _ => {
                let a = self.slice(0..(len - 1));
                let b = &self[len - 1];
                Some((b, a))
            }
        }
""", """        let last = len.checked_sub(1)?;
        let a = self.slice(0..last);
        let b = self.get(last)?;
        Some((b, a))
"""))
CHUNKS = """        let mut num_slices = len / chunk_size;
        let remainder = len - num_slices * chunk_size;
        if remainder > 0 {
            num_slices += 1;
        }

        (0..num_slices).map(move |i| {
            let a = i * chunk_size;
            let b = a + match (i == num_slices - 1, remainder > 0) {
                (true, true) => remainder,
                _ => chunk_size,
            };
            self.slice(a..b)
        })
"""
S("chunks-min", ("split.rs", CHUNKS, """        let num_slices = len.div_ceil(chunk_size);
        (0..num_slices).map(move |i| {
            let a = i * chunk_size;
            let b = (a + chunk_size).min(len);
            self.slice(a..b)
        })
"""))
S("chunks-rem", ("concurrent_slice/split.rs", CHUNKS, """        let full = len / chunk_size;
        let remainder = len % chunk_size;
        let num_slices = full + usize::from(remainder > 0);
        (0..num_slices).map(move |i| {
            let a = i * chunk_size;
            let n = if i < full { chunk_size } else { remainder };
            self.slice(a..(a + n))
        })
"""))
S("chunks-helper", ("split.rs", CHUNKS, """        let num_slices = number_of_chunks(len, chunk_size);
        (0..num_slices).map(move |i| {
            let a = i * chunk_size;
            let b = match i + 1 == num_slices {
                true => len,
                false => a + chunk_size,
            };
            self.slice(a..b)
        })
"""), ("split.rs", "impl<T, P> ConcurrentVec<T, P>\n", """fn number_of_chunks(len: usize, chunk_size: usize) -> usize {
    match len % chunk_size {
        0 => len / chunk_size,
        _ => len / chunk_size + 1,
    }
}

impl<T, P> ConcurrentVec<T, P>
"""))
S("slice-get-idx", ("concurrent_slice/slice.rs", """        match i < self.len {
            true => unsafe { self.vec.core.get(self.a + i) },
            false => None,
        }
""", "        let i = self.idx(i)?;\n        unsafe { self.vec.core.get(i) }\n"))
S("slice-idx-then", ("concurrent_slice/slice.rs", """        match i < self.len {
            true => Some(self.a + i),
            false => None,
        }
""", "        (i < self.len).then_some(self.a + i)\n"))
S("slice-iter-end", ("concurrent_slice/slice.rs", """        let b = self.a + self.len;
        unsafe { self.vec.core.iter_over_range(self.a..b) }
""", """        unsafe { self.vec.core.iter_over_range(self.range()) }
""", 0), ("concurrent_slice/slice.rs", "    #[inline(always)]\n    pub(super) fn idx(", "    fn range(&self) -> core::ops::Range<usize> {\n        self.a..(self.a + self.len)\n    }\n\n    #[inline(always)]\n    pub(super) fn idx("))
S("slice-get-via-vec", ("concurrent_slice/slice.rs", "            true => unsafe { self.vec.core.get(self.a + i) }.map(|e| e.cloned()),\n", "            true => self.get(i).map(|e| e.cloned()),\n"))
S("slice-iter-cloned-iter", ("concurrent_slice/slice.rs", """        let b = self.a + self.len;
        unsafe { self.vec.core.iter_over_range(self.a..b) }.map(|elem| elem.cloned())
""", "        self.iter().map(|elem| elem.cloned())\n"))
S("slice-index-of-slots", ("concurrent_slice/mut_elem.rs", """        let idx_i = self.idx(i);
        let idx_j = self.idx(j);
        match (idx_i, idx_j) {
            (Some(i), Some(j)) => self.vec.swap(i, j),
            _ => false,
        }
""", """        if i < self.len() && j < self.len() {
            return self.vec.swap(self.a + i, self.a + j);
        }
        false
"""))
S("slice-swap-if-let", ("concurrent_slice/mut_elem.rs", """        let idx_i = self.idx(i);
        let idx_j = self.idx(j);
        match (idx_i, idx_j) {
            (Some(i), Some(j)) => self.vec.swap(i, j),
            _ => false,
        }
""", """        let (Some(i), Some(j)) = (self.idx(i), self.idx(j)) else {
            return false;
        };
        self.vec.swap(i, j)
"""))

# ---- unsafe api
S("get-raw-match", ("unsafe_api.rs", """                let maybe = unsafe { self.core.get(i) };
                maybe.and_then(|x| {
                    x.0.get_raw_with_order(Ordering::SeqCst)
                        .or_else(|| x.0.get_raw())
                })
""", """                let x = unsafe { self.core.get(i) }?;
                match x.0.get_raw_with_order(Ordering::SeqCst) {
                    Some(p) => Some(p),
                    None => x.0.get_raw(),
                }
"""))
S("get-raw-mut-cast", ("unsafe_api.rs", "                elem.and_then(|option| option.0.get_raw_mut().map(|p| &mut *p))\n", "                match elem?.0.get_raw_mut() {\n                    Some(p) => Some(&mut *p),\n                    None => None,\n                }\n"))
S("iter-mut-filter-map", ("unsafe_api.rs", "        x.flat_map(|x| x.0.get_raw_mut().map(|p| &mut *p))\n", "        x.filter_map(|x| x.0.get_raw_mut().map(|p| &mut *p))\n"))
S("slice-get-raw-match", ("concurrent_slice/unsafe_api.rs", "        self.idx(i).and_then(|i| self.vec.get_raw(i))\n", "        match self.idx(i) {\n            Some(i) => self.vec.get_raw(i),\n            None => None,\n        }\n"))
S("get-ref-if", ("unsafe_api.rs", """        match i < self.reserved_len() {
            true => {
                let maybe = self.core.get(i);
                maybe.and_then(|x| {
                    x.0.as_ref_with_order(Ordering::SeqCst)
                        .or_else(|| x.0.as_ref())
                })
            }
            false => None,
        }
""", """        if i >= self.reserved_len() {
            return None;
        }
        self.core.get(i).and_then(|x| x.0.as_ref_with_order(Ordering::SeqCst).or_else(|| x.0.as_ref()))
"""))

# ---- helpers
S("mut-handle-if", ("helpers.rs", """        match i < self.len() {
            true => unsafe {
                self.core
                    .get(i)
                    .and_then(|e| e.0.mut_handle(initial_state, success_state))
            },
            false => None,
        }
""", """        if i < self.len() {
            let e = unsafe { self.core.get(i) }?;
            return unsafe { e.0.mut_handle(initial_state, success_state) };
        }
        None
"""))
S("mut-handle-get", ("helpers.rs", """        match i < self.len() {
            true => unsafe {
                self.core
                    .get(i)
                    .and_then(|e| e.0.mut_handle(initial_state, success_state))
            },
            false => None,
        }
""", """        self.get(i).and_then(|e| unsafe { e.0.mut_handle(initial_state, success_state) })
"""))
S("new-direct", ("new.rs", "        Self::new_from_pinned(SplitVec::with_doubling_growth_and_fragments_capacity(32))\n", "        let pinned = SplitVec::with_doubling_growth_and_fragments_capacity(32);\n        pinned.into()\n"))
S("rename-counter", *[(f, "len_reserved", "reserved", None) for f in ()])
MUTANTS.pop()

# ---- branches in front of the storage step
FORK = "        if num_items > 1024 {\n            core::hint::spin_loop();\n        }\n"
S("extend-n-fork", ("grow.rs", EXT, EXT + "\n" + FORK.rstrip(), 1))
S("extend-for-fork", ("grow.rs", EXT, EXT + "\n" + FORK.rstrip(), 0))
S("push-fork", ("grow.rs", PUSH, PUSH + "\n        if idx > 1024 {\n            core::hint::spin_loop();\n        }", 0))
S("push-for-fork", ("grow.rs", PUSH, PUSH + "\n        if idx > 1024 {\n            core::hint::spin_loop();\n        }", 1))
S("hook-spin-loop", ("state.rs", "    fn release_growth_handle(&self) {}\n", """    fn release_growth_handle(&self) {
        for _ in 0..3 {
            core::hint::spin_loop();
        }
    }
"""))
S("permit-uses-max", ("state.rs", "        let capacity = col.capacity();\n        let last_idx", "        let capacity = col.capacity().min(col.maximum_capacity());\n        let last_idx"))
