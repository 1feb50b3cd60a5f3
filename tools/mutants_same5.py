"""Fifth batch of edits that keep the behaviour: library constructs the earlier batches do not use."""
MUTANTS = []


def S(id, *edits):
    MUTANTS.append({"kind": "same", "id": "s5-" + id, "prop": "", "edits": list(edits)})


CS = "concurrent_slice/"
LOOP = """        for slice in slices {
            for maybe in slice {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
"""
LEN = """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let mut num_pushed = 0;
        for x in iter {
            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                // an element that is being accessed by another thread is already written
                State::Some | State::Reserved => num_pushed += 1,
            }
        }
        let new_len = len + num_pushed;
"""
UNTIL = """        let until = match len_reserved <= cap {
            true => len_reserved,
            false => cap,
        };
"""
RES = """        match len <= cap {
            true => len,
            false => cap,
        }
"""
GET = """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }"""
GETC = """        match i < self.reserved_len() {
            true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),
            false => None,
        }"""
SGET = """        match i < self.len {
            true => unsafe { self.vec.core.get(self.a + i) },
            false => None,
        }"""
IDX = """        match i < self.len {
            true => Some(self.a + i),
            false => None,
        }"""
FIRST = """        match self.get(0) {
            Some(a) => {
                let b = self.slice(1..self.len());
                Some((a, b))
            }
            None => None,
        }"""
LAST = """        let len = self.len();
        match len {
            0 => None,
            _ => {
                let a = self.slice(0..(len - 1));
                let b = &self[len - 1];
                Some((b, a))
            }
        }"""
CHUNKS = """        let len = self.len();
        let mut num_slices = len / chunk_size;
        let remainder = len - num_slices * chunk_size;
        if remainder > 0 {
            num_slices += 1;
        }

        (0..num_slices).map(move |i| {
            let a = i * chunk_size;
            let b = a + match (i == num_slices - 1, remainder > 0) {
                (true, true) => remainder,
                _ => chunk_size,
            };
            self.slice(a..b)
        })"""
FIRSTSWAP = """        let (i, j) = match (self.get(i), self.get(j)) {
            (Some(e_i), Some(e_j)) => match (e_i as *const ConcurrentElement<T>).cmp(&(e_j as _)) {
                Ordering::Less => (i, j),
                Ordering::Equal => return true,
                Ordering::Greater => (j, i),
            },
            _ => return false,
        };
"""
SSWAP = """        let idx_i = self.idx(i);
        let idx_j = self.idx(j);

        match (idx_i, idx_j) {
            (Some(i), Some(j)) => self.vec.swap(i, j),
            _ => false,
        }"""
EQLOOP = """    loop {
        match (a.next(), b.next()) {
            (Some(a), Some(b)) if a == b => continue,
            (None, None) => return true,
            _ => return false,
        }
    }"""
EQLOOP2 = EQLOOP.replace("if a == b", "if a.0.is_some_and(|a| a == b)")
TOVEC = """        let mut vec = Vec::with_capacity(pinned.len());
        for x in pinned {
            vec.push(x.0.expect("unwrapped none"));
        }
        vec"""
CTOVEC = """        let mut vec = Vec::with_capacity(self.len());
        for x in iter {
            vec.push(x);
        }
        vec"""
FILL = """        for elem in self.iter() {
            elem.set(value.clone());
        }"""
FILLW = """        for (i, elem) in self.iter().enumerate() {
            elem.set(value(i));
        }"""
FI = """        match iter.size_hint() {
            (a, Some(b)) if a == b => {
                vec.extend_n_items(iter, a);
            }
            _ => {
                for x in iter {
                    vec.push(x);
                }
            }
        }
"""
CLEAR = """        for elem in unsafe { self.core.iter_mut(len) } {
            elem.0.exclusive_take();
        }
"""

# let else / early returns
S("get-let-else", ("vec.rs", GET, "        let Some(_) = self.len().checked_sub(i).filter(|d| *d > 0) else {\n            return None;\n        };\n        unsafe { self.core.get(i) }"))
S("split-first-let-else", ("split.rs", FIRST, "        let Some(a) = self.get(0) else { return None };\n        Some((a, self.slice(1..self.len())))"))
S("split-first-map", (CS + "split.rs", FIRST, "        self.get(0).map(|a| (a, self.slice(1..self.len())))"))
S("split-last-let-else", ("split.rs", LAST, "        let len = self.len();\n        let Some(last) = len.checked_sub(1) else {\n            return None;\n        };\n        Some((&self[last], self.slice(..last)))"))
S("split-last-checked", (CS + "split.rs", LAST, "        let last = self.len().checked_sub(1)?;\n        let a = self.slice(..last);\n        self.get(last).map(|b| (b, a))"))
S("swap-let-else", ("mut_elem.rs", FIRSTSWAP, """        let (Some(e_i), Some(e_j)) = (self.get(i), self.get(j)) else {
            return false;
        };
        let (p_i, p_j) = (e_i as *const ConcurrentElement<T>, e_j as *const _);
        let (i, j) = match p_i.cmp(&p_j) {
            Ordering::Less => (i, j),
            Ordering::Equal => return true,
            Ordering::Greater => (j, i),
        };
"""))
S("sswap-let-else", (CS + "mut_elem.rs", SSWAP, "        let Some((i, j)) = self.idx(i).zip(self.idx(j)) else {\n            return false;\n        };\n        self.vec.swap(i, j)"))
S("sswap-map-or", (CS + "mut_elem.rs", SSWAP, "        self.idx(i)\n            .and_then(|i| self.idx(j).map(|j| self.vec.swap(i, j)))\n            .unwrap_or_default()"))
S("sswap-map-or2", (CS + "mut_elem.rs", SSWAP, "        self.idx(i)\n            .zip(self.idx(j))\n            .map_or(false, |(i, j)| self.vec.swap(i, j))"))
S("idx-ok", (CS + "slice.rs", IDX, "        (i < self.len).then_some(self.a.wrapping_add(i))"))
S("idx-range", (CS + "slice.rs", IDX, "        match i {\n            i if (0..self.len).contains(&i) => Some(self.a + i),\n            _ => None,\n        }"))
S("sget-idx-q", (CS + "slice.rs", SGET, "        let i = self.idx(i)?;\n        unsafe { self.vec.core.get(i) }"))
S("sget-range-contains", (CS + "slice.rs", SGET, "        let range = self.a..self.a + self.len;\n        let i = self.a.checked_add(i)?;\n        match range.contains(&i) {\n            true => unsafe { self.vec.core.get(i) },\n            false => None,\n        }"))
S("getc-ok-or", ("vec.rs", GETC, "        let in_range = (i < self.reserved_len()).then_some(i).ok_or(());\n        in_range\n            .ok()\n            .and_then(|i| unsafe { self.core.get(i) })\n            .and_then(|elem| elem.0.clone_into_option())"))
S("getc-map-or", ("vec.rs", GETC, "        match i < self.reserved_len() {\n            true => unsafe { self.core.get(i) }.map_or(None, |elem| elem.0.clone_into_option()),\n            false => None,\n        }"))
S("getc-if-let-chain", ("vec.rs", GETC, "        if i >= self.reserved_len() {\n            return None;\n        }\n        if let Some(elem) = unsafe { self.core.get(i) } {\n            return elem.0.clone_into_option();\n        }\n        None"))

# len
S("len-sum", ("vec.rs", LEN, """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let num_pushed: usize = iter
            .take_while(|x| !matches!(x.0.state(Ordering::Relaxed), State::None))
            .map(|_| 1)
            .sum();
        let new_len = len + num_pushed;
"""))
S("len-try-fold", ("vec.rs", LEN, """        let mut iter = unsafe { self.core.iter_over_range(len..until) };
        let counted = iter.try_fold(len, |n, x| match x.0.state(Ordering::Relaxed) {
            State::None => Err(n),
            State::Some | State::Reserved => Ok(n + 1),
        });
        let new_len = match counted {
            Ok(n) => n,
            Err(n) => n,
        };
"""))
S("len-zip-last", ("vec.rs", LEN, """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let mut new_len = len;
        for (x, n) in iter.zip(len + 1..) {
            if let State::None = x.0.state(Ordering::Relaxed) {
                break;
            }
            new_len = n;
        }
"""))
S("len-rangeincl", ("vec.rs", UNTIL, """        let until = match len_reserved {
            n if (0..=cap).contains(&n) => n,
            _ => cap,
        };
"""))
S("res-rangeincl", ("vec.rs", RES, "        match len {\n            n if (0..=cap).contains(&n) => n,\n            _ => cap,\n        }\n"))
S("res-min-array", ("vec.rs", RES, "        *[len, cap].iter().min().unwrap()\n"))
S("res-sub", ("vec.rs", RES, "        len - len.saturating_sub(cap)\n"))
S("len-shadow-closure", ("vec.rs", UNTIL, "        let bounded = |n: usize| if n <= cap { n } else { cap };\n        let until = bounded(len_reserved);\n"))

# write loop
S("ext-chain-once", ("grow.rs", LOOP, """        for maybe in slices.into_iter().flat_map(|slice| slice.iter()) {
            let Some(value) = values.next() else {
                panic!("provided iterator is shorter than expected num_items");
            };
            unsafe { maybe.0.initialize_unchecked(value) };
        }
""", 1))
S("ext-try-for-each", ("grow.rs", LOOP, """        slices
            .into_iter()
            .flatten()
            .try_for_each(|maybe| {
                let value = values.next()?;
                unsafe { maybe.0.initialize_unchecked(value) };
                Some(())
            })
            .expect("provided iterator is shorter than expected num_items");
""", 1))
S("ext-dyn", ("grow.rs", LOOP, """        let mut next = || {
            values
                .next()
                .expect("provided iterator is shorter than expected num_items")
        };
        let next: &mut dyn FnMut() -> T = &mut next;
        for slice in slices {
            for maybe in slice {
                unsafe { maybe.0.initialize_unchecked(next()) };
            }
        }
""", 1))
S("ext-index", ("grow.rs", LOOP, """        for slice in slices {
            for k in 0..slice.len() {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { slice.get_unchecked(k).0.initialize_unchecked(value) };
            }
        }
""", 0))
S("ext-split-first", ("grow.rs", LOOP, """        for slice in slices {
            let mut rest = &slice[..];
            while let Some((maybe, tail)) = rest.split_first() {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
                rest = tail;
            }
        }
""", 1))
S("ext-slice-pattern", ("grow.rs", LOOP, """        for slice in slices {
            let mut rest = &slice[..];
            while let [maybe, tail @ ..] = rest {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
                rest = tail;
            }
        }
""", 1))
S("ext-macro", ("grow.rs", "use core::sync::atomic::Ordering;\n", """use core::sync::atomic::Ordering;

macro_rules! take_next {
    ($values:ident) => {
        $values
            .next()
            .expect("provided iterator is shorter than expected num_items")
    };
}

"""), ("grow.rs", LOOP, LOOP.replace("""values
                    .next()
                    .expect("provided iterator is shorter than expected num_items")""", "take_next!(values)"), 0))
S("ext-trait-helper", ("grow.rs", "use core::sync::atomic::Ordering;\n", """use core::sync::atomic::Ordering;

trait NextOrPanic: Iterator {
    fn next_or_panic(&mut self) -> Self::Item;
}

impl<I: Iterator> NextOrPanic for I {
    fn next_or_panic(&mut self) -> Self::Item {
        match self.next() {
            Some(x) => x,
            None => panic!("provided iterator is shorter than expected num_items"),
        }
    }
}

"""), ("grow.rs", LOOP, LOOP.replace("""values
                    .next()
                    .expect("provided iterator is shorter than expected num_items")""", "values.next_or_panic()"), 1))

# equality
S("eq-map-or", ("common_traits/eq.rs", EQLOOP, """    let mut same = true;
    while same {
        let (x, y) = (a.next(), b.next());
        if x.is_none() && y.is_none() {
            break;
        }
        same = x.zip(y).map_or(false, |(x, y)| x == y);
    }
    same"""))
S("eq2-ne", ("common_traits/eq.rs", EQLOOP2, """    loop {
        match a.next() {
            None => return b.next().is_none(),
            Some(x) => match b.next() {
                None => return false,
                Some(y) => {
                    if !x.0.is_some_and(|x| x == y) {
                        return false;
                    }
                }
            },
        }
    }"""))
S("eq2-elem", ("common_traits/eq.rs", "a.0.is_some_and(|a| a == b)", "a == b"))
S("eq-addr", ("common_traits/eq.rs", "        match (self as *const Self).cmp(&(other as *const Self)) {", "        let (p, q) = (core::ptr::from_ref(self), core::ptr::from_ref(other));\n        match p.cmp(&q) {"))
S("eq-ptr-eq", ("common_traits/eq.rs", """        match (self as *const Self).cmp(&(other as *const Self)) {
            Ordering::Less => self.map(|x| other.map(|y| x == y)),
            Ordering::Equal => self.map(|x| x == x),
            Ordering::Greater => other.map(|y| self.map(|x| x == y)),
        }""", """        if core::ptr::eq(self, other) {
            return self.map(|x| x == x);
        }
        let (p, q) = (self as *const Self, other as *const Self);
        if p < q {
            self.map(|x| other.map(|y| x == y))
        } else {
            other.map(|y| self.map(|x| x == y))
        }"""), ("common_traits/eq.rs", "use core::cmp::Ordering;\n", ""))

# chunks
S("chunks-step-by", (CS + "split.rs", CHUNKS, """        let len = self.len();
        (0..len).step_by(chunk_size).map(move |a| {
            let n = chunk_size.min(len - a);
            self.slice(a..a + n)
        })"""))
S("chunks-checked-rem", ("split.rs", CHUNKS, """        let len = self.len();
        let num_slices = len / chunk_size + usize::from(len % chunk_size > 0);

        (0..num_slices).map(move |i| {
            let a = i * chunk_size;
            let b = match len - a < chunk_size {
                true => len,
                false => a + chunk_size,
            };
            self.slice(a..b)
        })"""))

# elements in sequence
S("fill-for-each", ("mut_elem.rs", FILL, "        self.iter()\n            .zip(core::iter::repeat(&value))\n            .for_each(|(elem, value)| elem.set(value.clone()));"))
S("fillw-zip", ("mut_elem.rs", FILLW, "        self.iter().zip(0..).for_each(|(elem, i)| elem.set(value(i)));"))
S("fillw-successors", (CS + "mut_elem.rs", FILLW, "        let mut i = 0;\n        let mut elems = self.iter();\n        while let Some(elem) = elems.next() {\n            elem.set(value(i));\n            i += 1;\n        }"))
S("fold-loop", ("iter_shorthands.rs", "        self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x)))", "        let mut agg = init;\n        for elem in self.iter() {\n            agg = elem.map(|x| f(agg, x));\n        }\n        agg"))
S("filter-map-bool", ("iter_shorthands.rs", "        self.iter().filter(move |elem| elem.map(|x: &T| f(x)))", "        self.iter()\n            .filter_map(move |elem| elem.map(|x: &T| f(x)).then_some(elem))"))
S("map-from-fn", ("iter_shorthands.rs", "        self.iter().map(move |elem| elem.map(|x: &T| f(x)))", "        let mut elems = self.iter();\n        core::iter::from_fn(move || elems.next().map(|elem| elem.map(|x: &T| f(x))))"))
S("index-of-enum", ("partial_eq.rs", "        self.iter().position(|e| e == value)", "        self.iter()\n            .enumerate()\n            .find(|(_, e)| *e == value)\n            .map(|(i, _)| i)"))
S("index-of-try-fold", (CS + "partial_eq.rs", "        self.iter().position(|e| e == value)", "        for (i, e) in self.iter().enumerate() {\n            if e == value {\n                return Some(i);\n            }\n        }\n        None"))
S("contains-any", ("partial_eq.rs", "        self.index_of(value).is_some()", "        self.iter().any(|e| e == value)"))
S("contains-not-all", (CS + "partial_eq.rs", "        self.index_of(value).is_some()", "        !self.iter().all(|e| e.map(|x| x != value))"))

# whole value
S("to-vec-map", ("to_vec.rs", TOVEC, """        let mut vec = Vec::with_capacity(pinned.len());
        vec.extend(pinned.into_iter().map(|x| x.0.expect("unwrapped none")));
        vec"""))
S("to-vec-let-else", ("to_vec.rs", TOVEC, """        let mut vec = Vec::with_capacity(pinned.len());
        for x in pinned {
            let value = x.0.expect("unwrapped none");
            vec.insert(vec.len(), value);
        }
        vec"""))
S("ctovec-fold", (CS + "to_vec.rs", CTOVEC, "        iter.fold(Vec::with_capacity(self.len()), |mut vec, x| {\n            vec.push(x);\n            vec\n        })"))
S("ctovec-collect-into", (CS + "to_vec.rs", CTOVEC, "        let mut vec = Vec::new();\n        vec.reserve_exact(self.len());\n        iter.for_each(|x| vec.push(x));\n        vec"))
S("into-iter-match", ("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())", "        let ConcurrentElement(value) = self.iter.next()?;\n        Some(value.unwrap())"))
S("into-iter-fields", ("common_traits/into_iter.rs", """        let x = self.into_inner();
        let y: P::IntoIter = x.into_iter();
        ElementValuesIter {
            iter: y,
            phantom: PhantomData,
        }""", """        let phantom = PhantomData;
        let iter = self.into_inner().into_iter();
        ElementValuesIter { iter, phantom }"""))
S("from-iter-exact", ("common_traits/from_iter.rs", FI, """        let exact = match iter.size_hint() {
            (a, Some(b)) => (a == b).then_some(a),
            (_, None) => None,
        };
        if let Some(n) = exact {
            vec.extend_n_items(iter, n);
        } else {
            iter.for_each(|x| {
                vec.push(x);
            });
        }
"""))
S("from-iter-let-else", ("common_traits/from_iter.rs", FI, """        let (lower, upper) = iter.size_hint();
        if upper != Some(lower) {
            iter.for_each(|x| drop(vec.push(x)));
            return vec;
        }
        vec.extend_n_items(iter, lower);
"""))
S("clone-from-iter", ("common_traits/clone.rs", "        self.iter_cloned().collect()", "        Self::from_iter(self.iter_cloned())"))
S("clone-fold", ("common_traits/clone.rs", "        self.iter_cloned().collect()", "        let vec = Self::new();\n        for x in self.iter_cloned() {\n            vec.push(x);\n        }\n        vec"))
S("clear-for-each-drop", ("exclusive.rs", CLEAR, "        unsafe { self.core.iter_mut(len) }.for_each(|elem| drop(elem.0.exclusive_take()));\n"))
S("clear-while", ("exclusive.rs", CLEAR, "        let mut elems = unsafe { self.core.iter_mut(len) };\n        while let Some(ConcurrentElement(cell)) = elems.next() {\n            let _ = cell.exclusive_take();\n        }\n        drop(elems);\n"))

# state
S("permit-if", ("state.rs", """        match idx.cmp(&capacity) {
            Ordering::Less => WritePermit::JustWrite,
            Ordering::Equal => WritePermit::GrowThenWrite,
            Ordering::Greater => WritePermit::Spin,
        }""", """        match idx.checked_sub(capacity) {
            None => WritePermit::JustWrite,
            Some(0) => WritePermit::GrowThenWrite,
            Some(_) => WritePermit::Spin,
        }"""))
S("permit-n-ranges", ("state.rs", """        match (begin_idx.cmp(&capacity), last_idx.cmp(&capacity)) {
            (_, core::cmp::Ordering::Less) => WritePermit::JustWrite,
            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,
            _ => WritePermit::GrowThenWrite,
        }""", """        if (begin_idx..=last_idx).contains(&capacity) {
            WritePermit::GrowThenWrite
        } else if begin_idx > capacity {
            WritePermit::Spin
        } else {
            WritePermit::JustWrite
        }"""))
S("state-default-fn", ("state.rs", "        Some(|| ConcurrentElement(ConcurrentOption::none()))", "        fn absent<T>() -> ConcurrentElement<T> {\n            ConcurrentElement(ConcurrentOption::none())\n        }\n        Some(absent)"))
S("state-default", ("state.rs", "        Some(|| ConcurrentElement(ConcurrentOption::none()))", "        Some(|| ConcurrentElement::from(ConcurrentOption::default()))"))
S("state-new-shared", ("state.rs", """        Self {
            len_reserved: pinned_vec.len().into(),
            len_written: pinned_vec.len().into(),
        }""", """        let [len_reserved, len_written] = [pinned_vec.len(); 2].map(AtomicUsize::new);
        Self {
            len_reserved,
            len_written,
        }"""))
S("elem-let-else", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)", "        let Some(old) = self.0.replace(value) else {\n            panic!(\"{}\", HAS_VALUE)\n        };\n        old"))
S("elem-ok-or", ("elem.rs", "        self.0.map(f).expect(HAS_VALUE)", "        self.0.map(f).ok_or(HAS_VALUE).unwrap()"))
S("elem-unwrap-or-else", ("elem.rs", "        self.0.clone_into_option().expect(HAS_VALUE)", "        self.0\n            .clone_into_option()\n            .unwrap_or_else(|| panic!(\"{HAS_VALUE}\"))", 1))
S("elem-set-if", ("elem.rs", '        assert!(self.0.set_some(value), "Failed to set the element");', '        let true = self.0.set_some(value) else {\n            panic!("Failed to set the element")\n        };'))
S("raw-map-or-else", ("unsafe_api.rs", """                maybe.and_then(|x| {
                    x.0.get_raw_with_order(Ordering::SeqCst)
                        .or_else(|| x.0.get_raw())
                })""", """                let x = maybe?;
                match x.0.get_raw_with_order(Ordering::SeqCst) {
                    None => x.0.get_raw(),
                    found => found,
                }"""))
S("iter-ref-filter-map", ("unsafe_api.rs", "        x.flat_map(|x| unsafe {", "        x.filter_map(|x| unsafe {"))
S("eq2-all", ("common_traits/eq.rs", EQLOOP2, "    a.by_ref()\n        .all(|x| b.next().map_or(false, |y| x.0.is_some_and(|x| x == y)))\n        && b.next().is_none()"))
S("eq2-take-all", ("common_traits/eq.rs", EQLOOP2, "    let n = a.size_hint().0;\n    a.by_ref()\n        .take(n)\n        .all(|x| b.next().map_or(false, |y| x.0.is_some_and(|x| x == y)))\n        && a.next().is_none()\n        && b.next().is_none()"))
S("eq-take-all", ("common_traits/eq.rs", EQLOOP, "    let all = a.by_ref().all(|x| match b.next() {\n        Some(y) => x == y,\n        None => false,\n    });\n    all && b.next().is_none()"))
S("eq-len-zip", ("common_traits/eq.rs", EQLOOP, "    if a.size_hint() != b.size_hint() {\n        return loop {\n            match (a.next(), b.next()) {\n                (Some(x), Some(y)) if x == y => continue,\n                (None, None) => break true,\n                _ => break false,\n            }\n        };\n    }\n    loop {\n        match (a.next(), b.next()) {\n            (Some(a), Some(b)) if a == b => continue,\n            (None, None) => return true,\n            _ => return false,\n        }\n    }"))
S("eq-try-fold", ("common_traits/eq.rs", EQLOOP, "    let same = a.try_fold((), |(), x| match b.next() {\n        Some(y) if x == y => Some(()),\n        _ => None,\n    });\n    same.is_some() && b.next().is_none()"))
S("eq-fold-bool", ("common_traits/eq.rs", EQLOOP, "    while let Some(x) = a.next() {\n        let same = b.next().map(|y| x == y).unwrap_or(false);\n        if !same {\n            return false;\n        }\n    }\n    b.next().is_none()"))
S("eq-for-by-ref", ("common_traits/eq.rs", EQLOOP, "    for x in a.by_ref() {\n        match b.next() {\n            Some(y) if x == y => {}\n            _ => return false,\n        }\n    }\n    b.next().is_none()"))
S("eq-peekable", ("common_traits/eq.rs", EQLOOP, "    let mut b = b.peekable();\n    for x in a {\n        match b.next_if(|y| x == *y) {\n            Some(_) => continue,\n            None => return false,\n        }\n    }\n    b.peek().is_none()"), ("common_traits/eq.rs", "fn eq_elem_iters<'a, T, I, J>(mut a: I, mut b: J) -> bool", "fn eq_elem_iters<'a, T, I, J>(a: I, b: J) -> bool"))
S("eq-core-iter-eq", ("common_traits/eq.rs", EQLOOP, "    a.eq(b)"), ("common_traits/eq.rs", "fn eq_elem_iters<'a, T, I, J>(mut a: I, mut b: J) -> bool", "fn eq_elem_iters<'a, T, I, J>(a: I, b: J) -> bool"))
BODY = """let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };"""
S("ext-split-at", ("grow.rs", LOOP, f"""        for slice in slices {{
            let (x, y) = slice.split_at(slice.len() / 2);
            for maybe in x.iter().chain(y) {{
                {BODY}
            }}
        }}
""", 1))
S("ext-halves", ("grow.rs", LOOP, f"""        for slice in slices {{
            let mid = slice.len() / 2;
            for maybe in &slice[..mid] {{
                {BODY}
            }}
            for maybe in &slice[mid..] {{
                {BODY}
            }}
        }}
""", 1))
S("ext-first-rest", ("grow.rs", LOOP, f"""        for slice in slices {{
            if let [maybe, rest @ ..] = &slice[..] {{
                {BODY}
                for maybe in rest {{
                    {BODY}
                }}
            }}
        }}
""", 1))
S("ext-get-while", ("grow.rs", LOOP, f"""        for slice in slices {{
            let mut k = 0;
            while let Some(maybe) = slice.get(k) {{
                {BODY}
                k += 1;
            }}
        }}
""", 0))
S("ext-index-expr", ("grow.rs", LOOP, f"""        for slice in slices {{
            for k in 0..slice.len() {{
                let maybe = &slice[k];
                {BODY}
            }}
        }}
""", 0))
S("ext-rev-pop", ("grow.rs", LOOP, f"""        for slice in slices {{
            let mut rest = &slice[0..];
            loop {{
                match rest {{
                    [] => break,
                    [maybe] => {{
                        {BODY}
                        break;
                    }}
                    [maybe, tail @ ..] => {{
                        {BODY}
                        rest = tail;
                    }}
                }}
            }}
        }}
""", 0))
S("ext-empty-skip", ("grow.rs", LOOP, f"""        for slice in slices {{
            if slice.is_empty() {{
                continue;
            }}
            for maybe in slice.iter() {{
                {BODY}
            }}
        }}
""", 1))

# the storage edited without effect on what the caller gets
S("to-vec-pop", ("to_vec.rs", """        for x in pinned {
            vec.push(x.0.expect("unwrapped none"));
        }
""", """        let mut pinned = pinned;
        while let Some(x) = pinned.pop() {
            vec.push(x.0.expect("unwrapped none"));
        }
        vec.reverse();
"""))
S("to-vec-truncate", ("to_vec.rs", "        let pinned = self.into_inner();\n", "        let mut pinned = self.into_inner();\n        let n = pinned.len();\n        pinned.truncate(n);\n"))
S("into-iter-hint", ("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())\n    }\n", "        self.iter.next().map(|e| e.0.unwrap())\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.iter.size_hint()\n    }\n"))
S("into-iter-nth", ("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())\n    }\n", "        self.iter.next().map(|e| e.0.unwrap())\n    }\n\n    fn nth(&mut self, n: usize) -> Option<T> {\n        self.iter.nth(n).map(|e| e.0.unwrap())\n    }\n"))
S("into-iter-fold", ("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())\n    }\n", "        self.iter.next().map(|e| e.0.unwrap())\n    }\n\n    fn fold<B, F: FnMut(B, T) -> B>(self, init: B, mut f: F) -> B {\n        let mut acc = init;\n        for e in self.iter {\n            acc = f(acc, e.0.unwrap());\n        }\n        acc\n    }\n"))
S("into-iter-fold-map", ("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())\n    }\n", "        self.iter.next().map(|e| e.0.unwrap())\n    }\n\n    fn fold<B, F: FnMut(B, T) -> B>(self, init: B, f: F) -> B {\n        self.iter.map(|e| e.0.unwrap()).fold(init, f)\n    }\n"))
S("into-iter-count", ("common_traits/into_iter.rs", "        self.iter.next().map(|e| e.0.unwrap())\n    }\n", "        self.iter.next().map(|e| e.0.unwrap())\n    }\n\n    fn count(self) -> usize {\n        self.iter.count()\n    }\n\n    fn last(self) -> Option<T> {\n        self.iter.last().map(|e| e.0.unwrap())\n    }\n"))
