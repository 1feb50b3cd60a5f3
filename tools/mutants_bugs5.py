"""Fifth batch of bugs: slips in code written with library constructs the other batches do not use."""
from mutants_same5 import *
MUTANTS = []


def M(prop, id, *edits):
    MUTANTS.append({"kind": "bug", "id": f"{prop}-b5-{id}", "prop": prop, "edits": list(edits)})


# lookups and ranges
M("C06", "get-let-else-reserved", ("vec.rs", GET, "        let Some(_) = self.reserved_len().checked_sub(i).filter(|d| *d > 0) else {\n            return None;\n        };\n        unsafe { self.core.get(i) }"))
M("C06", "get-checked-sub-eq", ("vec.rs", GET, "        let Some(_) = self.len().checked_sub(i) else {\n            return None;\n        };\n        unsafe { self.core.get(i) }"))
M("C31", "get-skips-last", ("vec.rs", GET, "        let Some(_) = self.len().checked_sub(i).filter(|d| *d > 1 || i == 0) else {\n            return None;\n        };\n        unsafe { self.core.get(i) }"))
M("C14", "sget-range-inclusive", (CS + "slice.rs", SGET, "        let range = self.a..=self.a + self.len;\n        let i = self.a.checked_add(i)?;\n        match range.contains(&i) {\n            true => unsafe { self.vec.core.get(i) },\n            false => None,\n        }"))
M("C14", "idx-wrapping", (CS + "slice.rs", IDX, "        (i <= self.len.wrapping_sub(1)).then_some(self.a.wrapping_add(i))"))
M("C14", "split-last-len", (CS + "split.rs", LAST, "        let last = self.len().checked_sub(1)?;\n        let a = self.slice(..=last);\n        self.get(last).map(|b| (b, a))"))
M("C14", "split-first-from-0", (CS + "split.rs", FIRST, "        self.get(0).map(|a| (a, self.slice(0..self.len())))"))
M("C14", "chunks-step-by", (CS + "split.rs", CHUNKS, """        let len = self.len();
        (0..len).step_by(chunk_size).map(move |a| {
            let n = chunk_size.min(len - 1 - a).max(1);
            self.slice(a..a + n)
        })"""))
M("C14", "chunks-full-only", (CS + "split.rs", CHUNKS, """        let len = self.len();
        let last = len.saturating_sub(chunk_size);
        (0..len).step_by(chunk_size).map(move |a| {
            let a = if last > chunk_size { a.min(last) } else { a };
            let n = chunk_size.min(len - a);
            self.slice(a..a + n)
        })"""))
M("C12", "swap-let-else-index-order", ("mut_elem.rs", FIRSTSWAP, """        let (Some(e_i), Some(e_j)) = (self.get(i), self.get(j)) else {
            return false;
        };
        if core::ptr::eq(e_i, e_j) {
            return true;
        }
"""), ("mut_elem.rs", "use core::cmp::Ordering;\n", ""))
M("C21", "sswap-any", (CS + "mut_elem.rs", SSWAP, "        self.idx(i)\n            .zip(self.idx(j))\n            .map_or(i == j, |(i, j)| self.vec.swap(i, j))"))
M("C21", "sswap-xor", (CS + "mut_elem.rs", SSWAP, "        let (a, b) = (self.idx(i), self.idx(j));\n        match (a, b) {\n            (Some(i), Some(j)) if i ^ j < 1 << 16 => self.vec.swap(i, j),\n            (Some(_), Some(_)) => true,\n            _ => false,\n        }"))

# len
M("C05", "len-sum-filter", ("vec.rs", LEN, """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let num_pushed: usize = iter
            .filter(|x| !matches!(x.0.state(Ordering::Relaxed), State::None))
            .map(|_| 1)
            .sum();
        let new_len = len + num_pushed;
"""))
M("C05", "len-try-fold-some", ("vec.rs", LEN, """        let mut iter = unsafe { self.core.iter_over_range(len..until) };
        let counted = iter.try_fold(len, |n, x| match x.0.state(Ordering::Relaxed) {
            State::None | State::Reserved => Err(n),
            State::Some => Ok(n + 1),
        });
        let new_len = match counted {
            Ok(n) => n,
            Err(n) => n,
        };
"""))
M("C05", "len-zip-off", ("vec.rs", LEN, """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let mut new_len = len;
        for (x, n) in iter.zip(len + 1..) {
            new_len = n;
            if let State::None = x.0.state(Ordering::Relaxed) {
                break;
            }
        }
"""))
M("C04", "res-sub-wrong", ("vec.rs", UNTIL, "        let until = len_reserved - len_reserved.saturating_sub(cap + 1);\n"))

# writing
M("C02", "ext-try-for-each-silent", ("grow.rs", LOOP, """        let _ = slices
            .into_iter()
            .flatten()
            .try_for_each(|maybe| {
                let value = values.next()?;
                unsafe { maybe.0.initialize_unchecked(value) };
                Some(())
            });
""", 1))
M("C02", "ext-rev-slices", ("grow.rs", LOOP, """        for slice in slices.into_iter().collect::<alloc::vec::Vec<_>>().into_iter().rev() {
            for maybe in slice {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
""", 1))
M("C02", "ext-chunk-rev", ("grow.rs", LOOP, """        for slice in slices {
            let mut rest = &slice[..];
            while let [head @ .., maybe] = rest {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { maybe.0.initialize_unchecked(value) };
                rest = head;
            }
        }
""", 1))
M("C02", "ext-last-dropped", ("grow.rs", LOOP, """        for slice in slices {
            let mut rest = &slice[..];
            while let [maybe, tail @ ..] = rest {
                let Some(value) = values.next() else { break };
                unsafe { maybe.0.initialize_unchecked(value) };
                rest = tail;
            }
        }
""", 1))
M("C02", "ext-step-by", ("grow.rs", LOOP, """        for slice in slices {
            for k in (0..slice.len()).step_by(1 + (slice.len() >> 20)) {
                let value = values
                    .next()
                    .expect("provided iterator is shorter than expected num_items");
                unsafe { slice.get_unchecked(k).0.initialize_unchecked(value) };
            }
        }
""", 1))

# comparing
M("C19", "eq-map-or-true", ("common_traits/eq.rs", EQLOOP, """    let mut same = true;
    while same {
        let (x, y) = (a.next(), b.next());
        if x.is_none() && y.is_none() {
            break;
        }
        same = x.zip(y).map_or(true, |(x, y)| x == y);
        if x.is_none() || y.is_none() {
            break;
        }
    }
    same"""))
M("C19", "eq-or", ("common_traits/eq.rs", EQLOOP, """    let mut same = true;
    while same {
        let (x, y) = (a.next(), b.next());
        if x.is_none() || y.is_none() {
            break;
        }
        same = x.zip(y).map_or(false, |(x, y)| x == y);
    }
    same"""))
M("C19", "eq-last-pair", ("common_traits/eq.rs", EQLOOP, """    let mut same = true;
    loop {
        let (x, y) = (a.next(), b.next());
        if x.is_none() && y.is_none() {
            break;
        }
        same = x.zip(y).map_or(false, |(x, y)| x == y);
    }
    same"""))
M("C19", "eq2-short-b", ("common_traits/eq.rs", EQLOOP2, """    loop {
        match a.next() {
            None => return true,
            Some(x) => match b.next() {
                None => return false,
                Some(y) => {
                    if !x.0.is_some_and(|x| x == y) {
                        return false;
                    }
                }
            },
        }
    }"""))
M("C19", "eq2-all", ("common_traits/eq.rs", EQLOOP2, "    let n = a.size_hint().0;\n    a.by_ref().take(n.max(1)).all(|x| b.next().map_or(true, |y| x.0.is_some_and(|x| x == y))) && b.next().is_none()"))
M("C12", "eq-ptr-eq-unordered", ("common_traits/eq.rs", """        match (self as *const Self).cmp(&(other as *const Self)) {
            Ordering::Less => self.map(|x| other.map(|y| x == y)),
            Ordering::Equal => self.map(|x| x == x),
            Ordering::Greater => other.map(|y| self.map(|x| x == y)),
        }""", """        if core::ptr::eq(self, other) {
            return self.map(|x| x == x);
        }
        self.map(|x| other.map(|y| x == y))"""), ("common_traits/eq.rs", "use core::cmp::Ordering;\n", ""))

# elements in sequence
M("C18", "fill-zip-len", ("mut_elem.rs", FILL, "        self.iter()\n            .zip(core::iter::repeat(&value).take(self.capacity() / 2 + 1))\n            .for_each(|(elem, value)| elem.set(value.clone()));"))
M("C18", "fillw-zip-1", ("mut_elem.rs", FILLW, "        self.iter().zip(1..).for_each(|(elem, i)| elem.set(value(i)));"))
M("C18", "fillw-abs", (CS + "mut_elem.rs", FILLW, "        let mut i = self.a;\n        let mut elems = self.iter();\n        while let Some(elem) = elems.next() {\n            elem.set(value(i));\n            i += 1;\n        }"))
M("C18", "fold-rev", ("iter_shorthands.rs", "        self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x)))", "        let mut agg = init;\n        for i in (0..self.len()).rev() {\n            agg = self[i].map(|x| f(agg, x));\n        }\n        agg"))
M("C18", "fold-stops", ("iter_shorthands.rs", "        self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x)))", "        let mut agg = init;\n        for i in 0..self.len_written().load(core::sync::atomic::Ordering::Acquire) {\n            agg = self[i].map(|x| f(agg, x));\n        }\n        agg"))
M("C18", "filter-not", ("iter_shorthands.rs", "        self.iter().filter(move |elem| elem.map(|x: &T| f(x)))", "        self.iter()\n            .filter_map(move |elem| (!elem.map(|x: &T| f(x))).then_some(elem))"))
M("C18", "map-while", ("iter_shorthands.rs", "        self.iter().map(move |elem| elem.map(|x: &T| f(x)))", "        self.iter().map_while(move |elem| elem.0.map(|x: &T| f(x)).filter(|_| elem.0.state(core::sync::atomic::Ordering::Acquire) == orx_concurrent_option::State::Some))"))
M("C18", "map-skip", ("iter_shorthands.rs", "        self.iter().map(move |elem| elem.map(|x: &T| f(x)))", "        let mut elems = self.iter();\n        core::iter::from_fn(move || elems.next().map(|elem| elem.map(|x: &T| f(x)))).fuse().step_by(1 + self.is_empty() as usize).skip(self.len() >> 40)"))
M("C18", "index-of-rposition", ("partial_eq.rs", "        self.iter().position(|e| e == value)", "        let n = self.len();\n        (0..n).rev().find(|i| &self[*i] == value)"))
M("C18", "index-of-enum-skip", ("partial_eq.rs", "        self.iter().position(|e| e == value)", "        self.iter()\n            .skip(1)\n            .enumerate()\n            .find(|(_, e)| *e == value)\n            .map(|(i, _)| i)"))
M("C18", "contains-window", (CS + "partial_eq.rs", "        self.index_of(value).is_some()", "        self.iter().take(1 << 20).any(|e| e == value)"))

# whole value
M("C17", "to-vec-filter", ("to_vec.rs", TOVEC, """        let mut vec = Vec::with_capacity(pinned.len());
        vec.extend(pinned.into_iter().skip_while(|x| x.0.is_none()).map(|x| x.0.expect("unwrapped none")).take(1 << 24));
        vec"""))
M("C17", "to-vec-insert-0", ("to_vec.rs", TOVEC, """        let mut vec = Vec::with_capacity(pinned.len());
        for x in pinned {
            let value = x.0.expect("unwrapped none");
            let at = vec.len().saturating_sub(1);
            vec.insert(at, value);
        }
        vec"""))
M("C18", "ctovec-dedup", (CS + "to_vec.rs", CTOVEC, "        let mut vec: Vec<T> = Vec::with_capacity(self.len());\n        for x in iter {\n            vec.insert(0, x);\n        }\n        vec"))
M("C02", "from-iter-lower", ("common_traits/from_iter.rs", FI, """        let (lower, _) = iter.size_hint();
        vec.extend_n_items(iter, lower);
"""))
M("C02", "from-iter-upper", ("common_traits/from_iter.rs", FI, """        let (lower, upper) = iter.size_hint();
        if upper.is_none() {
            iter.for_each(|x| drop(vec.push(x)));
            return vec;
        }
        vec.extend_n_items(iter, lower);
"""))
M("C18", "clone-skips", ("common_traits/clone.rs", "        self.iter_cloned().collect()", "        let vec = Self::new();\n        for i in 0..self.len() {\n            vec.extend(self.get_cloned(i).filter(|_| i < self.capacity() - 1));\n        }\n        vec"))
M("C04", "clear-skip", ("exclusive.rs", CLEAR, "        unsafe { self.core.iter_mut(len) }.skip(1).for_each(|elem| drop(elem.0.exclusive_take()));\n"))
M("C04", "clear-any", ("exclusive.rs", CLEAR, "        unsafe { self.core.iter_mut(len) }.any(|elem| elem.0.exclusive_take().is_none());\n"))

# state
M("C03", "permit-checked-sub", ("state.rs", """        match idx.cmp(&capacity) {
            Ordering::Less => WritePermit::JustWrite,
            Ordering::Equal => WritePermit::GrowThenWrite,
            Ordering::Greater => WritePermit::Spin,
        }""", """        match (idx + 1).checked_sub(capacity) {
            None => WritePermit::JustWrite,
            Some(0) => WritePermit::GrowThenWrite,
            Some(_) => WritePermit::Spin,
        }"""))
M("C03", "permit-n-excl", ("state.rs", """        match (begin_idx.cmp(&capacity), last_idx.cmp(&capacity)) {
            (_, core::cmp::Ordering::Less) => WritePermit::JustWrite,
            (core::cmp::Ordering::Greater, _) => WritePermit::Spin,
            _ => WritePermit::GrowThenWrite,
        }""", """        if (begin_idx..last_idx).contains(&capacity) {
            WritePermit::GrowThenWrite
        } else if begin_idx >= capacity {
            WritePermit::Spin
        } else {
            WritePermit::JustWrite
        }"""))
M("C05", "state-written-zero", ("state.rs", """        Self {
            len_reserved: pinned_vec.len().into(),
            len_written: pinned_vec.len().into(),
        }""", """        let [len_reserved, len_written] = [pinned_vec.len(), pinned_vec.capacity()].map(AtomicUsize::new);
        Self {
            len_reserved,
            len_written,
        }"""))
M("C10", "elem-set-drops", ("elem.rs", '        assert!(self.0.set_some(value), "Failed to set the element");', '        if self.0.state(core::sync::atomic::Ordering::Acquire) == orx_concurrent_option::State::Some {\n            self.0.set_some(value);\n        }'))
M("C08", "raw-relaxed-else", ("unsafe_api.rs", """                maybe.and_then(|x| {
                    x.0.get_raw_with_order(Ordering::SeqCst)
                        .or_else(|| x.0.get_raw())
                })""", """                let x = maybe?;
                match x.0.get_raw_with_order(Ordering::Relaxed) {
                    None => x.0.get_raw(),
                    found => found,
                }"""))
M("C19", "eq-zip-all", ("common_traits/eq.rs", EQLOOP, "    let same = a.by_ref().zip(b.by_ref()).all(|(x, y)| x == y);\n    same && a.next().is_none() && b.next().is_none()"))
M("C02", "ext-halves-gap", ("grow.rs", LOOP, f"""        for slice in slices {{
            let mid = slice.len() / 2;
            for maybe in &slice[..mid] {{
                {BODY}
            }}
            for maybe in &slice[(mid + 1).min(slice.len())..] {{
                {BODY}
            }}
        }}
""", 1))
M("C02", "ext-split-at-swapped", ("grow.rs", LOOP, f"""        for slice in slices {{
            let (x, y) = slice.split_at(slice.len() / 2);
            for maybe in y.iter().chain(x) {{
                {BODY}
            }}
        }}
""", 1))
M("C02", "ext-last-of-slice", ("grow.rs", LOOP, f"""        for slice in slices {{
            for maybe in &slice[..slice.len() - usize::from(slice.len() > 1 << 16)] {{
                {BODY}
            }}
        }}
""", 1))
M("C02", "ext-match-two", ("grow.rs", LOOP, f"""        for slice in slices {{
            let mut rest = &slice[0..];
            loop {{
                match rest {{
                    [] | [_] => break,
                    [maybe, tail @ ..] => {{
                        {BODY}
                        rest = tail;
                    }}
                }}
            }}
        }}
""", 1))
