"""Calls that wait: breaking edits and edits that keep the behaviour."""
MUTANTS = []


def M(kind, id, *edits, prop="C29"):
    MUTANTS.append({"kind": kind, "id": "C29-" + id, "prop": prop, "edits": list(edits)})


PUSHED = "        unsafe { maybe.0.initialize_unchecked(value) };\n\n        idx\n    }"
LEN_END = "        self.len_written().fetch_max(new_len, Ordering::Release);\n\n        new_len"
SPIN = "core::hint::spin_loop();"
M("bug", "len-complete", ("vec.rs", LEN_END, """        if new_len + 1 == until {
            while !iter_last_written(self, new_len) {
                core::hint::spin_loop();
            }
        }
""" + LEN_END), ("vec.rs", "impl<T, P> ConcurrentVec<T, P>", """fn iter_last_written<T, P>(vec: &ConcurrentVec<T, P>, i: usize) -> bool
where
    P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
{
    unsafe { vec.core.get(i) }.is_some_and(|x| x.0.state(Ordering::Relaxed) != State::None)
}

impl<T, P> ConcurrentVec<T, P>""", 0))
M("bug", "len-all", ("vec.rs", LEN_END, """        if num_pushed > 0 && new_len < until {
            core::hint::spin_loop();
            return self.len();
        }
""" + LEN_END))
M("bug", "len-handle", ("vec.rs", """            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                // an element that is being accessed by another thread is already written
                State::Some | State::Reserved => num_pushed += 1,
            }""", """            match unsafe { x.0.mut_handle(orx_concurrent_option::SOME, orx_concurrent_option::SOME) } {
                None => break,
                Some(_) => num_pushed += 1,
            }"""))
M("bug", "len-reserved-spin", ("vec.rs", """            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                // an element that is being accessed by another thread is already written
                State::Some | State::Reserved => num_pushed += 1,
            }""", """            let mut state = x.0.state(Ordering::Relaxed);
            while matches!(state, State::Reserved) {
                core::hint::spin_loop();
                state = x.0.state(Ordering::Relaxed);
            }
            match state {
                State::None => break,
                _ => num_pushed += 1,
            }"""))
M("bug", "get-waits", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }""", """        while i >= self.len() {
            if i >= self.len_reserved().load(Ordering::Relaxed) {
                return None;
            }
            core::hint::spin_loop();
        }
        unsafe { self.core.get(i) }""", 0))
M("bug", "get-waits-backoff", ("vec.rs", """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }""", """        let mut step = 1usize;
        while i >= self.len() && i < self.len_reserved().load(Ordering::Relaxed) {
            for _ in 0..step {
                core::hint::spin_loop();
            }
            step = (step * 2).min(1 << 10);
        }
        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }""", 0))
M("bug", "push-in-order", ("grow.rs", PUSHED, """        unsafe { maybe.0.initialize_unchecked(value) };
        while self
            .len_written()
            .compare_exchange_weak(idx, idx + 1, Ordering::AcqRel, Ordering::Relaxed)
            .is_err_and(|written| written < idx)
        {
            core::hint::spin_loop();
        }

        idx
    }""", 0))
M("bug", "push-in-order-backoff", ("grow.rs", PUSHED, """        unsafe { maybe.0.initialize_unchecked(value) };
        let mut spins = 0u32;
        loop {
            let written = self.len();
            if written >= idx {
                break;
            }
            spins = spins.saturating_add(1);
            if spins > 6 {
                core::hint::spin_loop();
            }
        }

        idx
    }""", 0))
M("bug", "hook-waits", ("state.rs", "    fn update_after_write(&self, _: usize, _: usize) {}", """    fn update_after_write(&self, begin_idx: usize, _: usize) {
        while self.len_written.load(atomic::Ordering::Acquire) + (1 << 16) < begin_idx {
            core::hint::spin_loop();
        }
    }"""))
M("bug", "iter-waits", ("concurrent_slice/slice.rs", "        unsafe { self.vec.core.iter_over_range(self.a..b) }\n    }", """        unsafe { self.vec.core.iter_over_range(self.a..b) }.inspect(|x| {
            while x.0.state(core::sync::atomic::Ordering::Acquire) == orx_concurrent_option::State::Reserved {
                core::hint::spin_loop();
            }
        })
    }"""))
M("bug", "empty-locks", ("vec.rs", "        self.len() == 0", "        self.get(0).is_none_or(|x| x.map(|_| false))"))
M("bug", "get-cloned-locks-first", ("vec.rs", "true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),", "true => {\n                unsafe { self.core.get(0) }.map(|e| e.0.map(|_| ()));\n                unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option())\n            }", 0))
M("bug", "swap-fence", ("mut_elem.rs", "        let (i, j) = match (self.get(i), self.get(j)) {", "        if let Some(e) = self.get(i.max(j) + 1) {\n            e.map(|_| ());\n        }\n        let (i, j) = match (self.get(i), self.get(j)) {", 0))
M("bug", "split-first-checks", ("split.rs", "        match self.get(0) {", "        match self.get(0).filter(|e| e.map(|_| true)) {"))
M("same", "len-publishes-by-loop", ("vec.rs", LEN_END, """        let mut written = len;
        while written < new_len {
            match self.len_written().compare_exchange_weak(written, new_len, Ordering::Release, Ordering::Relaxed) {
                Ok(_) => break,
                Err(x) => written = x,
            }
        }

        new_len"""))
M("same", "len-publishes-by-loop-2", ("vec.rs", LEN_END, """        loop {
            let written = self.len_written().load(Ordering::Relaxed);
            if written >= new_len
                || self.len_written().compare_exchange(written, new_len, Ordering::Release, Ordering::Relaxed).is_ok()
            {
                break;
            }
        }

        new_len"""))
M("same", "len-index-loop", ("vec.rs", """        let iter = unsafe { self.core.iter_over_range(len..until) };
        let mut num_pushed = 0;
        for x in iter {
            match x.0.state(Ordering::Relaxed) {
                State::None => break,
                // an element that is being accessed by another thread is already written
                State::Some | State::Reserved => num_pushed += 1,
            }
        }
        let new_len = len + num_pushed;
""", """        let mut new_len = len;
        while new_len < self.len_reserved().load(Ordering::Relaxed) {
            let Some(x) = (unsafe { self.core.get(new_len) }) else { break };
            if x.0.state(Ordering::Relaxed) == State::None {
                break;
            }
            new_len += 1;
        }
        let _ = until;
"""))
M("same", "set-looks-first", ("elem.rs", "        assert!(self.0.set_some(value), \"Failed to set the element\");", """        while self.0.state(core::sync::atomic::Ordering::Relaxed) == orx_concurrent_option::State::Reserved {
            core::hint::spin_loop();
        }
        assert!(self.0.set_some(value), "Failed to set the element");"""))
M("same", "push-hints-len", ("grow.rs", PUSHED, """        unsafe { maybe.0.initialize_unchecked(value) };
        let _ = self.len();

        idx
    }""", 0))
M("same", "hook-advances", ("state.rs", "    fn release_growth_handle(&self) {}\n", """    fn release_growth_handle(&self) {
        let mut n = 0;
        while n < 4 && self.len_written.load(atomic::Ordering::Relaxed) < self.len_reserved.load(atomic::Ordering::Relaxed) {
            core::hint::spin_loop();
            n += 1;
        }
    }
"""))
M("bug", "lock-field", ("state.rs", "    pub(super) len_written: AtomicUsize,\n", "    pub(super) len_written: AtomicUsize,\n    pub(super) publishing: atomic::AtomicBool,\n"),
  ("state.rs", "            len_written: pinned_vec.len().into(),\n", "            len_written: pinned_vec.len().into(),\n            publishing: false.into(),\n"),
  ("state.rs", "            len_written: len.into(),\n", "            len_written: len.into(),\n            publishing: false.into(),\n"),
  ("vec.rs", LEN_END, """        while self.core.state().publishing.swap(true, Ordering::Acquire) {
            core::hint::spin_loop();
        }
        self.len_written().fetch_max(new_len, Ordering::Release);
        self.core.state().publishing.store(false, Ordering::Release);

        new_len"""))
M("bug", "lock-field-cas", ("state.rs", "    pub(super) len_written: AtomicUsize,\n", "    pub(super) len_written: AtomicUsize,\n    pub(super) publishing: atomic::AtomicBool,\n"),
  ("state.rs", "            len_written: pinned_vec.len().into(),\n", "            len_written: pinned_vec.len().into(),\n            publishing: false.into(),\n"),
  ("state.rs", "            len_written: len.into(),\n", "            len_written: len.into(),\n            publishing: false.into(),\n"),
  ("vec.rs", LEN_END, """        while self.core.state().publishing.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            core::hint::spin_loop();
        }
        self.len_written().fetch_max(new_len, Ordering::Release);
        self.core.state().publishing.store(false, Ordering::Release);

        new_len"""))
M("bug", "slice-waits-capacity", ("split.rs", "        let len = self.len();\n        let mut num_slices", "        let len = self.len();\n        while len > 1 << 40 && self.capacity() < len + chunk_size {\n            core::hint::spin_loop();\n        }\n        let mut num_slices"))
M("bug", "cloned-waits-gap", ("vec.rs", "        unsafe { self.core.iter(self.len()) }.map(|elem| elem.cloned())", "        while self.len() < self.len_reserved().load(Ordering::Relaxed).min(self.capacity()) {\n            core::hint::spin_loop();\n        }\n        unsafe { self.core.iter(self.len()) }.map(|elem| elem.cloned())"))
M("bug", "index-of-retries", ("partial_eq.rs", "        self.iter().position(|e| e == value)", "        loop {\n            let len = self.len();\n            let i = self.iter().position(|e| e == value);\n            if i.is_some() || len == self.len() {\n                return i;\n            }\n        }"))
M("bug", "get-ref-waits", ("unsafe_api.rs", "        match i < self.reserved_len() {", "        while i >= self.len() && i < self.len_reserved().load(core::sync::atomic::Ordering::Relaxed) {\n            core::hint::spin_loop();\n        }\n        match i < self.reserved_len() {", 0))
M("same", "push-tries-to-publish", ("grow.rs", PUSHED, """        unsafe { maybe.0.initialize_unchecked(value) };
        let _ = self
            .len_written()
            .compare_exchange(idx, idx + 1, Ordering::AcqRel, Ordering::Relaxed);

        idx
    }""", 0))
M("same", "extend-tries-to-publish", ("grow.rs", """                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }

        begin_idx
    }""", """                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
        let _ = self
            .len_written()
            .compare_exchange(begin_idx, begin_idx + num_items, Ordering::AcqRel, Ordering::Relaxed);

        begin_idx
    }""", 1))
M("bug", "extend-publishes-max", ("grow.rs", """                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }

        begin_idx
    }""", """                unsafe { maybe.0.initialize_unchecked(value) };
            }
        }
        if num_items > 4096 {
            self.len_written().fetch_max(begin_idx + num_items, Ordering::AcqRel);
        }

        begin_idx
    }""", 1), prop="C05")
