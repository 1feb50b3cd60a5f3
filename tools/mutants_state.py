"""State added to the vector: counters, hints and flags that change what operations do, and ones that do not."""
MUTANTS = []
CS = "concurrent_slice/"


def field(name, ty, init, bump=True):
    return [("state.rs", "    pub(super) len_written: AtomicUsize,\n", f"    pub(super) len_written: AtomicUsize,\n    pub(super) {name}: {ty},\n"),
            ("state.rs", "            len_written: pinned_vec.len().into(),\n", f"            len_written: pinned_vec.len().into(),\n            {name}: {init},\n"),
            ("state.rs", "            len_written: len.into(),\n", f"            len_written: len.into(),\n            {name}: {init},\n")]


def M(prop, id, *edits):
    MUTANTS.append({"kind": "bug", "id": f"{prop}-st-{id}", "prop": prop, "edits": list(edits)})


def S(id, *edits):
    MUTANTS.append({"kind": "same", "id": f"st-{id}", "edits": list(edits)})


USIZE = ("AtomicUsize", "0.into()")
BOOL = ("atomic::AtomicBool", "false.into()")
INDEX = "        self.iter().position(|e| e == value)\n"
PUSHED = "        let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);\n"
NEWLEN = "        self.len_written().fetch_max(new_len, Ordering::Release);\n\n        new_len\n"
ORD = "core::sync::atomic::Ordering"

M("C18", "index-of-hint", *field("hint", *USIZE), ("partial_eq.rs", INDEX, f"""        let hint = &self.core.state().hint;
        let h = hint.load({ORD}::Relaxed);
        if self.get(h).is_some_and(|e| e == value) {{
            return Some(h);
        }}
        let i = self.iter().position(|e| e == value)?;
        hint.store(i, {ORD}::Relaxed);
        Some(i)
"""))
M("C18", "contains-seen", *field("misses", *USIZE), ("partial_eq.rs", "        self.index_of(value).is_some()\n", f"""        let n = self.core.state().misses.load({ORD}::Relaxed);
        match n > 0 && n == self.len() {{
            true => false,
            false => {{
                let found = self.index_of(value).is_some();
                if !found {{
                    self.core.state().misses.store(self.len(), {ORD}::Relaxed);
                }}
                found
            }}
        }}
"""))
M("C05", "len-cache", *field("cache", *USIZE), ("vec.rs", NEWLEN, """        self.len_written().fetch_max(new_len, Ordering::Release);
        self.core.state().cache.store(new_len, Ordering::Release);
        self.core.state().cache.load(Ordering::Acquire)
"""))
M("C05", "is-empty-flag", *field("started", *BOOL), ("vec.rs", "        self.len() == 0\n", "        !self.core.state().started.load(Ordering::Acquire)\n"),
  ("grow.rs", PUSHED, PUSHED + "        self.core.state().started.store(true, Ordering::Release);\n", 0))
M("C06", "get-seen-end", *field("end", *USIZE), ("vec.rs", "        match i < self.len() {\n            true => unsafe { self.core.get(i) },\n", "        match i < self.core.state().end.load(Ordering::Acquire) || i < self.len() {\n            true => unsafe { self.core.get(i) },\n"),
  ("grow.rs", "        let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };\n", "        self.core.state().end.fetch_max(begin_idx + num_items, Ordering::Release);\n        let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };\n", 1))
M("C21", "swap-busy-flag", *field("busy", *BOOL), ("mut_elem.rs", "        let h_i = unsafe { self.mut_handle(i, SOME, SOME) };\n", f"        if self.core.state().busy.load({ORD}::Acquire) {{\n            return false;\n        }}\n        self.core.state().busy.store(true, {ORD}::Release);\n        let h_i = unsafe {{ self.mut_handle(i, SOME, SOME) }};\n        self.core.state().busy.store(false, {ORD}::Release);\n"))
M("C17", "clear-if-pushed", *field("dirty", *BOOL), ("exclusive.rs", "        let len = self.reserved_len();\n", f"        if !self.core.state().dirty.load({ORD}::Relaxed) {{\n            return;\n        }}\n        let len = self.reserved_len();\n", 0),
  ("grow.rs", PUSHED, PUSHED + "        self.core.state().dirty.store(true, Ordering::Relaxed);\n", 0))
M("C23", "into-inner-total", *field("total", *USIZE), ("vec.rs", "        let len = self.reserved_len();\n", "        let len = self.core.state().total.load(Ordering::Relaxed).min(self.reserved_len());\n"),
  ("grow.rs", PUSHED, PUSHED + "        self.core.state().total.fetch_add(1, Ordering::Relaxed);\n", 0),
  ("grow.rs", "        let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);\n", "        let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);\n        self.core.state().total.fetch_add(num_items, Ordering::Relaxed);\n", 0))
M("C01", "ticket-local", *field("tickets", *USIZE), ("grow.rs", PUSHED, """        let t = self.core.state().tickets.fetch_add(1, Ordering::Relaxed);
        if t % 16 == 0 {
            self.len_reserved().fetch_add(16, Ordering::Relaxed);
        }
        let idx = t;
""", 0))
M("C02", "extend-skip-if-flag", *field("closing", *BOOL), ("grow.rs", "                unsafe { maybe.0.initialize_unchecked(value) };\n", "                if !self.core.state().closing.load(Ordering::Relaxed) {\n                    unsafe { maybe.0.initialize_unchecked(value) };\n                }\n", 1))
M("C10", "fill-stops-on-flag", *field("stop", *BOOL), ("mut_elem.rs", "            elem.set(value.clone());\n", f"            if self.core.state().stop.load({ORD}::Relaxed) {{\n                break;\n            }}\n            elem.set(value.clone());\n"))
M("C31", "get-gate", *field("gate", *USIZE), ("vec.rs", "        match i < self.len() {\n            true => unsafe { self.core.get(i) },\n", "        let n = match self.core.state().gate.load(Ordering::Acquire) {\n            0 => {\n                let n = self.len();\n                self.core.state().gate.store(n, Ordering::Release);\n                n\n            }\n            n => n,\n        };\n        match i < n {\n            true => unsafe { self.core.get(i) },\n"))
M("C29", "push-waits-turn", *field("turn", *USIZE), ("grow.rs", "        idx\n    }\n", "        while self.core.state().turn.load(Ordering::Acquire) != idx {\n            core::hint::spin_loop();\n        }\n        self.core.state().turn.store(idx + 1, Ordering::Release);\n        idx\n    }\n", 0))
M("C29", "extend-turn", *field("turn", *USIZE), ("grow.rs", "        let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };\n", "        while self.core.state().turn.load(Ordering::Acquire) < begin_idx {\n            core::hint::spin_loop();\n        }\n        self.core.state().turn.fetch_max(begin_idx + num_items, Ordering::Release);\n        let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };\n", 1))
M("C28", "swap-count", *field("swaps", "core::sync::atomic::AtomicU8", "0.into()"), ("mut_elem.rs", "                core::mem::swap(mut_i, mut_j);\n", f"                core::mem::swap(mut_i, mut_j);\n                let n = self.core.state().swaps.fetch_add(1, {ORD}::Relaxed);\n                assert!(n < u8::MAX);\n"))

S("push-count", *field("pushes", *USIZE), ("grow.rs", PUSHED, PUSHED + "        self.core.state().pushes.fetch_add(1, Ordering::Relaxed);\n", 0))
S("started-flag", *field("started", *BOOL), ("grow.rs", PUSHED, PUSHED + "        self.core.state().started.store(true, Ordering::Relaxed);\n", 0))
S("dirty-hint", *field("dirty", *BOOL), ("mut_elem.rs", "                core::mem::swap(mut_i, mut_j);\n", f"                core::mem::swap(mut_i, mut_j);\n                self.core.state().dirty.store(true, {ORD}::Relaxed);\n"))
S("len-high-water", *field("high", *USIZE), ("vec.rs", NEWLEN, """        self.len_written().fetch_max(new_len, Ordering::Release);
        self.core.state().high.fetch_max(until, Ordering::Relaxed);

        new_len
"""))
S("clear-epoch", *field("epoch", *USIZE), ("exclusive.rs", "        let len = self.reserved_len();\n", f"        self.core.state().epoch.fetch_add(1, {ORD}::Relaxed);\n        let len = self.reserved_len();\n", 0))
S("misses", *field("misses", *USIZE), ("partial_eq.rs", INDEX, f"        let found = self.iter().position(|e| e == value);\n        if found.is_none() {{\n            self.core.state().misses.fetch_add(1, {ORD}::Relaxed);\n        }}\n        found\n"))
