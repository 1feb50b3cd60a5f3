"""Breaking edits in the call-backs the collection makes into the crate while it provides storage."""
MUTANTS = []


def M(id, prop, *edits):
    MUTANTS.append({"kind": "bug", "id": id, "prop": prop, "edits": list(edits)})


UAW = "    fn update_after_write(&self, _: usize, _: usize) {}\n"
M("C05-hook-publishes", "C05", ("state.rs", UAW, """    fn update_after_write(&self, _: usize, end_idx: usize) {
        self.len_written.fetch_max(end_idx, atomic::Ordering::AcqRel);
    }
"""))
M("C05-hook-adds", "C05", ("state.rs", UAW, """    fn update_after_write(&self, begin_idx: usize, end_idx: usize) {
        self.len_written.fetch_add(end_idx - begin_idx, atomic::Ordering::AcqRel);
    }
"""))
M("C13-hook-waits", "C13", ("state.rs", UAW, """    fn update_after_write(&self, begin_idx: usize, _: usize) {
        while self.len_written.load(atomic::Ordering::Acquire) < begin_idx {
            core::hint::spin_loop();
        }
    }
"""))
M("C01-hook-resets", "C01", ("state.rs", "    fn release_growth_handle(&self) {}\n", """    fn release_growth_handle(&self) {
        let len = self.len_reserved.load(atomic::Ordering::Relaxed);
        self.len_reserved.store(len, atomic::Ordering::Relaxed);
    }
"""))
M("C03-hook-permit-wait", "C13", ("state.rs", """        let capacity = col.capacity();

        match idx.cmp(&capacity) {
""", """        let capacity = col.capacity();
        if self.len_written.load(atomic::Ordering::Acquire) < idx {
            return WritePermit::Spin;
        }
        match idx.cmp(&capacity) {
"""))
