"""Capacity: breaking edits and edits that keep the behaviour."""
MUTANTS = []


def M(kind, id, *edits, prop="C30"):
    MUTANTS.append({"kind": kind, "id": "C30-" + id, "prop": prop, "edits": list(edits)})


FIX = "Self::new_from_pinned(FixedVec::new(fixed_capacity))"
DBL = "Self::new_from_pinned(SplitVec::with_doubling_growth_and_fragments_capacity(32))"
LIN = """Self::new_from_pinned(SplitVec::with_linear_growth_and_fragments_capacity(
            constant_fragment_capacity_exponent,
            fragments_capacity,
        ))"""
CAP = "        self.core.capacity()\n    }\n\n    /// Returns maximum"
MAXC = "        self.core.maximum_capacity()"
RES = """        unsafe {
            self.core
                .reserve_maximum_capacity(self.reserved_len(), new_maximum_capacity)
        }"""
M("bug", "fixed-pow2", ("new.rs", FIX, "Self::new_from_pinned(FixedVec::new(fixed_capacity.next_power_of_two()))"))
M("bug", "fixed-min-1", ("new.rs", FIX, "Self::new_from_pinned(FixedVec::new(fixed_capacity.max(4)))"))
M("bug", "fixed-cap", ("new.rs", FIX, "Self::new_from_pinned(FixedVec::new(fixed_capacity.min(1 << 20)))"))
M("bug", "doubling-16", ("new.rs", DBL, DBL.replace("32", "16")))
M("bug", "doubling-default", ("new.rs", DBL, "Self::new_from_pinned(SplitVec::with_doubling_growth())"))
M("bug", "new-small", ("new.rs", "    pub fn new() -> Self {\n        Self::with_doubling_growth()", "    pub fn new() -> Self {\n        SplitVec::new().into()"))
M("bug", "default-small", ("new.rs", "    fn default() -> Self {\n        Self::with_doubling_growth()", "    fn default() -> Self {\n        SplitVec::with_doubling_growth_and_fragments_capacity(8).into()"))
M("bug", "linear-swapped", ("new.rs", LIN, """Self::new_from_pinned(SplitVec::with_linear_growth_and_fragments_capacity(
            fragments_capacity,
            constant_fragment_capacity_exponent,
        ))"""))
M("bug", "linear-fragments-ignored", ("new.rs", LIN, """{
            let _ = fragments_capacity;
            Self::new_from_pinned(SplitVec::with_linear_growth(constant_fragment_capacity_exponent))
        }"""))
M("bug", "linear-clamped", ("new.rs", LIN, LIN.replace("            fragments_capacity,", "            fragments_capacity.clamp(1, 64),")))
M("bug", "linear-exp-clamped", ("new.rs", LIN, LIN.replace("constant_fragment_capacity_exponent,", "constant_fragment_capacity_exponent.min(10),")))
M("bug", "capacity-max", ("vec.rs", CAP, CAP.replace("self.core.capacity()", "self.core.maximum_capacity()")))
M("bug", "maxcap-cap", ("vec.rs", MAXC, "self.core.capacity()"))
M("bug", "maxcap-remaining", ("vec.rs", MAXC, "self.core.maximum_capacity() - self.len()"))
M("bug", "maxcap-at-least", ("vec.rs", MAXC, "self.core.maximum_capacity().max(self.len_reserved().load(Ordering::Relaxed))"))
M("bug", "reserve-additional", ("exclusive.rs", RES, RES.replace(", new_maximum_capacity)", ", new_maximum_capacity - self.reserved_len())")))
M("bug", "reserve-early-return", ("exclusive.rs", RES, """        if new_maximum_capacity <= self.core.maximum_capacity() {
            return new_maximum_capacity;
        }
""" + RES))
M("bug", "reserve-by-capacity", ("exclusive.rs", RES, """        if new_maximum_capacity <= 2 * self.capacity() {
            return self.maximum_capacity();
        }
""" + RES))
M("bug", "reserve-returns-asked", ("exclusive.rs", RES, RES + ";\n        new_maximum_capacity"))
M("bug", "reserve-returns-capacity", ("exclusive.rs", RES, RES + ";\n        self.core.capacity()"))
M("bug", "clone-exact", ("common_traits/clone.rs", "        self.iter_cloned().collect()", """        let vec: Self =
            orx_split_vec::SplitVec::with_doubling_growth_and_fragments_capacity(6).into();
        for x in self.iter_cloned() {
            vec.push(x);
        }
        vec"""))
M("bug", "collect-small", ("common_traits/from_iter.rs", "let vec = ConcurrentVec::new();", "let vec: Self = orx_split_vec::SplitVec::with_doubling_growth().into();"))
# behaviour kept
M("same", "fixed-into", ("new.rs", FIX, "let storage = FixedVec::new(fixed_capacity);\n        storage.into()"))
M("same", "doubling-const", ("new.rs", DBL, """const FRAGMENTS: usize = 32;
        let storage = SplitVec::with_doubling_growth_and_fragments_capacity(FRAGMENTS);
        Self::from(storage)"""))
M("same", "linear-lets", ("new.rs", LIN, """let (exponent, fragments) = (constant_fragment_capacity_exponent, fragments_capacity);
        SplitVec::with_linear_growth_and_fragments_capacity(exponent, fragments).into()"""))
M("same", "default-direct", ("new.rs", "    fn default() -> Self {\n        Self::with_doubling_growth()", "    fn default() -> Self {\n        Self::new()"))
M("same", "reserve-then-read", ("exclusive.rs", RES, RES + ";\n        self.maximum_capacity()"))
M("same", "reserve-early", ("exclusive.rs", RES, """        let current = self.core.maximum_capacity();
        if new_maximum_capacity <= current {
            return current;
        }
""" + RES))
M("same", "reserve-max", ("exclusive.rs", RES, """        let target = new_maximum_capacity.max(self.core.maximum_capacity());
        let len = self.reserved_len();
        unsafe { self.core.reserve_maximum_capacity(len, target) }"""))
M("same", "capacity-asserted", ("vec.rs", CAP, CAP.replace("self.core.capacity()", "let capacity = self.core.capacity();\n        debug_assert!(capacity <= self.core.maximum_capacity());\n        capacity")))
M("same", "capacity-twice", ("vec.rs", CAP, CAP.replace("self.core.capacity()", "let before = self.core.capacity();\n        self.core.capacity().max(before)")))
M("same", "clone-pushes", ("common_traits/clone.rs", "        self.iter_cloned().collect()", """        let vec = Self::with_doubling_growth();
        for x in self.iter_cloned() {
            vec.push(x);
        }
        vec"""))
M("same", "collect-default", ("common_traits/from_iter.rs", "let vec = ConcurrentVec::new();", "let vec: Self = Default::default();"))
M("same", "collect-asserts-len", ("common_traits/from_iter.rs", "vec.extend_n_items(iter, a);", "vec.extend_n_items(iter, a);\n                debug_assert_eq!(vec.len(), a);"))
M("same", "collect-asserts-empty", ("common_traits/from_iter.rs", "        let iter = iter.into_iter();", "        debug_assert!(vec.is_empty());\n        let iter = iter.into_iter();"))
M("same", "collect-asserts-reserved", ("common_traits/from_iter.rs", "vec.extend_n_items(iter, a);", "vec.extend_n_items(iter, a);\n                debug_assert_eq!(vec.reserved_len(), a);"))
M("same", "collect-reads-len", ("common_traits/from_iter.rs", "                for x in iter {", "                let _before = vec.len();\n                for x in iter {"))
M("same", "clone-reads-len", ("common_traits/clone.rs", "        self.iter_cloned().collect()", """        let vec: Self = Self::new();
        for x in self.iter_cloned() {
            let at = vec.len();
            let got = vec.push(x);
            debug_assert_eq!(at, got);
        }
        vec"""))
