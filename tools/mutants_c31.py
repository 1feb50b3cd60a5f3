"""Lookups: breaking edits and edits that keep the behaviour."""
MUTANTS = []


def M(kind, id, *edits, prop="C31"):
    MUTANTS.append({"kind": kind, "id": "C31-" + id, "prop": prop, "edits": list(edits)})


GET = """        match i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }"""
GETC = """        match i < self.reserved_len() {
            true => unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option()),
            false => None,
        }"""
SGET = """        match i < self.len {
            true => unsafe { self.vec.core.get(self.a + i) },
            false => None,
        }"""
SGETC = """        match i < self.len {
            true => unsafe { self.vec.core.get(self.a + i) }.map(|e| e.cloned()),
            false => None,
        }"""
SOME = "orx_concurrent_option::State::Some"
ACQ = "core::sync::atomic::Ordering::Acquire"
M("bug", "get-published", ("vec.rs", GET, GET.replace("self.len()", "self.len_written().load(Ordering::Acquire)")))
M("bug", "get-published-if-busy", ("vec.rs", GET, GET.replace("self.len()", "match self.len_written().load(Ordering::Acquire) {\n            0 => self.len(),\n            x => x,\n        }")))
M("bug", "get-cloned-try", ("vec.rs", GETC, GETC.replace(".and_then(", f".filter(|e| e.0.state({ACQ}) == {SOME}).and_then(")))
M("bug", "get-cloned-published", ("vec.rs", GETC, GETC.replace("self.reserved_len()", "self.len_written().load(Ordering::Acquire)")))
M("bug", "slice-get-try", ("concurrent_slice/slice.rs", SGET, SGET.replace("get(self.a + i) }", f"get(self.a + i) }}.filter(|e| e.0.state({ACQ}) == {SOME})")))
M("bug", "slice-cloned-short", ("concurrent_slice/slice.rs", SGETC, SGETC.replace("i < self.len", "i < self.len && self.a < (1 << 20)")))
M("bug", "get-capacity", ("vec.rs", GET, GET.replace("i < self.len()", "i + 1 < self.capacity() && i < self.len()")))
M("bug", "get-large", ("vec.rs", GET, GET.replace("i < self.len()", "i < self.len().min(u32::MAX as usize)")))
M("bug", "get-copied-distinct", ("vec.rs", "        self.get_cloned(i)\n", "        match i < self.len_written().load(Ordering::Acquire) {\n            true => self.get_cloned(i),\n            false => None,\n        }\n"))
M("bug", "index-published", ("common_traits/index.rs", 'self.get(i).expect("out-of-bounds")', 'assert!(i < self.len_written().load(core::sync::atomic::Ordering::Acquire));\n        self.get(i).expect("out-of-bounds")', 0))
M("bug", "elem-fmt-busy", ("common_traits/debug.rs", '        self.map(|x| write!(f, "{:?}", x))', f'''        match self.0.state({ACQ}) {{
            {SOME} => self.map(|x| write!(f, "{{:?}}", x)),
            _ => write!(f, "<busy>"),
        }}'''), prop="C10")
# behaviour kept
M("same", "get-early", ("vec.rs", GET, """        if i >= self.len() {
            return None;
        }
        unsafe { self.core.get(i) }"""))
M("same", "get-then", ("vec.rs", GET, """        let len = self.len();
        (i < len).then(|| unsafe { self.core.get(i) }).flatten()"""))
M("same", "get-fast-path", ("vec.rs", GET, """        match i < self.len_written().load(Ordering::Acquire) || i < self.len() {
            true => unsafe { self.core.get(i) },
            false => None,
        }"""))
M("same", "get-cloned-by-get", ("vec.rs", GETC, "        self.get(i).map(|elem| elem.cloned())"))
M("same", "get-cloned-core", ("vec.rs", GETC, "        unsafe { self.core.get(i) }.and_then(|elem| elem.0.clone_into_option())"))
M("same", "slice-get-idx", ("concurrent_slice/slice.rs", SGET, "        self.idx(i).and_then(|i| unsafe { self.vec.core.get(i) })"))
M("same", "slice-get-vec", ("concurrent_slice/slice.rs", SGET, "        self.idx(i).and_then(|i| self.vec.get(i))"))
M("same", "slice-cloned-vec", ("concurrent_slice/slice.rs", SGETC, "        self.idx(i).and_then(|i| self.vec.get_cloned(i))"))
M("same", "index-match", ("common_traits/index.rs", 'self.get(i).expect("out-of-bounds")', 'match self.get(i) {\n            Some(x) => x,\n            None => panic!("position {i} is out of bounds"),\n        }', 0))
M("same", "elem-fmt-direct", ("common_traits/debug.rs", '        self.map(|x| write!(f, "{:?}", x))', '        self.map(|x| x.fmt(f))'))
M("same", "elem-fmt-debug", ("common_traits/debug.rs", '        self.map(|x| write!(f, "{:?}", x))', '        self.map(|x| Debug::fmt(x, f))'))
M("same", "elem-fmt-short", ("common_traits/debug.rs", '        self.map(|x| write!(f, "{:?}", x))', '        self.map(|value| write!(f, "{value:?}"))'))
