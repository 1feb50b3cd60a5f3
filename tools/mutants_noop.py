"""A statement without effect at the start (or in front of the final expression) of every function of the crate."""
import glob
import os
import re

SRC = "/repo/src"
KINDS = {
    "unit": "let _ = ();", "int": "let _unused = 0usize;", "if-false": "if false {}", "if-true": "if true {}", "block": "{ let _x = 1 + 1; }",
    "black-box": "core::hint::black_box(0u8);", "sizeof": "let _ = core::mem::size_of::<usize>();", "debug-assert": "debug_assert!(true);",
    "assert": "assert!(true);", "closure": "let _f = || 1u8;", "loop": "for _ in 0..0 {}", "loop1": "loop { break; }", "match": "match 3u8 { _ => {} }",
    "drop": "drop(1u8);", "fence": "core::sync::atomic::compiler_fence(core::sync::atomic::Ordering::SeqCst);", "string": "let _ = \"text\".len();",
    "option": "let _ = Some(3u8).map(|x| x + 1).unwrap_or(0);", "vec": "let _ = [1u8, 2].iter().count();", "wrap": "let _ = 5usize.wrapping_add(2).min(3);",
    "fn": "fn _nothing() {}\n_nothing();", "while": "let mut _i = 0; while _i < 3 { _i += 1; }", "const": "const _N: usize = 3;", "spin": "core::hint::spin_loop();",
    "cell": "let _c = core::cell::Cell::new(0u8); _c.set(1);", "atomic": "let _a = core::sync::atomic::AtomicUsize::new(0); _a.store(1, core::sync::atomic::Ordering::Relaxed);",
}
MUTANTS = []
for k, stmt in KINDS.items():
    edits = []
    for p in sorted(glob.glob(SRC + "/**/*.rs", recursive=True)):
        s = open(p).read()
        body = re.sub(r"(?m)^([ ]*(?:pub(?:\([a-z]+\))? )?(?:unsafe )?fn [a-z_0-9]+(?:<[^{;]*?>)?\([^{;]*?(?:\n[^{;]*?)*?\{)\n", lambda m: m.group(1) + "\n        " + stmt + "\n", s)
        if body != s:
            edits.append((os.path.relpath(p, SRC), s, body))
    MUTANTS.append({"kind": "same", "id": "noop-" + k, "prop": "", "edits": edits})
