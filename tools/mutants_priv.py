"""Counters or state handed to safe code."""
MUTANTS = [
    dict(id="C05-pub-len-written", kind="bug", prop="C05", edits=[("helpers.rs", "    pub(crate) fn len_written(", "    pub fn len_written(")]),
    dict(id="C01-pub-len-reserved", kind="bug", prop="C01", edits=[("helpers.rs", "    pub(crate) fn len_reserved(", "    pub fn len_reserved(")]),
    dict(id="C05-pub-wrapper", kind="bug", prop="C05", edits=[("vec.rs", "    pub fn is_empty(&self) -> bool {", """    pub fn state_ref(&self) -> Option<&crate::state::ConcurrentVecState> {
        Some(self.core.state())
    }

    /// Empty.
    pub fn is_empty(&self) -> bool {""")]),
    dict(id="same-pub-count", kind="same", edits=[("vec.rs", "    pub(crate) fn reserved_len(", "    pub fn reserved_len(")]),
]
