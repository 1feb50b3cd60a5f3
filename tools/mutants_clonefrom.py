"""clone_from overridden"""
MUTANTS = []
CLONE = "        self.iter_cloned().collect()\n    }\n"


def M(kind, id, body):
    MUTANTS.append({"kind": kind, "id": "cf-" + id, "prop": "C18" if kind == "bug" else "",
                    "edits": [("common_traits/clone.rs", CLONE, CLONE + "\n    fn clone_from(&mut self, source: &Self) {\n" + body + "    }\n")]})


M("same", "assign", "        *self = source.clone();\n")
M("same", "collect", "        *self = source.iter_cloned().collect();\n")
M("same", "replace", "        drop(core::mem::replace(self, source.iter_cloned().collect()));\n")
M("same", "push", "        let new = Self::new();\n        for x in source.iter() {\n            new.push(x.cloned());\n        }\n        *self = new;\n")
M("same", "in-place", "        self.clear();\n        for x in source.iter_cloned() {\n            self.push(x);\n        }\n")
M("same", "in-place-extend", "        self.clear();\n        let v = source.clone_to_vec();\n        self.extend(v);\n")
M("same", "if-empty", "        match source.is_empty() {\n            true => self.clear(),\n            false => *self = source.clone(),\n        }\n")
M("same", "slice", "        *self = source.as_slice().iter_cloned().collect();\n")
M("bug", "take", "        let n = self.len();\n        *self = source.iter_cloned().take(n).collect();\n")
M("bug", "skip", "        let new = Self::new();\n        for x in source.iter().skip(1) {\n            new.push(x.cloned());\n        }\n        *self = new;\n")
M("bug", "own", "        *self = self.iter_cloned().collect();\n        let _ = source;\n")
M("bug", "published", "        let n = self.len().max(source.len_written().load(core::sync::atomic::Ordering::Acquire));\n        *self = source.iter_cloned().take(n).collect();\n")
