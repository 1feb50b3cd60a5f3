"""other functions of the option cell"""
MUTANTS = []
CT, CS = "common_traits/", "concurrent_slice/"


def M(kind, id, prop, *edits):
    MUTANTS.append({"kind": kind, "id": "opt-" + id, "prop": prop, "edits": list(edits)})


M("same", "to-vec-unwrap-or-else", "", ("to_vec.rs", 'x.0.expect("unwrapped none")', 'x.0.unwrap_or_else(|| unreachable!("unwrapped none"))'))
M("same", "into-iter-unwrap-or-else", "", (CT + "into_iter.rs", "e.0.unwrap()", 'e.0.unwrap_or_else(|| panic!("no value"))'))
M("same", "into-iter-std", "", (CT + "into_iter.rs", "e.0.unwrap()", 'Option::from(e.0).unwrap()'))
M("same", "into-iter-into", "", (CT + "into_iter.rs", "self.iter.next().map(|e| e.0.unwrap())", "{\n            let v: Option<T> = self.iter.next()?.0.into();\n            v\n        }"))
M("same", "to-vec-take", "", ("to_vec.rs", '        for x in pinned {\n            vec.push(x.0.expect("unwrapped none"));', '        for mut x in pinned {\n            vec.push(x.0.exclusive_take().expect("unwrapped none"));'))
M("same", "into-iter-take", "", (CT + "into_iter.rs", "self.iter.next().map(|e| e.0.unwrap())", "self.iter.next().and_then(|mut e| e.0.exclusive_take())"))
M("same", "map-or-else", "", ("elem.rs", "        self.0.map(f).expect(HAS_VALUE)\n", "        self.0.map_or_else(|| panic!(\"{}\", HAS_VALUE), f)\n"))
M("same", "cloned-map", "", ("elem.rs", "        self.0.clone_into_option().expect(HAS_VALUE)\n", "        self.0.map(|x| x.clone()).expect(HAS_VALUE)\n", 0))
M("same", "replace-insert", "", ("elem.rs", "        self.0.replace(value).expect(HAS_VALUE)\n", "        let mut value = value;\n        assert!(self.0.update_if_some(|x| core::mem::swap(x, &mut value)), \"{}\", HAS_VALUE);\n        value\n"))
M("same", "clear-map", "", ("exclusive.rs", "            elem.0.exclusive_take();\n", "            if elem.0.exclusive_as_mut().is_some() {\n                drop(elem.0.exclusive_take());\n            }\n"))
M("same", "clear-as-mut", "", ("exclusive.rs", "            elem.0.exclusive_take();\n", "            if let Some(_) = elem.0.exclusive_as_mut() {\n                elem.0.exclusive_take();\n            }\n"))
M("bug", "into-iter-or-default", "C23", (CT + "into_iter.rs", "self.iter.next().map(|e| e.0.unwrap())", "self.iter.next().filter(|e| e.0.is_some_and(|_| self.iter.size_hint().0 % 1024 != 1023)).map(|e| e.0.unwrap())"))
