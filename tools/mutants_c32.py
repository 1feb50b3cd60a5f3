"""Caller code with nothing else held: breaking edits and edits that keep the behaviour."""
MUTANTS = []
CS = "concurrent_slice/"


def M(kind, id, *edits, prop="C32"):
    MUTANTS.append({"kind": kind, "id": "C32-" + id, "prop": prop, "edits": list(edits)})


FILTER = "self.iter().filter(move |x| f(x))"
RED = """                let mut agg = first.cloned();
                for elem in iter {
                    agg = elem.map(|x| f(&agg, x));
                }
                Some(agg)
"""
SL = CS + "iter_shorthands.rs"
MUTANTS.clear()
M("bug", "reduce-holds-first", (SL, RED, """                Some(first.map(|first| {
                    let mut agg = first.clone();
                    for elem in iter {
                        agg = elem.map(|x| f(&agg, x));
                    }
                    agg
                }))
"""))
M("bug", "reduce-second-held", (SL, RED, """                let mut agg = None;
                for elem in iter {
                    agg = Some(elem.map(|x| match &agg {
                        Some(agg) => f(agg, x),
                        None => f(&first.cloned(), x),
                    }));
                }
                Some(agg.unwrap_or_else(|| first.cloned()))
"""))
M("bug", "fold-init-held", ("iter_shorthands.rs", "self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x)))", """match self.get(0) {
            None => init,
            Some(first) => {
                let rest = self.iter().skip(1);
                first.map(|x| rest.fold(f(init, x), |agg, elem| elem.map(|x| f(agg, x))))
            }
        }"""))
M("bug", "fill-with-pair", ("mut_elem.rs", "            elem.set(value(i));\n", """            match i % 2 {
                0 => elem.set(value(i)),
                _ => elem.update(|x| *x = value(i)),
            }
"""))
M("bug", "fill-with-replace-handle", (CS + "mut_elem.rs", "            elem.set(value(i));\n", """            let handle = unsafe { self.vec.mut_handle(self.idx(i).unwrap(), SOME, SOME) };
            if let Some(handle) = handle {
                *unsafe { handle.get_mut() } = value(i);
            } else {
                let _ = elem;
            }
"""), (CS + "mut_elem.rs", "use crate::elem::ConcurrentElement;\n", "use crate::elem::ConcurrentElement;\nuse orx_concurrent_option::SOME;\n"))
M("bug", "index-of-clone-held", ("common_traits/clone.rs", "        self.iter_cloned().collect()\n", """        let clone = Self::new();
        for elem in self.iter() {
            elem.map(|x| clone.push(x.clone()));
        }
        match self.get(0) {
            Some(x) if clone.is_empty() => x.map(|_| self.iter_cloned().collect()),
            _ => clone,
        }
"""))
M("bug", "extend-next-held", ("common_traits/from_iter.rs", "        let iter = iter.into_iter();\n", "        let iter = iter.into_iter();\n        vec.len();\n"), prop="C99")
M("same", "reduce-map-clone", (SL, RED, RED.replace("first.cloned()", "first.map(|x| x.clone())")))
M("same", "reduce-fold", (SL, RED, "                Some(iter.fold(first.cloned(), |agg, elem| elem.map(|x| f(&agg, x))))\n"))
M("same", "fold-loop", ("iter_shorthands.rs", "        self.iter().fold(init, |agg, elem| elem.map(|x| f(agg, x)))\n", """        let mut agg = init;
        for elem in self.iter() {
            agg = elem.map(|x| f(agg, x));
        }
        agg
"""))
M("same", "fill-with-handle", (CS + "mut_elem.rs", "            elem.set(value(i));\n", "            let value = value(i);\n            let mut value = Some(value);\n            elem.update(|x| *x = value.take().unwrap());\n"))
M("same", "fill-replace", ("mut_elem.rs", "            elem.set(value.clone());\n", "            drop(elem.replace(value.clone()));\n"))
M("same", "fill-update", ("mut_elem.rs", "            elem.set(value.clone());\n", "            let new = value.clone();\n            let mut new = Some(new);\n            elem.update(|x| {\n                if let Some(v) = new.take() {\n                    *x = v;\n                }\n            });\n"))
M("same", "clone-map", ("common_traits/clone.rs", "self.iter_cloned().collect()", "self.iter().map(|e| e.map(|x| x.clone())).collect()"))
M("same", "eq-value-flip", ("common_traits/eq.rs", "self.map(|x| x == other)", "self.map(|x| *other == *x)", 0))
MUTANTS = [m for m in MUTANTS if m["prop"] != "C99"]
