"""Elements that stay locked: breaking edits and edits that keep the behaviour."""
MUTANTS = []


def M(kind, id, prop, *edits):
    MUTANTS.append({"kind": kind, "id": id, "prop": prop, "edits": list(edits)})


EL = "elem.rs"
UPD = """        assert!(self.0.update_if_some(f), "Failed to update the element");
"""
SET = """        assert!(self.0.set_some(value), "Failed to set the element");
"""
REP = """        self.0.replace(value).expect(HAS_VALUE)
"""
MAP = """        self.0.map(f).expect(HAS_VALUE)
"""
CL = """        self.0.clone_into_option().expect(HAS_VALUE)
"""
GET = "unsafe { self.0.mut_handle(orx_concurrent_option::SOME, orx_concurrent_option::SOME) }.expect(HAS_VALUE)"
M("bug", "C27-update-manual", "C27", (EL, UPD, "        let mut f = f;\n        let h = core::mem::ManuallyDrop::new(" + GET + ");\n        f(unsafe { h.get_mut() });\n        drop(core::mem::ManuallyDrop::into_inner(h));\n"))
M("bug", "C27-update-manual-drop", "C27", (EL, UPD, "        let mut f = f;\n        let mut h = core::mem::ManuallyDrop::new(" + GET + ");\n        f(unsafe { h.get_mut() });\n        unsafe { core::mem::ManuallyDrop::drop(&mut h) };\n"))
M("bug", "C27-set-forgets", "C27", (EL, SET, "        let h = " + GET + ";\n        let x = unsafe { h.get_mut() };\n        *x = value;\n        if core::mem::size_of::<T>() > 4096 {\n            core::mem::forget(h);\n        }\n"))
M("bug", "C27-replace-leaks", "C27", (EL, REP, "        let h = core::mem::ManuallyDrop::new(" + GET + ");\n        let x = unsafe { h.get_mut() };\n        let old = core::mem::replace(x, value);\n        if core::mem::needs_drop::<T>() {\n            drop(core::mem::ManuallyDrop::into_inner(h));\n        }\n        old\n"))
M("bug", "C27-update-take-if", "C27", (EL, UPD, "        let mut f = f;\n        let x = self.0.take_if(|x| { f(x); false });\n        assert!(x.is_none());\n"))
M("same", "C27-swap-forget", "C27", ("mut_elem.rs", """                core::mem::swap(mut_i, mut_j);
                true
            }
            _ => false,""", """                core::mem::swap(mut_i, mut_j);
                true
            }
            (Some(h_i), None) => {
                core::mem::forget(h_i);
                false
            }
            _ => false,"""))
M("bug", "C27-swap-boxleak", "C27", ("mut_elem.rs", """                core::mem::swap(mut_i, mut_j);
                true
            }
            _ => false,""", """                core::mem::swap(mut_i, mut_j);
                if j - i > 1 << 20 {
                    alloc::boxed::Box::leak(alloc::boxed::Box::new(h_i));
                }
                true
            }
            _ => false,"""))
M("bug", "C27-eq-forget", "C27", ("common_traits/eq.rs", "            Ordering::Greater => other.map(|y| self.map(|x| x == y)),", """            Ordering::Greater => {
                let Some(h) = (unsafe { other.0.mut_handle(orx_concurrent_option::SOME, orx_concurrent_option::SOME) }) else { return false };
                let h = core::mem::ManuallyDrop::new(h);
                let y = unsafe { h.get_mut() };
                let e = self.map(|x| x == y);
                drop(core::mem::ManuallyDrop::into_inner(h));
                e
            }"""))
M("bug", "C27-fill-forget", "C27", ("mut_elem.rs", """        for elem in self.iter() {
            elem.set(value.clone());
        }""", """        for i in 0..self.len() {
            if let Some(h) = unsafe { self.mut_handle(i, SOME, SOME) } {
                let mut h = core::mem::ManuallyDrop::new(h);
                let x = unsafe { h.get_mut() };
                x.clone_from(&value);
                unsafe { core::mem::ManuallyDrop::drop(&mut h) };
            }
        }"""))
M("bug", "C27-fill-loop-forget", "C27", ("mut_elem.rs", """        for elem in self.iter() {
            elem.set(value.clone());
        }""", """        for i in 0..self.len() {
            let x = value.clone();
            if let Some(h) = unsafe { self.mut_handle(i, SOME, SOME) } {
                *unsafe { h.get_mut() } = x;
                core::mem::forget(h);
            }
        }"""))
M("same", "c27-update-handle", "", (EL, UPD, "        let mut f = f;\n        let h = " + GET + ";\n        f(unsafe { h.get_mut() });\n        drop(h);\n"))
M("same", "c27-replace-manual", "", (EL, REP, "        let h = core::mem::ManuallyDrop::new(" + GET + ");\n        let x = unsafe { h.get_mut() };\n        let old = core::mem::replace(x, value);\n        drop(core::mem::ManuallyDrop::into_inner(h));\n        old\n"))
M("same", "c27-replace-manual-drop", "", (EL, REP, "        let mut h = core::mem::ManuallyDrop::new(" + GET + ");\n        let x = unsafe { h.get_mut() };\n        let old = core::mem::replace(x, value);\n        unsafe { core::mem::ManuallyDrop::drop(&mut h) };\n        old\n"))
M("same", "c27-map-handle", "", (EL, MAP, "        let h = " + GET + ";\n        f(unsafe { h.get_mut() })\n"))
M("same", "c27-cloned-handle", "", (EL, CL, "        let h = " + GET + ";\n        let x: &T = unsafe { h.get_mut() };\n        x.clone()\n", 0) if False else (EL, MAP, "        let h = " + GET + ";\n        let r = f(unsafe { h.get_mut() });\n        drop(h);\n        r\n"))
M("same", "c27-swap-drops", "", ("mut_elem.rs", """                core::mem::swap(mut_i, mut_j);
                true
            }
            _ => false,""", """                core::mem::swap(mut_i, mut_j);
                drop(h_j);
                drop(h_i);
                true
            }
            (Some(h_i), None) => {
                drop(h_i);
                false
            }
            _ => false,"""))
FILL = """        for elem in self.iter() {
            elem.set(value.clone());
        }"""
M("same", "c27-fill-handles", "", ("mut_elem.rs", FILL, """        for i in 0..self.len() {
            if let Some(h) = unsafe { self.mut_handle(i, SOME, SOME) } {
                *unsafe { h.get_mut() } = value.clone();
            }
        }"""))
M("same", "c27-fill-clone-from", "", ("mut_elem.rs", FILL, """        for i in 0..self.len() {
            if let Some(h) = unsafe { self.mut_handle(i, SOME, SOME) } {
                unsafe { h.get_mut() }.clone_from(&value);
            }
        }"""))
M("same", "c27-fill-update-clone-from", "", ("mut_elem.rs", FILL, """        for elem in self.iter() {
            elem.update(|x| x.clone_from(&value));
        }"""))
M("same", "c27-fill-update-clone", "", ("mut_elem.rs", FILL, """        for elem in self.iter() {
            elem.update(|x| *x = value.clone());
        }"""))
