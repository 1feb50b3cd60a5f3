"""Code that moves values bit by bit: breaking edits and edits that keep the behaviour."""
MUTANTS = []


def M(kind, id, prop, *edits):
    MUTANTS.append({"kind": kind, "id": id, "prop": prop, "edits": list(edits)})


EL = "elem.rs"
UPD = """        assert!(self.0.update_if_some(f), "Failed to update the element");
"""
SET = """        assert!(self.0.set_some(value), "Failed to set the element");
"""
REP = """        self.0.replace(value).expect(HAS_VALUE)
"""
H = "let h = unsafe { self.0.mut_handle(orx_concurrent_option::SOME, orx_concurrent_option::SOME) }.expect(HAS_VALUE);\n        let x = unsafe { h.get_mut() };\n        "
FM = ("        F: FnMut(&mut T),\n", "        F: FnMut(&mut T),\n")
M("bug", "C10-update-readwrite", "C10", (EL, UPD, "        let mut f = f;\n        " + H + """let mut v = unsafe { core::ptr::read(x) };
        f(&mut v);
        unsafe { core::ptr::write(x, v) };
"""))
M("bug", "C10-set-leaks", "C10", (EL, SET, "        " + H + """unsafe { core::ptr::write(x, value) };
"""))
M("bug", "C10-replace-twice", "C10", (EL, REP, "        " + H + """let old = unsafe { core::ptr::read(x) };
        *x = value;
        old
"""))
M("bug", "C10-set-small", "C10", (EL, SET, "        " + H + """match core::mem::size_of::<T>() <= core::mem::size_of::<usize>() {
            true => unsafe { core::ptr::write(x, value) },
            false => *x = value,
        }
"""))
SW = """                core::mem::swap(mut_i, mut_j);
"""
M("bug", "C21-swap-copy", "C21", ("mut_elem.rs", SW, """                unsafe {
                    let t = core::ptr::read(mut_i);
                    *mut_i = core::ptr::read(mut_j);
                    core::ptr::write(mut_j, t);
                }
"""))
M("bug", "C21-swap-dup", "C21", ("mut_elem.rs", SW, """                unsafe {
                    core::ptr::copy_nonoverlapping(mut_i as *const T, mut_j as *mut T, 1);
                }
"""))
CL = "            elem.0.exclusive_take();\n"
M("bug", "C17-clear-forgets", "C17", ("exclusive.rs", CL, """            if let Some(x) = elem.0.exclusive_take() {
                core::mem::forget(x);
            }
"""))
M("bug", "C17-clear-reads", "C17", ("exclusive.rs", CL, """            if let Some(x) = elem.0.exclusive_as_mut() {
                drop(unsafe { core::ptr::read(x) });
            }
"""))
IT = "        self.iter.next().map(|e| e.0.unwrap())\n"
M("bug", "C17-into-iter-forget", "C17", ("common_traits/into_iter.rs", IT, """        match self.iter.next() {
            Some(mut e) => match e.0.exclusive_as_mut().is_some() && core::mem::size_of::<T>() > 0 {
                true => Some(e.0.unwrap()),
                false => {
                    core::mem::forget(e);
                    None
                }
            },
            None => None,
        }
"""))
M("bug", "C17-to-vec-dup", "C17", ("to_vec.rs", """            vec.push(x.0.expect("unwrapped none"));
""", """            let mut x = x;
            let y = x.0.exclusive_as_mut().expect("unwrapped none");
            vec.push(unsafe { core::ptr::read(y) });
"""))
# the same behaviour
M("same", "set-read-write", "", (EL, SET, "        " + H + """let old = unsafe { core::ptr::read(x) };
        unsafe { core::ptr::write(x, value) };
        drop(h);
        drop(old);
"""))
M("same", "set-assign", "", (EL, SET, "        " + H + "*x = value;\n"))
M("same", "replace-ptr-replace", "", (EL, REP, "        " + H + "unsafe { core::ptr::replace(x, value) }\n"))
M("same", "replace-read-write", "", (EL, REP, "        " + H + """let old = unsafe { core::ptr::read(x) };
        unsafe { core::ptr::write(x, value) };
        old
"""))
M("same", "replace-raw-methods", "", (EL, REP, "        " + H + """let p = x as *mut T;
        unsafe {
            let old = p.read();
            p.write(value);
            old
        }
"""))
M("same", "update-handle", "", (EL, UPD, "        let mut f = f;\n        " + H + "f(x);\n"))
M("same", "swap-read-write", "", ("mut_elem.rs", SW, """                unsafe {
                    let t = core::ptr::read(mut_i);
                    core::ptr::copy_nonoverlapping(mut_j as *const T, mut_i as *mut T, 1);
                    core::ptr::write(mut_j, t);
                }
"""))
M("same", "swap-ptr-swap", "", ("mut_elem.rs", SW, "                unsafe { core::ptr::swap(mut_i, mut_j) };\n"))
M("same", "swap-ptr-swap-no", "", ("mut_elem.rs", SW, "                unsafe { core::ptr::swap_nonoverlapping(mut_i, mut_j, 1) };\n"))
M("same", "into-iter-manually-drop", "", ("common_traits/into_iter.rs", IT, """        self.iter.next().map(|e| {
            let mut e = core::mem::ManuallyDrop::new(e);
            unsafe { core::ptr::read(e.0.exclusive_as_mut().expect("value")) }
        })
"""))
M("same", "into-iter-forget", "", ("common_traits/into_iter.rs", IT, """        let mut e = self.iter.next()?;
        let value = unsafe { core::ptr::read(e.0.exclusive_as_mut().expect("value")) };
        core::mem::forget(e);
        Some(value)
"""))
M("same", "to-vec-into-option", "", ("to_vec.rs", """            vec.push(x.0.expect("unwrapped none"));
""", """            match orx_concurrent_option::IntoOption::into_option(x.0) {
                Some(y) => vec.push(y),
                None => panic!("unwrapped none"),
            }
"""))
M("same", "clear-replace-cell", "", ("exclusive.rs", CL, "            drop(elem.0.exclusive_take());\n"))
M("same", "clear-assign", "", ("exclusive.rs", CL, "            elem.0 = orx_concurrent_option::ConcurrentOption::none();\n"))
M("same", "clear-mem-replace", "", ("exclusive.rs", CL, "            let _old = core::mem::replace(&mut elem.0, orx_concurrent_option::ConcurrentOption::none());\n"))
