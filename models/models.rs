//! Contract models, analysed (never run) together with the crate: iterator adaptors, slices,
//! element-cell operations. `i_*` are intrinsics of the analyser.
#![no_std]
#![allow(unused, unconditional_recursion)]
extern crate alloc;
use core::iter::FromIterator;
use core::ops::ControlFlow;

// ---------- intrinsics ----------
/// waits for the cell to be unlocked; true: held with a value, false: no value
pub fn i_acquire<O: ?Sized>(o: &O) -> bool { loop {} }
/// as above for a cell without a value (held in the none state)
pub fn i_acquire_none<O: ?Sized>(o: &O) -> bool { loop {} }
pub fn i_release<O: ?Sized>(o: &O) { loop {} }
/// end of a lowering operation: the cell becomes empty
pub fn i_release_none<O: ?Sized>(o: &O) { loop {} }
pub fn i_val<'a, O: ?Sized, T>(o: &'a O) -> &'a T { loop {} }
pub fn i_val_mut<'a, O: ?Sized, T>(o: &'a O) -> &'a mut T { loop {} }
pub fn i_val_ptr<O: ?Sized, T>(o: &O) -> *const T { loop {} }
pub fn i_val_ptr_mut<O: ?Sized, T>(o: &O) -> *mut T { loop {} }
pub fn i_read<O: ?Sized, T>(o: &O) -> T { loop {} }
pub fn i_write<O: ?Sized, T>(o: &O, v: T) { loop {} }
/// unguarded presence observation with an ordering
pub fn i_present<O: ?Sized, Q>(o: &O, ord: Q) -> bool { loop {} }
pub fn i_presence_relaxed<O: ?Sized>(o: &O) -> bool { loop {} }
pub fn i_present_flag<O: ?Sized, Q>(o: &O, ord: Q) -> bool { loop {} }
pub fn i_presence_excl<O: ?Sized>(o: &O) -> bool { loop {} }
pub fn i_set_present<O: ?Sized>(o: &O) { loop {} }
pub fn i_set_absent<O: ?Sized>(o: &O) { loop {} }
pub fn i_slot<'a, V, E>(v: V, i: usize) -> &'a E { loop {} }
pub fn i_elem<'a, S, E>(v: S, i: usize) -> &'a E { loop {} }
pub fn i_item<S, E>(v: S, i: usize) -> E { loop {} }
pub fn i_nondet() -> bool { loop {} }
pub fn i_is_option<U>(u: &U) -> bool { loop {} }
pub fn i_cast<A, B>(a: A) -> B { loop {} }
pub fn i_num<A>(a: A) -> usize { loop {} }
pub fn i_clone<T>(t: &T) -> T { loop {} }
pub fn i_event<X>(name: &str, x: X) { loop {} }
pub fn i_panic() -> ! { loop {} }
pub fn i_unknown<T>() -> T { loop {} }
pub fn i_vec_new<T>() -> T { loop {} }
pub fn i_vec_push<V, T>(v: &mut V, t: T) { loop {} }

// ---------- drivers of returned values ----------
pub fn drain<I: Iterator>(mut it: I) {
    while let Some(x) = it.next() {
        i_event("yield", x);
    }
    i_event("drained", ());
}

pub fn drain_fold<I: Iterator>(it: I) {
    it.fold((), |_, x| { i_event("yield", x); });
    i_event("drained", ());
}
pub fn drain_for_each<I: Iterator>(it: I) {
    it.for_each(|x| { i_event("yield", x); });
    i_event("drained", ());
}

// ---------- sources ----------
pub struct Slots<V> { pub v: V, pub pos: usize, pub end: usize }
impl<V: Copy> Iterator for Slots<V> {
    type Item = &'static u8;
    fn next(&mut self) -> Option<&'static u8> {
        if self.pos < self.end {
            let p = self.pos;
            self.pos = p + 1;
            Some(i_slot(self.v, p))
        } else { None }
    }
}
impl<V: Copy> DoubleEndedIterator for Slots<V> {
    fn next_back(&mut self) -> Option<&'static u8> {
        if self.pos < self.end {
            let p = self.end - 1;
            self.end = p;
            Some(i_slot(self.v, p))
        } else { None }
    }
}
pub fn slots_len<V>(s: &Slots<V>) -> usize { s.end - s.pos }

/// the buffers covering [pos, end): an unknown number of consecutive non-empty pieces
pub struct Bufs<V> { pub v: V, pub pos: usize, pub end: usize }
impl<V: Copy> Iterator for Bufs<V> {
    type Item = SlotSlice<V>;
    fn next(&mut self) -> Option<SlotSlice<V>> {
        if self.pos < self.end {
            let p = self.pos;
            let n: usize = i_unknown();
            let e = if n > p && n < self.end { n } else { self.end };
            self.pos = e;
            Some(SlotSlice { v: self.v, pos: p, end: e })
        } else { None }
    }
}
pub struct SlotSlice<V> { pub v: V, pub pos: usize, pub end: usize }
pub fn slotslice_len<V>(s: &SlotSlice<V>) -> usize { s.end - s.pos }
pub fn slotslice_iter<V>(s: SlotSlice<V>) -> Slots<V> { Slots { v: s.v, pos: s.pos, end: s.end } }
pub fn slotslice_get<'a, V, E>(s: SlotSlice<V>, i: usize) -> Option<&'a E> {
    if i < s.end - s.pos { Some(i_slot(s.v, s.pos + i)) } else { None }
}

/// elements of a plain slice or array
pub struct SliceIter<S> { pub s: S, pub pos: usize, pub end: usize }
impl<S: Copy> Iterator for SliceIter<S> {
    type Item = &'static u8;
    fn next(&mut self) -> Option<&'static u8> {
        if self.pos < self.end {
            let p = self.pos;
            self.pos = p + 1;
            Some(i_elem(self.s, p))
        } else { None }
    }
}
impl<S: Copy> DoubleEndedIterator for SliceIter<S> {
    fn next_back(&mut self) -> Option<&'static u8> {
        if self.pos < self.end {
            let p = self.end - 1;
            self.end = p;
            Some(i_elem(self.s, p))
        } else { None }
    }
}
pub fn sliceiter_len<S>(s: &SliceIter<S>) -> usize { s.end - s.pos }
/// owned items of a consumed container (vec::IntoIter, P::IntoIter, drain)
pub struct Items<S> { pub s: S, pub pos: usize, pub end: usize }
impl<S: Copy> Iterator for Items<S> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.pos < self.end {
            let p = self.pos;
            self.pos = p + 1;
            Some(i_item(self.s, p))
        } else { None }
    }
}
impl<S: Copy> DoubleEndedIterator for Items<S> {
    fn next_back(&mut self) -> Option<u8> {
        if self.pos < self.end {
            let p = self.end - 1;
            self.end = p;
            Some(i_item(self.s, p))
        } else { None }
    }
}
pub fn items_len<S>(s: &Items<S>) -> usize { s.end - s.pos }

pub fn range_next(r: &mut core::ops::Range<usize>) -> Option<usize> {
    if r.start < r.end {
        let p = r.start;
        r.start = p + 1;
        Some(p)
    } else { None }
}
pub fn range_next_back(r: &mut core::ops::Range<usize>) -> Option<usize> {
    if r.start < r.end {
        let p = r.end - 1;
        r.end = p;
        Some(p)
    } else { None }
}
pub fn range_len(r: &core::ops::Range<usize>) -> usize {
    if r.start < r.end { r.end - r.start } else { 0 }
}
pub fn rangefrom_next(r: &mut core::ops::RangeFrom<usize>) -> Option<usize> {
    let p = r.start;
    r.start = p + 1;
    Some(p)
}
pub struct RangeInc { pub a: usize, pub b: usize, pub done: bool }
impl Iterator for RangeInc {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.done || self.a > self.b { return None; }
        let p = self.a;
        if p == self.b { self.done = true; } else { self.a = p + 1; }
        Some(p)
    }
}
pub fn range_inc_new(a: usize, b: usize) -> RangeInc { RangeInc { a, b, done: false } }

pub struct OptIter<T> { pub o: Option<T> }
impl<T> Iterator for OptIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.o.take() }
}
impl<T> DoubleEndedIterator for OptIter<T> {
    fn next_back(&mut self) -> Option<T> { self.o.take() }
}
pub fn option_into_iter<T>(o: Option<T>) -> OptIter<T> { OptIter { o } }
pub fn option_iter<T>(o: &Option<T>) -> OptIter<&T> { OptIter { o: o.as_ref() } }
pub fn iter_once<T>(x: T) -> OptIter<T> { OptIter { o: Some(x) } }
pub fn iter_empty<T>() -> OptIter<T> { OptIter { o: None } }

pub struct FromFn<F> { f: F }
impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> {
    type Item = T;
    fn next(&mut self) -> Option<T> { (self.f)() }
}
pub fn iter_from_fn<F>(f: F) -> FromFn<F> { FromFn { f } }
pub struct RepeatWith<F> { f: F }
impl<T, F: FnMut() -> T> Iterator for RepeatWith<F> {
    type Item = T;
    fn next(&mut self) -> Option<T> { Some((self.f)()) }
}
pub fn iter_repeat_with<F>(f: F) -> RepeatWith<F> { RepeatWith { f } }
pub struct Successors<T, F> { n: Option<T>, f: F }
impl<T, F: FnMut(&T) -> Option<T>> Iterator for Successors<T, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.n.take() {
            Some(x) => { self.n = (self.f)(&x); Some(x) }
            None => None,
        }
    }
}
pub fn iter_successors<T, F>(n: Option<T>, f: F) -> Successors<T, F> { Successors { n, f } }

// ---------- adaptors ----------
pub struct Map<I, F> { i: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.i.next() { Some(x) => Some((self.f)(x)), None => None }
    }
}
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> {
    fn next_back(&mut self) -> Option<B> {
        match self.i.next_back() { Some(x) => Some((self.f)(x)), None => None }
    }
}
pub fn iter_map<I, F>(i: I, f: F) -> Map<I, F> { Map { i, f } }

pub struct Filter<I, F> { i: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while let Some(x) = self.i.next() {
            if (self.f)(&x) { return Some(x); }
        }
        None
    }
}
impl<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool> DoubleEndedIterator for Filter<I, F> {
    fn next_back(&mut self) -> Option<I::Item> {
        while let Some(x) = self.i.next_back() {
            if (self.f)(&x) { return Some(x); }
        }
        None
    }
}
pub fn iter_filter<I, F>(i: I, f: F) -> Filter<I, F> { Filter { i, f } }

pub struct FilterMap<I, F> { i: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        while let Some(x) = self.i.next() {
            if let Some(y) = (self.f)(x) { return Some(y); }
        }
        None
    }
}
pub fn iter_filter_map<I, F>(i: I, f: F) -> FilterMap<I, F> { FilterMap { i, f } }

pub struct MapWhile<I, F> { i: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.i.next() { Some(x) => (self.f)(x), None => None }
    }
}
pub fn iter_map_while<I, F>(i: I, f: F) -> MapWhile<I, F> { MapWhile { i, f } }

pub struct FlatMap<I, F, U> { i: I, f: F, cur: Option<U> }
impl<U: IntoIterator, I: Iterator, F: FnMut(I::Item) -> U> Iterator for FlatMap<I, F, U::IntoIter> {
    type Item = U::Item;
    fn next(&mut self) -> Option<U::Item> {
        loop {
            if let Some(c) = &mut self.cur {
                if let Some(x) = c.next() { return Some(x); }
                self.cur = None;
            }
            match self.i.next() {
                Some(y) => {
                    let u = (self.f)(y);
                    if i_is_option(&u) {
                        let o: Option<U::Item> = i_cast(u);
                        if let Some(x) = o { return Some(x); }
                    } else {
                        self.cur = Some(u.into_iter());
                    }
                }
                None => return None,
            }
        }
    }
}
pub fn iter_flat_map<I, F, U>(i: I, f: F) -> FlatMap<I, F, U> { FlatMap { i, f, cur: None } }
pub struct Flatten<I, U> { i: I, cur: Option<U> }
impl<U: IntoIterator, I: Iterator<Item = U>> Iterator for Flatten<I, U::IntoIter> {
    type Item = U::Item;
    fn next(&mut self) -> Option<U::Item> {
        loop {
            if let Some(c) = &mut self.cur {
                if let Some(x) = c.next() { return Some(x); }
                self.cur = None;
            }
            match self.i.next() {
                Some(u) => {
                    if i_is_option(&u) {
                        let o: Option<U::Item> = i_cast(u);
                        if let Some(x) = o { return Some(x); }
                    } else {
                        self.cur = Some(u.into_iter());
                    }
                }
                None => return None,
            }
        }
    }
}
pub fn iter_flatten<I, U>(i: I) -> Flatten<I, U> { Flatten { i, cur: None } }

pub struct Enumerate<I> { i: I, n: usize }
impl<I: Iterator> Iterator for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.i.next() {
            Some(x) => { let n = self.n; self.n = n + 1; Some((n, x)) }
            None => None,
        }
    }
}
impl<I: DoubleEndedIterator + ExactSizeIterator> DoubleEndedIterator for Enumerate<I> {
    fn next_back(&mut self) -> Option<(usize, I::Item)> {
        let l = self.i.len();
        match self.i.next_back() {
            Some(x) => Some((self.n + l - 1, x)),
            None => None,
        }
    }
}
pub fn iter_enumerate<I>(i: I) -> Enumerate<I> { Enumerate { i, n: 0 } }

pub struct Zip<A, B> { a: A, b: B }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> {
        match self.a.next() {
            Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None },
            None => None,
        }
    }
}
pub fn iter_zip<A, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }

pub struct Chain<A, B> { a: Option<A>, b: B }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if let Some(a) = &mut self.a {
            if let Some(x) = a.next() { return Some(x); }
            self.a = None;
        }
        self.b.next()
    }
}
pub fn iter_chain<A, B: IntoIterator>(a: A, b: B) -> Chain<A, B::IntoIter> { Chain { a: Some(a), b: b.into_iter() } }

pub struct Take<I> { i: I, n: usize }
impl<I: Iterator> Iterator for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.n > 0 { self.n -= 1; self.i.next() } else { None }
    }
}
pub fn iter_take<I>(i: I, n: usize) -> Take<I> { Take { i, n } }
pub struct Skip<I> { i: I, n: usize }
impl<I: Iterator> Iterator for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let mut k = self.n;
        self.n = 0;
        while k > 0 {
            k -= 1;
            match self.i.next() { Some(_) => {} None => return None }
        }
        self.i.next()
    }
}
pub fn iter_skip<I>(i: I, n: usize) -> Skip<I> { Skip { i, n } }
pub fn skip_slots<V>(i: Slots<V>, n: usize) -> Slots<V> {
    let l = i.end - i.pos;
    let k = if n < l { n } else { l };
    Slots { pos: i.pos + k, end: i.end, v: i.v }
}
pub fn take_slots<V>(i: Slots<V>, n: usize) -> Slots<V> {
    let l = i.end - i.pos;
    let k = if n < l { n } else { l };
    Slots { pos: i.pos, end: i.pos + k, v: i.v }
}
pub fn nth_slots<'a, V: Copy, E>(i: &mut Slots<V>, n: usize) -> Option<&'a E> {
    let l = i.end - i.pos;
    if n < l { let p = i.pos + n; i.pos = p + 1; Some(i_slot(i.v, p)) } else { i.pos = i.end; None }
}
pub struct TakeWhile<I, F> { i: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done { return None; }
        match self.i.next() {
            Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None },
            None => None,
        }
    }
}
pub fn iter_take_while<I, F>(i: I, f: F) -> TakeWhile<I, F> { TakeWhile { i, f, done: false } }
pub struct SkipWhile<I, F> { i: I, f: F, on: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while let Some(x) = self.i.next() {
            if self.on || !(self.f)(&x) { self.on = true; return Some(x); }
        }
        None
    }
}
pub fn iter_skip_while<I, F>(i: I, f: F) -> SkipWhile<I, F> { SkipWhile { i, f, on: false } }
pub struct Inspect<I, F> { i: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.i.next() { Some(x) => { (self.f)(&x); Some(x) } None => None }
    }
}
pub fn iter_inspect<I, F>(i: I, f: F) -> Inspect<I, F> { Inspect { i, f } }
pub struct Scan<I, S, F> { i: I, s: S, f: F }
impl<B, I: Iterator, S, F: FnMut(&mut S, I::Item) -> Option<B>> Iterator for Scan<I, S, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.i.next() { Some(x) => (self.f)(&mut self.s, x), None => None }
    }
}
pub fn iter_scan<I, S, F>(i: I, s: S, f: F) -> Scan<I, S, F> { Scan { i, s, f } }
pub struct Fuse<I> { i: Option<I> }
impl<I: Iterator> Iterator for Fuse<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match &mut self.i {
            Some(i) => match i.next() { Some(x) => Some(x), None => { self.i = None; None } },
            None => None,
        }
    }
}
pub fn iter_fuse<I>(i: I) -> Fuse<I> { Fuse { i: Some(i) } }
pub struct Peekable<I, T> { i: I, p: Option<Option<T>> }
impl<I: Iterator> Iterator for Peekable<I, I::Item> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.p.take() { Some(x) => x, None => self.i.next() }
    }
}
pub fn iter_peekable<I: Iterator>(i: I) -> Peekable<I, I::Item> { Peekable { i, p: None } }
pub fn peekable_peek<I: Iterator>(s: &mut Peekable<I, I::Item>) -> Option<&I::Item> {
    if s.p.is_none() { s.p = Some(s.i.next()); }
    match &s.p { Some(Some(x)) => Some(x), _ => None }
}
pub struct Rev<I> { i: I }
impl<I: DoubleEndedIterator> Iterator for Rev<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.i.next_back() }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> {
    fn next_back(&mut self) -> Option<I::Item> { self.i.next() }
}
pub fn iter_rev<I>(i: I) -> Rev<I> { Rev { i } }
pub struct StepBy<I> { i: I, n: usize, first: bool }
impl<I: Iterator> Iterator for StepBy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.first { self.first = false; self.i.next() } else { self.i.nth(self.n) }
    }
}
pub fn iter_step_by<I>(i: I, n: usize) -> StepBy<I> {
    if n == 0 { i_panic() }
    StepBy { i, n: n - 1, first: true }
}
/// (a..b).step_by(n)
pub struct StepRange { pub a: usize, pub b: usize, pub n: usize }
impl Iterator for StepRange {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.a < self.b {
            let p = self.a;
            self.a = p + self.n;
            Some(p)
        } else { None }
    }
}
pub fn step_range(r: core::ops::Range<usize>, n: usize) -> StepRange {
    if n == 0 { i_panic() }
    StepRange { a: r.start, b: r.end, n }
}
pub struct Cloned<I> { i: I }
impl<'a, T: Clone + 'a, I: Iterator<Item = &'a T>> Iterator for Cloned<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.i.next() { Some(x) => Some(x.clone()), None => None }
    }
}
pub fn iter_cloned<I>(i: I) -> Cloned<I> { Cloned { i } }
pub fn iter_copied<I>(i: I) -> Cloned<I> { Cloned { i } }
pub fn iter_by_ref<I>(i: &mut I) -> &mut I { i }
pub fn iter_into_iter<I>(i: I) -> I { i }

// ---------- consumers ----------
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut i: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = i.next() { acc = f(acc, x); }
    acc
}
pub fn iter_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut i: I, mut f: F) -> Option<I::Item> {
    match i.next() {
        Some(mut acc) => {
            while let Some(x) = i.next() { acc = f(acc, x); }
            Some(acc)
        }
        None => None,
    }
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut i: I, mut f: F) {
    while let Some(x) = i.next() { f(x); }
}
pub fn iter_try_fold<I: Iterator, B, R: Try1<B>, F: FnMut(B, I::Item) -> R>(i: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = i.next() {
        match f(acc, x).branch1() {
            Ok(v) => acc = v,
            Err(r) => return r,
        }
    }
    R::output1(acc)
}
pub fn iter_try_for_each<I: Iterator, R: Try1<()>, F: FnMut(I::Item) -> R>(i: &mut I, mut f: F) -> R {
    while let Some(x) = i.next() {
        match f(x).branch1() {
            Ok(_) => {}
            Err(r) => return r,
        }
    }
    R::output1(())
}
pub fn iter_count<I: Iterator>(mut i: I) -> usize {
    let mut n = 0;
    while let Some(_) = i.next() { n += 1; }
    n
}
pub fn iter_last<I: Iterator>(mut i: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = i.next() { l = Some(x); }
    l
}
pub fn iter_nth<I: Iterator>(i: &mut I, n: usize) -> Option<I::Item> {
    let mut k = n;
    while k > 0 {
        k -= 1;
        match i.next() { Some(_) => {} None => return None }
    }
    i.next()
}
pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = i.next() {
        if f(x) { return Some(n); }
        n += 1;
    }
    None
}
pub fn iter_rposition<I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> {
    let mut n = i.len();
    while let Some(x) = i.next_back() {
        n -= 1;
        if f(x) { return Some(n); }
    }
    None
}
pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = i.next() {
        if f(&x) { return Some(x); }
    }
    None
}
pub fn iter_rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = i.next_back() {
        if f(&x) { return Some(x); }
    }
    None
}
pub fn iter_find_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(i: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = i.next() {
        if let Some(y) = f(x) { return Some(y); }
    }
    None
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool {
    while let Some(x) = i.next() {
        if f(x) { return true; }
    }
    false
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool {
    while let Some(x) = i.next() {
        if !f(x) { return false; }
    }
    true
}
pub fn iter_eq<I: Iterator, J: IntoIterator>(mut a: I, b: J) -> bool
where I::Item: PartialEq<J::Item> {
    let mut b = b.into_iter();
    loop {
        match a.next() {
            None => return b.next().is_none(),
            Some(x) => match b.next() {
                None => return false,
                Some(y) => if x != y { return false; },
            },
        }
    }
}
pub fn iter_ne<I: Iterator, J: IntoIterator>(a: I, b: J) -> bool
where I::Item: PartialEq<J::Item> { !iter_eq(a, b) }
pub fn iter_size_hint<I>(i: &I) -> (usize, Option<usize>) { (0, None) }
pub fn vec_collect<V, I: Iterator>(mut i: I) -> V {
    let mut v: V = i_vec_new();
    while let Some(x) = i.next() { i_vec_push(&mut v, x); }
    v
}
pub fn vec_extend<V, I: IntoIterator>(v: &mut V, i: I) {
    let mut i = i.into_iter();
    while let Some(x) = i.next() { i_vec_push(v, x); }
}
pub fn iter_min<I: Iterator>(i: I) -> Option<I::Item> where I::Item: Ord { iter_reduce(i, |a, b| if b < a { b } else { a }) }
pub fn iter_max<I: Iterator>(i: I) -> Option<I::Item> where I::Item: Ord { iter_reduce(i, |a, b| if b < a { a } else { b }) }
pub fn iter_min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> core::cmp::Ordering>(i: I, mut f: F) -> Option<I::Item> {
    iter_reduce(i, |a, b| if f(&b, &a) as isize == -1 { b } else { a })
}
pub fn iter_max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> core::cmp::Ordering>(i: I, mut f: F) -> Option<I::Item> {
    iter_reduce(i, |a, b| if f(&b, &a) as isize == -1 { a } else { b })
}
pub fn iter_min_by_key<I: Iterator, K: Ord, F: FnMut(&I::Item) -> K>(i: I, mut f: F) -> Option<I::Item> {
    iter_reduce(i, |a, b| if f(&b) < f(&a) { b } else { a })
}
pub fn iter_max_by_key<I: Iterator, K: Ord, F: FnMut(&I::Item) -> K>(i: I, mut f: F) -> Option<I::Item> {
    iter_reduce(i, |a, b| if f(&b) < f(&a) { a } else { b })
}
pub fn iter_sum<I: Iterator>(mut i: I) -> usize {
    let mut n = 0;
    while let Some(x) = i.next() { n += i_num(x); }
    n
}
pub fn slice_contains<S: IntoIterator, T>(s: S, x: &T) -> bool where S::Item: core::ops::Deref, <S::Item as core::ops::Deref>::Target: PartialEq<T> + Sized {
    let mut i = s.into_iter();
    while let Some(y) = i.next() { if *y == *x { return true; } }
    false
}
pub struct Repeat<T> { pub x: T }
impl<T: Clone> Iterator for Repeat<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { Some(self.x.clone()) }
}
pub fn iter_repeat<T>(x: T) -> Repeat<T> { Repeat { x } }
pub struct RepeatN<T> { pub x: T, pub n: usize }
impl<T: Clone> Iterator for RepeatN<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.n > 0 { self.n = self.n - 1; Some(self.x.clone()) } else { None }
    }
}
pub fn iter_repeat_n<T>(x: T, n: usize) -> RepeatN<T> { RepeatN { x, n } }

// ---------- the element cell (ConcurrentOption) ----------
pub fn opt_map<O, T, U, F: FnOnce(&T) -> U>(o: &O, f: F) -> Option<U> {
    if i_acquire(o) {
        let r = f(i_val(o));
        i_release(o);
        Some(r)
    } else { None }
}
pub fn opt_map_or<O, T, U, F: FnOnce(&T) -> U>(o: &O, default: U, f: F) -> U {
    if i_acquire(o) {
        let r = f(i_val(o));
        i_release(o);
        r
    } else { default }
}
pub fn opt_map_or_else<O, T, U, D: FnOnce() -> U, F: FnOnce(&T) -> U>(o: &O, default: D, f: F) -> U {
    if i_acquire(o) {
        let r = f(i_val(o));
        i_release(o);
        r
    } else { default() }
}
pub fn opt_is_some_and<O, T, F: FnOnce(&T) -> bool>(o: &O, f: F) -> bool {
    if i_acquire(o) {
        let r = f(i_val(o));
        i_release(o);
        r
    } else { false }
}
pub fn opt_and_then<O, T, U, V: Into<Option<U>>, F: FnOnce(&T) -> V>(o: &O, f: F) -> V {
    if i_acquire(o) {
        let r = f(i_val(o));
        i_release(o);
        r
    } else { i_unknown() }
}
pub fn opt_clone_into_option<O, T: Clone>(o: &O) -> Option<T> {
    if i_acquire(o) {
        let v: &T = i_val(o);
        let r = v.clone();
        i_release(o);
        Some(r)
    } else { None }
}
pub fn opt_update_if_some<O, T, F: FnMut(&mut T)>(o: &O, mut f: F) -> bool {
    if i_acquire(o) {
        f(i_val_mut(o));
        i_release(o);
        true
    } else { false }
}
pub fn opt_set_some<O, T>(o: &O, value: T) -> bool {
    if i_acquire(o) {
        i_write(o, value);
        i_release(o);
        true
    } else { false }
}
pub fn opt_replace<O, T>(o: &O, value: T) -> Option<T> {
    if i_acquire(o) {
        let old = i_read(o);
        i_write(o, value);
        i_release(o);
        Some(old)
    } else { None }
}
pub fn opt_take<O, T>(o: &O) -> Option<T> {
    if i_acquire(o) {
        let old = i_read(o);
        i_release_none(o);
        Some(old)
    } else { None }
}
pub fn opt_take_if<O, T, F: FnOnce(&mut T) -> bool>(o: &O, f: F) -> Option<T> {
    if i_acquire(o) {
        if f(i_val_mut(o)) {
            let old = i_read(o);
            i_release_none(o);
            Some(old)
        } else {
            i_release(o);
            None
        }
    } else { None }
}
pub fn opt_initialize_unchecked<O, T>(o: &O, value: T) {
    i_event("init", (o, &value));
    i_write(o, value);
    i_set_present(o);
}
pub fn opt_initialize_if_none<O, T>(o: &O, value: T) -> bool {
    if i_acquire_none(o) {
        i_event("init", (o, &value));
        i_write(o, value);
        i_set_present(o);
        i_release(o);
        true
    } else { false }
}
pub fn opt_get_raw<O, T>(o: &O) -> Option<*const T> {
    if i_acquire(o) { i_release(o); Some(i_val_ptr(o)) } else { None }
}
pub fn opt_get_raw_mut<O, T>(o: &O) -> Option<*mut T> {
    if i_acquire(o) { i_release(o); Some(i_val_ptr_mut(o)) } else { None }
}
pub fn opt_as_ref<O, T>(o: &O) -> Option<&T> {
    if i_acquire(o) { i_release(o); Some(i_val(o)) } else { None }
}
pub fn opt_filter<O, T, F: FnOnce(&T) -> bool>(o: &O, f: F) -> Option<&T> {
    if i_acquire(o) {
        let k = f(i_val(o));
        i_release(o);
        if k { Some(i_val(o)) } else { None }
    } else { None }
}
pub fn opt_iter<O, T>(o: &O) -> OptIter<&T> { OptIter { o: opt_as_ref(o) } }
pub fn opt_get_raw_with_order<O, T, Q>(o: &O, ord: Q) -> Option<*const T> {
    if i_present(o, ord) { Some(i_val_ptr(o)) } else { None }
}
pub fn opt_get_raw_mut_with_order<O, T, Q>(o: &O, ord: Q) -> Option<*mut T> {
    if i_present(o, ord) { Some(i_val_ptr_mut(o)) } else { None }
}
pub fn opt_as_ref_with_order<O, T, Q>(o: &O, ord: Q) -> Option<&T> {
    if i_present(o, ord) { Some(i_val(o)) } else { None }
}
pub fn opt_iter_with_order<O, T, Q>(o: &O, ord: Q) -> OptIter<&T> { OptIter { o: opt_as_ref_with_order(o, ord) } }
pub fn opt_clone_with_order<O, T: Clone, Q>(o: &O, ord: Q) -> Option<T> {
    if i_present(o, ord) { let v: &T = i_val(o); Some(v.clone()) } else { None }
}
pub fn opt_eq_with_order<O, T: PartialEq, Q: Copy>(o: &O, p: &O, ord: Q) -> bool {
    let a = i_present(o, ord);
    let b = i_present(p, ord);
    if a && b {
        let x: &T = i_val(o);
        let y: &T = i_val(p);
        x == y
    } else { a == b }
}
pub fn opt_is_some<O>(o: &O) -> bool { i_presence_relaxed(o) }
pub fn opt_is_none<O>(o: &O) -> bool { !i_presence_relaxed(o) }
pub fn opt_is_some_with_order<O, Q>(o: &O, ord: Q) -> bool { i_present_flag(o, ord) }
pub fn opt_is_none_with_order<O, Q>(o: &O, ord: Q) -> bool { !i_present_flag(o, ord) }
// exclusive or by value
pub fn opt_exclusive_take<O, T>(o: &mut O) -> Option<T> {
    if i_presence_excl(o) { let v = i_read(o); i_set_absent(o); Some(v) } else { None }
}
pub fn opt_exclusive_take_if<O, T, F: FnOnce(&mut T) -> bool>(o: &mut O, f: F) -> Option<T> {
    if i_presence_excl(o) {
        if f(i_val_mut(o)) { let v = i_read(o); i_set_absent(o); Some(v) } else { None }
    } else { None }
}
pub fn opt_exclusive_as_mut<O, T>(o: &mut O) -> Option<&mut T> {
    if i_presence_excl(o) { Some(i_val_mut(o)) } else { None }
}
pub fn opt_exclusive_replace<O, T>(o: &mut O, value: T) -> Option<T> {
    if i_presence_excl(o) { let v = i_read(o); i_write(o, value); Some(v) } else { i_write(o, value); i_set_present(o); None }
}
pub fn opt_unwrap<O, T>(o: O) -> T {
    if i_presence_excl(&o) { let v = i_read(&o); i_event("moved_out", &o); core::mem::forget(o); v } else { i_panic() }
}
pub fn opt_into_option<O, T>(o: O) -> Option<T> {
    if i_presence_excl(&o) { let v = i_read(&o); i_event("moved_out", &o); core::mem::forget(o); Some(v) } else { None }
}
pub fn opt_unwrap_or<O, T>(o: O, d: T) -> T {
    if i_presence_excl(&o) { let v = i_read(&o); i_event("moved_out", &o); core::mem::forget(o); v } else { d }
}

// ---------- plain comparison ----------
pub fn ref_eq<A: PartialEq<B>, B>(a: &&A, b: &&B) -> bool { **a == **b }
pub trait Try1<B>: Sized {
    /// Ok: continue with the output; Err: the residual in the same type
    fn branch1(self) -> Result<B, Self>;
    fn output1(b: B) -> Self;
}
impl<B> Try1<B> for Option<B> {
    fn branch1(self) -> Result<B, Self> { match self { Some(x) => Ok(x), None => Err(None) } }
    fn output1(b: B) -> Self { Some(b) }
}
impl<B, E> Try1<B> for Result<B, E> {
    fn branch1(self) -> Result<B, Self> { match self { Ok(x) => Ok(x), Err(e) => Err(Err(e)) } }
    fn output1(b: B) -> Self { Ok(b) }
}
impl<B, C> Try1<C> for ControlFlow<B, C> {
    fn branch1(self) -> Result<C, Self> { match self { ControlFlow::Continue(x) => Ok(x), ControlFlow::Break(e) => Err(ControlFlow::Break(e)) } }
    fn output1(b: C) -> Self { ControlFlow::Continue(b) }
}
