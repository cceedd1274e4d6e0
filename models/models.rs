// Reference bodies for iterator combinators, analysed together with the
// repository (never executed).  Names are looked up by /verif/engine/lib.py.
#![allow(dead_code)]
use std::collections::BTreeMap;
pub struct MapIt<I, F> { i: I, f: F }
impl<I: Iterator, B, F: FnMut(I::Item) -> B> Iterator for MapIt<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.i.next() { Some(x) => Some((self.f)(x)), None => None }
    }
}
pub struct EnumIt<I> { i: I, n: usize }
impl<I: Iterator> Iterator for EnumIt<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.i.next() { Some(x) => { let n = self.n; self.n = unsafe { n.unchecked_add(1) }; Some((n, x)) } None => None }
    }
}
pub struct PeekIt<I: Iterator> { i: I, p: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for PeekIt<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.p.take() { Some(v) => v, None => self.i.next() }
    }
}
pub fn drive_peek<I: Iterator>(s: &mut PeekIt<I>) -> Option<&I::Item> {
    if s.p.is_none() { s.p = Some(s.i.next()); }
    match s.p.as_ref() { Some(v) => v.as_ref(), None => None }
}
pub fn drive_next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(s: &mut PeekIt<I>, f: F) -> Option<I::Item> {
    match s.next() {
        Some(x) => if f(&x) { Some(x) } else { s.p = Some(Some(x)); None },
        None => { s.p = Some(None); None }
    }
}
pub struct FilterIt<I, F> { i: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for FilterIt<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop {
            match self.i.next() {
                Some(x) => if (self.f)(&x) { return Some(x); },
                None => return None,
            }
        }
    }
}
pub struct FilterMapIt<I, F> { i: I, f: F }
impl<I: Iterator, B, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMapIt<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        loop {
            match self.i.next() {
                Some(x) => if let Some(y) = (self.f)(x) { return Some(y); },
                None => return None,
            }
        }
    }
}
pub struct SkipIt<I> { i: I, n: usize }
impl<I: Iterator> Iterator for SkipIt<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while self.n > 0 { self.n = self.n.wrapping_sub(1); if self.i.next().is_none() { return None; } }
        self.i.next()
    }
}
pub struct TakeIt<I> { i: I, n: usize }
impl<I: Iterator> Iterator for TakeIt<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.n == 0 { return None; }
        self.n = self.n.wrapping_sub(1);
        self.i.next()
    }
}
pub struct ZipIt<A, B> { a: A, b: B }
impl<A: Iterator, B: Iterator> Iterator for ZipIt<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> {
        match self.a.next() {
            None => None,
            Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None },
        }
    }
}
pub struct ChainIt<A, B> { a: A, b: B, second: bool }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for ChainIt<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if !self.second {
            match self.a.next() { Some(x) => return Some(x), None => self.second = true }
        }
        self.b.next()
    }
}
pub struct TakeWhileIt<I, F> { i: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhileIt<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.i.next() { Some(x) => if (self.f)(&x) { Some(x) } else { None }, None => None }
    }
}
pub struct SkipWhileIt<I, F> { i: I, f: F, started: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhileIt<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop {
            match self.i.next() {
                Some(x) => { if self.started || !(self.f)(&x) { self.started = true; return Some(x); } }
                None => return None,
            }
        }
    }
}
pub struct MapWhileIt<I, F> { i: I, f: F }
impl<I: Iterator, B, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhileIt<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.i.next() { Some(x) => (self.f)(x), None => None }
    }
}
pub struct ClonedIt<I> { i: I }
impl<'a, T: 'a + Clone, I: Iterator<Item = &'a T>> Iterator for ClonedIt<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.i.next() { Some(x) => Some(x.clone()), None => None }
    }
}
pub fn collect_vec<I: Iterator>(mut i: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = i.next() { v.push(x); }
    v
}
pub fn extend_vec<I: Iterator>(v: &mut Vec<I::Item>, mut i: I) {
    while let Some(x) = i.next() { v.push(x); }
}
pub fn collect_result_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut i: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = i.next() {
        match x { Ok(y) => v.push(y), Err(e) => return Err(e) }
    }
    Ok(v)
}
pub fn collect_map<K: Ord, V, I: Iterator<Item = (K, V)>>(mut i: I) -> BTreeMap<K, V> {
    let mut m = BTreeMap::new();
    while let Some((k, v)) = i.next() { m.insert(k, v); }
    m
}
pub fn collect_result_map<K: Ord, V, E, I: Iterator<Item = Result<(K, V), E>>>(mut i: I) -> Result<BTreeMap<K, V>, E> {
    let mut m = BTreeMap::new();
    while let Some(x) = i.next() {
        match x { Ok((k, v)) => { m.insert(k, v); } Err(e) => return Err(e) }
    }
    Ok(m)
}
pub fn drive_for_each<I: Iterator, F: FnMut(I::Item)>(mut i: I, mut f: F) {
    while let Some(x) = i.next() { f(x); }
}
pub fn drive_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut i: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = i.next() { acc = f(acc, x); }
    acc
}
pub fn drive_try_fold_res<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(i: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = i.next() {
        match f(acc, x) { Ok(y) => acc = y, Err(e) => return Err(e) }
    }
    Ok(acc)
}
pub fn drive_try_fold_opt<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(i: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    while let Some(x) = i.next() {
        match f(acc, x) { Some(y) => acc = y, None => return None }
    }
    Some(acc)
}
pub fn drive_try_for_each_res<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(i: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = i.next() {
        match f(x) { Ok(_) => {}, Err(e) => return Err(e) }
    }
    Ok(())
}
pub fn drive_any<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool {
    while let Some(x) = i.next() { if f(x) { return true; } }
    false
}
pub fn drive_all<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool {
    while let Some(x) = i.next() { if !f(x) { return false; } }
    true
}
pub fn drive_find<I: Iterator, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = i.next() { if f(&x) { return Some(x); } }
    None
}
pub fn drive_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(i: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = i.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn drive_position<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0usize;
    while let Some(x) = i.next() { if f(x) { return Some(n); } n = n.wrapping_add(1); }
    None
}
pub fn drive_count<I: Iterator>(mut i: I) -> usize {
    let mut n = 0usize;
    while let Some(_) = i.next() { n = n.wrapping_add(1); }
    n
}
pub fn drive_last<I: Iterator>(mut i: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = i.next() { r = Some(x); }
    r
}
pub fn drive_sum<I: Iterator<Item = u64>>(mut i: I) -> u64 {
    let mut n = 0u64;
    while let Some(x) = i.next() { n = n + x; }
    n
}
pub fn drive_cmp<I: Iterator, J: Iterator<Item = I::Item>>(mut i: I, mut j: J) -> std::cmp::Ordering where I::Item: Ord {
    loop {
        match i.next() {
            None => return if j.next().is_none() { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Less },
            Some(x) => match j.next() {
                None => return std::cmp::Ordering::Greater,
                Some(y) => match x.cmp(&y) { std::cmp::Ordering::Equal => {}, o => return o },
            },
        }
    }
}
pub fn drive_eq<I: Iterator, J: Iterator<Item = I::Item>>(mut i: I, mut j: J) -> bool where I::Item: PartialEq {
    loop {
        match i.next() {
            None => return j.next().is_none(),
            Some(x) => match j.next() {
                None => return false,
                Some(y) => if x != y { return false; },
            },
        }
    }
}
pub struct ChunksIt<'a, T> { s: &'a [T], n: usize, pos: usize }
impl<'a, T> Iterator for ChunksIt<'a, T> {
    type Item = &'a [T];
    fn next(&mut self) -> Option<&'a [T]> {
        if self.pos >= self.s.len() { return None; }
        let a = self.pos;
        let b = core::cmp::min(unsafe { a.unchecked_add(self.n) }, self.s.len());
        self.pos = b;
        Some(&self.s[a..b])
    }
}
pub struct StepRange { a: usize, b: usize, n: usize }
impl Iterator for StepRange {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.a >= self.b { return None; }
        let x = self.a;
        self.a = unsafe { x.unchecked_add(self.n) };
        Some(x)
    }
}
