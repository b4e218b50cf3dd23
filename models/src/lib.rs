//! Models of library functions, given as plain Rust so that the analysis can look through them.
//!
//! `policy.txt` maps library functions to the functions here; the driver hands the analysis the
//! body of the model, with the type arguments of the call, instead of an opaque call.
//! Struct fields are in the declaration order of the types they stand for.
#![allow(unused, incomplete_features)]
#![feature(specialization, unboxed_closures, fn_traits)]

/// Operations the analysis interprets itself.
pub mod prim {
    pub fn coll_new<B>() -> B { loop {} }
    pub fn coll_add<B, X>(b: &mut B, x: X) { loop {} }
    pub fn nth<V, X>(v: &V) -> Option<X> { loop {} }
    pub fn retain_remove<V, X>(v: &mut V, x: X) { loop {} }
    pub fn succ<A>(a: A) -> A { loop {} }
    pub fn opaque<A, R>(a: A) -> R { loop {} }
    pub fn add<A, B>(a: A, b: B) -> A { loop {} }
    pub fn mul<A, B>(a: A, b: B) -> A { loop {} }
    pub fn replace<T>(a: &mut T, b: T) -> T { loop {} }
    pub fn join_handle<T>(a: T) -> T { loop {} }
    pub fn nondet() -> bool { loop {} }
    pub fn entry_vacant<E>(e: &E) -> bool { loop {} }
    pub fn entry_get<E, R>(e: E) -> R { loop {} }
    pub fn entry_put<E, V, R>(e: E, v: V) -> R { loop {} }
}
use prim::*;

pub struct MapS<I, F> { iter: I, f: F }
pub struct OneS<I> { iter: I }
pub struct EnumS<I> { iter: I, count: usize }
pub struct TakeS<I> { iter: I, n: usize }
pub struct FlagS<I, P> { iter: I, flag: bool, predicate: P }
pub struct ChainS<A, B> { a: Option<A>, b: Option<B> }
pub struct ZipS<A, B> { a: A, b: B }
pub struct PeekS<I: Iterator> { iter: I, peeked: Option<Option<I::Item>> }
pub struct StepS<I> { iter: I, step: usize, first: bool }
pub struct RangeS<A> { start: A, end: A }
pub struct RangeIncS<A> { start: A, end: A, exhausted: bool }
pub struct Cont<T, A> { t: T, a: A }
pub struct Ctx<E, C> { e: E, c: C }
pub struct Ent<'a, K, V, A> { e: &'a (K, V, A) }

// ---- iterator adapters: next -------------------------------------------------------------
pub trait OptT { type T; fn opt(self) -> Option<Self::T>; }
impl<T> OptT for Option<T> { type T = T; fn opt(self) -> Option<T> { self } }
pub trait RefT { type T; fn cl(self) -> Self::T; }
impl<'a, T: Clone> RefT for &'a T { type T = T; fn cl(self) -> T { self.clone() } }
pub fn map_next<I: Iterator, F: FnMut<(I::Item,)>>(m: &mut MapS<I, F>) -> Option<F::Output> {
    match m.iter.next() { Some(x) => Some((m.f)(x)), None => None }
}
pub fn filter_next<I: Iterator, F: FnMut(&I::Item) -> bool>(m: &mut MapS<I, F>) -> Option<I::Item> {
    loop {
        match m.iter.next() {
            Some(x) => { if (m.f)(&x) { return Some(x); } }
            None => return None,
        }
    }
}
pub fn filter_map_next<I: Iterator, F: FnMut<(I::Item,)>>(m: &mut MapS<I, F>) -> Option<<F::Output as OptT>::T> where F::Output: OptT {
    loop {
        match m.iter.next() {
            Some(x) => { if let Some(y) = (m.f)(x).opt() { return Some(y); } }
            None => return None,
        }
    }
}
pub fn map_while_next<I: Iterator, F: FnMut<(I::Item,)>>(m: &mut MapS<I, F>) -> Option<<F::Output as OptT>::T> where F::Output: OptT {
    match m.iter.next() { Some(x) => (m.f)(x).opt(), None => None }
}
pub fn inspect_next<I: Iterator, F: FnMut(&I::Item)>(m: &mut MapS<I, F>) -> Option<I::Item> {
    match m.iter.next() { Some(x) => { (m.f)(&x); Some(x) } None => None }
}
pub fn enumerate_next<I: Iterator>(m: &mut EnumS<I>) -> Option<(usize, I::Item)> {
    match m.iter.next() {
        Some(x) => { let i = m.count; m.count = i + 1; Some((i, x)) }
        None => None,
    }
}
pub fn take_next<I: Iterator>(m: &mut TakeS<I>) -> Option<I::Item> {
    if m.n != 0 { m.n -= 1; m.iter.next() } else { None }
}
pub fn skip_next<I: Iterator>(m: &mut TakeS<I>) -> Option<I::Item> {
    while m.n > 0 {
        m.n -= 1;
        if let None = m.iter.next() { return None; }
    }
    m.iter.next()
}
pub fn take_while_next<I: Iterator, P: FnMut(&I::Item) -> bool>(m: &mut FlagS<I, P>) -> Option<I::Item> {
    if m.flag { return None; }
    match m.iter.next() {
        Some(x) => { if (m.predicate)(&x) { Some(x) } else { m.flag = true; None } }
        None => None,
    }
}
pub fn skip_while_next<I: Iterator, P: FnMut(&I::Item) -> bool>(m: &mut FlagS<I, P>) -> Option<I::Item> {
    loop {
        match m.iter.next() {
            Some(x) => {
                if m.flag || !(m.predicate)(&x) { m.flag = true; return Some(x); }
            }
            None => return None,
        }
    }
}
pub fn cloned_next<I: Iterator>(m: &mut OneS<I>) -> Option<<I::Item as RefT>::T> where I::Item: RefT {
    match m.iter.next() { Some(x) => Some(x.cl()), None => None }
}
pub fn chain_next<A: Iterator, B: Iterator<Item = A::Item>>(m: &mut ChainS<A, B>) -> Option<A::Item> {
    if let Some(a) = &mut m.a {
        match a.next() { Some(x) => return Some(x), None => {} }
        m.a = None;
    }
    if let Some(b) = &mut m.b { b.next() } else { None }
}
pub fn zip_next<A: Iterator, B: Iterator>(m: &mut ZipS<A, B>) -> Option<(A::Item, B::Item)> {
    match m.a.next() {
        Some(x) => match m.b.next() { Some(y) => Some((x, y)), None => None },
        None => None,
    }
}
pub fn peekable_next<I: Iterator>(m: &mut PeekS<I>) -> Option<I::Item> {
    match replace(&mut m.peeked, None) { Some(v) => v, None => m.iter.next() }
}
pub fn peekable_peek<I: Iterator>(m: &mut PeekS<I>) -> Option<&I::Item> {
    if m.peeked.is_none() { m.peeked = Some(m.iter.next()); }
    match &m.peeked { Some(Some(x)) => Some(x), _ => None }
}
pub fn box_next<I: Iterator + ?Sized, A>(b: &mut Box<I>) -> Option<I::Item> { (**b).next() }
pub fn range_next<A: PartialOrd + Copy>(r: &mut RangeS<A>) -> Option<A> {
    if r.start < r.end { let i = r.start; r.start = succ(i); Some(i) } else { None }
}
pub fn range_inc_next<A: PartialOrd + Copy>(r: &mut RangeIncS<A>) -> Option<A> {
    if !r.exhausted && r.start <= r.end {
        let i = r.start;
        if i < r.end { r.start = succ(i); } else { r.exhausted = true; }
        Some(i)
    } else { None }
}
pub fn fuse_next<I: Iterator>(m: &mut OneS<Option<I>>) -> Option<I::Item> {
    match &mut m.iter {
        Some(i) => match i.next() { Some(x) => Some(x), None => { m.iter = None; None } },
        None => None,
    }
}
pub struct FlatMapS<I, F, U> { iter: I, f: F, cur: Option<U> }
pub struct FlattenS<I, U> { iter: I, cur: Option<U> }
pub fn flat_map_new<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(iter: I, f: F) -> FlatMapS<I, F, U::IntoIter> {
    FlatMapS { iter, f, cur: None }
}
pub fn flat_map_next<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(m: &mut FlatMapS<I, F, U::IntoIter>) -> Option<U::Item> {
    loop {
        if let Some(c) = &mut m.cur {
            match c.next() { Some(x) => return Some(x), None => {} }
            m.cur = None;
        }
        match m.iter.next() {
            Some(x) => { m.cur = Some((m.f)(x).into_iter()); }
            None => return None,
        }
    }
}
pub fn flatten_new<I: Iterator>(iter: I) -> FlattenS<I, <I::Item as IntoIterator>::IntoIter> where I::Item: IntoIterator {
    FlattenS { iter, cur: None }
}
pub fn flatten_next<I: Iterator>(m: &mut FlattenS<I, <I::Item as IntoIterator>::IntoIter>) -> Option<<I::Item as IntoIterator>::Item> where I::Item: IntoIterator {
    loop {
        if let Some(c) = &mut m.cur {
            match c.next() { Some(x) => return Some(x), None => {} }
            m.cur = None;
        }
        match m.iter.next() {
            Some(x) => { m.cur = Some(x.into_iter()); }
            None => return None,
        }
    }
}
pub fn successors_opaque() {}
pub struct ProgS<I, P> { it: I, progress: P }
pub struct NoProgress;
pub fn progress_with<I, P>(it: I, progress: P) -> ProgS<I, P> { ProgS { it, progress } }
pub fn progress_with1<I>(it: I) -> OneS<I> { OneS { iter: it } }
pub fn progress_next<I: Iterator>(m: &mut OneS<I>) -> Option<I::Item> { m.iter.next() }

// ---- iterator consumers -------------------------------------------------------------------
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    loop { match it.next() { Some(x) => f(x), None => break } }
}
pub trait TryLike { type Out; type Res; }
pub fn try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Tr>(it: &mut I, mut f: F) -> R {
    loop {
        match it.next() {
            Some(x) => { let r = f(x); if !r.ok() { return r; } }
            None => return R::unit(),
        }
    }
}
pub trait Tr { fn ok(&self) -> bool; fn unit() -> Self; }
impl<R> Tr for R { default fn ok(&self) -> bool { nondet() } default fn unit() -> Self { opaque(()) } }
impl<E> Tr for Result<(), E> {
    fn ok(&self) -> bool { match self { Ok(_) => true, Err(_) => false } }
    fn unit() -> Self { Ok(()) }
}
impl Tr for Option<()> {
    fn ok(&self) -> bool { match self { Some(_) => true, None => false } }
    fn unit() -> Self { Some(()) }
}
pub trait TrF<B> { fn get(self) -> Result<B, Self> where Self: Sized; fn of(b: B) -> Self; }
impl<R, B> TrF<B> for R {
    default fn get(self) -> Result<B, Self> { if nondet() { Ok(opaque(self)) } else { Err(self) } }
    default fn of(b: B) -> Self { opaque(b) }
}
impl<B, E> TrF<B> for Result<B, E> {
    fn get(self) -> Result<B, Self> { match self { Ok(b) => Ok(b), Err(e) => Err(Err(e)) } }
    fn of(b: B) -> Self { Ok(b) }
}
impl<B> TrF<B> for Option<B> {
    fn get(self) -> Result<B, Self> { match self { Some(b) => Ok(b), None => Err(None) } }
    fn of(b: B) -> Self { Some(b) }
}
pub fn try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: TrF<B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    loop {
        match it.next() {
            Some(x) => match f(acc, x).get() { Ok(b) => acc = b, Err(r) => return r },
            None => return R::of(acc),
        }
    }
}
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop { match it.next() { Some(x) => acc = f(acc, x), None => return acc } }
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop { match it.next() { Some(x) => { if f(x) { return true; } } None => return false } }
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop { match it.next() { Some(x) => { if !f(x) { return false; } } None => return true } }
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    loop { match it.next() { Some(x) => { if f(&x) { return Some(x); } } None => return None } }
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    loop { match it.next() { Some(x) => { if let Some(y) = f(x) { return Some(y); } } None => return None } }
}
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    loop { match it.next() { Some(x) => { if f(x) { return Some(i); } i += 1; } None => return None } }
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    loop { match it.next() { Some(_) => n += 1, None => return n } }
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    loop { match it.next() { Some(x) => l = Some(x), None => return l } }
}
pub fn sum<I: Iterator, S>(mut it: I) -> S {
    let mut n: S = opaque(0);
    loop { match it.next() { Some(x) => n = add(n, x), None => return n } }
}
pub fn max<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
    let mut m: Option<I::Item> = None;
    loop {
        match it.next() {
            Some(x) => m = match m { None => Some(x), Some(y) => Some(std::cmp::max(y, x)) },
            None => return m,
        }
    }
}
pub fn min<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
    let mut m: Option<I::Item> = None;
    loop {
        match it.next() {
            Some(x) => m = match m { None => Some(x), Some(y) => Some(std::cmp::min(y, x)) },
            None => return m,
        }
    }
}
pub trait Coll<X>: Sized { fn run<I: Iterator<Item = X>>(it: I) -> Self; }
impl<B, X> Coll<X> for B {
    default fn run<I: Iterator<Item = X>>(mut it: I) -> B {
        let mut b = coll_new::<B>();
        loop { match it.next() { Some(x) => coll_add(&mut b, x), None => return b } }
    }
}
impl<C, E, X> Coll<Result<X, E>> for Result<C, E> {
    fn run<I: Iterator<Item = Result<X, E>>>(mut it: I) -> Self {
        let mut b = coll_new::<C>();
        loop {
            match it.next() {
                Some(Ok(x)) => coll_add(&mut b, x),
                Some(Err(e)) => return Err(e),
                None => return Ok(b),
            }
        }
    }
}
impl<C, X> Coll<Option<X>> for Option<C> {
    fn run<I: Iterator<Item = Option<X>>>(mut it: I) -> Self {
        let mut b = coll_new::<C>();
        loop {
            match it.next() { Some(Some(x)) => coll_add(&mut b, x), Some(None) => return None, None => return Some(b) }
        }
    }
}
pub fn collect<I: Iterator, B>(it: I) -> B { <B as Coll<I::Item>>::run(it) }
pub fn from_iter<B, X, T: IntoIterator<Item = X>>(it: T) -> B { <B as Coll<X>>::run(it.into_iter()) }
pub fn extend<B, X, T: IntoIterator<Item = X>>(b: &mut B, it: T) {
    let mut it = it.into_iter();
    loop { match it.next() { Some(x) => coll_add(b, x), None => break } }
}

// ---- collections --------------------------------------------------------------------------
pub fn retain<T, A, F: FnMut(&T) -> bool>(v: &mut Cont<T, A>, mut f: F) {
    loop {
        match nth::<Cont<T, A>, &T>(v) {
            Some(x) => { if !f(x) { retain_remove(v, x); } }
            None => break,
        }
    }
}
pub fn retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Cont<T, A>, mut f: F) {
    loop {
        match nth::<Cont<T, A>, &mut T>(v) {
            Some(x) => { if !f(x) { retain_remove(v, ()); } }
            None => break,
        }
    }
}

pub fn or_insert_with<'a, K, V, A, F: FnOnce() -> V>(e: Ent<'a, K, V, A>, f: F) -> &'a mut V {
    if entry_vacant(&e) { entry_put(e, f()) } else { entry_get(e) }
}
pub fn or_insert_with_key<'a, K, V, A, F: FnOnce(&K) -> V>(e: Ent<'a, K, V, A>, f: F) -> &'a mut V {
    if entry_vacant(&e) { let k: K = opaque(()); entry_put(e, f(&k)) } else { entry_get(e) }
}
pub fn and_modify<'a, K, V, A, F: FnOnce(&mut V)>(e: Ent<'a, K, V, A>, f: F) -> Ent<'a, K, V, A> {
    if entry_vacant(&e) { e } else { let r: &mut V = entry_get(&e); f(r); e }
}

// ---- Option / Result / mem ------------------------------------------------------------------
pub fn with_context<S, T, E, C, F: FnOnce() -> C>(s: Result<T, E>, f: F) -> Result<T, Ctx<E, C>> {
    match s { Ok(x) => Ok(x), Err(e) => Err(Ctx { e, c: f() }) }
}
pub fn context<S, T, E, C>(s: Result<T, E>, c: C) -> Result<T, Ctx<E, C>> {
    match s { Ok(x) => Ok(x), Err(e) => Err(Ctx { e, c }) }
}
pub fn opt_take<T>(o: &mut Option<T>) -> Option<T> { replace(o, None) }
pub fn opt_replace<T>(o: &mut Option<T>, v: T) -> Option<T> { replace(o, Some(v)) }
pub fn opt_insert<T>(o: &mut Option<T>, v: T) -> &mut T {
    *o = Some(v);
    match o { Some(x) => x, None => loop {} }
}
pub fn opt_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
    if let None = o { *o = Some(f()); }
    match o { Some(x) => x, None => loop {} }
}
pub fn opt_as_deref<T: std::ops::Deref>(o: &Option<T>) -> Option<&T::Target> {
    match o { Some(x) => Some(x.deref()), None => None }
}
pub fn opt_as_deref_mut<T: std::ops::DerefMut>(o: &mut Option<T>) -> Option<&mut T::Target> {
    match o { Some(x) => Some(x.deref_mut()), None => None }
}
pub fn opt_cloned<T: Clone>(o: Option<&T>) -> Option<T> {
    match o { Some(x) => Some(x.clone()), None => None }
}
pub fn mem_take<T: Default>(x: &mut T) -> T { replace(x, T::default()) }
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, t: T) -> Option<T> { if b { Some(t) } else { None } }
pub fn opt_iter<T>(o: &Option<T>) -> OneS<Option<&T>> {
    OneS { iter: match o { Some(x) => Some(x), None => None } }
}
pub fn opt_into_iter<T>(o: Option<T>) -> OneS<Option<T>> { OneS { iter: o } }
pub fn opt_iter_next<T>(m: &mut OneS<Option<T>>) -> Option<T> { replace(&mut m.iter, None) }
pub fn fetch_update<A, F: FnMut(A) -> Option<A>>(a: &Cont<A, A>, s: (), f2: (), mut f: F) -> Result<A, A> {
    let old: A = opaque(a);
    match f(opaque(a)) { Some(n) => { add::<&Cont<A, A>, A>(a, n); Ok(old) } None => Err(old) }
}
