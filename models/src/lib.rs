//! Rust models of the standard-library and runtime functions the analyser gives a meaning to. They
//! are never run: the extractor dumps their MIR and the analyser inlines them in place of the real
//! functions (whose bodies are not part of the crate under analysis). A function `A__b` models
//! `A::b`; `A__b__C` models the implementation of the trait method `A::b` for the type `C`.
#![allow(non_snake_case, dead_code, unused)]
use std::convert::Infallible;
use std::future::Future;
use std::ops::ControlFlow;
use std::pin::Pin;
use std::task::{Context, Poll};

// Intrinsics: interpreted by the analyser.
pub fn would_block<E>(_e: &E) -> bool { loop {} }
pub fn interrupted<E>(_e: &E) -> bool { loop {} }
pub fn acc_new<B>() -> B { loop {} }
pub fn acc_push<B, T>(_b: &mut B, _x: T) { loop {} }
pub fn any_bool() -> bool { loop {} }
pub fn convert<A, B>(_a: A) -> B { loop {} }
pub fn next_of<I: Iterator>(it: &mut I) -> Option<I::Item> { it.next() }

// ---- Option
pub fn Option__map<T, U, F: FnOnce(T) -> U>(this: Option<T>, f: F) -> Option<U> { match this { Some(x) => Some(f(x)), None => None } }
pub fn Option__inspect<T, F: FnOnce(&T)>(this: Option<T>, f: F) -> Option<T> { if let Some(ref x) = this { f(x); } this }
pub fn Option__map_or<T, U, F: FnOnce(T) -> U>(this: Option<T>, d: U, f: F) -> U { match this { Some(x) => f(x), None => d } }
pub fn Option__map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(this: Option<T>, d: D, f: F) -> U { match this { Some(x) => f(x), None => d() } }
pub fn Option__and_then<T, U, F: FnOnce(T) -> Option<U>>(this: Option<T>, f: F) -> Option<U> { match this { Some(x) => f(x), None => None } }
pub fn Option__and<T, U>(this: Option<T>, o: Option<U>) -> Option<U> { match this { Some(_) => o, None => None } }
pub fn Option__or<T>(this: Option<T>, o: Option<T>) -> Option<T> { match this { Some(x) => Some(x), None => o } }
pub fn Option__or_else<T, F: FnOnce() -> Option<T>>(this: Option<T>, f: F) -> Option<T> { match this { Some(x) => Some(x), None => f() } }
pub fn Option__filter<T, P: FnOnce(&T) -> bool>(this: Option<T>, p: P) -> Option<T> { if let Some(x) = this { if p(&x) { return Some(x); } } None }
pub fn Option__ok_or<T, E>(this: Option<T>, e: E) -> Result<T, E> { match this { Some(x) => Ok(x), None => Err(e) } }
pub fn Option__ok_or_else<T, E, F: FnOnce() -> E>(this: Option<T>, f: F) -> Result<T, E> { match this { Some(x) => Ok(x), None => Err(f()) } }
pub fn Option__unwrap<T>(this: Option<T>) -> T { match this { Some(x) => x, None => panic!("unwrap") } }
pub fn Option__expect<T>(this: Option<T>, m: &str) -> T { match this { Some(x) => x, None => panic!("expect") } }
pub fn Option__unwrap_or<T>(this: Option<T>, d: T) -> T { match this { Some(x) => x, None => d } }
pub fn Option__unwrap_or_else<T, F: FnOnce() -> T>(this: Option<T>, f: F) -> T { match this { Some(x) => x, None => f() } }
pub fn Option__unwrap_or_default<T: Default>(this: Option<T>) -> T { match this { Some(x) => x, None => T::default() } }
pub fn Option__is_some<T>(this: &Option<T>) -> bool { match this { Some(_) => true, None => false } }
pub fn Option__is_none<T>(this: &Option<T>) -> bool { match this { Some(_) => false, None => true } }
pub fn Option__is_some_and<T, F: FnOnce(T) -> bool>(this: Option<T>, f: F) -> bool { match this { Some(x) => f(x), None => false } }
pub fn Option__is_none_or<T, F: FnOnce(T) -> bool>(this: Option<T>, f: F) -> bool { match this { Some(x) => f(x), None => true } }
pub fn Option__as_ref<T>(this: &Option<T>) -> Option<&T> { match this { Some(x) => Some(x), None => None } }
pub fn Option__as_mut<T>(this: &mut Option<T>) -> Option<&mut T> { match this { Some(x) => Some(x), None => None } }
pub fn Option__take<T>(this: &mut Option<T>) -> Option<T> { std::mem::replace(this, None) }
pub fn Option__replace<T>(this: &mut Option<T>, v: T) -> Option<T> { std::mem::replace(this, Some(v)) }
pub fn Option__insert<T>(this: &mut Option<T>, v: T) -> &mut T { *this = Some(v); match this { Some(x) => x, None => loop {} } }
pub fn Option__get_or_insert_with<T, F: FnOnce() -> T>(this: &mut Option<T>, f: F) -> &mut T { if let None = this { *this = Some(f()); } match this { Some(x) => x, None => loop {} } }
pub fn Option__copied<T: Copy>(this: Option<&T>) -> Option<T> { match this { Some(x) => Some(*x), None => None } }
pub fn Option__cloned<T: Clone>(this: Option<&T>) -> Option<T> { match this { Some(x) => Some(x.clone()), None => None } }
pub fn Option__transpose<T, E>(this: Option<Result<T, E>>) -> Result<Option<T>, E> { match this { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn Option__flatten<T>(this: Option<Option<T>>) -> Option<T> { match this { Some(x) => x, None => None } }
pub fn Option__zip<T, U>(this: Option<T>, o: Option<U>) -> Option<(T, U)> { match (this, o) { (Some(a), Some(b)) => Some((a, b)), _ => None } }

// ---- Result
pub fn Result__map<T, E, U, F: FnOnce(T) -> U>(this: Result<T, E>, f: F) -> Result<U, E> { match this { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn Result__map_err<T, E, U, F: FnOnce(E) -> U>(this: Result<T, E>, f: F) -> Result<T, U> { match this { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn Result__map_or<T, E, U, F: FnOnce(T) -> U>(this: Result<T, E>, d: U, f: F) -> U { match this { Ok(x) => f(x), Err(_) => d } }
pub fn Result__map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(this: Result<T, E>, d: D, f: F) -> U { match this { Ok(x) => f(x), Err(e) => d(e) } }
pub fn Result__and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(this: Result<T, E>, f: F) -> Result<U, E> { match this { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn Result__and<T, E, U>(this: Result<T, E>, o: Result<U, E>) -> Result<U, E> { match this { Ok(_) => o, Err(e) => Err(e) } }
pub fn Result__or<T, E, F>(this: Result<T, E>, o: Result<T, F>) -> Result<T, F> { match this { Ok(x) => Ok(x), Err(_) => o } }
pub fn Result__or_else<T, E, F, O: FnOnce(E) -> Result<T, F>>(this: Result<T, E>, f: O) -> Result<T, F> { match this { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn Result__ok<T, E>(this: Result<T, E>) -> Option<T> { match this { Ok(x) => Some(x), Err(_) => None } }
pub fn Result__err<T, E>(this: Result<T, E>) -> Option<E> { match this { Ok(_) => None, Err(e) => Some(e) } }
pub fn Result__unwrap<T, E>(this: Result<T, E>) -> T { match this { Ok(x) => x, Err(_) => panic!("unwrap") } }
pub fn Result__expect<T, E>(this: Result<T, E>, m: &str) -> T { match this { Ok(x) => x, Err(_) => panic!("expect") } }
pub fn Result__unwrap_err<T, E>(this: Result<T, E>) -> E { match this { Ok(_) => panic!("unwrap_err"), Err(e) => e } }
pub fn Result__unwrap_or<T, E>(this: Result<T, E>, d: T) -> T { match this { Ok(x) => x, Err(_) => d } }
pub fn Result__unwrap_or_else<T, E, F: FnOnce(E) -> T>(this: Result<T, E>, f: F) -> T { match this { Ok(x) => x, Err(e) => f(e) } }
pub fn Result__unwrap_or_default<T: Default, E>(this: Result<T, E>) -> T { match this { Ok(x) => x, Err(_) => T::default() } }
pub fn Result__is_ok<T, E>(this: &Result<T, E>) -> bool { match this { Ok(_) => true, Err(_) => false } }
pub fn Result__is_err<T, E>(this: &Result<T, E>) -> bool { match this { Ok(_) => false, Err(_) => true } }
pub fn Result__is_ok_and<T, E, F: FnOnce(T) -> bool>(this: Result<T, E>, f: F) -> bool { match this { Ok(x) => f(x), Err(_) => false } }
pub fn Result__is_err_and<T, E, F: FnOnce(E) -> bool>(this: Result<T, E>, f: F) -> bool { match this { Ok(_) => false, Err(e) => f(e) } }
pub fn Result__as_ref<T, E>(this: &Result<T, E>) -> Result<&T, &E> { match this { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn Result__as_mut<T, E>(this: &mut Result<T, E>) -> Result<&mut T, &mut E> { match this { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn Result__transpose<T, E>(this: Result<Option<T>, E>) -> Option<Result<T, E>> { match this { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) } }
pub fn Result__inspect<T, E, F: FnOnce(&T)>(this: Result<T, E>, f: F) -> Result<T, E> { if let Ok(ref x) = this { f(x); } this }
pub fn Result__inspect_err<T, E, F: FnOnce(&E)>(this: Result<T, E>, f: F) -> Result<T, E> { if let Err(ref e) = this { f(e); } this }

pub fn bool__then<T, F: FnOnce() -> T>(this: bool, f: F) -> Option<T> { if this { Some(f()) } else { None } }
pub fn bool__then_some<T>(this: bool, x: T) -> Option<T> { if this { Some(x) } else { None } }

// ---- the question mark operator
pub fn Try__branch__Result<T, E>(this: Result<T, E>) -> ControlFlow<Result<Infallible, E>, T> { match this { Ok(x) => ControlFlow::Continue(x), Err(e) => ControlFlow::Break(Err(e)) } }
pub fn Try__branch__Option<T>(this: Option<T>) -> ControlFlow<Option<Infallible>, T> { match this { Some(x) => ControlFlow::Continue(x), None => ControlFlow::Break(None) } }
pub fn FromResidual__from_residual__Result<T, F, E>(r: Result<Infallible, E>) -> Result<T, F> { match r { Err(e) => Err(convert::<E, F>(e)), Ok(_) => loop {} } }
pub fn FromResidual__from_residual__Option<T>(r: Option<Infallible>) -> Option<T> { None }

// ---- memory
pub fn replace<T>(d: &mut T, v: T) -> T { unsafe { let r = std::ptr::read(d); std::ptr::write(d, v); r } }
pub fn take<T: Default>(d: &mut T) -> T { std::mem::replace(d, T::default()) }
pub fn swap<T>(a: &mut T, b: &mut T) { unsafe { let r = std::ptr::read(a); std::ptr::write(a, std::ptr::read(b)); std::ptr::write(b, r); } }

// ---- iterator adaptors
pub struct MMap<I, F> { it: I, f: F }
pub struct MRev<I> { it: I }
pub struct MEnumerate<I> { it: I, n: usize }
pub struct MZip<A, B> { a: A, b: B }
pub struct MTake<I> { it: I, n: usize }
pub struct MSkip<I> { it: I, n: usize }
pub struct MChain<A, B> { a: Option<A>, b: B }
pub struct MCloned<I> { it: I }
pub struct MFilterMap<I, F> { it: I, f: F }
pub struct MFilter<I, F> { it: I, f: F }
pub struct MFlatMap<I, F> { it: I, f: F }

pub fn Iterator__map<I: Iterator, B, F: FnMut(I::Item) -> B>(it: I, f: F) -> MMap<I, F> { MMap { it, f } }
pub fn Iterator__rev<I: Iterator>(it: I) -> MRev<I> { MRev { it } }
pub fn Iterator__enumerate<I: Iterator>(it: I) -> MEnumerate<I> { MEnumerate { it, n: 0 } }
pub fn Iterator__zip<I: Iterator, U: IntoIterator>(it: I, u: U) -> MZip<I, U::IntoIter> { MZip { a: it, b: u.into_iter() } }
pub fn Iterator__take<I: Iterator>(it: I, n: usize) -> MTake<I> { MTake { it, n } }
pub fn Iterator__skip<I: Iterator>(it: I, n: usize) -> MSkip<I> { MSkip { it, n } }
pub fn Iterator__chain<I: Iterator, U: IntoIterator>(it: I, u: U) -> MChain<I, U::IntoIter> { MChain { a: Some(it), b: u.into_iter() } }
pub fn Iterator__cloned<I: Iterator>(it: I) -> MCloned<I> { MCloned { it } }
pub fn Iterator__copied<I: Iterator>(it: I) -> MCloned<I> { MCloned { it } }
pub fn Iterator__filter_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: I, f: F) -> MFilterMap<I, F> { MFilterMap { it, f } }
pub fn Iterator__filter<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> MFilter<I, F> { MFilter { it, f } }
pub fn Iterator__by_ref<I: Iterator>(it: &mut I) -> &mut I { it }

pub fn Iterator__next__MMap<I: Iterator, B, F: FnMut(I::Item) -> B>(this: &mut MMap<I, F>) -> Option<B> { match this.it.next() { Some(x) => Some((this.f)(x)), None => None } }
pub fn DoubleEndedIterator__next_back__MMap<I: DoubleEndedIterator, B, F: FnMut(I::Item) -> B>(this: &mut MMap<I, F>) -> Option<B> { match this.it.next_back() { Some(x) => Some((this.f)(x)), None => None } }
pub fn Iterator__next__MRev<I: DoubleEndedIterator>(this: &mut MRev<I>) -> Option<I::Item> { this.it.next_back() }
pub fn DoubleEndedIterator__next_back__MRev<I: DoubleEndedIterator>(this: &mut MRev<I>) -> Option<I::Item> { this.it.next() }
pub fn Iterator__next__MEnumerate<I: Iterator>(this: &mut MEnumerate<I>) -> Option<(usize, I::Item)> { match this.it.next() { Some(x) => { let i = this.n; this.n = i.wrapping_add(1); Some((i, x)) } None => None } }
pub fn Iterator__next__MZip<A: Iterator, B: Iterator>(this: &mut MZip<A, B>) -> Option<(A::Item, B::Item)> { match this.a.next() { Some(x) => match this.b.next() { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn Iterator__next__MTake<I: Iterator>(this: &mut MTake<I>) -> Option<I::Item> { if this.n == 0 { None } else { this.n = this.n.wrapping_sub(1); this.it.next() } }
pub fn Iterator__next__MSkip<I: Iterator>(this: &mut MSkip<I>) -> Option<I::Item> { while this.n != 0 { this.n = this.n.wrapping_sub(1); if let None = this.it.next() { return None; } } this.it.next() }
pub fn Iterator__next__MChain<A: Iterator, B: Iterator<Item = A::Item>>(this: &mut MChain<A, B>) -> Option<A::Item> { if let Some(ref mut a) = this.a { match a.next() { Some(x) => return Some(x), None => { this.a = None; } } } this.b.next() }
pub fn Iterator__next__MCloned<'a, T: 'a + Clone, I: Iterator<Item = &'a T>>(this: &mut MCloned<I>) -> Option<T> { match this.it.next() { Some(x) => Some(x.clone()), None => None } }
pub fn DoubleEndedIterator__next_back__MCloned<'a, T: 'a + Clone, I: DoubleEndedIterator<Item = &'a T>>(this: &mut MCloned<I>) -> Option<T> { match this.it.next_back() { Some(x) => Some(x.clone()), None => None } }
pub fn Iterator__next__MFilterMap<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(this: &mut MFilterMap<I, F>) -> Option<B> { loop { match this.it.next() { Some(x) => if let Some(y) = (this.f)(x) { return Some(y); }, None => return None } } }
pub fn Iterator__next__MFilter<I: Iterator, F: FnMut(&I::Item) -> bool>(this: &mut MFilter<I, F>) -> Option<I::Item> { loop { match this.it.next() { Some(x) => if (this.f)(&x) { return Some(x); }, None => return None } } }
pub fn Iterator__next__ref<I: Iterator>(this: &mut &mut I) -> Option<I::Item> { (**this).next() }

pub fn Iterator__for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
pub fn Iterator__try_for_each__Result<I: Iterator, F: FnMut(I::Item) -> Result<(), E>, E>(it: &mut I, mut f: F) -> Result<(), E> { while let Some(x) = it.next() { if let Err(e) = f(x) { return Err(e); } } Ok(()) }
pub fn Iterator__fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B { let mut acc = init; while let Some(x) = it.next() { acc = f(acc, x); } acc }
pub fn Iterator__try_fold__Result<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> { let mut acc = init; while let Some(x) = it.next() { match f(acc, x) { Ok(a) => acc = a, Err(e) => return Err(e) } } Ok(acc) }
pub fn Iterator__all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn Iterator__any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn Iterator__count<I: Iterator>(mut it: I) -> usize { let mut n = 0usize; while let Some(_) = it.next() { n = n.wrapping_add(1); } n }
pub fn Iterator__last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut l = None; while let Some(x) = it.next() { l = Some(x); } l }
pub fn Iterator__nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> { while n != 0 { if let None = it.next() { return None; } n = n.wrapping_sub(1); } it.next() }
pub fn Iterator__find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = it.next() { if f(&x) { return Some(x); } } None }
pub fn Iterator__collect__seq<I: Iterator, B>(mut it: I) -> B { let mut b = acc_new::<B>(); while let Some(x) = it.next() { acc_push(&mut b, x); } b }
pub fn Iterator__collect__Result<T, E, I: Iterator<Item = Result<T, E>>, B>(mut it: I) -> Result<B, E> { let mut b = acc_new::<B>(); while let Some(r) = it.next() { match r { Ok(x) => acc_push(&mut b, x), Err(e) => return Err(e) } } Ok(b) }
pub fn Iterator__collect__Option<T, I: Iterator<Item = Option<T>>, B>(mut it: I) -> Option<B> { let mut b = acc_new::<B>(); while let Some(r) = it.next() { match r { Some(x) => acc_push(&mut b, x), None => return None } } Some(b) }
pub fn Extend__extend<B, I: IntoIterator>(this: &mut B, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { acc_push(this, x); } }
pub fn extend_from_iter<B, I: IntoIterator>(this: &mut B, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { acc_push(this, x); } }

// ---- runtimes
pub struct MIo<S, F> { s: S, f: F }
pub fn Future__poll__MIo<S, T, E, F: FnMut() -> Result<T, E>>(this: Pin<&mut MIo<S, F>>, cx: &mut Context<'_>) -> Poll<Result<T, E>> {
    let this = unsafe { this.get_unchecked_mut() };
    match (this.f)() { Ok(x) => Poll::Ready(Ok(x)), Err(e) => if would_block(&e) { Poll::Pending } else { Poll::Ready(Err(e)) } }
}
pub struct MIoWith<S, F> { s: S, f: F }
pub fn Future__poll__MIoWith<S, A, T, E, F: FnMut(&A) -> Result<T, E>>(this: Pin<&mut MIoWith<&A, F>>, cx: &mut Context<'_>) -> Poll<Result<T, E>> {
    let this = unsafe { this.get_unchecked_mut() };
    match (this.f)(this.s) { Ok(x) => Poll::Ready(Ok(x)), Err(e) => if would_block(&e) { Poll::Pending } else { Poll::Ready(Err(e)) } }
}
pub fn retry_on_intr<T, E, F: FnMut() -> Result<T, E>>(mut f: F) -> Result<T, E> { loop { match f() { Err(e) if interrupted(&e) => {} r => return r } } }
pub struct MPollFn<F> { f: F }
pub fn Future__poll__MPollFn<T, F: FnMut(&mut Context<'_>) -> Poll<T>>(this: Pin<&mut MPollFn<F>>, cx: &mut Context<'_>) -> Poll<T> { let this = unsafe { this.get_unchecked_mut() }; (this.f)(cx) }
pub fn Poll__map<T, U, F: FnOnce(T) -> U>(this: Poll<T>, f: F) -> Poll<U> { match this { Poll::Ready(x) => Poll::Ready(f(x)), Poll::Pending => Poll::Pending } }
pub fn Poll__is_ready<T>(this: &Poll<T>) -> bool { match this { Poll::Ready(_) => true, Poll::Pending => false } }
pub fn Poll__is_pending<T>(this: &Poll<T>) -> bool { match this { Poll::Ready(_) => false, Poll::Pending => true } }
pub fn ptr__as_ref<'a, T>(this: *const T) -> Option<&'a T> { if this.is_null() { None } else { unsafe { Some(&*this) } } }
pub fn ptr__as_mut<'a, T>(this: *mut T) -> Option<&'a mut T> { if this.is_null() { None } else { unsafe { Some(&mut *this) } } }

// ---- unwinding: either the closure ran to its end, or it (and what it would have given) is lost
pub fn catch_unwind<F: FnOnce() -> R, R>(f: F) -> std::thread::Result<R> { if any_bool() { Ok(f()) } else { Err(convert::<(), Box<dyn std::any::Any + Send>>(())) } }
pub fn FnOnce__call_once__AssertUnwindSafe<R, F: FnOnce() -> R>(this: std::panic::AssertUnwindSafe<F>, _args: ()) -> R { (this.0)() }
