//! Reference models of standard library functions whose real bodies work on raw
//! memory or are specialised. The driver replaces calls by the table in
//! `driver/main.rs`; the analysis interprets these bodies instead. The `prim_`
//! functions are primitives of the analysis and have no meaningful body.
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::ops::{ControlFlow, Deref, FromResidual, Try};
use std::sync::Arc;

pub fn prim_array_from_vec<T, const N: usize>(_v: Vec<T>) -> [T; N] { loop {} }
pub fn prim_arc_get_mut<T>(_a: &mut Arc<T>) -> &mut T { loop {} }
pub fn prim_arc_unique<T>(_a: &Arc<T>) -> bool { loop {} }
pub fn prim_arc_take<T>(_a: Arc<T>) -> T { loop {} }
pub fn prim_zip_parts<A, B>(_z: &mut std::iter::Zip<A, B>) -> (&mut A, &mut B) { loop {} }

pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) { return false; }
    }
    true
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) { return true; }
    }
    false
}
pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) { return Some(x); }
    }
    None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) { return Some(b); }
    }
    None
}
pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if f(x) { return Some(i); }
        i += 1;
    }
    None
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut i = 0usize;
    while let Some(_x) = it.next() { i += 1; }
    i
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() { r = Some(x); }
    r
}
pub fn iter_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if n == 0 { return Some(x); }
        n -= 1;
    }
    None
}
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn iter_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut acc = match it.next() { Some(x) => x, None => return None };
    while let Some(x) = it.next() { acc = f(acc, x); }
    Some(acc)
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn iter_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x).branch() {
            ControlFlow::Continue(c) => acc = c,
            ControlFlow::Break(r) => return <R as FromResidual<R::Residual>>::from_residual(r),
        }
    }
    R::from_output(acc)
}
pub fn iter_try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() {
        match f(x).branch() {
            ControlFlow::Continue(()) => (),
            ControlFlow::Break(r) => return <R as FromResidual<R::Residual>>::from_residual(r),
        }
    }
    R::from_output(())
}
pub fn iter_max<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
    let mut r = it.next()?;
    while let Some(x) = it.next() { if x >= r { r = x; } }
    Some(r)
}
pub fn iter_min<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
    let mut r = it.next()?;
    while let Some(x) = it.next() { if x < r { r = x; } }
    Some(r)
}
pub fn iter_rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if f(&x) { return Some(x); }
    }
    None
}
pub fn iter_rposition<I: ExactSizeIterator + DoubleEndedIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() {
        i -= 1;
        if f(x) { return Some(i); }
    }
    None
}
pub fn iter_advance_by<I: Iterator>(it: &mut I, n: usize) -> Result<(), std::num::NonZero<usize>> {
    let mut i = 0;
    while i < n {
        if it.next().is_none() {
            return Err(std::num::NonZero::new(n - i).unwrap());
        }
        i += 1;
    }
    Ok(())
}
pub fn zip_next<A: Iterator, B: Iterator>(z: &mut std::iter::Zip<A, B>) -> Option<(A::Item, B::Item)> {
    let (a, b) = prim_zip_parts(z);
    let x = a.next()?;
    let y = b.next()?;
    Some((x, y))
}
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
pub fn string_extend<I: IntoIterator<Item = char>>(v: &mut String, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
pub fn string_from_iter<I: IntoIterator<Item = char>>(it: I) -> String {
    let mut v = String::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn vec_clone<T: Clone, A>(v: &Vec<T>) -> Vec<T> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < v.len() {
        r.push(v[i].clone());
        i += 1;
    }
    r
}
pub fn slice_to_vec<T: Clone>(v: &[T]) -> Vec<T> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < v.len() {
        r.push(v[i].clone());
        i += 1;
    }
    r
}
pub fn vec_from_elem<T: Clone>(e: T, n: usize) -> Vec<T> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < n {
        r.push(e.clone());
        i += 1;
    }
    r
}
pub fn vec_resize<T: Clone, A>(v: &mut Vec<T>, n: usize, e: T) {
    while v.len() > n { v.pop(); }
    while v.len() < n { v.push(e.clone()); }
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut r = Vec::new();
    let old = std::mem::take(v);
    let mut it = old.into_iter();
    while let Some(x) = it.next() {
        if f(&x) { r.push(x); }
    }
    *v = r;
}
pub fn array_clone<T: Clone, const N: usize>(a: &[T; N]) -> [T; N] {
    let mut r = Vec::new();
    let mut i = 0;
    while i < N {
        r.push(a[i].clone());
        i += 1;
    }
    prim_array_from_vec(r)
}
pub fn array_from_fn<T, const N: usize, F: FnMut(usize) -> T>(mut f: F) -> [T; N] {
    let mut r = Vec::new();
    let mut i = 0;
    while i < N {
        r.push(f(i));
        i += 1;
    }
    prim_array_from_vec(r)
}
pub fn array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] {
    let mut r = Vec::new();
    let mut it = a.into_iter();
    while let Some(x) = it.next() { r.push(f(x)); }
    prim_array_from_vec(r)
}
pub fn array_default<T: Default, const N: usize>() -> [T; N] {
    let mut r = Vec::new();
    let mut i = 0;
    while i < N {
        r.push(T::default());
        i += 1;
    }
    prim_array_from_vec(r)
}
pub fn slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
pub fn vec_eq<T: PartialEq<U>, U, A1, A2>(a: &Vec<T>, b: &Vec<U>) -> bool { slice_eq(a.as_slice(), b.as_slice()) }
pub fn array_eq<T: PartialEq<U>, U, const N: usize>(a: &[T; N], b: &[U; N]) -> bool {
    let mut i = 0;
    while i < N {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
pub fn arc_make_mut<T: Clone, A>(a: &mut Arc<T>) -> &mut T {
    *a = Arc::new((**a).clone());
    prim_arc_get_mut(a)
}
pub fn arc_unwrap_or_clone<T: Clone, A>(a: Arc<T>) -> T { (*a).clone() }
pub fn box_clone<T: Clone, A>(b: &Box<T>) -> Box<T> { Box::new((**b).clone()) }
/// Equal pointers to an `Eq` type are equal as well.
pub fn arc_eq<T: PartialEq, A>(a: &Arc<T>, b: &Arc<T>) -> bool { **a == **b }
pub fn arc_ne<T: PartialEq, A>(a: &Arc<T>, b: &Arc<T>) -> bool { **a != **b }
pub fn arc_get_mut<T, A>(a: &mut Arc<T>) -> Option<&mut T> {
    if prim_arc_unique(a) { Some(prim_arc_get_mut(a)) } else { None }
}
pub fn arc_try_unwrap<T, A>(a: Arc<T>) -> Result<T, Arc<T>> {
    if prim_arc_unique(&a) { Ok(prim_arc_take(a)) } else { Err(a) }
}
pub fn arc_into_inner<T, A>(a: Arc<T>) -> Option<T> {
    if prim_arc_unique(&a) { Some(prim_arc_take(a)) } else { None }
}
pub fn iter_max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut r = it.next()?;
    while let Some(x) = it.next() {
        if !matches!(f(&r, &x), Ordering::Greater) { r = x; }
    }
    Some(r)
}
pub fn iter_min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut r = it.next()?;
    while let Some(x) = it.next() {
        if matches!(f(&r, &x), Ordering::Greater) { r = x; }
    }
    Some(r)
}
pub fn iter_max_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut r = it.next()?;
    let mut k = f(&r);
    while let Some(x) = it.next() {
        let l = f(&x);
        if l >= k { r = x; k = l; }
    }
    Some(r)
}
pub fn iter_min_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut r = it.next()?;
    let mut k = f(&r);
    while let Some(x) = it.next() {
        let l = f(&x);
        if l < k { r = x; k = l; }
    }
    Some(r)
}
pub fn iter_partition<I: Iterator, B: Default + Extend<I::Item>, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (B, B) {
    let mut l = B::default();
    let mut r = B::default();
    while let Some(x) = it.next() {
        if f(&x) { l.extend(Some(x)); } else { r.extend(Some(x)); }
    }
    (l, r)
}
pub fn iter_unzip<I: Iterator<Item = (A, B)>, A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(mut it: I) -> (FA, FB) {
    let mut l = FA::default();
    let mut r = FB::default();
    while let Some((x, y)) = it.next() {
        l.extend(Some(x));
        r.extend(Some(y));
    }
    (l, r)
}
pub fn iter_nth_back<I: DoubleEndedIterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if n == 0 { return Some(x); }
        n -= 1;
    }
    None
}
pub fn iter_cmp<I: Iterator, J: IntoIterator<Item = I::Item>>(mut a: I, b: J) -> Ordering where I::Item: Ord {
    let mut b = b.into_iter();
    loop {
        match (a.next(), b.next()) {
            (None, None) => return Ordering::Equal,
            (None, Some(_)) => return Ordering::Less,
            (Some(_), None) => return Ordering::Greater,
            (Some(x), Some(y)) => {
                if x < y { return Ordering::Less; }
                if y < x { return Ordering::Greater; }
            }
        }
    }
}
pub fn iter_eq<I: Iterator, J: IntoIterator>(mut a: I, b: J) -> bool where I::Item: PartialEq<J::Item> {
    let mut b = b.into_iter();
    loop {
        match (a.next(), b.next()) {
            (None, None) => return true,
            (Some(x), Some(y)) => if x != y { return false; },
            _ => return false,
        }
    }
}
pub fn iter_ne<I: Iterator, J: IntoIterator>(a: I, b: J) -> bool where I::Item: PartialEq<J::Item> { !iter_eq(a, b) }
pub fn slice_contains<T: PartialEq>(a: &[T], x: &T) -> bool {
    let mut i = 0;
    while i < a.len() {
        if a[i] == *x { return true; }
        i += 1;
    }
    false
}
pub fn slice_starts_with<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    if a.len() < b.len() { return false; }
    slice_eq(&a[..b.len()], b)
}
pub fn slice_ends_with<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    if a.len() < b.len() { return false; }
    slice_eq(&a[a.len() - b.len()..], b)
}
/// either value
pub fn prim_any() -> bool { loop {} }
/// the order of equal elements is not specified
pub fn slice_sort_unstable<T: Ord>(a: &mut [T]) { slice_sort_unstable_by(a, |x, y| x.cmp(y)) }
pub fn slice_sort_unstable_by_key<T, K: Ord, F: FnMut(&T) -> K>(a: &mut [T], mut f: F) { slice_sort_unstable_by(a, |x, y| f(x).cmp(&f(y))) }
pub fn slice_sort_unstable_by<T, F: FnMut(&T, &T) -> Ordering>(a: &mut [T], mut f: F) {
    slice_sort_by(a, |x, y| match f(x, y) {
        Ordering::Equal if prim_any() => Ordering::Greater,
        o => o,
    })
}
pub fn slice_sort<T: Ord>(a: &mut [T]) { slice_sort_by(a, |x, y| x.cmp(y)) }
pub fn slice_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(a: &mut [T], mut f: F) { slice_sort_by(a, |x, y| f(x).cmp(&f(y))) }
pub fn slice_sort_by<T, F: FnMut(&T, &T) -> Ordering>(a: &mut [T], mut f: F) {
    let mut i = 1;
    while i < a.len() {
        let mut j = i;
        while j > 0 && matches!(f(&a[j - 1], &a[j]), Ordering::Greater) {
            a.swap(j - 1, j);
            j -= 1;
        }
        i += 1;
    }
}
pub fn slice_binary_search<T: Ord>(a: &[T], x: &T) -> Result<usize, usize> { slice_binary_search_by(a, |p| p.cmp(x)) }
pub fn slice_binary_search_by_key<T, B: Ord, F: FnMut(&T) -> B>(a: &[T], b: &B, mut f: F) -> Result<usize, usize> {
    slice_binary_search_by(a, |p| f(p).cmp(b))
}
pub fn slice_binary_search_by<T, F: FnMut(&T) -> Ordering>(a: &[T], mut f: F) -> Result<usize, usize> {
    let mut l = 0;
    let mut r = a.len();
    while l < r {
        let m = l + (r - l) / 2;
        match f(&a[m]) {
            Ordering::Equal => return Ok(m),
            Ordering::Less => l = m + 1,
            Ordering::Greater => r = m,
        }
    }
    Err(l)
}
pub fn slice_partition_point<T, P: FnMut(&T) -> bool>(a: &[T], mut f: P) -> usize {
    let mut i = 0;
    while i < a.len() && f(&a[i]) { i += 1; }
    i
}
pub fn slice_rotate_left<T>(a: &mut [T], k: usize) {
    assert!(k <= a.len());
    let mut n = 0;
    while n < k {
        let mut i = 1;
        while i < a.len() {
            a.swap(i - 1, i);
            i += 1;
        }
        n += 1;
    }
}
pub fn slice_rotate_right<T>(a: &mut [T], k: usize) {
    assert!(k <= a.len());
    let n = a.len() - k;
    slice_rotate_left(a, n)
}
pub fn slice_concat<T: Clone, V: Borrow<[T]>>(a: &[V]) -> Vec<T> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < a.len() {
        let s: &[T] = a[i].borrow();
        let mut j = 0;
        while j < s.len() {
            r.push(s[j].clone());
            j += 1;
        }
        i += 1;
    }
    r
}
pub fn slice_str_concat<S: Borrow<str>>(a: &[S]) -> String {
    let mut r = String::new();
    let mut i = 0;
    while i < a.len() {
        r.push_str(a[i].borrow());
        i += 1;
    }
    r
}
pub fn slice_str_join<S: Borrow<str>>(a: &[S], sep: &str) -> String {
    let mut r = String::new();
    let mut i = 0;
    while i < a.len() {
        if i > 0 { r.push_str(sep); }
        r.push_str(a[i].borrow());
        i += 1;
    }
    r
}
pub fn slice_repeat<T: Copy>(a: &[T], n: usize) -> Vec<T> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j < a.len() {
            r.push(a[j]);
            j += 1;
        }
        i += 1;
    }
    r
}
pub fn vec_extend_ref<T: Copy, A, I: IntoIterator>(v: &mut Vec<T>, it: I) where I::Item: Deref<Target = T> {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(*x); }
}
pub fn vec_split_off<T, A>(v: &mut Vec<T>, at: usize) -> Vec<T> {
    assert!(at <= v.len());
    let mut a = Vec::new();
    let mut b = Vec::new();
    let old = std::mem::take(v);
    let mut it = old.into_iter();
    let mut i = 0;
    while let Some(x) = it.next() {
        if i < at { a.push(x); } else { b.push(x); }
        i += 1;
    }
    *v = a;
    b
}
pub fn vec_dedup<T: PartialEq, A>(v: &mut Vec<T>) { vec_dedup_by::<T, A, _>(v, |a, b| *a == *b) }
pub fn vec_dedup_by_key<T, A, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut f: F) { vec_dedup_by::<T, A, _>(v, |a, b| f(a) == f(b)) }
pub fn vec_dedup_by<T, A, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut r: Vec<T> = Vec::new();
    let old = std::mem::take(v);
    let mut it = old.into_iter();
    while let Some(mut x) = it.next() {
        let same = match r.last_mut() {
            Some(l) => f(&mut x, l),
            None => false,
        };
        if !same { r.push(x); }
    }
    *v = r;
}
pub fn array_try_from_vec<T, A, const N: usize>(v: Vec<T>) -> Result<[T; N], Vec<T>> {
    if v.len() != N { return Err(v); }
    Ok(prim_array_from_vec(v))
}
pub fn slice_ne<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool { !slice_eq(a, b) }
pub fn vec_ne<T: PartialEq<U>, U, A1, A2>(a: &Vec<T>, b: &Vec<U>) -> bool { !slice_eq(a.as_slice(), b.as_slice()) }
pub fn array_ne<T: PartialEq<U>, U, const N: usize>(a: &[T; N], b: &[U; N]) -> bool { !array_eq(a, b) }

pub fn h256_is_zero(x: &ethereum_types::H256) -> bool {
    *x == ethereum_types::H256::zero()
}
