//! Bodies for std functions the interpreter has no hand-written model of, in terms of those it has.
//! `A__b` stands for the method `b` of the type or trait `A`. shim.mir is this file's MIR (sa/shim/make.sh).
#![allow(non_snake_case, dead_code, clippy::all)]
#![feature(slice_split_at_unchecked)]
use std::cmp::Ordering;
use std::iter::Peekable;

// Option
pub fn Option__and<T, U>(a: Option<T>, b: Option<U>) -> Option<U> {
    match a {
        Some(_) => b,
        None => None,
    }
}
pub fn Option__xor<T>(a: Option<T>, b: Option<T>) -> Option<T> {
    match (a, b) {
        (Some(x), None) => Some(x),
        (None, Some(x)) => Some(x),
        _ => None,
    }
}
pub fn Option__inspect<T, F: FnOnce(&T)>(a: Option<T>, f: F) -> Option<T> {
    if let Some(x) = &a {
        f(x);
    }
    a
}
pub fn Option__is_none_or<T, F: FnOnce(T) -> bool>(a: Option<T>, f: F) -> bool {
    match a {
        Some(x) => f(x),
        None => true,
    }
}
pub fn Option__as_mut<T>(a: &mut Option<T>) -> Option<&mut T> {
    match a {
        Some(x) => Some(x),
        None => None,
    }
}
pub fn Option__as_deref_mut<T>(a: &mut Option<T>) -> Option<&mut T> {
    match a {
        Some(x) => Some(x),
        None => None,
    }
}
pub fn Option__insert<T>(a: &mut Option<T>, v: T) -> &mut T {
    *a = Some(v);
    match a {
        Some(x) => x,
        None => panic!("insert"),
    }
}
pub fn Option__get_or_insert_with<T, F: FnOnce() -> T>(a: &mut Option<T>, f: F) -> &mut T {
    if a.is_none() {
        *a = Some(f());
    }
    match a {
        Some(x) => x,
        None => panic!("get_or_insert"),
    }
}
pub fn Option__flatten<T>(a: Option<Option<T>>) -> Option<T> {
    match a {
        Some(x) => x,
        None => None,
    }
}
pub fn Option__get_or_insert<T>(a: &mut Option<T>, v: T) -> &mut T {
    if a.is_none() {
        *a = Some(v);
    }
    match a {
        Some(x) => x,
        None => panic!("get_or_insert"),
    }
}
pub fn Option__unzip<A, B>(a: Option<(A, B)>) -> (Option<A>, Option<B>) {
    match a {
        Some((x, y)) => (Some(x), Some(y)),
        None => (None, None),
    }
}
pub unsafe fn Option__unwrap_unchecked<T>(a: Option<T>) -> T {
    match a {
        Some(x) => x,
        None => panic!("unwrap_unchecked"),
    }
}
pub fn Option__ok_or_else<T, E, F: FnOnce() -> E>(a: Option<T>, f: F) -> Result<T, E> {
    match a {
        Some(x) => Ok(x),
        None => Err(f()),
    }
}
// Result
pub fn Result__and<T, U, E>(a: Result<T, E>, b: Result<U, E>) -> Result<U, E> {
    match a {
        Ok(_) => b,
        Err(e) => Err(e),
    }
}
pub fn Result__or<T, E, F>(a: Result<T, E>, b: Result<T, F>) -> Result<T, F> {
    match a {
        Ok(x) => Ok(x),
        Err(_) => b,
    }
}
pub fn Result__map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(a: Result<T, E>, d: D, f: F) -> U {
    match a {
        Ok(x) => f(x),
        Err(e) => d(e),
    }
}
pub fn Result__is_ok_and<T, E, F: FnOnce(T) -> bool>(a: Result<T, E>, f: F) -> bool {
    match a {
        Ok(x) => f(x),
        Err(_) => false,
    }
}
pub fn Result__is_err_and<T, E, F: FnOnce(E) -> bool>(a: Result<T, E>, f: F) -> bool {
    match a {
        Ok(_) => false,
        Err(e) => f(e),
    }
}
pub fn Result__inspect<T, E, F: FnOnce(&T)>(a: Result<T, E>, f: F) -> Result<T, E> {
    if let Ok(x) = &a {
        f(x);
    }
    a
}
pub fn Result__inspect_err<T, E, F: FnOnce(&E)>(a: Result<T, E>, f: F) -> Result<T, E> {
    if let Err(x) = &a {
        f(x);
    }
    a
}
pub fn Result__as_mut<T, E>(a: &mut Result<T, E>) -> Result<&mut T, &mut E> {
    match a {
        Ok(x) => Ok(x),
        Err(x) => Err(x),
    }
}
pub fn Result__transpose<T, E>(a: Result<Option<T>, E>) -> Option<Result<T, E>> {
    match a {
        Ok(Some(x)) => Some(Ok(x)),
        Ok(None) => None,
        Err(e) => Some(Err(e)),
    }
}
pub fn Result__copied<T: Copy, E>(a: Result<&T, E>) -> Result<T, E> {
    match a {
        Ok(x) => Ok(*x),
        Err(e) => Err(e),
    }
}
pub fn Result__cloned<T: Clone, E>(a: Result<&T, E>) -> Result<T, E> {
    match a {
        Ok(x) => Ok(x.clone()),
        Err(e) => Err(e),
    }
}
// Ordering
pub fn Ordering__is_eq(a: Ordering) -> bool {
    matches!(a, Ordering::Equal)
}
pub fn Ordering__is_ne(a: Ordering) -> bool {
    !matches!(a, Ordering::Equal)
}
pub fn Ordering__is_lt(a: Ordering) -> bool {
    matches!(a, Ordering::Less)
}
pub fn Ordering__is_gt(a: Ordering) -> bool {
    matches!(a, Ordering::Greater)
}
pub fn Ordering__is_le(a: Ordering) -> bool {
    !matches!(a, Ordering::Greater)
}
pub fn Ordering__is_ge(a: Ordering) -> bool {
    !matches!(a, Ordering::Less)
}
pub fn Ordering__reverse(a: Ordering) -> Ordering {
    match a {
        Ordering::Less => Ordering::Greater,
        Ordering::Equal => Ordering::Equal,
        Ordering::Greater => Ordering::Less,
    }
}
pub fn Ordering__then(a: Ordering, b: Ordering) -> Ordering {
    match a {
        Ordering::Equal => b,
        _ => a,
    }
}
pub fn Ordering__then_with<F: FnOnce() -> Ordering>(a: Ordering, f: F) -> Ordering {
    match a {
        Ordering::Equal => f(),
        _ => a,
    }
}
// iterators
pub fn Iterator__reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    match it.next() {
        None => None,
        Some(first) => {
            let mut acc = first;
            while let Some(x) = it.next() {
                acc = f(acc, x);
            }
            Some(acc)
        }
    }
}
pub fn Iterator__max<T: Ord, I: Iterator<Item = T>>(mut it: I) -> Option<T> {
    match it.next() {
        None => None,
        Some(first) => {
            let mut acc = first;
            while let Some(x) = it.next() {
                if !(x < acc) {
                    acc = x;
                }
            }
            Some(acc)
        }
    }
}
pub fn Iterator__min<T: Ord, I: Iterator<Item = T>>(mut it: I) -> Option<T> {
    match it.next() {
        None => None,
        Some(first) => {
            let mut acc = first;
            while let Some(x) = it.next() {
                if x < acc {
                    acc = x;
                }
            }
            Some(acc)
        }
    }
}
pub fn Iterator__max_by_key<T, K: Ord, I: Iterator<Item = T>, F: FnMut(&T) -> K>(mut it: I, mut f: F) -> Option<T> {
    match it.next() {
        None => None,
        Some(first) => {
            let mut k = f(&first);
            let mut acc = first;
            while let Some(x) = it.next() {
                let kx = f(&x);
                if !(kx < k) {
                    acc = x;
                    k = kx;
                }
            }
            Some(acc)
        }
    }
}
pub fn Iterator__min_by_key<T, K: Ord, I: Iterator<Item = T>, F: FnMut(&T) -> K>(mut it: I, mut f: F) -> Option<T> {
    match it.next() {
        None => None,
        Some(first) => {
            let mut k = f(&first);
            let mut acc = first;
            while let Some(x) = it.next() {
                let kx = f(&x);
                if kx < k {
                    acc = x;
                    k = kx;
                }
            }
            Some(acc)
        }
    }
}
pub fn Iterator__partition<T, I: Iterator<Item = T>, F: FnMut(&T) -> bool>(mut it: I, mut f: F) -> (Vec<T>, Vec<T>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    while let Some(x) = it.next() {
        if f(&x) {
            a.push(x);
        } else {
            b.push(x);
        }
    }
    (a, b)
}
pub fn Iterator__unzip<A, B, I: Iterator<Item = (A, B)>>(mut it: I) -> (Vec<A>, Vec<B>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    while let Some((x, y)) = it.next() {
        a.push(x);
        b.push(y);
    }
    (a, b)
}
pub fn Iterator__eq<A: PartialEq<B>, B, I: Iterator<Item = A>, J: IntoIterator<Item = B>>(mut it: I, jt: J) -> bool {
    let mut jt = jt.into_iter();
    loop {
        match (it.next(), jt.next()) {
            (None, None) => return true,
            (Some(a), Some(b)) => {
                if a != b {
                    return false;
                }
            }
            _ => return false,
        }
    }
}
pub fn Iterator__ne<A: PartialEq<B>, B, I: Iterator<Item = A>, J: IntoIterator<Item = B>>(it: I, jt: J) -> bool {
    !Iterator__eq(it, jt)
}
pub fn Iterator__cmp<A: Ord, I: Iterator<Item = A>, J: IntoIterator<Item = A>>(mut it: I, jt: J) -> Ordering {
    let mut jt = jt.into_iter();
    loop {
        match (it.next(), jt.next()) {
            (None, None) => return Ordering::Equal,
            (None, Some(_)) => return Ordering::Less,
            (Some(_), None) => return Ordering::Greater,
            (Some(a), Some(b)) => match a.cmp(&b) {
                Ordering::Equal => {}
                o => return o,
            },
        }
    }
}
pub fn Iterator__skip_while<T, I: Iterator<Item = T>, F: FnMut(&T) -> bool>(mut it: I, mut f: F) -> std::vec::IntoIter<T> {
    let mut r = Vec::new();
    let mut on = true;
    while let Some(x) = it.next() {
        if on && f(&x) {
            continue;
        }
        on = false;
        r.push(x);
    }
    r.into_iter()
}
pub fn Iterator__step_by<T, I: Iterator<Item = T>>(mut it: I, n: usize) -> std::vec::IntoIter<T> {
    assert!(n != 0);
    let mut r = Vec::new();
    let mut k = 0;
    while let Some(x) = it.next() {
        if k == 0 {
            r.push(x);
            k = n;
        }
        k -= 1;
    }
    r.into_iter()
}
pub fn Iterator__product(mut it: impl Iterator<Item = usize>) -> usize {
    let mut r = 1;
    while let Some(x) = it.next() {
        r *= x;
    }
    r
}
pub fn Iterator__scan<T, S, B, I: Iterator<Item = T>, F: FnMut(&mut S, T) -> Option<B>>(mut it: I, mut s: S, mut f: F) -> std::vec::IntoIter<B> {
    let mut r = Vec::new();
    while let Some(x) = it.next() {
        match f(&mut s, x) {
            Some(y) => r.push(y),
            None => break,
        }
    }
    r.into_iter()
}
pub fn DoubleEndedIterator__rfold<T, B, I: DoubleEndedIterator<Item = T>, F: FnMut(B, T) -> B>(it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    let mut it = it.rev();
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn Peekable__next_if<T, I: Iterator<Item = T>, F: FnOnce(&T) -> bool>(p: &mut Peekable<I>, f: F) -> Option<T> {
    let hit = match p.peek() {
        Some(x) => f(x),
        None => false,
    };
    if hit {
        p.next()
    } else {
        None
    }
}
pub fn Peekable__next_if_eq<T: PartialEq, I: Iterator<Item = T>>(p: &mut Peekable<I>, v: &T) -> Option<T> {
    let hit = match p.peek() {
        Some(x) => *x == *v,
        None => false,
    };
    if hit {
        p.next()
    } else {
        None
    }
}
// slices and vectors
pub fn slice__is_ascii(s: &[u8]) -> bool {
    s.iter().all(|b| *b < 128)
}
pub fn slice__eq_ignore_ascii_case(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.to_ascii_lowercase() == y.to_ascii_lowercase())
}
pub fn slice__split_at_unchecked<T>(s: &[T], n: usize) -> (&[T], &[T]) {
    s.split_at(n)
}
pub fn slice__get_unchecked<T>(s: &[T], n: usize) -> &T {
    &s[n]
}
pub fn slice__fill_with<T, F: FnMut() -> T>(s: &mut [T], mut f: F) {
    for x in s.iter_mut() {
        *x = f();
    }
}
pub fn Vec__retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    for x in old {
        if f(&x) {
            v.push(x);
        }
    }
}
pub fn Vec__split_off<T: Clone>(v: &mut Vec<T>, at: usize) -> Vec<T> {
    let r = v[at..].to_vec();
    v.truncate(at);
    r
}
pub fn Vec__swap_remove<T: Clone>(v: &mut Vec<T>, at: usize) -> T {
    let r = v[at].clone();
    let last = v.len() - 1;
    v[at] = v[last].clone();
    v.truncate(last);
    r
}
pub fn Vec__extend_from_within<T: Clone>(v: &mut Vec<T>, r: std::ops::Range<usize>) {
    let x = v[r].to_vec();
    v.extend_from_slice(&x);
}
pub fn Vec__resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    v.truncate(n);
    while v.len() < n {
        v.push(f());
    }
}
// strings
pub fn String__AddAssign__add_assign(s: &mut String, o: &str) {
    s.push_str(o)
}
pub fn String__Add__add(mut s: String, o: &str) -> String {
    s.push_str(o);
    s
}
pub fn String__insert_str(s: &mut String, at: usize, o: &str) {
    let tail = s[at..].to_owned();
    s.truncate(at);
    s.push_str(o);
    s.push_str(&tail);
}
// numbers
pub fn u8__to_ascii_lowercase(b: &u8) -> u8 {
    if *b >= b'A' && *b <= b'Z' {
        *b + 32
    } else {
        *b
    }
}
pub fn u8__to_ascii_uppercase(b: &u8) -> u8 {
    if *b >= b'a' && *b <= b'z' {
        *b - 32
    } else {
        *b
    }
}
pub fn u8__eq_ignore_ascii_case(a: &u8, b: &u8) -> bool {
    u8__to_ascii_lowercase(a) == u8__to_ascii_lowercase(b)
}
pub fn char__to_digit(c: char, radix: u32) -> Option<u32> {
    let n = c as u32;
    let v = if n >= 48 && n <= 57 {
        n - 48
    } else if n >= 97 && n <= 122 {
        n - 87
    } else if n >= 65 && n <= 90 {
        n - 55
    } else {
        return None;
    };
    if v < radix {
        Some(v)
    } else {
        None
    }
}
pub fn char__is_ascii(c: &char) -> bool {
    (*c as u32) < 128
}
pub fn char__is_ascii_hexdigit(c: &char) -> bool {
    let n = *c as u32;
    n >= 48 && n <= 57 || n >= 97 && n <= 102 || n >= 65 && n <= 70
}
pub fn char__is_ascii_digit(c: &char) -> bool {
    let n = *c as u32;
    n >= 48 && n <= 57
}
pub fn char__from_digit(v: u32, radix: u32) -> Option<char> {
    if v >= radix {
        return None;
    }
    Some(if v < 10 { (48 + v as u8) as char } else { (87 + v as u8) as char })
}
