// Bodies analysed in place of the standard library's own for iterator consumers and slice accessors:
// the same behaviour written over `next`/`next_back` alone (the documented meaning of each method).
// The driver substitutes `shim_i_NAME` for `Iterator::NAME`, `shim_d_NAME` for
// `DoubleEndedIterator::NAME`, and the others by the table in driver/src/main.rs.
#[allow(unused, clippy::all)]
pub mod sa_shims {
    use std::ops::{ControlFlow, FromResidual, Residual, Try};
    fn shim_i_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() { if f(x) { return true } }
        false
    }
    fn shim_i_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() { if !f(x) { return false } }
        true
    }
    fn shim_i_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
        while let Some(x) = it.next() { if f(&x) { return Some(x) } }
        None
    }
    fn shim_i_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
        while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y) } }
        None
    }
    fn shim_i_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
        let mut i = 0;
        while let Some(x) = it.next() { if f(x) { return Some(i) } i += 1; }
        None
    }
    fn shim_i_count<I: Iterator>(mut it: I) -> usize {
        let mut i = 0;
        while let Some(_) = it.next() { i += 1; }
        i
    }
    fn shim_i_last<I: Iterator>(mut it: I) -> Option<I::Item> {
        let mut l = None;
        while let Some(x) = it.next() { l = Some(x); }
        l
    }
    fn shim_i_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
        let mut n = n;
        while n > 0 { if it.next().is_none() { return None } n -= 1; }
        it.next()
    }
    fn shim_i_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
        let mut acc = init;
        while let Some(x) = it.next() { acc = f(acc, x); }
        acc
    }
    fn shim_i_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
        while let Some(x) = it.next() { f(x); }
    }
    fn shim_i_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
        let mut acc = init;
        while let Some(x) = it.next() {
            match f(acc, x).branch() {
                ControlFlow::Continue(c) => acc = c,
                ControlFlow::Break(r) => return R::from_residual(r),
            }
        }
        R::from_output(acc)
    }
    fn shim_i_try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Try<Output = ()>>(it: &mut I, mut f: F) -> R {
        while let Some(x) = it.next() {
            match f(x).branch() {
                ControlFlow::Continue(c) => {}
                ControlFlow::Break(r) => return R::from_residual(r),
            }
        }
        R::from_output(())
    }
    fn shim_i_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
        let mut acc = match it.next() { Some(x) => x, None => return None };
        while let Some(x) = it.next() { acc = f(acc, x); }
        Some(acc)
    }
    fn shim_i_max<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
        let mut acc = match it.next() { Some(x) => x, None => return None };
        while let Some(x) = it.next() { if x >= acc { acc = x; } }
        Some(acc)
    }
    fn shim_i_min<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
        let mut acc = match it.next() { Some(x) => x, None => return None };
        while let Some(x) = it.next() { if x < acc { acc = x; } }
        Some(acc)
    }
    fn shim_d_rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
        while let Some(x) = it.next_back() { if f(&x) { return Some(x) } }
        None
    }
    fn shim_d_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
        let mut acc = init;
        while let Some(x) = it.next_back() { acc = f(acc, x); }
        acc
    }
    fn shim_d_try_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
        let mut acc = init;
        while let Some(x) = it.next_back() {
            match f(acc, x).branch() {
                ControlFlow::Continue(c) => acc = c,
                ControlFlow::Break(r) => return R::from_residual(r),
            }
        }
        R::from_output(acc)
    }
    fn shim_d_nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> {
        let mut n = n;
        while n > 0 { if it.next_back().is_none() { return None } n -= 1; }
        it.next_back()
    }
    fn shim_vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
        let mut v = Vec::new();
        let mut it = it.into_iter();
        while let Some(x) = it.next() { v.push(x); }
        v
    }
    fn shim_vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
        let mut it = it.into_iter();
        while let Some(x) = it.next() { v.push(x); }
    }
    fn shim_vec_extend_ref<T: Copy, I: IntoIterator>(v: &mut Vec<T>, it: I) where I::Item: std::ops::Deref<Target = T> {
        let mut it = it.into_iter();
        while let Some(x) = it.next() { v.push(*x); }
    }
    fn shim_string_from_iter_char<I: IntoIterator<Item = char>>(it: I) -> String {
        let mut v = String::new();
        let mut it = it.into_iter();
        while let Some(x) = it.next() { v.push(x); }
        v
    }
    fn shim_string_extend_char<I: IntoIterator<Item = char>>(v: &mut String, it: I) {
        let mut it = it.into_iter();
        while let Some(x) = it.next() { v.push(x); }
    }
    fn shim_string_from_iter_str<I: IntoIterator>(it: I) -> String where I::Item: AsRef<str> {
        let mut v = String::new();
        let mut it = it.into_iter();
        while let Some(x) = it.next() { v.push_str(x.as_ref()); }
        v
    }
    fn shim_string_extend_str<I: IntoIterator>(v: &mut String, it: I) where I::Item: AsRef<str> {
        let mut it = it.into_iter();
        while let Some(x) = it.next() { v.push_str(x.as_ref()); }
    }
    fn shim_slice_first<T>(s: &[T]) -> Option<&T> { s.iter().next() }
    fn shim_slice_last<T>(s: &[T]) -> Option<&T> { s.iter().next_back() }
    fn shim_slice_split_first<T>(s: &[T]) -> Option<(&T, &[T])> {
        match s.iter().next() { Some(x) => Some((x, &s[1..])), None => None }
    }
    fn shim_slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
        let mut it = s.iter();
        while let Some(y) = it.next() { if *y == *x { return true } }
        false
    }
    fn shim_vec_index_usize<T>(v: &Vec<T>, i: usize) -> &T {
        let mut it = v.iter();
        let mut n = i;
        while n > 0 { if it.next().is_none() { panic!("index") } n -= 1; }
        match it.next() { Some(x) => x, None => panic!("index") }
    }
    fn shim_slice_get_usize<T>(i: usize, s: &[T]) -> Option<&T> {
        let mut it = s.iter();
        let mut n = i;
        while n > 0 { if it.next().is_none() { return None } n -= 1; }
        it.next()
    }
    fn shim_vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
        let old = std::mem::replace(v, Vec::new());
        let mut it = old.into_iter();
        while let Some(x) = it.next() { if f(&x) { v.push(x); } }
    }
    fn shim_str_is_prefix(p: &str, s: &str) -> bool {
        let mut a = s.chars();
        let mut b = p.chars();
        while let Some(y) = b.next() {
            match a.next() { Some(x) => if x != y { return false }, None => return false }
        }
        true
    }
    fn shim_str_strip_prefix<'a>(p: &str, s: &'a str) -> Option<&'a str> {
        let mut a = s.chars();
        let mut b = p.chars();
        while let Some(y) = b.next() {
            match a.next() { Some(x) => if x != y { return None }, None => return None }
        }
        Some(a.as_str())
    }
    fn shim_str_is_suffix(p: &str, s: &str) -> bool {
        let mut a = s.chars();
        loop {
            if a.as_str() == p { return true }
            if a.next().is_none() { return false }
        }
    }
    fn shim_str_contains_str(p: &str, s: &str) -> bool {
        let mut a = s.chars();
        loop {
            if a.as_str().starts_with(p) { return true }
            if a.next().is_none() { return false }
        }
    }
    fn shim_str_trim(s: &str) -> &str {
        let s = s.trim_start();
        s.trim_end()
    }
    fn shim_str_trim_start(s: &str) -> &str {
        let mut a = s.chars();
        loop {
            let rest = a.as_str();
            match a.next() {
                Some(c) => if !c.is_whitespace() { return rest },
                None => return "",
            }
        }
    }
    fn shim_str_trim_end(s: &str) -> &str {
        let mut a = s.char_indices();
        let mut end = 0;
        while let Some((i, c)) = a.next() {
            if !c.is_whitespace() { end = i + c.len_utf8(); }
        }
        &s[..end]
    }
    fn shim_str_is_ascii(s: &str) -> bool {
        let mut a = s.chars();
        while let Some(c) = a.next() { if c > '\u{7f}' { return false } }
        true
    }
    fn shim_str_eq_ignore_ascii_case(s: &str, t: &str) -> bool {
        let mut a = s.chars();
        let mut b = t.chars();
        while let Some(y) = b.next() {
            match a.next() { Some(x) => if !x.eq_ignore_ascii_case(&y) { return false }, None => return false }
        }
        a.next().is_none()
    }
    fn shim_str_split_once<P: std::str::pattern::Pattern>(s: &str, p: P) -> Option<(&str, &str)> {
        match s.find(p) {
            Some(i) => {
                let mut rest = s[i..].chars();
                rest.next();
                Some((&s[..i], rest.as_str()))
            }
            None => None,
        }
    }
    fn shim_str_replace_char(s: &str, p: char, to: &str) -> String {
        let mut out = String::new();
        let mut a = s.chars();
        while let Some(c) = a.next() {
            if c == p { out.push_str(to); } else { out.push(c); }
        }
        out
    }
}
