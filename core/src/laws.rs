//! What must hold of an iterator that is known to yield `want`, however it is driven: `nth`,
//! `skip`, `step_by`, `last`, `count`, `fold`, `for`, `find`, after any number of single steps.
//! An implementation is free to override any of these methods; all must agree with `next`.

use crate::engine::Res;
use crate::{check, check_eq};

/// Positions and distances tried: all of them for short sequences.
fn points(n: usize) -> Vec<usize> {
    if n <= 6 {
        (0..=n).collect()
    } else {
        vec![0, 1, 2, n / 2, n - 2, n - 1, n]
    }
}

/// `make` produces a fresh iterator; `key` makes its items comparable. Items after the end of
/// `want` are not allowed.
pub fn iter_laws<I: Iterator, T>(what: &str, make: impl Fn() -> I, key: impl Fn(I::Item) -> T, want: &[T]) -> Res
where
    T: PartialEq + std::fmt::Debug,
{
    let n = want.len();
    for i in points(n) {
        // a fresh iterator after i single steps
        let at = || {
            let mut it = make();
            for _ in 0..i {
                it.next();
            }
            it
        };
        let left = n - i;
        let (lo, hi) = at().size_hint();
        check!(lo <= left && hi.is_none_or(|h| h >= left), "{what}: size_hint {lo}..{hi:?} after {i} items, {left} left");
        for j in points(left) {
            let mut it = at();
            let got = it.nth(j).map(&key);
            check!(got.as_ref() == want.get(i + j), "{what}: nth({j}) after {i} items: got {got:?} expected {:?}", want.get(i + j));
            let from = (i + j + 1).min(n);
            let (lo, hi) = it.size_hint();
            check!(lo <= n - from && hi.is_none_or(|h| h >= n - from), "{what}: size_hint {lo}..{hi:?} after nth({j}) after {i} items");
            let rest: Vec<T> = it.map(&key).collect();
            check_eq!(rest[..], want[from..], "{what}: the rest after nth({j}) after {i} items");
        }
        check_eq!(at().count(), left, "{what}: count after {i} items");
        check!(at().last().map(&key).as_ref() == want[i..].last(), "{what}: last after {i} items");
        let mut f = vec![];
        at().for_each(|x| f.push(key(x)));
        check_eq!(f[..], want[i..], "{what}: for_each after {i} items");
        let f = at().fold(vec![], |mut v, x| {
            v.push(key(x));
            v
        });
        check_eq!(f[..], want[i..], "{what}: fold after {i} items");
        if left > 1 {
            for st in [2, 3] {
                let got: Vec<T> = at().step_by(st).map(&key).collect();
                check!(got.iter().eq(want[i..].iter().step_by(st)), "{what}: step_by({st}) after {i} items: got {got:?}");
            }
            // two jumps in a row
            let mut it = at();
            let _ = it.nth(0);
            let got = it.nth(left.saturating_sub(2).min(1)).map(&key);
            check!(got.as_ref() == want.get(i + 1 + left.saturating_sub(2).min(1)), "{what}: two jumps after {i} items: got {got:?}");
            let got: Vec<T> = at().skip(left - 1).map(&key).collect();
            check_eq!(got[..], want[n - 1..], "{what}: skip({}) after {i} items", left - 1);
            let mut k = 0;
            let found = at().find(|_| {
                k += 1;
                k == left
            });
            check!(found.map(&key).as_ref() == want.last(), "{what}: find after {i} items");
            let mut it = at();
            let taken: Vec<T> = it.by_ref().take(left - 1).map(&key).collect();
            check_eq!(taken[..], want[i..n - 1], "{what}: take({}) after {i} items", left - 1);
            check!(it.next().map(&key).as_ref() == want.last(), "{what}: after take({}) after {i} items", left - 1);
        }
    }
    Ok(())
}
