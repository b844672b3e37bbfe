// driving iterators against their model
use crate::elem::*;
use crate::sim::*;
use crate::world::*;
use std::collections::VecDeque;

pub fn chaos() -> bool {
    s().ordmode == CHAOS
}
/// violation about results or contents; meaningless while comparison is inconsistent
pub fn vio(class: &'static str, f: impl FnOnce() -> String) {
    if !chaos() {
        viol(class, f)
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Hint {
    Exact,
    Bound,
    BoundMin(usize),
}
/// how far a jump (`nth`) goes: usually a step or two, sometimes past the end
fn jump(x: u64, left: usize) -> usize {
    match x % 16 {
        0 => left,
        1 => left + (x >> 8) as usize % 3,
        2 => left.saturating_sub(1),
        3..=6 => (x >> 8) as usize % 15,
        _ => (x >> 8) as usize % 3,
    }
}
/// Drive a double-ended iterator with an arbitrary interleaving of front and back steps, some of them jumps.
pub fn drive<I: DoubleEndedIterator, W: PartialEq + std::fmt::Debug>(it: &mut I, exp: &mut VecDeque<W>, bits: u64, take: usize, hk: Hint, mut conv: impl FnMut(I::Item) -> W) -> bool {
    let jumps = bits & 0x700 == 0;
    let start = bits;
    let mut bits = bits;
    for q in 0..take {
        check_hint(it.size_hint(), exp.len(), hk);
        let back = bits & 1 == 1;
        bits = bits.rotate_right(1);
        let x = crate::rng::mix(start ^ (q as u64) << 7);
        let by = if jumps && x & 3 == 0 { Some(jump(x >> 2, exp.len())) } else { None };
        let g = match pure(|| match (back, by) {
            (true, None) => it.next_back(),
            (false, None) => it.next(),
            (true, Some(n)) => it.nth_back(n),
            (false, Some(n)) => it.nth(n),
        }) {
            Some(g) => g,
            None => return false,
        };
        let got = match look(|| g.map(&mut conv)) {
            Some(g) => g,
            None => return false,
        };
        let skip = by.unwrap_or(0).min(exp.len());
        let w = if back {
            exp.truncate(exp.len() - skip);
            exp.pop_back()
        } else {
            exp.drain(..skip);
            exp.pop_front()
        };
        if got != w {
            vio("iter", || format!("{} {}{by:?} gave {got:?}, expected {w:?}", s().op, if back { "next_back" } else { "next" }));
            return false;
        }
        if got.is_none() {
            break;
        }
    }
    check_hint(it.size_hint(), exp.len(), hk);
    if exp.is_empty() {
        for b in [bits & 1 == 0, bits & 1 == 1] {
            if let Some(Some(x)) = pure(|| if b { it.next() } else { it.next_back() }) {
                let x = look(|| conv(x));
                vio("iter", || format!("{} yielded {x:?} after it was exhausted", s().op));
                return false;
            }
        }
    }
    true
}
/// Use up an iterator by one of the methods that take it by value.
pub fn finish<I: Iterator, W: PartialEq + std::fmt::Debug>(it: I, exp: VecDeque<W>, bits: u64, mut conv: impl FnMut(I::Item) -> W, eq: impl Fn(&W, &W) -> bool) {
    let n = exp.len();
    let mut got: Vec<W> = vec![];
    let (what, ok) = match bits % 4 {
        0 => ("count", pure(|| it.count()).map(|c| c == n)),
        1 => (
            "last",
            pure(|| it.last()).map(|l| match (look(|| l.map(&mut conv)), exp.back()) {
                (Some(Some(l)), Some(w)) => eq(&l, w),
                (Some(None), None) | (None, _) => true,
                _ => false,
            }),
        ),
        2 => {
            let r = pure(|| {
                it.fold(0, |d, x| {
                    let _g = crate::heap::enter(crate::heap::OFF);
                    got.push(conv(x));
                    d + 1
                })
            });
            ("fold", r.map(|d| d == n && got.len() == n && got.iter().zip(&exp).all(|(a, b)| eq(a, b))))
        }
        _ => {
            let r = pure(|| {
                for x in it {
                    let _g = crate::heap::enter(crate::heap::OFF);
                    got.push(conv(x));
                }
            });
            ("for", r.map(|_| got.len() == n && got.iter().zip(&exp).all(|(a, b)| eq(a, b))))
        }
    };
    if ok == Some(false) {
        vio("iter", || format!("{} by {what} gave {got:?} (or a wrong result), expected {exp:?}", s().op));
    }
}
/// the same from the other end
pub fn finish_back<I: DoubleEndedIterator, W: PartialEq + std::fmt::Debug>(it: I, mut exp: VecDeque<W>, bits: u64, conv: impl FnMut(I::Item) -> W) {
    exp.make_contiguous().reverse();
    if bits & 4 == 0 {
        finish(it.rev(), exp, bits, conv, |a, b| a == b);
    } else {
        let n = exp.len();
        let mut conv = conv;
        let mut got: Vec<W> = vec![];
        let r = pure(|| {
            it.rfold(0, |d, x| {
                let _g = crate::heap::enter(crate::heap::OFF);
                got.push(conv(x));
                d + 1
            })
        });
        if r.is_some() && (r != Some(n) || exp != got) {
            vio("iter", || format!("{} by rfold gave {got:?}, expected {exp:?}", s().op));
        }
    }
}
/// either, by the bits
pub fn finish_any<I: DoubleEndedIterator, W: PartialEq + std::fmt::Debug>(it: I, exp: VecDeque<W>, bits: u64, conv: impl FnMut(I::Item) -> W) {
    if bits & 8 == 0 {
        finish(it, exp, bits, conv, |a, b| a == b)
    } else {
        finish_back(it, exp, bits, conv)
    }
}
pub fn drive_fwd<I: Iterator, W: PartialEq + std::fmt::Debug>(it: &mut I, exp: &mut VecDeque<W>, bits: u64, take: usize, hk: Hint, mut conv: impl FnMut(I::Item) -> W, eq: impl Fn(&W, &W) -> bool) -> bool {
    for q in 0..take {
        check_hint(it.size_hint(), exp.len(), hk);
        let x = crate::rng::mix(bits ^ (q as u64) << 7);
        let by = if bits & 0x700 == 0 && x & 3 == 0 { jump(x >> 2, exp.len()) } else { 0 };
        let g = match pure(|| if by > 0 { it.nth(by) } else { it.next() }) {
            Some(g) => g,
            None => return false,
        };
        let got = match look(|| g.map(&mut conv)) {
            Some(g) => g,
            None => return false,
        };
        exp.drain(..by.min(exp.len()));
        let w = exp.pop_front();
        let good = match (&got, &w) {
            (None, None) => true,
            (Some(a), Some(b)) => eq(a, b),
            _ => false,
        };
        if !good {
            vio("iter", || format!("{} gave {got:?}, expected {w:?}", s().op));
            return false;
        }
        if got.is_none() {
            break;
        }
    }
    check_hint(it.size_hint(), exp.len(), hk);
    if exp.is_empty() {
        for _ in 0..2 {
            if let Some(Some(x)) = pure(|| it.next()) {
                let x = look(|| conv(x));
                vio("iter", || format!("{} yielded {x:?} after it was exhausted", s().op));
                return false;
            }
        }
    }
    true
}
pub fn length(l: Option<usize>, n: usize) {
    if l.is_some() && l != Some(n) {
        vio("iter", || format!("{}: len() {l:?} with {n} left", s().op));
    }
}
pub fn check_hint(hh: (usize, Option<usize>), n: usize, hk: Hint) {
    let ok = match hk {
        Hint::Exact => hh == (n, Some(n)),
        Hint::Bound => hh.0 <= n && hh.1.map_or(true, |u| n <= u),
        Hint::BoundMin(u0) => hh.0 <= n && hh.1.map_or(true, |u| n <= u && u <= u0.max(n)),
    };
    if !ok {
        vio("iter", || format!("{}: size hint {hh:?} with {n} elements left", s().op));
    }
}
