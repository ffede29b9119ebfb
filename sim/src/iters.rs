//! The iterator contract, for any iterator the library hands out.
use crate::engine::{Ctx, R};
use crate::{ensure, lib, tr};
use std::fmt::Debug;

const LIMIT: usize = 4_000_000;

/// the plain step-by-step sequence
pub fn plain<I: Iterator>(name: &str, mut it: I) -> R<Vec<I::Item>> {
    let mut v = Vec::new();
    while let Some(x) = lib!(it.next()) {
        v.push(x);
        ensure!(v.len() < LIMIT, format!("{name}: iterator does not end"), "after {LIMIT} items");
    }
    for _ in 0..2 {
        ensure!(
            lib!(it.next()).is_none(),
            format!("{name}: exhausted iterator yields again"),
            "after {} items",
            v.len()
        );
    }
    Ok(v)
}

/// `make` gives a fresh iterator; `cl` clones one; `exact` is its `ExactSizeIterator::len`.
pub fn check_iter<I>(
    c: &mut Ctx,
    name: &str,
    make: &dyn Fn() -> I,
    cl: Option<fn(&I) -> I>,
    exact: Option<fn(&I) -> usize>,
) -> R
where
    I: Iterator,
    I::Item: PartialEq + Debug,
{
    let want = plain(name, lib!(make()))?;
    let n = want.len();
    let mut it = lib!(make());
    let mut pos = 0usize;
    let steps = c.s.range(1, 8);
    c.count("iterator histories");
    let size = |c: &mut Ctx, it: &I, pos: usize| -> R {
        let (lo, hi) = lib!(it.size_hint());
        let left = n - pos;
        ensure!(
            lo <= left,
            format!("{name}: lower size bound above what is left"),
            "size_hint ({lo}, {hi:?}) with {left} of {n} left"
        );
        if let Some(h) = hi {
            ensure!(
                h >= left,
                format!("{name}: upper size bound below what is left"),
                "size_hint ({lo}, {hi:?}) with {left} of {n} left"
            );
        }
        if let Some(e) = exact {
            let l = lib!(e(it));
            ensure!(l == left, format!("{name}: exact size wrong"), "len() = {l} with {left} of {n} left");
            ensure!(
                (lo, hi) == (left, Some(left)),
                format!("{name}: exact size wrong"),
                "size_hint ({lo}, {hi:?}) with {left} of {n} left"
            );
        }
        c.ev(left as u64);
        Ok(())
    };
    let bad = |what: &str, k: usize, got: String, exp: String, pos: usize| -> R {
        crate::fail!(
            format!("{name}: {what} disagrees with single steps"),
            "{what}({k}) at {pos} of {n}: {got} expected {exp}"
        )
    };
    size(c, &it, pos)?;
    for _ in 0..steps {
        c.step();
        let op = c.s.draw(9);
        c.ev(op);
        let left = n - pos;
        match op {
            0 => {
                let x = lib!(it.next());
                tr!(c, "next at {pos}");
                if x.as_ref() != want.get(pos) {
                    return bad("next", 0, format!("{x:?}"), format!("{:?}", want.get(pos)), pos);
                }
                pos = (pos + 1).min(n);
            }
            1 | 2 => {
                let k = match c.s.draw(7) {
                    0 => 0,
                    1 => c.s.range(0, left),
                    2 => left,
                    3 => left + 1,
                    4 => left.saturating_sub(1),
                    5 => {
                        c.count("jump far past the end");
                        usize::MAX - c.s.below(3)
                    }
                    _ => left + c.s.range(0, 40),
                };
                c.ev(k as u64);
                tr!(c, "nth({k}) at {pos} of {n}");
                let x = lib!(it.nth(k));
                let e = if k < left { Some(&want[pos + k]) } else { None };
                if k >= left {
                    c.count("jump past the end");
                }
                if x.as_ref() != e {
                    return bad("nth", k, format!("{x:?}"), format!("{e:?}"), pos);
                }
                pos = if k < left { pos + k + 1 } else { n };
            }
            3 => size(c, &it, pos)?,
            4 => {
                if let Some(f) = cl {
                    tr!(c, "continue on a clone at {pos}");
                    it = lib!(f(&it));
                }
            }
            5 => {
                // step_by / skip / take over a borrowed iterator
                let k = c.s.range(0, 5);
                tr!(c, "take({k}) at {pos}");
                let got: Vec<I::Item> = lib!(it.by_ref().take(k).collect());
                if got[..] != want[pos..(pos + k).min(n)] {
                    return bad("take", k, format!("{got:?}"), format!("{:?}", &want[pos..(pos + k).min(n)]), pos);
                }
                pos = (pos + k).min(n);
            }
            6 => {
                if let Some(f) = cl {
                    let x = lib!(f(&it).count());
                    tr!(c, "count of a clone at {pos}");
                    if x != left {
                        return bad("count", 0, format!("{x}"), format!("{left}"), pos);
                    }
                }
            }
            7 => {
                if let Some(f) = cl {
                    let x = lib!(f(&it).last());
                    tr!(c, "last of a clone at {pos}");
                    if x.as_ref() != want[pos..].last() {
                        return bad("last", 0, format!("{x:?}"), format!("{:?}", want[pos..].last()), pos);
                    }
                }
            }
            _ => {
                if let Some(f) = cl {
                    let k = c.s.range(1, 9);
                    tr!(c, "step_by({k}) of a clone at {pos}");
                    let x: Vec<I::Item> = lib!(f(&it).step_by(k).collect());
                    let e: Vec<&I::Item> = want[pos..].iter().step_by(k).collect();
                    if x.iter().collect::<Vec<_>>() != e {
                        return bad("step_by", k, format!("{x:?}"), format!("{e:?}"), pos);
                    }
                }
            }
        }
        size(c, &it, pos)?;
    }
    // finish one way or another
    let left = n - pos;
    match c.s.draw(5) {
        0 => {
            let x = lib!(it.count());
            if x != left {
                return bad("count", 0, format!("{x}"), format!("{left}"), pos);
            }
        }
        1 => {
            let x = lib!(it.last());
            if x.as_ref() != want[pos..].last() {
                return bad("last", 0, format!("{x:?}"), format!("{:?}", want[pos..].last()), pos);
            }
        }
        2 => {
            let k = c.s.range(0, left + 2);
            let x: Vec<I::Item> = lib!(it.skip(k).collect());
            if x[..] != want[(pos + k).min(n)..] {
                return bad("skip", k, format!("{x:?}"), format!("{:?}", &want[(pos + k).min(n)..]), pos);
            }
        }
        3 => {
            let x: Vec<I::Item> = lib!(it.fold(Vec::new(), |mut v, x| {
                v.push(x);
                v
            }));
            if x[..] != want[pos..] {
                return bad("fold", 0, format!("{x:?}"), format!("{:?}", &want[pos..]), pos);
            }
        }
        _ => {
            let x = plain(name, it)?;
            if x[..] != want[pos..] {
                return bad("collect", 0, format!("{x:?}"), format!("{:?}", &want[pos..]), pos);
            }
        }
    }
    c.nontrivial |= n > 0;
    Ok(())
}

/// packets cut from a message of `units` words
pub fn packets<'a>(
    c: &mut Ctx,
    name: &str,
    make: &dyn Fn() -> midi2::PacketsIterator<'a>,
    units: usize,
) -> R {
    let v = plain(name, lib!(make()))?;
    let w: usize = v.iter().map(|p| p.len()).sum();
    ensure!(
        w == units,
        format!("{name}: packets do not cover the message"),
        "{w} words in {} packets of a message of {units}",
        v.len()
    );
    check_iter(c, name, make, Some(|i| i.clone()), Some(|i| i.len()))
}

/// Goes through an iterator in every way without keeping anything.
pub fn swirl<I: Iterator>(make: impl Fn() -> I) -> u64 {
    let mut h = make().size_hint().0 as u64;
    for k in [0, 1, 6, 13] {
        let mut j = make();
        h = h.wrapping_mul(3) + j.nth(k).is_some() as u64 + j.next().is_some() as u64;
        h = h.wrapping_add(j.size_hint().0 as u64);
    }
    h += make().count() as u64 + make().last().is_some() as u64;
    h.wrapping_add(make().skip(3).step_by(2).count() as u64)
}

/// Where printed text goes when nobody keeps it.
struct Sink(u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
pub fn print(d: &dyn Debug) -> u64 {
    let mut s = Sink(0);
    let _ = std::fmt::Write::write_fmt(&mut s, format_args!("{d:?}"));
    s.0
}

/// Every reading of a single packet, kept nowhere.
pub fn sip(p: &crate::props::recv::Packet) -> u64 {
    use crate::props::recv::Packet;
    use midi2::{Channeled, Grouped};
    let mut h = p[0] as u64 + p.len() as u64 + print(p);
    match p {
        Packet::Sysex7(p) => {
            h += u8::from(p.group()) as u64 + print(&p.status()) + p.payload().len() as u64;
            h += p.payload().nth(2).map_or(0, |b| u8::from(b) as u64) + p.payload().count() as u64;
            h += p.payload().map(|b| u8::from(b) as u64).sum::<u64>();
        }
        Packet::Sysex8(p) => {
            h += u8::from(p.group()) as u64 + print(&p.status()) + p.stream_id() as u64 + p.payload().len() as u64;
            h += p.payload().nth(2).map_or(0, |b| b as u64) + p.payload().count() as u64;
            h += p.payload().map(|b| b as u64).sum::<u64>();
        }
        Packet::FlexData(p) => h += u8::from(p.group()) as u64 + print(&p.format()),
        Packet::UmpStream(p) => h += print(&p.format()),
        Packet::ChannelVoice1(p) => h += u8::from(p.group()) as u64 + u8::from(p.channel()) as u64,
        Packet::ChannelVoice2(p) => h += u8::from(p.group()) as u64 + u8::from(p.channel()) as u64,
        Packet::SystemCommon(p) => h += u8::from(p.group()) as u64,
        Packet::Utility(_) => {}
    }
    h
}
