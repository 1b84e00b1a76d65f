//! C09, C10: what an iterator yields does not depend on how it is consumed.
//! Every way the standard library drives an iterator (each of which a type may
//! override) is compared with the list obtained by calling `next`.
use crate::machine::*;
use crate::model::guard;
use crate::report::*;

type Show<T> = fn(&T) -> String;

fn diff(way: &str, got: &[String], want: &[String]) -> Option<String> {
    if got == want {
        return None;
    }
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Some(format!("{}: {} items where next() gives {}; the first difference is at {}: {:?} for {:?}", way, got.len(), want.len(), k, got.get(k), want.get(k)))
}

/// How many ways there are; `way` takes the index of one.
const WAYS: u64 = 24;

fn way<I: Iterator>(w: u64, rng: &mut Rng, fresh: &dyn Fn() -> Option<I>, show: Show<I::Item>, want: &[String]) -> Option<String> {
    let n = want.len();
    let new = || fresh().expect("the iterator is there the second time, too");
    let k = rng.below(n as u32 + 2) as usize;
    let from = |k: usize| &want[k.min(n)..];
    let some = |way: &str, got: Option<I::Item>, at: usize| {
        let got = got.map(|x| show(&x));
        if got.as_ref() == want.get(at) {
            None
        } else {
            Some(format!("{}: {:?}, item {} of {} is {:?}", way, got, at, n, want.get(at)))
        }
    };
    let head = |i: &mut I| {
        for _ in 0..k.min(n) {
            i.next();
        }
    };
    match w {
        0 => {
            let mut i = new();
            for at in 0..=n {
                let (lo, hi) = i.size_hint();
                if lo > n - at || hi.is_some_and(|h| h < n - at) {
                    return Some(format!("size_hint() is {:?} with {} items left", (lo, hi), n - at));
                }
                if at < n {
                    i.next();
                }
            }
            None
        }
        1 => {
            let mut i = new();
            head(&mut i);
            let c = i.count();
            (c != n - k.min(n)).then(|| format!("count() is {} after {} of {} items", c, k.min(n), n))
        }
        2 => {
            let mut i = new();
            head(&mut i);
            let l = i.last().map(|x| show(&x));
            let e = if k < n { want.last() } else { None };
            (l.as_ref() != e).then(|| format!("last() is {:?} after {} of {} items, expected {:?}", l, k, n, e))
        }
        3 => some("nth", new().nth(k), k),
        4 => {
            // a sequence of nth with next between
            let mut i = new();
            let mut at = 0;
            let mut s = Vec::new();
            while at < n {
                let d = if rng.chance(1, 3) { 0 } else { rng.below((n - at).min(9) as u32 + 1) as usize };
                s.push(d);
                let x = if d == 0 && rng.chance(1, 2) { i.next() } else { i.nth(d) };
                at += d;
                if let Some(e) = some(&format!("nth in the sequence {:?}", s), x, at) {
                    return Some(e);
                }
                at += 1;
            }
            None
        }
        5 => {
            let mut i = new();
            head(&mut i);
            let v = i.fold(Vec::new(), |mut v, x| {
                v.push(show(&x));
                v
            });
            diff("fold", &v, from(k))
        }
        6 => {
            let mut v = Vec::new();
            let mut i = new();
            head(&mut i);
            i.for_each(|x| v.push(show(&x)));
            diff("for_each", &v, from(k))
        }
        7 => diff("collect", &new().map(|x| show(&x)).collect::<Vec<_>>(), want),
        8 => diff("skip", &new().skip(k).map(|x| show(&x)).collect::<Vec<_>>(), from(k)),
        9 => {
            let s = 1 + rng.below(5) as usize;
            let e: Vec<String> = want.iter().step_by(s).cloned().collect();
            diff("step_by", &new().step_by(s).map(|x| show(&x)).collect::<Vec<_>>(), &e)
        }
        10 => {
            let s = 1 + rng.below(4) as usize;
            let e: Vec<String> = from(k).iter().step_by(s).cloned().collect();
            diff("skip and step_by", &new().skip(k).step_by(s).map(|x| show(&x)).collect::<Vec<_>>(), &e)
        }
        11 => {
            let mut i = new();
            let mut v: Vec<String> = i.by_ref().take(k).map(|x| show(&x)).collect();
            if v.len() != k.min(n) {
                return Some(format!("take({}) gives {} of {} items", k, v.len(), n));
            }
            if k < n {
                v.extend(i.map(|x| show(&x)));
            }
            diff("take and the rest", &v, want)
        }
        12 => {
            // two at once
            let v: Vec<(String, String)> = new().zip(new()).map(|(a, b)| (show(&a), show(&b))).collect();
            let (a, b): (Vec<String>, Vec<String>) = v.into_iter().unzip();
            diff("zip, first", &a, want).or(diff("zip, second", &b, want))
        }
        13 => {
            let mut i = new().enumerate();
            let mut at = 0;
            for (j, x) in &mut i {
                if j != at {
                    return Some(format!("enumerate counts {} for item {}", j, at));
                }
                if let Some(e) = some("enumerate", Some(x), at) {
                    return Some(e);
                }
                at += 1;
            }
            (at != n).then(|| format!("enumerate gives {} of {} items", at, n))
        }
        14 => {
            let mut at = 0;
            let p = new().position(|_| {
                at += 1;
                at == k + 1
            });
            let e = if k < n { Some(k) } else { None };
            (p != e).then(|| format!("position() is {:?} when stopped at item {} of {}", p, k, n))
        }
        15 => {
            let mut i = new();
            let mut at = 0;
            let x = i.find(|_| {
                at += 1;
                at == k + 1
            });
            if let Some(e) = some("find", x, k) {
                return Some(e);
            }
            if k + 1 < n {
                return some("next after find", i.next(), k + 1);
            }
            None
        }
        16 => {
            let mut i = new();
            let mut v = Vec::new();
            let r = i.try_for_each(|x| {
                v.push(show(&x));
                if v.len() == k + 1 {
                    Err(())
                } else {
                    Ok(())
                }
            });
            if r.is_err() != (k < n) {
                return Some(format!("try_for_each ended with {:?} when stopped at item {} of {}", r, k, n));
            }
            if k < n {
                v.extend(i.map(|x| show(&x)));
            }
            diff("try_for_each and the rest", &v, want)
        }
        17 => {
            let mut i = new().peekable();
            for at in 0..n {
                if rng.chance(1, 2) {
                    let p = i.peek().map(|x| show(x));
                    if p.as_ref() != want.get(at) {
                        return Some(format!("peek: {:?}, item {} of {} is {:?}", p, at, n, want.get(at)));
                    }
                }
                if let Some(e) = some("next after peek", i.next(), at) {
                    return Some(e);
                }
            }
            i.peek().map(|x| format!("an item after the end: {}", show(x)))
        }
        18 => {
            let m = new().map(|x| show(&x)).max();
            let l = new().map(|x| show(&x)).min();
            if m.as_ref() != want.iter().max() || l.as_ref() != want.iter().min() {
                return Some(format!("max and min are {:?} and {:?}", m, l));
            }
            None
        }
        19 => {
            let (mut a, mut b) = (0, 0);
            let (x, y): (Vec<_>, Vec<_>) = new().map(|x| show(&x)).enumerate().partition(|(i, _)| i % 3 == 0);
            for (i, s) in &x {
                a += 1;
                if Some(s) != want.get(*i) {
                    return Some(format!("partition: item {} is {:?}", i, s));
                }
            }
            for (i, s) in &y {
                b += 1;
                if Some(s) != want.get(*i) {
                    return Some(format!("partition: item {} is {:?}", i, s));
                }
            }
            (a + b != n).then(|| format!("partition gives {} of {} items", a + b, n))
        }
        20 => diff("chain", &new().chain(new().skip(k)).map(|x| show(&x)).collect::<Vec<_>>(), &[want, from(k)].concat()),
        21 => {
            let mut at = 0;
            let a = new().all(|_| {
                at += 1;
                at <= k
            });
            let mut bt = 0;
            let b = new().any(|_| {
                bt += 1;
                bt == k + 1
            });
            (a != (k >= n) || b != (k < n) || at != (k + 1).min(n) || bt != at).then(|| format!("all() is {} after {} calls, any() is {} after {} calls, expected to stop at item {} of {}", a, at, b, bt, k, n))
        }
        22 => (!new().map(|x| show(&x)).eq(want.iter().cloned())).then(|| "eq() with the items next() gives is false".to_string()),
        _ => diff("fuse, filter_map and reduce", &[new().fuse().filter_map(|x| Some(show(&x))).reduce(|a, b| a + "|" + &b).unwrap_or_default()], &[want.join("|")]),
    }
}

/// A clone taken after any number of items, both continued in any order.
fn clones<I: Iterator + Clone>(rng: &mut Rng, fresh: &dyn Fn() -> Option<I>, show: Show<I::Item>, want: &[String]) -> Option<String> {
    let n = want.len();
    let mut its = vec![(fresh()?, 0usize)];
    for _ in 0..n * 2 + 6 {
        let j = rng.below(its.len() as u32) as usize;
        if its.len() < 5 && rng.chance(1, 3) {
            let c = its[j].clone();
            its.push(c);
            continue;
        }
        let (i, at) = &mut its[j];
        if *at > n {
            continue;
        }
        let d = if rng.chance(1, 4) { rng.below((n - *at) as u32 + 1) as usize } else { 0 };
        let x = if d == 0 { i.next() } else { i.nth(d) };
        *at += d;
        let x = x.map(|x| show(&x));
        if x.as_ref() != want.get(*at) {
            return Some(format!("one of {} clones gives {:?} as item {} of {}, next() alone {:?}", its.len(), x, its[j].1, n, want.get(its[j].1)));
        }
        *at += 1;
    }
    None
}

/// Compares `few` of the ways, chosen by `rng`, with plain `next`.
pub fn probe<I: Iterator>(name: &str, few: u32, rng: &mut Rng, fresh: &dyn Fn() -> Option<I>, show: Show<I::Item>, m: &Machine, rep: &mut Report) {
    let want = match guard(|| {
        let mut v = Vec::new();
        let mut i = fresh()?;
        while let Some(x) = i.next() {
            v.push(show(&x));
        }
        Some(v)
    }) {
        Ok(Some(v)) => v,
        _ => return, // judged by the walk
    };
    rep.max(&format!("max {} consumed in other ways than next", name), want.len() as u64);
    for _ in 0..few {
        let w = rng.below(WAYS as u32) as u64;
        let mut r = *rng;
        rng.u32();
        rep.eval(None);
        rep.count("consumptions of an iterator in another way than next", 1);
        match guard(|| way(w, &mut r, fresh, show, &want)) {
            Err(e) => return rep.viol(&format!("{}:way:panic", name), || format!("consumption {} of {} items: {}", w, want.len(), e), m),
            Ok(Some(e)) => return rep.viol(&format!("{}:way", name), || e, m),
            Ok(None) => {}
        }
    }
}

pub fn probe_clone<I: Iterator + Clone>(name: &str, few: u32, rng: &mut Rng, fresh: &dyn Fn() -> Option<I>, show: Show<I::Item>, m: &Machine, rep: &mut Report) {
    probe(name, few, rng, fresh, show, m, rep);
    let want: Vec<String> = match guard(|| {
        let mut v = Vec::new();
        let mut i = fresh()?;
        while let Some(x) = i.next() {
            v.push(show(&x));
        }
        Some(v)
    }) {
        Ok(Some(v)) => v,
        _ => return,
    };
    let mut r = *rng;
    rng.u32();
    rep.eval(None);
    rep.count("families of iterator clones consumed", 1);
    match guard(|| clones(&mut r, fresh, show, &want)) {
        Err(e) => rep.viol(&format!("{}:clone:panic", name), || e, m),
        Ok(Some(e)) => rep.viol(&format!("{}:clone", name), || e, m),
        Ok(None) => {}
    }
}
