//! C10: the cell tree of a dictionary is canonical and depends on its content only.
use super::dictlib::*;
use crate::fw::*;
use crate::model::bits::*;
use crate::model::dict::*;
use crate::*;
use tycho_types::cell::*;
use tycho_types::dict::*;

pub const META: Meta = Meta {
    id: "C10",
    level: "model_checking",
    rule: "explicit-state exploration: every operation from the canonical tree of every state must lead to the canonical tree of the successor state (inductive over all histories of the universe), the canonical trees being built by an independent constructor from the entry list; labels: all key widths, label lengths and uniformity classes",
    assumptions: &["wide keys are explored over universes of at most six structured keys; labels of every (width, length, class) are covered by two-key dictionaries",
        "states whose canonical tree does not fit into cells are not dictionaries: reaching them must fail"],
    run,
};

fn two_keys(n: usize, len: usize, class: usize, l: &mut L) -> R {
    // common prefix of `len` bits, then a fork, tails of one class
    let pre: B = match class % 3 { 0 => vec![0; len], 1 => vec![1; len], _ => { let mut p = pattern(5, len); if len >= 2 { p[len - 1] = 1 - p[0] } p } };
    let tail = |b: u8| -> B { let t = n - len - 1; match class / 3 { 0 => vec![b; t], 1 => vec![1 - b; t], _ => pattern(9 + b as u64, t) } };
    let ks: Vec<B> = (0..2u8).map(|b| { let mut k = pre.clone(); k.push(b); k.extend(tail(b)); k }).collect();
    let es: Vec<(B, Val)> = ks.iter().enumerate().map(|(i, k)| (k.clone(), value(0, i, 0))).collect();
    l.evn(4);
    l.ntn(4);
    l.tr(4);
    let Some(one0) = canon(&es[..1], n) else { return Ok(()) };
    let Some(one1) = canon(&es[1..], n) else { return Ok(()) };
    let Some(both) = canon(&es, n) else { return Ok(()) };
    l.st(3);
    for order in 0..2 {
        let mut d = None;
        for s in 0..2 {
            let i = (s + order) % 2;
            let kc = kcell(&ks[i]);
            let g = np("labels/panic", || format!("n={n} len={len} class={class}"), || dict_insert(&mut d, &mut kc.as_slice().unwrap(), n as u16, &es[i].1, SetMode::Set, ctx()))?;
            ck!(g.is_ok(), "labels/error", "{g:?} n={n} len={len} class={class}");
            let want = if s == 1 { &both } else if i == 0 { &one0 } else { &one1 };
            ck!(d == *want, "labels/not-canonical", "n={n} len={len} class={class} order={order} step={s} key={}", show(&ks[i]));
        }
        // removal merges the labels again
        let kc = kcell(&ks[order]);
        let g = np("labels/panic", || format!("n={n} len={len} class={class}"), || dict_remove_owned(&mut d, &mut kc.as_slice().unwrap(), n as u16, false, ctx()))?;
        ck!(g.is_ok(), "labels/remove-error", "{g:?} n={n} len={len} class={class}");
        ck!(d == *if order == 0 { &one1 } else { &one0 }, "labels/merge-not-canonical", "n={n} len={len} class={class} removed={}", show(&ks[order]));
        let mut d = both.clone();
        let bound = if order == 0 { DictBound::Min } else { DictBound::Max };
        let g = np("labels/panic", || format!("n={n} len={len} class={class}"), || dict_remove_bound_owned(&mut d, n as u16, bound, false, ctx()))?;
        ck!(g.is_ok() && d == *if order == 0 { &one1 } else { &one0 }, "labels/bound-not-canonical", "n={n} len={len} class={class} bound={bound:?}");
    }
    Ok(())
}

fn run(r: &Run) {
    for u in unis(r) {
        let tab = u.table();
        let x = Exp { u: &u, tab: &tab, j: Judge::Canon };
        r.section(&format!("updates/{}", u.name), u.states(), |st, l| with_width!(u.n, explore_updates, &x, st, l));
    }
    // labels
    let widths: Vec<usize> = if r.quick() { (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 267, 511, 512, 1000, 1023]).collect() } else { (1..=1023).collect() };
    for class in 0..9 {
        r.section(&format!("labels/class{class}"), widths.len() as u64, |i, l| {
            let n = widths[i as usize];
            for len in 0..n { two_keys(n, len, class, l)? }
            Ok(())
        });
    }
}
