//! C09: a dictionary behaves as a map under every sequence of operations.
use super::dictlib::*;
use crate::fw::*;
use crate::model::bits::*;
use crate::model::dict::*;
use crate::*;
use std::collections::BTreeMap;
use tycho_types::cell::*;
use tycho_types::dict::*;

pub const META: Meta = Meta {
    id: "C09",
    level: "model_checking",
    rule: "explicit-state exploration of the dictionary as a transition system: states are all contents of a key universe, transitions all operations, each executed by the real code from the real tree of the state and compared with an ordered map (result, returned values, entries read back by an independent reader, unchanged after an error)",
    assumptions: &["states are entered through their canonical tree (C10 decides that histories lead there); a separate section enumerates operation histories from the empty dictionary",
        "wide keys are explored over universes of at most six structured keys"],
    run,
};

fn history<const N: u16>(r: &Run, depth: u32, keys: u64, name: &str) {
    // operation alphabet: (set, add, replace, remove) x key, (min, max) x signed
    let nops = keys * 4 + 4;
    let total = nops.pow(depth - 1);
    r.section(name, total, |i, l| {
        let mut ix = Ix(i);
        let mut d = RawDict::<N>::new();
        let mut m: BTreeMap<B, Val> = BTreeMap::new();
        let mut trace = String::new();
        let mut step = |op: u64, t: u64, d: &mut RawDict<N>, m: &mut BTreeMap<B, Val>, l: &mut L| -> R<String> {
            l.tr(1);
            l.ev();
            let before = m.clone();
            let desc;
            if op < keys * 4 {
                let k = uint((op / 4) as u128, N as usize);
                let kc = kcell(&k);
                let ks = kc.as_slice().unwrap();
                let v = value(0, t as usize, (op % 3) as usize);
                match op % 4 {
                    3 => {
                        desc = format!("remove {}", show(&k));
                        let g = np("history/panic", || format!("{trace} {desc}"), || d.remove(ks))?.map_err(|e| V { key: "history/error".into(), detail: format!("{e:?}") })?;
                        ckeq!(g.map(|p| Val::of_parts(&p).unwrap()), m.remove(&k), "history/remove", "{trace} {desc}");
                    }
                    o => {
                        desc = format!("{}{}", ["set", "add", "replace"][o as usize], show(&k));
                        let g = np("history/panic", || format!("{trace} {desc}"), || match o { 0 => d.set(ks, &v), 1 => d.add(ks, &v), _ => d.replace(ks, &v) })?;
                        let p = m.contains_key(&k);
                        let ch = match o { 0 => true, 1 => !p, _ => p };
                        if ch { m.insert(k, v); }
                        ckeq!(g.ok(), Some(ch), "history/insert", "{trace} {desc}");
                    }
                }
            } else {
                let (max, signed) = (op % 2 == 1, (op - keys * 4) / 2 == 1);
                desc = format!("remove max={max} signed={signed}");
                let g = np("history/panic", || format!("{trace} {desc}"), || if max { d.remove_max(signed) } else { d.remove_min(signed) })?;
                let mut ks: Vec<B> = m.keys().cloned().collect();
                ks.sort_by(|a, b| keycmp(a, b, signed));
                let k = if max { ks.last() } else { ks.first() };
                let want = k.map(|k| (k.clone(), m.remove(k).unwrap()));
                ckeq!(g.map(|o| o.map(entry)).ok(), Some(want), "history/remove-bound", "{trace} {desc}");
            }
            if before != *m { l.nt() }
            let got = read_opt(d.root(), N as usize);
            ckeq!(got, Some(m.clone().into_iter().collect::<Vec<_>>()), "history/content", "{trace} {desc}");
            trace.push_str(&desc);
            trace.push(';');
            Ok(desc)
        };
        for t in 0..depth - 1 {
            let op = ix.take(nops);
            step(op, t as u64, &mut d, &mut m, l)?;
        }
        l.st(1);
        for op in 0..nops {
            let (mut d2, mut m2) = (d.clone(), m.clone());
            step(op, depth as u64, &mut d2, &mut m2, l)?;
            l.traces(1);
        }
        Ok(())
    });
}

fn run(r: &Run) {
    for u in unis(r) {
        let tab = u.table();
        let x = Exp { u: &u, tab: &tab, j: Judge::Content };
        r.section(&format!("updates/{}", u.name), u.states(), |st, l| with_width!(u.n, explore_updates, &x, st, l));
        r.section(&format!("lookups/{}", u.name), u.states(), |st, l| with_width!(u.n, explore_lookups, &x, st, l));
    }
    history::<2>(r, r.pick(4, 5), 4, "histories/n2");
    history::<1>(r, r.pick(5, 6), 2, "histories/n1");
    history::<3>(r, 4, 8, "histories/n3");
}
