//! C12: splitting, merging and cutting dictionaries preserve exactly their entries.
use super::dictlib::*;
use crate::fw::*;
use crate::model::bits::*;
use crate::model::dict::*;
use crate::*;
use tycho_types::cell::*;
use tycho_types::dict::*;

pub const META: Meta = Meta {
    id: "C12",
    level: "model_checking",
    rule: "all dictionary states of a key universe x all key prefixes for split, split_by_prefix, raw split and sub-dictionary; all ordered pairs of states for sibling merge and union merge; results compared with the canonical tree of the expected entries, refusals with the entry sets that do not fit; roots loaded inline from slices followed by other data",
    assumptions: &["trees are the canonical trees of their content", "wide keys are explored over universes of at most six structured keys"],
    run,
};

fn lcp_all(es: &[(B, Val)]) -> B {
    let (Some(f), Some(l)) = (es.first(), es.last()) else { return vec![] };
    f.0.iter().zip(&l.0).take_while(|(a, b)| a == b).map(|x| *x.0).collect()
}
fn prefixes(u: &Uni) -> Vec<B> {
    let mut out: Vec<B> = vec![vec![]];
    if u.n <= 4 {
        for len in 1..=u.n + 1 { for v in 0..1u64 << len { out.push(uint(v as u128, len)) } }
    } else {
        let mut lens: Vec<usize> = (0..u.n.min(5)).chain([u.n / 3, u.n / 3 + 1, u.n / 2, u.n / 2 + 1, 2 * u.n / 3, u.n - 2, u.n - 1, u.n]).collect();
        for a in &u.keys { for b in &u.keys { let c = a.iter().zip(b).take_while(|(x, y)| x == y).count(); lens.push(c); lens.push((c + 1).min(u.n)) } }
        lens.sort();
        lens.dedup();
        for k in &u.keys { for &l in &lens { out.push(k[..l].to_vec()); if l > 0 { let mut f = k[..l].to_vec(); f[l - 1] ^= 1; out.push(f) } } }
        if u.n < 1023 { let mut k = u.keys[0].clone(); k.push(0); out.push(k) }
        out.sort();
        out.dedup();
    }
    out
}

fn cuts<const N: u16>(u: &Uni, tab: &[Option<Option<Cell>>], pf: &[B], st: u64, l: &mut L) -> R {
    let Some(root) = &tab[st as usize] else { return Ok(()) };
    l.st(1);
    let es = u.content(st);
    let raw = RawDict::<N>::from(root.clone());
    let typed = Dict::<Kb<N>, Vl>::from(root.clone());
    let half = |p: &[u8], b: u8| -> u64 {
        let mut s = st;
        for (i, k) in u.keys.iter().enumerate() { if !(k.starts_with(p) && k.get(p.len()) == Some(&b)) { s = u.with(s, i, 0) } }
        s
    };
    let mut absent = false;
    for p in pf {
        let pc = kcell(p);
        let ps = pc.as_slice().unwrap();
        let c = || format!("{} prefix={} [{}]", u.name, show(&p[..p.len().min(64)]), u.show(st));
        // split
        let want = if es.is_empty() || u.n == 0 { Some((None, None)) }
            else if p.len() < u.n && es.iter().all(|e| e.0.starts_with(p)) {
                match (&tab[half(p, 0) as usize], &tab[half(p, 1) as usize]) { (Some(a), Some(b)) => Some((a.clone(), b.clone())), _ => None }
            } else { None };
        let mut outs = vec![
            ("dict_split_by_prefix", np("split/panic", c, || dict_split_by_prefix(root.as_ref(), N, &ps, ctx()))?),
            ("RawDict::split_by_prefix", raw.split_by_prefix(&ps).map(|(a, b)| (a.into_root(), b.into_root()))),
            ("Dict::split_by_prefix", typed.split_by_prefix(&ps).map(|(a, b)| (a.into_root(), b.into_root()))),
        ];
        if p.is_empty() {
            outs.push(("RawDict::split", raw.split().map(|(a, b)| (a.into_root(), b.into_root()))));
            outs.push(("Dict::split", typed.split().map(|(a, b)| (a.into_root(), b.into_root()))));
        }
        for (name, got) in outs {
            l.ev();
            l.tr(1);
            if matches!(&want, Some((Some(_), Some(_)))) { l.nt() }
            match (&want, got) {
                (None, got) => ck!(got.is_err(), format!("{name}/accepted"), "{}", c()),
                (Some(w), Ok(g)) => {
                    ck!(*w == g, format!("{name}/halves"), "{} got {:?}", c(), (read_opt(&g.0, u.n), read_opt(&g.1, u.n)));
                    // and back
                    let m = np("merge/panic", c, || dict_merge_siblings(&g.0, &g.1, N, ctx()))?;
                    if u.n > 0 { ck!(m.as_ref().ok() == Some(root), "split-merge", "{} {:?}", c(), m.map(|m| read_opt(&m, u.n))) }
                }
                (Some(_), Err(e)) => bad!(format!("{name}/error"), "{e:?} {}", c()),
            }
        }
        // sub-dictionary
        let mut sub = st;
        for (i, k) in u.keys.iter().enumerate() { if !k.starts_with(p) { sub = u.with(sub, i, 0) } }
        for way in 0..2 {
            let got = np("subdict/panic", c, || if way == 0 { dict_get_subdict(root.as_ref(), N, &mut ps.clone(), ctx()) } else { raw.get_subdict(ps, ctx()) })?;
            l.ev();
            l.tr(1);
            if sub != 0 && sub != st { l.nt() }
            match &tab[sub as usize] {
                _ if p.len() > u.n => ck!(!matches!(got, Ok(Some(_))), "subdict/long-prefix", "{} got {:?}", c(), got),
                // an absent prefix
                Some(None) if !es.is_empty() => if matches!(got, Ok(Some(_))) && !absent {
                    absent = true; // reported once per state, exploration goes on
                    l.fail(V { key: "subdict/absent-prefix".into(), detail: format!("{} got {:?}", c(), got) });
                },
                None => ck!(got.is_err(), "subdict/overflow", "{}", c()),
                Some(w) => ck!(got.as_ref().ok() == Some(w), "subdict/entries", "{} got {:?}", c(), got.map(|m| read_opt(&m, u.n))),
            }
        }
    }
    // raw split
    let got = np("split_raw/panic", || u.show(st), || dict_split_raw(root.as_ref(), N, ctx()))?;
    let lcp = lcp_all(&es);
    let leaf = |s: u64, at: usize| -> Option<Cell> {
        let es: Vec<Ent> = u.content(s).into_iter().map(|(key, val)| Ent { key, extra: Val::new(vec![]), val }).collect();
        if es.is_empty() { return None }
        subtree(&es.iter().collect::<Vec<_>>(), at, u.n, None).map(|x| x.0)
    };
    let want = if u.n == 0 { (0, None, None) } else if es.is_empty() { (N, None, None) }
        else if lcp.is_empty() { (N - 1, leaf(half(&[], 0), 1), leaf(half(&[], 1), 1)) }
        else if lcp[0] == 0 { (N, root.clone(), None) } else { (N, None, root.clone()) };
    l.ev();
    ckeq!(got.map(|g| (g.remaining_bit_len, g.left_branch, g.right_branch)).ok(), Some(want), "dict_split_raw", "{} [{}]", u.name, u.show(st));
    // inline roots
    if let Some(cell) = root {
        let bits = cell_bits(cell.as_ref());
        let is_leaf = es.len() == 1;
        for extra in [0usize, 1, 8, 30] {
            for xr in 0..3usize {
                if bits.len() + extra > 1023 || cell.reference_count() as usize + xr > 4 { continue }
                let mut b = bits.clone();
                b.extend(pattern(3, extra));
                let x = refcell(77);
                let mut refs: Vec<Cell> = (0..cell.reference_count()).map(|i| cell.reference_cloned(i).unwrap()).collect();
                refs.extend((0..xr).map(|_| x.clone()));
                let whole = build_cell(&b, &refs.iter().collect::<Vec<_>>()).unwrap();
                let want = if is_leaf { whole.clone() } else { cell.clone() };
                let rest = if is_leaf { (0, 0) } else { (extra as u16, xr as u8) };
                for way in 0..3 {
                    let mut s = whole.as_slice().unwrap();
                    let c = || format!("{} way={way} extra={extra}b{xr}r [{}]", u.name, u.show(st));
                    let got = np("load_root/panic", c, || match way {
                        0 => dict_load_from_root(&mut s, N, ctx()),
                        1 => RawDict::<N>::load_from_root_ext(&mut s, ctx()).map(|d| d.into_root().unwrap()),
                        _ => Dict::<Kb<N>, Vl>::load_from_root_ext(&mut s, ctx()).map(|d| d.into_root().unwrap()),
                    })?;
                    l.ev();
                    ck!(got.as_ref().ok() == Some(&want), "load_from_root", "{} got {:?}", c(), got.map(|x| x.display_tree().to_string()));
                    ckeq!((s.size_bits(), s.size_refs()), rest, "load_from_root/rest", "{}", c());
                    ckeq!(slice_bits(&s), pattern(3, extra)[extra - rest.0 as usize..].to_vec(), "load_from_root/rest", "{}", c());
                }
            }
        }
        // through a reference flag
        let d = RawDict::<N>::from(root.clone());
        let cell2 = CellBuilder::build_from(&d).unwrap();
        ckeq!(cell2.parse::<RawDict<N>>().ok(), Some(d), "store-load", "{}", u.show(st));
        let cell2 = CellBuilder::build_from(&typed).unwrap();
        ckeq!(cell2.parse::<Dict<Kb<N>, Vl>>().ok(), Some(typed.clone()), "store-load", "{}", u.show(st));
    }
    l.sample(|| format!("{} state [{}]: {} prefixes", u.name, u.show(st), pf.len()));
    Ok(())
}

fn pairs<const N: u16>(u: &Uni, tab: &[Option<Option<Cell>>], a: u64, l: &mut L) -> R {
    let Some(ra) = &tab[a as usize] else { return Ok(()) };
    let ea = u.content(a);
    let la = lcp_all(&ea);
    for b in 0..u.states() {
        let Some(rb) = &tab[b as usize] else { continue };
        let eb = u.content(b);
        let lb = lcp_all(&eb);
        l.st(1);
        let c = || format!("{} left [{}] right [{}]", u.name, u.show(a), u.show(b));
        // siblings
        let mut un = a;
        for k in 0..u.keys.len() { let d = u.digit(b, k); if d > 0 { un = u.with(un, k, d) } }
        let p = la.iter().zip(&lb).take_while(|(x, y)| x == y).count();
        let want = if ea.is_empty() || eb.is_empty() { tab[un as usize].clone() }
            else if p < la.len() && p < lb.len() && la[p] == 0 { tab[un as usize].clone() } else { None };
        let m = np("merge/panic", c, || dict_merge_siblings(ra, rb, N, ctx()))?;
        let m2 = Dict::<Kb<N>, Vl>::from(ra.clone()).merge_with_right_sibling(&Dict::from(rb.clone())).map(|d| d.into_root());
        for (name, m) in [("dict_merge_siblings", m), ("Dict::merge_with_right_sibling", m2)] {
            l.ev();
            l.tr(1);
            if want.is_some() && !ea.is_empty() && !eb.is_empty() { l.nt() }
            match &want {
                None => ck!(m.is_err(), format!("{name}/accepted"), "{} got {:?}", c(), m.map(|m| read_opt(&m, u.n))),
                Some(w) => ck!(m.as_ref().ok() == Some(w), format!("{name}/entries"), "{} got {:?}", c(), m.map(|m| read_opt(&m, u.n))),
            }
        }
        // union
        let mut s = Some(a);
        if a == 0 { s = Some(b) } else {
            for k in 0..u.keys.len() { let d = u.digit(b, k); if d > 0 { s = s.map(|s| u.with(s, k, d)).filter(|s| tab[*s as usize].is_some()) } }
        }
        let mut d = ra.clone();
        let got = np("dict_merge/panic", c, || dict_merge(&mut d, rb, N, ctx()))?;
        l.ev();
        l.tr(1);
        match s {
            Some(s) => ck!(got.is_ok() && Some(&d) == tab[s as usize].as_ref(), "dict_merge/entries", "{} {got:?} got {:?}", c(), read_opt(&d, u.n)),
            None => ck!(got.is_err() && d == *ra, "dict_merge/overflow", "{} {got:?} got {:?}", c(), read_opt(&d, u.n)),
        }
    }
    Ok(())
}

fn run(r: &Run) {
    for u in unis(r) {
        let tab = u.table();
        let pf = prefixes(&u);
        r.section(&format!("cuts/{}", u.name), u.states(), |st, l| with_width!(u.n, cuts, &u, &tab, &pf, st, l));
        if u.states() <= r.pick(800, 7000) {
            r.section(&format!("pairs/{}", u.name), u.states(), |st, l| with_width!(u.n, pairs, &u, &tab, st, l));
        }
    }
    let u = Uni::full(3, 1, 0);
    let tab = u.table();
    r.section("pairs/full3v1f0", u.states(), |st, l| pairs::<3>(&u, &tab, st, l));
}
