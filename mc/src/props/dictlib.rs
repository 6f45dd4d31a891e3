//! Shared exploration vocabulary of the dictionary checks.
use crate::fw::*;
use crate::model::bits::*;
use crate::model::dict::*;
use std::cmp::Ordering;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::Error;

/// Harness key type of any width.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Kb<const N: u16>(pub B);
impl<const N: u16> DictKey for Kb<N> { const BITS: u16 = N; }
impl<const N: u16> StoreDictKey for Kb<N> {
    fn store_into_data(&self, d: &mut CellDataBuilder) -> Result<(), Error> { d.store_raw(&pack(&self.0), self.0.len() as u16) }
}
impl<const N: u16> LoadDictKey for Kb<N> {
    fn load_from_data(d: &CellDataBuilder) -> Option<Self> { Some(Kb(from_bytes(d.raw_data(), N as usize))) }
}

#[macro_export]
macro_rules! with_width {
    (@go $n:expr, $f:ident, $a:tt, $($w:literal)*) => { match $n { $($w => $crate::with_width!(@call $f, $w, $a),)* w => panic!("width {w}") } };
    (@call $f:ident, $w:literal, ($($a:expr),*)) => { $f::<$w>($($a),*) };
    ($n:expr, $f:ident, $($a:expr),*) => { $crate::with_width!(@go $n, $f, ($($a),*), 0 1 2 3 4 5 7 8 9 15 16 17 31 32 33 63 64 65 96 127 128 129 255 256 257 267 320 511 512 1000 1023) };
}

#[macro_export]
macro_rules! with_width_t {
    (@go $n:expr, $f:ident, $t:ident, $a:tt, $($w:literal)*) => { match $n { $($w => $crate::with_width_t!(@call $f, $w, $t, $a),)* w => panic!("width {w}") } };
    (@call $f:ident, $w:literal, $t:ident, ($($a:expr),*)) => { $f::<$w, $t>($($a),*) };
    ($n:expr, $f:ident, $t:ident, $($a:expr),*) => { $crate::with_width_t!(@go $n, $f, $t, ($($a),*), 0 1 2 3 4 5 8 9 31 32 64 96 128 256 267 320) };
}

pub struct Uni {
    pub name: String,
    pub n: usize,
    /// sorted
    pub keys: Vec<B>,
    /// vals[key][v]
    pub vals: Vec<Vec<Val>>,
}
pub fn refcell(seed: u64) -> Cell { cell_of(&uint(0xAB00 + seed as u128, 24)) }
/// Value families: v-th value of key i.
pub fn value(fam: usize, i: usize, v: usize) -> Val {
    let id = (i * 7 + v * 3 + 1) as u128;
    match fam {
        // small, distinct per key; the second is empty, the third has refs
        0 => match v {
            0 => Val::new(uint(id, 9)),
            1 => Val { bits: if i == 1 { vec![] } else { uint(id, 4) }, refs: if i % 2 == 0 { vec![] } else { vec![refcell(i as u64)] } },
            _ => Val { bits: uint(id, 11), refs: (0..4).map(|j| refcell(j + 10 * i as u64)).collect() },
        },
        // refs first
        1 => match v {
            0 => Val { bits: vec![1], refs: vec![refcell(i as u64), refcell(i as u64 + 100)] },
            1 => Val { bits: uint(id, 40), refs: (0..4).map(|j| refcell(j + 10 * i as u64)).collect() },
            _ => Val::new(vec![]),
        },
        // near the cell capacity
        f => { let len = f - 1000 + (i % 2) + v; Val::new((0..len).map(|j| pat(i as u64 + 3 * v as u64 + 2, j)).collect()) }
    }
}
impl Uni {
    pub fn new(name: impl Into<String>, n: usize, mut keys: Vec<B>, nv: usize, fam: usize) -> Uni {
        keys.sort();
        keys.dedup();
        let vals = (0..keys.len()).map(|i| (0..nv).map(|v| value(fam, i, v)).collect()).collect();
        Uni { name: name.into(), n, keys, vals }
    }
    pub fn full(n: usize, nv: usize, fam: usize) -> Uni { Uni::new(format!("full{n}v{nv}f{fam}"), n, (0..1u64 << n).map(|k| uint(k as u128, n)).collect(), nv, fam) }
    /// Structured keys of a wide key space.
    pub fn wide(n: usize, nv: usize, fam: usize, set: usize) -> Uni {
        let flip = |mut b: B, i: usize| { b[i] ^= 1; b };
        let z = vec![0u8; n];
        let o = vec![1u8; n];
        let p = pattern(7, n);
        let keys = match set {
            0 => vec![z.clone(), o.clone(), flip(z.clone(), n - 1), flip(o.clone(), n - 1), flip(z.clone(), 0), p.clone()],
            1 => vec![p.clone(), flip(p.clone(), n - 1), flip(p.clone(), n / 3), flip(p.clone(), 2 * n / 3), flip(flip(p.clone(), n / 3), n - 1), flip(p.clone(), 0)],
            2 => { let mut h = z.clone(); for x in h.iter_mut().skip(n / 2) { *x = 1 } let mut g = o.clone(); for x in g.iter_mut().skip(n / 2) { *x = 0 }
                vec![h.clone(), g.clone(), flip(h.clone(), n - 1), flip(h, n / 2), flip(g, n / 2 - 1), z.clone()] }
            _ => (0..6).map(|i| flip(z.clone(), n - 1 - i * (n - 1) / 5)).collect(),
        };
        Uni::new(format!("wide{n}s{set}v{nv}f{fam}"), n, keys, nv, fam)
    }
    pub fn base(&self) -> u64 { self.vals[0].len() as u64 + 1 }
    pub fn states(&self) -> u64 { self.base().pow(self.keys.len() as u32) }
    pub fn digit(&self, st: u64, k: usize) -> u64 { st / self.base().pow(k as u32) % self.base() }
    pub fn with(&self, st: u64, k: usize, d: u64) -> u64 { st - self.digit(st, k) * self.base().pow(k as u32) + d * self.base().pow(k as u32) }
    pub fn content(&self, st: u64) -> Vec<(B, Val)> {
        (0..self.keys.len()).filter_map(|k| match self.digit(st, k) { 0 => None, d => Some((self.keys[k].clone(), self.vals[k][d as usize - 1].clone())) }).collect()
    }
    pub fn val(&self, st: u64, k: usize) -> Option<&Val> { match self.digit(st, k) { 0 => None, d => Some(&self.vals[k][d as usize - 1]) } }
    pub fn show(&self, st: u64) -> String {
        self.content(st).iter().map(|(k, v)| format!("{}={}", if k.len() <= 40 { show(k) } else { format!("{}..{}", show(&k[..8]), show(&k[k.len() - 8..])) }, v.show())).collect::<Vec<_>>().join(" ")
    }
    /// Canonical roots of every state (`None`: not representable).
    pub fn table(&self) -> Vec<Option<Option<Cell>>> {
        let n = self.states() as usize;
        let t = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
        let step = n.div_ceil(t).max(1);
        std::thread::scope(|s| {
            let h: Vec<_> = (0..n).step_by(step).map(|a| s.spawn(move || (a..(a + step).min(n)).map(|i| canon(&self.content(i as u64), self.n)).collect::<Vec<_>>())).collect();
            h.into_iter().flat_map(|x| x.join().unwrap()).collect()
        })
    }
}
/// Key order; signed compares as two's complement.
pub fn keycmp(a: &[u8], b: &[u8], signed: bool) -> Ordering {
    if signed && !a.is_empty() && !b.is_empty() && a[0] != b[0] { return b[0].cmp(&a[0]) }
    a.cmp(b)
}
pub fn sorted(mut es: Vec<(B, Val)>, signed: bool, reversed: bool) -> Vec<(B, Val)> {
    es.sort_by(|a, b| keycmp(&a.0, &b.0, signed));
    if reversed { es.reverse() }
    es
}
pub fn data_bits(d: &CellDataBuilder) -> B { from_bytes(d.raw_data(), d.size_bits() as usize) }
pub fn kcell(k: &[u8]) -> Cell { cell_of(k) }
pub fn entry(e: (CellDataBuilder, CellSliceParts)) -> (B, Val) { (data_bits(&e.0), Val::of_parts(&e.1).expect("range fits its cell")) }
pub fn entry_ref(e: (CellDataBuilder, CellSlice<'_>)) -> (B, Val) { (data_bits(&e.0), Val::of(&e.1)) }
pub fn ctx() -> &'static dyn CellContext { Cell::empty_context() }

pub fn unis(r: &Run) -> Vec<Uni> {
    let mut v = vec![Uni::full(0, 3, 0), Uni::full(0, 3, 1), Uni::full(1, 3, 0), Uni::full(1, 3, 1), Uni::full(2, 3, 0), Uni::full(2, 3, 1), Uni::full(3, 2, 0), Uni::full(3, 2, 1), Uni::full(4, 1, 0)];
    let ws: &[usize] = if r.quick() { &[4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 256, 267, 1023] } else { &[4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 255, 256, 257, 267, 320, 511, 512, 1000, 1023] };
    for &w in ws {
        for set in 0..4 {
            let nv = r.pick(1, 2);
            v.push(Uni::wide(w, nv, 0, set));
            if w < 512 { v.push(Uni::wide(w, nv, 1, set)); }
        }
    }
    // values close to the capacity of a cell: some states cannot be represented
    for (w, len) in [(8, 1007), (8, 1009), (8, 1010), (32, 983), (32, 985), (32, 1013), (256, 755), (256, 757), (1, 1019), (1, 1020), (2, 1017), (2, 1018)] {
        if w >= 8 { for set in 0..2 { v.push(Uni::wide(w, 2, 1000 + len, set)); } } else { v.push(Uni::full(w, 2, 1000 + len)); }
    }
    v
}

/// What the exploration judges on every transition.
#[derive(Clone, Copy, PartialEq)]
pub enum Judge { Content, Canon }
pub struct Exp<'a> { pub u: &'a Uni, pub tab: &'a [Option<Option<Cell>>], pub j: Judge }

impl Exp<'_> {
    /// The dictionary `d` must be in state `st`.
    pub fn at(&self, what: &str, from: u64, d: &Option<Cell>, st: u64) -> R {
        match self.j {
            Judge::Canon => ck!(Some(d) == self.tab[st as usize].as_ref(), format!("{what}/not-canonical"), "{} from [{}] expected [{}] got root {:?}",
                self.u.name, self.u.show(from), self.u.show(st), d.as_ref().map(|c| c.display_tree().to_string())),
            Judge::Content => {
                let want = self.u.content(st);
                let got = match d { None => Some(vec![]), Some(c) => read(c.as_ref(), self.u.n) };
                ck!(got.as_ref() == Some(&want), format!("{what}/content"), "{} from [{}] expected [{}] got {:?}", self.u.name, self.u.show(from), self.u.show(st), d.as_ref().map(|c| c.display_tree().to_string()));
            }
        }
        Ok(())
    }
    /// Outcome of an update whose successor state is `to` and whose expected result is `ret`.
    pub fn outcome<T: PartialEq + std::fmt::Debug>(&self, what: &str, from: u64, to: u64, d: &Option<Cell>, got: Result<T, Error>, ret: T, arg: &str, l: &mut L) -> R {
        l.tr(1);
        l.ev();
        if from != to { l.nt() }
        if self.tab[to as usize].is_none() {
            l.extra("transitions_refused_for_capacity", 1);
            ck!(got.is_err(), format!("{what}/overflow-accepted"), "{} {arg} from [{}]", self.u.name, self.u.show(from));
            return self.at(what, from, d, from);
        }
        if self.j == Judge::Content {
            match got {
                Ok(g) => ckeq!(g, ret, format!("{what}/result"), "{} {arg} from [{}]", self.u.name, self.u.show(from)),
                Err(e) => bad!(format!("{what}/error"), "{e:?}: {} {arg} from [{}]", self.u.name, self.u.show(from)),
            }
        } else {
            ck!(got.is_ok(), format!("{what}/error"), "{:?}: {} {arg} from [{}]", got, self.u.name, self.u.show(from));
        }
        self.at(what, from, d, to)
    }
}

pub const MODES: [SetMode; 3] = [SetMode::Set, SetMode::Add, SetMode::Replace];

/// Every update operation from state `st`.
pub fn explore_updates<const N: u16>(x: &Exp, st: u64, l: &mut L) -> R {
    let u = x.u;
    let Some(root) = &x.tab[st as usize] else { return Ok(()) };
    l.st(1);
    let nv = u.vals[0].len();
    for (ki, k) in u.keys.iter().enumerate() {
        let kc = kcell(k);
        let ks = || kc.as_slice().unwrap();
        let old = u.val(st, ki).cloned();
        for mode in MODES {
            for v in 0..nv {
                let val = &u.vals[ki][v];
                let changed = if old.is_some() { mode.can_replace() } else { mode.can_add() };
                let to = if changed { u.with(st, ki, v as u64 + 1) } else { st };
                let arg = format!("{mode:?} key {} := {}", show(&k[..k.len().min(40)]), val.show());
                let mut d = root.clone();
                let got = np("insert/panic", || arg.clone(), || dict_insert(&mut d, &mut ks(), N, val, mode, ctx()))?;
                x.outcome("dict_insert", st, to, &d, got, changed, &arg, l)?;
                let mut d = root.clone();
                let got = np("insert_owned/panic", || arg.clone(), || dict_insert_owned(&mut d, &mut ks(), N, val, mode, ctx()))?
                    .map(|(c, o)| (c, o.map(|o| Val::of_parts(&o).unwrap())));
                x.outcome("dict_insert_owned", st, to, &d, got, (changed, old.clone()), &arg, l)?;
                // typed and raw wrappers
                let mut d = RawDict::<N>::from(root.clone());
                let got = match mode { SetMode::Set => d.set(ks(), val), SetMode::Add => d.add(ks(), val), SetMode::Replace => d.replace(ks(), val) };
                x.outcome("RawDict::set/add/replace", st, to, d.root(), got, changed, &arg, l)?;
                let mut d = Dict::<Kb<N>, Vl>::from(root.clone());
                let (tk, tv) = (Kb::<N>(k.clone()), Vl(val.clone()));
                let got = match mode { SetMode::Set => d.set(tk, tv), SetMode::Add => d.add(tk, tv), SetMode::Replace => d.replace(tk, tv) };
                x.outcome("Dict::set/add/replace", st, to, d.root(), got, changed, &arg, l)?;
            }
        }
        let to = u.with(st, ki, 0);
        let arg = format!("remove key {}", show(&k[..k.len().min(40)]));
        let mut d = root.clone();
        let got = np("remove/panic", || arg.clone(), || dict_remove_owned(&mut d, &mut ks(), N, false, ctx()))?.map(|o| o.map(|o| Val::of_parts(&o).unwrap()));
        x.outcome("dict_remove_owned", st, to, &d, got, old.clone(), &arg, l)?;
        let mut d = RawDict::<N>::from(root.clone());
        let got = d.remove(ks()).map(|o| o.map(|o| Val::of_parts(&o).unwrap()));
        x.outcome("RawDict::remove", st, to, d.root(), got, old.clone(), &arg, l)?;
        let mut d = Dict::<Kb<N>, Vl>::from(root.clone());
        let got = d.remove(Kb::<N>(k.clone())).map(|o| o.map(|v| v.0));
        x.outcome("Dict::remove", st, to, d.root(), got, old.clone(), &arg, l)?;
        let mut d = Dict::<Kb<N>, Vl>::from(root.clone());
        let got = d.remove_raw(Kb::<N>(k.clone())).map(|o| o.map(|o| Val::of_parts(&o).unwrap()));
        x.outcome("Dict::remove_raw", st, to, d.root(), got, old.clone(), &arg, l)?;
    }
    for signed in [false, true] {
        let es = sorted(u.content(st), signed, false);
        for (bound, e) in [(DictBound::Min, es.first()), (DictBound::Max, es.last())] {
            let to = match e { Some(e) => u.with(st, u.keys.iter().position(|k| *k == e.0).unwrap(), 0), None => st };
            let arg = format!("remove {bound:?} signed={signed}");
            let mut d = root.clone();
            let got = np("remove_bound/panic", || arg.clone(), || dict_remove_bound_owned(&mut d, N, bound, signed, ctx()))?.map(|o| o.map(entry));
            x.outcome("dict_remove_bound_owned", st, to, &d, got, e.cloned(), &arg, l)?;
            let mut d = RawDict::<N>::from(root.clone());
            let got = if bound == DictBound::Min { d.remove_min(signed) } else { d.remove_max(signed) }.map(|o| o.map(entry));
            x.outcome("RawDict::remove_min/max", st, to, d.root(), got, e.cloned(), &arg, l)?;
            let mut d = RawDict::<N>::from(root.clone());
            let got = d.remove_bound(bound, signed).map(|o| o.map(entry));
            x.outcome("RawDict::remove_bound", st, to, d.root(), got, e.cloned(), &arg, l)?;
            let mut d = Dict::<Kb<N>, Vl>::from(root.clone());
            let got = if bound == DictBound::Min { d.remove_min_raw(signed) } else { d.remove_max_raw(signed) }.map(|o| o.map(|(k, v)| (k.0, Val::of_parts(&v).unwrap())));
            x.outcome("Dict::remove_min/max_raw", st, to, d.root(), got, e.cloned(), &arg, l)?;
            let mut d = Dict::<Kb<N>, Vl>::from(root.clone());
            let got = d.remove_bound_raw(bound, signed).map(|o| o.map(|(k, v)| (k.0, Val::of_parts(&v).unwrap())));
            x.outcome("Dict::remove_bound_raw", st, to, d.root(), got, e.cloned(), &arg, l)?;
        }
    }
    l.sample(|| format!("{} state [{}]: every update explored", u.name, u.show(st)));
    Ok(())
}

/// Every lookup from state `st`, and every operation with a key of the wrong length.
pub fn explore_lookups<const N: u16>(x: &Exp, st: u64, l: &mut L) -> R {
    let u = x.u;
    let Some(root) = &x.tab[st as usize] else { return Ok(()) };
    let raw = RawDict::<N>::from(root.clone());
    let typed = Dict::<Kb<N>, Vl>::from(root.clone());
    ckeq!(raw.is_empty(), u.content(st).is_empty(), "is_empty", "{} [{}]", u.name, u.show(st));
    ckeq!(typed.is_empty(), u.content(st).is_empty(), "is_empty", "{} [{}]", u.name, u.show(st));
    // queries: the universe and the neighbours of its keys
    let mut q = u.keys.clone();
    if u.keys.len() < 1 << u.n.min(20) {
        for k in &u.keys { for i in [0, u.n / 2, u.n - 1] { let mut k = k.clone(); k[i] ^= 1; q.push(k) } }
        q.sort();
        q.dedup();
    }
    for k in &q {
        let want = u.keys.iter().position(|x| x == k).and_then(|i| u.val(st, i)).cloned();
        let kc = kcell(k);
        let ks = || kc.as_slice().unwrap();
        let c = || format!("{} get {} in [{}]", u.name, show(&k[..k.len().min(40)]), u.show(st));
        let g = np("get/panic", c, || dict_get(root.as_ref(), N, ks(), ctx()))?;
        ckeq!(g.map(|o| o.map(|s| Val::of(&s))).ok(), Some(want.clone()), "dict_get", "{}", c());
        let g = np("get_owned/panic", c, || dict_get_owned(root.as_ref(), N, ks(), ctx()))?;
        ckeq!(g.map(|o| o.map(|s| Val::of_parts(&s).unwrap())).ok(), Some(want.clone()), "dict_get_owned", "{}", c());
        ckeq!(raw.get(ks()).map(|o| o.map(|s| Val::of(&s))).ok(), Some(want.clone()), "RawDict::get", "{}", c());
        ckeq!(raw.get_owned(ks()).map(|o| o.map(|s| Val::of_parts(&s).unwrap())).ok(), Some(want.clone()), "RawDict::get_owned", "{}", c());
        ckeq!(raw.contains_key(ks()).ok(), Some(want.is_some()), "RawDict::contains_key", "{}", c());
        let tk = Kb::<N>(k.clone());
        ckeq!(typed.get(&tk).map(|o| o.map(|v| v.0)).ok(), Some(want.clone()), "Dict::get", "{}", c());
        ckeq!(typed.get_raw(&tk).map(|o| o.map(|s| Val::of(&s))).ok(), Some(want.clone()), "Dict::get_raw", "{}", c());
        ckeq!(typed.get_raw_owned(&tk).map(|o| o.map(|s| Val::of_parts(&s).unwrap())).ok(), Some(want.clone()), "Dict::get_raw_owned", "{}", c());
        ckeq!(typed.contains_key(&tk).ok(), Some(want.is_some()), "Dict::contains_key", "{}", c());
        // the key may be a window of a longer slice
        if u.n > 0 && u.n < 1000 {
            let mut w = vec![1u8, 0, 1];
            w.extend_from_slice(k);
            w.push(1);
            let wc = kcell(&w);
            let mut s = wc.as_slice().unwrap();
            s.skip_first(3, 0).unwrap();
            let s = s.get_prefix(N, 0);
            ckeq!(raw.get(s).map(|o| o.map(|s| Val::of(&s))).ok(), Some(want.clone()), "RawDict::get/window", "{}", c());
            l.ev();
        }
        l.evn(9);
        l.tr(9);
        if want.is_some() { l.ntn(9) }
    }
    // wrong lengths
    let mut lens = vec![];
    if u.n > 0 { lens.push(u.n - 1) }
    if u.n < 1023 { lens.push(u.n + 1) }
    for &len in &lens {
        for k in &u.keys {
            let mut w = k.clone();
            w.resize(len, 1);
            let kc = kcell(&w);
            let ks = || kc.as_slice().unwrap();
            let c = || format!("{} wrong length {len} in [{}]", u.name, u.show(st));
            ck!(matches!(dict_get(root.as_ref(), N, ks(), ctx()), Err(_)), "wrong-length/get", "{}", c());
            ck!(matches!(dict_get_owned(root.as_ref(), N, ks(), ctx()), Err(_)), "wrong-length/get_owned", "{}", c());
            for m in MODES {
                let mut d = root.clone();
                ck!(dict_insert(&mut d, &mut ks(), N, &u.vals[0][0], m, ctx()).is_err() && d == *root, "wrong-length/insert", "{}", c());
                ck!(dict_insert_owned(&mut d, &mut ks(), N, &u.vals[0][0], m, ctx()).is_err() && d == *root, "wrong-length/insert_owned", "{}", c());
            }
            let mut d = root.clone();
            ck!(dict_remove_owned(&mut d, &mut ks(), N, false, ctx()).is_err() && d == *root, "wrong-length/remove", "{}", c());
            l.evn(9);
        }
    }
    Ok(())
}
