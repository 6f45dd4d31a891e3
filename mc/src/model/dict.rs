//! Reference dictionary: canonical tree construction from an entry list, and a tolerant reader.
use super::bits::*;
use tycho_types::cell::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Val { pub bits: B, pub refs: Vec<Cell> }
impl Val {
    pub fn new(bits: B) -> Self { Val { bits, refs: vec![] } }
    pub fn of(s: &CellSlice<'_>) -> Val {
        Val { bits: slice_bits(s), refs: (0..s.size_refs()).map(|i| s.get_reference_cloned(i).unwrap()).collect() }
    }
    pub fn of_parts(p: &CellSliceParts) -> Option<Val> { p.0.apply(&p.1).ok().map(|s| Val::of(&s)) }
    pub fn show(&self) -> String { format!("{}b{}r:{}", self.bits.len(), self.refs.len(), show(&self.bits[..self.bits.len().min(40)])) }
}
impl Store for Val {
    fn store_into(&self, b: &mut CellBuilder, _: &dyn CellContext) -> Result<(), tycho_types::error::Error> {
        b.store_raw(&pack(&self.bits), self.bits.len() as u16)?;
        for r in &self.refs { b.store_reference(r.clone())? }
        Ok(())
    }
}
/// Typed value that swallows the whole remaining slice.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Vl(pub Val);
impl<'a> Load<'a> for Vl {
    fn load_from(s: &mut CellSlice<'a>) -> Result<Self, tycho_types::error::Error> { Ok(Vl(Val::of(&s.load_remaining()))) }
}
impl Store for Vl {
    fn store_into(&self, b: &mut CellBuilder, c: &dyn CellContext) -> Result<(), tycho_types::error::Error> { self.0.store_into(b, c) }
}

pub fn lenbits(max: usize) -> usize { (usize::BITS - max.leading_zeros()) as usize }

/// Canonical label, or `None` when it cannot be written.
pub fn label(l: &[u8], max: usize) -> Option<B> {
    if l.is_empty() { return Some(vec![0, 0]) }
    let k = lenbits(max);
    let (short, long, same) = (2 + 2 * l.len(), 2 + k + l.len(), 3 + k);
    let uniform = l.iter().all(|&x| x == l[0]);
    let mut out;
    if uniform && same < short && same < long {
        out = vec![1, 1, l[0]];
        out.extend(uint(l.len() as u128, k));
    } else if short <= long && short <= 1023 {
        out = vec![0];
        out.extend(vec![1; l.len()]);
        out.push(0);
        out.extend_from_slice(l);
    } else if long <= 1023 {
        out = vec![1, 0];
        out.extend(uint(l.len() as u128, k));
        out.extend_from_slice(l);
    } else { return None }
    Some(out)
}

/// Aug combination of two branch extras.
pub type Comb<'a> = &'a dyn Fn(&Val, &Val) -> Option<Val>;

pub fn build_cell(bits: &[u8], refs: &[&Cell]) -> Option<Cell> {
    if bits.len() > 1023 || refs.len() > 4 { return None }
    let mut b = builder_of(bits);
    for r in refs { b.store_reference((*r).clone()).unwrap() }
    Some(b.build().unwrap())
}

pub struct Ent { pub key: B, pub extra: Val, pub val: Val }

/// Canonical subtree for sorted entries sharing the first `at` key bits; returns the cell and its extra.
pub fn subtree(es: &[&Ent], at: usize, n: usize, comb: Option<Comb>) -> Option<(Cell, Val)> {
    let (f, l) = (&es[0].key, &es[es.len() - 1].key);
    let mut lcp = at;
    while lcp < n && f[lcp] == l[lcp] { lcp += 1 }
    let mut bits = label(&f[at..lcp], n - at)?;
    if es.len() == 1 {
        assert_eq!(lcp, n);
        let e = es[0];
        bits.extend_from_slice(&e.extra.bits);
        bits.extend_from_slice(&e.val.bits);
        return Some((build_cell(&bits, &e.extra.refs.iter().chain(&e.val.refs).collect::<Vec<_>>())?, e.extra.clone()));
    }
    let m = es.iter().position(|e| e.key[lcp] == 1).unwrap();
    let (a, xa) = subtree(&es[..m], lcp + 1, n, comb)?;
    let (b, xb) = subtree(&es[m..], lcp + 1, n, comb)?;
    let x = match comb { Some(c) => c(&xa, &xb)?, None => Val::new(vec![]) };
    bits.extend_from_slice(&x.bits);
    let mut refs = vec![&a, &b];
    refs.extend(x.refs.iter());
    Some((build_cell(&bits, &refs)?, x))
}
/// `None`: not representable; `Some(None)`: empty dictionary.
pub fn build(es: &[Ent], n: usize, comb: Option<Comb>) -> Option<Option<(Cell, Val)>> {
    if es.is_empty() { return Some(None) }
    let v: Vec<&Ent> = es.iter().collect();
    assert!(v.windows(2).all(|w| w[0].key < w[1].key));
    subtree(&v, 0, n, comb).map(Some)
}
pub fn canon(es: &[(B, Val)], n: usize) -> Option<Option<Cell>> {
    let es: Vec<Ent> = es.iter().map(|(k, v)| Ent { key: k.clone(), extra: Val::new(vec![]), val: v.clone() }).collect();
    build(&es, n, None).map(|x| x.map(|y| y.0))
}

/// Reads any label form; returns (label, consumed bits).
pub fn read_label(d: &[u8], max: usize) -> Option<(B, usize)> {
    let k = lenbits(max);
    match (*d.first()?, d.get(1)) {
        (0, _) => {
            let mut n = 0;
            while *d.get(1 + n)? == 1 { n += 1 }
            if n > max { return None }
            Some((d.get(2 + n..2 + 2 * n)?.to_vec(), 2 + 2 * n))
        }
        (1, Some(0)) => {
            let n = to_u128(d.get(2..2 + k)?) as usize;
            if n > max { return None }
            Some((d.get(2 + k..2 + k + n)?.to_vec(), 2 + k + n))
        }
        (1, Some(1)) => {
            let b = *d.get(2)?;
            let n = to_u128(d.get(3..3 + k)?) as usize;
            if n > max { return None }
            Some((vec![b; n], 3 + k))
        }
        _ => None,
    }
}
/// Entries of a dictionary tree in key order (value bits include the leaf extra).
pub fn read(c: &DynCell, n: usize) -> Option<Vec<(B, Val)>> {
    fn go(c: &DynCell, n: usize, pfx: &B, out: &mut Vec<(B, Val)>) -> Option<()> {
        if c.is_exotic() { return None }
        let d = cell_bits(c);
        let (l, used) = read_label(&d, n)?;
        let mut p = pfx.clone();
        p.extend_from_slice(&l);
        if l.len() == n {
            let refs = (0..c.reference_count()).map(|i| c.reference_cloned(i).unwrap()).collect();
            out.push((p, Val { bits: d[used..].to_vec(), refs }));
            return Some(());
        }
        for b in 0..2u8 {
            let mut q = p.clone();
            q.push(b);
            go(c.reference(b)?, n - l.len() - 1, &q, out)?;
        }
        Some(())
    }
    let mut out = vec![];
    go(c, n, &vec![], &mut out)?;
    Some(out)
}
pub fn read_opt(c: &Option<Cell>, n: usize) -> Option<Vec<(B, Val)>> {
    match c { None => Some(vec![]), Some(c) => read(c.as_ref(), n) }
}
