//! Independent model of the contract ABI value layout.
use crate::model::{bits::*, dict::*};
use num_bigint::{BigInt, BigUint, Sign};
use std::collections::BTreeMap;
use std::num::NonZeroU8;
use std::sync::Arc;
use tycho_types::abi::*;
use tycho_types::cell::*;
use tycho_types::models::*;
use tycho_types::num::*;

pub const VERSIONS: [AbiVersion; 7] = [AbiVersion::new(1, 0), AbiVersion::new(2, 0), AbiVersion::new(2, 1), AbiVersion::new(2, 2), AbiVersion::new(2, 3), AbiVersion::new(2, 4), AbiVersion::new(2, 7)];

pub struct It { pub bits: B, pub refs: Vec<Cell>, pub jb: u64, pub jr: u64 }
#[derive(Clone, Copy)]
pub struct M { pub ver: AbiVersion, /// bytes of a zero variable-length integer
    pub zero: usize }

/// greatest bits and references a value of the type occupies in its cell
pub fn tsize(t: &AbiType) -> (u64, u64) {
    use AbiType::*;
    match t {
        Uint(n) | Int(n) => (*n as u64, 0),
        VarUint(n) | VarInt(n) => { let m = n.get() as u64 - 1; (lenbits(m as usize) as u64 + m * 8, 0) }
        Bool => (1, 0),
        Cell | Bytes | FixedBytes(_) | String | Ref(_) => (0, 1),
        Address => (591, 0),
        Token => (124, 0),
        Array(_) => (33, 1),
        FixedArray(..) | Map(..) => (1, 1),
        Optional(t) => { let (b, r) = tsize(t); if b < 1023 && r < 4 { (b + 1, r) } else { (1, 1) } }
        Tuple(ts) => ts.iter().map(|t| tsize(&t.ty)).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1)),
    }
}
pub fn key_bits(t: &PlainAbiType) -> usize { match t { PlainAbiType::Uint(n) | PlainAbiType::Int(n) => *n as usize, PlainAbiType::Bool => 1, PlainAbiType::Address => 267 } }
fn dict_inline(key: usize, t: &AbiType) -> bool { 12 + key as u64 + tsize(t).0 <= 1023 }

/// fixed-width big-endian; `None` when it does not fit
pub fn ubits(v: &BigUint, n: usize) -> Option<B> { (v.bits() as usize <= n).then(|| big(v, n)) }
pub fn ibits(v: &BigInt, n: usize) -> Option<B> {
    if n == 0 { return (v == &BigInt::from(0)).then(Vec::new) }
    let half = BigInt::from(1) << (n - 1);
    if *v < -half.clone() || *v >= half { return None }
    let x = if v.sign() == Sign::Minus { (BigInt::from(1) << n) + v } else { v.clone() };
    Some(big(x.magnitude(), n))
}
pub fn anycast(a: &Option<Box<Anycast>>) -> B {
    match a { None => vec![0], Some(a) => { let d = a.depth.into_bit_len() as usize; let mut b = vec![1]; b.extend(uint(d as u128, 5)); b.extend(from_bytes(&a.rewrite_prefix, d)); b } }
}
pub fn addr(a: &IntAddr) -> B {
    match a {
        IntAddr::Std(a) => { let mut b = vec![1, 0]; b.extend(anycast(&a.anycast)); b.extend(uint(a.workchain as u8 as u128, 8)); b.extend(from_bytes(&a.address.0, 256)); b }
        IntAddr::Var(a) => { let n = a.address_len.into_inner() as usize; let mut b = vec![1, 1]; b.extend(anycast(&a.anycast)); b.extend(uint(n as u128, 9)); b.extend(uint(a.workchain as u32 as u128, 32)); b.extend(from_bytes(&a.address, n)); b }
    }
}
pub fn plain(k: &PlainAbiValue) -> Option<B> {
    match k {
        PlainAbiValue::Uint(n, v) => ubits(v, *n as usize),
        PlainAbiValue::Int(n, v) => ibits(v, *n as usize),
        PlainAbiValue::Bool(v) => Some(vec![*v as u8]),
        PlainAbiValue::Address(a) => Some(addr(a)),
    }
}
/// bytes over a chain of cells, 127 per cell; the incomplete cell comes last since version 2
pub fn bytes_cell(d: &[u8], major: u8) -> Cell {
    let mut chunks: Vec<&[u8]> = vec![];
    if major > 1 { chunks.extend(d.chunks(127)) } else { chunks = d.rchunks(127).collect(); chunks.reverse() }
    let mut next: Option<Cell> = None;
    for c in chunks.iter().rev() { next = build_cell(&from_bytes(c, c.len() * 8), &next.iter().collect::<Vec<_>>()) }
    next.unwrap_or_else(|| cell_of(&[]))
}

impl M {
    pub fn max(&self) -> bool { (self.ver.major, self.ver.minor) >= (2, 2) }
    fn varint(&self, n: u8, v: &BigInt, signed: bool) -> Option<B> {
        let max = n as usize - 1;
        let mut len = if v.sign() == Sign::NoSign { self.zero } else { 1 };
        if v.sign() != Sign::NoSign {
            while if signed { ibits(v, len * 8).is_none() } else { v.magnitude().bits() as usize > len * 8 } { len += 1 }
        }
        if len > max || (!signed && v.sign() == Sign::Minus) { return None }
        let mut b = uint(len as u128, lenbits(max));
        b.extend(if signed { ibits(v, len * 8)? } else { ubits(v.magnitude(), len * 8)? });
        Some(b)
    }
    fn dict(&self, es: Vec<(B, &AbiValue)>, n: usize, t: &AbiType) -> Option<Option<Cell>> {
        let inl = dict_inline(n, t);
        let mut v = vec![];
        for (k, x) in es {
            if k.len() != n { return None }
            let (b, r) = self.tuple(std::slice::from_ref(x))?;
            let val = if inl { Val { bits: b, refs: r } } else { Val { bits: vec![], refs: vec![build_cell(&b, &r.iter().collect::<Vec<_>>())?] } };
            v.push((k, val));
        }
        v.sort_by(|a, b| a.0.cmp(&b.0));
        canon(&v, n)
    }
    pub fn items(&self, v: &AbiValue, out: &mut Vec<It>) -> Option<()> {
        use AbiValue as A;
        let (bits, refs): (B, Vec<Cell>) = match v {
            A::Tuple(vs) => { for v in vs { self.items(&v.value, out)? } return Some(()) }
            A::Uint(n, v) => (ubits(v, *n as usize)?, vec![]),
            A::Int(n, v) => (ibits(v, *n as usize)?, vec![]),
            A::VarUint(n, v) => (self.varint(n.get(), &BigInt::from(v.clone()), false)?, vec![]),
            A::VarInt(n, v) => (self.varint(n.get(), v, true)?, vec![]),
            A::Bool(v) => (vec![*v as u8], vec![]),
            A::Cell(c) => (vec![], vec![c.clone()]),
            A::Address(a) => (addr(a), vec![]),
            A::Bytes(d) | A::FixedBytes(d) => (vec![], vec![bytes_cell(d, self.ver.major)]),
            A::String(s) => (vec![], vec![bytes_cell(s.as_bytes(), self.ver.major)]),
            A::Token(t) => { let x = t.into_inner(); let l = (128 - x.leading_zeros() as usize).div_ceil(8); if l > 15 { return None } let mut b = uint(l as u128, 4); b.extend(uint(x, l * 8)); (b, vec![]) }
            A::Array(t, vs) | A::FixedArray(t, vs) => {
                let d = self.dict(vs.iter().enumerate().map(|(i, v)| (uint(i as u128, 32), v)).collect(), 32, t)?;
                let mut b = if matches!(v, A::Array(..)) { uint(vs.len() as u128, 32) } else { vec![] };
                b.push(d.is_some() as u8);
                (b, d.into_iter().collect())
            }
            A::Map(k, t, m) => {
                let d = self.dict(m.iter().map(|(k, v)| Some((plain(k)?, v))).collect::<Option<_>>()?, key_bits(k), t)?;
                (vec![d.is_some() as u8], d.into_iter().collect())
            }
            A::Optional(_, None) => (vec![0], vec![]),
            A::Optional(t, Some(v)) => {
                let (b, r) = self.tuple(std::slice::from_ref(&**v))?;
                let (tb, tr) = tsize(t);
                if tb < 1023 && tr < 4 { let mut x = vec![1]; x.extend(b); (x, r) } else { (vec![1], vec![build_cell(&b, &r.iter().collect::<Vec<_>>())?]) }
            }
            A::Ref(v) => { let (b, r) = self.tuple(std::slice::from_ref(&**v))?; (vec![], vec![build_cell(&b, &r.iter().collect::<Vec<_>>())?]) }
        };
        let (jb, jr) = if self.max() { tsize(&v.get_type()) } else { (bits.len() as u64, refs.len() as u64) };
        out.push(It { bits, refs, jb, jr });
        Some(())
    }
    /// Distribution over a chain of cells: the next cell takes the last reference.
    pub fn pack(&self, its: Vec<It>) -> Option<(B, Vec<Cell>)> { self.pack_at(its, (0, 0)) }
    /// the same with room taken in the first cell
    pub fn pack_at(&self, its: Vec<It>, at: (u64, u64)) -> Option<(B, Vec<Cell>)> {
        let mut chain: Vec<(B, Vec<Cell>)> = vec![(vec![], vec![])];
        let (mut ub, mut ur) = at;
        let (mut rb, mut rr) = its.iter().fold((0, 0), |a, i| (a.0 + i.jb, a.1 + i.jr));
        for i in its {
            let fits = ub + i.jb <= 1023 && ur + i.jr <= 4;
            let keeps_ref = i.jr == 0 || ur + i.jr < 4;
            let rest_fits = self.ver.major != 1 && rr == i.jr && ub + rb <= 1023;
            rb -= i.jb;
            rr -= i.jr;
            if !(fits && (keeps_ref || rest_fits)) { chain.push((vec![], vec![])); ub = 0; ur = 0 }
            ub += i.jb;
            ur += i.jr;
            let c = chain.last_mut().unwrap();
            c.0.extend(i.bits);
            c.1.extend(i.refs);
        }
        let mut last = chain.pop().unwrap();
        while let Some(mut p) = chain.pop() {
            p.1.push(build_cell(&last.0, &last.1.iter().collect::<Vec<_>>())?);
            last = p;
        }
        if last.0.len() > 1023 || last.1.len() > 4 { return None }
        Some(last)
    }
    pub fn tuple(&self, vs: &[AbiValue]) -> Option<(B, Vec<Cell>)> {
        let mut its = vec![];
        for v in vs { self.items(v, &mut its)? }
        self.pack(its)
    }
    pub fn cell(&self, vs: &[AbiValue]) -> Option<Cell> { let (b, r) = self.tuple(vs)?; build_cell(&b, &r.iter().collect::<Vec<_>>()) }
}

pub fn nz(n: u8) -> NonZeroU8 { NonZeroU8::new(n).unwrap() }
pub fn std_addr(k: u8) -> IntAddr { IntAddr::Std(StdAddr::new(if k % 2 == 1 { -1 } else { 0 }, HashBytes(std::array::from_fn(|i| k.wrapping_mul(37).wrapping_add(i as u8))))) }
pub fn any_addr(d: u16) -> IntAddr { IntAddr::Std(StdAddr { anycast: Some(Box::new(anyc(9, d))), workchain: 5, address: HashBytes([0x5c; 32]) }) }
pub fn var_addr(len: u16, any: Option<u16>) -> IntAddr {
    IntAddr::Var(VarAddr { anycast: any.map(|d| Box::new(anyc(3, d))), address_len: Uint9::new(len), workchain: -77, address: pack(&pattern(11, len as usize)) })
}
pub fn two(n: usize) -> BigUint { BigUint::from(1u8) << n }
pub fn utf(n: usize) -> String { (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect() }

/// the leaf types with their boundary values
pub fn leaves() -> Vec<(AbiType, Vec<AbiValue>)> {
    use AbiValue as A;
    let mut v: Vec<(AbiType, Vec<A>)> = vec![];
    for n in [1u16, 7, 8, 63, 64, 65, 128, 255, 256] {
        let n_ = n as usize;
        v.push((AbiType::Uint(n), [BigUint::from(0u8), BigUint::from(1u8), two(n_ - 1), two(n_) - 1u8].into_iter().map(|x| A::Uint(n, x)).collect()));
        let h = BigInt::from(two(n_ - 1));
        v.push((AbiType::Int(n), [BigInt::from(0), BigInt::from(-1), -h.clone(), h - 1].into_iter().map(|x| A::Int(n, x)).collect()));
    }
    for n in [2u8, 3, 9, 16, 17, 32, 33, 128] {
        let m = (n - 1) as usize * 8;
        let mut us = vec![BigUint::from(0u8), BigUint::from(1u8), two(m) - 1u8, two(m - 1)];
        let mut is = vec![BigInt::from(0), BigInt::from(1), BigInt::from(-1), BigInt::from(two(m - 1)) - 1, -BigInt::from(two(m - 1))];
        for k in 1..=(n as usize - 1).min(3) {
            for d in [-1i32, 0, 1] {
                let x = BigInt::from(two(8 * k)) + d; if x.magnitude().bits() as usize <= m { us.push(x.magnitude().clone()) }
                for y in [BigInt::from(two(8 * k - 1)) + d, BigInt::from(two(8 * k)) + d] { for z in [y.clone(), -y] { if ibits(&z, m).is_some() { is.push(z) } } }
            }
        }
        us.sort(); us.dedup(); is.sort(); is.dedup();
        v.push((AbiType::VarUint(nz(n)), us.into_iter().map(|x| A::VarUint(nz(n), x)).collect()));
        v.push((AbiType::VarInt(nz(n)), is.into_iter().map(|x| A::VarInt(nz(n), x)).collect()));
    }
    v.push((AbiType::Bool, vec![A::Bool(false), A::Bool(true)]));
    let deep = build_cell(&uint(0xc5, 8), &[&cell_of(&uint(1, 1)), &cell_of(&[]), &cell_of(&uint(7, 3)), &cell_of(&uint(2, 2))]).unwrap();
    v.push((AbiType::Cell, vec![A::Cell(cell_of(&[])), A::Cell(deep), A::Cell(cell_of(&pattern(3, 1023)))]));
    v.push((AbiType::Address, vec![A::Address(Box::new(std_addr(1))), A::Address(Box::new(any_addr(30))), A::Address(Box::new(any_addr(1))), A::Address(Box::new(var_addr(0, None))), A::Address(Box::new(var_addr(511, Some(30)))), A::Address(Box::new(var_addr(256, None)))]));
    let by = |n: usize| tycho_bytes((0..n).map(|i| (i * 7 + n) as u8).collect());
    v.push((AbiType::Bytes, [0usize, 1, 126, 127, 128, 253, 254, 255, 381].iter().map(|n| A::Bytes(by(*n))).collect()));
    for n in [0usize, 3, 127, 128] { v.push((AbiType::FixedBytes(n), vec![A::FixedBytes(by(n))])) }
    v.push((AbiType::String, vec![A::String(String::new()), A::String("\u{451}".into()), A::String(utf(127)), A::String(utf(128)), A::String(format!("{}\u{1f600}", utf(125)))]));
    v.push((AbiType::Token, [0u128, 1, 255, 256, (1 << 120) - 1].iter().map(|x| A::Token(Tokens::new(*x))).collect()));
    v
}
pub fn tycho_bytes(v: Vec<u8>) -> bytes::Bytes { bytes::Bytes::from(v) }
pub fn arc(t: &AbiType) -> Arc<AbiType> { Arc::new(t.clone()) }

/// every container over one element type, with values built from the element's values
pub fn containers(t: &AbiType, vs: &[AbiValue]) -> Vec<(AbiType, Vec<AbiValue>)> {
    use AbiValue as A;
    let mut out = vec![];
    let take = |n: usize| -> Vec<A> { (0..n).map(|i| vs[(i * 5 + n) % vs.len()].clone()).collect() };
    out.push((AbiType::Array(arc(t)), [0usize, 1, 2, 5].iter().map(|n| A::Array(arc(t), take(*n))).collect::<Vec<_>>()));
    for n in [0usize, 1, 3] { out.push((AbiType::FixedArray(arc(t), n), vec![A::FixedArray(arc(t), take(n))])) }
    let mut opt = vec![A::Optional(arc(t), None)];
    opt.extend(vs.iter().take(3).chain(vs.last()).map(|v| A::Optional(arc(t), Some(Box::new(v.clone())))));
    out.push((AbiType::Optional(arc(t)), opt));
    out.push((AbiType::Ref(arc(t)), vec![A::Ref(Box::new(vs[0].clone())), A::Ref(Box::new(vs[vs.len() - 1].clone()))]));
    for (kt, keys) in keys() {
        out.push((AbiType::Map(kt, arc(t)), [0usize, 1, keys.len()].iter().map(|n| A::Map(kt, arc(t), keys.iter().take(*n).cloned().zip(take(*n)).collect::<BTreeMap<_, _>>())).collect()));
    }
    out
}
pub fn keys() -> Vec<(PlainAbiType, Vec<PlainAbiValue>)> {
    let b = |x: u64| BigUint::from(x);
    vec![
        (PlainAbiType::Uint(8), vec![PlainAbiValue::Uint(8, b(0)), PlainAbiValue::Uint(8, b(127)), PlainAbiValue::Uint(8, b(128)), PlainAbiValue::Uint(8, b(255))]),
        (PlainAbiType::Uint(256), vec![PlainAbiValue::Uint(256, b(0)), PlainAbiValue::Uint(256, b(1)), PlainAbiValue::Uint(256, two(256) - 1u8)]),
        (PlainAbiType::Int(16), vec![PlainAbiValue::Int(16, BigInt::from(-1)), PlainAbiValue::Int(16, BigInt::from(0)), PlainAbiValue::Int(16, BigInt::from(-32768)), PlainAbiValue::Int(16, BigInt::from(32767))]),
        (PlainAbiType::Bool, vec![PlainAbiValue::Bool(true), PlainAbiValue::Bool(false)]),
        (PlainAbiType::Address, vec![PlainAbiValue::Address(Box::new(std_addr(2))), PlainAbiValue::Address(Box::new(std_addr(1)))]),
    ]
}
pub fn tuples(t: &AbiType, v: &AbiValue, others: &[AbiValue]) -> Vec<(AbiType, AbiValue)> {
    let _ = t;
    let mk = |vs: Vec<AbiValue>| { let v = AbiValue::unnamed_tuple(vs); (v.get_type(), v) };
    let mut out = vec![mk(vec![v.clone()])];
    for o in others { out.push(mk(vec![v.clone(), o.clone()])); out.push(mk(vec![o.clone(), v.clone()])); }
    out
}
pub fn anyc(seed: u64, d: u16) -> Anycast { Anycast::from_slice(&cell_of(&pattern(seed, d as usize)).as_slice().unwrap()).unwrap() }
