//! C02: the cell builder against a bit-vector model: every operation from every offset, and all short
//! operation sequences.
use crate::fw::*;
use crate::model::{bits::*, cells::{check_same, mk}};
use std::rc::Rc;
use std::sync::Arc;
use tycho_types::cell::*;
use tycho_types::error::Error;

pub const META: Meta = Meta {
    id: "C02",
    level: "model_checking",
    rule: "a state is the builder content (bits, reference list, exotic flag); a transition is one real builder operation executed and compared with the bit-vector model (content, raw buffer, reported sizes, result); non-trivial: the operation changes the content or is refused",
    assumptions: &["operation arguments come from the alphabets listed in DESIGN.md; lengths cover all boundaries of the 1023-bit and 4-reference limits and of the u16 argument type"],
    run,
};

#[derive(Clone)]
struct Md { bits: B, refs: Vec<usize>, exotic: bool }

#[derive(Clone, Debug)]
enum Op {
    Zeros(u16), Ones(u16), BitZero, BitOne, Bit(bool), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), U256([u8; 32]),
    Small(u8, u16), Uint(u64, u16), Raw(u64, usize, u16), CellData(u64, usize), SliceData(u64, usize, usize, usize),
    Slice(u64, usize, usize, usize, u8, u8), Builder(u64, usize, usize), Ref(usize), Rewind(u16), Prepend(u64, usize, u16), Clear, SetRefs(usize), Exotic(bool),
    SBool(bool), SI8(i8), SI16(i16), SI32(i32), SI64(i64), SI128(i128), SHash([u8; 32]), SOpt(Option<u16>), STuple(u8, bool, u32), SBox(u64), SCell(usize), SSliceBuilder(u64, usize),
}

struct Env { leaves: Vec<Cell> }
impl Env { fn new() -> Self { Env { leaves: (0..6u8).map(|i| cell_of(&uint(i as u128, 8))).collect() } } }
// SAFETY-free: Cell is Send+Sync with the `sync` feature

fn raw_src(seed: u64, bytes: usize) -> (B, Vec<u8>) {
    static C: std::sync::OnceLock<[(B, Vec<u8>); 10]> = std::sync::OnceLock::new();
    let c = C.get_or_init(|| std::array::from_fn(|s| { let b = pattern(s as u64, 8193 * 8); let p = pack(&b); (b, p) }));
    let (b, p) = &c[seed as usize];
    (b[..bytes * 8].to_vec(), p[..bytes].to_vec())
}
fn raw_bits(seed: u64, bytes: usize, n: u16) -> B {
    let src = raw_src(seed, bytes).0;
    let n = n as usize;
    if n > src.len() { let mut r = vec![0; n - src.len()]; r.extend(src); r } else { src[..n].to_vec() }
}

fn put(m: &mut Md, b: B, refs: &[usize]) -> bool {
    if m.bits.len() + b.len() > 1023 || m.refs.len() + refs.len() > 4 { return false }
    m.bits.extend(b);
    m.refs.extend_from_slice(refs);
    true
}

fn model(op: &Op, m: &mut Md) -> bool {
    match op {
        Op::Zeros(n) => put(m, vec![0; *n as usize], &[]),
        Op::Ones(n) => put(m, vec![1; *n as usize], &[]),
        Op::BitZero => put(m, vec![0], &[]),
        Op::BitOne => put(m, vec![1], &[]),
        Op::Bit(b) | Op::SBool(b) => put(m, vec![*b as u8], &[]),
        Op::U8(v) => put(m, uint(*v as u128, 8), &[]),
        Op::U16(v) => put(m, uint(*v as u128, 16), &[]),
        Op::U32(v) => put(m, uint(*v as u128, 32), &[]),
        Op::U64(v) | Op::SBox(v) => put(m, uint(*v as u128, 64), &[]),
        Op::U128(v) => put(m, uint(*v, 128), &[]),
        Op::U256(v) | Op::SHash(v) => put(m, from_bytes(v, 256), &[]),
        Op::Small(v, n) => put(m, { let n = *n as usize; if n > 8 { let mut r = vec![0; n - 8]; r.extend(uint(*v as u128, 8)); r } else { uint(*v as u128, n) } }, &[]),
        Op::Uint(v, n) => put(m, uint(*v as u128, *n as usize), &[]),
        Op::Raw(s, by, n) => put(m, raw_bits(*s, *by, *n), &[]),
        Op::CellData(s, n) => put(m, pattern(*s, *n), &[]),
        Op::SliceData(s, n, a, b) => put(m, pattern(*s, *n)[*a..*b].to_vec(), &[]),
        Op::Slice(s, n, a, b, r0, r1) => put(m, pattern(*s, *n)[*a..*b].to_vec(), &(*r0 as usize..*r1 as usize).collect::<Vec<_>>()),
        Op::Builder(s, n, k) => put(m, pattern(*s, *n), &(0..*k).collect::<Vec<_>>()),
        Op::Ref(i) | Op::SCell(i) => put(m, vec![], &[*i]),
        Op::Rewind(n) => { let n = *n as usize; if n > m.bits.len() { false } else { m.bits.truncate(m.bits.len() - n); true } }
        Op::Prepend(s, by, n) => {
            if m.bits.len() + *n as usize > 1023 { return false }
            let mut r = raw_bits(*s, *by, *n);
            r.extend_from_slice(&m.bits);
            m.bits = r;
            true
        }
        Op::Clear => { m.bits.clear(); true }
        Op::SetRefs(k) => { m.refs = (0..*k).map(|i| 5 - i).collect(); true }
        Op::Exotic(e) => { m.exotic = *e; true }
        Op::SI8(v) => put(m, uint(*v as u8 as u128, 8), &[]),
        Op::SI16(v) => put(m, uint(*v as u16 as u128, 16), &[]),
        Op::SI32(v) => put(m, uint(*v as u32 as u128, 32), &[]),
        Op::SI64(v) => put(m, uint(*v as u64 as u128, 64), &[]),
        Op::SI128(v) => put(m, uint(*v as u128, 128), &[]),
        // composite values are several store operations: they are only compared when they fit as a whole
        Op::SOpt(v) => put(m, match v { None => vec![0], Some(v) => { let mut r = vec![1]; r.extend(uint(*v as u128, 16)); r } }, &[]),
        Op::STuple(a, b, c) => put(m, { let mut r = uint(*a as u128, 8); r.push(*b as u8); r.extend(uint(*c as u128, 32)); r }, &[]),
        Op::SSliceBuilder(s, n) => put(m, pattern(*s, *n), &[]),
    }
}

fn real(env: &Env, op: &Op, b: &mut CellBuilder) -> Result<(), Error> {
    let cx = Cell::empty_context();
    let fill = |s: u64, n: usize, k: usize| { let mut x = builder_of(&pattern(s, n)); for c in &env.leaves[..k] { x.store_reference(c.clone()).unwrap() } x };
    match op {
        Op::Zeros(n) => b.store_zeros(*n),
        Op::Ones(n) => b.store_ones(*n),
        Op::BitZero => b.store_bit_zero(),
        Op::BitOne => b.store_bit_one(),
        Op::Bit(v) => b.store_bit(*v),
        Op::U8(v) => b.store_u8(*v),
        Op::U16(v) => b.store_u16(*v),
        Op::U32(v) => b.store_u32(*v),
        Op::U64(v) => b.store_u64(*v),
        Op::U128(v) => b.store_u128(*v),
        Op::U256(v) => b.store_u256(&HashBytes(*v)),
        Op::Small(v, n) => b.store_small_uint(*v, *n),
        Op::Uint(v, n) => b.store_uint(*v, *n),
        Op::Raw(s, by, n) => b.store_raw(&raw_src(*s, *by).1, *n),
        Op::CellData(s, n) => { let c = fill(*s, *n, 2).build()?; b.store_cell_data(c) }
        Op::SliceData(s, n, x, y) => { let c = fill(*s, *n, 1).build()?; let mut sl = c.as_slice()?; sl.only_first(*y as u16, 1)?; sl.skip_first(*x as u16, 0)?; b.store_slice_data(sl) }
        Op::Slice(s, n, x, y, r0, r1) => { let c = fill(*s, *n, 4).build()?; let mut sl = c.as_slice()?; sl.only_first(*y as u16, *r1)?; sl.skip_first(*x as u16, *r0)?; b.store_slice(sl) }
        Op::Builder(s, n, k) => { let x = fill(*s, *n, *k); b.store_builder(&x) }
        Op::Ref(i) => b.store_reference(env.leaves[*i].clone()),
        Op::Rewind(n) => b.rewind_bits(*n),
        Op::Prepend(s, by, n) => b.prepend_raw(&raw_src(*s, *by).1, *n),
        Op::Clear => { b.clear_bits(); Ok(()) }
        Op::SetRefs(k) => { let mut r = CellRefsBuilder::default(); for i in 0..*k { r.store_reference(env.leaves[5 - i].clone())? } b.set_references(r); Ok(()) }
        Op::Exotic(e) => { b.set_exotic(*e); Ok(()) }
        Op::SBool(v) => v.store_into(b, cx),
        Op::SI8(v) => v.store_into(b, cx),
        Op::SI16(v) => (&v).store_into(b, cx),
        Op::SI32(v) => Arc::new(*v).store_into(b, cx),
        Op::SI64(v) => Rc::new(*v).store_into(b, cx),
        Op::SI128(v) => v.store_into(b, cx),
        Op::SHash(v) => HashBytes(*v).store_into(b, cx),
        Op::SOpt(v) => v.store_into(b, cx),
        Op::STuple(x, y, z) => (*x, *y, *z).store_into(b, cx),
        Op::SBox(v) => Box::new(*v).store_into(b, cx),
        Op::SCell(i) => env.leaves[*i].store_into(b, cx),
        Op::SSliceBuilder(s, n) => { let x = fill(*s, *n, 0); let mut t = CellBuilder::new(); x.as_full_slice().store_into(&mut t, cx)?; t.store_into(b, cx) }
    }
}

fn composite(op: &Op) -> bool { matches!(op, Op::SOpt(_) | Op::STuple(..)) }

fn compare(env: &Env, b: &CellBuilder, m: &Md, what: &dyn Fn() -> String) -> R {
    let mut want = pack(&m.bits);
    want.resize(128, 0);
    let n = m.bits.len();
    let k = m.refs.len();
    ck!(b.size_bits() as usize == n, "size_bits", "{} vs {n}: {}", b.size_bits(), what());
    ck!(b.raw_data()[..] == want[..], "content", "{}: impl {} model {}", what(), hx(b.raw_data()), hx(&want));
    ck!(b.spare_capacity_bits() as usize == 1023 - n && b.spare_capacity_refs() as usize == 4 - k, "spare", "{}", what());
    ck!(b.size().bits as usize == n && b.size().refs as usize == k && b.size_refs() as usize == k, "size", "{}", what());
    ck!(b.spare_capacity().bits as usize == 1023 - n && b.spare_capacity().refs as usize == 4 - k, "spare", "{}", what());
    ck!(b.is_exotic() == m.exotic, "exotic", "{}", what());
    ck!(b.references().len() == k, "refs", "{}", what());
    for (a, i) in b.references().iter().zip(&m.refs) { ck!(a == &env.leaves[*i], "ref-content", "{}", what()) }
    Ok(())
}

fn caps(b: &CellBuilder, m: &Md) -> R {
    for bits in [0u16, 1, 7, 8, 1022, 1023, 1024, 32767, 64511, 64512, 64513, 65534, 65535] {
        for d in [0i32, -1, 1] {
            let bits = if d == 0 { bits } else { (1023 - m.bits.len() as i32 + d).clamp(0, 65535) as u16 };
            for refs in [0u8, 1, 3, 4, 5, 255] {
                let want = m.bits.len() + bits as usize <= 1023 && m.refs.len() + refs as usize <= 4;
                let got = np("panic-has_capacity", || format!("len {} bits {bits} refs {refs}", m.bits.len()), || b.has_capacity(bits, refs))?;
                ck!(got == want, "has_capacity", "len {} refs {} + {bits},{refs}: {got}", m.bits.len(), m.refs.len());
            }
            let got = np("panic-has_capacity", || format!("len {} bits {bits}", m.bits.len()), || b.has_capacity_bits(bits))?;
            ck!(got == (m.bits.len() + bits as usize <= 1023), "has_capacity_bits", "len {} + {bits}", m.bits.len());
        }
    }
    Ok(())
}

fn built(env: &Env, b: &CellBuilder, m: &Md, what: &dyn Fn() -> String) -> R {
    // the builder's own slices
    let fs = b.as_full_slice();
    ck!(slice_bits(&fs) == m.bits && fs.size_refs() as usize == m.refs.len(), "as_full_slice", "{}", what());
    for i in 0..m.refs.len() { ck!(fs.get_reference_cloned(i as u8).unwrap() == env.leaves[m.refs[i]], "as_full_slice-ref", "{}", what()) }
    let ds = b.as_data_slice();
    ck!(slice_bits(&ds) == m.bits && ds.size_refs() == 0, "as_data_slice", "{}", what());
    let bs = b.as_bitstring();
    ck!(bs.bit_len as usize == m.bits.len(), "as_bitstring", "{}", what());
    let rm: Vec<_> = m.refs.iter().map(|i| mk(false, uint(*i as u128, 8), vec![]).unwrap()).collect();
    let c = b.clone().build();
    match (mk(m.exotic, m.bits.clone(), rm), c) {
        (Ok(mm), Ok(c)) => {
            check_same(c.as_ref(), &mm).map_err(|e| V { key: "built".into(), detail: format!("{e}: {}", what()) })?;
            if !m.exotic {
                let s = c.as_slice().unwrap();
                ck!(slice_bits(&s) == m.bits, "built-slice", "{}", what());
            }
        }
        (Err(_), Err(_)) => {}
        (a, c) => bad!("build", "model ok={} impl ok={}: {}", a.is_ok(), c.is_ok(), what()),
    }
    let (e, d, rf) = b.clone().into_parts();
    ck!(CellBuilder::from_parts(e, d, rf) == *b, "parts", "{}", what());
    Ok(())
}

fn step(env: &Env, b: &mut CellBuilder, m: &mut Md, op: &Op, l: &mut L) -> R<bool> {
    let before = m.clone();
    let ok = model(op, m);
    if !ok { *m = before.clone() }
    let w = || format!("{op:?} on {} bits {} refs", before.bits.len(), before.refs.len());
    let mut nb = b.clone();
    let r = np("panic-op", w, || real(env, op, &mut nb))?;
    l.tr(1);
    l.ev();
    if !ok || m.bits.len() != before.bits.len() { l.nt() }
    if !ok && composite(op) { ck!(r.is_err(), "overflow-accepted", "{}", w()); return Ok(false) }
    match (&r, ok) {
        (Ok(()), false) => bad!("overflow-accepted", "{}", w()),
        (Err(e), true) => bad!("refused", "{e:?} {}", w()),
        (Err(e), false) => ck!(matches!((op, e), (Op::Rewind(_), Error::CellUnderflow)) || matches!(e, Error::CellOverflow), "error-kind", "{e:?} {}", w()),
        _ => {}
    }
    compare(env, &nb, m, &w)?;
    *b = nb;
    Ok(true)
}

fn alphabet() -> Vec<Op> {
    let mut v = vec![];
    let ns: Vec<u16> = vec![0, 1, 2, 3, 5, 7, 8, 9, 10, 15, 16, 17, 23, 24, 31, 32, 33, 48, 56, 57, 63, 64, 65, 66, 71, 72, 73, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1015, 1016, 1017, 1021, 1022, 1023, 1024, 1025, 2046, 8184, 32767, 32768, 64511, 64512, 64513, 64520, 65528, 65533, 65534, 65535];
    for &n in &ns {
        v.push(Op::Zeros(n));
        v.push(Op::Ones(n));
        v.push(Op::Rewind(n));
        for x in [0u8, 1, 0x80, 0xff, 0xa5] { v.push(Op::Small(x, n)) }
        for x in [0u64, 1, u64::MAX, 1 << 63, 0xa5a5_0f0f_1234_8001] { v.push(Op::Uint(x, n)) }
        for s in [1u64, 2] {
            let by = (n as usize).div_ceil(8).min(128);
            v.push(Op::Raw(s, by, n));
            v.push(Op::Raw(s, 128, n));
            v.push(Op::Raw(s, by.saturating_sub(1), n));
            v.push(Op::Raw(s, 0, n));
            v.push(Op::Raw(s, 1, n));
            if [0, 1, 9, 257, 1016, 1023, 65535].contains(&n) { for by in [8191, 8192, 8193] { v.push(Op::Raw(s, by, n)) } }
            v.push(Op::Prepend(s, by, n));
            v.push(Op::Prepend(s, 128, n));
            v.push(Op::Prepend(s, by.saturating_sub(1), n));
            if [0, 1, 257, 1023].contains(&n) { v.push(Op::Prepend(s, 8192, n)) }
            if n <= 1023 {
                let n = n as usize;
                v.push(Op::CellData(s, n));
                v.push(Op::SliceData(s, 1023, 0, n));
                v.push(Op::SliceData(s, 1023, 1023 - n, 1023));
                v.push(Op::SliceData(s, 1023, (1023 - n) / 2, (1023 - n) / 2 + n));
                if n > 0 { v.push(Op::SliceData(s, n, n.min(3), n)) }
                for k in 0..=4 { v.push(Op::Builder(s, n, k)) }
                for (a, b) in [(0u8, 0u8), (0, 1), (1, 3), (0, 4), (2, 4), (4, 4)] { v.push(Op::Slice(s, 1023, 1023 - n, 1023, a, b)); v.push(Op::Slice(s, n, 0, n, a, b)) }
                v.push(Op::SSliceBuilder(s, n));
            }
        }
    }
    v.extend([Op::BitZero, Op::BitOne, Op::Bit(true), Op::Bit(false), Op::SBool(true), Op::SBool(false), Op::Clear, Op::Exotic(true), Op::Exotic(false)]);
    for x in [0u64, 1, u64::MAX, 1 << 63, 0x8000_8080_0180_ff01, 0xa55a_0ff0_1234_8001] {
        let y = (x as u128) << 64 | (x.rotate_left(13)) as u128;
        v.extend([Op::U8(x as u8), Op::U16(x as u16), Op::U32(x as u32), Op::U64(x), Op::U128(y), Op::SI8(x as i8), Op::SI16(x as i16), Op::SI32(x as i32), Op::SI64(x as i64), Op::SI128(y as i128), Op::SBox(x), Op::SOpt(Some(x as u16)), Op::SOpt(None), Op::STuple(x as u8, x & 2 != 0, x as u32)]);
    }
    for h in [[0u8; 32], [0xff; 32], std::array::from_fn(|i| (i * 37 + 11) as u8)] { v.push(Op::U256(h)); v.push(Op::SHash(h)) }
    for i in 0..3 { v.push(Op::Ref(i)); v.push(Op::SCell(i)) }
    for k in 0..=4 { v.push(Op::SetRefs(k)) }
    v
}

fn small_alphabet() -> Vec<Op> {
    vec![
        Op::Zeros(0), Op::Zeros(3), Op::Zeros(9), Op::Ones(1), Op::Ones(13), Op::BitOne, Op::BitZero, Op::U8(0xa7), Op::U16(0x81ff), Op::U32(0x8001_c0de), Op::U64(0x8123_4567_89ab_cdef),
        Op::U128(0x8123_4567_89ab_cdef_0011_2233_4455_66ff), Op::U256([0xb5; 32]), Op::Small(0x5f, 3), Op::Small(0xff, 11), Op::Uint(0x0fed_cba9_8765_4321, 37), Op::Uint(u64::MAX, 70),
        Op::Raw(2, 5, 37), Op::Raw(1, 2, 20), Op::Raw(3, 64, 509), Op::CellData(2, 77), Op::SliceData(2, 200, 5, 66), Op::Slice(4, 90, 7, 90, 1, 3), Op::Builder(5, 21, 1), Op::Ref(0), Op::Ref(4),
        Op::Rewind(1), Op::Rewind(6), Op::Rewind(17), Op::Prepend(2, 2, 11), Op::Prepend(1, 1, 12), Op::Clear, Op::SetRefs(3), Op::Zeros(1000), Op::Ones(1010), Op::SOpt(None), Op::SI64(-3),
    ]
}

fn run(r: &Run) {
    let env = Env::new();
    let al = alphabet();
    // every operation from every fill level
    r.section("one-step", 1024 * 4, |i, l| {
        let mut ix = Ix(i);
        let n = ix.us(1024);
        let (p, k) = [(2u64, 0usize), (0, 2), (1, 4), (7, 3)][ix.us(4)];
        let bits = pattern(p, n);
        let m0 = Md { bits: bits.clone(), refs: (0..k).collect(), exotic: false };
        let mut b0 = builder_of(&bits);
        for c in &env.leaves[..k] { b0.store_reference(c.clone()).unwrap() }
        compare(&env, &b0, &m0, &|| format!("setup {n}"))?;
        built(&env, &b0, &m0, &|| format!("setup {n}"))?;
        caps(&b0, &m0)?;
        l.st(1);
        for (j, op) in al.iter().enumerate() {
            let (mut b, mut m) = (b0.clone(), m0.clone());
            let applied = step(&env, &mut b, &mut m, op, l);
            match applied { Err(v) => { l.fail(v); continue } Ok(_) => {} }
            l.st(1);
            // the full read-back for a rotating subset, so that each operation gets it at every offset modulo 32
            if (j + n) % 32 == 0 { if let Err(v) = built(&env, &b, &m, &|| format!("{op:?} on {n}")) { l.fail(v) } }
        }
        l.sample(|| format!("start {n} bits pattern {p}, {k} refs, then each of {} operations", al.len()));
        Ok(())
    });
    // all sequences of the small alphabet from several fill levels
    let sm = small_alphabet();
    let starts = [0usize, 1, 3, 7, 8, 250, 511, 760, 961, 1000, 1010, 1016, 1022];
    let a = sm.len() as u64;
    r.section("sequences-3", starts.len() as u64 * a * a, |i, l| {
        let mut ix = Ix(i);
        let n = *ix.of(&starts);
        let (o1, o2) = (ix.of(&sm), ix.of(&sm));
        let mut m0 = Md { bits: pattern(2, n), refs: vec![], exotic: false };
        let mut b0 = builder_of(&m0.bits);
        if !step(&env, &mut b0, &mut m0, o1, l)? { return Ok(()) }
        if !step(&env, &mut b0, &mut m0, o2, l)? { return Ok(()) }
        for o3 in &sm {
            let (mut b, mut m) = (b0.clone(), m0.clone());
            let ok = step(&env, &mut b, &mut m, o3, l)?;
            if ok && i % 8 == 0 { built(&env, &b, &m, &|| format!("{n}: {o1:?} {o2:?} {o3:?}"))? }
            l.st(1);
        }
        l.sample(|| format!("start {n}: {o1:?}; {o2:?}; *"));
        Ok(())
    });
    let st4: Vec<usize> = r.pick(vec![0, 1001], vec![0, 1, 5, 250, 961, 1001, 1016]);
    r.section("sequences-4", st4.len() as u64 * a * a * a, |i, l| {
        let mut ix = Ix(i);
        let n = *ix.of(&st4);
        let mut m0 = Md { bits: pattern(2, n), refs: vec![0], exotic: false };
        let mut b0 = builder_of(&m0.bits);
        b0.store_reference(env.leaves[0].clone()).unwrap();
        for _ in 0..3 { let o = ix.of(&sm); if !step(&env, &mut b0, &mut m0, o, l)? { return Ok(()) } }
        for o4 in &sm {
            let (mut b, mut m) = (b0.clone(), m0.clone());
            step(&env, &mut b, &mut m, o4, l)?;
            l.st(1);
        }
        Ok(())
    });
    // equality and reference builder
    r.section("eq-and-refs", 1024, |i, l| {
        let n = i as usize;
        let a = builder_of(&pattern(2, n));
        let mut b = builder_of(&pattern(2, n));
        l.tr(4); l.st(1);
        ck!(a == b && a.cmp(&b).is_eq(), "eq", "{n}");
        if n > 0 { let mut x = pattern(2, n); x[n - 1] ^= 1; let c = builder_of(&x); ck!(a != c && !a.cmp(&c).is_eq(), "ne", "{n}") }
        // stale bits after rewind never influence equality
        if n < 1000 { b.store_raw(&[0xff; 8], 23).unwrap(); b.rewind_bits(23).unwrap(); ck!(a == b, "eq-after-rewind", "{n}") }
        let mut c = b.clone();
        c.store_reference(env.leaves[0].clone()).unwrap();
        ck!(c != b, "ne-refs", "{n}");
        let mut rb = CellRefsBuilder::default();
        for k in 0..6usize {
            ck!(rb.len() == k.min(4) && rb.is_empty() == (k == 0), "refs-len", "{k}");
            let r = rb.store_reference(env.leaves[k].clone());
            ck!(r.is_ok() == (k < 4), "refs-cap", "{k}");
        }
        ck!(rb.iter().zip(&env.leaves).all(|(a, b)| a == b), "refs-iter", "");
        let d = CellDataBuilder::from_raw_data(&pack(&pattern(2, n)), n as u16);
        match d { Ok(d) => ck!(CellBuilder::from(d) == a, "data-builder", "{n}"), Err(e) => bad!("data-builder", "{n} {e:?}") }
        ck!(CellBuilder::from_raw_data(&pack(&pattern(2, n)), n as u16).unwrap() == a, "from_raw_data", "{n}");
        Ok(())
    });
    r.section("from_raw_data-limits", 65536, |i, l| {
        let n = i as u16;
        let d = [0xa5u8; 128];
        let x = np("panic-from_raw", || format!("{n}"), || CellBuilder::from_raw_data(&d, n))?;
        ck!(x.is_ok() == (n <= 1023), "from_raw-limit", "{n}");
        l.tr(1); l.st(1);
        Ok(())
    });
}
