//! C28: ABI values: encoding over chained cells and decoding, for every type and version.
use super::abilib::*;
use crate::fw::*;
use crate::model::{bits::*, dict::*};
use crate::{bad, ck, ckeq};
use num_bigint::{BigInt, BigUint};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use tycho_types::abi::*;
use tycho_types::cell::*;
use tycho_types::models::*;
use tycho_types::num::*;

pub const META: Meta = Meta {
    id: "C28",
    level: "model_checking",
    rule: "a state is (type, value, bits and references already taken in the cell, following values, ABI version); transitions are the encoder and the decoder; every leaf type with boundary values, every container over it, every container over a container, and every tuple to length 3 (4 thorough) over values with boundary sizes after every prefix of cells and padding; the encoded cell is compared with an independent layout model and decoded back; every malformed array, map, string and truncation of a small set is decoded too; non-trivial: the value is split over more than one cell, or the data is malformed",
    assumptions: &["the layout of a zero variable-length integer (no bytes, or one zero byte as the reference implementation writes) is not judged", "an array whose dictionary has more entries than its length is not judged", "types of zero size (uint0, the empty tuple) are checked only where the layout is unambiguous"],
    run,
};

fn load(ts: &[AbiType], ver: AbiVersion, c: &Cell) -> R<Option<Vec<AbiValue>>> {
    np("panic/decode", || format!("{ver} {ts:?}"), || {
        let mut s = c.as_slice().ok()?;
        AbiValue::load_tuple(ts, ver, &mut s).ok()
    })
}
/// one value through every strict entry point
fn load_each(t: &AbiType, ver: AbiVersion, c: &Cell) -> R<Option<AbiValue>> {
    let v = load(std::slice::from_ref(t), ver, c)?.map(|mut v| v.pop().unwrap());
    let nt = t.clone().named("x");
    let sl = || c.as_slice_allow_exotic();
    let n = np("panic/decode", || format!("{ver} {t:?}"), || (AbiValue::load(t, ver, &mut sl()).ok(), NamedAbiValue::load(&nt, ver, &mut sl()).ok(), NamedAbiValue::load_tuple(std::slice::from_ref(&nt), ver, &mut sl()).ok()))?;
    ckeq!(n.0, v, "load/value", "{ver} {t:?}");
    ckeq!(n.1.map(|x| x.value), v, "load/named", "{ver} {t:?}");
    ckeq!(n.2.map(|mut x| x.pop().unwrap().value), v, "load/named-tuple", "{ver} {t:?}");
    Ok(v)
}
/// one value through every entry point which allows leftovers: the value and what is left
fn load_part(t: &AbiType, ver: AbiVersion, c: &Cell) -> R<Option<(AbiValue, u16, u8)>> {
    let nt = t.clone().named("x");
    let (ts, nts) = (std::slice::from_ref(t), std::slice::from_ref(&nt));
    type Out = Option<(AbiValue, u16, u8)>;
    fn one(c: &Cell, f: &dyn Fn(&mut CellSlice<'_>) -> anyhow::Result<AbiValue>) -> Out { let mut s = c.as_slice_allow_exotic(); f(&mut s).ok().map(|v| (v, s.size_bits(), s.size_refs())) }
    let all: Vec<(&str, Out)> = np("panic/decode", || format!("{ver} {t:?}"), || vec![
        ("value", one(c, &|s| AbiValue::load_partial(t, ver, s))),
        ("value-ext", one(c, &|s| AbiValue::load_ext(t, ver, true, true, s))),
        ("tuple", one(c, &|s| AbiValue::load_tuple_partial(ts, ver, s).map(|mut v| v.pop().unwrap()))),
        ("tuple-ext", one(c, &|s| AbiValue::load_tuple_ext(ts, ver, true, true, s).map(|mut v| v.pop().unwrap()))),
        ("named", one(c, &|s| NamedAbiValue::load_partial(&nt, ver, s).map(|v| v.value))),
        ("named-ext", one(c, &|s| NamedAbiValue::load_ext(&nt, ver, true, true, s).map(|v| v.value))),
        ("named-tuple", one(c, &|s| NamedAbiValue::load_tuple_partial(nts, ver, s).map(|mut v| v.pop().unwrap().value))),
        ("named-tuple-ext", one(c, &|s| NamedAbiValue::load_tuple_ext(nts, ver, true, true, s).map(|mut v| v.pop().unwrap().value))),
    ])?;
    for (k, x) in &all[1..] { ckeq!(*x, all[0].1, "load/partial-forms", "{k} {ver} {t:?}") }
    let empty_first = c.bit_len() == 0; // the value may begin in the referenced cell
    if let Some((v, b, r)) = &all[0].1 { if (*b, *r) == (0, 0) || empty_first {} else { ck!(AbiValue::load(t, ver, &mut c.as_slice_allow_exotic()).is_err(), "load/strict-left", "{ver} {t:?} {v:?}") } }
    Ok(all.into_iter().next().unwrap().1)
}
fn sh(vs: &[AbiValue]) -> String { let s = format!("{vs:?}"); if s.len() > 600 { format!("{}...", &s[..s.char_indices().map(|x| x.0).take_while(|i| *i <= 600).last().unwrap()]) } else { s } }

/// encode, compare with the model, decode back
fn trip(vs: &[AbiValue], ver: AbiVersion, l: &mut L) -> R<Option<Cell>> {
    l.ev();
    l.tr(2);
    let m = M { ver, zero: 1 };
    let got = np("panic/encode", || format!("{ver} {}", sh(vs)), || AbiValue::tuple_to_cell(vs, ver))?;
    let want = m.cell(vs);
    let (got, want) = match (got, want) {
        (Err(_), None) => return Ok(None),
        (Ok(g), Some(w)) => (g, w),
        (g, w) => bad!("encode/outcome", "{ver} impl={:?} model={:?} {}", g.map(|c| c.display_tree().to_string()), w.map(|c| c.display_tree().to_string()), sh(vs)),
    };
    if got != want && (M { ver, zero: 0 }).cell(vs).as_ref() != Some(&got) { bad!("encode/layout", "{ver} {}\nimpl {}\nmodel {}", sh(vs), got.display_tree(), want.display_tree()) }
    let ts: Vec<AbiType> = vs.iter().map(|v| v.get_type()).collect();
    let r = np("panic/decode", || format!("{ver} {}", sh(vs)), || AbiValue::load_tuple(&ts, ver, &mut got.as_slice().unwrap()))?;
    match r {
        Ok(r) => ck!(r == vs, "decode/value", "{ver} {} -> {}", sh(vs), sh(&r)),
        Err(e) => bad!("decode/error", "{ver} {e} {}\n{}", sh(vs), got.display_tree()),
    }
    if got.as_ref().reference_count() > 0 { l.nt() }
    Ok(Some(got))
}
/// all other entry points on one value
fn single(v: &AbiValue, ver: AbiVersion, l: &mut L) -> R {
    l.ev();
    let t = v.get_type();
    ck!(v.has_type(&t), "has-type", "{v:?}");
    ckeq!({ let s = t.max_size(); (s.bit_count, s.cell_count) }, tsize(&t), "max-size", "{t:?}");
    ckeq!((t.max_bits() as u64, t.max_refs() as u64), tsize(&t), "max-size", "{t:?}");
    let one = AbiValue::tuple_to_cell(std::slice::from_ref(v), ver).ok();
    ckeq!(v.make_cell(ver).ok(), one, "make-cell", "{ver} {v:?}");
    ckeq!(v.make_builder(ver).ok().and_then(|b| b.build().ok()), one, "make-builder", "{ver} {v:?}");
    let nv = v.clone().named("x");
    ckeq!(nv.make_cell(ver).ok(), one, "named/make-cell", "{ver} {v:?}");
    ckeq!(NamedAbiValue::tuple_to_cell(std::slice::from_ref(&nv), ver).ok(), one, "named/tuple", "{ver} {v:?}");
    ckeq!(AbiValue::tuple([nv.clone()]).make_cell(ver).ok(), one, "tuple-of-one", "{ver} {v:?}");
    let Some(one) = one else { return Ok(()) };
    let d = AbiValue::load(&t, ver, &mut one.as_slice().unwrap());
    ck!(d.as_ref().is_ok_and(|x| x == v), "load", "{ver} {v:?} -> {d:?}");
    let nt = t.clone().named("x");
    let d = NamedAbiValue::load(&nt, ver, &mut one.as_slice().unwrap());
    ck!(d.as_ref().is_ok_and(|x| *x == nv), "named/load", "{ver} {v:?} -> {d:?}");
    let d = NamedAbiValue::load_tuple(&[nt.clone()], ver, &mut one.as_slice().unwrap());
    ck!(d.as_ref().is_ok_and(|x| x[..] == [nv.clone()]), "named/load-tuple", "{ver} {v:?} -> {d:?}");
    let part = load_part(&t, ver, &one)?;
    ck!(part == Some((v.clone(), 0, 0)), "load-partial/exact", "{ver} {v:?} -> {part:?}");
    ck!(NamedAbiValue::have_types(&[nv.clone()], &[nt.clone()]) && !NamedAbiValue::have_types(&[nv.clone()], &[]) && !NamedAbiValue::have_types(&[nv.clone()], &[AbiType::Uint(77).named("x")]) && NamedAbiValue::have_types(&[], &[]), "have-types", "{v:?}");
    ck!(NamedAbiValue::check_types(&[nv.clone()], &[nt.clone()]).is_ok() && NamedAbiValue::check_types(&[nv.clone()], &[nt.clone(), nt.clone()]).is_err() && NamedAbiValue::check_types(&[nv.clone()], &[]).is_err(), "check-types", "{v:?}");
    ckeq!(v.display_type().to_string(), t.to_string(), "display-type", "{v:?}");
    for i in [0usize, 7, 123] { let (a, b) = (NamedAbiValue::from_index(i, v.clone()), NamedAbiType::from_index(i, t.clone())); ck!(*a.name == *format!("value{i}") && *b.name == *a.name && a.value == *v && b.ty == t, "from-index", "{i} {v:?}") }
    // leftovers are refused unless asked for
    let mut b = one.as_slice().unwrap();
    let mut bits = slice_bits(&b);
    let refs: Vec<Cell> = (0..b.size_refs()).map(|i| b.get_reference_cloned(i).unwrap()).collect();
    bits.push(1);
    if bits.len() <= 1023 && tsize(&t).0 > 0 && refs.is_empty() {
        let c = build_cell(&bits, &refs.iter().collect::<Vec<_>>()).unwrap();
        ck!(AbiValue::load(&t, ver, &mut c.as_slice().unwrap()).is_err(), "leftover-bit", "{ver} {v:?}");
        let mut s = c.as_slice().unwrap();
        let d = AbiValue::load_partial(&t, ver, &mut s);
        ck!(d.as_ref().is_ok_and(|x| x == v) && s.size_bits() == 1, "load-partial", "{ver} {v:?} -> {d:?} left {}", s.size_bits());
        let part = load_part(&t, ver, &c)?;
        ck!(part == Some((v.clone(), 1, 0)), "load-partial/left", "{ver} {v:?} -> {part:?}");
        let c = build_cell(&bits[..bits.len() - 1], &[&cell_of(&[])]).unwrap();
        ck!(AbiValue::load(&t, ver, &mut c.as_slice().unwrap()).is_err(), "leftover-ref", "{ver} {v:?}");
        if bits.len() > 1 {
            let c = cell_of(&bits[..bits.len() - 2]);
            ck!(load(std::slice::from_ref(&t), ver, &c)?.is_none(), "truncated", "{ver} {v:?}");
        }
    }
    let _ = b.load_remaining();
    // default value of the type
    let dv = np("panic/default", || format!("{t:?}"), || t.make_default_value())?;
    ck!(dv.has_type(&t) && dv.get_type() == t, "default/type", "{t:?} {dv:?}");
    let c = np("panic/default", || format!("{dv:?}"), || dv.make_cell(ver))?;
    let back = c.as_ref().ok().and_then(|c| AbiValue::load(&t, ver, &mut c.as_slice().unwrap()).ok());
    ck!(back.as_ref() == Some(&dv), "default/trip", "{ver} {t:?} {dv:?} -> {back:?}");
    Ok(())
}

struct Ty { t: AbiType, vs: Vec<AbiValue>, level: usize }
fn types(levels: usize) -> Vec<Ty> {
    let mut out: Vec<Ty> = leaves().into_iter().map(|(t, vs)| Ty { t, vs, level: 0 }).collect();
    let mut from = 0;
    for level in 1..=levels {
        let n = out.len();
        for i in from..n {
            let (t, vs) = (out[i].t.clone(), out[i].vs.clone());
            // at depth the element values are the boundary ones of the element type
            for (t, vs) in containers(&t, &vs) { out.push(Ty { t, vs, level }) }
            if level == 1 {
                let others = [AbiValue::Bool(true), AbiValue::Cell(cell_of(&[1])), AbiValue::uint(256, 5u8)];
                for v in [&vs[0], &vs[vs.len() - 1]] { for (t, v) in tuples(&t, v, &others) { out.push(Ty { t, vs: vec![v], level }) } }
            }
        }
        from = n;
    }
    out
}

/// values with boundary sizes, for neighbour interaction
fn alphabet(q: bool) -> Vec<AbiValue> {
    use AbiValue as A;
    let c = |k: u128| A::Cell(cell_of(&uint(k, 9)));
    let opt = |t: AbiType, v: Option<A>| A::Optional(Arc::new(t), v.map(Box::new));
    let t3 = A::unnamed_tuple([c(1), A::Bool(true), c(2), c(3)]);
    let t4 = A::unnamed_tuple([c(1), c(2), c(3), c(4)]);
    let big = A::unnamed_tuple([A::uint(1000, 3u8), A::uint(30, 1u8), c(7)]);
    let map = |n: u8| A::Map(PlainAbiType::Uint(8), Arc::new(AbiType::Bool), (0..n).map(|i| (PlainAbiValue::Uint(8, BigUint::from(i)), A::Bool(i % 2 == 0))).collect());
    let mut v = vec![
        A::Bool(true), A::uint(256, 77u8), A::uint(767, 5u8), A::uint(1023, 9u8), c(5), A::Bytes(tycho_bytes(vec![7; 130])), A::Ref(Box::new(big.clone())),
        A::Address(Box::new(std_addr(3))), A::VarUint(nz(32), BigUint::from(300u32)), A::VarInt(nz(32), BigInt::from(-300)), A::VarInt(nz(16), BigInt::from(200)), A::Token(Tokens::new(1000)),
        map(0), map(3), A::Array(Arc::new(AbiType::Uint(256)), vec![]), A::Array(Arc::new(AbiType::Uint(256)), vec![A::uint(256, 1u8), A::uint(256, 2u8)]),
        opt(AbiType::Cell, None), opt(AbiType::Cell, Some(c(6))), opt(t3.get_type(), None), opt(t3.get_type(), Some(t3.clone())), opt(t4.get_type(), None), opt(t4.get_type(), Some(t4.clone())), opt(AbiType::Uint(1022), Some(A::uint(1022, 1u8))),
        A::unnamed_tuple([A::Bool(false), c(8), A::uint(100, 1u8)]), t4,
    ];
    if !q { v.extend([A::Address(Box::new(var_addr(511, Some(30)))), opt(map(0).get_type(), Some(map(0))), A::uint(1, 0u8), A::FixedArray(Arc::new(AbiType::Cell), vec![c(1)]), opt(big.get_type(), Some(big.clone())), A::uint(1022, 3u8)]) }
    v
}

fn rust_traits(l: &mut L) -> R {
    fn go<T: WithAbiType + IntoAbi + FromAbi + Clone + PartialEq + std::fmt::Debug>(vs: &[T], l: &mut L) -> R {
        let t = T::abi_type();
        for v in vs {
            let a = v.as_abi();
            l.ev();
            ck!(a.has_type(&t), "rust/type", "{v:?} {a:?} {t:?}");
            ckeq!(a.get_type(), t, "rust/get-type", "{v:?}");
            ckeq!(v.clone().into_abi(), a, "rust/into", "{v:?}");
            let b = T::from_abi(a.clone());
            ck!(b.as_ref().is_ok_and(|x| x == v), "rust/trip", "{v:?} {a:?} -> {b:?}");
            for ver in VERSIONS {
                let Some(c) = trip(std::slice::from_ref(&a), ver, l)? else { bad!("rust/encode", "{ver} {v:?}") };
                let b = AbiValue::load(&t, ver, &mut c.as_slice().unwrap()).and_then(T::from_abi);
                ck!(b.as_ref().is_ok_and(|x| x == v), "rust/cell-trip", "{ver} {v:?} -> {b:?}");
            }
            // another type's value is refused
            for o in [AbiValue::uint(9, 1u8), AbiValue::int(9, 1), AbiValue::unnamed_tuple([AbiValue::uint(9, 1u8)]), AbiValue::Array(Arc::new(AbiType::Int(9)), vec![AbiValue::int(9, 1)]), AbiValue::varuint(5, 1u8)] {
                ck!(T::from_abi(o.clone()).is_err(), "rust/foreign", "{t:?} from {o:?}");
            }
        }
        Ok(())
    }
    macro_rules! g { ($t:ty: $($v:expr),+ $(,)?) => { go::<$t>(&[$($v),+], l)?; go::<Vec<$t>>(&[vec![], vec![$($v),+]], l)?; go::<Option<$t>>(&[None, $(Some($v)),+], l)?; go::<($t, bool)>(&[$(($v, true)),+], l)?; go::<BTreeMap<u8, $t>>(&[BTreeMap::new(), [$($v),+].into_iter().enumerate().map(|(i, v)| ((i as u8).wrapping_mul(100), v)).collect()], l)?; } }
    macro_rules! ints { ($($t:ty),*) => { $(g!($t: 0 as $t, 1 as $t, <$t>::MIN, <$t>::MAX);)* } }
    ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
    g!(bool: true, false);
    g!(HashBytes: HashBytes::ZERO, HashBytes([0xff; 32]), HashBytes(std::array::from_fn(|i| i as u8)));
    g!(Tokens: Tokens::ZERO, Tokens::ONE, Tokens::new((1 << 120) - 1));
    g!(VarUint24: VarUint24::ZERO, VarUint24::MAX, VarUint24::new(255));
    g!(VarUint56: VarUint56::ZERO, VarUint56::MAX, VarUint56::new(1 << 40));
    g!(String: String::new(), "a".into(), utf(300));
    g!(Cell: Cell::default(), cell_of(&pattern(1, 77)));
    g!(bytes::Bytes: tycho_bytes(vec![]), tycho_bytes(vec![1; 254]));
    let (IntAddr::Std(a), IntAddr::Var(b)) = (std_addr(4), var_addr(300, None)) else { unreachable!() };
    g!(StdAddr: a.clone());
    g!(VarAddr: b.clone());
    g!(IntAddr: std_addr(4), var_addr(7, Some(3)), any_addr(4));
    g!((u8, i16): (1, -1));
    g!((bool, u8, i16, u32, i64, u128, HashBytes): (true, 1, -1, 7, -9, u128::MAX, HashBytes([5; 32])));
    g!(Option<Vec<u16>>: None, Some(vec![]), Some(vec![1, 2]));
    go::<HashMap<u16, bool>>(&[HashMap::new(), [(1u16, true), (0x8000, false)].into()], l)?;
    go::<BTreeMap<HashBytes, u8>>(&[[(HashBytes::ZERO, 1), (HashBytes([0xff; 32]), 2)].into()], l)?;
    go::<BTreeMap<i8, u8>>(&[[(-1, 1), (0, 2), (-128, 4), (127, 3)].into()], l)?;
    go::<BTreeMap<bool, u8>>(&[[(false, 1), (true, 2)].into()], l)?;
    go::<BTreeMap<StdAddr, u8>>(&[[(a, 1)].into()], l)?;
    Ok(())
}

fn run(r: &Run) {
    // every type in every surrounding
    let tys = types(if r.quick() { 2 } else { 2 });
    let pads = [0u16, 1, 500, 1022, 1023];
    let work: Vec<(usize, usize)> = tys.iter().enumerate().flat_map(|(i, t)| (0..t.vs.len()).map(move |j| (i, j))).collect();
    r.section("values", work.len() as u64 * VERSIONS.len() as u64, |i, l| {
        let mut ix = Ix(i);
        let ver = VERSIONS[ix.take(VERSIONS.len() as u64) as usize];
        let (ti, vi) = work[ix.take(work.len() as u64) as usize];
        let (ty, v) = (&tys[ti], &tys[ti].vs[vi]);
        l.sample(|| format!("{ver} {}", ty.t));
        if v.get_type() != ty.t { bad!("get-type", "{v:?} {:?}", ty.t) }
        single(v, ver, l)?;
        let deep = ty.level == 2 && r.quick();
        let sufs: Vec<Option<AbiValue>> = vec![None, Some(AbiValue::Bool(true)), Some(AbiValue::Cell(cell_of(&[0]))), Some(AbiValue::uint(256, 1u8))];
        for k in 0..=4usize { for p in pads { for s in &sufs {
            if deep && !((k == 0 && p == 0) || (k == 3 && p == 500)) { continue }
            l.st(1);
            let mut vs: Vec<AbiValue> = (0..k).map(|j| AbiValue::Cell(cell_of(&uint(j as u128, 4)))).collect();
            if p > 0 { vs.push(AbiValue::Uint(p, two(p as usize - 1))) }
            vs.push(v.clone());
            vs.extend(s.clone());
            trip(&vs, ver, l)?;
        } } }
        Ok(())
    });

    // every tuple over values of boundary sizes
    let al = alphabet(r.quick());
    let n = al.len() as u64;
    let len = r.pick(3, 4);
    let vers: Vec<AbiVersion> = if r.quick() { vec![AbiVersion::new(1, 0), AbiVersion::new(2, 1), AbiVersion::new(2, 3)] } else { VERSIONS.to_vec() };
    let pre: Vec<(usize, u16)> = (0..=4).flat_map(|k| [0u16, 3, 400, 767].into_iter().map(move |p| (k, p))).collect();
    r.section("tuples", n.pow(2) * vers.len() as u64 * pre.len() as u64, |i, l| {
        let mut ix = Ix(i);
        let ver = vers[ix.take(vers.len() as u64) as usize];
        let (k, p) = pre[ix.take(pre.len() as u64) as usize];
        let (a, b) = (ix.take(n) as usize, ix.take(n) as usize);
        let mut vs: Vec<AbiValue> = (0..k).map(|j| AbiValue::Cell(cell_of(&uint(j as u128, 4)))).collect();
        if p > 0 { vs.push(AbiValue::Uint(p, two(p as usize) - 1u8)) }
        vs.push(al[a].clone());
        vs.push(al[b].clone());
        l.sample(|| format!("{ver} {k} cells {p} bits then {a} {b}"));
        let mut go = |vs: &Vec<AbiValue>, l: &mut L| -> R { l.st(1); if trip(vs, ver, l)?.is_none() { bad!("encode/refused", "{ver} {}", sh(vs)) } Ok(()) };
        go(&vs, l)?;
        for c in &al {
            vs.push(c.clone());
            go(&vs, l)?;
            if len == 4 { for d in &al { vs.push(d.clone()); go(&vs, l)?; vs.pop(); } }
            vs.pop();
        }
        Ok(())
    });

    // tuples filling several cells inside of another value: the inner cells are packed on their own
    let atoms = [AbiValue::Bool(true), AbiValue::Cell(cell_of(&uint(5, 9))), AbiValue::Optional(Arc::new(AbiType::Cell), Some(Box::new(AbiValue::Cell(cell_of(&uint(6, 9)))))), AbiValue::uint(600, 3u8)];
    let na = atoms.len() as u64;
    let lens = r.pick(6, 7);
    r.section("inner-tuples", na.pow(3) * VERSIONS.len() as u64, |i, l| {
        let mut ix = Ix(i);
        let ver = VERSIONS[ix.take(VERSIONS.len() as u64) as usize];
        let mut items: Vec<AbiValue> = (0..3).map(|_| atoms[ix.take(na) as usize].clone()).collect();
        let base = items.len();
        let mut code = vec![0usize; 0];
        loop {
            items.truncate(base);
            items.extend(code.iter().map(|c| atoms[*c].clone()));
            let t = AbiValue::unnamed_tuple(items.clone());
            let ty = arc(&t.get_type());
            let last = AbiValue::unnamed_tuple([t.clone(), AbiValue::Bool(true)]);
            for v in [
                AbiValue::Ref(Box::new(t.clone())),
                AbiValue::Optional(ty.clone(), Some(Box::new(t.clone()))),
                AbiValue::Array(ty.clone(), vec![t.clone(), t.clone()]),
                AbiValue::Map(PlainAbiType::Uint(8), ty, [(PlainAbiValue::Uint(8, BigUint::from(3u8)), t.clone())].into()),
                AbiValue::Ref(Box::new(last.clone())),
                last,
            ] {
                l.st(1);
                // an element filling a cell and more does not fit where a dictionary needs it
                trip(&[v.clone()], ver, l)?;
                trip(&[AbiValue::Bool(true), v, AbiValue::Cell(cell_of(&[0]))], ver, l)?;
            }
            // the next longer or the next tuple
            if base + code.len() < lens { code.push(0); continue }
            while let Some(c) = code.pop() { if c + 1 < atoms.len() { code.push(c + 1); break } }
            if code.is_empty() { return Ok(()) }
        }
    });

    r.section("values-not-of-the-type", VERSIONS.len() as u64, |i, l| {
        let ver = VERSIONS[i as usize];
        use AbiValue as A;
        let mut bad_vals: Vec<A> = vec![];
        for n in [1u16, 7, 8, 63, 64, 65, 127, 128, 255, 256, 1022] {
            let h = BigInt::from(two(n as usize - 1));
            bad_vals.extend([A::Uint(n, two(n as usize)), A::Uint(n, two(n as usize) + 1u8), A::Int(n, h.clone()), A::Int(n, -h.clone() - 1), A::Int(n, BigInt::from(two(n as usize))), A::Uint(n, two(n as usize + 64))]);
        }
        for n in [2u8, 3, 16, 32, 33, 128, 255] {
            let m = (n as usize - 1) * 8;
            bad_vals.extend([A::VarUint(nz(n), two(m)), A::VarInt(nz(n), BigInt::from(two(m - 1))), A::VarInt(nz(n), -BigInt::from(two(m - 1)) - 1), A::VarInt(nz(n), BigInt::from(two(m)) - 1), A::VarInt(nz(n), -BigInt::from(two(m)))]);
        }
        bad_vals.push(A::Token(Tokens::new(1 << 120)));
        for a in [var_addr(256, None), var_addr(0, None), any_addr(3), any_addr(30), var_addr(219, Some(1))] {
            bad_vals.push(A::Map(PlainAbiType::Address, Arc::new(AbiType::Bool), [(PlainAbiValue::Address(Box::new(a)), A::Bool(true))].into()));
        }
        bad_vals.push(A::Map(PlainAbiType::Uint(8), Arc::new(AbiType::Bool), [(PlainAbiValue::Uint(8, BigUint::from(256u16)), A::Bool(true))].into()));
        for v in &bad_vals {
            for w in [v.clone(), A::Optional(arc(&v.get_type()), Some(Box::new(v.clone()))), A::Array(arc(&v.get_type()), vec![v.clone()]), A::Ref(Box::new(v.clone())), A::unnamed_tuple([A::Bool(true), v.clone()])] {
                l.ev(); l.nt(); l.st(1);
                let g = np("panic/bad-value", || format!("{ver} {w:?}"), || w.make_cell(ver))?;
                ck!(g.is_err(), "bad-value", "{ver} {w:?} -> {}", g.unwrap().display_tree());
            }
        }
        // containers whose items are not of the declared type
        let (b, u8_) = (A::Bool(true), A::uint(8, 1u8));
        let tb = Arc::new(AbiType::Bool);
        let k8 = |n: u16| PlainAbiValue::Uint(n, BigUint::from(1u8));
        for v in [
            A::Array(tb.clone(), vec![u8_.clone()]), A::Array(tb.clone(), vec![b.clone(), u8_.clone()]), A::FixedArray(tb.clone(), vec![u8_.clone()]), A::Optional(tb.clone(), Some(Box::new(u8_.clone()))),
            A::Map(PlainAbiType::Uint(8), tb.clone(), [(k8(8), u8_.clone())].into()), A::Map(PlainAbiType::Uint(8), tb.clone(), [(k8(16), b.clone())].into()),
            A::Ref(Box::new(A::Array(tb.clone(), vec![u8_.clone()]))), A::unnamed_tuple([A::Array(tb.clone(), vec![u8_.clone()])]),
        ] {
            l.ev(); l.nt(); l.st(1);
            ck!(!v.has_type(&v.get_type()), "has-type/items", "{v:?}");
        }
        Ok(())
    });
    // has_type is exactly equality of types (names aside)
    let small: Vec<(AbiType, AbiValue)> = tys.iter().filter(|t| t.level < 2).step_by(if r.quick() { 7 } else { 2 }).map(|t| (t.t.clone(), t.vs[t.vs.len() - 1].clone())).collect();
    r.section("has-type", small.len() as u64, |i, l| {
        let (t, v) = &small[i as usize];
        for (t2, _) in &small {
            l.ev();
            ckeq!(v.has_type(t2), t == t2, "has-type", "{v:?} {t2:?}");
            let n = v.clone().named("a");
            ckeq!(n.check_type(t2).is_ok(), t == t2, "check-type", "{v:?} {t2:?}");
            let (ns, ts) = ([n.clone(), AbiValue::Bool(true).named("b")], [t2.clone().named("c"), AbiType::Bool.named("d")]);
            ckeq!(NamedAbiValue::check_types(&ns, &ts).is_ok(), t == t2, "check-types", "{v:?} {t2:?}");
            ck!(NamedAbiValue::check_types(&ns[..1], &ts).is_err() && NamedAbiValue::check_types(&ns, &ts[..1]).is_err(), "check-types/len", "{v:?}");
        }
        Ok(())
    });

    r.section("malformed", VERSIONS.len() as u64, |i, l| {
        let ver = VERSIONS[i as usize];
        let u8v = |x: usize| Val::new(uint(x as u128, 8));
        let mk = |head: B, d: Option<Cell>| { let mut b = head; b.push(d.is_some() as u8); build_cell(&b, &d.iter().collect::<Vec<_>>()).unwrap() };
        // arrays: announced length x key set over 0..5
        for set in 0..32u32 { for len in [0u32, 1, 2, 3, 4, 5, 6, 31, u32::MAX] {
            l.ev(); l.nt(); l.st(1);
            let ks: Vec<usize> = (0..5).filter(|k| set >> k & 1 == 1).collect();
            let d = canon(&ks.iter().map(|k| (uint(*k as u128, 32), u8v(*k))).collect::<Vec<_>>(), 32).unwrap();
            let whole = (0..len as usize).take(8).all(|k| ks.contains(&k));
            for fixed in [false, true] {
                let t = if fixed { AbiType::fixedarray(AbiType::Uint(8), len as usize) } else { AbiType::array(AbiType::Uint(8)) };
                if fixed && len > 31 { continue }
                let c = mk(if fixed { vec![] } else { uint(len as u128, 32) }, d.clone());
                let got = load(std::slice::from_ref(&t), ver, &c)?;
                if whole && ks.len() == len as usize {
                    let items: Vec<AbiValue> = ks.iter().map(|k| AbiValue::uint(8, *k)).collect();
                    ckeq!(got, Some(vec![if fixed { AbiValue::FixedArray(Arc::new(AbiType::Uint(8)), items) } else { AbiValue::Array(Arc::new(AbiType::Uint(8)), items) }]), "array/good", "{ver} {len} {ks:?}");
                } else if !whole {
                    ck!(got.is_none(), "array/missing-items", "{ver} fixed {fixed} length {len} keys {ks:?} -> {got:?}");
                }
            }
        } }
        // items and map values of other sizes
        for n in 0..20usize {
            l.ev(); l.nt(); l.st(1);
            for extra_ref in [false, true] {
                let mut v = Val::new(pattern(1, n));
                if extra_ref { v.refs.push(cell_of(&[])) }
                let good = n == 8 && !extra_ref;
                for (t, kb, head) in [(AbiType::array(AbiType::Uint(8)), 32, uint(1, 32)), (AbiType::fixedarray(AbiType::Uint(8), 1), 32, vec![]), (AbiType::map(PlainAbiType::Uint(16), AbiType::Uint(8)), 16, vec![]), (AbiType::map(PlainAbiType::Uint(16), AbiType::optional(AbiType::Uint(8))), 16, vec![])] {
                    let opt = matches!(&t, AbiType::Map(_, v) if matches!(**v, AbiType::Optional(_)));
                    let c = mk(head, canon(&[(uint(0, kb), v.clone())], kb).unwrap());
                    let got = load_each(&t, ver, &c)?;
                    // a value moved to a referenced cell is allowed, leftovers are not
                    let want = if opt { !extra_ref && (n == 9 && v.bits[0] == 1 || n == 1 && v.bits[0] == 0) } else { good };
                    let part = load_part(&t, ver, &c)?;
                    if n == 0 && extra_ref { continue }
                    let want_part = if opt { n >= 1 && v.bits[0] == 0 || n >= 9 } else { n >= 8 };
                    ckeq!(part.is_some(), want_part, "item-size/partial", "{ver} {t} value {} -> {part:?}", v.show());
                    if let (Some(g), Some(p)) = (&got, &part) { ckeq!(p.0, *g, "item-size/partial", "{ver} {t}") }
                    ckeq!(got.is_some(), want, "item-size", "{ver} {t} value {} -> {got:?}", v.show());
                }
            }
        }
        // a referenced value followed by something else in its cell
        for n in 0..20usize { for extra_ref in [false, true] { for t in [AbiType::reference(AbiType::Uint(8)), AbiType::optional(AbiType::unnamed_tuple([AbiType::Uint(8), AbiType::Uint(1020)]))] {
            l.ev(); l.nt(); l.st(1);
            let refs: Vec<Cell> = extra_ref.then(|| cell_of(&[])).into_iter().collect();
            let opt = matches!(t, AbiType::Optional(..));
            let k = if opt { n + 1010 } else { n };
            if k > 1023 { continue }
            let inner = build_cell(&pattern(1, k), &refs.iter().collect::<Vec<_>>()).unwrap();
            let c = build_cell(if opt { &[1] } else { &[] }, &[&inner]).unwrap();
            let got = load_each(&t, ver, &c)?;
            let part = load_part(&t, ver, &c)?;
            ckeq!(part.is_some(), !opt && n >= 8, "inner-size/partial", "{ver} {t} {k} bits ref {extra_ref} -> {part:?}");
            if opt { ck!(got.is_none(), "inner-size", "{ver} {t} {k} bits -> {got:?}") } else { ckeq!(got.is_some(), n == 8 && !extra_ref, "inner-size", "{ver} {t} {k} bits ref {extra_ref} -> {got:?}") }
        } } }
        // bytes of broken cells
        let pr = tycho_types::merkle::make_pruned_branch(cell_of(&pattern(1, 80)).as_ref(), 0, Cell::empty_context()).unwrap();
        for t in [AbiType::Bytes, AbiType::String, AbiType::FixedBytes(2)] {
            for n in 0..=32usize {
                l.ev(); l.nt(); l.st(1);
                let b: B = (0..n).map(|i| [0, 1, 1, 0, 0, 0, 0, 1][i % 8]).collect();
                for tail in [None, Some(cell_of(&uint(0x61, 8))), Some(cell_of(&uint(1, 7))), Some(pr.clone())] {
                    let tb = tail.as_ref().map_or(0, |c| if *c == pr { 7 } else { c.bit_len() as usize });
                    let c = build_cell(&[], &[&build_cell(&b, &tail.iter().collect::<Vec<_>>()).unwrap()]).unwrap();
                    let got = load_each(&t, ver, &c)?;
                    let ok = n % 8 == 0 && tb % 8 == 0 && (!matches!(t, AbiType::FixedBytes(_)) || n / 8 + tb / 8 == 2);
                    ckeq!(got.is_some(), ok, "bytes/broken", "{ver} {t} {n}+{tb} bits -> {got:?}");
                }
            }
            let c = build_cell(&[], &[&pr]).unwrap();
            let got = load(std::slice::from_ref(&t), ver, &c)?;
            ck!(got.is_none(), "bytes/pruned", "{ver} {t} -> {got:?}");
        }
        for s in [&[0xffu8][..], &[0xc3], &[0xe2, 0x82], &[0x61, 0x80], &[0xf8, 0x88, 0x80, 0x80]] {
            let c = build_cell(&[], &[&cell_of(&from_bytes(s, s.len() * 8))]).unwrap();
            l.ev(); l.nt();
            ck!(load(&[AbiType::String], ver, &c)?.is_none(), "string/utf8", "{ver} {s:x?}");
        }
        // signed variable-length integers: every 0..2 byte content
        for n in 0..=2usize { for x in 0..(1u32 << (8 * n)) {
            if n == 2 && r.quick() && x % 13 != 0 { continue }
            l.ev();
            let mut b = uint(n as u128, 2);
            b.extend(uint(x as u128, 8 * n));
            let v = if n > 0 && x >> (8 * n - 1) == 1 { x as i64 - (1 << (8 * n)) } else { x as i64 };
            ckeq!(load(&[AbiType::varint(3)], ver, &cell_of(&b))?, Some(vec![AbiValue::varint(3, v)]), "varint/read", "{ver} {n} {x:x}");
            ckeq!(load(&[AbiType::varuint(3)], ver, &cell_of(&b))?, Some(vec![AbiValue::varuint(3, x)]), "varuint/read", "{ver} {n} {x:x}");
        } }
        // three length bytes do not exist in a two-byte integer
        for t in [AbiType::varint(3), AbiType::varuint(3)] {
            l.ev(); l.nt();
            let c = cell_of(&[vec![1, 1], pattern(5, 24)].concat());
            ck!(load(std::slice::from_ref(&t), ver, &c)?.is_none(), "varint/too-long", "{ver} {t}");
        }
        Ok(())
    });

    // every small signed and unsigned integer
    r.section("integers", VERSIONS.len() as u64 * 20, |i, l| {
        let (ver, n) = (VERSIONS[i as usize % VERSIONS.len()], (i as usize / VERSIONS.len()) as u16 + 1);
        let lim = r.pick(9, 13);
        if n <= lim { for x in 0..(1u64 << n) {
            l.st(1);
            trip(&[AbiValue::Uint(n, BigUint::from(x))], ver, l)?;
            trip(&[AbiValue::Int(n, BigInt::from(x) - (1 << (n - 1)))], ver, l)?;
        } }
        // variable-length integers around every power of two
        let vn = [2u8, 3, 4, 16, 17, 32, 255][n as usize % 7];
        for k in 0..=(vn as usize - 1) * 8 { for d in -2i32..=2 {
            let x = BigInt::from(two(k)) + d;
            l.st(1);
            for y in [x.clone(), -x.clone()] { trip(&[AbiValue::VarInt(nz(vn), y)], ver, l)?; }
            if x >= BigInt::from(0) { trip(&[AbiValue::VarUint(nz(vn), x.magnitude().clone()), AbiValue::Bool(true)], ver, l)?; }
        } }
        Ok(())
    });
    r.section("rust-types", 1, |_, l| rust_traits(l));
}
