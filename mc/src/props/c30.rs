//! C30: texts and serde forms of hashes, bit strings, cells, dictionaries and integers.
use super::daglib::*;
use crate::fw::*;
use crate::model::{bits::*, cells::*, dict::*};
use crate::{bad, ck, ckeq};
use base64::Engine;
use base64::engine::general_purpose::STANDARD;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::str::FromStr;
use tycho_types::boc::{Boc, BocRepr, SerdeBoc};
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::models::*;
use tycho_types::num::*;
use tycho_types::util::Bitstring;

pub const META: Meta = Meta {
    id: "C30",
    level: "model_checking",
    rule: "a state is a value (every bit string to 16 bits and pattern of every length to 1023, hashes, small graphs of cells in every container, dictionaries over every subset of a key pool, integers) or a text (every string to length 4 over an adversarial alphabet, every single-character change of valid texts, every length), a transition writes it in one notation (hex, binary digits, base64, JSON, two binary serde formats) or reads it back, compared with an own printer and an own reader of the notation; non-trivial: a text that differs from a valid one, or a value with more than one notation",
    assumptions: &["JSON objects with the same key twice are not judged", "text notations of addresses, shards, block ids and integer ranges are judged by C20, C23 and C24"],
    run,
};

// === independent notation ===
fn hexs(b: &[u8], upper: bool) -> String {
    let d: Vec<char> = if upper { "0123456789ABCDEF" } else { "0123456789abcdef" }.chars().collect();
    let mut v = b.to_vec();
    let tag = v.len() % 4 != 0;
    if tag { v.push(1); while v.len() % 4 != 0 { v.push(0) } }
    let mut s: String = v.chunks(4).map(|c| d[c.iter().fold(0usize, |a, x| a * 2 + *x as usize)]).collect();
    if tag { s.push('_') }
    s
}
fn unhex(s: &str) -> Option<B> {
    let (d, tag) = match s.strip_suffix('_') { Some(d) => (d, true), None => (s, false) };
    let mut v = vec![];
    for c in d.chars() { v.extend(uint(c.is_ascii().then(|| c.to_digit(16)).flatten()? as u128, 4)) }
    if v.len() > 1024 { return None }
    if tag { while v.pop() == Some(0) {} }
    Some(v)
}
fn read_text(s: &str, l: &mut L) -> R {
    l.ev();
    let got = np("panic", || format!("{s:?}"), || Bitstring::from_hex_str(s))?.ok();
    if let Some((d, n)) = &got {
        ck!(d.len() == (*n as usize).div_ceil(8), "bits/read-len", "{s:?} {} bytes for {n} bits", d.len());
        ck!(*n % 8 == 0 || d.last().unwrap() & (0xff >> (n % 8)) == 0, "bits/read-dirty", "{s:?} {d:?} {n}");
    }
    let want = unhex(s);
    if want.is_some() != got.is_some() { l.nt() }
    ckeq!(got.map(|(d, n)| from_bytes(&d, n as usize)), want, "bits/read", "{s:?}");
    Ok(())
}
fn bits_case(b: &B, l: &mut L) -> R {
    let (lo, up, bi) = (hexs(b, false), hexs(b, true), show(b));
    let n = b.len() as u16;
    let ctx = || format!("{n} bits {}", show(&b[..b.len().min(64)]));
    l.ev();
    l.tr(6);
    if n % 8 != 0 { l.nt() }
    let clean = pack(b);
    let mut dirty = clean.clone();
    if n % 8 != 0 { *dirty.last_mut().unwrap() |= 0xff >> (n % 8) }
    dirty.extend([0xa5, 0x80]);
    for bytes in [&clean, &pack_tagged(b), &dirty] {
        let x = Bitstring { bytes, bit_len: n };
        ckeq!(x.to_string(), lo.clone(), "bits/display", "{}", ctx());
        ckeq!(format!("{x:x}"), lo.clone(), "bits/lower", "{}", ctx());
        ckeq!(format!("{x:X}"), up.clone(), "bits/upper", "{}", ctx());
        ckeq!(format!("{x:b}"), bi.clone(), "bits/binary", "{}", ctx());
    }
    // a length longer than the bytes is cut
    if n % 8 == 0 { ckeq!(Bitstring { bytes: &clean, bit_len: n + 5 }.to_string(), lo.clone(), "bits/cut", "{}", ctx()) }
    for t in [&lo, &up] {
        let got = Bitstring::from_hex_str(t).ok();
        ckeq!(got, Some((clean.clone(), n)), "bits/read-back", "{t} {}", ctx());
    }
    let bu = builder_of(b);
    ckeq!((bu.display_data().to_string(), format!("{:x}", bu.display_data()), format!("{:X}", bu.display_data()), format!("{:b}", bu.display_data())), (lo.clone(), lo.clone(), up.clone(), bi.clone()), "bits/builder", "{}", ctx());
    ckeq!(format!("{:X}", bu.as_bitstring()), up.clone(), "bits/builder", "{}", ctx());
    let c = bu.build().unwrap();
    ckeq!((c.display_data().to_string(), format!("{:b}", c.display_data())), (lo.clone(), bi.clone()), "bits/cell", "{}", ctx());
    // every window of the cell for short strings, a few for long ones
    let cuts: Vec<u16> = if n <= 9 { (0..=n).collect() } else { vec![0, 3.min(n), n - n / 3, n] };
    for &a in &cuts { for &e in &cuts { if a <= e {
        let mut s = c.as_slice().unwrap();
        s.skip_first(a, 0).unwrap();
        s.skip_last(n - e, 0).unwrap();
        let w = &b[a as usize..e as usize];
        ckeq!((s.display_data().to_string(), format!("{:x}", s.display_data()), format!("{:X}", s.display_data()), format!("{:b}", s.display_data())), (hexs(w, false), hexs(w, false), hexs(w, true), show(w)), "bits/slice", "{}..{} of {}", a, e, ctx());
    }}}
    Ok(())
}

fn hash_model(s: &str) -> Option<H> {
    let hex = |s: &str| -> Option<H> { if s.chars().any(|c| !c.is_ascii_hexdigit()) || s.len() != 64 { return None } Some(std::array::from_fn(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())) };
    if let Some(t) = s.strip_prefix("0x") { return hex(t) }
    hex(s).or_else(|| if s.len() == 44 { STANDARD.decode(s).ok()?.try_into().ok() } else { None })
}
fn hash_text(s: &str, l: &mut L) -> R {
    l.ev();
    let want = hash_model(s);
    let got = np("hash/panic", || format!("{s:?}"), || HashBytes::from_str(s))?.ok().map(|h| h.0);
    ckeq!(got, want, "hash/read", "{s:?}");
    let j = serde_json::to_string(s).unwrap();
    let got = np("hash/panic", || j.clone(), || serde_json::from_str::<HashBytes>(&j))?.ok().map(|h| h.0);
    ckeq!(got, want.filter(|_| s.len() == 64), "hash/json", "{j}");
    Ok(())
}
/// every change of one character of `t`, and every truncation and extension
fn corrupt(t: &str, alphabet: &[&str], mut f: impl FnMut(&str) -> R) -> R {
    let cs: Vec<char> = t.chars().collect();
    for i in 0..=cs.len() {
        let pre: String = cs[..i].iter().collect();
        f(&pre)?;
        let (at, after): (String, String) = (cs[i..].iter().collect(), cs[(i + 1).min(cs.len())..].iter().collect());
        f(&format!("{pre}{after}"))?;
        for a in alphabet { f(&format!("{pre}{a}{after}"))?; f(&format!("{pre}{a}{at}"))? }
        // keep the byte length with a wider character
        for a in alphabet.iter().filter(|a| a.len() > 1 && i + a.len() <= cs.len()) { let rest: String = cs[i + a.len()..].iter().collect(); f(&format!("{pre}{a}{rest}"))? }
    }
    Ok(())
}

fn cbor<T: Serialize>(x: &T) -> Vec<u8> { let mut v = vec![]; ciborium::into_writer(x, &mut v).unwrap(); v }
fn uncbor<T: DeserializeOwned>(v: &[u8]) -> Option<T> { ciborium::from_reader(v).ok() }
fn forms<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: &T, ctx: &str, l: &mut L) -> R {
    l.ev();
    l.tr(4);
    let j = serde_json::to_string(x).map_err(|e| V { key: "serde/json-write".into(), detail: format!("{e} {ctx}") })?;
    let back = serde_json::from_str::<T>(&j).map_err(|e| V { key: "serde/json-read".into(), detail: format!("{e} {j} {ctx}") })?;
    ck!(&back == x, "serde/json", "{back:?} for {x:?} {j}");
    let val = serde_json::to_value(x).map_err(|e| V { key: "serde/json-write".into(), detail: format!("{e} {ctx}") })?;
    let back = serde_json::from_value::<T>(val).map_err(|e| V { key: "serde/json-value".into(), detail: format!("{e} {j} {ctx}") })?;
    ck!(&back == x, "serde/json-value", "{back:?} for {x:?} {j}");
    let b = bincode::serialize(x).map_err(|e| V { key: "serde/bincode-write".into(), detail: format!("{e} {ctx}") })?;
    let back = bincode::deserialize::<T>(&b).map_err(|e| V { key: "serde/bincode-read".into(), detail: format!("{e} {ctx}") })?;
    ck!(&back == x, "serde/bincode", "{back:?} for {x:?} {ctx}");
    let back = bincode::deserialize_from::<_, T>(&b[..]).map_err(|e| V { key: "serde/bincode-stream".into(), detail: format!("{e} {ctx}") })?;
    ck!(&back == x, "serde/bincode-stream", "{back:?} for {x:?} {ctx}");
    let b = cbor(x);
    match uncbor::<T>(&b) { Some(back) => ck!(&back == x, "serde/cbor", "{back:?} for {x:?} {ctx}"), None => bad!("serde/cbor-read", "{x:?} {ctx}") }
    // every truncation of the binary form is an error, never a panic
    let b = bincode::serialize(x).unwrap();
    for k in 0..b.len().min(48) { if np("serde/panic", || ctx.into(), || bincode::deserialize::<T>(&b[..k]).is_ok())? { bad!("serde/truncated", "{k} of {} bytes {ctx}", b.len()) } }
    Ok(())
}

#[derive(PartialEq, Debug)]
struct Wrap<T>(T);
impl<T> Serialize for Wrap<T> where for<'a> SerdeBoc<&'a T>: Serialize {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { Boc::serialize(&self.0, s) }
}
impl<'de, T> Deserialize<'de> for Wrap<T> where SerdeBoc<T>: Deserialize<'de> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Boc::deserialize(d).map(Wrap) }
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Conts {
    #[serde(with = "Boc")] cell: Cell,
    #[serde(with = "Boc")] none: Option<Cell>,
    #[serde(with = "Boc")] some: Option<Cell>,
    #[serde(with = "Boc")] boxed: Box<Cell>,
    #[serde(with = "Boc")] vec: Vec<Cell>,
    #[serde(with = "Boc")] vecs: Vec<Option<Box<Cell>>>,
    #[serde(with = "Boc")] arr0: [Cell; 1],
    #[serde(with = "Boc")] arr: [Cell; 3],
    #[serde(with = "Boc")] tree: BTreeMap<u32, Cell>,
    #[serde(with = "Boc")] hash: HashMap<HashBytes, Option<Cell>>,
    #[serde(with = "Boc")] nest: BTreeMap<String, Vec<Cell>>,
}

fn cell_forms(d: &Dag, l: &mut L) -> R {
    let n = d.real.len();
    let at = |i: usize| d.real[i % n].clone();
    for (i, c) in d.real.iter().enumerate() {
        let ctx = || format!("node {i} of {}", d.show());
        let boc = Boc::encode(c);
        let t = STANDARD.encode(&boc);
        l.ev();
        ckeq!((Boc::encode_base64(c), Boc::encode_hex(c)), (t.clone(), hx(&boc)), "cell/text", "{}", ctx());
        ckeq!(Boc::decode_base64(&t).ok().map(|c| *c.repr_hash()), Some(*c.repr_hash()), "cell/base64", "{}", ctx());
        ckeq!((Boc::decode_hex(hx(&boc)).ok(), Boc::decode_hex(hx(&boc).to_uppercase()).ok()), (Some(c.clone()), Some(c.clone())), "cell/hex", "{}", ctx());
        ckeq!(serde_json::to_string(c.as_ref()).unwrap(), format!("\"{t}\""), "cell/json", "{}", ctx());
        ckeq!(serde_json::to_string(&Wrap(c.clone())).unwrap(), format!("\"{t}\""), "cell/json", "{}", ctx());
        ckeq!(bincode::serialize(c.as_ref()).unwrap(), [&(boc.len() as u64).to_le_bytes()[..], &boc].concat(), "cell/bincode", "{}", ctx());
        forms(&Wrap(c.clone()), &ctx(), l)?;
        // shared pointers can be written
        for j in [serde_json::to_string(SerdeBoc::wrap(&std::sync::Arc::new(c.clone()))).unwrap(), serde_json::to_string(SerdeBoc::wrap(&std::rc::Rc::new(c.clone()))).unwrap(), serde_json::to_string(SerdeBoc::wrap(&&c)).unwrap(), serde_json::to_string(SerdeBoc::wrap(c.as_ref())).unwrap()] { ckeq!(j, format!("\"{t}\""), "cell/json-ptr", "{}", ctx()) }
        ckeq!(serde_json::to_string(SerdeBoc::wrap(&d.real[..])).unwrap(), serde_json::to_string(&d.real.iter().map(Boc::encode_base64).collect::<Vec<_>>()).unwrap(), "cell/json-slice", "{}", ctx());
    }
    l.nt();
    let x = Conts {
        cell: at(0), none: None, some: Some(at(1)), boxed: Box::new(at(2)), vec: d.real.clone(), vecs: vec![None, Some(Box::new(at(3))), None], arr0: [at(1)],
        arr: [at(0), at(1), at(2)], tree: (0..n as u32).map(|i| (i, at(i as usize))).collect(), hash: (0..n + 1).map(|i| (HashBytes([i as u8; 32]), (i > 0).then(|| at(i)))).collect(), nest: (0..3).map(|i| (format!("k{i}"), d.real[..i.min(n)].to_vec())).collect(),
    };
    forms(&x, &d.show(), l)?;
    let j = serde_json::to_value(&x).unwrap();
    ckeq!(j["nest"]["k1"].clone(), serde_json::json!([Boc::encode_base64(at(0))]), "cell/json-shape", "{}", d.show());
    ckeq!(j["none"].clone(), serde_json::Value::Null, "cell/json-shape", "{}", d.show());
    forms(&Wrap(Vec::<Cell>::new()), "empty vec", l)?;
    Ok(())
}

fn dict_case<K, Vv>(keys: &[K], vals: impl Fn(usize) -> Vv, mask: u64, l: &mut L) -> R
where
    K: Serialize + DeserializeOwned + std::hash::Hash + Eq + StoreDictKey + LoadDictKey + Clone + Debug,
    Vv: Serialize + DeserializeOwned + Store + Debug + PartialEq,
    for<'a> Vv: Load<'a>,
{
    let mut d = Dict::<K, Vv>::new();
    let mut want = serde_json::Map::new();
    for (i, k) in keys.iter().enumerate() { if mask >> i & 1 == 1 {
        d.set(k, vals(i)).unwrap();
        let ks = match serde_json::to_value(k).unwrap() { serde_json::Value::String(s) => s, v => v.to_string() };
        want.insert(ks, serde_json::to_value(vals(i)).unwrap());
    }}
    let ctx = format!("{} {mask:b}", std::any::type_name::<Dict<K, Vv>>());
    l.st(1);
    if mask != 0 { l.nt() }
    let j = serde_json::to_value(&d).map_err(|e| V { key: "dict/json-write".into(), detail: format!("{e} {ctx}") })?;
    ckeq!(j, serde_json::Value::Object(want), "dict/json-shape", "{ctx}");
    // the dictionary keeps its root cell through every form
    let hash = |d: &Dict<K, Vv>| d.root().as_ref().map(|c| *c.repr_hash());
    forms(&d, &ctx, l)?;
    let back: Dict<K, Vv> = serde_json::from_str(&serde_json::to_string(&d).unwrap()).unwrap();
    ckeq!(hash(&back), hash(&d), "dict/root", "{ctx}");
    let back: Dict<K, Vv> = bincode::deserialize(&bincode::serialize(&d).unwrap()).unwrap();
    ckeq!(hash(&back), hash(&d), "dict/root-bin", "{ctx}");
    let boc: Vec<u8> = bincode::deserialize(&bincode::serialize(&d).unwrap()).unwrap();
    ckeq!(boc, BocRepr::encode(&d).unwrap(), "dict/binary", "{ctx}");
    Ok(())
}
fn dict_bad<K, Vv>(js: &[&str], l: &mut L) -> R
where K: DeserializeOwned + std::hash::Hash + Eq + StoreDictKey, Vv: DeserializeOwned + Store {
    for j in js {
        l.ev();
        l.nt();
        if np("dict/panic", || j.to_string(), || serde_json::from_str::<Dict<K, Vv>>(j).is_ok())? { bad!("dict/json-bad", "{} {j}", std::any::type_name::<Dict<K, Vv>>()) }
    }
    Ok(())
}

macro_rules! ints {
    ($r:expr, $($t:ident, $inner:ty, $n:expr, $bits:expr);*) => {$(
        $r.section(concat!("int-", stringify!($t)), $n, |i, l| {
            let bits: u32 = $bits;
            // all values of narrow types, the neighbourhood of every power of two of wide ones, valid or not
            let a: $inner = if bits <= 16 { i as $inner } else { let (p, o) = (i / 5, i % 5); if p as u32 >= <$inner>::BITS { return Ok(()) } ((1 as $inner) << p).wrapping_add(o as $inner).wrapping_sub(2) };
            let ok = bits >= <$inner>::BITS || a >> bits.min(<$inner>::BITS - 1) == 0;
            l.st(1);
            if !ok { l.nt() }
            let x = $t::new(a);
            let (bi, cb) = (bincode::serialize(&a).unwrap(), cbor(&a));
            if ok { forms(&x, concat!(stringify!($t)), l)?; ckeq!((bincode::serialize(&x).unwrap(), cbor(&x)), (bi.clone(), cb.clone()), "int/binary", "{a}") }
            l.ev();
            ckeq!(bincode::deserialize::<$t>(&bi).ok().map(|x| x.into_inner()), ok.then_some(a), "int/bincode-range", concat!(stringify!($t), " {}"), a);
            ckeq!(uncbor::<$t>(&cb).map(|x| x.into_inner()), ok.then_some(a), "int/cbor-range", concat!(stringify!($t), " {}"), a);
            Ok(())
        });
    )*};
}

fn run(r: &Run) {
    let q = r.quick();
    // --- bit strings ---
    r.section("bits-16", 17 + 64, |i, l| {
        if i >= 17 { // long even lengths run in parallel pieces
            let k = i - 17;
            for v in (k * 1024..(k + 1) * 1024) { l.st(1); bits_case(&uint(v as u128, 16), l)? }
            return Ok(());
        }
        if i == 16 { return Ok(()) }
        for v in 0..1u64 << i { l.st(1); bits_case(&uint(v as u128, i as usize), l)? }
        Ok(())
    });
    r.section("bits-len", 1024, |i, l| {
        let n = i as usize;
        let mut ps: Vec<B> = vec![vec![0; n], vec![1; n], (0..n).map(|k| (k % 2) as u8).collect()];
        if n > 0 { for p in [0, n / 2, n - 1] { let mut b = vec![0; n]; b[p] = 1; ps.push(b); let mut b = vec![1; n]; b[p] = 0; ps.push(b) } }
        for s in 0..if q { 3 } else { 40 } { ps.push(pattern(s * 1031 + i, n)) }
        for b in &ps { l.st(1); bits_case(b, l)? }
        Ok(())
    });
    let alpha: &[&str] = &["0", "1", "8", "4", "c", "F", "g", "_", "é", "€", " ", "+", "-", "x", "\0", "𝟘"];
    let n = alpha.len() as u64;
    let len = if q { 4 } else { 5 };
    r.section("bits-texts", n.pow(len), |i, l| {
        let mut x = Ix(i);
        let cs: Vec<&str> = (0..len).map(|_| *x.of(alpha)).collect();
        // shorter texts are met when the rest is cut
        let cut = (0..=len as usize).rev().take_while(|k| cs[*k..].iter().all(|c| *c == "0")).count();
        for k in 0..cut { read_text(&cs[..len as usize - k].concat(), l)? }
        Ok(())
    });
    r.section("bits-corrupt", 300, |i, l| {
        let n = i as usize;
        // every count of digits around the limits, with and without a tag
        for d in ["0", "8", "f"] { for t in ["", "_", "__"] { read_text(&format!("{}{t}", d.repeat(n)), l)?; read_text(&format!("{}{t}", "é".repeat(n)), l)? } }
        if n < 40 { corrupt(&hexs(&pattern(i, n), n % 2 == 0), alpha, |s| { l.nt(); read_text(s, l) })? }
        Ok(())
    });
    // --- hashes ---
    r.section("hash-values", 32 * 12 + 3, |i, l| {
        let mut h = [0u8; 32];
        match i { 0 => {} 1 => h = [0xff; 32], 2 => h = std::array::from_fn(|k| (k * 37 + 0x9a) as u8), _ => { let k = i - 3; h = std::array::from_fn(|j| (j * 11) as u8); h[(k / 12) as usize] = [0, 1, 9, 10, 0x0f, 0x10, 0x7f, 0x80, 0xa0, 0xab, 0xf9, 0xff][(k % 12) as usize] } }
        let x = HashBytes(h);
        l.st(1);
        let t = hx(&h);
        ckeq!((x.to_string(), format!("{x:x}"), format!("{x:X}"), format!("{x:?}")), (t.clone(), t.clone(), t.to_uppercase(), t.clone()), "hash/print", "{t}");
        for s in [t.clone(), t.to_uppercase(), format!("0x{t}"), format!("0x{}", t.to_uppercase()), STANDARD.encode(h)] { ckeq!(HashBytes::from_str(&s).ok(), Some(x), "hash/read-back", "{s}"); hash_text(&s, l)? }
        ckeq!(serde_json::to_string(&x).unwrap(), format!("\"{t}\""), "hash/json", "{t}");
        forms(&x, &t, l)?;
        ckeq!(bincode::serialize(&x).unwrap(), [&32u64.to_le_bytes()[..], &h].concat(), "hash/bincode", "{t}");
        for k in [0usize, 1, 31, 33, 64] { let b = [&(k as u64).to_le_bytes()[..], &vec![7; k]].concat(); ck!(bincode::deserialize::<HashBytes>(&b).is_err(), "hash/bincode-len", "{k}") }
        Ok(())
    });
    let ha: &[&str] = &["0", "9", "a", "F", "g", "G", "x", "=", "/", "+", "-", "_", " ", "\n", "\0", "é", "€", "𝟘", "@", "`", ":"];
    let bases: Vec<String> = { let h: H = std::array::from_fn(|k| (k * 37 + 0x9a) as u8); vec![hx(&h), format!("0x{}", hx(&h)), STANDARD.encode(h), STANDARD.encode([0u8; 32]), hx(&h).to_uppercase(), "0".repeat(66), format!("{}=", &STANDARD.encode(h)[..43])] };
    r.section("hash-corrupt", bases.len() as u64, |i, l| corrupt(&bases[i as usize], ha, |s| { l.nt(); hash_text(s, l) }));
    r.section("hash-lens", 101, |i, l| {
        for c in ["0", "A", "=", "é", "€", "𝟘"] { hash_text(&c.repeat(i as usize), l)?; for p in ["0x", "0X", "x0", "é", "\u{feff}"] { hash_text(&format!("{p}{}", c.repeat(i as usize)), l)? } }
        // base64 texts of every number of bytes, with every padding
        let t = STANDARD.encode(vec![0x5a; i as usize]);
        for p in 0..=4 { hash_text(&format!("{}{}", t.trim_end_matches('='), "=".repeat(p)), l)? }
        Ok(())
    });
    r.section("hash-prefix", 96 * 96, |i, l| {
        let p: String = [(32 + i / 96) as u8 as char, (32 + i % 96) as u8 as char].iter().collect();
        hash_text(&format!("{p}{}", "5a".repeat(32)), l)?;
        // and the last two characters of a base64 text
        hash_text(&format!("{}{p}", &STANDARD.encode([0x5a; 32])[..42]), l)
    });
    // --- cells ---
    let b = Cfg { closed: false, ..BASE };
    let mut ds: Vec<Dag> = vec![];
    for n in 1..=if q { 3 } else { 4 } { ds.extend(dags(Cfg { n, refs: if n < 4 { 3 } else { 2 }, merkle: n < 4, odd: if n < 4 { 1 } else { 0 }, ..b })) }
    r.section("cells", ds.len() as u64, |i, l| { l.st(1); cell_forms(&ds[i as usize], l) });
    let samples: Vec<Cell> = vec![cell_of(&[]), real(&proof(&ord(uint(5, 3), vec![ord(vec![], vec![])]))), { let mut x = builder_of(&pattern(3, 1023)); x.store_reference(cell_of(&[1])).unwrap(); x.build().unwrap() }];
    let ba: &[&str] = &["A", "B", "Q", "g", "w", "=", "-", "_", " ", "é", "\0", "/"];
    r.section("cell-corrupt", samples.len() as u64 * 3, |i, l| {
        let c = &samples[i as usize / 3];
        let t = match i % 3 { 0 => Boc::encode_base64(c), 1 => Boc::encode_hex(c), _ => { let mut v = Boc::encode(c); v.pop(); STANDARD.encode(v) } };
        corrupt(&t, ba, |s| {
            l.ev();
            l.nt();
            let js = serde_json::to_string(s).unwrap();
            let (b64, hex) = (STANDARD.decode(s).ok(), hex::decode(s).ok());
            let want = |b: &Option<Vec<u8>>| b.as_ref().and_then(|b| Boc::decode(b).ok());
            let (a, b, c) = np("cell/panic", || s.to_string(), || (Boc::decode_base64(s).ok(), Boc::decode_hex(s).ok(), serde_json::from_str::<Wrap<Cell>>(&js).ok().map(|x| x.0)))?;
            ckeq!(a, want(&b64), "cell/read-base64", "{s}");
            ckeq!(c, want(&b64), "cell/read-json", "{s}");
            ckeq!(b, want(&hex), "cell/read-hex", "{s}");
            Ok(())
        })?;
        for j in ["null", "1", "[]", "{}", "\"\"", "[1,2]", "true", "\"=\"", "[\"te6ccgEBAQEAAgAAAA==\"]"] { ck!(serde_json::from_str::<Wrap<Cell>>(j).is_err(), "cell/json-kind", "{j}"); if j != "null" { ck!(serde_json::from_str::<Wrap<Option<Cell>>>(j).is_err(), "cell/json-kind", "{j}") } }
        for (n, j) in [(2, "[]"), (2, "[\"te6ccgEBAQEAAgAAAA==\"]"), (2, "[\"te6ccgEBAQEAAgAAAA==\",\"te6ccgEBAQEAAgAAAA==\",\"te6ccgEBAQEAAgAAAA==\"]")] { ck!(serde_json::from_str::<Wrap<[Cell; 2]>>(j).is_err(), "cell/json-array", "{n} {j}") }
        Ok(())
    });
    // --- dictionaries ---
    let m = if q { 6 } else { 8 };
    let tok = |i: usize| Tokens::new((1u128 << (i * 13)) - 1);
    let hashes: Vec<HashBytes> = (0..m).map(|i| HashBytes(std::array::from_fn(|k| if k < 31 { if i < 3 { 0 } else { (i * 50) as u8 } } else { i as u8 }))).collect();
    let addrs: Vec<StdAddr> = (0..m).map(|i| StdAddr::new([0, -1, 127, -128, 1, 0, -1, 5][i], hashes[i])).collect();
    r.section("dict", 1 << m, |i, l| {
        dict_case::<u8, u32>(&[0, 1, 255, 128, 127, 2, 64, 200], |k| k as u32 * 77, i, l)?;
        dict_case::<i8, bool>(&[0, 1, -1, -128, 127, 2, -2, 64], |k| k % 2 == 0, i, l)?;
        dict_case::<u16, Tokens>(&[0, 1, 0xffff, 0x8000, 0x7fff, 2, 64, 200], tok, i, l)?;
        dict_case::<i16, HashBytes>(&[0, 1, -1, i16::MIN, i16::MAX, 2, -64, 200], |k| HashBytes([k as u8; 32]), i, l)?;
        dict_case::<u32, u64>(&[0, 1, u32::MAX, 1 << 31, (1 << 31) - 1, 2, 64, 200], |k| u64::MAX - k as u64, i, l)?;
        dict_case::<i32, u8>(&[0, 1, -1, i32::MIN, i32::MAX, -2, 64, 200], |k| k as u8, i, l)?;
        dict_case::<u64, VarUint248>(&[0, 1, u64::MAX, 1 << 63, (1 << 63) - 1, 2, 64, 200], |k| VarUint248::from_words(k as u128 * 3, u128::MAX / (k as u128 + 1)), i, l)?;
        dict_case::<i64, i64>(&[0, 1, -1, i64::MIN, i64::MAX, 2, 64, 200], |k| i64::MIN + k as i64, i, l)?;
        dict_case::<HashBytes, SplitDepth>(&hashes, |k| SplitDepth::new(k as u8 + 1).unwrap(), i, l)?;
        dict_case::<StdAddr, Uint12>(&addrs, |k| Uint12::new(k as u16 * 500), i, l)?;
        dict_case::<u32, CurrencyCollection>(&[7, 1, u32::MAX, 1 << 31, 3, 2, 64, 200], |k| { let mut c = CurrencyCollection::new(k as u128 * 1000); for j in 0..k % 3 { c.other.as_dict_mut().set(j as u32 + 9, VarUint248::new(k as u128 + 5)).unwrap(); } c }, i, l)?;
        dict_case::<u8, Dict<u8, u32>>(&[0, 1, 255, 128, 127, 2, 64, 200], |k| { let mut d = Dict::new(); for j in 0..k % 4 { d.set(j as u8 * 50, k as u32).unwrap(); } d }, i, l)?;
        if i < 4 { dict_case::<bool, Option<u32>>(&[false, true], |k| (k == 1).then_some(9), i, l)? }
        // raw dictionaries have no serde form but their texts must agree with the typed ones
        let mut t = Dict::<u8, u32>::new();
        for k in 0..8u8 { if i >> k & 1 == 1 { t.set(k * 31, k as u32).unwrap(); } }
        let es: Vec<(B, Val)> = (0..8u128).filter(|k| i >> k & 1 == 1).map(|k| (uint(k * 31, 8), Val::new(uint(k, 32)))).collect();
        ckeq!(t.root().clone(), canon(&es, 8).unwrap(), "dict/canon", "{i:b}");
        Ok(())
    });
    r.section("dict-bad", 1, |_, l| {
        dict_bad::<u8, u32>(&[r#"{"256":1}"#, r#"{"-1":1}"#, r#"{"":1}"#, r#"{"a":1}"#, r#"{"1":-1}"#, r#"{"1":4294967296}"#, r#"{"1":null}"#, r#"{"1":"1"}"#, "[]", "null", "[[1,2]]", "1", r#""te6ccgEBAQEAAgAAAA==""#, r#"{"1":1"#, r#"{"1":{}}"#, r#"{"1.0":1}"#, r#"{"é":1}"#], l)?;
        dict_bad::<HashBytes, u32>(&[r#"{"00":1}"#, r#"{"":1}"#, &format!(r#"{{"0x{}":1}}"#, "0".repeat(64)), &format!(r#"{{"{}g":1}}"#, "0".repeat(63)), &format!(r#"{{"{}é":1}}"#, "0".repeat(62))], l)?;
        dict_bad::<StdAddr, u32>(&[r#"{"0:00":1}"#, r#"{"":1}"#, &format!(r#"{{"128:{}":1}}"#, "0".repeat(64)), &format!(r#"{{":{}":1}}"#, "0".repeat(64)), &format!(r#"{{"{}":1}}"#, "0".repeat(66))], l)?;
        dict_bad::<i8, Tokens>(&[r#"{"128":"1"}"#, r#"{"1":1}"#, r#"{"1":"-1"}"#, r#"{"1":""}"#, &format!(r#"{{"1":"{}"}}"#, 1u128 << 120)], l)
    });
    // --- a cell holding a typed value ---
    r.section("lazy", 64, |i, l| {
        let v = i.wrapping_mul(0x9E3779B97F4A7C15);
        let a = Lazy::<u64>::new(&v).unwrap();
        forms(&a, "lazy", l)?;
        ckeq!(serde_json::to_string(&a).unwrap(), v.to_string(), "lazy/json", "{v}");
        ckeq!(bincode::serialize(&a).unwrap(), bincode::serialize(&Boc::encode(a.inner())).unwrap(), "lazy/bincode", "{v}");
        let c = Lazy::new(&CurrencyCollection::new(v as u128)).unwrap();
        forms(&c, "lazy", l)?;
        let mut d = Dict::<u8, Lazy<HashBytes>>::new();
        for k in 0..(i % 9) as u8 { d.set(k * 7, Lazy::new(&HashBytes([k; 32])).unwrap()).unwrap(); }
        forms(&d, "dict of lazy", l)?;
        // a cell that is not of the type cannot be shown
        let badc = Lazy::<u64>::from_raw(cell_of(&pattern(i, i as usize))).unwrap();
        ckeq!(np("lazy/panic", || v.to_string(), || serde_json::to_string(&badc).is_ok())?, false, "lazy/short", "{i}");
        let back: Lazy<u64> = bincode::deserialize(&bincode::serialize(&badc).unwrap()).unwrap();
        ckeq!(*back.inner().repr_hash(), *badc.inner().repr_hash(), "lazy/raw", "{i}");
        Ok(())
    });
    // --- integers and addresses in binary forms ---
    ints!(r, Uint9, u16, 1 << 16, 9; Uint12, u16, 1 << 16, 12; Uint15, u16, 1 << 16, 15; VarUint24, u32, 5 * 32, 24; VarUint56, u64, 5 * 64, 56; Tokens, u128, 5 * 128, 120);
    r.section("int-others", 1280, |i, l| {
        let (p, o) = (i / 5, i % 5);
        let v = (num_bigint::BigUint::from(1u8) << p) + o;
        if v < 2u8.into() { return Ok(()) }
        let v: num_bigint::BigUint = v - 2u8;
        let d: Vec<u64> = { let mut d = v.to_u64_digits(); d.resize(4.max(d.len()), 0); d };
        if d.len() > 4 { return Ok(()) }
        let (lo, hi) = (d[0] as u128 | (d[1] as u128) << 64, d[2] as u128 | (d[3] as u128) << 64);
        let x = VarUint248::from_words(hi, lo);
        let ok = v.bits() <= 248;
        l.st(1);
        if !ok { l.nt() }
        let b = bincode::serialize(&x).unwrap();
        if ok { forms(&x, &v.to_string(), l)?; ckeq!(serde_json::to_string(&x).unwrap(), format!("\"{v}\""), "int/json-248", "{v}") }
        l.ev();
        ckeq!(bincode::deserialize::<VarUint248>(&b).is_ok(), ok, "int/bincode-248", "{v}");
        ckeq!(uncbor::<VarUint248>(&cbor(&x)).is_some(), ok, "int/cbor-248", "{v}");
        ckeq!(serde_json::from_str::<VarUint248>(&format!("\"{v}\"")).is_ok(), ok, "int/json-248", "{v}");
        if i < 256 { ckeq!(bincode::deserialize::<SplitDepth>(&[i as u8]).ok().map(|x| x.into_bit_len() as u64), (1..=30).contains(&i).then_some(i), "split-depth", "{i}") }
        Ok(())
    });
    r.section("addr-binary", 512, |i, l| {
        let n = i as u16;
        let e = ExtAddr::new(n, pack(&pattern(i, n as usize))).unwrap();
        forms(&e, &format!("ext {n}"), l)?;
        // the length and the data must fit each other
        for k in [0usize, 1, (n as usize).div_ceil(8).saturating_sub(1), (n as usize).div_ceil(8), (n as usize).div_ceil(8) + 1, 64] { for m in [n, n + 512, u16::MAX] {
            let data: Vec<u8> = (0..k).map(|j| (j * 91 + 0x5b) as u8).collect();
            let b = bincode::serialize(&(m, data.clone())).unwrap();
            l.ev();
            l.nt();
            let got = np("addr/panic", || format!("{m} bits {k} bytes"), || bincode::deserialize::<ExtAddr>(&b).ok())?;
            let ok = m < 512 && k == (m as usize).div_ceil(8);
            if !ok { ck!(got.is_none(), "addr/ext-length", "{m} bits in {k} bytes") }
            if let Some(a) = got { np("addr/use", || format!("{m} bits {k} bytes"), || { let _ = a.to_string(); CellBuilder::build_from(&MsgInfo::ExtOut(ExtOutMsgInfo { dst: Some(a), ..Default::default() })).is_ok() })?; }
        }}
        let w = i as u8 as i8;
        let s = StdAddr::new(w, HashBytes([i as u8 ^ 0x5a; 32]));
        forms(&s, "std", l)?;
        forms(&IntAddr::Std(s.clone()), "int", l)?;
        for p in 0..=60u32 { if let Some(sh) = ShardIdent::new(if i % 2 == 0 { w as i32 } else { -(i as i32) * 4_000_000 }, (i.wrapping_mul(0x9E3779B97F4A7C15) | 1).wrapping_shl(63 - p)) { if i < 64 || p == 0 {
            forms(&sh, "shard", l)?;
            forms(&BlockId { shard: sh, seqno: i as u32 * 8_000_000, root_hash: HashBytes([p as u8; 32]), file_hash: HashBytes([7; 32]) }, "block", l)?;
            forms(&BlockIdShort { shard: sh, seqno: u32::MAX - i as u32 }, "block-short", l)?;
        }}}
        // shards that are none
        for (wc, p) in [(0i32, 0u64), (0, 1), (0, 4), (-1, 0), (5, 0x0000_0000_0000_0007)] { let b = bincode::serialize(&(wc, p)).unwrap(); ckeq!(bincode::deserialize::<ShardIdent>(&b).is_ok(), ShardIdent::new(wc, p).is_some(), "shard/binary", "{wc} {p:x}") }
        Ok(())
    });
}
