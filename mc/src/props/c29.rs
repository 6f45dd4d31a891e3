//! C29: ABI calls: type texts, identifiers, message bodies, signatures, initial data.
use super::abilib::*;
use crate::fw::*;
use crate::model::{bits::*, dict::*};
use crate::{bad, ck, ckeq};
use ed25519_dalek::{Signature, SigningKey};
use num_bigint::{BigInt, BigUint};
use serde_json::{Value as J, json};
use sha2::Digest;
use std::collections::BTreeMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::str::FromStr;
use std::sync::Arc;
use tycho_types::abi::*;
use tycho_types::cell::*;
use tycho_types::models::*;
use tycho_types::num::*;

pub const META: Meta = Meta {
    id: "C29",
    level: "model_checking",
    rule: "types: all type trees to nesting depth 3 (every container over every container over every leaf), printed, parsed back and compared with an independent printer; every single-character deletion, insertion and replacement of a set of texts is compared with an independent recursive-descent parser; calls: all ordered header subsets x versions x public key x input tuples x {no, fake, real signature} x signature ids x destinations: body, hash, prefix, signature and decoded inputs are compared with an independent layout model; identifiers are recomputed from an independent printer; contract descriptions in JSON, initial data (encode, update, decode), fields, events and internal bodies likewise; non-trivial: the type is nested, the text is wrong, or the call has headers or a signature",
    assumptions: &["uint0 and integers over 256 bits, and numbers with leading zeros, are not judged as type texts", "the position of values in a body built directly without a signature (build_input_without_signature) is judged by decoding only", "sha2 and ed25519-dalek are trusted"],
    run,
};

// ---- texts -------------------------------------------------------------
fn full(t: &AbiType) -> String {
    use AbiType::*;
    match t {
        Uint(n) => format!("uint{n}"), Int(n) => format!("int{n}"),
        VarUint(n) => format!("varuint{n}"), VarInt(n) => format!("varint{n}"),
        Bool => "bool".into(), Cell => "cell".into(), Address => "address".into(), Bytes => "bytes".into(),
        FixedBytes(n) => format!("fixedbytes{n}"), String => "string".into(), Token => "gram".into(),
        Tuple(ts) => format!("({})", ts.iter().map(|t| full(&t.ty)).collect::<Vec<_>>().join(",")),
        Array(t) => full(t) + "[]", FixedArray(t, n) => full(t) + &format!("[{n}]"),
        Map(k, t) => format!("map({},{})", full(&AbiType::from(*k)), full(t)),
        Optional(t) => format!("optional({})", full(t)), Ref(t) => format!("ref({})", full(t)),
    }
}
/// text with `tuple` in place of the components, and the components
fn simple(t: &AbiType) -> (String, Option<&[NamedAbiType]>) {
    use AbiType::*;
    match t {
        Tuple(ts) => ("tuple".into(), Some(ts)),
        Array(t) => { let (s, c) = simple(t); (s + "[]", c) }
        FixedArray(t, n) => { let (s, c) = simple(t); (s + &format!("[{n}]"), c) }
        Map(k, t) => { let (s, c) = simple(t); (format!("map({},{s})", full(&AbiType::from(*k))), c) }
        Optional(t) => { let (s, c) = simple(t); (format!("optional({s})"), c) }
        Ref(t) => { let (s, c) = simple(t); (format!("ref({s})"), c) }
        t => (full(t), None),
    }
}
fn js(t: &NamedAbiType) -> J {
    let (s, c) = simple(&t.ty);
    let mut j = json!({"name": &*t.name, "type": s});
    if let Some(c) = c { j["components"] = c.iter().map(js).collect() }
    j
}
/// recursive-descent parser of the simple form: `Err(true)` when not judged
struct P<'a>(&'a [u8]);
impl P<'_> {
    fn eat(&mut self, s: &str) -> bool { if self.0.starts_with(s.as_bytes()) { self.0 = &self.0[s.len()..]; true } else { false } }
    fn num(&mut self, max: u128) -> Result<u128, bool> {
        let n = self.0.iter().take_while(|c| c.is_ascii_digit()).count();
        let (d, rest) = self.0.split_at(n);
        self.0 = rest;
        if n == 0 { return Err(false) }
        if n > 1 && d[0] == b'0' { return Err(true) }
        if n > 30 { return Err(false) }
        let v: u128 = std::str::from_utf8(d).unwrap().parse().unwrap();
        if v > max { Err(false) } else { Ok(v) }
    }
    fn int(&mut self) -> Result<u16, bool> { let n = self.num(65535)?; Ok(n as u16) }
    fn plain(&mut self) -> Result<PlainAbiType, bool> {
        if self.eat("bool") { Ok(PlainAbiType::Bool) } else if self.eat("address") { Ok(PlainAbiType::Address) }
        else if self.eat("uint") { Ok(PlainAbiType::Uint(self.int()?)) } else if self.eat("int") { Ok(PlainAbiType::Int(self.int()?)) } else { Err(false) }
    }
    fn close(&mut self, c: &str) -> Result<(), bool> { if self.eat(c) { Ok(()) } else { Err(false) } }
    fn ty(&mut self) -> Result<AbiType, bool> {
        let mut t = if self.eat("optional(") { let t = self.ty()?; self.close(")")?; AbiType::Optional(Arc::new(t)) }
        else if self.eat("ref(") { let t = self.ty()?; self.close(")")?; AbiType::Ref(Arc::new(t)) }
        else if self.eat("map(") { let k = self.plain()?; self.close(",")?; let t = self.ty()?; self.close(")")?; AbiType::Map(k, Arc::new(t)) }
        else if self.eat("tuple") { AbiType::Tuple(Arc::from([].as_slice())) }
        else if self.eat("cell") { AbiType::Cell } else if self.eat("bytes") { AbiType::Bytes } else if self.eat("string") { AbiType::String }
        else if self.eat("gram") || self.eat("token") { AbiType::Token }
        else if self.eat("varuint") { let n = self.num(255)? as u8; if n == 0 { return Err(false) } AbiType::VarUint(nz(n)) }
        else if self.eat("varint") { let n = self.num(255)? as u8; if n == 0 { return Err(false) } AbiType::VarInt(nz(n)) }
        else if self.eat("fixedbytes") { AbiType::FixedBytes(self.num(u64::MAX as u128)? as usize) }
        else { self.plain()?.into() };
        while self.eat("[") {
            if self.eat("]") { t = AbiType::Array(Arc::new(t)) } else { let n = self.num(u64::MAX as u128)?; self.close("]")?; t = AbiType::FixedArray(Arc::new(t), n as usize) }
        }
        Ok(t)
    }
    fn all(s: &str) -> Result<AbiType, bool> {
        let mut p = P(s.as_bytes());
        let t = p.ty();
        match t { Ok(t) if p.0.is_empty() => Ok(t), Err(true) => Err(true), _ => Err(digits0(s)) }
    }
}
/// a number with leading zeros occurs: not judged
fn digits0(s: &str) -> bool {
    let b = s.as_bytes();
    (0..b.len().saturating_sub(1)).any(|i| b[i] == b'0' && b[i + 1].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()))
}

fn leaf_types() -> Vec<AbiType> {
    let mut v = vec![AbiType::Bool, AbiType::Cell, AbiType::Address, AbiType::Bytes, AbiType::String, AbiType::Token];
    for n in [1u16, 8, 9, 64, 128, 255, 256] { v.push(AbiType::Uint(n)); v.push(AbiType::Int(n)) }
    for n in [1u8, 2, 16, 32, 255] { v.push(AbiType::VarUint(nz(n))); v.push(AbiType::VarInt(nz(n))) }
    for n in [0usize, 1, 32, 1000000] { v.push(AbiType::FixedBytes(n)) }
    v
}
fn wrap(t: &AbiType, k: usize) -> Option<AbiType> {
    let a = arc(t);
    Some(match k {
        0 => AbiType::Array(a), 1 => AbiType::FixedArray(a, 0), 2 => AbiType::FixedArray(a, 10), 3 => AbiType::Optional(a), 4 => AbiType::Ref(a),
        5 => AbiType::Map(PlainAbiType::Uint(256), a), 6 => AbiType::Map(PlainAbiType::Int(7), a), 7 => AbiType::Map(PlainAbiType::Bool, a), 8 => AbiType::Map(PlainAbiType::Address, a),
        9 => AbiType::Tuple(Arc::from([t.clone().named("x")].as_slice())),
        10 => AbiType::Tuple(Arc::from([t.clone().named("a b\"\u{451}"), AbiType::Bool.named("")].as_slice())),
        11 => AbiType::unnamed_tuple([AbiType::unnamed_tuple([]), t.clone(), t.clone()]),
        _ => return None,
    })
}
const WRAPS: usize = 12;

fn one_type(t: &AbiType, l: &mut L) -> R {
    l.ev();
    l.st(1);
    l.tr(4);
    ckeq!(t.to_string(), full(t), "text/full", "{t:?}");
    let named = t.clone().named("n\\\"1");
    let j = serde_json::to_value(&named).unwrap();
    ckeq!(j, js(&named), "json/print", "{t:?}");
    let text = js(&named).to_string();
    match np("panic/json", || text.clone(), || serde_json::from_str::<NamedAbiType>(&text))? {
        Ok(b) => ckeq!(b, named, "json/parse", "{text}"),
        Err(e) => bad!("json/parse", "{e} {text}"),
    }
    ckeq!(serde_json::from_value::<NamedAbiType>(j).ok(), Some(named.clone()), "json/parse-owned", "{text}");
    ckeq!(serde_json::from_reader::<_, NamedAbiType>(text.as_bytes()).ok(), Some(named.clone()), "json/parse-reader", "{text}");
    ckeq!(serde_json::to_string(&named).ok().and_then(|s| serde_json::from_str::<NamedAbiType>(&s).ok()), Some(named.clone()), "json/trip", "{text}");
    if let Some(p) = t.as_plain() {
        ckeq!(p.to_string(), full(t), "text/plain", "{t:?}");
        ckeq!(PlainAbiType::from_str(&full(t)).ok(), Some(p), "text/plain", "{t:?}");
        ckeq!(AbiType::from(p), *t, "text/plain", "{t:?}");
        ckeq!(p.key_bits() as usize, key_bits(&p), "key-bits", "{t:?}");
    }
    // components given or missing wrongly
    let mut bad_j = js(&named);
    if simple(t).1.is_some() { bad_j.as_object_mut().unwrap().remove("components"); } else { bad_j["components"] = json!([]) }
    ck!(serde_json::from_value::<NamedAbiType>(bad_j.clone()).is_err(), "json/components", "{bad_j}");
    // flattening
    let items: Vec<NamedAbiType> = match t { AbiType::Tuple(ts) => ts.to_vec(), _ => vec![named.clone()] };
    ckeq!(named.clone().flatten().collect::<Vec<_>>(), items, "flatten", "{t:?}");
    ckeq!(named.flatten().size_hint(), (items.len(), Some(items.len())), "flatten", "{t:?}");
    ckeq!(t.clone().flatten().collect::<Vec<_>>(), items.iter().map(|t| t.ty.clone()).collect::<Vec<_>>(), "flatten", "{t:?}");
    Ok(())
}
fn texts() -> Vec<String> {
    let mut v: Vec<String> = ["uint8", "int256", "varuint16", "varint32", "bool", "cell", "address", "bytes", "fixedbytes32", "string", "gram", "token", "tuple", "uint8[]", "bool[3]", "tuple[][12]", "map(uint256,tuple)", "map(bool,cell[])", "map(int7,map(address,uint8[4]))", "optional(bytes)", "optional(optional(tuple[]))", "ref(uint8)", "ref(ref(map(uint8,tuple)))[2]", "map(address,optional(int8))[]", "optional(map(uint16,ref(varuint3[])))"].iter().map(|s| s.to_string()).collect();
    v.extend(["", "[]", "()", "(uint8)", "map(,)", "map(uint8)", "map(tuple,uint8)", "map(uint8,uint8", "optional()", "ref()", "uint", "int", "varuint", "varuint0", "varint256", "fixedbytes", "uint65536", "uint-1", "Uint8", " uint8", "uint8 ", "uint8]", "uint8[", "uint8[]]", "uint8[18446744073709551615]", "uint8[18446744073709551616]", "uint8[-1]", "map(uint8,uint8))", "optional(uint8)x", "fixedbytes18446744073709551616", "uint+8", "\u{ff55}int8", "uint\u{664}", "map(gram,bool)", "map(uint8[],bool)", "map(bytes,bool)", "map(varuint16,bool)"].iter().map(|s| s.to_string()));
    v
}
fn parse_one(s: &str, l: &mut L) -> R {
    l.ev();
    l.tr(1);
    let want = P::all(s);
    let has_tuple = want.as_ref().is_ok_and(|t| simple(t).1.is_some());
    let mut j = json!({"name": "x", "type": s});
    if has_tuple { j["components"] = json!([]) }
    let text = j.to_string();
    let got = np("panic/parse-type", || s.to_string(), || serde_json::from_str::<NamedAbiType>(&text))?;
    match (&got, &want) {
        (Err(_), Err(_)) | (Ok(_), Err(true)) => {}
        (Ok(g), Ok(w)) => { ck!(g.ty == *w, "parse/value", "{s:?} -> {:?}", g.ty); l.nt() }
        (g, w) => bad!("parse/outcome", "{s:?} impl={:?} model={w:?}", g.as_ref().map(|t| &t.ty)),
    }
    let plain = { let mut p = P(s.as_bytes()); match p.plain() { Ok(t) if p.0.is_empty() => Ok(t), Err(true) => Err(true), _ => Err(digits0(s)) } };
    let got = np("panic/parse-type", || s.to_string(), || PlainAbiType::from_str(s))?;
    match (got, plain) { (Err(_), Err(_)) | (Ok(_), Err(true)) => {} (Ok(g), Ok(w)) if g == w => {} (g, w) => bad!("parse/plain", "{s:?} impl={g:?} model={w:?}") }
    Ok(())
}
/// types equal up to names of tuple items
fn erase(t: &AbiType) -> AbiType {
    use AbiType::*;
    match t {
        Tuple(ts) => AbiType::Tuple(ts.iter().map(|t| erase(&t.ty).named("")).collect()),
        Array(t) => Array(Arc::new(erase(t))), FixedArray(t, n) => FixedArray(Arc::new(erase(t)), *n), Map(k, t) => Map(*k, Arc::new(erase(t))),
        Optional(t) => Optional(Arc::new(erase(t))), Ref(t) => Ref(Arc::new(erase(t))), t => t.clone(),
    }
}
fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

// ---- identifiers -------------------------------------------------------
fn sha4(s: &str) -> u32 { u32::from_be_bytes(sha2::Sha256::digest(s.as_bytes())[..4].try_into().unwrap()) }
const HT: [AbiHeaderType; 3] = [AbiHeaderType::Time, AbiHeaderType::Expire, AbiHeaderType::PublicKey];
fn hname(h: AbiHeaderType) -> &'static str { match h { AbiHeaderType::Time => "time", AbiHeaderType::Expire => "expire", AbiHeaderType::PublicKey => "pubkey" } }
/// all ordered subsets
fn header_sets() -> Vec<Vec<AbiHeaderType>> {
    let mut v: Vec<Vec<AbiHeaderType>> = vec![vec![]];
    let mut i = 0;
    while i < v.len() { for h in HT { if !v[i].contains(&h) { let mut x = v[i].clone(); x.push(h); v.push(x) } } i += 1 }
    v
}
fn fsig(ver: AbiVersion, name: &str, hs: &[AbiHeaderType], ins: &[NamedAbiType], outs: &[NamedAbiType]) -> String {
    let mut i: Vec<String> = if ver.major == 1 { hs.iter().map(|h| hname(*h).to_string()).collect() } else { vec![] };
    i.extend(ins.iter().map(|t| full(&t.ty)));
    format!("{name}({})({})v{}", i.join(","), outs.iter().map(|t| full(&t.ty)).collect::<Vec<_>>().join(","), ver.major)
}
fn ty(v: &[NamedAbiValue]) -> Vec<NamedAbiType> { v.iter().map(|v| v.value.get_type().named(v.name.to_string())).collect() }
fn params() -> Vec<Vec<NamedAbiType>> {
    let t = |s: &str, n: &str| P::all(s).unwrap().named(n);
    vec![
        vec![], vec![t("uint8", "a")], vec![t("gram", "a"), t("token", "b")], vec![AbiType::unnamed_tuple([]).named("t")],
        vec![AbiType::unnamed_tuple([AbiType::Bool, AbiType::Array(Arc::new(AbiType::unnamed_tuple([AbiType::Token, AbiType::Address])))]).named("t"), t("map(uint256,optional(cell[3]))", "m"), t("fixedbytes32", "f"), t("ref(varint16)", "r")],
        vec![t("bytes", "a"), t("string", "b"), t("int8[]", "c"), t("varuint32", "d")],
    ]
}
fn ids(ver: AbiVersion, hs: &[AbiHeaderType], ins: &[NamedAbiType], outs: &[NamedAbiType], name: &str, explicit: Option<u32>, l: &mut L) -> R {
    l.ev();
    l.st(1);
    l.tr(3);
    if !hs.is_empty() { l.nt() }
    let sig = fsig(ver, name, hs, ins, outs);
    let id = sha4(&sig);
    let (iid, oid) = match explicit { Some(x) => (x, x), None => (id & 0x7fff_ffff, id | 0x8000_0000) };
    let esig = format!("{name}({})v{}", ins.iter().map(|t| full(&t.ty)).collect::<Vec<_>>().join(","), ver.major);
    let eid = explicit.unwrap_or(sha4(&esig) & 0x7fff_ffff);
    ckeq!(Function::compute_function_id(ver, name, hs, ins, outs), id, "id/function", "{sig}");
    ckeq!(Event::compute_event_id(ver, name, ins), sha4(&esig), "id/event", "{esig}");
    let mut b = Function::builder(ver, name).with_headers(hs.iter().copied()).with_inputs(ins.to_vec()).with_outputs(outs.to_vec());
    let mut e = Event::builder(ver, name).with_inputs(ins.to_vec());
    if let Some(x) = explicit { b = b.with_id(x); e = e.with_id(x) }
    let (f, e) = (b.build(), e.build());
    ckeq!((f.input_id, f.output_id), (iid, oid), "id/builder", "{sig}");
    ckeq!(f.display_signature().to_string(), sig, "id/text", "");
    ckeq!(e.id, eid, "id/event", "{esig}");
    ckeq!(e.display_signature().to_string(), esig, "id/text", "");
    ckeq!((&*f.name, &*f.inputs, &*f.outputs, &*f.headers), (name, ins, outs, hs), "id/builder", "{sig}");
    // unnamed: same text
    let u = Function::builder(ver, name).with_headers(hs.iter().copied()).with_unnamed_inputs(ins.iter().map(|t| t.ty.clone())).with_unnamed_outputs(outs.iter().map(|t| t.ty.clone())).build();
    ckeq!((u.input_id, u.output_id), (id & 0x7fff_ffff, id | 0x8000_0000), "id/unnamed", "{sig}");
    let ue = Event::builder(ver, name).with_unnamed_inputs(ins.iter().map(|t| t.ty.clone())).build();
    ckeq!(ue.id, sha4(&esig) & 0x7fff_ffff, "id/unnamed", "{esig}");
    for (i, t) in u.inputs.iter().enumerate() { ckeq!(&*t.name, format!("value{i}"), "id/unnamed", "") }
    // through a contract description
    let mut fj = json!({"name": name, "inputs": ins.iter().map(js).collect::<Vec<_>>(), "outputs": outs.iter().map(js).collect::<Vec<_>>()});
    let mut ej = json!({"name": name, "inputs": ins.iter().map(js).collect::<Vec<_>>()});
    if let Some(x) = explicit { for j in [&mut fj, &mut ej] { j["id"] = json!(format!("0x{x:08x}")) } }
    let c = json!({"ABI version": ver.major, "version": ver.to_string(), "header": hs.iter().map(|h| hname(*h)).collect::<Vec<_>>(), "functions": [fj, {"name": "other", "inputs": [], "outputs": []}], "events": [ej, {"name": "other", "inputs": []}], "data": [], "fields": ins.iter().map(js).collect::<Vec<_>>()}).to_string();
    let c: Contract = match np("panic/contract", || c.clone(), || serde_json::from_str(&c))? { Ok(c) => c, Err(e) => bad!("contract/json", "{e} {c}") };
    ckeq!((c.abi_version, &*c.headers, &*c.fields, c.functions.len(), c.events.len(), c.init_data.len()), (ver, hs, ins, 2, 2, 0), "contract/json", "{sig}");
    let g = &c.functions[name];
    ckeq!((g.input_id, g.output_id, &*g.name, &*g.inputs, &*g.outputs, &*g.headers, g.abi_version), (iid, oid, name, ins, outs, hs, ver), "contract/function", "{sig}");
    let h = &c.events[name];
    ckeq!((h.id, &*h.name, &*h.inputs, h.abi_version), (eid, name, ins, ver), "contract/event", "{esig}");
    let by = |id, input| c.find_function_by_id(id, input).map(|f| f.name.to_string());
    let other = &c.functions["other"];
    for (id, input) in [(iid, true), (iid, false), (oid, true), (oid, false), (iid ^ 1, true), (other.input_id, true), (other.output_id, false)] {
        let m: Vec<String> = [g, other].iter().filter(|f| (if input { f.input_id } else { f.output_id }) == id).map(|f| f.name.to_string()).collect();
        ck!(m.len() > 1 || by(id, input) == m.first().cloned(), "contract/find", "{id:#x} {input} {:?} vs {m:?}", by(id, input));
    }
    ckeq!(c.find_event_by_id(eid).map(|f| f.name.to_string()), Some(name.to_string()), "contract/find", "{esig}");
    ck!(c.find_event_by_id(eid ^ 1).is_none(), "contract/find", "");
    Ok(())
}

// ---- calls -------------------------------------------------------------
fn named(vs: Vec<AbiValue>) -> Vec<NamedAbiValue> { vs.into_iter().enumerate().map(|(i, v)| v.named(format!("p{i}"))).collect() }
/// input tuples of many sizes
fn inputs() -> Vec<Vec<AbiValue>> {
    use AbiValue as A;
    let u = |n: u16| A::Uint(n, two(n as usize) - 1u8);
    let big = cell_of(&pattern(5, 700));
    let a = || A::Address(Box::new(std_addr(3)));
    let mut v = vec![
        vec![], vec![u(8)], vec![A::Bool(true), a()], vec![A::Cell(big.clone())],
        vec![a(), a(), a()], vec![u(256), u(256), u(256), A::Cell(big.clone())],
        vec![A::Cell(big.clone()), A::Cell(big.clone()), A::Cell(big.clone()), A::Cell(big.clone())],
        vec![A::Cell(big.clone()), A::Cell(big.clone()), A::Cell(big.clone()), A::Cell(big.clone()), A::Bool(true)],
        vec![A::Cell(big.clone()), A::Cell(big.clone()), A::Cell(big.clone()), A::Cell(big.clone()), A::Cell(cell_of(&[]))],
        vec![A::Bytes(tycho_bytes(vec![7; 300])), A::Optional(Arc::new(AbiType::Address), None), A::Token(Tokens::new(1000))],
        vec![A::Array(Arc::new(AbiType::Uint(8)), vec![A::Uint(8, BigUint::from(1u8)), A::Uint(8, BigUint::from(255u8))]), A::Map(PlainAbiType::Address, Arc::new(AbiType::Bool), BTreeMap::from([(PlainAbiValue::Address(Box::new(std_addr(1))), A::Bool(true))]))],
        vec![A::unnamed_tuple(vec![u(64), A::unnamed_tuple(vec![A::String("x".into()), A::Int(8, BigInt::from(-1))])]), A::Ref(Box::new(u(256)))],
    ];
    // bit sizes around what is left after headers and the reserved prefix
    for base in [0usize, 32, 64, 96, 97, 129, 161, 193, 257, 353] {
        for off in [0usize, 513, 591] {
            let left = 1023usize.saturating_sub(off + 32 + base);
            for d in [0isize, 1] {
                let mut n = left as isize + d;
                let mut t = vec![];
                while n > 0 { let k = n.min(256); t.push(u(k as u16)); n -= k }
                v.push(t);
            }
        }
    }
    v.sort_by_key(|t| format!("{t:?}"));
    v.dedup();
    v
}
struct Call<'a> { ver: AbiVersion, hs: &'a [AbiHeaderType], key: bool, ins: &'a [NamedAbiValue], time: u64, expire: u32, dst: &'a StdAddr }
fn signing() -> SigningKey { SigningKey::from_bytes(&std::array::from_fn(|i| i as u8 + 1)) }
fn body_model(c: &Call, id: u32) -> Option<(B, Vec<Cell>)> {
    let m = M { ver: c.ver, zero: 1 };
    let it = |bits: B, jb: u64| It { jb, bits, refs: vec![], jr: 0 };
    let pk = signing().verifying_key();
    let mut its: Vec<It> = c.hs.iter().map(|h| match h {
        AbiHeaderType::Time => it(uint(c.time as u128, 64), 64),
        AbiHeaderType::Expire => it(uint(c.expire as u128, 32), 32),
        AbiHeaderType::PublicKey => { let mut b = vec![c.key as u8]; if c.key { b.extend(from_bytes(pk.as_bytes(), 256)) } let jb = if c.key || m.max() { 257 } else { 1 }; it(b, jb) }
    }).collect();
    let id = it(uint(id as u128, 32), 32);
    if c.ver.major == 1 { its.insert(0, id) } else { its.push(id) }
    for v in c.ins { m.items(&v.value, &mut its)? }
    m.pack_at(its, if c.ver.major == 1 { (0, 1) } else if c.ver >= AbiVersion::V2_3 { (591, 0) } else { (513, 0) })
}
fn mk(b: &B, r: &[Cell]) -> Option<Cell> { build_cell(b, &r.iter().collect::<Vec<_>>()) }
fn signed(c: &Call, p: &(B, Vec<Cell>), sig: Option<&[u8; 64]>) -> Option<Cell> {
    let (mut b, mut r) = (vec![], vec![]);
    if c.ver.major == 1 { r.push(match sig { Some(s) => cell_of(&from_bytes(s, 512)), None => cell_of(&[]) }) }
    else { b.push(sig.is_some() as u8); if let Some(s) = sig { b.extend(from_bytes(s, 512)) } }
    b.extend(&p.0);
    r.extend(p.1.iter().cloned());
    mk(&b, &r)
}
fn call(c: &Call, l: &mut L) -> R {
    l.ev();
    l.st(1);
    let ctx = || format!("{} {:?} key={} {:?}", c.ver, c.hs.iter().map(|h| hname(*h)).collect::<Vec<_>>(), c.key, c.ins.iter().map(|v| full(&v.value.get_type())).collect::<Vec<_>>());
    if !c.hs.is_empty() { l.nt() }
    let f = Function::builder(c.ver, "call").with_headers(c.hs.iter().copied()).with_inputs(ty(c.ins)).with_outputs(ty(c.ins)).build();
    let key = signing();
    let pk = key.verifying_key();
    let mut e = f.encode_external(c.ins).with_time(c.time).with_expire_at(c.expire).with_address(c.dst);
    if c.key { e.set_pubkey(&pk) }
    let Some(p) = body_model(c, f.input_id) else { bad!("model/payload", "{}", ctx()) };
    let pc = mk(&p.0, &p.1).unwrap();
    let want_hash = if c.ver >= AbiVersion::V2_3 { let mut b = addr(&IntAddr::Std(c.dst.clone())); b.extend(&p.0); *mk(&b, &p.1).unwrap().repr_hash() } else { *pc.repr_hash() };
    let build = || np("panic/call", ctx, || e.build_input());
    let u = match build()? { Ok(u) => u, Err(e) => bad!("call/error", "{e} {}", ctx()) };
    ck!(u.payload == pc, "call/payload", "{}\nimpl {}\nmodel {}", ctx(), u.payload.display_tree(), pc.display_tree());
    ckeq!((u.hash, u.expire_at, u.abi_version), (want_hash, c.expire, c.ver), "call/hash", "{}", ctx());
    let check = |got: anyhow::Result<Cell>, sig: Option<&[u8; 64]>, key: &'static str| -> R {
        let want = signed(c, &p, sig);
        match (got, want) {
            (Ok(g), Some(w)) => {
                ck!(g == w, key, "{}\nimpl {}\nmodel {}", ctx(), g.display_tree(), w.display_tree());
                let d = np("panic/decode-call", ctx, || f.decode_external_input(g.as_slice().unwrap()))?;
                match d { Ok(d) => ck!(d == c.ins, "call/decode", "{} -> {d:?}", ctx()), Err(e) => bad!("call/decode", "{e} {}\n{}", ctx(), g.display_tree()) }
            }
            (g, w) => bad!(key, "outcome {} impl={:?} model={:?}", ctx(), g.map(|_| ()), w.is_some()),
        }
        Ok(())
    };
    l.tr(8);
    check(u.fill_signature(None), None, "call/unsigned")?;
    check(u.without_signature(), None, "call/unsigned")?;
    check(u_again(&build)?.with_fake_signature(), Some(&[0; 64]), "call/fake")?;
    for sid in [None, Some(0i32), Some(1000), Some(-1), Some(i32::MIN)] {
        let mut data = sid.map(|i| i.to_be_bytes().to_vec()).unwrap_or_default();
        data.extend(want_hash.as_slice());
        ckeq!(extend_signature_with_id(want_hash.as_slice(), sid).to_vec(), data, "sign/data", "{sid:?}");
        let body = np("panic/sign", ctx, || u_again(&build).map(|u| u.sign(&key, sid)))??;
        let Ok(b) = &body else { bad!("sign/error", "{sid:?} {}", ctx()) };
        // where the version keeps the signature
        let sig: [u8; 64] = if c.ver.major == 1 { b.reference(0).unwrap().data()[..64].try_into().unwrap() } else { let (x, _) = bits_of(b); ck!(x[0] == 1, "sign/place", ""); pack(&x[1..513].to_vec()).try_into().unwrap() };
        ck!(pk.verify_strict(&data, &Signature::from_bytes(&sig)).is_ok(), "sign/verify", "{sid:?} {}", ctx());
        ckeq!(sign_with_signature_id(&key, want_hash.as_slice(), sid).to_bytes(), sig, "sign/data", "{sid:?}");
        check(body, Some(&sig), "call/signed")?;
        check(u_again(&build)?.with_signature(&Signature::from_bytes(&sig)), Some(&sig), "call/signed")?;
    }
    // messages
    let init = StateInit { code: Some(cell_of(&uint(1, 8))), ..Default::default() };
    let mut um = match np("panic/message", ctx, || e.build_message(c.dst))? { Ok(m) => m, Err(e) => bad!("message/error", "{e} {}", ctx()) };
    ckeq!((um.expire_at(), &um.dst, um.body.hash), (c.expire, c.dst, want_hash), "message/unsigned", "{}", ctx());
    for (k, st) in [None, Some(init)].into_iter().enumerate() {
        um.set_state_init(st.clone());
        for sig in [None, Some([0u8; 64]), Some([0xa5; 64])] {
            let m = match np("panic/message", ctx, || um.fill_signature(sig.as_ref()))? { Ok(m) => m, Err(e) => bad!("message/error", "{e} {}", ctx()) };
            let MsgInfo::ExtIn(info) = &m.info else { bad!("message/info", "{:?}", m.info) };
            ckeq!((&info.dst, &info.src, &m.init), (&IntAddr::Std(c.dst.clone()), &None, &st), "message/info", "{k}");
            let body = signed(c, &p, sig.as_ref()).unwrap();
            let mut cb = CellBuilder::new();
            cb.store_slice(CellSlice::apply(&m.body).unwrap()).unwrap();
            ck!(cb.build().unwrap() == body, "message/body", "{}", ctx());
            // read back as a message
            let c2 = CellBuilder::build_from(&m);
            let Ok(c2) = c2 else { bad!("message/store", "{}", ctx()) };
            let m2 = c2.parse::<Message>().map_err(|e| V { key: "message/load".into(), detail: format!("{e} {}", ctx()) })?;
            ckeq!((&m2.info, &m2.init), (&m.info, &m.init), "message/load", "");
            let d = np("panic/message", ctx, || f.decode_external_input(m2.body))?;
            // the body and the state init share a cell and fill it
            if c.ver.major == 1 && c2.reference_count() == 4 && m2.body.size_refs() == 3 && d.as_ref().is_err() {
                l.fail(V { key: "message/v1-inline-body-beside-init".into(), detail: format!("{} {d:?}", ctx()).lines().next().unwrap_or("").to_string() });
                continue;
            }
            ck!(d.as_ref().is_ok_and(|d| d == c.ins), "message/decode", "{} {d:?}", ctx());
        }
    }
    // every way to the same call
    {
        let other = StdAddr::new(3, HashBytes([0x77; 32]));
        let mut e2 = f.encode_external(c.ins);
        e2.set_time(!c.time);
        e2.set_time(c.time);
        e2.set_expire_at(!c.expire);
        e2.set_expire_at(c.expire);
        e2.set_address(&other);
        e2.set_address(c.dst);
        let e2 = if c.key { e2.with_pubkey(&pk) } else { e2 };
        let u2 = u_again(&|| np("panic/call", ctx, || e2.build_input()))?;
        ckeq!((&u2.payload, u2.hash, u2.expire_at, u2.abi_version), (&pc, want_hash, c.expire, c.ver), "call/setters", "{}", ctx());
        // the destination of the message wins over the address given before
        let m = f.encode_external(c.ins).with_address(&other).with_time(c.time).with_expire_at(c.expire);
        let m = if c.key { m.with_pubkey(&pk) } else { m };
        let Ok(m) = np("panic/message", ctx, || m.build_message(c.dst))? else { bad!("message/error", "{}", ctx()) };
        ckeq!((m.body.hash, &m.dst, m.expire_at()), (want_hash, c.dst, c.expire), "message/address", "{}", ctx());
        let same = |x: anyhow::Result<OwnedMessage>, y: &[u8; 64], n: bool, init: &Option<StateInit>, k: &'static str| -> R {
            let y = um_fill(&m, (!n).then_some(y), init)?;
            let x = x.map_err(|e| V { key: "message/error".into(), detail: format!("{k} {e} {}", ctx()) })?;
            ck!(x.layout.is_none() && y.layout.is_none(), "message/layout", "{k}");
            ckeq!((&x.info, &x.init, cell_of_parts(&x.body)), (&y.info, &y.init, cell_of_parts(&y.body)), k, "{}", ctx());
            ckeq!(CellBuilder::build_from(&x).ok(), CellBuilder::build_from(&y).ok(), k, "{}", ctx());
            Ok(())
        };
        for init in [None, Some(StateInit { code: Some(cell_of(&uint(1, 8))), data: Some(pc.clone()), ..Default::default() })] {
            let um = || -> R<UnsignedExternalMessage> {
                let x = u_again(&build)?.with_dst(c.dst.clone());
                Ok(match &init { Some(i) => x.with_state_init(i.clone()), None => x })
            };
            let sig = [0xa5u8; 64];
            same(um()?.with_signature(&Signature::from_bytes(&sig)), &sig, false, &init, "message/with-signature")?;
            same(um()?.with_fake_signature(), &[0; 64], false, &init, "message/fake")?;
            same(um()?.without_signature(), &[0; 64], true, &init, "message/without-signature")?;
            for sid in [None, Some(-239)] {
                let sig = sign_with_signature_id(&key, want_hash.as_slice(), sid).to_bytes();
                same(um()?.sign(&key, sid), &sig, false, &init, "message/sign")?;
            }
        }
    }
    // without signature
    match np("panic/unsigned-input", ctx, || e.build_input_without_signature())? {
        Ok((x, b)) => {
            ckeq!(x, c.expire, "unsigned/expire", "");
            let d = f.decode_external_input(b.as_slice().unwrap());
            ck!(d.as_ref().is_ok_and(|d| d == c.ins), "unsigned/decode", "{} {d:?}\n{}", ctx(), b.display_tree());
            let (x, m) = match np("panic/unsigned-input", ctx, || e.build_message_without_signature(c.dst))? { Ok(m) => m, Err(e) => bad!("unsigned/message", "{e}") };
            ckeq!(x, c.expire, "unsigned/expire", "");
            let s = CellSlice::apply(&m.body).unwrap();
            ck!(f.decode_external_input(s).is_ok_and(|d| d == c.ins), "unsigned/message", "{}", ctx());
        }
        Err(er) => bad!("unsigned/error", "{er} {}", ctx()),
    }
    // wrong inputs
    let good = signed(c, &p, Some(&[1; 64])).unwrap();
    let mut g = f.clone();
    g.input_id ^= 1;
    ck!(g.decode_external_input(good.as_slice().unwrap()).is_err(), "decode/wrong-id", "{}", ctx());
    let (b, r) = bits_of(&good);
    if b.len() < 1023 && c.ins.is_empty() {
        let mut b2 = b.clone();
        b2.push(1);
        let x = mk(&b2, &r).unwrap();
        ck!(f.decode_external_input(x.as_slice().unwrap()).is_err(), "decode/leftover", "{}", ctx());
        let mut s = x.as_slice().unwrap();
        ck!(f.decode_external_input_ext(&mut s, true).is_ok() && s.size_bits() == 1, "decode/partial", "{}", ctx());
    }
    for n in (0..b.len()).step_by(if b.len() > 200 { 7 } else { 1 }) {
        let x = mk(&b[..n].to_vec(), &r).unwrap();
        let d = np("panic/decode-cut", || format!("{n} {}", ctx()), || f.decode_external_input(x.as_slice().unwrap()))?;
        ck!(d.is_err() , "decode/cut", "{n} of {} {}", b.len(), ctx());
    }
    // types of tokens
    let mut w = c.ins.to_vec();
    w.push(AbiValue::Bool(true).named("extra"));
    ck!(f.encode_external(&w).with_address(c.dst).build_input().is_err(), "call/extra-token", "{}", ctx());
    w.pop();
    if !w.is_empty() {
        w[0].value = AbiValue::Int(77, BigInt::from(1));
        ck!(f.encode_external(&w).with_address(c.dst).build_input().is_err(), "call/wrong-type", "{}", ctx());
        ck!(f.encode_internal_input(&w).is_err() && f.encode_output(&w).is_err(), "call/wrong-type", "{}", ctx());
    }
    ckeq!(f.encode_external(c.ins).with_time(c.time).build_input().is_ok(), c.ver < AbiVersion::V2_3, "call/no-address", "{}", ctx());
    Ok(())
}
fn um_fill(m: &UnsignedExternalMessage, sig: Option<&[u8; 64]>, init: &Option<StateInit>) -> R<OwnedMessage> {
    let mut x = m.fill_signature(sig).map_err(|e| V { key: "message/error".into(), detail: e.to_string() })?;
    x.init = init.clone();
    Ok(x)
}
fn cell_of_parts(p: &CellSliceParts) -> Cell {
    let mut cb = CellBuilder::new();
    cb.store_slice(CellSlice::apply(p).unwrap()).unwrap();
    cb.build().unwrap()
}
fn u_again(build: &dyn Fn() -> R<anyhow::Result<UnsignedBody>>) -> R<UnsignedBody> { build()?.map_err(|e| V { key: "call/error".into(), detail: e.to_string() }) }
fn bits_of(c: &Cell) -> (B, Vec<Cell>) { (from_bytes(c.data(), c.bit_len() as usize), (0..c.reference_count()).map(|i| c.reference_cloned(i).unwrap()).collect()) }

fn internal(ver: AbiVersion, ins: &[NamedAbiValue], l: &mut L) -> R {
    l.ev();
    l.st(1);
    l.tr(6);
    let ctx = || format!("{ver} {:?}", ins.iter().map(|v| full(&v.value.get_type())).collect::<Vec<_>>());
    let m = M { ver, zero: 1 };
    let model = |id: u32| { let mut v = vec![AbiValue::Uint(32, BigUint::from(id))]; v.extend(ins.iter().map(|v| v.value.clone())); m.cell(&v) };
    let f = Function::builder(ver, "call").with_inputs(ty(ins)).with_outputs(ty(ins)).build();
    let ev = Event::builder(ver, "call").with_inputs(ty(ins)).build();
    let b = |r: anyhow::Result<CellBuilder>| r.ok().and_then(|b| b.build().ok());
    let (i, o, e) = np("panic/internal", ctx, || (b(f.encode_internal_input(ins)), b(f.encode_output(ins)), b(ev.encode_internal_input(ins))))?;
    for (k, got, id) in [("input", &i, f.input_id), ("output", &o, f.output_id), ("event", &e, ev.id)] {
        let w = model(id);
        ck!(*got == w && w.is_some(), "internal/layout", "{k} {}\nimpl {:?}\nmodel {:?}", ctx(), got.as_ref().map(|c| c.display_tree().to_string()), w.as_ref().map(|c| c.display_tree().to_string()));
    }
    let (i, o, e) = (i.unwrap(), o.unwrap(), e.unwrap());
    let s = |c: &'_ Cell| -> CellSlice<'static> { Box::leak(Box::new(c.clone())).as_slice().unwrap() };
    let dec = |k: &'static str, c: &Cell, ok: bool, f: &dyn Fn(CellSlice<'static>) -> anyhow::Result<Vec<NamedAbiValue>>| -> R {
        let d = np("panic/internal-decode", ctx, || f(s(c)))?;
        match d { Ok(d) => ck!(ok && d == ins, k, "{} {d:?}", ctx()), Err(e) => ck!(!ok, k, "{e} {}", ctx()) }
        Ok(())
    };
    let di = |s| f.decode_internal_input(s);
    let dout = |s| f.decode_output(s);
    let de = |s| ev.decode_internal_input(s);
    dec("internal/input", &i, true, &di)?;
    dec("internal/output", &o, true, &dout)?;
    dec("internal/event", &e, true, &de)?;
    dec("internal/wrong-id", &o, false, &di)?;
    dec("internal/wrong-id", &i, false, &dout)?;
    dec("internal/wrong-id", &i, ev.id == f.input_id, &de)?;
    // leftovers in the last cell of the chain: a short body only
    if i.reference_count() == 0 && i.bit_len() < 1023 {
        let (mut x, r) = bits_of(&i);
        x.push(0);
        let c = mk(&x, &r).unwrap();
        dec("internal/leftover", &c, false, &di)?;
        let mut sl = c.as_slice().unwrap();
        let d = f.decode_internal_input_ext(&mut sl, true);
        ck!(d.is_ok_and(|d| d == ins) && sl.size_bits() == 1, "internal/partial", "{}", ctx());
        let (mut xo, ro) = bits_of(&o);
        xo.push(0);
        let c = mk(&xo, &ro).unwrap();
        dec("internal/leftover", &c, false, &dout)?;
        let mut sl = c.as_slice().unwrap();
        let d = f.decode_output_ext(&mut sl, true);
        ck!(d.is_ok_and(|d| d == ins) && sl.size_bits() == 1, "internal/partial", "output {}", ctx());
        let (mut xo, ro) = bits_of(&e);
        xo.push(0);
        let c = mk(&xo, &ro).unwrap();
        dec("internal/leftover", &c, false, &de)?;
        let mut sl = c.as_slice().unwrap();
        let d = ev.decode_internal_input_ext(&mut sl, true);
        ck!(d.is_ok_and(|d| d == ins) && sl.size_bits() == 1, "internal/partial", "event {}", ctx());
        for n in 0..x.len() - 1 { dec("internal/cut", &mk(&x[..n].to_vec(), &r).unwrap(), false, &di)? }
    }
    for id in [0u32, 1, 0x8000_0000, u32::MAX] {
        ck!(b(Function::encode_internal_msg_body(ver, id, ins)) == model(id), "internal/raw-body", "{id} {}", ctx());
    }
    // a relaxed internal message
    let dst = std_addr(4);
    for bounce in [false, true] {
        let msg = match f.encode_internal_message(ins, dst.clone(), Tokens::new(12345), bounce, None) { Ok(m) => m, Err(er) => bad!("internal/message", "{er}") };
        let RelaxedMsgInfo::Int(info) = &msg.info else { bad!("internal/message", "{:?}", msg.info) };
        ckeq!((&info.dst, info.bounce, info.value.tokens, info.value.other.is_empty(), &info.src, msg.init.is_none()), (&dst, bounce, Tokens::new(12345), true, &None, true), "internal/message", "{}", ctx());
        let mut cb = CellBuilder::new();
        cb.store_slice(CellSlice::apply(&msg.body).unwrap()).unwrap();
        ck!(cb.build().unwrap() == i, "internal/message", "{}", ctx());
    }
    // fields
    let c = Contract { abi_version: ver, headers: Arc::from([].as_slice()), functions: Default::default(), events: Default::default(), init_data: Default::default(), fields: Arc::from(ty(ins)) };
    let fc = b(c.encode_fields(ins));
    ck!(fc == m.cell(&ins.iter().map(|v| v.value.clone()).collect::<Vec<_>>()), "fields/layout", "{}", ctx());
    let fc = fc.unwrap();
    dec("fields/decode", &fc, true, &|s| c.decode_fields(s))?;
    if fc.reference_count() == 0 && fc.bit_len() < 1023 {
        let (mut x, r) = bits_of(&fc);
        x.push(1);
        let xc = mk(&x, &r).unwrap();
        dec("fields/leftover", &xc, false, &|s| c.decode_fields(s))?;
        let mut sl = xc.as_slice().unwrap();
        let d = c.decode_fields_ext(&mut sl, true);
        ck!(d.is_ok_and(|d| d == ins) && sl.size_bits() == 1, "fields/partial", "{}", ctx());
        for n in 0..x.len() - 1 { dec("fields/cut", &mk(&x[..n].to_vec(), &r).unwrap(), false, &|s| c.decode_fields(s))? }
    }
    // other tokens than the declared ones
    for k in 0..=ins.len() {
        let mut t = ins.to_vec();
        if k < ins.len() { t.remove(k); } else { t.push(AbiValue::Bool(true).named("extra")) }
        ck!(c.encode_fields(&t).is_err() && f.encode_internal_input(&t).is_err() && f.encode_output(&t).is_err() && ev.encode_internal_input(&t).is_err(), "internal/wrong-tokens", "{k} {}", ctx());
    }
    Ok(())
}

// ---- initial data --------------------------------------------------------
fn init_fields() -> Vec<(u64, NamedAbiType, Vec<AbiValue>)> {
    use AbiValue as A;
    vec![
        (1, AbiType::Uint(64).named("a"), vec![A::Uint(64, BigUint::from(0u8)), A::Uint(64, two(64) - 1u8)]),
        (2, AbiType::Address.named("b"), vec![A::Address(Box::new(IntAddr::Std(StdAddr::default()))), A::Address(Box::new(std_addr(1)))]),
        (100, AbiType::Optional(Arc::new(AbiType::Cell)).named("c"), vec![A::Optional(Arc::new(AbiType::Cell), None), A::Optional(Arc::new(AbiType::Cell), Some(Box::new(A::Cell(cell_of(&uint(5, 3))))))]),
        (u64::MAX, AbiType::unnamed_tuple([AbiType::Bool, AbiType::Bytes]).named("d"), vec![A::unnamed_tuple(vec![A::Bool(false), A::Bytes(tycho_bytes(vec![]))]), A::unnamed_tuple(vec![A::Bool(true), A::Bytes(tycho_bytes(vec![1, 2, 3]))])]),
    ]
}
fn data_model(m: &BTreeMap<u64, (B, Vec<Cell>)>) -> Cell {
    let mut v: Vec<(B, Val)> = m.iter().map(|(k, (b, r))| (uint(*k as u128, 64), Val { bits: b.clone(), refs: r.clone() })).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    let d = canon(&v, 64).unwrap();
    mk(&vec![d.is_some() as u8], &d.into_iter().collect::<Vec<_>>()).unwrap()
}
fn init_data(ver: AbiVersion, set: usize, vals: usize, upd: usize, pk2: bool, l: &mut L) -> R {
    l.ev();
    l.st(1);
    l.tr(3);
    let fs = init_fields();
    let m = M { ver, zero: 1 };
    let c = json!({"version": ver.to_string(), "functions": [], "data": fs.iter().map(|(k, t, _)| { let mut j = js(t); j["key"] = json!(k); j }).collect::<Vec<_>>()}).to_string();
    let c: Contract = match np("panic/contract", || c.clone(), || serde_json::from_str(&c))? { Ok(c) => c, Err(e) => bad!("init/contract", "{e} {c}") };
    ckeq!(c.init_data.iter().map(|(n, (k, t))| (n.to_string(), *k, t.clone())).collect::<std::collections::HashSet<_>>(), fs.iter().map(|(k, t, _)| (t.name.to_string(), *k, t.clone())).collect(), "init/contract", "");
    let key = signing().verifying_key();
    let key2 = SigningKey::from_bytes(&[9; 32]).verifying_key();
    let tok = |mask: usize, v: usize| -> Vec<NamedAbiValue> { (0..4).filter(|i| mask >> i & 1 == 1).map(|i| fs[i].2[v >> i & 1].clone().named(fs[i].1.name.to_string())).collect() };
    let put = |d: &mut BTreeMap<u64, (B, Vec<Cell>)>, mask: usize, v: usize| { for i in (0..4).filter(|i| mask >> i & 1 == 1) { d.insert(fs[i].0, m.tuple(&[fs[i].2[v >> i & 1].clone()]).unwrap()); } };
    let kb = |k: &ed25519_dalek::VerifyingKey| (from_bytes(k.as_bytes(), 256), vec![]);
    let mut d = BTreeMap::new();
    put(&mut d, 15, 0);
    put(&mut d, set, vals);
    d.insert(0, kb(&key));
    let ctx = || format!("{ver} set={set:04b} vals={vals:04b} upd={upd:04b} pk={pk2}");
    let enc = match np("panic/init", ctx, || c.encode_init_data(&key, &tok(set, vals)))? { Ok(x) => x, Err(e) => bad!("init/encode", "{e} {}", ctx()) };
    ck!(enc == data_model(&d), "init/layout", "{}\n{}", ctx(), enc.display_tree());
    let read = |x: &Cell, mask: usize| -> R {
        let r = np("panic/init-decode", ctx, || c.decode_init_data(x.as_ref()))?;
        match r { Ok(mut r) => { r.sort_by(|a, b| a.name.cmp(&b.name)); let mut w = vec![]; for i in 0..4 { w.push(fs[i].2[mask >> i & 1].clone().named(fs[i].1.name.to_string())) } ck!(r == w, "init/decode", "{} {r:?}", ctx()) } Err(e) => bad!("init/decode", "{e} {}", ctx()) }
        Ok(())
    };
    read(&enc, set & vals)?;
    // update with inverted values
    let up = match np("panic/init-update", ctx, || c.update_init_data(pk2.then_some(&key2), &tok(upd, !vals), &enc))? { Ok(x) => x, Err(e) => bad!("init/update", "{e} {}", ctx()) };
    put(&mut d, upd, !vals);
    if pk2 { d.insert(0, kb(&key2)); }
    ck!(up == data_model(&d), "init/update", "{}\n{}", ctx(), up.display_tree());
    read(&up, (set & vals & !upd) | (upd & !vals))?;
    // bad items
    let stranger = vec![AbiValue::Bool(true).named("zz")];
    let wrong = vec![AbiValue::Bool(true).named("a")];
    for t in [stranger, wrong] { ck!(c.encode_init_data(&key, &t).is_err() && c.update_init_data(None, &t, &enc).is_err(), "init/bad-token", "{t:?}") }
    let mut d2 = d.clone();
    d2.remove(&2);
    ck!(c.decode_init_data(data_model(&d2).as_ref()).is_err(), "init/missing", "");
    ck!(c.update_init_data(None, &[], &cell_of(&[])).is_err(), "init/bad-data", "");
    Ok(())
}

// ---- derive macros -------------------------------------------------------
mod der {
    use super::*;
    #[derive(IntoAbi, FromAbi, WithAbiType, Debug, Clone, PartialEq)]
    pub struct Named { pub plain: u32, #[abi(name = "renamed")] pub other: Option<bool>, pub r#type: Vec<(u8, i16)>, pub nested: Tup<Cell> }
    #[derive(IntoAbi, FromAbi, WithAbiType, Debug, Clone, PartialEq)]
    pub struct Tup<T>(pub T, pub BTreeMap<HashBytes, Tokens>);
    #[derive(IntoAbi, FromAbi, WithAbiType, Debug, Clone, PartialEq)]
    pub struct Custom { #[abi(with = "super::der_mod")] pub x: u16, #[abi(abi_type_with = "super::der_mod::abi_type", into_abi_with = "super::der_mod::into_abi", as_abi_with = "super::der_mod::as_abi", from_abi_with = "super::der_mod::from_abi")] pub y: u16 }
}
pub mod der_mod {
    use super::*;
    pub fn abi_type() -> AbiType { AbiType::Bool }
    pub fn into_abi(x: u16) -> AbiValue { AbiValue::Bool(x > 0) }
    pub fn as_abi(x: &u16) -> AbiValue { AbiValue::Bool(*x > 0) }
    pub fn from_abi(v: AbiValue) -> anyhow::Result<u16> { Ok(bool::from_abi(v)? as u16) }
}
fn derives(l: &mut L) -> R {
    use AbiValue as A;
    let u = |n: u16, v: u64| A::Uint(n, BigUint::from(v));
    let tt = AbiType::Tuple(Arc::from([AbiType::Uint(8).named("value0"), AbiType::Int(16).named("value1")].as_slice()));
    for (k, opt) in [None, Some(false), Some(true)].into_iter().enumerate() { for nv in 0..3usize { for nm in 0..3u8 {
        l.ev();
        l.tr(4);
        let cell = cell_of(&uint(k as u128, 9));
        let map: BTreeMap<HashBytes, Tokens> = (0..nm).map(|i| (HashBytes([i; 32]), Tokens::new(i as u128 * 1000))).collect();
        let v = der::Named { plain: 7 + k as u32, other: opt, r#type: (0..nv).map(|i| (i as u8, -(i as i16))).collect(), nested: der::Tup(cell.clone(), map.clone()) };
        let want = A::Tuple(vec![
            u(32, 7 + k as u64).named("plain"),
            A::Optional(Arc::new(AbiType::Bool), opt.map(|x| Box::new(A::Bool(x)))).named("renamed"),
            A::Array(Arc::new(tt.clone()), (0..nv).map(|i| A::Tuple(vec![u(8, i as u64).named("value0"), A::Int(16, BigInt::from(-(i as i64))).named("value1")])).collect()).named("type"),
            A::Tuple(vec![A::Cell(cell).named("value0"), A::Map(PlainAbiType::Uint(256), Arc::new(AbiType::Token), map.iter().map(|(k, v)| (PlainAbiValue::Uint(256, BigUint::from_bytes_be(&k.0)), A::Token(*v))).collect()).named("value1")]).named("nested"),
        ]);
        let got = v.as_abi();
        let AbiValue::Tuple(items) = &got else { bad!("derive/value", "{got:?}") };
        // the name of a raw identifier field is not judged
        let norm = |v: &A| match v { A::Tuple(i) => A::Tuple(i.iter().map(|n| if &*n.name == "r#type" { n.value.clone().named("type") } else { n.clone() }).collect()), x => x.clone() };
        ck!(norm(&got) == want && items.len() == 4, "derive/value", "{got:?}");
        ckeq!(v.clone().into_abi(), got, "derive/value", "");
        ck!(got.has_type(&der::Named::abi_type()) && got.get_type() == der::Named::abi_type(), "derive/type", "{:?}", der::Named::abi_type());
        ckeq!(der::Named::from_abi(got.clone()).ok(), Some(v), "derive/back", "");
        let A::Tuple(mut items) = got else { unreachable!() };
        items.pop();
        ck!(der::Named::from_abi(A::Tuple(items)).is_err() && der::Named::from_abi(A::Bool(true)).is_err(), "derive/short", "");
    } } }
    for x in [0u16, 1] { for y in [0u16, 1] {
        l.ev();
        let v = der::Custom { x, y };
        let w = A::Tuple(vec![A::Bool(x > 0).named("x"), A::Bool(y > 0).named("y")]);
        ckeq!((v.as_abi(), v.clone().into_abi(), der::Custom::abi_type()), (w.clone(), w.clone(), w.get_type()), "derive/with", "");
        ckeq!(der::Custom::from_abi(w).ok(), Some(v), "derive/with", "");
    } }
    Ok(())
}

fn run(r: &Run) {
    // all types
    let lt = leaf_types();
    let d1: Vec<AbiType> = lt.iter().flat_map(|t| (0..WRAPS).filter_map(|k| wrap(t, k))).collect();
    let deep = r.pick(3u32, 4u32);
    r.section("types", (lt.len() + d1.len()) as u64 * (0..deep).map(|d| (WRAPS as u64).pow(d)).last().unwrap(), |i, l| {
        let mut ix = Ix(i);
        let n = ix.take(lt.len() as u64 + d1.len() as u64) as usize;
        let mut t = if n < lt.len() { lt[n].clone() } else { d1[n - lt.len()].clone() };
        let first = ix.0 == 0;
        if first { return one_type(&t, l) }
        l.nt();
        for _ in 1..deep { if ix.0 == 0 { break } let k = ix.take(WRAPS as u64) as usize; t = wrap(&t, k).unwrap() }
        one_type(&t, l)
    });
    // texts
    let tx = texts();
    let alpha: Vec<char> = "01259+-()[], _uintbolcesatrgmvyxdpfkT\u{451}\0".chars().collect();
    r.section("type-texts", tx.len() as u64, |i, l| {
        let s: Vec<char> = tx[i as usize].chars().collect();
        let go = |v: Vec<char>, l: &mut L| { l.st(1); parse_one(&v.into_iter().collect::<String>(), l) };
        go(s.clone(), l)?;
        let two_edits = r.pick(false, true);
        let edits = |s: &[char]| -> Vec<Vec<char>> {
            let mut out = vec![];
            for p in 0..=s.len() {
                if p < s.len() {
                    let mut v = s.to_vec(); v.remove(p); out.push(v);
                    let mut v = s.to_vec(); v.insert(p, s[p]); out.push(v);
                    if p + 1 < s.len() { let mut v = s.to_vec(); v.swap(p, p + 1); out.push(v) }
                    for c in &alpha { let mut v = s.to_vec(); v[p] = *c; out.push(v) }
                    out.push(s[..p].to_vec());
                    out.push(s[p..].to_vec());
                }
                for c in &alpha { let mut v = s.to_vec(); v.insert(p, *c); out.push(v) }
            }
            out
        };
        for v in edits(&s) {
            if two_edits && s.len() <= 14 { for w in edits(&v) { go(w, l)? } }
            go(v, l)?
        }
        Ok(())
    });
    // wide numbers
    r.section("type-numbers", 7, |i, l| {
        let (p, q) = [("uint", ""), ("int", ""), ("varuint", ""), ("varint", ""), ("fixedbytes", ""), ("bool[", "]"), ("map(uint", ",bool)")][i as usize];
        for n in (0..1100u64).chain(65530..65540) { l.st(1); parse_one(&format!("{p}{n}{q}"), l)? }
        Ok(())
    });
    // names do not matter
    let sm: Vec<AbiType> = { let l = [AbiType::Bool, AbiType::Uint(8), AbiType::Int(8), AbiType::Uint(9), AbiType::VarUint(nz(8)), AbiType::VarInt(nz(8)), AbiType::FixedBytes(8), AbiType::Cell, AbiType::Address, AbiType::Bytes, AbiType::String, AbiType::Token];
        let mut v = l.to_vec();
        let mut one = vec![];
        for t in &l[..6] { for k in 0..WRAPS { one.push(wrap(t, k).unwrap()) } one.push(AbiType::Tuple(Arc::from([t.clone().named("y")].as_slice()))); }
        for t in [&one[9], &one[12], &one[10], &one[0], &one[22]] { for k in 0..WRAPS { v.push(wrap(t, k).unwrap()) } }
        v.extend(one);
        v };
    r.section("without-name", sm.len() as u64, |i, l| {
        let a = &sm[i as usize];
        for b in &sm {
            l.ev();
            let want = erase(a) == erase(b);
            let (wa, wb) = (WithoutName(a.clone()), WithoutName(b.clone()));
            ckeq!(wa == wb, want, "without-name/eq", "{a:?} {b:?}");
            if want { ckeq!(hash(&wa), hash(&wb), "without-name/hash", "{a:?} {b:?}"); if a != b { l.nt() } }
            let (na, nb) = (a.clone().named("p"), b.clone().named("q"));
            ckeq!(na.ignore_name() == nb.ignore_name(), want, "without-name/eq", "{a:?} {b:?}");
            ckeq!(hash(&na.ignore_name()), hash(&a.ignore_name()), "without-name/hash", "{a:?}");
            ckeq!([na.clone(), nb.clone()].as_slice().ignore_name() == [nb, na].as_slice().ignore_name(), want, "without-name/slice", "");
            let maps: Vec<Vec<(u8, &AbiType)>> = vec![vec![], vec![(1, a)], vec![(1, b)], vec![(2, a)], vec![(1, a), (2, b)], vec![(1, b), (2, a)], vec![(1, a), (2, b), (3, a)]];
            for x in &maps { for y in &maps {
                let er = |m: &Vec<(u8, &AbiType)>| m.iter().map(|(k, t)| (*k, erase(t))).collect::<Vec<_>>();
                let want = er(x) == er(y);
                let h = |m: &Vec<(u8, &AbiType)>| WithoutName(m.iter().map(|(k, t)| (*k, (*t).clone())).collect::<std::collections::HashMap<_, _>>());
                let t = |m: &Vec<(u8, &AbiType)>| WithoutName(m.iter().map(|(k, t)| (*k, (*t).clone())).collect::<std::collections::BTreeMap<_, _>>());
                let v = |m: &Vec<(u8, &AbiType)>| WithoutName(m.iter().map(|(_, t)| (*t).clone()).collect::<Vec<_>>());
                ckeq!(h(x) == h(y), want, "without-name/hash-map", "{x:?} {y:?}");
                ckeq!(t(x) == t(y), want, "without-name/map", "{x:?} {y:?}");
                ckeq!(v(x) == v(y), er(x).iter().map(|a| &a.1).eq(er(y).iter().map(|a| &a.1)), "without-name/vec", "{x:?} {y:?}");
                l.ev();
            } }
            let (va, vb) = (a.make_default_value(), b.make_default_value());
            ckeq!(va.ignore_name() == vb.ignore_name(), want, "without-name/value", "{a:?} {b:?}");
        }
        Ok(())
    });
    // identifiers
    let hs = header_sets();
    let ps = params();
    let names = ["f", "constructor", "onBounce_\u{451}", ""];
    r.section("identifiers", (VERSIONS.len() * hs.len() * ps.len() * ps.len() * names.len() * 3) as u64, |i, l| {
        let mut ix = Ix(i);
        let v = VERSIONS[ix.take(VERSIONS.len() as u64) as usize];
        let h = &hs[ix.take(hs.len() as u64) as usize];
        let (a, b) = (&ps[ix.take(ps.len() as u64) as usize], &ps[ix.take(ps.len() as u64) as usize]);
        let n = names[ix.take(names.len() as u64) as usize];
        ids(v, h, a, b, n, [None, Some(0xffff_fffe), Some(5)][ix.take(3) as usize], l)
    });
    // contract texts
    r.section("contract-texts", 1, |_, l| {
        let parse = |s: J| np("panic/contract", || s.to_string(), || serde_json::from_str::<Contract>(&s.to_string()).map(|c| c.abi_version).ok());
        for (s, w) in [
            (json!({"ABI version": 2, "functions": []}), Some(AbiVersion::new(2, 0))),
            (json!({"ABI version": 1, "functions": []}), Some(AbiVersion::new(1, 0))),
            (json!({"ABI version": 1, "version": "2.3", "functions": []}), Some(AbiVersion::new(2, 3))),
            (json!({"version": "2.10", "functions": []}), Some(AbiVersion::new(2, 10))),
            (json!({"functions": []}), None),
            (json!({"version": "2", "functions": []}), None),
            (json!({"version": "2.", "functions": []}), None),
            (json!({"version": "2.256", "functions": []}), None),
            (json!({"version": "2.3.1", "functions": []}), None),
            (json!({"version": "2.3"}), None),
            (json!({"version": "2.3", "header": ["time", "expire", "pubkey"], "functions": []}), Some(AbiVersion::new(2, 3))),
            (json!({"version": "2.3", "header": ["timex"], "functions": []}), None),
            (json!({"version": "2.3", "functions": [{"name": "a", "id": "0x12"}]}), Some(AbiVersion::new(2, 3))),
            (json!({"version": "2.3", "functions": [{"name": "a", "id": "12"}]}), None),
            (json!({"version": "2.3", "functions": [{"name": "a", "id": "0x123456789"}]}), None),
            (json!({"version": "2.3", "functions": [{"name": "a", "id": "0x"}]}), None),
            (json!({"version": "2.3", "functions": [{"name": "a", "inputs": [{"name": "x", "type": "uint"}]}]}), None),
            (json!({"version": "2.3", "functions": [{"inputs": []}]}), None),
            (json!({"version": "2.3", "functions": [], "events": [{"name": "a", "inputs": [{"name": "x", "type": "tuple"}]}]}), None),
            (json!({"version": "2.3", "functions": [], "data": [{"key": 1, "name": "x", "type": "uint8"}]}), Some(AbiVersion::new(2, 3))),
            (json!({"version": "2.3", "functions": [], "data": [{"name": "x", "type": "uint8"}]}), None),
            (json!({"version": "2.3", "functions": [], "data": [{"key": -1, "name": "x", "type": "uint8"}]}), None),
        ] {
            l.ev();
            ckeq!(parse(s.clone())?, w, "contract/text", "{s}");
        }
        for h in HT { for s in ["time", "expire", "pubkey", "Time", "", "public_key", "pubkey "] { l.ev(); ckeq!(AbiHeaderType::from_str(s).ok() == Some(h), s == hname(h), "header/text", "{s}"); } ckeq!(h.to_string(), hname(h), "header/text", ""); }
        for a in 0..=255u8 { for b in [0u8, 1, 9, 10, 255] { let v = AbiVersion::new(a, b); ckeq!(v.to_string(), format!("{a}.{b}"), "version/text", ""); ckeq!(AbiVersion::from_str(&v.to_string()).ok(), Some(v), "version/text", ""); } }
        for s in ["", ".", "1", "1.", ".1", "256.0", "1.256", "a.b", "1.2.3", " 1.2", "-1.0"] { ck!(AbiVersion::from_str(s).is_err(), "version/text", "{s:?}") }
        Ok(())
    });
    // calls
    let ins = inputs();
    let dsts = [StdAddr::new(0, HashBytes([0x11; 32])), StdAddr::new(-1, HashBytes([0xfe; 32])), StdAddr { anycast: Some(Box::new(anyc(9, 30))), workchain: 5, address: HashBytes([0x5c; 32]) }];
    let times = [(0u64, 0u32), (u64::MAX, u32::MAX), (1_700_000_000_123, 1_700_000_060)];
    r.section("calls", (VERSIONS.len() * hs.len() * ins.len() * 2) as u64 * r.pick(1, 9), |i, l| {
        let mut ix = Ix(i);
        let ver = VERSIONS[ix.take(VERSIONS.len() as u64) as usize];
        let h = &hs[ix.take(hs.len() as u64) as usize];
        let key = ix.take(2) == 1;
        let t = named(ins[ix.take(ins.len() as u64) as usize].clone());
        let k = if r.quick() { i } else { ix.0 };
        let (time, expire) = times[(k % 3) as usize];
        call(&Call { ver, hs: h, key, ins: &t, time, expire, dst: &dsts[(k / 3 % 3) as usize] }, l)
    });
    // default times
    r.section("default-times", VERSIONS.len() as u64, |i, l| {
        // the clock, where no time is given
        let fnow = Function::builder(VERSIONS[i as usize], "x").with_headers([AbiHeaderType::Time, AbiHeaderType::Expire]).build();
        let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64;
        for given in [None, Some(77u32)] {
            l.ev();
            let a = now();
            let e = fnow.encode_external(&[]).with_address(&dsts[0]);
            let e = match given { Some(x) => e.with_expire_at(x), None => e };
            let Ok(u) = np("panic/now", || String::new(), || e.build_input())? else { bad!("call/now", "error") };
            let b = now();
            let (x, _) = bits_of(&u.payload);
            let at = if VERSIONS[i as usize].major == 1 { 32 } else { 0 };
            let num = |x: &[u8]| x.iter().fold(0u64, |a, b| a << 1 | *b as u64);
            let (t, ex) = (num(&x[at..at + 64]), num(&x[at + 64..at + 96]) as u32);
            ck!(a <= t && t <= b, "call/now", "{a} {t} {b}");
            ckeq!((ex, u.expire_at), (given.unwrap_or((t / 1000) as u32 + 60), ex), "call/now-expire", "{given:?}");
        }
        let f = Function::builder(VERSIONS[i as usize], "x").with_headers([AbiHeaderType::Time, AbiHeaderType::Expire]).build();
        let d = &dsts[0];
        for t in [0u64, 999, 1000, 59_999, 1_700_000_000_999, (u32::MAX as u64 - 60) * 1000 + 999] {
            l.ev();
            let u = np("panic/expire", || t.to_string(), || f.encode_external(&[]).with_time(t).with_address(d).build_input())?;
            ckeq!(u.ok().map(|u| u.expire_at), Some((t / 1000) as u32 + 60), "call/default-expire", "{t}");
        }
        for t in [(u32::MAX as u64 - 59) * 1000, u32::MAX as u64 * 1000, 1 << 45, u64::MAX] {
            l.ev();
            l.nt();
            np("panic/expire", || t.to_string(), || f.encode_external(&[]).with_time(t).with_address(d).build_input().is_ok())?;
        }
        Ok(())
    });
    // internal bodies and fields: call inputs and all leaf values
    let mut more = ins.clone();
    for (_, vs) in leaves() { for v in vs { more.push(vec![v]) } }
    for (t, vs) in leaves().into_iter().step_by(3) { for (_, c) in containers(&t, &vs) { more.extend(c.into_iter().map(|v| vec![v])) } }
    r.section("internal", (VERSIONS.len() * more.len()) as u64, |i, l| {
        let mut ix = Ix(i);
        let ver = VERSIONS[ix.take(VERSIONS.len() as u64) as usize];
        let vs = more[ix.0 as usize].clone();
        // values which the layout model leaves open
        if vs.iter().any(|v| matches!(v, AbiValue::VarUint(_, x) if x.bits() == 0) || matches!(v, AbiValue::VarInt(_, x) if x.magnitude().bits() == 0)) || (M { ver, zero: 1 }).cell(&vs) != (M { ver, zero: 0 }).cell(&vs) || (M { ver, zero: 1 }).cell(&vs).is_none() { return Ok(()) }
        internal(ver, &named(vs), l)
    });
    // initial data
    r.section("init-data", VERSIONS.len() as u64 * 16 * 16 * 16 * 2, |i, l| {
        let mut ix = Ix(i);
        let ver = VERSIONS[ix.take(VERSIONS.len() as u64) as usize];
        let (a, b, c) = (ix.take(16) as usize, ix.take(16) as usize, ix.take(16) as usize);
        init_data(ver, a, b, c, ix.0 == 1, l)
    });
    r.section("derive", 1, |_, l| derives(l));
}
