//! gRPC messages of a dynamic service: built from CEL (C12) and read into CEL (C13), under one schema that
//! has every field shape of proto3.
use crate::env::*;
use crate::fw::*;
use crate::gen::lit;
use crate::wire::{put_varint, Msg, W};
use proxy_wasm::sim::{self, Ev as SimEv};
use serde_json::json;

// ---------------------------------------------------------------- schema
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Double,
    Float,
    Int64,
    Uint64,
    Int32,
    Fixed64,
    Fixed32,
    Bool,
    Str,
    Bytes,
    Uint32,
    Enum,
    Sfixed32,
    Sfixed64,
    Sint32,
    Sint64,
    Leaf,
    Rich,
    /// of another package, by the same short name
    Other,
    /// declared within Rich, by the same short name
    Inner,
    /// without fields
    Nil,
    Ts,
    /// google.protobuf.Duration, a message like any other
    Dur,
    Struct,
    Value,
    List,
}
use K::*;
pub const SCALARS: [(K, &str, u64); 16] = [
    (Double, "double", 1),
    (Float, "float", 2),
    (Int64, "int64", 3),
    (Uint64, "uint64", 4),
    (Int32, "int32", 5),
    (Fixed64, "fixed64", 6),
    (Fixed32, "fixed32", 7),
    (Bool, "bool", 8),
    (Str, "string", 9),
    (Bytes, "bytes", 12),
    (Uint32, "uint32", 13),
    (Enum, "enum", 14),
    (Sfixed32, "sfixed32", 15),
    (Sfixed64, "sfixed64", 16),
    (Sint32, "sint32", 17),
    (Sint64, "sint64", 18),
];
pub const ENUM: [i64; 6] = [0, 1, 7, -1, 2147483647, -2147483648];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Card {
    One,
    Opt,
    Rep,
    Map(K),
    Oneof,
}
#[derive(Clone, Debug)]
pub struct Fd {
    pub name: String,
    pub num: u32,
    pub kind: K,
    pub card: Card,
}
thread_local! {
    static RICH: Vec<Fd> = rich();
    static LEAF: Vec<Fd> = vec![
        Fd { name: "name".into(), num: 1, kind: Str, card: Card::One },
        Fd { name: "n".into(), num: 2, kind: Int64, card: Card::One },
        Fd { name: "tags".into(), num: 3, kind: Str, card: Card::Rep },
        Fd { name: "flag".into(), num: 4, kind: Bool, card: Card::Opt },
    ];
}
fn rich() -> Vec<Fd> {
    let mut v = vec![];
    let mut add = |name: String, num: u32, kind: K, card: Card| v.push(Fd { name, num, kind, card });
    for (i, (k, n, _)) in SCALARS.iter().enumerate() {
        add(format!("s_{n}"), 1 + i as u32, *k, Card::One);
        add(format!("o_{n}"), 21 + i as u32, *k, Card::Opt);
        add(format!("r_{n}"), 41 + i as u32, *k, Card::Rep);
    }
    add("child".into(), 61, Rich, Card::One);
    add("kids".into(), 62, Rich, Card::Rep);
    add("leaf".into(), 63, Leaf, Card::One);
    add("leaves".into(), 64, Leaf, Card::Rep);
    add("p_int".into(), 71, Int32, Card::Oneof);
    add("p_str".into(), 72, Str, Card::Oneof);
    add("p_leaf".into(), 73, Leaf, Card::Oneof);
    add("p_bool".into(), 74, Bool, Card::Oneof);
    let vals = [Str, Leaf, Bytes, Enum, Double, Int32, Uint64, Bool, Ts, Float, Sint64, Rich];
    for (i, k) in [Str, Int32, Int64, Uint32, Uint64, Sint32, Sint64, Fixed32, Fixed64, Sfixed32, Sfixed64, Bool].iter().enumerate() {
        add(format!("m{i}"), 81 + i as u32, vals[i], Card::Map(*k));
    }
    add("ms".into(), 93, Leaf, Card::Map(Str));
    add("mr".into(), 94, Int64, Card::Map(Str));
    add("ts".into(), 101, Ts, Card::One);
    add("tss".into(), 102, Ts, Card::Rep);
    add("st".into(), 103, Struct, Card::One);
    add("va".into(), 104, Value, Card::One);
    add("li".into(), 105, List, Card::One);
    add("vas".into(), 106, Value, Card::Rep);
    add("du".into(), 107, Dur, Card::One);
    add("dus".into(), 108, Dur, Card::Rep);
    add("ot".into(), 109, Other, Card::One);
    add("ots".into(), 110, Other, Card::Rep);
    add("inn".into(), 111, Inner, Card::One);
    add("inm".into(), 112, Inner, Card::Map(Str));
    add("nil".into(), 113, Nil, Card::One);
    add("nils".into(), 114, Nil, Card::Rep);
    add("far".into(), 200_000, Int32, Card::One);
    v
}
pub fn fields(k: K) -> Vec<Fd> {
    match k {
        Leaf => LEAF.with(|f| f.clone()),
        Other => vec![
            Fd { name: "name".into(), num: 1, kind: Uint32, card: Card::One },
            Fd { name: "other".into(), num: 2, kind: Bytes, card: Card::Opt },
            Fd { name: "tags".into(), num: 3, kind: Bool, card: Card::Map(Str) },
        ],
        Inner => vec![Fd { name: "name".into(), num: 1, kind: Bool, card: Card::Opt }, Fd { name: "up".into(), num: 2, kind: Rich, card: Card::One }, Fd { name: "ups".into(), num: 3, kind: Rich, card: Card::Rep }],
        Nil => vec![],
        Dur => vec![Fd { name: "seconds".into(), num: 1, kind: Int64, card: Card::One }, Fd { name: "nanos".into(), num: 2, kind: Int32, card: Card::One }],
        _ => RICH.with(|f| f.clone()),
    }
}
fn type_name(k: K) -> Option<&'static str> {
    Some(match k {
        Enum => ".t.v1.E",
        Leaf => ".t.v1.Leaf",
        Rich => ".t.v1.Rich",
        Other => ".t.v2.Leaf",
        Inner => ".t.v1.Rich.Leaf",
        Nil => ".t.v1.Nil",
        Ts => ".google.protobuf.Timestamp",
        Dur => ".google.protobuf.Duration",
        Struct => ".google.protobuf.Struct",
        Value => ".google.protobuf.Value",
        List => ".google.protobuf.ListValue",
        _ => return None,
    })
}
fn type_num(k: K) -> u64 {
    SCALARS.iter().find(|x| x.0 == k).map_or(11, |x| x.2)
}
fn fdp(name: &str, num: u32, label: u64, k: K, tn: Option<String>) -> Msg {
    let mut m = Msg::new().s(1, name).v(3, num as u64).v(4, label).v(5, type_num(k));
    if let Some(t) = tn.or(type_name(k).map(String::from)) {
        m = m.s(6, &t);
    }
    m
}
fn camel(s: &str) -> String {
    let mut o = String::new();
    let mut up = true;
    for c in s.chars() {
        if c == '_' {
            up = true;
        } else if up {
            o.push(c.to_ascii_uppercase());
            up = false;
        } else {
            o.push(c);
        }
    }
    o
}
fn message(full: &str, fs: &[Fd]) -> Msg {
    let name = full.rsplit('.').next().unwrap();
    let mut m = Msg::new().s(1, name);
    let mut nested = vec![];
    let mut oneofs: Vec<String> = vec![];
    if fs.iter().any(|f| f.card == Card::Oneof) {
        oneofs.push("pick".into());
    }
    for f in fs {
        let d = match f.card {
            Card::One => fdp(&f.name, f.num, 1, f.kind, None),
            Card::Opt => {
                oneofs.push(format!("_{}", f.name));
                fdp(&f.name, f.num, 1, f.kind, None).v(9, oneofs.len() as u64 - 1).v(17, 1)
            }
            Card::Oneof => fdp(&f.name, f.num, 1, f.kind, None).v(9, 0),
            Card::Rep => fdp(&f.name, f.num, 3, f.kind, None),
            Card::Map(key) => {
                let en = format!("{}Entry", camel(&f.name));
                nested.push(
                    Msg::new()
                        .s(1, &en)
                        .m(2, fdp("key", 1, 1, key, None))
                        .m(2, fdp("value", 2, 1, f.kind, None))
                        .m(7, Msg::new().v(7, 1)),
                );
                let mut x = fdp(&f.name, f.num, 3, Rich, Some(format!(".{full}.{en}")));
                x.0.retain(|y| y.0 != 6);
                x.s(6, &format!(".{full}.{en}"))
            }
        };
        m = m.m(2, d);
    }
    for n in nested {
        m = m.m(3, n);
    }
    for o in oneofs {
        m = m.m(8, Msg::new().s(1, &o));
    }
    m
}
/// google/protobuf/{timestamp,struct}.proto
fn well_known() -> Vec<Msg> {
    let ts = Msg::new().s(1, "google/protobuf/timestamp.proto").s(2, "google.protobuf").m(
        4,
        Msg::new().s(1, "Timestamp").m(2, fdp("seconds", 1, 1, Int64, None)).m(2, fdp("nanos", 2, 1, Int32, None)),
    ).s(12, "proto3");
    let entry = Msg::new().s(1, "FieldsEntry").m(2, fdp("key", 1, 1, Str, None)).m(2, fdp("value", 2, 1, Value, None)).m(7, Msg::new().v(7, 1));
    let mut fields = fdp("fields", 1, 3, Rich, Some("x".into()));
    fields.0.retain(|y| y.0 != 6);
    let fields = fields.s(6, ".google.protobuf.Struct.FieldsEntry");
    let mut nullv = fdp("null_value", 1, 1, Enum, Some("x".into()));
    nullv.0.retain(|y| y.0 != 6);
    let nullv = nullv.s(6, ".google.protobuf.NullValue");
    let st = Msg::new()
        .s(1, "google/protobuf/struct.proto")
        .s(2, "google.protobuf")
        .m(4, Msg::new().s(1, "Struct").m(2, fields).m(3, entry))
        .m(
            4,
            Msg::new()
                .s(1, "Value")
                .m(2, nullv.v(9, 0))
                .m(2, fdp("number_value", 2, 1, Double, None).v(9, 0))
                .m(2, fdp("string_value", 3, 1, Str, None).v(9, 0))
                .m(2, fdp("bool_value", 4, 1, Bool, None).v(9, 0))
                .m(2, fdp("struct_value", 5, 1, Struct, None).v(9, 0))
                .m(2, fdp("list_value", 6, 1, List, None).v(9, 0))
                .m(8, Msg::new().s(1, "kind")),
        )
        .m(4, Msg::new().s(1, "ListValue").m(2, fdp("values", 1, 3, Value, None)))
        .m(5, Msg::new().s(1, "NullValue").m(2, Msg::new().s(1, "NULL_VALUE").v(2, 0)))
        .s(12, "proto3");
    let du = Msg::new().s(1, "google/protobuf/duration.proto").s(2, "google.protobuf").m(4, message("google.protobuf.Duration", &self::fields(Dur))).s(12, "proto3");
    vec![ts, st, du]
}
pub fn schema() -> Vec<u8> {
    let mut set = Msg::new();
    for f in well_known() {
        set = set.m(1, f);
    }
    let mut e = Msg::new().s(1, "E");
    for (i, n) in ENUM.iter().enumerate() {
        e = e.m(2, Msg::new().s(1, &format!("E{i}")).v(2, *n as u64));
    }
    set = set.m(1, Msg::new().s(1, "t/v2/t.proto").s(2, "t.v2").m(4, message("t.v2.Leaf", &fields(Other))).s(12, "proto3"));
    let meth = |n: &str, i: &str, o: &str| Msg::new().s(1, n).s(2, i).s(3, o);
    set.m(
        1,
        Msg::new()
            .s(1, "t/v1/t.proto")
            .s(2, "t.v1")
            .s(3, "google/protobuf/timestamp.proto")
            .s(3, "google/protobuf/struct.proto")
            .s(3, "google/protobuf/duration.proto")
            .s(3, "t/v2/t.proto")
            .m(4, message("t.v1.Rich", &fields(Rich)).m(3, message("t.v1.Rich.Leaf", &fields(Inner))))
            .m(4, message("t.v1.Nil", &fields(Nil)))
            .m(4, message("t.v1.Leaf", &fields(Leaf)))
            .m(5, e)
            .m(6, Msg::new().s(1, "Svc").m(2, meth("Other", ".t.v1.Leaf", ".t.v1.Leaf")).m(2, meth("Do", ".t.v1.Rich", ".t.v1.Rich")))
            .s(12, "proto3"),
    )
    .encode()
}

/// Answer the descriptor fetches made so far with the schema.
pub fn serve(vm: &mut Vm) {
    let toks: Vec<u32> = sim::with(|s| {
        s.events
            .iter()
            .filter_map(|e| match &e.1 {
                SimEv::Call(c) if c.service == "kuadrant.v1.DescriptorService" => Some(c.token),
                _ => None,
            })
            .collect()
    });
    for t in toks {
        let b = Msg::new().m(1, Msg::new().s(1, "dyn").s(2, "t.v1.Svc").b(3, &schema())).encode();
        let n = b.len();
        vm.answer(t, 0, Ok(Some(b)), n);
    }
}

// ---------------------------------------------------------------- values
#[derive(Clone, Debug, PartialEq)]
pub enum X {
    I(i64),
    U(u64),
    D(u64), // bits
    B(bool),
    S(String),
    Y(Vec<u8>),
    T(i64, u32),
    /// google.protobuf.Value and friends as JSON
    J(serde_json::Value),
    M(K, Vec<(usize, FV)>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum FV {
    One(X),
    Rep(Vec<X>),
    Map(Vec<(X, X)>),
}
const TXT: &[&str] = &["a", "b", "Z", "0", " ", "\"", "'", "\\", "\n", "\t", "é", "日", "😀", "/", "{"];

fn num_json(s: &mut Src) -> serde_json::Value {
    json!(*s.pick(&[0.0, 1.0, -1.5, 1e300, 0.1, -0.0, 4294967296.0, 9007199254740993.0]))
}
fn gen_json(s: &mut Src, depth: usize) -> serde_json::Value {
    match s.below(if depth == 0 { 4 } else { 6 }) {
        0 => json!(null),
        1 => num_json(s),
        2 => json!(s.string(TXT, 4)),
        3 => json!(s.bool()),
        4 => serde_json::Value::Array((0..s.count(3, 300)).map(|_| gen_json(s, depth.min(2) - 1)).collect()),
        _ => gen_obj(s, depth - 1),
    }
}
fn gen_obj(s: &mut Src, depth: usize) -> serde_json::Value {
    let mut m = serde_json::Map::new();
    for _ in 0..s.range(0, 3) {
        let k = s.string(&["a", "b", "c d", "é", "\""], 2);
        m.insert(k, gen_json(s, depth));
    }
    serde_json::Value::Object(m)
}
fn gen_x(s: &mut Src, k: K, depth: usize) -> X {
    match k {
        Double => X::D(s.pick(&[0.0f64, 1.0, -1.0, 0.1, 1e300, -2.5e-300, 4294967296.5, -0.0, f64::MAX, f64::MIN_POSITIVE]).to_bits()),
        // values a float holds exactly
        Float => X::D(s.pick(&[0.0f64, 1.0, -1.5, 0.25, 16777216.0, f32::MAX as f64, f32::MIN as f64, f32::MIN_POSITIVE as f64, -0.0]).to_bits()),
        Int64 | Sfixed64 | Sint64 => X::I(nomin(s.edge_i64())),
        Int32 | Sfixed32 | Sint32 => X::I(match s.below(3) {
            0 => s.below(5) as i64 - 2,
            1 => *s.pick(&[i32::MAX as i64, i32::MIN as i64, 127, 128, -129, 300]),
            _ => s.u64() as i32 as i64,
        }),
        Uint64 | Fixed64 => X::U(s.edge_u64()),
        Uint32 | Fixed32 => X::U(match s.below(3) {
            0 => s.below(5),
            1 => *s.pick(&[u32::MAX as u64, i32::MAX as u64, i32::MAX as u64 + 1, 127, 128, 300]),
            _ => s.u64() as u32 as u64,
        }),
        Bool => X::B(s.bool()),
        // lengths of one, two and three bytes
        Str if s.chance(1, 60) => {
            let one = s.string(TXT, 5) + "x";
            X::S(one.repeat(*s.pick(&[20, 64, 300, 4000])))
        }
        Str => X::S(s.string(TXT, 5)),
        Bytes if s.chance(1, 30) => X::Y((0..s.range(100, 20_000)).map(|i| i as u8).collect()),
        Bytes => X::Y((0..s.range(0, 5)).map(|_| *s.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b'a', b'"', b'\\', 0xc3])).collect()),
        Enum => X::I(*s.pick(&ENUM)),
        Ts => {
            let secs = match s.below(3) {
                0 => s.below(2_000_000_000) as i64,
                1 => *s.pick(&[0i64, -1, 253402300799, -62135596800, 1]),
                _ => -(s.below(2_000_000_000) as i64),
            };
            X::T(secs, *s.pick(&[0u32, 1, 999_999_999, 500_000_000, 123_456_000]))
        }
        Struct => X::J(gen_obj(s, 2)),
        Value => X::J(gen_json(s, 2)),
        List => X::J(serde_json::Value::Array((0..s.count(3, 300)).map(|_| gen_json(s, 1)).collect())),
        Leaf | Rich | Dur | Other | Inner | Nil => gen_msg(s, k, depth),
    }
}
fn nomin(i: i64) -> i64 {
    if i == i64::MIN {
        i64::MIN + 1
    } else {
        i
    }
}
/// How many elements: a few, and at times more than fit any small bound.
fn many(s: &mut Src, k: K) -> usize {
    if packable(k) || k == Str {
        s.count(3, 300)
    } else {
        s.range(0, 3)
    }
}
pub fn gen_msg(s: &mut Src, k: K, depth: usize) -> X {
    let fs = fields(k);
    let mut out: Vec<(usize, FV)> = vec![];
    let n = if k == Nil { 0 } else if matches!(k, Leaf | Dur | Other | Inner) { s.range(0, 4) } else { s.range(0, if depth >= 2 { 7 } else { 3 }) };
    let mut picked = false;
    for _ in 0..n {
        let i = s.n(fs.len());
        if out.iter().any(|x| x.0 == i) {
            continue;
        }
        let f = &fs[i];
        let nests = f.kind == Rich;
        if nests && depth == 0 {
            continue;
        }
        let d = depth.saturating_sub(1);
        let v = match f.card {
            Card::One | Card::Opt => FV::One(gen_x(s, f.kind, d)),
            Card::Oneof => {
                if picked {
                    continue;
                }
                picked = true;
                FV::One(gen_x(s, f.kind, d))
            }
            Card::Rep => FV::Rep((0..many(s, f.kind)).map(|_| gen_x(s, f.kind, d)).collect()),
            Card::Map(key) => {
                let mut m: Vec<(X, X)> = vec![];
                for _ in 0..many(s, f.kind) {
                    let kx = gen_x(s, key, 0);
                    if m.iter().all(|e| e.0 != kx) {
                        m.push((kx, gen_x(s, f.kind, d)));
                    }
                }
                FV::Map(m)
            }
        };
        out.push((i, v));
    }
    out.sort_by_key(|x| x.0);
    X::M(k, out)
}

// ---------------------------------------------------------------- CEL
pub fn cel_bytes(b: &[u8]) -> String {
    let mut o = String::from("b\"");
    for x in b {
        o.push_str(&format!("\\x{x:02x}"));
    }
    o.push('"');
    o
}
pub fn cel_double(bits: u64) -> String {
    let d = f64::from_bits(bits);
    if d.is_infinite() {
        return if d > 0.0 { "(1.0 / 0.0)".into() } else { "(-1.0 / 0.0)".into() };
    }
    if d.is_nan() {
        return "(0.0 / 0.0)".into();
    }
    format!("{d:?}")
}
fn civil(secs: i64) -> (i64, u32, u32, u32, u32, u32) {
    let days = secs.div_euclid(86400);
    let rem = secs.rem_euclid(86400) as u32;
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    (y, m, d, rem / 3600, rem / 60 % 60, rem % 60)
}
pub fn rfc3339(secs: i64, nanos: u32) -> String {
    let (y, mo, d, h, mi, s) = civil(secs);
    if nanos == 0 {
        format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}Z")
    } else {
        format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}.{nanos:09}Z")
    }
}
pub fn cel_json(j: &serde_json::Value) -> String {
    match j {
        serde_json::Value::Null => "null".into(),
        serde_json::Value::Bool(b) => b.to_string(),
        serde_json::Value::Number(n) => cel_double(n.as_f64().unwrap().to_bits()),
        serde_json::Value::String(t) => lit(t),
        serde_json::Value::Array(a) => format!("[{}]", a.iter().map(cel_json).collect::<Vec<_>>().join(", ")),
        serde_json::Value::Object(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", lit(k), cel_json(v))).collect::<Vec<_>>().join(", ")),
    }
}
/// google.protobuf.Value built explicitly, as messages
fn cel_value_msg(j: &serde_json::Value) -> String {
    match j {
        serde_json::Value::Null => "google.protobuf.Value{null_value: 0}".into(),
        serde_json::Value::Bool(b) => format!("google.protobuf.Value{{bool_value: {b}}}"),
        serde_json::Value::Number(n) => format!("google.protobuf.Value{{number_value: {}}}", cel_double(n.as_f64().unwrap().to_bits())),
        serde_json::Value::String(t) => format!("google.protobuf.Value{{string_value: {}}}", lit(t)),
        serde_json::Value::Array(_) => format!("google.protobuf.Value{{list_value: {}}}", cel_list_msg(j)),
        serde_json::Value::Object(_) => format!("google.protobuf.Value{{struct_value: {}}}", cel_struct_msg(j)),
    }
}
fn cel_struct_msg(j: &serde_json::Value) -> String {
    let m = j.as_object().unwrap();
    format!("google.protobuf.Struct{{fields: {{{}}}}}", m.iter().map(|(k, v)| format!("{}: {}", lit(k), cel_value_msg(v))).collect::<Vec<_>>().join(", "))
}
fn cel_list_msg(j: &serde_json::Value) -> String {
    format!("google.protobuf.ListValue{{values: [{}]}}", j.as_array().unwrap().iter().map(cel_value_msg).collect::<Vec<_>>().join(", "))
}
/// A CEL expression denoting `x` as the value of a field of kind `k`.
fn cel(s: &mut Src, k: K, x: &X) -> String {
    match x {
        X::I(i) => match s.below(8) {
            0 => format!("int({})", lit(&i.to_string())),
            1 => format!("(request.method == 'GET' ? {i} : 3)"),
            _ => i.to_string(),
        },
        X::U(u) => match s.below(8) {
            0 => format!("uint({})", lit(&u.to_string())),
            _ => format!("{u}u"),
        },
        X::D(b) => cel_double(*b),
        X::B(b) => match s.below(8) {
            0 => format!("request.method == {}", if *b { "'GET'" } else { "'PUT'" }),
            _ => b.to_string(),
        },
        X::S(t) => match s.below(8) {
            0 => format!("{} + ''", lit(t)),
            1 => format!("request.headers['x-t'].replace('@@', {})", lit(t)),
            _ => lit(t),
        },
        X::Y(b) => cel_bytes(b),
        X::T(secs, n) => format!("timestamp('{}')", rfc3339(*secs, *n)),
        X::J(j) => match k {
            Struct => cel_struct_msg(j),
            Value => cel_value_msg(j),
            _ => cel_list_msg(j),
        },
        X::M(k, fvs) => {
            let fs = fields(*k);
            let mut order: Vec<&(usize, FV)> = fvs.iter().collect();
            s.shuffle(&mut order);
            let body: Vec<String> = order.iter().map(|(i, v)| format!("{}: {}", fs[*i].name, cel_fv(s, &fs[*i], v))).collect();
            format!("{}{{{}}}", &type_name(*k).unwrap()[1..], body.join(", "))
        }
    }
}
fn cel_fv(s: &mut Src, f: &Fd, v: &FV) -> String {
    match v {
        FV::One(x) => cel(s, f.kind, x),
        FV::Rep(xs) => format!("[{}]", xs.iter().map(|x| cel(s, f.kind, x)).collect::<Vec<_>>().join(", ")),
        FV::Map(m) => {
            let Card::Map(key) = f.card else { unreachable!() };
            format!("{{{}}}", m.iter().map(|(k, x)| format!("{}: {}", mapkey(key, k), cel(s, f.kind, x))).collect::<Vec<_>>().join(", "))
        }
    }
}
fn mapkey(_k: K, x: &X) -> String {
    match x {
        X::I(i) => i.to_string(),
        X::U(u) => format!("{u}u"),
        X::B(b) => b.to_string(),
        X::S(t) => lit(t),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- wire
fn zz32(i: i64) -> u64 {
    (((i as i32) << 1) ^ ((i as i32) >> 31)) as u32 as u64
}
fn zz64(i: i64) -> u64 {
    ((i << 1) ^ (i >> 63)) as u64
}
fn wire(s: &mut Src, k: K, x: &X) -> W {
    match (k, x) {
        (Double, X::D(b)) => W::I64(*b),
        (Float, X::D(b)) => W::I32((f64::from_bits(*b) as f32).to_bits()),
        (Int64 | Int32 | Enum, X::I(i)) => W::Varint(*i as u64),
        (Uint64 | Uint32, X::U(u)) => W::Varint(*u),
        (Fixed64, X::U(u)) => W::I64(*u),
        (Fixed32, X::U(u)) => W::I32(*u as u32),
        (Sfixed64, X::I(i)) => W::I64(*i as u64),
        (Sfixed32, X::I(i)) => W::I32(*i as i32 as u32),
        (Sint32, X::I(i)) => W::Varint(zz32(*i)),
        (Sint64, X::I(i)) => W::Varint(zz64(*i)),
        (Bool, X::B(b)) => W::Varint(*b as u64),
        (Str, X::S(t)) => W::Len(t.as_bytes().to_vec()),
        (Bytes, X::Y(b)) => W::Len(b.clone()),
        (Ts, X::T(a, n)) => {
            let mut m = Msg::new();
            if *a != 0 {
                m = m.v(1, *a as u64);
            }
            if *n != 0 {
                m = m.v(2, *n as u64);
            }
            W::Len(m.encode())
        }
        (Struct, X::J(j)) => W::Len(crate::c_auth::to_struct(j.as_object().unwrap()).encode()),
        (Value, X::J(j)) => W::Len(crate::c_auth::to_value(j).encode()),
        (List, X::J(j)) => {
            let mut m = Msg::new();
            for v in j.as_array().unwrap() {
                m = m.m(1, crate::c_auth::to_value(v));
            }
            W::Len(m.encode())
        }
        (_, X::M(..)) => W::Len(encode(s, x).encode()),
        _ => unreachable!("{k:?} {x:?}"),
    }
}
fn packable(k: K) -> bool {
    !matches!(k, Str | Bytes | Leaf | Rich | Other | Inner | Nil | Ts | Dur | Struct | Value | List)
}
fn pack(w: &[W]) -> Vec<u8> {
    let mut o = vec![];
    for x in w {
        match x {
            W::Varint(v) => put_varint(&mut o, *v),
            W::I64(v) => o.extend(v.to_le_bytes()),
            W::I32(v) => o.extend(v.to_le_bytes()),
            W::Len(_) => unreachable!(),
        }
    }
    o
}
/// Encode with the liberties the wire format grants a sender.
pub fn encode(s: &mut Src, x: &X) -> Msg {
    let X::M(k, fvs) = x else { unreachable!() };
    let fs = fields(*k);
    // each field's records in order; fields may be interleaved
    let mut groups: Vec<Vec<(u32, W)>> = vec![];
    for (i, v) in fvs {
        let f = &fs[*i];
        let mut g = vec![];
        match v {
            FV::One(x) => {
                if s.chance(1, 8) && packable(f.kind) {
                    // overridden: the last one counts
                    let y = gen_x(s, f.kind, 0);
                    g.push((f.num, wire(s, f.kind, &y)));
                }
                g.push((f.num, wire(s, f.kind, x)));
            }
            FV::Rep(xs) => {
                let ws: Vec<W> = xs.iter().map(|x| wire(s, f.kind, x)).collect();
                if packable(f.kind) && !ws.is_empty() {
                    match s.below(3) {
                        0 => g.push((f.num, W::Len(pack(&ws)))),
                        1 => g.extend(ws.into_iter().map(|w| (f.num, w))),
                        _ => {
                            let at = s.n(ws.len() + 1);
                            g.push((f.num, W::Len(pack(&ws[..at]))));
                            g.extend(ws[at..].iter().cloned().map(|w| (f.num, w)));
                        }
                    }
                } else {
                    g.extend(ws.into_iter().map(|w| (f.num, w)));
                }
            }
            FV::Map(m) => {
                let Card::Map(kk) = f.card else { unreachable!() };
                for (a, b) in m {
                    if s.chance(1, 8) {
                        // an earlier entry with the same key is replaced
                        let y = gen_x(s, f.kind, 0);
                        g.push((f.num, W::Len(entry(s, kk, a, f.kind, &y))));
                    }
                    g.push((f.num, W::Len(entry(s, kk, a, f.kind, b))));
                }
            }
        }
        groups.push(g);
    }
    if s.chance(1, 6) {
        groups.push(vec![(*s.pick(&[18u32, 999, 5000]), W::Varint(7)), (1234, W::Len(b"unknown".to_vec()))]);
    }
    if s.chance(1, 2) {
        s.shuffle(&mut groups);
    }
    let mut out = vec![];
    if s.chance(1, 3) {
        // interleave
        let mut q: Vec<std::collections::VecDeque<(u32, W)>> = groups.into_iter().map(|g| g.into()).collect();
        loop {
            q.retain(|g| !g.is_empty());
            if q.is_empty() {
                break;
            }
            let i = s.n(q.len());
            out.push(q[i].pop_front().unwrap());
        }
    } else {
        out = groups.into_iter().flatten().collect();
    }
    Msg(out)
}
fn entry(s: &mut Src, kk: K, a: &X, vk: K, b: &X) -> Vec<u8> {
    let k = wire(s, kk, a);
    let v = wire(s, vk, b);
    let mut m = Msg::new();
    let skip = matches!(&k, W::Varint(0)) && s.bool();
    if !skip {
        m.0.push((1, k));
    }
    m.0.push((2, v));
    if s.chance(1, 5) {
        m.0.reverse();
    }
    m.encode()
}

fn unwire(k: K, w: &W) -> Option<X> {
    Some(match (k, w) {
        (Double, W::I64(b)) => X::D(*b),
        (Float, W::I32(b)) => X::D((f32::from_bits(*b) as f64).to_bits()),
        (Int64, W::Varint(v)) => X::I(*v as i64),
        (Int32 | Enum, W::Varint(v)) => X::I(*v as i32 as i64),
        (Uint64, W::Varint(v)) => X::U(*v),
        (Uint32, W::Varint(v)) => X::U(*v as u32 as u64),
        (Fixed64, W::I64(v)) => X::U(*v),
        (Fixed32, W::I32(v)) => X::U(*v as u64),
        (Sfixed64, W::I64(v)) => X::I(*v as i64),
        (Sfixed32, W::I32(v)) => X::I(*v as i32 as i64),
        (Sint32, W::Varint(v)) => X::I((((*v as u32) >> 1) as i32 ^ -((*v as u32 & 1) as i32)) as i64),
        (Sint64, W::Varint(v)) => X::I((*v >> 1) as i64 ^ -((*v & 1) as i64)),
        (Bool, W::Varint(v)) => X::B(*v != 0),
        (Str, W::Len(b)) => X::S(String::from_utf8(b.clone()).ok()?),
        (Bytes, W::Len(b)) => X::Y(b.clone()),
        (Ts, W::Len(b)) => {
            let m = Msg::decode(b)?;
            X::T(m.get_v(1) as i64, m.get_v(2) as u32)
        }
        (Struct, W::Len(b)) => X::J(serde_json::Value::Object(crate::c_auth::from_struct(&Msg::decode(b)?)?)),
        (Value, W::Len(b)) => X::J(crate::c_auth::from_value(&Msg::decode(b)?)?),
        (List, W::Len(b)) => X::J(serde_json::Value::Array(Msg::decode(b)?.msgs(1).iter().map(crate::c_auth::from_value).collect::<Option<Vec<_>>>()?)),
        (Leaf | Rich | Dur | Other | Inner | Nil, W::Len(b)) => decode(k, b)?,
        _ => return None,
    })
}
fn zero(k: K) -> X {
    match k {
        Double | Float => X::D(0),
        Int64 | Int32 | Enum | Sfixed32 | Sfixed64 | Sint32 | Sint64 => X::I(0),
        Uint64 | Uint32 | Fixed64 | Fixed32 => X::U(0),
        Bool => X::B(false),
        Str => X::S(String::new()),
        Bytes => X::Y(vec![]),
        Ts => X::T(0, 0),
        Struct => X::J(json!({})),
        Value => X::J(json!(null)),
        List => X::J(json!([])),
        Leaf | Rich | Dur | Other | Inner | Nil => X::M(k, vec![]),
    }
}
/// Decode what the filter sent, into the canonical form of `canon`.
pub fn decode(k: K, b: &[u8]) -> Option<X> {
    let m = Msg::decode(b)?;
    let fs = fields(k);
    let mut out = vec![];
    for (n, _) in &m.0 {
        if fs.iter().all(|f| f.num != *n) {
            return None;
        }
    }
    for (i, f) in fs.iter().enumerate() {
        let ws = m.all(f.num);
        if ws.is_empty() {
            continue;
        }
        match f.card {
            Card::One | Card::Opt | Card::Oneof => {
                if ws.len() != 1 {
                    return None;
                }
                out.push((i, FV::One(unwire(f.kind, ws[0])?)));
            }
            Card::Rep => {
                let mut xs = vec![];
                for w in ws {
                    match w {
                        W::Len(b) if packable(f.kind) => {
                            let mut p = 0;
                            while p < b.len() {
                                let w = match f.kind {
                                    Double | Fixed64 | Sfixed64 => {
                                        let v = u64::from_le_bytes(b.get(p..p + 8)?.try_into().ok()?);
                                        p += 8;
                                        W::I64(v)
                                    }
                                    Float | Fixed32 | Sfixed32 => {
                                        let v = u32::from_le_bytes(b.get(p..p + 4)?.try_into().ok()?);
                                        p += 4;
                                        W::I32(v)
                                    }
                                    _ => {
                                        let mut r = 0u64;
                                        let mut sh = 0;
                                        loop {
                                            let x = *b.get(p)?;
                                            p += 1;
                                            r |= ((x & 0x7f) as u64) << sh;
                                            sh += 7;
                                            if x & 0x80 == 0 {
                                                break;
                                            }
                                        }
                                        W::Varint(r)
                                    }
                                };
                                xs.push(unwire(f.kind, &w)?);
                            }
                        }
                        w => xs.push(unwire(f.kind, w)?),
                    }
                }
                out.push((i, FV::Rep(xs)));
            }
            Card::Map(kk) => {
                let mut es = vec![];
                for w in ws {
                    let W::Len(b) = w else { return None };
                    let e = Msg::decode(b)?;
                    let a = e.last(1).map_or(Some(zero(kk)), |w| unwire(kk, w))?;
                    let v = e.last(2).map_or(Some(zero(f.kind)), |w| unwire(f.kind, w))?;
                    es.push((a, v));
                }
                out.push((i, FV::Map(es)));
            }
        }
    }
    Some(canon(&X::M(k, out)))
}
/// Fields at their default that have no presence are left out; map entries are sorted.
pub fn canon(x: &X) -> X {
    match x {
        X::M(k, fvs) => {
            let fs = fields(*k);
            let mut out = vec![];
            for (i, v) in fvs {
                let f = &fs[*i];
                let v = match v {
                    FV::One(x) => FV::One(canon(x)),
                    FV::Rep(xs) => FV::Rep(xs.iter().map(canon).collect()),
                    FV::Map(m) => {
                        let mut m: Vec<(X, X)> = m.iter().map(|(a, b)| (a.clone(), canon(b))).collect();
                        m.sort_by_key(|e| format!("{:?}", e.0));
                        FV::Map(m)
                    }
                };
                let default = match (&v, f.card) {
                    (FV::One(x), Card::One) => SCALARS.iter().any(|s| s.0 == f.kind) && *x == zero(f.kind),
                    (FV::Rep(x), _) => x.is_empty(),
                    (FV::Map(x), _) => x.is_empty(),
                    _ => false,
                };
                if !default {
                    out.push((*i, v));
                }
            }
            out.sort_by_key(|x| x.0);
            X::M(*k, out)
        }
        // the library takes a negative zero for the default
        X::D(b) if *b << 1 == 0 => X::D(0),
        x => x.clone(),
    }
}

// ---------------------------------------------------------------- C12
/// The type of something that does not belong where `k` is expected.
fn misfit(s: &mut Src, k: K) -> Option<String> {
    let v: Vec<&str> = match k {
        Double => vec!["'1'", "true", "[1.0]", "b'a'"],
        Float => vec!["'1'", "1e39", "-1e39", "1.0 / 0.0", "0.0 / 0.0", "3.5e38"],
        Int64 | Sint64 | Sfixed64 => vec!["'1'", "1.5", "true", "[1]", "{'a': 1}"],
        Int32 | Sint32 | Sfixed32 => vec!["2147483648", "-2147483649", "4294967296", "9223372036854775807", "'1'", "1.5", "[1]"],
        Uint64 | Fixed64 => vec!["'1'", "1.5", "true", "[1u]"],
        Uint32 | Fixed32 => vec!["4294967296u", "18446744073709551615u", "'1'", "true"],
        Bool => vec!["'true'", "1", "0.0", "[true]"],
        Str => vec!["1", "true", "b'a'", "['a']", "1.5"],
        Bytes => vec!["1", "[b'a']", "true"],
        Enum => vec!["2", "-2", "2147483648", "-2147483649", "4294967296", "'E1'", "true", "8589934593"],
        Leaf | Rich | Inner | Nil => vec!["'x'", "1", "[]", "timestamp('2024-01-01T00:00:00Z')"],
        Other => vec!["t.v2.Leaf{name: 'x'}", "t.v2.Leaf{n: 1}", "'x'"],
        Dur => vec!["timestamp('2024-01-01T00:00:00Z')", "'1s'", "1", "google.protobuf.Duration{seconds: '1'}"],
        Ts => vec!["'2024-01-01T00:00:00Z'", "1", "duration('1s')"],
        Struct | Value | List => vec!["b'a'", "duration('1s')"],
    };
    Some(s.pick(&v).to_string())
}
const HEADERS: &[(&str, &str)] = &[("x-t", "@@")];

fn cfg(builder: &str, method: &str, deny: bool, on_reply: serde_json::Value) -> serde_json::Value {
    json!({
        "services": {"d": {"type": "dynamic", "endpoint": "dyn", "timeout": "50ms", "failureMode": if deny { "deny" } else { "allow" },
            "grpcService": "t.v1.Svc", "grpcMethod": method}},
        "actionSets": [{"name": "set", "routeRuleConditions": {"hostnames": ["*"]}, "actions": [
            {"type": "grpc", "service": "d", "var": "r", "predicate": "true", "terminal": false, "messageBuilder": builder, "onReply": on_reply}
        ]}]
    })
}

fn c12(s: &mut Src, o: &mut Obs) -> Res {
    let leafy = s.chance(1, 6);
    let k = if leafy { Leaf } else { Rich };
    let x = gen_msg(s, k, 3);
    let mut src = cel(s, k, &x);
    // sometimes one part does not fit the schema
    let bad = s.chance(2, 5);
    let mut what = String::new();
    if bad {
        let fs = fields(k);
        let f = fs[s.n(fs.len())].clone();
        let m = misfit(s, f.kind).unwrap();
        let v = match f.card {
            Card::One | Card::Opt | Card::Oneof => m,
            Card::Rep => match s.below(3) {
                0 => "'x'".into(),
                1 => "{'a': 1}".into(),
                _ => {
                    let g = gen_x(s, f.kind, 0);
                    let g = cel(s, f.kind, &g);
                    format!("[{g}, {m}]")
                }
            },
            Card::Map(key) => match s.below(3) {
                0 => "['x']".into(),
                1 => {
                    let g = gen_x(s, key, 0);
                    format!("{{{}: {m}}}", mapkey(key, &g))
                }
                _ => {
                    let bk: &[&str] = match key {
                        Str => &["1", "true", "2u"],
                        Bool => &["1", "'true'", "1u"],
                        Int32 | Sint32 | Sfixed32 => &["2147483648", "4294967296", "'1'", "true"],
                        Int64 | Sint64 | Sfixed64 => &["'1'", "true"],
                        Uint32 | Fixed32 => &["4294967296u", "'1'", "false"],
                        _ => &["'1'", "true"],
                    };
                    let g = gen_x(s, f.kind, 0);
                    format!("{{{}: {}}}", s.pick(bk), cel(s, f.kind, &g))
                }
            },
        };
        what = format!("{}: {v}", f.name);
        // at the top, or inside a nested message
        let t = if k == Leaf { "Leaf" } else { "Rich" };
        src = match if k == Leaf { 0 } else { s.below(4) } {
            0 => format!("t.v1.{t}{{{what}}}"),
            1 => format!("t.v1.Rich{{child: t.v1.Rich{{{what}}}}}"),
            2 => format!("t.v1.Rich{{s_string: 'k', kids: [t.v1.Rich{{}}, t.v1.Rich{{{what}}}]}}"),
            _ => format!("t.v1.Rich{{m11: {{true: t.v1.Rich{{{what}}}}}}}"),
        };
    }
    let notmsg = !bad && s.chance(1, 25);
    if notmsg {
        src = s.pick(&["'x'", "1", "{'s_string': 'x'}", "[]", "null"]).to_string();
    }
    let deny = s.bool();
    let method = if leafy { "Other" } else { "Do" };
    // names are told apart by case
    let nomethod = !bad && !notmsg && s.chance(1, 25);
    let asked = if nomethod { s.pick(&[method.to_uppercase(), method.to_lowercase(), format!("{method}2"), method[..1].to_string(), String::new()]).clone() } else { method.to_string() };
    if nomethod {
        what = format!("method {asked:?}");
    }
    let c = cfg(&src, &asked, deny, json!([]));
    let Some(mut vm) = Vm::new(&c) else { return fail("config-refused", format!("refused: {src}")) };
    serve(&mut vm);
    let mut q = vm.open(5, stream("a.example.com", "/p", "GET", HEADERS));
    let st = q.headers(true);
    let calls = st.calls();
    let rep = st.replies();
    o.checks += 1;
    if bad || notmsg || nomethod {
        o.label(if nomethod { "no-such-method" } else if notmsg { "not-a-message" } else { "misfit" });
        o.nontrivial = true;
        o.sample = Some(format!("refused: {src}"));
        ensure!(calls.is_empty(), "misfit-sent", "{what} does not fit, yet a message was sent\nbuilder {src}\nmessage {:?}", calls[0].message);
        ensure!(st.metric("kuadrant.errors") == 1, "misfit-errors", "errors +{}\nbuilder {src}", st.metric("kuadrant.errors"));
        let want = if deny { vec![500] } else { vec![] };
        ensure!(rep.iter().map(|r| r.0).collect::<Vec<_>>() == want, "misfit-outcome", "replies {rep:?}, the service says {}\nbuilder {src}", if deny { "deny" } else { "allow" });
        return Ok(());
    }
    ensure!(calls.len() == 1, "not-sent", "expected one call, saw {} (replies {rep:?})\nbuilder {src}", calls.len());
    let call = calls[0];
    ensure!(call.upstream == "dyn" && call.service == "t.v1.Svc" && call.method == if leafy { "Other" } else { "Do" }, "wrong-target", "{call:?}");
    let got = decode(k, &call.message);
    let want = canon(&x);
    if let X::M(_, f) = &want {
        o.nontrivial = !f.is_empty();
        let fs = fields(k);
        for (i, v) in f {
            o.label(match (v, fs[*i].card) {
                (FV::Map(_), _) => "map",
                (FV::Rep(_), _) => "repeated",
                (_, Card::Oneof) => "oneof",
                (_, Card::Opt) => "optional",
                (FV::One(X::M(..)), _) => "nested",
                (FV::One(X::T(..)), _) => "timestamp",
                (FV::One(X::J(_)), _) => "struct",
                _ => "scalar",
            });
        }
    }
    o.sample = Some(format!("builder {src} -> {} bytes", call.message.len()));
    ensure!(got.is_some(), "undecodable", "the message sent does not decode under its type\nbuilder {src}\nmessage {:?}", call.message);
    eq("message", &format!("the message sent is not the one built by {src}"), &got.unwrap(), &want)
}

// ---------------------------------------------------------------- C13
/// Statements about `x` reachable at CEL path `p`: (expression, expected) where expected None is an error.
fn claims(s: &mut Src, k: K, x: &X, p: &str, out: &mut Vec<(String, bool)>, errs: &mut Vec<String>, exports: &mut Vec<(String, serde_json::Value)>, depth: usize) {
    match x {
        X::I(i) => out.push((format!("{p} == {i}"), true)),
        X::U(u) => out.push((format!("{p} == {u}u"), true)),
        X::D(b) => out.push((format!("{p} == {}", cel_double(*b)), true)),
        X::B(b) => out.push((format!("{p} == {b}"), true)),
        X::S(t) => out.push((format!("{p} == {}", lit(t)), true)),
        X::Y(b) => out.push((format!("{p} == {}", cel_bytes(b)), true)),
        X::T(a, n) => out.push((format!("{p} == timestamp('{}')", rfc3339(*a, *n)), true)),
        X::J(j) => {
            exports.push((p.to_string(), j.clone()));
            out.push((format!("{p} == {}", cel_json(j)), true));
        }
        X::M(k, fvs) => {
            let fs = fields(*k);
            for (i, v) in fvs {
                let f = &fs[*i];
                let q = format!("{p}.{}", f.name);
                match v {
                    FV::One(x) => {
                        if f.card != Card::One || !SCALARS.iter().any(|s| s.0 == f.kind) {
                            out.push((format!("has({q})"), true));
                        }
                        claims(s, f.kind, x, &q, out, errs, exports, depth + 1);
                    }
                    FV::Rep(xs) => {
                        out.push((format!("size({q}) == {}", xs.len()), true));
                        for (n, x) in xs.iter().enumerate() {
                            claims(s, f.kind, x, &format!("{q}[{n}]"), out, errs, exports, depth + 1);
                        }
                        errs.push(format!("{q}[{}]", xs.len()));
                    }
                    FV::Map(m) => {
                        let Card::Map(key) = f.card else { unreachable!() };
                        out.push((format!("size({q}) == {}", m.len()), true));
                        for (a, b) in m {
                            claims(s, f.kind, b, &format!("{q}[{}]", mapkey(key, a)), out, errs, exports, depth + 1);
                        }
                    }
                }
            }
            // a few of the fields that are not there
            if !fs.is_empty() && (matches!(k, Leaf | Dur | Other | Inner) || depth < 2) {
                for _ in 0..3 {
                    let i = s.n(fs.len());
                    if fvs.iter().any(|x| x.0 == i) {
                        continue;
                    }
                    let f = &fs[i];
                    let q = format!("{p}.{}", f.name);
                    match f.card {
                        Card::Rep | Card::Map(_) => out.push((format!("size({q}) == 0"), true)),
                        Card::One if SCALARS.iter().any(|x| x.0 == f.kind) => claims(s, f.kind, &zero(f.kind), &q, out, errs, exports, depth + 1),
                        _ => {
                            out.push((format!("has({q})"), false));
                            errs.push(q);
                        }
                    }
                }
            }
            if s.chance(1, 6) {
                errs.push(format!("{p}.no_such_field"));
            }
        }
    }
    let _ = k;
}

fn c13(s: &mut Src, o: &mut Obs) -> Res {
    let leafy = s.chance(1, 8);
    let k = if leafy { Leaf } else { Rich };
    let x = gen_msg(s, k, 3);
    let mut bytes = encode(s, &x).encode();
    if s.chance(1, 60) {
        // among what the filter does not know of
        let n = s.range(1, 200_000);
        let mut b = Msg::new().b(500, &vec![b'x'; n]).encode();
        b.extend(bytes);
        bytes = b;
        o.label("large-answer");
    }
    let mut out = vec![];
    let mut errs = vec![];
    let mut exports = vec![];
    claims(s, k, &x, "r", &mut out, &mut errs, &mut exports, 0);
    if out.is_empty() {
        out.push(("true".into(), true));
    }
    errs.truncate(3);
    exports.truncate(3);
    let broken = s.chance(1, 10);
    let mut why = "";
    if broken {
        why = match s.below(4) {
            0 => {
                bytes.extend([0x4a, 9, 1]); // s_string, shorter than announced
                "truncated"
            }
            1 => {
                bytes.extend([0x08]);
                "no value"
            }
            2 => {
                // not UTF-8, in a string field
                let n = if leafy { 1u64 } else { 9 };
                put_varint(&mut bytes, (n << 3) | 2);
                bytes.extend([2, 0xc3, 0x28]);
                "not UTF-8"
            }
            _ => {
                bytes.extend([0x0f]);
                "bad wire type"
            }
        };
    }
    let store = |path: String, v: &str| json!({"type": "store", "predicate": "true", "terminal": false, "path": path, "value": v, "exportToHost": true});
    let mut acts = vec![store("all".into(), &format!("[{}]", out.iter().map(|e| e.0.clone()).collect::<Vec<_>>().join(", ")))];
    for (i, (e, _)) in exports.iter().enumerate() {
        acts.push(store(format!("x{i}"), e));
    }
    for (i, e) in errs.iter().enumerate() {
        acts.push(store(format!("e{i}"), &format!("string({e}) + ''")));
    }
    let c = cfg(if leafy { "t.v1.Leaf{}" } else { "t.v1.Rich{}" }, if leafy { "Other" } else { "Do" }, false, json!(acts));
    let Some(mut vm) = Vm::new(&c) else { return fail("config-refused", format!("refused: {c:#}")) };
    serve(&mut vm);
    let mut q = vm.open(5, stream("a.example.com", "/p", "GET", &[]));
    let st = q.headers(true);
    ensure!(st.calls().len() == 1, "not-sent", "no call was made");
    let t = st.calls()[0].token;
    if bytes.is_empty() {
        bytes.extend([0xa0, 0x1f, 1]); // an unknown field: an answer of no bytes is refused
    }
    let st = q.ok(t, bytes.clone());
    let get = |p: &str| -> Option<Vec<u8>> {
        st.events.iter().rev().find_map(|e| match e {
            SimEv::SetProp(path, v) if path.join(".") == format!("kuadrant\\.{p}") || path.join(".") == format!("kuadrant.{p}") => v.clone(),
            _ => None,
        })
    };
    o.checks += out.len() as u64;
    let ctx = || format!("answer of {} bytes {:?}\nvalue {x:?}", bytes.len(), &bytes[..bytes.len().min(5000)]);
    if broken {
        o.label("undecodable");
        o.nontrivial = true;
        ensure!(get("all").is_none(), "decoded-garbage", "{why}: the answer does not decode, yet reply actions ran\n{}", ctx());
        ensure!(st.metric("kuadrant.errors") == 1, "errors", "{why}: errors +{}\n{}", st.metric("kuadrant.errors"), ctx());
        return Ok(());
    }
    o.nontrivial = out.len() > 1;
    o.label(format!("claims-{}", if out.len() > 20 { "many" } else if out.len() > 5 { "some" } else { "few" }));
    if !errs.is_empty() {
        o.label("absent-field");
    }
    o.sample = Some(format!("answer of {} bytes; {}", bytes.len(), out.iter().take(6).map(|e| e.0.clone()).collect::<Vec<_>>().join("; ")));
    let Some(b) = get("all") else {
        return fail("not-evaluated", format!("reading the answer failed: {:?}\n{}", out.iter().map(|e| &e.0).collect::<Vec<_>>(), ctx()));
    };
    let got = Msg::decode(&b).and_then(|m| crate::c_auth::from_value(&m));
    let Some(serde_json::Value::Array(got)) = got else { return fail("shape", format!("stored {b:?}")) };
    ensure!(got.len() == out.len(), "shape", "{} results for {} claims", got.len(), out.len());
    for (g, (e, w)) in got.iter().zip(&out) {
        ensure!(*g == json!(w), "claim", "{e} is {g}, expected {w}\n{}", ctx());
    }
    for (i, (e, j)) in exports.iter().enumerate() {
        let Some(b) = get(&format!("x{i}")) else { return fail("not-exported", format!("{e} was not exported\n{}", ctx())) };
        let m = Msg::decode(&b).unwrap_or_default();
        let g = if j.is_object() { crate::c_auth::from_struct(&m).map(serde_json::Value::Object) } else { crate::c_auth::from_value(&m) };
        ensure!(g.as_ref() == Some(j), "export", "{e} exported as {g:?}, expected {j}\n{}", ctx());
    }
    for (i, e) in errs.iter().enumerate() {
        ensure!(get(&format!("e{i}")).is_none(), "absent-read", "{e} is not there, yet it was read as {:?}\n{}", get(&format!("e{i}")), ctx());
    }
    Ok(())
}

const A: &[&str] = &[
    "one schema with every scalar type, presence, repetition, map key type and the well-known types stands for all schemas",
    "64-bit integer literals exclude the minimum, which the CEL library does not parse",
];
pub fn all() -> Vec<Check> {
    vec![
        Check { id: "C12", run: c12, quick: 40_000, thorough: 2_000_000, rule: "the message has a field that is not at its default, or a part that does not fit its field", assumptions: A },
        Check { id: "C13", run: c13, quick: 40_000, thorough: 2_000_000, rule: "the answer has fields to read, or does not decode", assumptions: A },
    ]
}
