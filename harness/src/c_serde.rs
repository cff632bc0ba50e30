//! Serde: round trip, shared keys, rejection, layout.
use crate::c_dec::{classify, collect_keys, Kind};
use crate::c_enc::{check, eligible, open};
use crate::doc::Doc;
use crate::dynser::{self, de, AnyVal, IntTy, KeyTy, Ser, Ty, Val, Var, FAILURE};
use crate::rng::{hash64, Rng};
use crate::st::{self, R};
use crate::{drive, ensure, gen, malform, observe, refdec, refenc, Ctx};
use fleece::error::{Error, SerializeError};
use fleece::{Scope, SharedKeys};
use serde::de::DeserializeOwned;
use serde::ser::{SerializeMap, SerializeSeq, SerializeTuple};
use serde::{Deserialize, Serialize, Serializer};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::Arc;

fn brief(t: &Ty) -> String {
    let mut s = format!("{t:?}");
    if s.len() > 300 {
        s = format!("{:.300}…", s);
    }
    s
}

pub(crate) fn typed(r: &mut Rng, c: Ctx) -> (Ty, Val) {
    if !c.tiny() && r.one_in(400) {
        let (t, v) = dynser::big(r);
        st::describe(|| format!("{} as {}", v.brief(), brief(&t)));
        st::add("leaves_serialized", dynser::leaves(&v));
        return (t, v);
    }
    let depth = if c.tiny() { r.range(1, 2) } else { *r.pick(&[1, 1, 2, 2, 3, 3, 4, 6]) };
    let t = dynser::root(r, depth);
    let mut budget = if c.tiny() { 10 } else { *r.pick(&[5, 30, 100, 100, 400, 1500]) };
    let v = dynser::val(r, &t, &mut budget);
    st::max("type_depth_max", depth as u64);
    st::describe(|| format!("{} as {}", v.brief(), brief(&t)));
    st::add("leaves_serialized", dynser::leaves(&v));
    (t, v)
}

pub(crate) fn same(what: &str, t: &Ty, want: &Val, got: Result<Val, Error>) -> R {
    match got {
        Ok(g) => match want.diff(&g) {
            None => {
                st::hit("values_compared");
                Ok(())
            }
            Some(e) => Err(format!("{what}: {e} (type {})", brief(t))),
        },
        Err(e) => Err(format!("{what}: rejected: {e} (type {})", brief(t))),
    }
}

pub(crate) fn bytes_of(v: impl Serialize) -> R<Vec<u8>> {
    fleece::to_bytes(v).map_err(|e| format!("to_bytes: {e}"))
}
pub(crate) fn scope_of(v: impl Serialize) -> R<Arc<Scope>> {
    fleece::to_bytes_with_shared_keys(v).map_err(|e| format!("to_bytes_with_shared_keys: {e}"))
}

// ---------------------------------------------------------------- derived types

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Meters(f32);
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Marker;
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Pair(String, i32);
#[derive(Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord, Clone, Debug)]
struct KeyName(String);

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
enum Shape {
    Empty,
    Circle(f64),
    Line(Pair),
    Boxed(Box<Shape>),
    Maybe(Option<u8>),
    Rect(i64, u64, String),
    Poly { points: Vec<(i32, i32)>, name: String },
    #[serde(rename = "a rather long variant name")]
    Renamed { inner: Box<Shape>, seventeen_bytes_x: bool },
}

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Person<T> {
    #[serde(rename = "firstName")]
    first_name: String,
    age: u8,
    balance: i64,
    id: u64,
    score: f64,
    height: Meters,
    initial: char,
    nick: Option<String>,
    marker: Marker,
    unit: (),
    shape: Shape,
    shapes: Vec<Shape>,
    children: Vec<Person<T>>,
    by_name: BTreeMap<String, Option<i16>>,
    by_char: BTreeMap<char, u16>,
    by_newtype: BTreeMap<KeyName, Vec<String>>,
    hash: HashMap<String, HashMap<String, i8>>,
    queue: VecDeque<u32>,
    set: BTreeSet<i64>,
    array: [i16; 5],
    tuple: (bool, String, (u8, f32)),
    boxed: Box<str>,
    cow: Cow<'static, str>,
    result: Result<i32, String>,
    time: std::time::Duration,
    range: std::ops::Range<i32>,
    nonzero: std::num::NonZeroU16,
    addr: std::net::IpAddr,
    phantom: PhantomData<u8>,
    a_name_which_is_longer_than_sixteen_bytes: bool,
    #[serde(default)]
    defaulted: u32,
    #[serde(skip)]
    skipped: u32,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    rarely: Vec<bool>,
    #[serde(with = "as_text")]
    text: i32,
    #[serde(alias = "old", rename = "new-name")]
    aliased: usize,
    #[serde(bound(serialize = "T: Serialize", deserialize = "T: serde::de::Deserialize<'de>"))]
    extra: T,
    either: Either,
}

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
#[serde(untagged)]
enum Either {
    Number(i64),
    Text(String),
    Point { x: i32, y: i32 },
    List(Vec<i32>),
}

/// What the attributes of the derive can do to the fields of a variant.
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
enum Odds {
    Some {
        #[serde(default, skip_serializing_if = "Option::is_none")]
        may_be: Option<i32>,
        #[serde(alias = "before")]
        x: i64,
    },
    Default {
        #[serde(default)]
        a: u8,
        #[serde(default, skip_serializing_if = "String::is_empty")]
        text: String,
        #[serde(skip)]
        never: u8,
    },
    #[serde(alias = "Alias")]
    Skip(u64, #[serde(skip)] u8, String),
    Nothing(),
    Empty {},
    Flat {
        one: bool,
        #[serde(flatten)]
        rest: BTreeMap<String, i64>,
    },
    Tagged(Tagged),
    Adjacent(Vec<Adjacent>),
    Flattened(Flattened),
    Strict(Strict),
    Text(Text),
    Transparent(Transparent),
    Nested(Box<Odds>),
    Map(BTreeMap<String, Odds>),
}

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
#[serde(tag = "type")]
enum Tagged {
    Unit,
    Fields { x: Option<i64>, f: f32, big: u64, text: String, c: char, l: Vec<i16>, b: bool },
    Inner(Strict),
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
#[serde(tag = "t", content = "content")]
enum Adjacent {
    Unit,
    Fields { x: Option<i64>, s: Vec<String> },
    Two(i64, f64),
    Inner(Strict),
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Flattened {
    first: u16,
    #[serde(flatten)]
    inner: Strict,
    #[serde(flatten)]
    rest: BTreeMap<String, Vec<bool>>,
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
#[serde(deny_unknown_fields, rename_all = "SCREAMING-KEBAB-CASE")]
struct Strict {
    #[serde(default)]
    number_one: i64,
    a_text: Option<String>,
    #[serde(rename = "größe")]
    size: f64,
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
#[serde(transparent)]
struct Transparent {
    values: Vec<Option<u8>>,
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
#[serde(into = "String", try_from = "String")]
struct Text(i64);
impl From<Text> for String {
    fn from(t: Text) -> String {
        format!("<{}>", t.0)
    }
}
impl TryFrom<String> for Text {
    type Error = String;
    fn try_from(s: String) -> Result<Self, String> {
        s.trim_matches(['<', '>']).parse().map(Text).map_err(|_| s)
    }
}

fn strict(r: &mut Rng) -> Strict {
    Strict { number_one: dynser::int_of(r, IntTy::I64) as i64, a_text: if r.bool() { Some(gen::string(r)) } else { None }, size: finite(r) }
}

fn odds(r: &mut Rng, depth: usize) -> Odds {
    let few = |r: &mut Rng| *r.pick(&[0, 1, 1, 2, 5]);
    let i = |r: &mut Rng| dynser::int_of(r, IntTy::I64) as i64;
    let text = |r: &mut Rng| if r.one_in(3) { String::new() } else { gen::string(r) };
    match r.below(if depth == 0 { 12 } else { 14 }) {
        0 => Odds::Some { may_be: if r.bool() { Some(i(r) as i32) } else { None }, x: i(r) },
        1 => Odds::Default { a: i(r) as u8, text: text(r), never: 0 },
        2 => Odds::Skip(i(r) as u64, 0, text(r)),
        3 => Odds::Nothing(),
        4 => Odds::Empty {},
        5 => Odds::Flat { one: r.bool(), rest: (0..few(r)).map(|_| (gen::key(r), i(r))).filter(|x| x.0 != "one").collect() },
        6 => Odds::Tagged(match r.below(3) {
            0 => Tagged::Unit,
            1 => Tagged::Fields {
                x: if r.bool() { Some(i(r)) } else { None },
                f: Some(gen::f32_(r)).filter(|f| !f.is_nan()).unwrap_or(0.5),
                big: dynser::int_of(r, IntTy::U64) as u64,
                text: text(r),
                c: *r.pick(&['a', 'é', '😀', '\0']),
                l: (0..few(r)).map(|_| i(r) as i16).collect(),
                b: r.bool(),
            },
            _ => Tagged::Inner(strict(r)),
        }),
        7 => Odds::Adjacent((0..few(r)).map(|_| match r.below(4) {
            0 => Adjacent::Unit,
            1 => Adjacent::Fields { x: if r.bool() { Some(i(r)) } else { None }, s: (0..few(r)).map(|_| text(r)).collect() },
            2 => Adjacent::Two(i(r), finite(r)),
            _ => Adjacent::Inner(strict(r)),
        }).collect()),
        8 => Odds::Flattened(Flattened {
            first: i(r) as u16,
            // the fields of a flattened struct which denies others would deny the rest
            inner: strict(r),
            rest: BTreeMap::new(),
        }),
        9 => Odds::Strict(strict(r)),
        10 => Odds::Text(Text(i(r))),
        11 => Odds::Transparent(Transparent { values: (0..few(r)).map(|_| if r.bool() { Some(i(r) as u8) } else { None }).collect() }),
        12 => Odds::Nested(Box::new(odds(r, depth - 1))),
        _ => Odds::Map((0..few(r)).map(|_| (gen::key(r), odds(r, depth - 1))).collect()),
    }
}

mod as_text {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(x: &i32, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(x)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<i32, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}

fn shape(r: &mut Rng, depth: usize) -> Shape {
    match r.below(if depth == 0 { 6 } else { 8 }) {
        0 => Shape::Empty,
        1 => Shape::Circle(finite(r)),
        2 => Shape::Line(Pair(gen::string(r), r.u64() as i32)),
        3 => Shape::Maybe(if r.bool() { Some(r.u64() as u8) } else { None }),
        4 => Shape::Rect(dynser::int_of(r, IntTy::I64) as i64, dynser::int_of(r, IntTy::U64) as u64, gen::string(r)),
        5 => Shape::Poly { points: (0..r.below(6)).map(|_| (r.u64() as i32, r.irange(-3, 3000) as i32)).collect(), name: gen::string(r) },
        6 => Shape::Boxed(Box::new(shape(r, depth - 1))),
        _ => Shape::Renamed { inner: Box::new(shape(r, depth - 1)), seventeen_bytes_x: r.bool() },
    }
}

fn finite(r: &mut Rng) -> f64 {
    let f = gen::f64_(r);
    if f.is_nan() { 0.25 } else { f }
}

fn person<T>(r: &mut Rng, depth: usize, extra: &mut impl FnMut(&mut Rng) -> T) -> Person<T> {
    let h = gen::f32_(r);
    let i = |r: &mut Rng, t| dynser::int_of(r, t);
    let few = |r: &mut Rng| *r.pick(&[0, 0, 1, 2, 5]);
    Person {
        first_name: gen::string(r),
        age: i(r, IntTy::U8) as u8,
        balance: i(r, IntTy::I64) as i64,
        id: i(r, IntTy::U64) as u64,
        score: finite(r),
        height: Meters(if h.is_nan() { 1.5 } else { h }),
        initial: *r.pick(&['a', 'é', '😀', '\0']),
        nick: if r.bool() { Some(gen::string(r)) } else { None },
        marker: Marker,
        unit: (),
        shape: shape(r, 2),
        shapes: (0..few(r)).map(|_| shape(r, 2)).collect(),
        children: if depth == 0 { vec![] } else { (0..r.below(3)).map(|_| person(r, depth - 1, extra)).collect() },
        by_name: (0..few(r)).map(|_| (gen::key(r), if r.bool() { Some(i(r, IntTy::I16) as i16) } else { None })).collect(),
        by_char: (0..few(r)).map(|_| (*r.pick(&['x', 'y', 'z', 'é', '中', '😀']), i(r, IntTy::U16) as u16)).collect(),
        by_newtype: (0..few(r)).map(|_| (KeyName(gen::key(r)), (0..few(r)).map(|_| gen::string(r)).collect())).collect(),
        hash: (0..few(r)).map(|_| (gen::key(r), (0..few(r)).map(|_| (gen::key(r), i(r, IntTy::I8) as i8)).collect())).collect(),
        queue: (0..few(r)).map(|_| i(r, IntTy::U32) as u32).collect(),
        set: (0..few(r)).map(|_| i(r, IntTy::I64) as i64).collect(),
        array: [0; 5].map(|_: i16| i(r, IntTy::I16) as i16),
        tuple: (r.bool(), gen::string(r), (7, 0.5)),
        boxed: gen::string(r).into(),
        cow: Cow::Owned(gen::string(r)),
        result: if r.bool() { Ok(i(r, IntTy::I32) as i32) } else { Err(gen::string(r)) },
        time: std::time::Duration::new(r.u64(), (r.u64() % 1_000_000_000) as u32),
        range: 3..(i(r, IntTy::I32) as i32),
        nonzero: std::num::NonZeroU16::new(i(r, IntTy::U16).max(1) as u16).unwrap_or(std::num::NonZeroU16::MIN),
        addr: if r.bool() { std::net::Ipv4Addr::from(r.u64() as u32).into() } else { std::net::Ipv6Addr::from(u128::from(r.u64()) << 50).into() },
        phantom: PhantomData,
        a_name_which_is_longer_than_sixteen_bytes: r.bool(),
        defaulted: i(r, IntTy::U32) as u32,
        skipped: 0,
        rarely: if r.one_in(3) { vec![true, false] } else { vec![] },
        text: i(r, IntTy::I32) as i32,
        aliased: i(r, IntTy::U64) as usize,
        extra: extra(r),
        either: match r.below(4) {
            0 => Either::Number(i(r, IntTy::I64) as i64),
            1 => Either::Text(gen::string(r)),
            2 => Either::Point { x: i(r, IntTy::I32) as i32, y: -1 },
            _ => Either::List((0..few(r)).map(|_| i(r, IntTy::I32) as i32).collect()),
        },
    }
}

fn derived<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: &T) -> R<u64> {
    st::describe(|| format!("{:.500}", format!("{x:?}")));
    let b = bytes_of(x)?;
    let y: T = fleece::from_bytes(&b).map_err(|e| format!("a derived type is rejected: {e}"))?;
    ensure!(*x == y, "a derived type changes: {x:?} became {y:?}");
    let s = scope_of(x)?;
    let Some(data) = s.data() else { return Err("no data".into()) };
    let y: T = fleece::from_bytes(&data).map_err(|e| format!("a derived type with shared keys is rejected: {e}"))?;
    ensure!(*x == y, "a derived type with shared keys changes: {x:?} became {y:?}");
    st::hit("derived_values_compared");
    Ok(hash64(&b) | 1)
}

fn derived_case(r: &mut Rng, c: Ctx) -> R<u64> {
    let depth = if c.tiny() { 0 } else { r.below(3) };
    match r.below(9) {
        6 => derived(&odds(r, if c.tiny() { 1 } else { 4 })),
        7 => derived(&(0..r.below(6)).map(|_| odds(r, 2)).collect::<Vec<_>>()),
        8 => derived(&BTreeMap::from([(gen::key(r), odds(r, 1)), (gen::key(r), odds(r, 3))])),
        0 => derived(&person(r, depth, &mut |r| r.bool())),
        1 => derived(&person(r, depth, &mut |r| (0..r.below(4)).map(|_| shape(r, 1)).collect::<Vec<_>>())),
        2 => derived(&vec![person(r, 0, &mut |_| Marker), person(r, 0, &mut |_| Marker)]),
        3 => derived(&shape(r, 4)),
        4 => derived(&BTreeMap::from([(gen::key(r), person(r, 0, &mut |r| Some(gen::string(r)))), (gen::key(r), person(r, 0, &mut |_| None))])),
        _ => derived(&(shape(r, 2), Pair(gen::string(r), 7), person(r, 0, &mut |r| (gen::string(r), [1_u8, 2, 3])))),
    }
}

// ---------------------------------------------------------------- C22, C23

/// Every character, in 256 parts, alone, as a part of a text and as a key.
fn all_chars(part: u32, r: &mut Rng) -> R<u64> {
    let l: Vec<char> = (part * 0x1100..(part + 1) * 0x1100).filter_map(char::from_u32).collect();
    let b = bytes_of(&l)?;
    let got: Vec<char> = fleece::from_bytes(&b).map_err(|e| format!("characters: {e}"))?;
    ensure!(got == l, "the characters {:?} are read as {:?}", l.iter().zip(&got).find(|(a, b)| a != b), got.len());
    let words: Vec<String> = l.iter().map(|c| match r.below(4) {
        0 => format!("{c}a"),
        1 => format!("a{c}"),
        2 => format!("{c}{c}"),
        _ => c.to_string(),
    }).collect();
    let b = bytes_of(&words)?;
    let got: Vec<String> = fleece::from_bytes(&b).map_err(|e| format!("texts: {e}"))?;
    ensure!(got == words, "the text {:?} is read differently", words.iter().zip(&got).find(|(a, b)| a != b));
    let keys: BTreeMap<char, u32> = l.iter().filter(|_| r.one_in(8)).map(|c| (*c, *c as u32)).collect();
    let b = bytes_of(&keys)?;
    let got: BTreeMap<char, u32> = fleece::from_bytes(&b).map_err(|e| format!("characters as keys: {e}"))?;
    ensure!(got == keys, "the characters as keys are read as {} others", got.len());
    st::add("characters_round_tripped", l.len() as u64);
    Ok(hash64(&b) | 1)
}

pub fn c22(r: &mut Rng, c: Ctx) -> R<u64> {
    dynser::style(r.below(8) as u8);
    if c.case < 256 && !c.tiny() {
        return all_chars(c.case as u32, r);
    }
    if r.one_in(5) {
        return derived_case(r, c);
    }
    let (t, v) = typed(r, c);
    dynser::hints(r.below(4) as u8);
    let b = bytes_of(Ser(&t, &v))?;
    same("round trip", &t, &v, de(&t, &b))?;
    // in an exact buffer, and at another address
    let shift = r.below(4);
    let mut moved = vec![0x77; shift];
    moved.extend(&b);
    let moved = moved.into_boxed_slice();
    same("round trip at another address", &t, &v, de(&t, &moved[shift..]))?;
    let b2 = bytes_of(&Some(Box::new(Ser(&t, &v))))?;
    ensure!(b == b2, "serializing a value twice gives different bytes");
    dynser::hints(0);
    Ok(if dynser::leaves(&v) > 0 { hash64(&b) | 1 } else { 0 })
}

pub fn c23(r: &mut Rng, c: Ctx) -> R<u64> {
    dynser::style(r.below(8) as u8);
    if r.one_in(10) {
        return derived_case(r, c);
    }
    let (t, v) = typed(r, c);
    dynser::hints(r.below(4) as u8);
    let plain = bytes_of(Ser(&t, &v))?;
    let s = scope_of(Ser(&t, &v))?;
    dynser::hints(0);
    let Some(data) = s.data() else { return Err("no data".into()) };
    let Some(sk) = s.shared_keys() else { return Err("no shared keys".into()) };
    st::add("shared_keys_used", u64::from(sk.len()));
    same("with shared keys", &t, &v, de(&t, &data))?;
    let want = dynser::layout(&t, &v);
    let Some(root) = s.root() else { return Err("the scope has no root".into()) };
    observe::expect("document with shared keys", root.value(), observe::Opt { sk: Some(&sk), probes: true }, &want)?;
    observe::expect("document without shared keys", open(&plain)?, observe::FULL, &want)?;
    let a = fleece::from_bytes::<AnyVal>(&data).map_err(|e| format!("self-describing, with shared keys: {e}"))?;
    check("self-describing, with shared keys", a.1, &want)?;
    // Every field name that can be shared is
    let mut keys = vec![];
    collect_keys(&want, &mut keys);
    for k in &keys {
        if k.len() > 1 && sk.len() < 2000 {
            ensure!(sk.encode(k).is_some() == eligible(k), "the key {k:?} is {}shared", if eligible(k) { "not " } else { "" });
        }
    }
    // A copy elsewhere knows nothing of the keys: an error or the same, never something else
    let copy = drive::exact(&data);
    if let Ok(x) = de(&t, &copy) {
        ensure!(v.diff(&x).is_none(), "outside its scope, the data reads as something else: {}", v.diff(&x).unwrap_or_default());
    }
    // The same data in another scope with the same, reloaded keys
    let reloaded = SharedKeys::from_state_bytes(&sk.get_state_bytes());
    if let Some(k) = reloaded {
        let s2 = Scope::new(&data[..], Some(Arc::new(k)));
        drop(s);
        if let Some(d2) = s2.data() {
            same("with reloaded shared keys", &t, &v, de(&t, &d2))?;
        }
    } else {
        return Err("the shared keys are not reloaded".into());
    }
    Ok(if keys.iter().any(|k| eligible(k)) { hash64(&plain) | 1 } else { 0 })
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Copy)]
enum Odd {
    /// A map with this kind of key, after some good ones
    BadKey(u8),
    I128,
    U128,
}

impl Serialize for Odd {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Odd::I128 => s.serialize_i128(-5),
            Odd::U128 => s.serialize_u128(1 << 100),
            Odd::BadKey(k) => {
                let mut m = s.serialize_map(None)?;
                for i in 0..k / 32 {
                    m.serialize_entry(["one", "two", "three", "four", "5", "6", "7", "8"][i as usize % 8], &i)?;
                }
                m.serialize_entry(&BadKey(k % 32), &1)?;
                m.end()
            }
        }
    }
}

struct BadKey(u8);
const BAD_KEYS: [&str; 23] = ["Bool", "Int", "Int", "Int", "Int", "Int", "Int", "Int", "Int", "Float", "Float", "Bytes", "Option", "Unit", "Unit", "Enum", "Enum", "Enum", "Enum", "Sequence", "Tuple", "Map", "Struct"];
impl Serialize for BadKey {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            0 => s.serialize_bool(true),
            1 => s.serialize_i8(1),
            2 => s.serialize_i16(1),
            3 => s.serialize_i32(1),
            4 => s.serialize_i64(1),
            5 => s.serialize_u8(1),
            6 => s.serialize_u16(1),
            7 => s.serialize_u32(1),
            8 => s.serialize_u64(1),
            9 => s.serialize_f32(1.0),
            10 => s.serialize_f64(1.0),
            11 => s.serialize_bytes(b"k"),
            12 => s.serialize_none(),
            13 => s.serialize_unit(),
            14 => s.serialize_unit_struct("K"),
            15 => s.serialize_unit_variant("E", 0, "K"),
            16 => s.serialize_newtype_variant("E", 0, "K", "k"),
            17 => {
                let t = s.serialize_tuple_variant("E", 0, "K", 2)?;
                serde::ser::SerializeTupleVariant::end(t)
            }
            18 => {
                let t = s.serialize_struct_variant("E", 0, "K", 2)?;
                serde::ser::SerializeStructVariant::end(t)
            }
            19 => s.serialize_seq(Some(0))?.end(),
            20 => s.serialize_tuple(0)?.end(),
            21 => s.serialize_map(Some(0))?.end(),
            _ => {
                let t = s.serialize_struct("K", 0)?;
                serde::ser::SerializeStruct::end(t)
            }
        }
    }
}

/// Something odd, somewhere inside good data.
struct Around<'a>(u64, usize, &'a Ty, &'a Val, Odd);
impl Serialize for Around<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let Around(n, depth, t, v, odd) = *self;
        if depth == 0 {
            return odd.serialize(s);
        }
        let inner = Around(n / 7, depth - 1, t, v, odd);
        match n % 7 {
            0 => {
                let mut q = s.serialize_seq(None)?;
                q.serialize_element(&Ser(t, v))?;
                q.serialize_element(&inner)?;
                q.serialize_element(&Ser(t, v))?;
                q.end()
            }
            1 => {
                let mut m = s.serialize_map(Some(2))?;
                m.serialize_entry("first", &Ser(t, v))?;
                m.serialize_entry("odd", &inner)?;
                m.end()
            }
            2 => s.serialize_newtype_variant("E", 1, "Variant", &inner),
            3 => s.serialize_some(&vec![&inner, &inner]),
            4 => s.serialize_newtype_struct("N", &(1, &inner)),
            5 => {
                let mut q = s.serialize_struct_variant("E", 1, "Var", 1)?;
                serde::ser::SerializeStructVariant::serialize_field(&mut q, "field", &inner)?;
                serde::ser::SerializeStructVariant::end(q)
            }
            _ => {
                let mut q = s.serialize_tuple_variant("E", 1, "Var", 2)?;
                serde::ser::SerializeTupleVariant::serialize_field(&mut q, &Ser(t, v))?;
                serde::ser::SerializeTupleVariant::serialize_field(&mut q, &inner)?;
                serde::ser::SerializeTupleVariant::end(q)
            }
        }
    }
}

fn both(v: &impl Serialize, shared: bool) -> Result<(), Error> {
    if shared { fleece::to_bytes_with_shared_keys(v).map(|_| ()) } else { fleece::to_bytes(v).map(|_| ()) }
}

/// What deserialization must give.
#[derive(Debug)]
enum Exp {
    Is(Val),
    Bad,
    /// Not specified, but must end.
    Any,
}

fn all(parts: Vec<Exp>) -> Result<Vec<Val>, Exp> {
    let (mut v, mut any) = (vec![], false);
    for p in parts {
        match p {
            Exp::Is(x) => v.push(x),
            Exp::Bad => return Err(Exp::Bad),
            Exp::Any => any = true,
        }
    }
    if any { Err(Exp::Any) } else { Ok(v) }
}

/// What reading `d` as a `t` must give, from the documented layout.
fn expected(t: &Ty, d: &Doc) -> Exp {
    use Exp::{Any, Bad, Is};
    let seq = |l: &[Ty], a: &[Doc]| -> Exp {
        if a.len() < l.len() {
            return Bad;
        }
        let e = all(l.iter().zip(a).map(|(t, d)| expected(t, d)).collect());
        match e {
            Ok(v) if a.len() == l.len() => Is(Val::Seq(v)),
            Ok(_) => Any,
            Err(e) => e,
        }
    };
    let fields = |n: &[&'static str], l: &[Ty], m: &BTreeMap<String, Doc>| -> Exp {
        let e = n.iter().zip(l).map(|(n, t)| match (m.get(*n), t) {
            (Some(d), t) => expected(t, d),
            (None, Ty::Opt(_)) => Is(Val::None),
            (None, _) => Bad,
        });
        match all(e.collect()) {
            Ok(v) => Is(Val::Seq(v)),
            Err(e) => e,
        }
    };
    match (t, d) {
        (Ty::Bool, Doc::Bool(b)) => Is(Val::Bool(*b)),
        (Ty::Int(i), Doc::Int(x)) => {
            let (lo, hi) = i.range();
            if (lo..=hi).contains(x) { Is(Val::Int(*x)) } else { Bad }
        }
        (Ty::F32, Doc::F32(f)) => Is(Val::F32(*f)),
        (Ty::F64, Doc::F64(f)) => Is(Val::F64(*f)),
        (Ty::F64, Doc::F32(f)) => Is(Val::F64(f64::from(*f))),
        (Ty::F32, Doc::F64(f)) => Is(Val::F32(*f as f32)),
        (Ty::F32, Doc::Int(i)) => if i.abs() < 1 << 24 { Is(Val::F32(*i as f32)) } else { Any },
        (Ty::F64, Doc::Int(i)) => if i.abs() < 1 << 53 { Is(Val::F64(*i as f64)) } else { Any },
        (Ty::Char, Doc::Str(s)) => {
            let mut c = s.chars();
            match (c.next(), c.next()) {
                (Some(c), None) => Is(Val::Char(c)),
                _ => Bad,
            }
        }
        (Ty::Str, Doc::Str(s)) => Is(Val::Str(s.clone())),
        (Ty::Str, Doc::Data(_)) => Any,
        (Ty::Bytes, Doc::Data(b)) => Is(Val::Bytes(b.clone())),
        (Ty::Bytes, Doc::Str(_) | Doc::Arr(_)) => Any,
        (Ty::Unit, Doc::Undef) | (Ty::UnitStruct, Doc::Null) => Is(Val::Unit),
        (Ty::Unit, Doc::Null) | (Ty::UnitStruct, Doc::Undef) => Any,
        (Ty::Newtype(t), d) => expected(t, d),
        (Ty::Opt(_), Doc::Null) => Is(Val::None),
        (Ty::Opt(_), Doc::Undef) => Any,
        (Ty::Opt(t), d) => match expected(t, d) {
            Is(v) => Is(Val::Some(Box::new(v))),
            e => e,
        },
        (Ty::Seq(t), Doc::Arr(a)) => match all(a.iter().map(|d| expected(t, d)).collect()) {
            Ok(v) => Is(Val::Seq(v)),
            Err(e) => e,
        },
        (Ty::Tuple(l) | Ty::TupleStruct(l), Doc::Arr(a)) => seq(l, a),
        (Ty::Struct(n, l), Doc::Dict(m)) => fields(n, l, m),
        (Ty::Map(k, t), Doc::Dict(m)) => {
            if *k == KeyTy::Char && m.keys().any(|k| k.chars().count() != 1) {
                return Bad;
            }
            match all(m.values().map(|d| expected(t, d)).collect()) {
                Ok(v) => Is(Val::Map(m.keys().cloned().zip(v).collect())),
                Err(e) => e,
            }
        }
        (Ty::Enum(n, vars), Doc::Arr(a)) => {
            let Some(Doc::Str(name)) = a.first() else { return if a.is_empty() { Bad } else { Any } };
            let Some(i) = n.iter().position(|x| x == name) else { return Bad };
            let want = if matches!(vars[i], Var::Unit) { 1 } else { 2 };
            if a.len() < want {
                return Bad;
            }
            let e = match (&vars[i], a.get(1)) {
                // A unit variant is an array of its name only
                (Var::Unit, None) => Is(Val::Seq(vec![])),
                (Var::Newtype(t), Some(d)) => match expected(t, d) {
                    Is(v) => Is(Val::Seq(vec![v])),
                    e => e,
                },
                (Var::Tuple(l), Some(Doc::Arr(a))) if a.len() == l.len() => seq(l, a),
                (Var::Struct(n, l), Some(Doc::Dict(m))) => fields(n, l, m),
                _ => Bad,
            };
            match e {
                Is(Val::Seq(v)) if a.len() == want => Is(Val::Variant(i, v)),
                Is(_) => Any,
                e => e,
            }
        }
        _ => Bad,
    }
}

/// A type that is nearly `t`.
fn mutate(r: &mut Rng, t: &Ty) -> Ty {
    let sub = |r: &mut Rng, l: &[Ty]| -> Vec<Ty> {
        let mut l = l.to_vec();
        if !l.is_empty() {
            let i = r.below(l.len());
            l[i] = mutate(r, &l[i]);
        }
        l
    };
    if r.one_in(8) {
        return if r.bool() { dynser::leaf_ty(r) } else { dynser::ty(r, 2) };
    }
    match t {
        Ty::Int(_) => match r.below(8) {
            0 => Ty::F64,
            1 => Ty::F32,
            2 => Ty::Char,
            _ => Ty::Int(*r.pick(dynser::INTS)),
        },
        Ty::F32 | Ty::F64 => r.pick(&[Ty::F32, Ty::F64, Ty::Int(IntTy::I64), Ty::Int(IntTy::U8)]).clone(),
        Ty::Char | Ty::Str | Ty::Bytes => r.pick(&[Ty::Char, Ty::Str, Ty::Bytes]).clone(),
        Ty::Unit | Ty::UnitStruct => r.pick(&[Ty::Unit, Ty::UnitStruct, Ty::Bool]).clone(),
        Ty::Bool => r.pick(&[Ty::Int(IntTy::U8), Ty::Str, Ty::Unit]).clone(),
        Ty::Newtype(t) => if r.bool() { mutate(r, t) } else { Ty::Newtype(Box::new(mutate(r, t))) },
        Ty::Opt(t) => if r.one_in(3) { (**t).clone() } else { Ty::Opt(Box::new(mutate(r, t))) },
        Ty::Seq(t) => match r.below(4) {
            0 => Ty::Tuple(vec![(**t).clone(); 2]),
            1 => Ty::Map(KeyTy::Str, t.clone()),
            _ => Ty::Seq(Box::new(mutate(r, t))),
        },
        Ty::Tuple(l) | Ty::TupleStruct(l) => {
            let mut l = sub(r, l);
            match r.below(4) {
                0 => {
                    l.pop();
                }
                1 => l.push(Ty::Bool),
                _ => {}
            }
            Ty::Tuple(l)
        }
        Ty::Map(k, t) => match r.below(4) {
            0 => Ty::Map(KeyTy::Char, t.clone()),
            1 => Ty::Seq(t.clone()),
            _ => Ty::Map(*k, Box::new(mutate(r, t))),
        },
        Ty::Struct(n, l) => {
            let (mut n, mut l) = (n.to_vec(), sub(r, l));
            match r.below(4) {
                0 if !n.is_empty() => {
                    n.pop();
                    l.pop();
                }
                1 if !n.contains(&"absent") => {
                    n.push("absent");
                    l.push(if r.bool() { Ty::Opt(Box::new(Ty::Bool)) } else { Ty::Bool });
                }
                _ => {}
            }
            Ty::Struct(dynser::names(n), l)
        }
        Ty::Enum(n, v) => {
            let (mut n, mut v) = (n.to_vec(), v.clone());
            let i = r.below(v.len());
            match r.below(4) {
                0 => {
                    n.rotate_left(1);
                }
                1 if v.len() > 1 => {
                    v.remove(i);
                    n.remove(i);
                }
                _ => {
                    v[i] = match &v[i] {
                        Var::Unit => Var::Newtype(Ty::Bool),
                        Var::Newtype(t) => if r.one_in(3) { Var::Unit } else { Var::Newtype(mutate(r, t)) },
                        Var::Tuple(l) => match r.below(3) {
                            0 => Var::Tuple(sub(r, l)),
                            1 => Var::Tuple(l.iter().skip(1).cloned().collect()),
                            _ => Var::Newtype(Ty::Tuple(l.clone())),
                        },
                        Var::Struct(f, l) => if r.bool() { Var::Struct(f, sub(r, l)) } else { Var::Newtype(Ty::Struct(f, l.clone())) },
                    };
                }
            }
            Ty::Enum(dynser::names(n), v)
        }
    }
}

fn judge(what: &str, t: &Ty, d: &Doc, got: Result<Val, Error>) -> R {
    match (expected(t, d), got) {
        (Exp::Is(w), Ok(g)) => {
            st::hit("mismatch_accepted");
            match w.diff(&g) {
                None => Ok(()),
                Some(e) => Err(format!("{what}: {e} (type {})", brief(t))),
            }
        }
        (Exp::Is(w), Err(e)) => Err(format!("{what}: rejected ({e}) instead of {} (type {})", w.brief(), brief(t))),
        (Exp::Bad, Ok(g)) => Err(format!("{what}: read as {} instead of rejected (type {})", g.brief(), brief(t))),
        (Exp::Bad, Err(e)) => {
            ensure!(!e.to_string().is_empty() && !format!("{e:?}").is_empty(), "{what}: the error has no text");
            st::hit("mismatch_rejected");
            Ok(())
        }
        (Exp::Any, _) => {
            st::hit("mismatch_unspecified");
            Ok(())
        }
    }
}

pub fn c24(r: &mut Rng, c: Ctx) -> R<u64> {
    dynser::style(r.below(8) as u8);
    let shared = r.one_in(3);
    match r.below(10) {
        9 => {
            // Integer keys which the table of the scope does not have
            let d = gen::dicty(r);
            let mut keys = vec![];
            collect_keys(&d, &mut keys);
            keys.sort();
            keys.dedup();
            r.shuffle(&mut keys);
            let n = *r.pick(&[0, 0, 1, 3, 60, 1023, 1024, 2047, 2048, 2048]);
            let last = *r.pick(&[n, n + 1, n + 5, 2047, 2048, 2049, 3000, 4095, 4095]).max(&n);
            let bad = r.range(1, 3);
            let (mut table, mut sk) = (HashMap::new(), SharedKeys::new());
            let mut beyond = 0;
            for k in &keys {
                if beyond < bad {
                    // Bit 11 is the sign of an integer: what is above 2047 is a negative key
                    let i = r.range(n, last.min(4095).max(n)) as u16;
                    if !table.values().any(|x| *x == i) {
                        table.insert(k.clone(), i);
                        beyond += 1;
                    }
                } else if eligible(k) && usize::from(sk.len()) < n && r.bool() {
                    let Some(i) = sk.encode_and_insert(k) else { return Err(format!("the key {k:?} is not added")) };
                    table.insert(k.clone(), i);
                }
            }
            for i in 0.. {
                if usize::from(sk.len()) >= n {
                    break;
                }
                sk.encode_and_insert(&format!("filler{i}"));
            }
            if beyond == 0 {
                return Ok(0);
            }
            st::describe(|| format!("{:.300} with {table:?} of {n} keys", format!("{d:?}")));
            let style = refenc::Style::random(r);
            let b = refenc::encode(&d, Some(&table), style, r);
            let s = Scope::new(b.clone(), Some(Arc::new(sk)));
            let Some(data) = s.data() else { return Err("no data".into()) };
            match fleece::from_bytes::<AnyVal>(&data) {
                Err(e) => drop(format!("{e} {e:?}")),
                Ok(a) => return Err(format!("{:.300} has keys which are not in the table of {n} keys, and reads as {:.300}", format!("{d:?} {table:?}"), format!("{:?}", a.1))),
            }
            for _ in 0..2 {
                let t = dynser::ty(r, 2);
                let _ = de(&t, &data);
            }
            st::hit("keys_beyond_the_table");
            Ok(hash64(&b) | 1)
        }
        0 | 1 => {
            let kind = r.below(BAD_KEYS.len());
            let odd = match r.below(6) {
                0 => Odd::I128,
                1 => Odd::U128,
                _ => Odd::BadKey((kind + 32 * r.below(8)) as u8),
            };
            let (t, v) = typed(r, Ctx { variant: crate::Variant::Miri, ..c });
            let depth = if matches!(odd, Odd::BadKey(_)) { r.below(6) } else { r.range(1, 5) };
            let n = r.u64();
            st::describe(|| format!("odd value kind {kind} at depth {depth}, path {n}"));
            let e = both(&Around(n, depth, &t, &v, odd), shared);
            match (odd, e) {
                (Odd::BadKey(_), Err(Error::Serialize(SerializeError::KeyNotString(k)))) => {
                    ensure!(format!("{k:?}") == BAD_KEYS[kind], "the key of kind {} is reported as {k:?}", BAD_KEYS[kind]);
                }
                (Odd::I128 | Odd::U128, Err(_)) => {}
                (_, Ok(())) => return Err(format!("a {} is serialized", if matches!(odd, Odd::BadKey(_)) { "map key which is not a string" } else { "128-bit integer" })),
                (_, Err(e)) => return Err(format!("a bad key is reported as {e:?}")),
            }
            st::hit("odd_values_rejected");
            // and afterwards all is well
            let b = bytes_of(Ser(&t, &v))?;
            same("after a rejected value", &t, &v, de(&t, &b))?;
            Ok(hash64(&[kind as u8, depth as u8, n as u8, shared as u8]) | 1)
        }
        2 => {
            let mut t = dynser::leaf_ty(r);
            if r.one_in(3) {
                t = Ty::Newtype(Box::new(t));
            }
            if r.one_in(3) {
                t = Ty::Opt(Box::new(t));
            }
            let v = dynser::val(r, &t, &mut 10);
            st::describe(|| format!("root {v:?}"));
            match both(&Ser(&t, &v), shared) {
                Err(Error::Serialize(SerializeError::ValueNotCollection)) => {}
                x => return Err(format!("a {} at the top is {x:?} instead of ValueNotCollection", brief(&t))),
            }
            st::hit("scalar_roots_rejected");
            Ok(hash64(format!("{t:?}{v:?}").as_bytes()) | 1)
        }
        3 => {
            let (t, v) = typed(r, c);
            let leaves = dynser::leaves(&v);
            if leaves == 0 {
                return Ok(0);
            }
            let at = r.below(leaves as usize) as u64;
            dynser::fail_at(Some(at));
            let e = both(&Ser(&t, &v), shared);
            dynser::fail_at(None);
            match e {
                Err(Error::Message(m)) if m == FAILURE => {}
                Err(e) => return Err(format!("the error of a value which refuses to be serialized becomes {e:?}")),
                Ok(()) => return Err("the error of a value which refuses to be serialized is lost".into()),
            }
            st::hit("failing_values");
            let b = bytes_of(Ser(&t, &v))?;
            same("after a failing value", &t, &v, de(&t, &b))?;
            Ok(hash64(&b) ^ at | 1)
        }
        4..=6 => {
            // Nearly the right type
            let (t, v) = typed(r, c);
            let d = dynser::layout(&t, &v);
            let mut t2 = t.clone();
            for _ in 0..*r.pick(&[1, 1, 2, 4]) {
                t2 = mutate(r, &t2);
            }
            st::describe(|| format!("{} written as {} and read as {}", v.brief(), brief(&t), brief(&t2)));
            if shared {
                let s = scope_of(Ser(&t, &v))?;
                let Some(data) = s.data() else { return Err("no data".into()) };
                judge("mismatch with shared keys", &t2, &d, de(&t2, &data))?;
            } else {
                let b = bytes_of(Ser(&t, &v))?;
                judge("mismatch", &t2, &d, de(&t2, &b))?;
            }
            Ok(d.fp() | 1)
        }
        7 => {
            // A document which has nothing to do with the type, scalars at the top included
            let d = match r.below(4) {
                0 => gen::leaf(r),
                1 => gen::small_doc(r),
                2 if !c.tiny() => gen::doc(r),
                _ => gen::dicty(r),
            };
            let t = if r.one_in(3) { dynser::leaf_ty(r) } else { dynser::ty(r, 2) };
            st::describe(|| format!("{:.300} read as {}", format!("{d:?}"), brief(&t)));
            let style = refenc::Style::random(r);
            let b = refenc::encode(&d, None, style, r);
            judge("mismatch", &t, &d, de(&t, &b))?;
            let x = fleece::from_bytes::<Person<bool>>(&b);
            ensure!(x.is_err(), "a random document is a Person");
            let _ = fleece::from_bytes::<Either>(&b);
            Ok(d.fp() | 1)
        }
        _ => {
            // Malformed data
            let b = malform::any(r, c.tiny());
            st::describe(|| format!("{b:02x?}"));
            let b = drive::exact(&b);
            match classify(&b, 20_000) {
                Kind::Skip => return Ok(0),
                Kind::Bad(_) | Kind::Good(_) => {}
            }
            for _ in 0..3 {
                let t = if r.one_in(3) { dynser::leaf_ty(r) } else { dynser::ty(r, 2) };
                match de(&t, &b) {
                    Ok(v) => st::add("malformed_values_read", dynser::leaves(&v)),
                    Err(e) => {
                        let _ = format!("{e} {e:?}");
                        st::hit("malformed_rejected");
                    }
                }
            }
            let _ = fleece::from_bytes::<AnyVal>(&b).map(|x| st::add("malformed_values_read", x.0 as u64));
            let _ = fleece::from_bytes::<Person<Shape>>(&b).map(|_| ());
            let _ = fleece::from_bytes::<Vec<Shape>>(&b).map(|_| ());
            let _ = fleece::from_bytes::<HashMap<String, Either>>(&b).map(|_| ());
            let _ = fleece::from_bytes::<serde::de::IgnoredAny>(&b).map(|_| ());
            Ok(hash64(&b) | 1)
        }
    }
}

// ---------------------------------------------------------------- C25

pub fn c25(r: &mut Rng, c: Ctx) -> R<u64> {
    dynser::style(r.below(8) as u8);
    let (t, v) = typed(r, c);
    let want = dynser::layout(&t, &v);
    // out of serde
    dynser::hints(r.below(4) as u8);
    let b = bytes_of(Ser(&t, &v));
    dynser::hints(0);
    let b = b?;
    let (got, _) = refdec::strict(&b, None)?;
    check("serialized, independent decoder", got, &want)?;
    observe::expect("serialized", open(&b)?, observe::FULL, &want)?;
    // into serde, from the encoder, and from any other one
    let e = drive::bytes(&want, r)?;
    same("written with the Encoder", &t, &v, de(&t, &e))?;
    let style = refenc::Style::random(r);
    let o = refenc::encode(&want, None, style, r).into_boxed_slice();
    same("from an independent encoder", &t, &v, de(&t, &o))?;
    let a = fleece::from_bytes::<AnyVal>(&o).map_err(|e| format!("self-describing: {e}"))?;
    check("self-describing", a.1, &want)?;
    // with shared keys
    let mut sk = SharedKeys::new();
    let (mut table, mut keys) = (HashMap::new(), vec![]);
    collect_keys(&want, &mut keys);
    r.shuffle(&mut keys);
    for k in keys {
        if eligible(&k) && r.below(3) > 0 && sk.len() < 2048 {
            let Some(i) = sk.encode_and_insert(&k) else { return Err(format!("the key {k:?} is not added")) };
            table.insert(k, i);
        }
    }
    let style = refenc::Style::random(r);
    let o = refenc::encode(&want, Some(&table), style, r);
    let s = Scope::new(o, Some(Arc::new(sk)));
    let Some(data) = s.data() else { return Err("no data".into()) };
    same("from an independent encoder, with shared keys", &t, &v, de(&t, &data))?;
    let a = fleece::from_bytes::<AnyVal>(&data).map_err(|e| format!("self-describing: {e}"))?;
    check("self-describing, with shared keys", a.1, &want)?;
    drop(s);
    // a mutable collection of the same content
    // unknown fields are ignored, absent options are None
    if let (Ty::Struct(n, l), Doc::Dict(m)) = (&t, &want) {
        let mut m = m.clone();
        let mut v2 = v.clone();
        if let Val::Seq(v2) = &mut v2 {
            for (i, t) in l.iter().enumerate() {
                if matches!(t, Ty::Opt(_)) && r.bool() {
                    m.remove(n[i]);
                    v2[i] = Val::None;
                }
            }
        }
        for k in ["zz_unknown", "Unknown field", "a0"] {
            if r.bool() {
                let d = gen::small_doc(r);
                m.insert(k.to_string(), d);
            }
        }
        let b = drive::bytes(&Doc::Dict(m), r)?;
        same("with unknown and absent fields", &t, &v2, de(&t, &b))?;
        st::hit("unknown_fields");
    }
    // any document
    if r.one_in(4) {
        let d = if c.tiny() { gen::small_doc(r) } else { gen::doc(r) };
        st::describe(|| format!("{:.500}", format!("{d:?}")));
        let b = drive::bytes(&d, r)?;
        let a = fleece::from_bytes::<AnyVal>(&b).map_err(|e| format!("self-describing: {e}"))?;
        check("self-describing", a.1, &d)?;
    }
    Ok(if dynser::leaves(&v) > 0 { want.fp() | 1 } else { 0 })
}
