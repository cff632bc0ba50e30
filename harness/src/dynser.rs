//! Rust types chosen at run time, which serialize and deserialize as a derived implementation would.
use crate::doc::Doc;
use crate::gen;
use crate::rng::Rng;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize, Serializer};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IntTy {
    I8, I16, I32, I64, U8, U16, U32, U64,
}
pub const INTS: &[IntTy] = &[IntTy::I8, IntTy::I16, IntTy::I32, IntTy::I64, IntTy::U8, IntTy::U16, IntTy::U32, IntTy::U64];

impl IntTy {
    pub fn range(self) -> (i128, i128) {
        match self {
            IntTy::I8 => (i8::MIN.into(), i8::MAX.into()),
            IntTy::I16 => (i16::MIN.into(), i16::MAX.into()),
            IntTy::I32 => (i32::MIN.into(), i32::MAX.into()),
            IntTy::I64 => (i64::MIN.into(), i64::MAX.into()),
            IntTy::U8 => (0, u8::MAX.into()),
            IntTy::U16 => (0, u16::MAX.into()),
            IntTy::U32 => (0, u32::MAX.into()),
            IntTy::U64 => (0, u64::MAX.into()),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum KeyTy {
    Str, Char, Newtype, Some,
}

type Names = &'static [&'static str];

#[derive(Clone, Debug)]
pub enum Ty {
    Bool,
    Int(IntTy),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Unit,
    UnitStruct,
    Newtype(Box<Ty>),
    Opt(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Map(KeyTy, Box<Ty>),
    Struct(Names, Vec<Ty>),
    Enum(Names, Vec<Var>),
}

#[derive(Clone, Debug)]
pub enum Var {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(Names, Vec<Ty>),
}

#[derive(Clone, Debug)]
pub enum Val {
    Bool(bool),
    Int(i128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Val>),
    Seq(Vec<Val>),
    Map(BTreeMap<String, Val>),
    Variant(usize, Vec<Val>),
}

impl Val {
    /// First difference.
    pub fn diff(&self, got: &Val) -> Option<String> {
        fn seqs(a: &[Val], b: &[Val], what: &str) -> Option<String> {
            if a.len() != b.len() {
                return Some(format!("{what}: {} elements expected, got {}", a.len(), b.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (x, y))| x.diff(y).map(|e| format!("[{i}]{e}")))
        }
        let ok = match (self, got) {
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::Int(a), Val::Int(b)) => a == b,
            (Val::F32(a), Val::F32(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Val::F64(a), Val::F64(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Val::Char(a), Val::Char(b)) => a == b,
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::Bytes(a), Val::Bytes(b)) => a == b,
            (Val::Unit, Val::Unit) | (Val::None, Val::None) => true,
            (Val::Some(a), Val::Some(b)) => return a.diff(b),
            (Val::Seq(a), Val::Seq(b)) => return seqs(a, b, "seq"),
            (Val::Variant(i, a), Val::Variant(j, b)) if i == j => return seqs(a, b, "variant"),
            (Val::Map(a), Val::Map(b)) => {
                if a.len() != b.len() || a.keys().ne(b.keys()) {
                    return Some(format!(": a map of {} became a map of {}", a.len(), b.len()));
                }
                return a.iter().zip(b.values()).find_map(|((k, x), y)| x.diff(y).map(|e| format!(".{k:?}{e}")));
            }
            _ => false,
        };
        if ok { None } else { Some(format!(": expected {}, got {}", self.brief(), got.brief())) }
    }
    pub fn brief(&self) -> String {
        let mut s = format!("{self:?}");
        if s.len() > 200 {
            let mut e = 200;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            s.truncate(e);
            s.push('…');
        }
        s
    }
}

// ---------------------------------------------------------------- interned names

thread_local! {
    static ROOT: RefCell<Vec<Ty>> = const { RefCell::new(Vec::new()) };
    /// Serialization fails at this leaf.
    static FAIL_AT: Cell<Option<u64>> = const { Cell::new(None) };
    /// What the hints of sequences and maps say: 0 the length, 1 nothing, 2 something wrong, 3 something absurd.
    static HINT: Cell<u8> = const { Cell::new(0) };
    static STYLE: Cell<u8> = const { Cell::new(0) };
}

static INTERNED: Mutex<BTreeMap<Vec<&'static str>, Names>> = Mutex::new(BTreeMap::new());

const POOL: &[&str] = &[
    "id", "name", "Name", "x", "y", "z", "a", "b", "c", "ab", "abc", "type", "firstName", "lastName", "value", "tags", "kind", "data", "user_id", "is-on",
    "exactly_16_bytes", "seventeen_bytes_x", "a_name_which_is_much_too_long_to_share", "with space", "dot.ted", "clé", "名前", "k0", "k1", "k2", "k3", "k4", "k5",
    "Unit", "Circle", "Rect", "Error", "Ok", "V1", "V2", "V3", "None", "Some", "",
    // 53 in total, a prime, so that every step below leads through all of them
    "p_long_name_of_a_field_or_variant__long_name_of_a_field_or_vari",
    "q_long_name_of_a_field_or_variant__long_name_of_a_field_or_varia",
    "r_long_name_of_a_field_or_variant__long_name_of_a_field_or_varian",
    "s_long_name_of_a_field_or_variant__long_name_of_a_field_or_variant__long_name_of_a_field_or_variant__long_name_of_a_field_or_va",
    "t_long_name_of_a_field_or_variant__long_name_of_a_field_or_variant__long_name_of_a_field_or_variant__long_name_of_a_field_or_var",
    "u_long_name_of_a_field_or_variant__long_name_of_a_field_or_variant__long_name_of_a_field_or_variant__long_name_of_a_field_or_vari",
    "v_long_name_of_a_field_or_variant__long_name_of_a_field_or_variant__long_name_of_a_field_or_variant__long_name_of_a_field_or_variant__long_name_of_a_field_or_variant__long_name_of_a_field_or_variant__long_name_of_a_field_or_variant__long_name_of_a_field_or_",
    "éééééééééééééééééééééééééééééééééééééééé",
    "𝕏x𝕏x𝕏x𝕏x𝕏x𝕏x𝕏x𝕏x𝕏x𝕏x𝕏x𝕏x𝕏x𝕏x𝕏x",
];

pub fn names(v: Vec<&'static str>) -> Names {
    let mut n = INTERNED.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = n.get(&v) {
        return *x;
    }
    let leaked: Names = Box::leak(v.clone().into_boxed_slice());
    n.insert(v, leaked);
    leaked
}

fn some_names(r: &mut Rng, n: usize) -> Names {
    // few distinct lists, since they are never freed
    let start = r.below(POOL.len());
    let step = *r.pick(&[1, 3, 5]);
    let mut v: Vec<&'static str> = vec![];
    let mut i = start;
    while v.len() < n.min(20) {
        let s = POOL[i % POOL.len()];
        if !v.contains(&s) {
            v.push(s);
        }
        i += step;
    }
    names(v)
}

/// `n` names of their own; `n` is one of few, since they are never freed.
fn numbered(n: usize) -> Names {
    static NUMBERED: Mutex<BTreeMap<usize, Names>> = Mutex::new(BTreeMap::new());
    let mut m = NUMBERED.lock().unwrap_or_else(|e| e.into_inner());
    m.entry(n).or_insert_with(|| {
        let l: Vec<&'static str> = (0..n).map(|i| &*Box::leak(format!("field_{i}").into_boxed_str())).collect();
        Box::leak(l.into_boxed_slice())
    })
}

// ---------------------------------------------------------------- generation

/// Types and values of a size at which a representation, or an implementation, may change.
pub fn big(r: &mut Rng) -> (Ty, Val) {
    const WIDE: &[usize] = &[33, 64, 65, 127, 129, 255, 256, 257, 300, 1025, 2049];
    const MANY: &[usize] = &[255, 256, 257, 1023, 1024, 1025, 1100, 1500, 2046, 2047, 2048, 2049, 2100, 3000, 5000];
    let small = |r: &mut Rng| {
        let depth = r.below(2);
        ty(r, depth)
    };
    let vals = |r: &mut Rng, l: &[Ty]| l.iter().map(|t| val(r, t, &mut 2)).collect::<Vec<_>>();
    crate::st::hit("large_typed_values");
    match r.below(6) {
        0 | 1 => {
            let t = small(r);
            let n = *r.pick(MANY);
            let kind = r.below(3);
            let m = (0..n).map(|i| {
                let k = match kind {
                    0 => format!("k{i}"),
                    1 => format!("{:05}", (i * 7919) % 100_003),
                    _ => format!("a name of some length, number {i}"),
                };
                (k, val(r, &t, &mut 2))
            }).collect();
            let key = if r.bool() { KeyTy::Str } else { KeyTy::Newtype };
            (Ty::Map(key, Box::new(t)), Val::Map(m))
        }
        2 => {
            let t = small(r);
            let n = if r.one_in(10) { *r.pick(&[16_384, 32_768, 65_535, 65_536, 65_537, 70_000]) } else { *r.pick(MANY) };
            let v = Val::Seq((0..n).map(|_| val(r, &t, &mut 2)).collect());
            (Ty::Seq(Box::new(t)), v)
        }
        3 => {
            let n = *r.pick(WIDE);
            let l: Vec<Ty> = (0..n).map(|_| small(r)).collect();
            let v = Val::Seq(vals(r, &l));
            (Ty::Struct(numbered(n), l), v)
        }
        4 => {
            let n = *r.pick(WIDE);
            let l: Vec<Ty> = (0..n).map(|_| small(r)).collect();
            let v = Val::Seq(vals(r, &l));
            (if r.bool() { Ty::Tuple(l) } else { Ty::TupleStruct(l) }, v)
        }
        _ => {
            // many variants
            let n = *r.pick(WIDE);
            let vars: Vec<Var> = (0..n).map(|i| match i % 4 {
                0 => Var::Unit,
                1 => Var::Newtype(small(r)),
                2 => Var::Tuple(vec![small(r), small(r)]),
                _ => Var::Struct(numbered(2), vec![small(r), small(r)]),
            }).collect();
            let t = Ty::Enum(numbered(n), vars);
            let v = Val::Seq((0..40).map(|_| val(r, &t, &mut 2)).collect());
            (Ty::Seq(Box::new(t)), v)
        }
    }
}

/// Something that an Option around it can't be told apart from None. The unit can, because it is
/// Undefined and None is Null.
fn nullable(t: &Ty) -> bool {
    match t {
        Ty::Opt(_) | Ty::UnitStruct => true,
        Ty::Newtype(t) => nullable(t),
        _ => false,
    }
}

pub fn leaf_ty(r: &mut Rng) -> Ty {
    match r.below(14) {
        0 => Ty::Bool,
        1..=5 => Ty::Int(*r.pick(INTS)),
        6 => Ty::F32,
        7 => Ty::F64,
        8 => Ty::Char,
        9 | 10 => Ty::Str,
        11 => Ty::Bytes,
        12 => Ty::Unit,
        _ => Ty::UnitStruct,
    }
}

pub fn ty(r: &mut Rng, depth: usize) -> Ty {
    if depth == 0 || r.one_in(4) {
        return leaf_ty(r);
    }
    if r.one_in(6) {
        return Ty::Newtype(Box::new(ty(r, depth - 1)));
    }
    if r.one_in(5) {
        let t = ty(r, depth - 1);
        return if nullable(&t) { t } else { Ty::Opt(Box::new(t)) };
    }
    collection(r, depth)
}

fn list(r: &mut Rng, max: usize, depth: usize) -> Vec<Ty> {
    (0..r.below(max + 1)).map(|_| ty(r, depth - 1)).collect()
}

fn fields(r: &mut Rng, max: usize, depth: usize) -> (Names, Vec<Ty>) {
    let f = list(r, max, depth);
    (some_names(r, f.len()), f)
}

pub fn collection(r: &mut Rng, depth: usize) -> Ty {
    match r.below(9) {
        0 | 1 => Ty::Seq(Box::new(ty(r, depth - 1))),
        2 => Ty::Tuple(list(r, 5, depth)),
        3 => {
            let mut l = list(r, 4, depth);
            if l.len() == 1 {
                l.push(Ty::Bool);
            }
            Ty::TupleStruct(l)
        }
        4 | 5 => Ty::Map(*r.pick(&[KeyTy::Str, KeyTy::Str, KeyTy::Char, KeyTy::Newtype, KeyTy::Some]), Box::new(ty(r, depth - 1))),
        6 | 7 => {
            let (n, f) = fields(r, 8, depth);
            Ty::Struct(n, f)
        }
        _ => {
            let vars: Vec<Var> = (0..r.range(1, 5))
                .map(|_| match r.below(4) {
                    0 => Var::Unit,
                    1 => Var::Newtype(ty(r, depth - 1)),
                    2 => {
                        let mut l = list(r, 4, depth);
                        if l.len() == 1 {
                            l.push(Ty::F64);
                        }
                        Var::Tuple(l)
                    }
                    _ => {
                        let (n, f) = fields(r, 4, depth);
                        Var::Struct(n, f)
                    }
                })
                .collect();
            Ty::Enum(some_names(r, vars.len()), vars)
        }
    }
}

/// A type which can be at the top: a collection, possibly in newtypes and Options.
pub fn root(r: &mut Rng, depth: usize) -> Ty {
    let t = collection(r, depth.max(1));
    match r.below(10) {
        0 => Ty::Newtype(Box::new(t)),
        1 => Ty::Newtype(Box::new(Ty::Newtype(Box::new(t)))),
        _ => t,
    }
}

pub fn int_of(r: &mut Rng, t: IntTy) -> i128 {
    let (lo, hi) = t.range();
    match r.below(6) {
        0 => lo,
        1 => hi,
        2 => lo.max(-2048) + i128::from(r.u64() % 4100).min(hi - lo.max(-2048)),
        _ => {
            let i = gen::int(r);
            if i < lo || i > hi { lo + (i128::from(r.u64()) % (hi - lo + 1)) } else { i }
        }
    }
}

pub fn val(r: &mut Rng, t: &Ty, budget: &mut usize) -> Val {
    *budget = budget.saturating_sub(1);
    let n = |r: &mut Rng, b: &usize| (*r.pick(&[0, 1, 2, 3, 5, 8, 30])).min(*b);
    let all = |r: &mut Rng, l: &[Ty], budget: &mut usize| l.iter().map(|t| val(r, t, budget)).collect::<Vec<_>>();
    match t {
        Ty::Bool => Val::Bool(r.bool()),
        Ty::Int(i) => Val::Int(int_of(r, *i)),
        Ty::F32 => Val::F32(gen::f32_(r)),
        Ty::F64 => Val::F64(gen::f64_(r)),
        Ty::Char => Val::Char(ch(r)),
        Ty::Str => Val::Str(gen::string(r)),
        Ty::Bytes => Val::Bytes(gen::data(r)),
        Ty::Unit | Ty::UnitStruct => Val::Unit,
        Ty::Newtype(t) => val(r, t, budget),
        Ty::Opt(t) => if r.one_in(3) { Val::None } else { Val::Some(Box::new(val(r, t, budget))) },
        Ty::Seq(t) => Val::Seq((0..n(r, budget)).map(|_| val(r, t, budget)).collect()),
        Ty::Tuple(l) | Ty::TupleStruct(l) => Val::Seq(all(r, l, budget)),
        Ty::Struct(_, l) => Val::Seq(all(r, l, budget)),
        Ty::Map(k, t) => {
            let mut m = BTreeMap::new();
            for _ in 0..n(r, budget) {
                let key = if *k == KeyTy::Char { ch(r).to_string() } else { gen::key(r) };
                m.insert(key, val(r, t, budget));
            }
            Val::Map(m)
        }
        Ty::Enum(_, vars) => {
            let i = r.below(vars.len());
            let v = match &vars[i] {
                Var::Unit => vec![],
                Var::Newtype(t) => vec![val(r, t, budget)],
                Var::Tuple(l) | Var::Struct(_, l) => all(r, l, budget),
            };
            Val::Variant(i, v)
        }
    }
}

fn ch(r: &mut Rng) -> char {
    if r.one_in(3) {
        return crate::gen::any_char(r);
    }
    *r.pick(&['a', 'Z', '0', '_', '-', ' ', '\0', '\u{7f}', 'é', 'Ω', '中', '\u{FFFF}', '😀', '\u{10FFFF}'])
}

/// The document which the library documents for a value.
pub fn layout(t: &Ty, v: &Val) -> Doc {
    let zip = |l: &[Ty], v: &[Val]| -> Vec<Doc> { l.iter().zip(v).map(|(t, v)| layout(t, v)).collect() };
    let dict = |n: Names, l: &[Ty], v: &[Val]| Doc::Dict(n.iter().map(|s| (*s).to_string()).zip(zip(l, v)).collect());
    match (t, v) {
        (_, Val::Bool(b)) => Doc::Bool(*b),
        (_, Val::Int(i)) => Doc::Int(*i),
        (_, Val::F32(f)) => Doc::F32(*f),
        (_, Val::F64(f)) => Doc::F64(*f),
        (_, Val::Char(c)) => Doc::Str(c.to_string()),
        (_, Val::Str(s)) => Doc::Str(s.clone()),
        (_, Val::Bytes(b)) => Doc::Data(b.clone()),
        (_, Val::None) => Doc::Null,
        (Ty::Unit, _) => Doc::Undef,
        (Ty::UnitStruct, _) => Doc::Null,
        (Ty::Newtype(t), v) => layout(t, v),
        (Ty::Opt(t), Val::Some(v)) => layout(t, v),
        (Ty::Seq(t), Val::Seq(v)) => Doc::Arr(v.iter().map(|v| layout(t, v)).collect()),
        (Ty::Tuple(l) | Ty::TupleStruct(l), Val::Seq(v)) => Doc::Arr(zip(l, v)),
        (Ty::Struct(n, l), Val::Seq(v)) => dict(n, l, v),
        (Ty::Map(_, t), Val::Map(m)) => Doc::Dict(m.iter().map(|(k, v)| (k.clone(), layout(t, v))).collect()),
        (Ty::Enum(n, vars), Val::Variant(i, v)) => {
            let name = Doc::Str(n[*i].to_string());
            Doc::Arr(match &vars[*i] {
                Var::Unit => vec![name],
                Var::Newtype(t) => vec![name, layout(t, &v[0])],
                Var::Tuple(l) => vec![name, Doc::Arr(zip(l, v))],
                Var::Struct(n, l) => vec![name, dict(n, l, v)],
            })
        }
        _ => unreachable!("{t:?} {v:?}"),
    }
}

pub fn leaves(v: &Val) -> u64 {
    match v {
        Val::Some(v) => leaves(v),
        Val::Seq(l) | Val::Variant(_, l) => l.iter().map(leaves).sum(),
        Val::Map(m) => m.values().map(leaves).sum(),
        _ => 1,
    }
}

// ---------------------------------------------------------------- serialization

#[derive(Clone, Copy)]
pub struct Ser<'a>(pub &'a Ty, pub &'a Val);

pub const FAILURE: &str = "this value refuses to be serialized";

pub fn fail_at(n: Option<u64>) {
    FAIL_AT.with(|f| f.set(n));
}
pub fn hints(h: u8) {
    HINT.with(|x| x.set(h));
}
/// How what is deserialized is asked for: 1: entries instead of keys and values,
/// 2: the size hint of what remains, 4: again after the end.
pub fn style(h: u8) {
    STYLE.with(|x| x.set(h));
}
fn styled(bit: u8) -> bool {
    STYLE.with(Cell::get) & bit != 0
}
/// What a size hint says, if it says anything, is what there is.
fn remains<E: de::Error>(what: &str, hint: Option<usize>, at: usize, hint_now: Option<usize>) -> Result<(), E> {
    if styled(2) {
        crate::st::hit("size_hints_of_what_remains_checked");
    }
    match (hint, hint_now) {
        (Some(n), Some(m)) if styled(2) && n != at + m => Err(E::custom(format!("the size hint of a {what} of {n} is {m} after {at}"))),
        _ => Ok(()),
    }
}
fn entry<'de, A: MapAccess<'de>, K: DeserializeSeed<'de>, V: DeserializeSeed<'de>>(a: &mut A, k: K, v: V) -> Result<Option<(K::Value, V::Value)>, A::Error> {
    if styled(1) {
        return a.next_entry_seed(k, v);
    }
    match a.next_key_seed(k)? {
        Some(k) => Ok(Some((k, a.next_value_seed(v)?))),
        None => Ok(None),
    }
}
fn ended<'de, A: MapAccess<'de>>(a: &mut A) -> Result<(), A::Error> {
    if styled(4) && a.next_key::<IgnoredAny>()?.is_some() {
        return Err(de::Error::custom("a map has another entry after its end"));
    }
    Ok(())
}
fn ended_seq<'de, A: SeqAccess<'de>>(a: &mut A) -> Result<(), A::Error> {
    if styled(4) && a.next_element::<IgnoredAny>()?.is_some() {
        return Err(de::Error::custom("a sequence has another element after its end"));
    }
    Ok(())
}
fn hint(n: usize) -> Option<usize> {
    match HINT.with(Cell::get) {
        0 => Some(n),
        1 => None,
        2 => Some(n / 2 + 3),
        // A serializer must not trust it
        _ => Some([usize::MAX, usize::MAX / 4, 1 << 44, 70_000][n % 4]),
    }
}

struct Bytes<'a>(&'a [u8]);
impl Serialize for Bytes<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

struct Key<'a>(KeyTy, &'a str);
impl Serialize for Key<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            KeyTy::Str => s.serialize_str(self.1),
            KeyTy::Char => s.serialize_char(self.1.chars().next().unwrap_or('?')),
            KeyTy::Newtype => s.serialize_newtype_struct("Key", self.1),
            KeyTy::Some => s.serialize_some(self.1),
        }
    }
}

impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.1 {
            Val::Some(_) | Val::Seq(_) | Val::Variant(..) | Val::Map(_) => {}
            _ if matches!(self.0, Ty::Newtype(_)) => {}
            _ => {
                let fail = FAIL_AT.with(|f| match f.get() {
                    Some(0) => true,
                    Some(n) => {
                        f.set(Some(n - 1));
                        false
                    }
                    None => false,
                });
                if fail {
                    return Err(serde::ser::Error::custom(FAILURE));
                }
            }
        }
        match (self.0, self.1) {
            (Ty::Bool, Val::Bool(b)) => s.serialize_bool(*b),
            (Ty::Int(t), Val::Int(i)) => match t {
                IntTy::I8 => s.serialize_i8(*i as i8),
                IntTy::I16 => s.serialize_i16(*i as i16),
                IntTy::I32 => s.serialize_i32(*i as i32),
                IntTy::I64 => s.serialize_i64(*i as i64),
                IntTy::U8 => s.serialize_u8(*i as u8),
                IntTy::U16 => s.serialize_u16(*i as u16),
                IntTy::U32 => s.serialize_u32(*i as u32),
                IntTy::U64 => s.serialize_u64(*i as u64),
            },
            (Ty::F32, Val::F32(f)) => s.serialize_f32(*f),
            (Ty::F64, Val::F64(f)) => s.serialize_f64(*f),
            (Ty::Char, Val::Char(c)) => s.serialize_char(*c),
            (Ty::Str, Val::Str(x)) => s.serialize_str(x),
            (Ty::Bytes, Val::Bytes(x)) => Bytes(x).serialize(s),
            (Ty::Unit, _) => s.serialize_unit(),
            (Ty::UnitStruct, _) => s.serialize_unit_struct("US"),
            (Ty::Newtype(t), v) => s.serialize_newtype_struct("NT", &Ser(t, v)),
            (Ty::Opt(_), Val::None) => s.serialize_none(),
            (Ty::Opt(t), Val::Some(v)) => s.serialize_some(&Ser(t, v)),
            (Ty::Seq(t), Val::Seq(v)) => {
                let mut q = s.serialize_seq(hint(v.len()))?;
                for x in v {
                    q.serialize_element(&Ser(t, x))?;
                }
                q.end()
            }
            (Ty::Tuple(l), Val::Seq(v)) => {
                let mut q = s.serialize_tuple(l.len())?;
                for (t, x) in l.iter().zip(v) {
                    q.serialize_element(&Ser(t, x))?;
                }
                q.end()
            }
            (Ty::TupleStruct(l), Val::Seq(v)) => {
                let mut q = s.serialize_tuple_struct("TS", l.len())?;
                for (t, x) in l.iter().zip(v) {
                    q.serialize_field(&Ser(t, x))?;
                }
                q.end()
            }
            (Ty::Struct(n, l), Val::Seq(v)) => {
                let mut q = s.serialize_struct("St", l.len())?;
                for ((n, t), x) in n.iter().zip(l).zip(v) {
                    q.serialize_field(n, &Ser(t, x))?;
                }
                q.end()
            }
            (Ty::Map(k, t), Val::Map(m)) => {
                let mut q = s.serialize_map(hint(m.len()))?;
                for (i, (key, x)) in m.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&Key(*k, key), &Ser(t, x))?;
                    } else {
                        q.serialize_key(&Key(*k, key))?;
                        q.serialize_value(&Ser(t, x))?;
                    }
                }
                q.end()
            }
            (Ty::Enum(n, vars), Val::Variant(i, v)) => match &vars[*i] {
                Var::Unit => s.serialize_unit_variant("En", *i as u32, n[*i]),
                Var::Newtype(t) => s.serialize_newtype_variant("En", *i as u32, n[*i], &Ser(t, &v[0])),
                Var::Tuple(l) => {
                    let mut q = s.serialize_tuple_variant("En", *i as u32, n[*i], l.len())?;
                    for (t, x) in l.iter().zip(v) {
                        q.serialize_field(&Ser(t, x))?;
                    }
                    q.end()
                }
                Var::Struct(f, l) => {
                    let mut q = s.serialize_struct_variant("En", *i as u32, n[*i], l.len())?;
                    for ((n, t), x) in f.iter().zip(l).zip(v) {
                        q.serialize_field(n, &Ser(t, x))?;
                    }
                    q.end()
                }
            },
            (t, v) => unreachable!("{t:?} {v:?}"),
        }
    }
}

// ---------------------------------------------------------------- deserialization

/// Deserializes as the type given to [`de`].
pub struct Dyn(pub Val);

pub fn de(t: &Ty, b: &[u8]) -> Result<Val, fleece::Error> {
    ROOT.with(|r| r.borrow_mut().push(t.clone()));
    let x = fleece::from_bytes::<Dyn>(b);
    ROOT.with(|r| r.borrow_mut().pop());
    x.map(|d| d.0)
}

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = ROOT.with(|r| r.borrow().last().cloned());
        Seed(&t.expect("a root type")).deserialize(d).map(Dyn)
    }
}

#[derive(Clone, Copy)]
struct Seed<'a>(&'a Ty);

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::Bool => bool::deserialize(d).map(Val::Bool),
            Ty::Int(t) => Ok(Val::Int(match t {
                IntTy::I8 => i8::deserialize(d)?.into(),
                IntTy::I16 => i16::deserialize(d)?.into(),
                IntTy::I32 => i32::deserialize(d)?.into(),
                IntTy::I64 => i64::deserialize(d)?.into(),
                IntTy::U8 => u8::deserialize(d)?.into(),
                IntTy::U16 => u16::deserialize(d)?.into(),
                IntTy::U32 => u32::deserialize(d)?.into(),
                IntTy::U64 => u64::deserialize(d)?.into(),
            })),
            Ty::F32 => f32::deserialize(d).map(Val::F32),
            Ty::F64 => f64::deserialize(d).map(Val::F64),
            Ty::Char => char::deserialize(d).map(Val::Char),
            Ty::Str => String::deserialize(d).map(Val::Str),
            Ty::Bytes => d.deserialize_byte_buf(BytesV).map(Val::Bytes),
            Ty::Unit => <()>::deserialize(d).map(|()| Val::Unit),
            Ty::UnitStruct => d.deserialize_unit_struct("US", UnitV),
            Ty::Newtype(t) => d.deserialize_newtype_struct("NT", NewtypeV(t)),
            Ty::Opt(t) => d.deserialize_option(OptV(t)),
            Ty::Seq(t) => d.deserialize_seq(SeqV(t)),
            Ty::Tuple(l) => d.deserialize_tuple(l.len(), TupleV(l)),
            Ty::TupleStruct(l) => d.deserialize_tuple_struct("TS", l.len(), TupleV(l)),
            Ty::Map(k, t) => d.deserialize_map(MapV(*k, t)),
            Ty::Struct(n, l) => d.deserialize_struct("St", n, StructV(n, l)),
            Ty::Enum(n, v) => d.deserialize_enum("En", n, EnumV(n, v)),
        }
    }
}

macro_rules! expecting { ($s:expr) => { fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str($s) } } }

struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = Vec<u8>;
    expecting!("bytes");
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Vec<u8>, E> {
        Ok(v.to_vec())
    }
}
struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = Val;
    expecting!("unit struct");
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
}
struct NewtypeV<'a>(&'a Ty);
impl<'de> Visitor<'de> for NewtypeV<'_> {
    type Value = Val;
    expecting!("newtype struct");
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Seed(self.0).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        a.next_element_seed(Seed(self.0))?.ok_or_else(|| de::Error::invalid_length(0, &"newtype struct"))
    }
}
struct OptV<'a>(&'a Ty);
impl<'de> Visitor<'de> for OptV<'_> {
    type Value = Val;
    expecting!("option");
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Seed(self.0).deserialize(d).map(|v| Val::Some(Box::new(v)))
    }
}
struct SeqV<'a>(&'a Ty);
impl<'de> Visitor<'de> for SeqV<'_> {
    type Value = Val;
    expecting!("sequence");
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let hint = a.size_hint();
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(Seed(self.0))? {
            v.push(x);
            remains("sequence", hint, v.len(), a.size_hint())?;
        }
        ended_seq(&mut a)?;
        if hint.is_some_and(|h| h != v.len()) {
            return Err(de::Error::custom(format!("the size hint of a sequence of {} is {hint:?}", v.len())));
        }
        Ok(Val::Seq(v))
    }
}
struct TupleV<'a>(&'a [Ty]);
impl<'de> Visitor<'de> for TupleV<'_> {
    type Value = Val;
    expecting!("tuple");
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        for t in self.0 {
            v.push(a.next_element_seed(Seed(t))?.ok_or_else(|| de::Error::invalid_length(v.len(), &"tuple"))?);
        }
        Ok(Val::Seq(v))
    }
}
struct NewStr;
impl<'de> Visitor<'de> for NewStr {
    type Value = String;
    expecting!("newtype key");
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        String::deserialize(d)
    }
}
struct KeySeed(KeyTy);
impl<'de> DeserializeSeed<'de> for KeySeed {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        match self.0 {
            KeyTy::Str => String::deserialize(d),
            KeyTy::Char => char::deserialize(d).map(String::from),
            KeyTy::Newtype => d.deserialize_newtype_struct("Key", NewStr),
            KeyTy::Some => Option::<String>::deserialize(d)?.ok_or_else(|| de::Error::custom("key None")),
        }
    }
}
struct MapV<'a>(KeyTy, &'a Ty);
impl<'de> Visitor<'de> for MapV<'_> {
    type Value = Val;
    expecting!("map");
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let hint = a.size_hint();
        let (mut m, mut n) = (BTreeMap::new(), 0_usize);
        while let Some((k, v)) = entry(&mut a, KeySeed(self.0), Seed(self.1))? {
            m.insert(k, v);
            n += 1;
            remains("map", hint, n, a.size_hint())?;
        }
        ended(&mut a)?;
        if hint.is_some_and(|h| h != n) {
            return Err(de::Error::custom(format!("the size hint of a map of {n} is {hint:?}")));
        }
        Ok(Val::Map(m))
    }
}
struct FieldSeed(Names);
impl<'de> DeserializeSeed<'de> for FieldSeed {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for FieldSeed {
    type Value = Option<usize>;
    expecting!("field identifier");
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        Ok(self.0.iter().position(|n| *n == v))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Option<usize>, E> {
        Ok(self.0.iter().position(|n| n.as_bytes() == v))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> {
        Ok(usize::try_from(v).ok().filter(|i| *i < self.0.len()))
    }
}
struct StructV<'a>(Names, &'a [Ty]);
impl<'de> Visitor<'de> for StructV<'_> {
    type Value = Val;
    expecting!("struct");
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut got: Vec<Option<Val>> = self.1.iter().map(|_| None).collect();
        while let Some(f) = a.next_key_seed(FieldSeed(self.0))? {
            match f {
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
                Some(i) if got[i].is_some() => return Err(de::Error::duplicate_field(self.0[i])),
                Some(i) => got[i] = Some(a.next_value_seed(Seed(&self.1[i]))?),
            }
        }
        ended(&mut a)?;
        let mut v = vec![];
        for (i, g) in got.into_iter().enumerate() {
            v.push(match g {
                Some(x) => x,
                None if matches!(self.1[i], Ty::Opt(_)) => Val::None,
                None => return Err(de::Error::missing_field(self.0[i])),
            });
        }
        Ok(Val::Seq(v))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        TupleV(self.1).visit_seq(a)
    }
}
struct VarSeed(Names);
impl<'de> DeserializeSeed<'de> for VarSeed {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        let names = self.0;
        d.deserialize_identifier(FieldSeed(names))?.ok_or_else(|| de::Error::unknown_variant("?", names))
    }
}
struct EnumV<'a>(Names, &'a [Var]);
impl<'de> Visitor<'de> for EnumV<'_> {
    type Value = Val;
    expecting!("enum");
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let (i, v) = a.variant_seed(VarSeed(self.0))?;
        let list = |v: Val| match v {
            Val::Seq(l) => l,
            _ => vec![],
        };
        Ok(Val::Variant(i, match &self.1[i] {
            Var::Unit => {
                v.unit_variant()?;
                vec![]
            }
            Var::Newtype(t) => vec![v.newtype_variant_seed(Seed(t))?],
            Var::Tuple(l) => list(v.tuple_variant(l.len(), TupleV(l))?),
            Var::Struct(n, l) => list(v.struct_variant(n, StructV(n, l))?),
        }))
    }
}

// ---------------------------------------------------------------- self-describing

/// Whatever the data says it is, and the number of values.
pub struct AnyVal(pub usize, pub Doc);

impl<'de> Deserialize<'de> for AnyVal {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(AnyV)
    }
}

struct AnyV;
impl<'de> Visitor<'de> for AnyV {
    type Value = AnyVal;
    expecting!("anything");
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<AnyVal, E> {
        Ok(AnyVal(1, Doc::Bool(v)))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<AnyVal, E> {
        Ok(AnyVal(1, Doc::Int(v.into())))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<AnyVal, E> {
        Ok(AnyVal(1, Doc::Int(v.into())))
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<AnyVal, E> {
        Ok(AnyVal(1, Doc::F32(v)))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<AnyVal, E> {
        Ok(AnyVal(1, Doc::F64(v)))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<AnyVal, E> {
        Ok(AnyVal(1, Doc::Str(v.to_string())))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<AnyVal, E> {
        Ok(AnyVal(1, Doc::Data(v.to_vec())))
    }
    fn visit_none<E: de::Error>(self) -> Result<AnyVal, E> {
        Ok(AnyVal(1, Doc::Null))
    }
    fn visit_unit<E: de::Error>(self) -> Result<AnyVal, E> {
        Ok(AnyVal(1, Doc::Undef))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<AnyVal, A::Error> {
        let (mut n, mut v) = (1, vec![]);
        let hint = a.size_hint();
        while let Some(x) = a.next_element::<AnyVal>()? {
            n += x.0;
            v.push(x.1);
            remains("sequence", hint, v.len(), a.size_hint())?;
        }
        ended_seq(&mut a)?;
        Ok(AnyVal(n, Doc::Arr(v)))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<AnyVal, A::Error> {
        let (mut n, mut m) = (1, BTreeMap::new());
        let (hint, mut at) = (a.size_hint(), 0);
        let any = std::marker::PhantomData::<AnyVal>;
        while let Some((k, x)) = entry(&mut a, any, any)? {
            let key = match k.1 {
                Doc::Str(s) => s,
                other => format!("{other:?}"),
            };
            n += x.0 + 1;
            m.insert(key, x.1);
            at += 1;
            remains("map", hint, at, a.size_hint())?;
        }
        ended(&mut a)?;
        Ok(AnyVal(n, Doc::Dict(m)))
    }
}
