//! Drives the real encoder from a document, with a random choice among the equivalent ways to do so.
use crate::doc::Doc;
use crate::rng::Rng;
use crate::st::{self, R};
use fleece::encoder::{EncodeError, NullValue, UndefinedValue};
use fleece::{Encoder, SharedKeys};

pub fn e2s(e: EncodeError) -> String {
    format!("the encoder rejects a legal call: {e}")
}

/// Write one leaf, choosing among the types which can hold it.
pub fn write_leaf(enc: &mut Encoder, d: &Doc, r: &mut Rng) -> Result<(), EncodeError> {
    st::hit("leaves_written");
    match d {
        Doc::Null => match r.below(3) {
            0 => enc.write_value(NullValue),
            1 => enc.write_value(&NullValue),
            _ => enc.write_value(None::<i64>),
        },
        Doc::Undef => if r.bool() { enc.write_value(UndefinedValue) } else { enc.write_value(&UndefinedValue) },
        Doc::Bool(b) => match r.below(3) {
            0 => enc.write_value(*b),
            1 => enc.write_value(b),
            _ => enc.write_value(Some(*b)),
        },
        Doc::F32(f) => if r.one_in(4) { enc.write_value(Some(f)) } else { enc.write_value(*f) },
        Doc::F64(f) => if r.one_in(4) { enc.write_value(&Some(*f)) } else { enc.write_value(*f) },
        Doc::Str(s) => match r.below(4) {
            0 => enc.write_value(Some(s.as_str())),
            1 => enc.write_value(&s.as_str()),
            _ => enc.write_value(s.as_str()),
        },
        Doc::Data(s) => match r.below(4) {
            0 => enc.write_value(Some(&s[..])),
            1 => enc.write_value(&&s[..]),
            _ => enc.write_value(&s[..]),
        },
        Doc::Int(i) => write_int(enc, *i, r.below(10), r.below(4)),
        Doc::Arr(_) | Doc::Dict(_) => unreachable!(),
    }
}

/// Write an integer with the `pick`-th type which can hold it, and return through reference or option.
pub fn write_int(enc: &mut Encoder, i: i128, pick: usize, wrap: usize) -> Result<(), EncodeError> {
    macro_rules! try_types { ($($n:expr => $t:ty),*) => {
        for off in 0..10 { match (pick + off) % 10 { $($n => if let Ok(v) = <$t>::try_from(i) {
            st::hit(concat!("int_as_", stringify!($t)));
            return match wrap { 0 => enc.write_value(&v), 1 => enc.write_value(Some(v)), _ => enc.write_value(v) };
        })* _ => {} } }
    } }
    try_types!(0 => i8, 1 => u8, 2 => i16, 3 => u16, 4 => i32, 5 => u32, 6 => i64, 7 => u64, 8 => isize, 9 => usize);
    unreachable!()
}

pub fn write(enc: &mut Encoder, d: &Doc, r: &mut Rng) -> Result<(), EncodeError> {
    // (which would be a cost of its own where costs are measured)
    if !cfg!(fleece_cost) && d.is_collection() && r.one_in(100) {
        // from another document, of which it is the whole or a part
        let mut other = Encoder::new();
        let part = r.bool();
        if part {
            other.begin_array(2)?;
            other.write_value("before")?;
            write(&mut other, d, r)?;
            other.end_array()?;
        } else {
            write(&mut other, d, r)?;
        }
        let b = other.finish();
        let root = fleece::Value::from_bytes(&b).ok();
        let source = if part { root.and_then(|v| v.as_array()).and_then(|a| a.get(1)) } else { root };
        if let Some(v) = source {
            st::hit("parts_written_from_other_documents");
            return enc.write_fleece(v);
        }
    }
    match d {
        Doc::Arr(a) => {
            let cap = match r.below(3) {
                0 => 0,
                1 => a.len(),
                _ => r.below(100),
            };
            enc.begin_array(cap)?;
            for x in a {
                write(enc, x, r)?;
            }
            enc.end_array()
        }
        Doc::Dict(m) => {
            enc.begin_dict()?;
            let mut order: Vec<_> = m.iter().collect();
            match r.below(3) {
                0 => {}
                1 => order.reverse(),
                _ => r.shuffle(&mut order),
            }
            for (k, x) in order {
                enc.write_key(k)?;
                write(enc, x, r)?;
            }
            enc.end_dict()
        }
        leaf => write_leaf(enc, leaf, r),
    }
}

pub fn bytes(d: &Doc, r: &mut Rng) -> R<Vec<u8>> {
    let mut enc = Encoder::new();
    write(&mut enc, d, r).map_err(e2s)?;
    st::hit("documents_encoded");
    Ok(enc.finish())
}

pub fn scoped(d: &Doc, sk: SharedKeys, r: &mut Rng) -> R<std::sync::Arc<fleece::Scope>> {
    let mut enc = Encoder::new();
    enc.set_shared_keys(sk);
    write(&mut enc, d, r).map_err(e2s)?;
    st::hit("shared_key_documents_encoded");
    Ok(enc.finish_scoped())
}

/// An exactly sized heap copy, so that a sanitizer sees any access beyond it.
pub fn exact(b: &[u8]) -> Box<[u8]> {
    b.to_vec().into_boxed_slice()
}
