//! One reproduction per genuine defect found in the code under test.
//! `fleece-repro NAME` exits 0 when the behaviour is right and fails (panic / abort / wrong
//! answer) while the defect is present. `fleece-repro list` prints the names.
use fleece::*;
use serde::{Deserialize, Serialize};

fn arr(f: impl FnOnce(&mut Encoder)) -> Vec<u8> {
    let mut e = Encoder::new();
    e.begin_array(4).unwrap();
    f(&mut e);
    e.end_array().unwrap();
    e.finish()
}
fn root(b: &[u8]) -> &Array {
    Value::from_bytes(b).expect("own output must validate").as_array().expect("array")
}

fn inline_str() {
    let b = arr(|e| { e.write_value("a").unwrap(); e.write_value(&[7u8][..]).unwrap(); });
    assert_eq!(root(&b).get(0).unwrap().to_str(), "a");
    assert_eq!(root(&b).get(1).unwrap().to_data(), &[7]);
}
fn i64_wide() {
    for v in [65536i64, i64::MAX, i64::MIN, -5000, 4096, 1 << 40] {
        let b = arr(|e| e.write_value(v).unwrap());
        assert_eq!(root(&b).get(0).unwrap().to_int(), v);
    }
}
fn i64_recursion() {
    let b = arr(|e| e.write_value(100_000i64).unwrap());
    assert_eq!(root(&b).get(0).unwrap().to_int(), 100_000);
}
fn u64_size() {
    for v in [0xFF00_0000_0000_0100u64, 1 << 63, 1 << 56, u64::MAX] {
        let b = arr(|e| e.write_value(v).unwrap());
        assert_eq!(root(&b).get(0).unwrap().to_unsigned_int(), v);
    }
}
fn u16_size() {
    let b = arr(|e| e.write_value(3000u16).unwrap());
    assert_eq!(root(&b).get(0).unwrap().to_int(), 3000);
}
fn i16_size() {
    let b = arr(|e| e.write_value(-3000i16).unwrap());
    assert_eq!(root(&b).get(0).unwrap().to_int(), -3000);
}
fn signed_decode() {
    // [ -5000 ] as written by the reference implementation: INT header, 2 bytes
    let b = [0x11, 0x78, 0xEC, 0x00, 0x60, 0x01, 0x80, 0x03, 0x80, 0x02];
    assert_eq!(root(&b).get(0).unwrap().to_int(), -5000);
}
fn unsigned_double() {
    let b = arr(|e| e.write_value(u64::MAX).unwrap());
    assert!(root(&b).get(0).unwrap().to_double() > 0.0);
}
fn to_bool() {
    let b = arr(|e| e.write_value(0.5f64).unwrap());
    assert!(root(&b).get(0).unwrap().to_bool());
    let b = [0x18, 0x00, 0x60, 0x01, 0x80, 0x02, 0x80, 0x02];
    assert!(!root(&b).get(0).unwrap().to_bool());
}
fn array_get_len() {
    let b = arr(|e| { e.write_value(1).unwrap(); e.write_value(2).unwrap(); });
    assert!(root(&b).get(2).is_none());
}
fn wide_array() {
    let b = arr(|e| {
        e.write_value("a string which is long").unwrap();
        for _ in 0..9000 { e.write_value(1).unwrap(); }
        e.write_value("another string").unwrap();
    });
    assert_eq!(root(&b).get(9001).unwrap().to_str(), "another string");
}
fn wide_dict_key() {
    let mut e = Encoder::new();
    e.begin_dict().unwrap();
    e.write_key("first key").unwrap();
    e.write_value(1).unwrap();
    e.write_key("second key").unwrap();
    e.begin_array(1).unwrap();
    e.write_value("x".repeat(20_000).as_str()).unwrap();
    e.end_array().unwrap();
    e.end_dict().unwrap();
    let b = e.finish();
    let d = Value::from_bytes(&b).unwrap().as_dict().unwrap();
    assert_eq!(d.get("first key").unwrap().to_int(), 1);
    assert_eq!(d.get("second key").unwrap().as_array().unwrap().get(0).unwrap().to_str().len(), 20_000);
}
fn end_array_on_dict() {
    let mut e = Encoder::new();
    e.begin_dict().unwrap();
    e.write_key("k").unwrap();
    e.write_value(1).unwrap();
    assert!(e.end_array().is_err());
    e.end_dict().expect("the dict must still be open");
    let b = e.finish();
    assert_eq!(Value::from_bytes(&b).unwrap().as_dict().unwrap().len(), 1);
}
fn key_after_close() {
    let mut e = Encoder::new();
    e.begin_dict().unwrap();
    e.end_dict().unwrap();
    assert!(e.write_key("some long key").is_err());
    let b = e.finish();
    assert_eq!(Value::from_bytes(&b).unwrap().as_dict().unwrap().len(), 0);
}
fn sk_alias() {
    let mut sk = SharedKeys::new();
    sk.encode_and_insert("abcdefghijklmno").unwrap();
    assert_eq!(sk.encode("abcdefghijklmnoXYZ"), None);
    assert_eq!(sk.encode("abcdefghijklmno\0"), None);
}
fn sk_16() {
    let mut sk = SharedKeys::new();
    let id = sk.encode_and_insert("abcdefghijklmnop").unwrap();
    assert_eq!(sk.decode(id), Some("abcdefghijklmnop"));
    let id = sk.encode_and_insert("éééééééé").unwrap();
    assert_eq!(sk.decode(id), Some("éééééééé"));
}
fn sk_full() {
    let mut sk = SharedKeys::new();
    for i in 0..2048 { assert_eq!(sk.encode_and_insert(&format!("k{i}")), Some(i)); }
    assert_eq!(sk.encode_and_insert("k7"), Some(7));
}
fn sk_single_char() {
    let mut sk = SharedKeys::new();
    sk.encode_and_insert("a").unwrap();
    let mut e = Encoder::new();
    e.set_shared_keys(sk);
    e.begin_dict().unwrap();
    e.write_key("a").unwrap();
    e.write_value(1).unwrap();
    e.write_key("name").unwrap();
    e.write_value(2).unwrap();
    let s = e.finish_scoped();
    let r = s.root().unwrap();
    assert!(r.as_dict().unwrap().get("a").is_some());
}
fn sk_state_type() {
    let b = arr(|e| e.write_value(1).unwrap());
    assert!(SharedKeys::from_state_bytes(&b).is_none());
}
fn scope_empty() {
    let r = std::panic::catch_unwind(|| { drop(Scope::new(vec![], None)); });
    let r2 = std::panic::catch_unwind(|| Scope::containing([0u8].as_ptr()).is_none());
    assert!(r.is_ok() && r2.is_ok());
}
fn malformed(b: &[u8]) { let _ = Value::from_bytes(b).map(|v| format!("{v:?}")); }
fn bad_string() { malformed(&[0x4E, 0x00]); }
fn bad_string_overlap() { malformed(&[0x43, b'a', 0x80, 0x01]); }
fn bad_extern() { malformed(&[0x00, 0x00, 0xC0, 0x01]); }
fn bad_varint() {
    let mut b = vec![0x4F];
    b.extend([0xFF; 10]);
    b.push(0x01);
    b.extend([0x80, 0x06]);
    malformed(&b);
}
fn bad_varint_size() {
    let mut b = vec![0x4F];
    b.extend([0xFF; 9]);
    b.extend([0x01, 0x00]);
    b.extend([0x80, 0x06]);
    malformed(&b);
}
fn bad_dict_count() {
    let mut b = vec![0x77, 0xFF];
    b.extend([0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01]);
    b.extend([0x80, 0x06]);
    malformed(&b);
}
fn bad_dict_key() {
    let b = [0x70, 0x01, 0x30, 0x00, 0x00, 0x05, 0x80, 0x03];
    if let Ok(v) = Value::from_bytes(&b) { let _ = v.as_dict().unwrap().get("x"); }
}
fn ptr_arith() {
    // only visible to Miri: the address is formed before the bounds check
    assert!(Value::from_bytes(&[0x00, 0x00, 0xBF, 0xFF]).is_err());
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Meters(u32);
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Names(Vec<String>);
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Marker;
fn serde_newtype() {
    let b = to_bytes(vec![Meters(7)]).unwrap();
    assert_eq!(from_bytes::<Vec<Meters>>(&b).unwrap(), vec![Meters(7)]);
    let b = to_bytes(Names(vec!["ab".into()])).unwrap();
    assert_eq!(from_bytes::<Names>(&b).unwrap(), Names(vec!["ab".into()]));
}
fn serde_unit_struct() {
    let b = to_bytes(vec![Marker]).unwrap();
    assert_eq!(from_bytes::<Vec<Marker>>(&b).unwrap(), vec![Marker]);
}
fn mutable_iter_hint() {
    let b = arr(|e| { e.write_value(1).unwrap(); e.write_value(2).unwrap(); });
    let m = root(&b).to_mutable();
    let mut it = m.iter();
    it.next();
    assert_eq!(it.size_hint(), (1, Some(1)));
}
/// Known finding: dict iteration hands out keys which outlive the table they point into.
fn key_outlives_scope() {
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    e.begin_dict().unwrap();
    e.write_key("name").unwrap();
    e.write_value(1).unwrap();
    let s = e.finish_scoped();
    let r = s.root().unwrap();
    let keys: Vec<&str> = r.as_dict().unwrap().iter().map(|(k, _)| k).collect();
    drop(s);
    assert_eq!(keys, ["name"]);
}
/// Known finding: deep nesting overflows the stack.
fn deep_nesting() {
    let mut b = vec![0x60, 0x00];
    for _ in 0..400_000 { b.extend([0x60, 0x01, 0x80, (if b.len() == 2 { 4 } else { 6 }) / 2]); }
    b.extend([0x80, 0x02]);
    let _ = Value::from_bytes(&b).is_ok();
}

/// A long chain of pointers to pointers.
fn ptr_chain() {
    let mut b = vec![0x00, 0x07, 0x00, 0x00];
    for _ in 0..2_000_000 { b.extend([0x80, 0x00, 0x00, 0x02]); }
    b.extend([0x80, 0x02]);
    if let Ok(v) = Value::from_bytes(&b) { assert_eq!(v.to_int(), 7); }
}
/// Known finding: validating shared sub-arrays is exponential.
fn shared_subarrays() {
    let mut b = vec![0x60, 0x00];
    for i in 0..60 { let d = if i == 0 { 4 } else { 6 }; b.extend([0x60, 0x02, 0x80, d / 2, 0x80, (d + 2) / 2]); if i == 0 { let n = b.len(); b[n-3] = 2; b[n-1] = 3; } else { let n = b.len(); b[n-3] = 4; b[n-1] = 5; } }
    b.extend([0x80, 0x03]);
    assert!(Value::from_bytes(&b).is_ok());
}

fn main() {
    let all: &[(&str, fn())] = &[
        ("inline_str", inline_str), ("i64_wide", i64_wide), ("i64_recursion", i64_recursion),
        ("u64_size", u64_size), ("u16_size", u16_size), ("i16_size", i16_size),
        ("signed_decode", signed_decode), ("unsigned_double", unsigned_double), ("to_bool", to_bool),
        ("array_get_len", array_get_len), ("wide_array", wide_array), ("wide_dict_key", wide_dict_key),
        ("end_array_on_dict", end_array_on_dict), ("key_after_close", key_after_close),
        ("sk_alias", sk_alias), ("sk_16", sk_16), ("sk_full", sk_full), ("sk_single_char", sk_single_char),
        ("sk_state_type", sk_state_type), ("scope_empty", scope_empty), ("bad_string", bad_string),
        ("bad_string_overlap", bad_string_overlap), ("bad_extern", bad_extern), ("bad_varint", bad_varint),
        ("bad_varint_size", bad_varint_size), ("bad_dict_count", bad_dict_count), ("bad_dict_key", bad_dict_key),
        ("ptr_arith", ptr_arith), ("serde_newtype", serde_newtype), ("serde_unit_struct", serde_unit_struct),
        ("mutable_iter_hint", mutable_iter_hint), ("key_outlives_scope", key_outlives_scope),
        ("ptr_chain", ptr_chain), ("deep_nesting", deep_nesting), ("shared_subarrays", shared_subarrays),
    ];
    let name = std::env::args().nth(1).unwrap_or_default();
    if name == "list" { for (n, _) in all { println!("{n}"); } return; }
    let Some((_, f)) = all.iter().find(|(n, _)| *n == name) else { eprintln!("unknown"); std::process::exit(2) };
    f();
}
