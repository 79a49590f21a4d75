// Witness crate: names every public entry point of the `json` crate at concrete
// types so that the exporter can monomorphise them.  It is only ever compiled
// (front end + MIR), never run.
#![allow(dead_code, deprecated, unused)]
extern crate json;
use json::codegen::*;
use json::number::Number;
use json::object::Object;
use json::short::Short;
use json::{Error, JsonValue};
use std::collections::{BTreeMap, HashMap};
use std::convert::{TryFrom, TryInto};
use std::fmt;
use std::io;
use std::io::Write;

// An arbitrary writer: every method is opaque to the analysis.
pub struct Wr {
    x: u8,
}
extern "Rust" {
    fn opaque_write(w: &mut Wr, b: &[u8]) -> io::Result<usize>;
    fn opaque_write_all(w: &mut Wr, b: &[u8]) -> io::Result<()>;
    fn opaque_flush(w: &mut Wr) -> io::Result<()>;
    fn opaque_next(i: &mut It) -> Option<(Ks, Vs)>;
    fn opaque_key(k: &Ks) -> &str;
    fn opaque_into(v: Vs) -> JsonValue;
    fn opaque_eq(v: &Vs, o: &JsonValue) -> bool;
}
impl io::Write for Wr {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        unsafe { opaque_write(self, b) }
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        unsafe { opaque_write_all(self, b) }
    }
    fn flush(&mut self) -> io::Result<()> {
        unsafe { opaque_flush(self) }
    }
}
// An arbitrary iterator of arbitrary keys / convertible values.
pub struct It {
    x: u8,
}
pub struct Ks {
    x: u8,
}
pub struct Vs {
    x: u8,
}
impl Iterator for It {
    type Item = (Ks, Vs);
    fn next(&mut self) -> Option<(Ks, Vs)> {
        unsafe { opaque_next(self) }
    }
}
impl AsRef<str> for Ks {
    fn as_ref(&self) -> &str {
        unsafe { opaque_key(self) }
    }
}
impl From<Vs> for JsonValue {
    fn from(v: Vs) -> JsonValue {
        unsafe { opaque_into(v) }
    }
}
impl Clone for Vs {
    fn clone(&self) -> Vs {
        Vs { x: self.x }
    }
}
impl PartialEq<JsonValue> for Vs {
    fn eq(&self, o: &JsonValue) -> bool {
        unsafe { opaque_eq(self, o) }
    }
}

// ---- parsing
pub fn parse(s: &str) -> json::Result<JsonValue> { json::parse(s) }

// ---- serialising
pub fn dump(v: &JsonValue) -> String { v.dump() }
pub fn pretty(v: &JsonValue, n: u16) -> String { v.pretty(n) }
pub fn write(v: &JsonValue, w: &mut Wr) -> io::Result<()> { v.write(w) }
pub fn write_pretty(v: &JsonValue, w: &mut Wr, n: u16) -> io::Result<()> { v.write_pretty(w, n) }
pub fn to_writer(v: &JsonValue, w: &mut Wr) { v.to_writer(w) }
pub fn stringify(v: JsonValue) -> String { json::stringify(v) }
pub fn stringify_pretty(v: JsonValue, n: u16) -> String { json::stringify_pretty(v, n) }
pub fn object_dump(o: &Object) -> String { o.dump() }
pub fn object_pretty(o: &Object, n: u16) -> String { o.pretty(n) }
pub fn value_fmt(v: &JsonValue, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(v, f) }
pub fn number_fmt(v: &Number, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(v, f) }
pub fn short_fmt(v: &Short, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(v, f) }
pub fn error_fmt(v: &Error, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(v, f) }
pub fn gen_dump_new() -> DumpGenerator { DumpGenerator::new() }
pub fn gen_dump_json(g: &mut DumpGenerator, v: &JsonValue) -> io::Result<()> { g.write_json(v) }
pub fn gen_dump_consume(g: DumpGenerator) -> String { g.consume() }
pub fn gen_pretty_new(n: u16) -> PrettyGenerator { PrettyGenerator::new(n) }
pub fn gen_pretty_json(g: &mut PrettyGenerator, v: &JsonValue) -> io::Result<()> { g.write_json(v) }
pub fn gen_pretty_consume(g: PrettyGenerator) -> String { g.consume() }
pub fn gen_writer_json<'a>(g: &mut WriterGenerator<'a, Wr>, v: &JsonValue) -> io::Result<()> { g.write_json(v) }
pub fn gen_prettywriter_json<'a>(g: &mut PrettyWriterGenerator<'a, Wr>, v: &JsonValue) -> io::Result<()> { g.write_json(v) }

pub fn dec_dump(p: bool, m: u64, e: i16) -> String { JsonValue::Number(unsafe { Number::from_parts_unchecked(p, m, e) }).dump() }
pub fn dec_pretty(p: bool, m: u64, e: i16) -> String { JsonValue::Number(unsafe { Number::from_parts_unchecked(p, m, e) }).pretty(2) }
pub fn dec_write(p: bool, m: u64, e: i16, w: &mut Wr) -> io::Result<()> { JsonValue::Number(unsafe { Number::from_parts_unchecked(p, m, e) }).write(w) }
pub fn dec_write_pretty(p: bool, m: u64, e: i16, w: &mut Wr) -> io::Result<()> { JsonValue::Number(unsafe { Number::from_parts_unchecked(p, m, e) }).write_pretty(w, 2) }

// ---- predicates and accessors
macro_rules! acc {
    ($($n:ident : $t:ty),* $(,)?) => { $( pub fn $n(v: &JsonValue) -> $t { v.$n() } )* };
}
acc! {
    is_string: bool, is_number: bool, is_boolean: bool, is_null: bool, is_object: bool,
    is_array: bool, is_empty: bool, as_str: Option<&str>, as_number: Option<Number>,
    as_f64: Option<f64>, as_f32: Option<f32>, as_u64: Option<u64>, as_u32: Option<u32>,
    as_u16: Option<u16>, as_u8: Option<u8>, as_usize: Option<usize>, as_i64: Option<i64>,
    as_i32: Option<i32>, as_i16: Option<i16>, as_i8: Option<i8>, as_isize: Option<isize>,
    as_bool: Option<bool>, len: usize,
}
pub fn as_fixed_point_u64(v: &JsonValue, p: u16) -> Option<u64> { v.as_fixed_point_u64(p) }
pub fn as_fixed_point_i64(v: &JsonValue, p: u16) -> Option<i64> { v.as_fixed_point_i64(p) }
pub fn members(v: &JsonValue) -> json::iterators::Members { v.members() }
pub fn entries(v: &JsonValue) -> json::iterators::Entries { v.entries() }
pub fn members_mut(v: &mut JsonValue) -> json::iterators::MembersMut { v.members_mut() }
pub fn entries_mut(v: &mut JsonValue) -> json::iterators::EntriesMut { v.entries_mut() }
pub fn has_key(v: &JsonValue, k: &str) -> bool { v.has_key(k) }
pub fn contains(v: &JsonValue, x: Vs) -> bool { v.contains(x) }
pub fn index_usize(v: &JsonValue, i: usize) -> &JsonValue { &v[i] }
pub fn index_str<'a>(v: &'a JsonValue, i: &str) -> &'a JsonValue { &v[i] }
pub fn index_string(v: &JsonValue, i: String) -> &JsonValue { &v[i] }
pub fn index_rstring<'a>(v: &'a JsonValue, i: &String) -> &'a JsonValue { &v[i] }

// ---- mutators
pub fn take(v: &mut JsonValue) -> JsonValue { v.take() }
pub fn take_string(v: &mut JsonValue) -> Option<String> { v.take_string() }
pub fn push(v: &mut JsonValue, x: JsonValue) -> json::Result<()> { v.push(x) }
pub fn pop(v: &mut JsonValue) -> JsonValue { v.pop() }
pub fn insert(v: &mut JsonValue, k: &str, x: JsonValue) -> json::Result<()> { v.insert(k, x) }
pub fn remove(v: &mut JsonValue, k: &str) -> JsonValue { v.remove(k) }
pub fn array_remove(v: &mut JsonValue, i: usize) -> JsonValue { v.array_remove(i) }
pub fn clear(v: &mut JsonValue) { v.clear() }
pub fn index_mut_usize(v: &mut JsonValue, i: usize) -> &mut JsonValue { &mut v[i] }
pub fn index_mut_str<'a>(v: &'a mut JsonValue, i: &str) -> &'a mut JsonValue { &mut v[i] }
pub fn index_mut_string(v: &mut JsonValue, i: String) -> &mut JsonValue { &mut v[i] }
pub fn index_mut_rstring<'a>(v: &'a mut JsonValue, i: &String) -> &'a mut JsonValue { &mut v[i] }
pub fn new_object() -> JsonValue { JsonValue::new_object() }
pub fn new_array() -> JsonValue { JsonValue::new_array() }
pub fn value_clone(v: &JsonValue) -> JsonValue { v.clone() }
pub fn value_drop(v: JsonValue) { drop(v) }
pub fn value_eq(a: &JsonValue, b: &JsonValue) -> bool { a == b }

// ---- objects
pub fn object_new() -> Object { Object::new() }
pub fn object_with_capacity(n: usize) -> Object { Object::with_capacity(n) }
pub fn object_insert(o: &mut Object, k: &str, v: JsonValue) { o.insert(k, v) }
pub fn object_override_last(o: &mut Object, v: JsonValue) { o.override_last(v) }
pub fn object_get<'a>(o: &'a Object, k: &str) -> Option<&'a JsonValue> { o.get(k) }
pub fn object_get_mut<'a>(o: &'a mut Object, k: &str) -> Option<&'a mut JsonValue> { o.get_mut(k) }
pub fn object_remove(o: &mut Object, k: &str) -> Option<JsonValue> { o.remove(k) }
pub fn object_len(o: &Object) -> usize { o.len() }
pub fn object_is_empty(o: &Object) -> bool { o.is_empty() }
pub fn object_clear(o: &mut Object) { o.clear() }
pub fn object_clone(o: &Object) -> Object { o.clone() }
pub fn object_drop(o: Object) { drop(o) }
pub fn object_eq(a: &Object, b: &Object) -> bool { a == b }
pub fn object_index_str<'a>(o: &'a Object, k: &str) -> &'a JsonValue { &o[k] }
pub fn object_index_string(o: &Object, k: String) -> &JsonValue { &o[k] }
pub fn object_index_rstring<'a>(o: &'a Object, k: &String) -> &'a JsonValue { &o[k] }
pub fn object_index_mut_str<'a>(o: &'a mut Object, k: &str) -> &'a mut JsonValue { &mut o[k] }
pub fn object_index_mut_string(o: &mut Object, k: String) -> &mut JsonValue { &mut o[k] }
pub fn object_index_mut_rstring<'a>(o: &'a mut Object, k: &String) -> &'a mut JsonValue { &mut o[k] }
pub fn object_iter(o: &Object) -> json::object::Iter { o.iter() }
pub fn object_iter_mut(o: &mut Object) -> json::object::IterMut { o.iter_mut() }
pub fn object_iter_next<'a>(i: &mut json::object::Iter<'a>) -> Option<(&'a str, &'a JsonValue)> { i.next() }
pub fn object_iter_next_back<'a>(i: &mut json::object::Iter<'a>) -> Option<(&'a str, &'a JsonValue)> { i.next_back() }
pub fn object_iter_len<'a>(i: &json::object::Iter<'a>) -> usize { i.len() }
pub fn object_iter_mut_next<'a>(i: &mut json::object::IterMut<'a>) -> Option<(&'a str, &'a mut JsonValue)> { i.next() }
pub fn object_iter_mut_next_back<'a>(i: &mut json::object::IterMut<'a>) -> Option<(&'a str, &'a mut JsonValue)> { i.next_back() }
pub fn object_iter_mut_len<'a>(i: &json::object::IterMut<'a>) -> usize { i.len() }
pub fn object_from_iter(i: It) -> Object { i.collect() }

// ---- numbers
pub fn number_from_parts(p: bool, m: u64, e: i16) -> Number { Number::from_parts(p, m, e) }
pub unsafe fn number_from_parts_unchecked(p: bool, m: u64, e: i16) -> Number { Number::from_parts_unchecked(p, m, e) }
pub fn number_as_parts(n: &Number) -> (bool, u64, i16) { n.as_parts() }
pub fn number_is_sign_positive(n: &Number) -> bool { n.is_sign_positive() }
pub fn number_is_zero(n: &Number) -> bool { n.is_zero() }
pub fn number_is_nan(n: &Number) -> bool { n.is_nan() }
pub fn number_is_empty(n: &Number) -> bool { n.is_empty() }
pub fn number_fixed_u64(n: &Number, p: u16) -> Option<u64> { n.as_fixed_point_u64(p) }
pub fn number_fixed_i64(n: &Number, p: u16) -> Option<i64> { n.as_fixed_point_i64(p) }
pub fn number_eq(a: &Number, b: &Number) -> bool { a == b }
pub fn number_neg(a: Number) -> Number { -a }
pub fn number_to_f64(a: Number) -> f64 { a.into() }
pub fn number_to_f32(a: Number) -> f32 { a.into() }
pub fn number_from_f64(a: f64) -> Number { a.into() }
pub fn number_from_f32(a: f32) -> Number { a.into() }
pub fn number_eq_f64(a: &Number, b: &f64) -> bool { a == b }
pub fn number_eq_f32(a: &Number, b: &f32) -> bool { a == b }
pub fn f64_eq_number(a: &f64, b: &Number) -> bool { a == b }
pub fn f32_eq_number(a: &f32, b: &Number) -> bool { a == b }
macro_rules! ints {
    ($($t:ident $from:ident $try:ident $eq:ident $eq2:ident $vfrom:ident $veq:ident $veq2:ident $veqr:ident;)*) => { $(
        pub fn $from(x: $t) -> Number { x.into() }
        pub fn $try(n: Number) -> Result<$t, json::number::NumberOutOfScope> { n.try_into() }
        pub fn $eq(n: &Number, x: &$t) -> bool { n == x }
        pub fn $eq2(x: &$t, n: &Number) -> bool { x == n }
        pub fn $vfrom(x: $t) -> JsonValue { x.into() }
        pub fn $veq(v: &JsonValue, x: &$t) -> bool { v == x }
        pub fn $veq2(x: &$t, v: &JsonValue) -> bool { x == v }
        pub fn $veqr(v: &&JsonValue, x: &$t) -> bool { v == x }
    )* };
}
ints! {
    u8 from_u8 try_u8 eq_u8 u8_eq v_from_u8 v_eq_u8 u8_eq_v vr_eq_u8;
    u16 from_u16 try_u16 eq_u16 u16_eq v_from_u16 v_eq_u16 u16_eq_v vr_eq_u16;
    u32 from_u32 try_u32 eq_u32 u32_eq v_from_u32 v_eq_u32 u32_eq_v vr_eq_u32;
    u64 from_u64 try_u64 eq_u64 u64_eq v_from_u64 v_eq_u64 u64_eq_v vr_eq_u64;
    usize from_usize try_usize eq_usize usize_eq v_from_usize v_eq_usize usize_eq_v vr_eq_usize;
    i8 from_i8 try_i8 eq_i8 i8_eq v_from_i8 v_eq_i8 i8_eq_v vr_eq_i8;
    i16 from_i16 try_i16 eq_i16 i16_eq v_from_i16 v_eq_i16 i16_eq_v vr_eq_i16;
    i32 from_i32 try_i32 eq_i32 i32_eq v_from_i32 v_eq_i32 i32_eq_v vr_eq_i32;
    i64 from_i64 try_i64 eq_i64 i64_eq v_from_i64 v_eq_i64 i64_eq_v vr_eq_i64;
    isize from_isize try_isize eq_isize isize_eq v_from_isize v_eq_isize isize_eq_v vr_eq_isize;
}

// ---- conversions and comparisons of values
pub fn v_from_str(x: &str) -> JsonValue { x.into() }
pub fn v_from_string(x: String) -> JsonValue { x.into() }
pub fn v_from_bool(x: bool) -> JsonValue { x.into() }
pub fn v_from_f64(x: f64) -> JsonValue { x.into() }
pub fn v_from_f32(x: f32) -> JsonValue { x.into() }
pub fn v_from_number(x: Number) -> JsonValue { x.into() }
pub fn v_from_object(x: Object) -> JsonValue { x.into() }
pub fn v_from_option(x: Option<Vs>) -> JsonValue { x.into() }
pub fn v_from_vec(x: Vec<Vs>) -> JsonValue { x.into() }
pub fn v_from_slice(x: &[Vs]) -> JsonValue { x.into() }
pub fn v_from_hashmap(x: HashMap<String, Vs>) -> JsonValue { x.into() }
pub fn v_from_btreemap(x: BTreeMap<String, Vs>) -> JsonValue { x.into() }
pub fn v_from_any(x: Vs) -> JsonValue { json::from(x) }
pub fn v_eq_str(v: &JsonValue, x: &str) -> bool { v == x }
pub fn str_eq_v(x: &str, v: &JsonValue) -> bool { x == v }
pub fn v_eq_rstr(v: &JsonValue, x: &&str) -> bool { v == x }
pub fn rstr_eq_v(x: &&str, v: &JsonValue) -> bool { x == v }
pub fn v_eq_string(v: &JsonValue, x: &String) -> bool { v == x }
pub fn string_eq_v(x: &String, v: &JsonValue) -> bool { x == v }
pub fn vr_eq_string(v: &&JsonValue, x: &String) -> bool { v == x }
pub fn v_eq_bool(v: &JsonValue, x: &bool) -> bool { v == x }
pub fn bool_eq_v(x: &bool, v: &JsonValue) -> bool { x == v }
pub fn vr_eq_bool(v: &&JsonValue, x: &bool) -> bool { v == x }
pub fn v_eq_number(v: &JsonValue, x: &Number) -> bool { v == x }
pub fn number_eq_v(x: &Number, v: &JsonValue) -> bool { x == v }
pub fn vr_eq_number(v: &&JsonValue, x: &Number) -> bool { v == x }
pub fn v_eq_object(v: &JsonValue, x: &Object) -> bool { v == x }
pub fn object_eq_v(x: &Object, v: &JsonValue) -> bool { x == v }
pub fn vr_eq_object(v: &&JsonValue, x: &Object) -> bool { v == x }
pub fn v_eq_f64(v: &JsonValue, x: &f64) -> bool { v == x }
pub fn f64_eq_v(x: &f64, v: &JsonValue) -> bool { x == v }
pub fn v_eq_f32(v: &JsonValue, x: &f32) -> bool { v == x }
pub fn f32_eq_v(x: &f32, v: &JsonValue) -> bool { x == v }

// ---- short strings
pub unsafe fn short_from_slice(x: &str) -> Short { Short::from_slice(x) }
pub fn short_as_str(x: &Short) -> &str { x.as_str() }
pub fn short_deref(x: &Short) -> &str { &**x }
pub fn short_eq(a: &Short, b: &Short) -> bool { a == b }
pub fn short_eq_str(a: &Short, b: &str) -> bool { a == b }
pub fn str_eq_short(a: &str, b: &Short) -> bool { a == b }
pub fn short_eq_string(a: &Short, b: &String) -> bool { a == b }
pub fn string_eq_short(a: &String, b: &Short) -> bool { a == b }
pub fn short_into_string(a: Short) -> String { a.into() }

// ---- macros: e(i) and k(i) are expressions with a visible evaluation
extern "Rust" {
    fn opaque_ev(i: usize) -> Vs;
    fn opaque_kv(i: usize) -> &'static str;
}
fn e(i: usize) -> Vs { unsafe { opaque_ev(i) } }
fn k(i: usize) -> &'static str { unsafe { opaque_kv(i) } }
pub fn m_array0() -> JsonValue { json::array![] }
pub fn m_array1() -> JsonValue { json::array![e(0)] }
pub fn m_array1t() -> JsonValue { json::array![e(0),] }
pub fn m_array2() -> JsonValue { json::array![e(0), e(1)] }
pub fn m_array3() -> JsonValue { json::array![e(0), e(1), e(2)] }
pub fn m_array3t() -> JsonValue { json::array![e(0), e(1), e(2),] }
pub fn m_array6() -> JsonValue { json::array![e(0), e(1), e(2), e(3), e(4), e(5)] }
pub fn m_array_tt(a: Vs, b: Vs, c: Vs) -> JsonValue { json::array![a, b, c] }
pub fn m_array_ttt(a: Vs, b: Vs, c: Vs) -> JsonValue { json::array![a, b, c,] }
pub fn m_array_mixed(a: Vs) -> JsonValue { json::array![e(0), null, [e(1), null], a, { x: e(2), }, e(3), "text", 7, -7, true, [], {}] }
pub fn m_array_nulls() -> JsonValue { json::array![null, null,] }
pub fn m_array_nested() -> JsonValue { json::array![[[e(0)], e(1)], { x: [e(2)], y: { z: e(3) } }, e(4)] }
pub fn m_object0() -> JsonValue { json::object! {} }
pub fn m_object1() -> JsonValue { json::object! { x: e(0) } }
pub fn m_object1t() -> JsonValue { json::object! { x: e(0), } }
pub fn m_object3() -> JsonValue { json::object! { x: e(0), "y": e(1), [k(2)]: e(3) } }
pub fn m_object3t() -> JsonValue { json::object! { [k(0)]: e(1), x: e(2), "y": e(3), } }
pub fn m_object5() -> JsonValue { json::object! { a: e(0), "b": e(1), [k(2)]: e(3), [k(4)]: e(5), c: e(6) } }
pub fn m_object_tt(a: Vs, b: Vs, c: Vs) -> JsonValue { json::object! { x: a, "y": b, z: c } }
pub fn m_object_ttt(a: Vs, b: Vs, c: Vs) -> JsonValue { json::object! { x: a, "y": b, z: c, } }
pub fn m_object_mixed(a: Vs) -> JsonValue { json::object! { p: null, q: [e(0), e(1)], r: a, s: { t: e(2), [k(3)]: null }, u: e(4), v: "text", w: -7, x: true, y: [], z: {} } }
pub fn m_object_same() -> JsonValue { json::object! { x: e(0), x: e(1) } }
pub fn m_object_legacy() -> JsonValue { json::object! { "x" => e(0), k(1) => e(2) } }
pub fn m_object_legacyt() -> JsonValue { json::object! { "x" => e(0), k(1) => e(2), } }
pub fn m_object_legacytt(a: Vs, b: Vs) -> JsonValue { json::object! { "x" => a, "y" => b } }
pub fn m_value() -> JsonValue { json::value!(null) }
pub fn m_value_array() -> JsonValue { json::value!([e(0), e(1)]) }
pub fn m_value_object() -> JsonValue { json::value!({ x: e(0) }) }

