//! C11, C13, C15: what a deserialization target is handed.
//! A case is [hint, inner, limit] followed by a message; the target asks for `hint` and, if it gets a sequence, takes at
//! most `limit` elements (255: all), asking for `inner` for each of them.  The upper bits of the second byte make it
//! fail on every such element (modulo 3), note the failure and carry on.
use crate::gen::{Cfg, Gen, Rng, BASE, PRIMS};
use crate::refdec::{Dec, Msg, V};
use crate::Verdict::{self, *};
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use std::collections::BTreeMap;

/// What a visitor was handed.
#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
  Bool(bool),
  I8(i8),
  I16(i16),
  I32(i32),
  I64(i64),
  U8(u8),
  U16(u16),
  U32(u32),
  U64(u64),
  F32(u32),
  F64(u64),
  Char(char),
  Borrowed(String),
  Other(String),
  Unit,
  None,
  Some(Box<Ev>),
  Newtype(Box<Ev>),
  Seq(Vec<Ev>),
  Map(BTreeMap<String, Ev>),
  DupKey,
  Failed,
}

#[derive(Clone, Copy)]
struct Tgt {
  hint: u8,
  limit: usize,
  inner: u8,
  /// which elements the target fails on
  fails: u8,
  /// fails on whatever it is
  dies: bool,
}

const ALL: Tgt = Tgt { hint: 0, limit: usize::MAX, inner: 0, fails: 0, dies: false };

impl Tgt {
  fn dies(self, k: usize) -> bool {
    self.fails >> (k % 3) & 1 == 1
  }
}

/// An optional of an optional would ask forever.
fn some(hint: u8) -> u8 {
  if hint == 1 {
    0
  } else {
    hint
  }
}

struct Vis(Tgt);

macro_rules! visit {
  ($($f:ident $t:ty => $e:expr;)*) => { $(fn $f<E: de::Error>(self, v: $t) -> Result<Ev, E> { let f: fn($t) -> Ev = $e; Ok(f(v)) })* }
}

impl<'de> Visitor<'de> for Vis {
  type Value = Ev;
  fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.write_str("anything")
  }
  visit! {
    visit_bool bool => Ev::Bool;
    visit_i8 i8 => Ev::I8;
    visit_i16 i16 => Ev::I16;
    visit_i32 i32 => Ev::I32;
    visit_i64 i64 => Ev::I64;
    visit_u8 u8 => Ev::U8;
    visit_u16 u16 => Ev::U16;
    visit_u32 u32 => Ev::U32;
    visit_u64 u64 => Ev::U64;
    visit_f32 f32 => |v| Ev::F32(v.to_bits());
    visit_f64 f64 => |v| Ev::F64(v.to_bits());
    visit_char char => Ev::Char;
    visit_borrowed_str &'de str => |v| Ev::Borrowed(v.to_string());
    visit_str &str => |v| Ev::Other(v.to_string());
    visit_string String => Ev::Other;
  }
  fn visit_unit<E>(self) -> Result<Ev, E> {
    Ok(Ev::Unit)
  }
  fn visit_none<E>(self) -> Result<Ev, E> {
    Ok(Ev::None)
  }
  fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Ev, D::Error> {
    Ok(Ev::Some(Box::new(Tgt { hint: some(self.0.inner), ..self.0 }.deserialize(d)?)))
  }
  fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Ev, D::Error> {
    Ok(Ev::Newtype(Box::new(ALL.deserialize(d)?)))
  }
  fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Ev, A::Error> {
    let mut v = vec![];
    while v.len() < self.0.limit {
      let dies = self.0.dies(v.len());
      match a.next_element_seed(Tgt { hint: self.0.inner, dies, ..ALL }) {
        Ok(Some(x)) => v.push(x),
        Ok(None) => break,
        Err(_) if dies => v.push(Ev::Failed),
        Err(e) => return Err(e),
      }
    }
    Ok(Ev::Seq(v))
  }
  fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Ev, A::Error> {
    let mut m = BTreeMap::new();
    while let Some(k) = a.next_key::<String>()? {
      let v = a.next_value_seed(Tgt { hint: self.0.inner, ..ALL })?;
      if m.insert(k, v).is_some() {
        return Ok(Ev::DupKey);
      }
    }
    Ok(Ev::Map(m))
  }
}

pub const HINTS: u8 = 31;

impl<'de> DeserializeSeed<'de> for Tgt {
  type Value = Ev;
  fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Ev, D::Error> {
    if self.dies {
      return Err(de::Error::custom("no"));
    }
    let v = Vis(self);
    match self.hint {
      0 => d.deserialize_any(v),
      1 => d.deserialize_option(v),
      2 => d.deserialize_bool(v),
      3 => d.deserialize_i8(v),
      4 => d.deserialize_i16(v),
      5 => d.deserialize_i32(v),
      6 => d.deserialize_i64(v),
      7 => d.deserialize_i128(v),
      8 => d.deserialize_u8(v),
      9 => d.deserialize_u16(v),
      10 => d.deserialize_u32(v),
      11 => d.deserialize_u64(v),
      12 => d.deserialize_u128(v),
      13 => d.deserialize_f32(v),
      14 => d.deserialize_f64(v),
      15 => d.deserialize_char(v),
      16 => d.deserialize_str(v),
      17 => d.deserialize_string(v),
      18 => d.deserialize_bytes(v),
      19 => d.deserialize_byte_buf(v),
      20 => d.deserialize_unit(v),
      21 => d.deserialize_unit_struct("U", v),
      22 => d.deserialize_newtype_struct("N", v),
      23 => d.deserialize_seq(v),
      24 => d.deserialize_tuple(2, v),
      25 => d.deserialize_tuple_struct("T", 2, v),
      26 => d.deserialize_map(v),
      27 => d.deserialize_struct("S", &["a"], v),
      28 => d.deserialize_enum("E", &["A"], v),
      29 => d.deserialize_identifier(v),
      _ => d.deserialize_ignored_any(v),
    }
  }
}

/// What the target must be handed, `Err` if deserialization must fail, `Ok(None)` if the properties leave it open.
type Want = Result<Option<Ev>, ()>;

fn scalar(v: &V) -> Option<Ev> {
  Some(match v {
    V::Bool(x) => Ev::Bool(*x),
    V::U8(x) => Ev::U8(*x),
    V::Char(x) => Ev::Char(*x),
    V::F64(x) => Ev::F64(*x),
    V::F32(x) => Ev::F32(*x),
    V::I16(x) => Ev::I16(*x),
    V::I32(x) => Ev::I32(*x),
    V::I64(x) | V::Span(x) | V::Date(x) => Ev::I64(*x),
    V::I8(x) => Ev::I8(*x),
    V::U16(x) => Ev::U16(*x),
    V::U32(x) => Ev::U32(*x),
    V::U64(x) => Ev::U64(*x),
    V::Str(s) => Ev::Borrowed(s.clone()),
    V::Null => Ev::Unit,
    _ => return None,
  })
}

fn seq(xs: &[V], t: Tgt) -> Want {
  let mut r = vec![];
  for (k, x) in xs.iter().take(t.limit).enumerate() {
    if t.dies(k) {
      r.push(Ev::Failed);
      continue;
    }
    match want(x, Tgt { hint: t.inner, ..ALL })? {
      Some(e) => r.push(e),
      None => return Ok(None),
    }
  }
  if xs.len() > t.limit {
    return Err(());
  }
  Ok(Some(Ev::Seq(r)))
}

fn map(ms: &BTreeMap<String, V>, t: Tgt) -> Want {
  let mut r = BTreeMap::new();
  let mut fails = false;
  for (k, v) in ms {
    match want(v, Tgt { hint: t.inner, ..ALL }) {
      Ok(Some(e)) => {
        r.insert(k.clone(), e);
      },
      Ok(None) => return Ok(None),
      Err(()) => fails = true,
    }
  }
  if fails {
    return Err(());
  }
  Ok(Some(Ev::Map(r)))
}

fn boxed(class: &str, v: &V) -> bool {
  matches!(
    (class, v),
    ("System.Boolean", V::Bool(_))
      | ("System.Byte", V::U8(_))
      | ("System.SByte", V::I8(_))
      | ("System.Char", V::Char(_))
      | ("System.Double", V::F64(_))
      | ("System.Single", V::F32(_))
      | ("System.Int16", V::I16(_))
      | ("System.UInt16", V::U16(_))
      | ("System.Int32", V::I32(_))
      | ("System.UInt32", V::U32(_))
      | ("System.Int64", V::I64(_))
      | ("System.UInt64", V::U64(_))
  )
}

const BOXED: [&str; 12] = [
  "System.Boolean",
  "System.Byte",
  "System.SByte",
  "System.Char",
  "System.Double",
  "System.Single",
  "System.Int16",
  "System.UInt16",
  "System.Int32",
  "System.UInt32",
  "System.Int64",
  "System.UInt64",
];

fn want(v: &V, t: Tgt) -> Want {
  if t.hint == 1 {
    if *v == V::Null {
      return Ok(Some(Ev::None));
    }
    return Ok(want(v, Tgt { hint: some(t.inner), ..t })?.map(|e| Ev::Some(Box::new(e))));
  }
  if let V::Dec(_) = v {
    return Ok(None);
  }
  if let Some(e) = scalar(v) {
    return Ok(Some(e));
  }
  match v {
    V::Arr(a) => seq(a, t),
    V::Obj { members, .. } if t.hint == 27 => map(members, t),
    V::Obj { lib: Some(_), members, .. } => map(members, t),
    V::Obj { class, members, .. } => {
      let short = class.split('`').next().unwrap();
      if BOXED.contains(&short) {
        return match members.get("m_value") {
          Some(x) if members.len() == 1 && boxed(class, x) => Ok(scalar(x)),
          _ => Ok(None),
        };
      }
      if short == "System.Collections.Generic.List" {
        return match (members.get("_items"), members.get("_size"), members.get("_version")) {
          (Some(V::Arr(a)), Some(V::I32(n)), Some(V::I32(_))) if members.len() == 3 => {
            if *n < 0 || *n as usize > a.len() {
              // the target may fail first; either way it fails, unless it stops early, which fails as well
              return Err(());
            }
            seq(&a[..*n as usize], t)
          },
          _ => Ok(None),
        };
      }
      map(members, t)
    },
    _ => unreachable!(),
  }
}

fn run<'de>(t: Tgt, m: &'de [u8]) -> Result<Result<Ev, String>, String> {
  thread_local!(static T: std::cell::Cell<Tgt> = const { std::cell::Cell::new(ALL) });
  struct W(Ev);
  impl<'de> Deserialize<'de> for W {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
      T.with(|t| t.get()).deserialize(d).map(W)
    }
  }
  T.with(|c| c.set(t));
  crate::guarded(|| nrbf::from_slice::<W>(m).map(|w| w.0).map_err(|e| e.to_string()))
}

pub fn judge(prop: &str, case: &[u8]) -> Verdict {
  if case.len() < 4 {
    return Skip;
  }
  let t = Tgt {
    hint: case[0] & 31,
    inner: case[1] & 31,
    limit: if case[2] == 255 { usize::MAX } else { case[2] as usize },
    fails: if prop == "C11" { 0 } else { case[1] >> 5 },
    dies: false,
  };
  let m = &case[3..];
  let want = match Dec::new(m).message() {
    Ok(Msg::Val(v)) => {
      // Only judge what this property speaks of.
      let about = match (&v, prop) {
        (V::Arr(_), "C15") => true,
        (V::Obj { class, lib: None, .. }, p) if class.split('`').next() == Some("System.Collections.Generic.List") => {
          p == "C13" && t.hint != 27 || p == "C15" && t.hint == 27
        },
        (V::Obj { .. }, "C15") => true,
        (V::Arr(a), "C11") => a.len() == 1 && scalar(&a[0]).is_some() && t.limit > 1 && t.hint == 0,
        (V::Dec(_) | V::Arr(_) | V::Obj { .. }, _) => false,
        (_, "C11") => true,
        _ => false,
      };
      if !about {
        return Skip;
      }
      want(&v, t)
    },
    Ok(_) if prop == "C11" => Err(()),
    _ => return Skip,
  };
  let of_array = m.get(17) == Some(&15);
  match (want, run(t, m)) {
    // not what C11 speaks of
    (Ok(Some(Ev::Seq(_))), Ok(Ok(Ev::Seq(g)))) if prop == "C11" && of_array && g.len() != 1 => Skip,
    (_, Err(p)) => Bad(format!("panicked: {p}")),
    (Ok(None), _) => Skip,
    (Ok(Some(w)), Ok(Ok(g))) if w == g => Fine(true),
    (Err(()), Ok(Err(_))) => Fine(false),
    (w, Ok(g)) => Bad(format!("hint {} limit {}: expected {w:?}, got {g:?}", t.hint, t.limit as u8)),
  }
}

fn le(o: &mut Vec<u8>, v: i32) {
  o.extend(v.to_le_bytes());
}
fn text(o: &mut Vec<u8>, s: &[u8]) {
  crate::gen::varint(s.len(), o);
  o.extend(s);
}

fn scalar_bytes(r: &mut Rng, t: u8) -> Vec<u8> {
  let mut g = Gen::new(r, BASE.clone());
  g.prim(t);
  g.o
}

/// Only strings and null can be the root of a message; scalars of the other types are judged inside an array.
pub fn gen_case(prop: &str, r: &mut Rng, i: u64) -> Vec<u8> {
  let hint = if i % 3 == 0 { r.below(2) as u8 } else { r.below(HINTS as usize) as u8 };
  let inner = if r.p(600) { 0 } else { r.below(HINTS as usize) as u8 } | if r.p(800) { 0 } else { (r.below(8) as u8) << 5 };
  let mut o = vec![hint, inner, 255];
  macro_rules! hdr {
    ($root:expr) => {
      o.push(0);
      for v in [$root, -1, 1, 0] {
        le(&mut o, v);
      }
    };
  }
  match prop {
    "C11" => match r.below(6) {
      0 => {
        hdr!(0);
        o.push(11);
      },
      1 => {
        hdr!(1);
        o.extend([6, 1, 0, 0, 0]);
        let w = r.pick(&["", "a", "Ünï", "long text with spaces", "\u{1F600}"]);
        text(&mut o, w.as_bytes());
        o.push(11);
      },
      2 => {
        hdr!(1);
        if r.p(500) {
          o.extend([21, 1, 0, 0, 0, 18, 1, b'm', 18, 1, b't', 11]);
        } else {
          o.extend([22, 0, 8, 0, 0, 8, 5, 0, 0, 0, 11]);
        }
      },
      _ => {
        // a scalar inside a one-element array
        hdr!(1);
        let inner = r.below(HINTS as usize) as u8;
        let t = r.pick(&PRIMS);
        o.extend([15, 1, 0, 0, 0, 1, 0, 0, 0, t]);
        o.extend(scalar_bytes(r, t));
        o.push(11);
        (o[0], o[1]) = (0, inner);
      },
    },
    "C13" => {
      hdr!(1);
      let n = r.below(6) as i32;
      let size = match r.below(8) {
        0 => -1 - r.below(3) as i32,
        1 => n + 1 + r.below(3) as i32,
        2 => r.pick(&[i32::MAX, i32::MIN, 0]),
        _ => r.below(n as usize + 1) as i32,
      };
      o.extend([4, 1, 0, 0, 0]);
      text(&mut o, b"System.Collections.Generic.List`1[[System.Int32]]");
      le(&mut o, 3);
      let prims = r.p(500);
      let mut order = [0, 1, 2];
      let k = r.below(3);
      order.swap(0, k);
      let k = 1 + r.below(2);
      order.swap(1, k);
      for f in order {
        text(&mut o, [&b"_items"[..], b"_size", b"_version"][f]);
      }
      for f in order {
        o.push(if f == 0 { if prims { 7 } else { 5 } } else { 0 });
      }
      for f in order {
        if f != 0 || prims {
          o.push(8);
        }
      }
      for f in order {
        match f {
          0 => o.extend([9, 2, 0, 0, 0]),
          1 => le(&mut o, size),
          _ => le(&mut o, r.below(9) as i32),
        }
      }
      o.push(if prims { 15 } else { 16 });
      le(&mut o, 2);
      le(&mut o, n);
      if prims {
        o.push(8);
      }
      for k in 0..n {
        if prims {
          le(&mut o, 100 + k);
        } else if k % 3 == 2 {
          o.push(10);
        } else {
          o.push(6);
          le(&mut o, 10 + k);
          text(&mut o, &[b'a' + k as u8]);
        }
      }
      o.push(11);
      if r.p(400) {
        o[2] = r.below(n as usize + 2) as u8;
      }
    },
    _ => match r.below(4) {
      0 => {
        hdr!(1);
        let k = r.below(BOXED.len());
        let t = [1u8, 2, 10, 3, 6, 11, 7, 14, 8, 15, 9, 16][k];
        o.extend([4, 1, 0, 0, 0]);
        text(&mut o, BOXED[k].as_bytes());
        le(&mut o, 1);
        text(&mut o, b"m_value");
        o.extend([0, t]);
        o.extend(scalar_bytes(r, t));
        o.push(11);
      },
      1 => {
        hdr!(1);
        let t = r.pick(&PRIMS);
        let n = r.below(5);
        o.extend([15, 1, 0, 0, 0, n as u8, 0, 0, 0, t]);
        for _ in 0..n {
          let b = scalar_bytes(r, t);
          o.extend(b);
        }
        o.push(11);
        if r.p(500) {
          o[2] = r.below(n + 2) as u8;
        }
      },
      2 => {
        let (inner, limit) = (o[1], o[2]);
        o = object_map(r, hint);
        (o[1], o[2]) = (inner, limit);
      },
      _ => {
        let c = Cfg { method: 0, max: 20, ..BASE };
        let m = Gen::new(r, c).message();
        o.extend(m);
        if r.p(300) {
          o[2] = r.below(4) as u8;
        }
      },
    },
  }
  o
}

/// A root object that is a map: a class in a library, whatever its name, or a system class that is neither boxed nor a list.
fn object_map(r: &mut Rng, hint: u8) -> Vec<u8> {
  let lib = r.p(600);
  let mut o = vec![hint, 0, 255, 0];
  for v in [1, -1, 1, 0] {
    le(&mut o, v);
  }
  if lib {
    o.extend([12, 9, 0, 0, 0, 1, b'L']);
  }
  o.extend([if lib { 5 } else { 4 }, 1, 0, 0, 0]);
  let w = if lib {
    let k = r.below(BOXED.len());
    r.pick(&[BOXED[k], BOXED[k], "System.Collections.Generic.List`1[[X]]", "App.Point"])
  } else {
    r.pick(&["System.Version", "System.Collections.Hashtable", "System.Int32X", "X.System.Int32", "System.DateTime", "System.Collections.Generic.Lists"])
  };
  text(&mut o, w.as_bytes());
  let n = r.below(4);
  le(&mut o, n as i32);
  let ts: Vec<u8> = (0..n).map(|_| r.pick(&PRIMS)).collect();
  for k in 0..n {
    let w = if n == 1 && r.p(500) { &b"m_value"[..] } else { [&b"a"[..], b"_size", b"key"][k % 3] };
    text(&mut o, w);
  }
  o.extend(std::iter::repeat(0).take(n));
  o.extend(&ts);
  if lib {
    le(&mut o, 9);
  }
  for t in ts {
    let b = scalar_bytes(r, t);
    o.extend(b);
  }
  o.push(11);
  o
}
