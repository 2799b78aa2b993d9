//! Independent reference decoder, written from MS-NRBF and the property statements (not from the code in /repo).
//! It is the oracle of the concrete search: the real parser must accept exactly what it accepts, with the same value.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, PartialEq)]
pub enum V {
  Obj { class: String, lib: Option<String>, members: BTreeMap<String, V> },
  Arr(Vec<V>),
  Bool(bool),
  U8(u8),
  Char(char),
  Dec(String),
  F64(u64),
  F32(u32),
  I16(i16),
  I32(i32),
  I64(i64),
  I8(i8),
  Span(i64),
  Date(i64),
  U16(u16),
  U32(u32),
  U64(u64),
  Str(String),
  Null,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Msg {
  Call { method: String, type_name: String, ctx: Option<String>, args: Option<Vec<V>> },
  Ret { value: Option<V>, ctx: Option<String>, args: Option<Vec<V>> },
  Val(V),
}

#[derive(Debug, Clone)]
enum Ty {
  Prim(u8),
  Str,
  Obj,
  Sys(String),
  Cls(String, u32),
  PrimArr,
}

#[derive(Debug, Clone)]
struct Def {
  name: String,
  names: Vec<String>,
  types: Option<Vec<Ty>>,
  lib: Option<u32>,
}

enum M {
  Val(V),
  Null(usize),
  Ref(u32),
}

type R<T> = Result<T, String>;

pub struct Dec<'a> {
  b: &'a [u8],
  p: usize,
  libs: BTreeMap<u32, String>,
  defs: BTreeMap<u32, Def>,
  objs: BTreeMap<u32, V>,
  ids: BTreeSet<u32>,
}

fn no<T>(s: &str) -> R<T> {
  Err(s.to_string())
}

/// Exact text of a decimal as rust_decimal prints it, computed without rust_decimal for the plain shapes the
/// generators produce ([-]digits[.digits], at most 18 digits in all).
pub fn plain_decimal(s: &str) -> Option<String> {
  let (neg, t) = match s.strip_prefix('-') {
    Some(t) => (true, t),
    None => (false, s),
  };
  let mut parts = t.splitn(2, '.');
  let i = parts.next()?;
  let f = parts.next();
  if i.is_empty() || !i.bytes().all(|c| c.is_ascii_digit()) {
    return None;
  }
  if let Some(f) = f {
    if f.is_empty() || !f.bytes().all(|c| c.is_ascii_digit()) {
      return None;
    }
  }
  if i.len() + f.map_or(0, |f| f.len()) > 18 {
    return None;
  }
  let it = i.trim_start_matches('0');
  let it = if it.is_empty() { "0" } else { it };
  let zero = it == "0" && f.map_or(true, |f| f.bytes().all(|c| c == b'0'));
  let mut r = String::new();
  if neg && !zero {
    r.push('-');
  }
  r.push_str(it);
  if let Some(f) = f {
    r.push('.');
    r.push_str(f);
  }
  Some(r)
}

/// Strings for which the oracle knows that they are no decimal.
pub fn not_decimal(s: &str) -> bool {
  s.is_empty() || s.bytes().any(|c| !(c.is_ascii_digit() || matches!(c, b'.' | b'-' | b'+' | b'_' | b'e' | b'E')))
}

pub const UNKNOWN: &str = "oracle does not know";

impl<'a> Dec<'a> {
  pub fn new(b: &'a [u8]) -> Self {
    Dec { b, p: 0, libs: BTreeMap::new(), defs: BTreeMap::new(), objs: BTreeMap::new(), ids: BTreeSet::new() }
  }
  fn take(&mut self, n: usize) -> R<&'a [u8]> {
    if self.b.len() - self.p < n {
      return no("short");
    }
    let r = &self.b[self.p..self.p + n];
    self.p += n;
    Ok(r)
  }
  fn byte(&mut self) -> R<u8> {
    Ok(self.take(1)?[0])
  }
  fn peek(&self) -> Option<u8> {
    self.b.get(self.p).copied()
  }
  fn i32(&mut self) -> R<i32> {
    let t = self.take(4)?;
    Ok((t[0] as u32 | (t[1] as u32) << 8 | (t[2] as u32) << 16 | (t[3] as u32) << 24) as i32)
  }
  fn le(&mut self, n: usize) -> R<u64> {
    let t = self.take(n)?;
    let mut r = 0u64;
    for (i, x) in t.iter().enumerate() {
      r |= (*x as u64) << (8 * i);
    }
    Ok(r)
  }
  fn id(&mut self) -> R<u32> {
    let v = self.i32()?;
    if v <= 0 {
      return no("non-positive id");
    }
    Ok(v as u32)
  }
  fn len(&mut self) -> R<usize> {
    let v = self.i32()?;
    if v < 0 {
      return no("negative length");
    }
    Ok(v as usize)
  }
  fn str(&mut self) -> R<String> {
    let mut n: u64 = 0;
    let mut k = 0;
    loop {
      let x = self.byte()?;
      if k == 4 && x > 7 {
        return no("length prefix too large");
      }
      n |= ((x & 0x7f) as u64) << (7 * k);
      k += 1;
      if x & 0x80 == 0 {
        break;
      }
    }
    let t = self.take(n as usize)?;
    utf8(t).ok_or_else(|| "invalid UTF-8".to_string())
  }
  fn prim(&mut self, t: u8) -> R<V> {
    Ok(match t {
      1 => match self.byte()? {
        0 => V::Bool(false),
        1 => V::Bool(true),
        _ => return no("boolean"),
      },
      2 => V::U8(self.byte()?),
      3 => {
        let rest = &self.b[self.p..];
        let mut found = None;
        for n in 1..=4usize {
          if rest.len() >= n {
            if let Some(s) = utf8(&rest[..n]) {
              let mut cs = s.chars();
              let c = cs.next().unwrap();
              assert!(cs.next().is_none());
              found = Some((n, c));
              break;
            }
          }
        }
        match found {
          Some((n, c)) => {
            self.p += n;
            V::Char(c)
          },
          None => return no("char"),
        }
      },
      5 => {
        let s = self.str()?;
        match plain_decimal(&s) {
          Some(d) => V::Dec(d),
          None if not_decimal(&s) => return no("decimal"),
          None => return no(UNKNOWN),
        }
      },
      6 => V::F64(self.le(8)?),
      7 => V::I16(self.le(2)? as u16 as i16),
      8 => V::I32(self.le(4)? as u32 as i32),
      9 => V::I64(self.le(8)? as i64),
      10 => V::I8(self.le(1)? as u8 as i8),
      11 => V::F32(self.le(4)? as u32),
      12 => V::Span(self.le(8)? as i64),
      13 => V::Date(self.le(8)? as i64),
      14 => V::U16(self.le(2)? as u16),
      15 => V::U32(self.le(4)? as u32),
      16 => V::U64(self.le(8)?),
      _ => return no("primitive type"),
    })
  }
  fn prim_type(&mut self) -> R<u8> {
    match self.byte()? {
      t @ (1..=3 | 5..=18) => Ok(t),
      _ => no("primitive type code"),
    }
  }
  fn library(&mut self) -> R<(u32, String)> {
    if self.byte()? != 12 {
      return no("library");
    }
    let id = self.id()?;
    let name = self.str()?;
    Ok((id, name))
  }
  /// `0*1(BinaryLibrary)`
  fn opt_library(&mut self) -> R<bool> {
    if self.peek() != Some(12) {
      return Ok(false);
    }
    let (id, name) = self.library()?;
    if self.libs.insert(id, name).is_some() {
      return no("duplicate library");
    }
    Ok(true)
  }
  /// The byte after an optional library at the current position, and whether there is one, without registering it.
  fn look(&mut self) -> R<(bool, Option<u8>)> {
    if self.peek() != Some(12) {
      return Ok((false, self.peek()));
    }
    let p = self.p;
    self.library()?;
    let r = self.peek();
    self.p = p;
    Ok((true, r))
  }
  fn declare(&mut self, id: u32) -> R<()> {
    if self.ids.insert(id) {
      Ok(())
    } else {
      no("duplicate object id")
    }
  }
  fn ty_code(&mut self) -> R<u8> {
    match self.byte()? {
      t @ 0..=7 => Ok(t),
      _ => no("binary type code"),
    }
  }
  fn ty_info(&mut self, t: u8) -> R<Ty> {
    Ok(match t {
      0 => Ty::Prim(self.prim_type()?),
      1 | 6 => Ty::Str,
      2 | 5 => Ty::Obj,
      3 => Ty::Sys(self.str()?),
      4 => {
        let n = self.str()?;
        Ty::Cls(n, self.id()?)
      },
      _ => {
        self.prim_type()?;
        Ty::PrimArr
      },
    })
  }
  fn object_string(&mut self) -> R<(u32, String)> {
    self.byte()?;
    let id = self.id()?;
    let s = self.str()?;
    self.declare(id)?;
    Ok((id, s))
  }
  fn ref_or_null(&mut self) -> R<M> {
    match self.byte()? {
      9 => Ok(M::Ref(self.id()?)),
      10 => Ok(M::Null(1)),
      13 => match self.byte()? {
        0 => no("null count"),
        n => Ok(M::Null(n as usize)),
      },
      14 => {
        let n = self.i32()?;
        if n <= 0 {
          return no("null count");
        }
        Ok(M::Null(n as usize))
      },
      _ => no("reference or null"),
    }
  }
  fn member(&mut self, ty: &Ty) -> R<M> {
    match ty {
      Ty::Prim(t) => Ok(M::Val(self.prim(*t)?)),
      Ty::Obj => {
        // `Object` and `ObjectArray` members are plain member references, which again may start with a library
        self.opt_library()?;
        self.untyped()
      },
      Ty::Str => {
        self.opt_library()?;
        if self.peek() == Some(6) {
          Ok(M::Val(V::Str(self.object_string()?.1)))
        } else {
          self.ref_or_null()
        }
      },
      Ty::PrimArr => {
        self.opt_library()?;
        self.ref_or_null()
      },
      Ty::Sys(name) => {
        self.opt_library()?;
        self.class_member(name, None)
      },
      Ty::Cls(name, lib) => {
        self.opt_library()?;
        let Some(lib) = self.libs.get(lib).cloned() else { return no("undeclared library") };
        self.class_member(name, Some(lib))
      },
    }
  }
  fn class_member(&mut self, name: &str, want: Option<String>) -> R<M> {
    match self.look()? {
      (_, Some(1..=5)) => {
        self.opt_library()?;
        let v = self.class()?.1;
        match &v {
          V::Obj { class, lib, .. } if class == name && *lib == want => Ok(M::Val(v)),
          _ => no("unexpected class"),
        }
      },
      (true, _) => no("library in front of no class"),
      _ => self.ref_or_null(),
    }
  }
  fn untyped(&mut self) -> R<M> {
    self.opt_library()?;
    match self.peek() {
      Some(8) => {
        self.p += 1;
        let t = self.prim_type()?;
        Ok(M::Val(self.prim(t)?))
      },
      Some(6) => Ok(M::Val(V::Str(self.object_string()?.1))),
      Some(12) => {
        self.opt_library()?;
        Ok(M::Val(self.class()?.1))
      },
      Some(1..=5) => Ok(M::Val(self.class()?.1)),
      _ => self.ref_or_null(),
    }
  }
  fn resolve(&mut self, ms: Vec<M>) -> R<Vec<V>> {
    let mut r = vec![];
    for m in ms {
      r.push(match m {
        M::Val(v) => v,
        M::Null(1) => V::Null,
        M::Null(_) => return no("null run for class members"),
        M::Ref(id) => {
          if !self.objs.contains_key(&id) {
            let got = self.referenceable()?;
            if got != id {
              return no("other object than the referenced one");
            }
          }
          self.objs.remove(&id).unwrap()
        },
      });
    }
    Ok(r)
  }
  fn class(&mut self) -> R<(u32, V)> {
    let k = self.byte()?;
    let id = self.id();
    let (id, def) = match k {
      1 => {
        let id = id?;
        let m = self.id()?;
        if m == id {
          return no("metadata id is the object id");
        }
        let Some(d) = self.defs.get(&m).cloned() else { return no("unknown metadata id") };
        self.declare(id)?;
        (id, d)
      },
      2..=5 => {
        let id = id?;
        let name = self.str()?;
        let n = self.len()?;
        let mut names = vec![];
        for _ in 0..n {
          names.push(self.str()?);
        }
        let types = if k >= 4 {
          let mut codes = vec![];
          for _ in 0..n {
            codes.push(self.ty_code()?);
          }
          let mut ts = vec![];
          for c in codes {
            ts.push(self.ty_info(c)?);
          }
          Some(ts)
        } else {
          None
        };
        let lib = if k == 3 || k == 5 { Some(self.id()?) } else { None };
        let d = Def { name, names, types, lib };
        self.declare(id)?;
        self.defs.insert(id, d.clone());
        (id, d)
      },
      _ => return no("class"),
    };
    let lib = match def.lib {
      None => None,
      Some(l) => match self.libs.get(&l) {
        Some(n) => Some(n.clone()),
        None => return no("undeclared library"),
      },
    };
    let mut ms = vec![];
    for i in 0..def.names.len() {
      let m = match &def.types {
        Some(ts) => self.member(&ts[i])?,
        None => self.untyped()?,
      };
      ms.push(m);
    }
    let vs = self.resolve(ms)?;
    let mut members = BTreeMap::new();
    for (n, v) in def.names.iter().zip(vs) {
      members.insert(n.clone(), v);
    }
    Ok((id, V::Obj { class: def.name, lib, members }))
  }
  fn elements(&mut self, n: usize, ty: Option<&Ty>) -> R<Vec<V>> {
    let mut ms = vec![];
    while ms.len() < n {
      let m = match ty {
        Some(t) => self.member(t)?,
        None => self.untyped()?,
      };
      match m {
        M::Null(k) => {
          if ms.len() + k > n {
            return no("null run too long");
          }
          if k > 1 << 18 {
            return no(UNKNOWN);
          }
          for _ in 0..k {
            ms.push(M::Null(1));
          }
        },
        m => ms.push(m),
      }
    }
    self.resolve(ms)
  }
  fn array(&mut self) -> R<(u32, Vec<V>)> {
    let k = self.byte()?;
    let id = self.id()?;
    Ok(match k {
      16 | 17 => {
        let n = self.len()?;
        self.declare(id)?;
        (id, self.elements(n, if k == 17 { Some(&Ty::Str) } else { None })?)
      },
      15 => {
        let n = self.len()?;
        let t = self.prim_type()?;
        self.declare(id)?;
        let mut vs = vec![];
        for _ in 0..n {
          vs.push(self.prim(t)?);
        }
        (id, vs)
      },
      7 => {
        let at = self.byte()?;
        if at > 5 {
          return no("array type code");
        }
        let rank = self.len()?;
        let mut ls = vec![];
        for _ in 0..rank {
          ls.push(self.len()?);
        }
        if at >= 3 {
          for _ in 0..rank {
            self.len()?;
          }
        }
        let c = self.ty_code()?;
        let t = self.ty_info(c)?;
        self.declare(id)?;
        let mut n: usize = 1;
        for l in &ls {
          n = match n.checked_mul(*l) {
            Some(n) => n,
            None => return no("too many elements"),
          };
        }
        let flat = self.elements(n, Some(&t))?;
        (id, shape(&ls, flat))
      },
      _ => return no("array"),
    })
  }
  fn referenceable(&mut self) -> R<u32> {
    let lib = self.opt_library()?;
    let (id, v) = match self.peek() {
      Some(1..=5) => self.class()?,
      Some(7 | 15 | 16 | 17) => {
        let (id, v) = self.array()?;
        (id, V::Arr(v))
      },
      Some(6) if !lib => {
        let (id, s) = self.object_string()?;
        (id, V::Str(s))
      },
      _ => return no("referenceable"),
    };
    self.objs.insert(id, v);
    Ok(id)
  }
  fn referenceables(&mut self) -> R<()> {
    loop {
      match self.look()? {
        (_, Some(1..=5 | 7 | 15 | 16 | 17)) | (false, Some(6)) => {
          self.referenceable()?;
        },
        _ => return Ok(()),
      }
    }
  }
  fn coded(&mut self) -> R<V> {
    match self.prim_type()? {
      17 => Ok(V::Null),
      18 => Ok(V::Str(self.str()?)),
      t => self.prim(t),
    }
  }
  fn coded_str(&mut self) -> R<String> {
    if self.byte()? != 18 {
      return no("string code");
    }
    self.str()
  }
  fn coded_list(&mut self) -> R<Vec<V>> {
    let n = self.len()?;
    let mut r = vec![];
    for _ in 0..n {
      r.push(self.coded()?);
    }
    Ok(r)
  }
  fn method(&mut self, root: u32) -> R<Msg> {
    self.opt_library()?;
    let k = self.byte()?;
    let f = self.i32()?;
    if !flags_ok(f) {
      return no("flags");
    }
    let (mut names, mut value) = (None, None);
    if k == 21 {
      names = Some((self.coded_str()?, self.coded_str()?));
    } else if f & 0x800 != 0 {
      value = Some(self.coded()?);
    }
    let ctx = if f & 0x20 != 0 { Some(self.coded_str()?) } else { None };
    let inline = if f & 2 != 0 { Some(self.coded_list()?) } else { None };
    let call_array = if let (_, Some(16)) = self.look()? {
      self.opt_library()?;
      let (id, a) = self.array()?;
      if id != root {
        return no("call array id");
      }
      Some(a)
    } else {
      None
    };
    let args = if f & 4 != 0 {
      match call_array {
        Some(a) => Some(a),
        None => return no("no call array"),
      }
    } else if f & 8 != 0 {
      match call_array.and_then(|a| a.into_iter().next()) {
        Some(V::Arr(a)) => Some(a),
        _ => return no("no arguments in the call array"),
      }
    } else {
      inline
    };
    Ok(match names {
      Some((method, type_name)) => Msg::Call { method, type_name, ctx, args },
      None => Msg::Ret { value, ctx, args },
    })
  }
  pub fn message(&mut self) -> R<Msg> {
    if self.byte()? != 0 {
      return no("header");
    }
    let root = self.i32()?;
    if root < 0 {
      return no("root id");
    }
    let root = root as u32;
    self.i32()?;
    if self.i32()? != 1 || self.i32()? != 0 {
      return no("version");
    }
    self.referenceables()?;
    let m = match self.look()? {
      (_, Some(21 | 22)) => Some(self.method(root)?),
      _ => None,
    };
    self.referenceables()?;
    if self.byte()? != 11 {
      return no("message end");
    }
    if self.p != self.b.len() {
      return no("trailing data");
    }
    match m {
      Some(m) => Ok(m),
      None if root == 0 => Ok(Msg::Val(V::Null)),
      None => match self.objs.remove(&root) {
        Some(v) => Ok(Msg::Val(v)),
        None => no("no root object"),
      },
    }
  }
}

/// Message flags rule of 2.2.1.1, written over bit numbers.
pub fn flags_ok(f: i32) -> bool {
  let n = |m: i32| (f & m).count_ones();
  let (args, ctx, ret, sig, exc) = (n(0x0f), n(0x70), n(0x1e00), n(0x80), n(0x2000));
  args <= 1
    && ctx <= 1
    && ret <= 1
    && !(exc > 0 && (args > 0 || ret > 0 || sig > 0))
    && !(ret > 0 && sig > 0)
}

fn shape(ls: &[usize], mut flat: Vec<V>) -> Vec<V> {
  if ls.len() <= 1 || flat.is_empty() {
    return flat;
  }
  let row: usize = ls[1..].iter().product();
  let mut r = vec![];
  for c in flat.chunks_mut(row) {
    let v: Vec<V> = c.iter_mut().map(|x| std::mem::replace(x, V::Null)).collect();
    r.push(V::Arr(shape(&ls[1..], v)));
  }
  r
}

/// Own UTF-8 decoder (RFC 3629).
pub fn utf8(b: &[u8]) -> Option<String> {
  let mut s = String::new();
  let mut i = 0;
  while i < b.len() {
    let x = b[i] as u32;
    let (n, min, mut c) = match x {
      0..=0x7f => (0, 0, x),
      0xc0..=0xdf => (1, 0x80, x & 0x1f),
      0xe0..=0xef => (2, 0x800, x & 0x0f),
      0xf0..=0xf7 => (3, 0x10000, x & 7),
      _ => return None,
    };
    if b.len() - i <= n {
      return None;
    }
    for k in 1..=n {
      let y = b[i + k] as u32;
      if y & 0xc0 != 0x80 {
        return None;
      }
      c = c << 6 | y & 0x3f;
    }
    if c < min {
      return None;
    }
    s.push(char::from_u32(c)?);
    i += n + 1;
  }
  Some(s)
}
