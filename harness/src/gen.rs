//! Message generators. Everything is derived from one seed. A generated message is mostly well-formed; faults are
//! injected on purpose with the probabilities in `Cfg`, and the reference decoder says what must happen.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
  pub fn new(seed: u64) -> Self {
    Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    (self.next() % n as u64) as usize
  }
  /// true with probability p per mille
  pub fn p(&mut self, p: u32) -> bool {
    self.next() % 1000 < p as u64
  }
  pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
    xs[self.below(xs.len())]
  }
}

#[derive(Clone)]
pub struct Cfg {
  pub class: u32,
  pub array: u32,
  pub string: u32,
  pub refs: u32,
  pub libs: u32,
  pub nulls: u32,
  pub prims: u32,
  pub typed: u32,
  pub reuse: u32,
  pub method: u32,
  pub standalone: u32,
  pub fault_id: u32,
  pub fault_lib: u32,
  pub fault_null: u32,
  pub fault_ref: u32,
  pub fault_class: u32,
  pub fault_frame: u32,
  pub fault_flags: u32,
  pub mutate: u32,
  pub max: usize,
  pub multi: u32,
}

pub const BASE: Cfg = Cfg {
  class: 100,
  array: 100,
  string: 100,
  refs: 200,
  libs: 150,
  nulls: 200,
  prims: 300,
  typed: 600,
  reuse: 300,
  method: 200,
  standalone: 300,
  fault_id: 0,
  fault_lib: 0,
  fault_null: 0,
  fault_ref: 0,
  fault_class: 0,
  fault_frame: 0,
  fault_flags: 0,
  mutate: 0,
  max: 40,
  multi: 300,
};

#[derive(Clone, Debug)]
enum Ty {
  Prim(u8),
  Str,
  Obj(u8),
  Sys(Vec<u8>),
  Cls(Vec<u8>, u32),
  StrArr,
  PrimArr(u8),
}

#[derive(Clone)]
struct Def {
  id: u32,
  name: Vec<u8>,
  n: usize,
  types: Option<Vec<Ty>>,
  lib: Option<u32>,
}

pub struct Gen<'r> {
  pub r: &'r mut Rng,
  pub c: Cfg,
  pub o: Vec<u8>,
  next: u32,
  used: Vec<u32>,
  libs: Vec<u32>,
  defs: Vec<Def>,
  avail: Vec<u32>,
  left: isize,
}

pub const PRIMS: [u8; 15] = [1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];

pub fn varint(mut n: usize, o: &mut Vec<u8>) {
  loop {
    let x = (n & 0x7f) as u8;
    n >>= 7;
    if n == 0 {
      o.push(x);
      return;
    }
    o.push(x | 0x80);
  }
}

impl<'r> Gen<'r> {
  pub fn new(r: &'r mut Rng, c: Cfg) -> Self {
    let left = 1 + r.below(c.max) as isize;
    Gen { r, c, o: vec![], next: 1, used: vec![], libs: vec![], defs: vec![], avail: vec![], left }
  }
  fn i32(&mut self, v: i32) {
    self.o.extend(v.to_le_bytes());
  }
  fn lps(&mut self, s: &[u8]) {
    varint(s.len(), &mut self.o);
    self.o.extend(s);
  }
  fn word(&mut self) -> Vec<u8> {
    const W: [&str; 12] =
      ["a", "b", "m", "name", "_items", "", "Ünïcødé", "x.y.z", "日本", "value__", "\u{1F600}", "A.Very.Long.Class.Name+Nested`1[[System.String]]"];
    if self.r.p(30) {
      let n = self.r.pick(&[126usize, 127, 128, 129, 200]);
      return vec![b'q'; n];
    }
    let i = self.r.below(W.len());
    let mut w = W[i].as_bytes().to_vec();
    if self.r.p(500) {
      w.push(b'0' + self.r.below(10) as u8);
    }
    w
  }
  fn fresh(&mut self) -> u32 {
    if self.r.p(self.c.fault_id) {
      match self.r.below(5) {
        0 => return 0,
        1 => return -(1 + self.r.below(5) as i32) as u32,
        2 => return 0x8000_0000,
        _ => {
          if !self.used.is_empty() {
            let i = self.r.below(self.used.len());
            return self.used[i];
          }
        },
      }
    }
    let id = if self.r.p(20) { 0x7fff_ff00 + self.next % 255 } else { self.alias(&self.used.clone()).unwrap_or(self.next) };
    self.next += 1 + self.r.below(2) as u32;
    self.used.push(id);
    id
  }
  /// Now and then, an ID that differs from one of `ids` in high bits only.
  fn alias(&mut self, ids: &[u32]) -> Option<u32> {
    if ids.is_empty() || !self.r.p(40) {
      return None;
    }
    let id = ids[self.r.below(ids.len())] ^ (1 + self.r.below(3) as u32) << self.r.pick(&[8, 16, 16, 24, 29]);
    (id > 0 && id < 0x8000_0000 && !self.used.contains(&id) && !ids.contains(&id)).then_some(id)
  }
  fn new_lib(&mut self) {
    let mut id = if self.r.p(50) { 0x7fff_ffff - self.libs.len() as u32 } else { 1 + self.r.below(60) as u32 };
    if self.r.p(self.c.fault_lib) {
      if self.r.p(300) {
        id = self.r.pick(&[0u32, 0xffff_ffff, 0x8000_0000]);
      }
    } else {
      while self.libs.contains(&id) {
        id += 1;
      }
      id = self.alias(&self.libs.clone()).unwrap_or(id);
    }
    self.o.push(12);
    self.i32(id as i32);
    let mut w = self.word();
    if self.r.p(700) {
      w = [b"Lib", &w[..], &id.to_le_bytes().map(|b| b & 0x7f)[..]].concat();
    }
    self.lps(&w);
    self.libs.push(id);
  }
  fn maybe_lib(&mut self) {
    if self.r.p(self.c.libs) {
      self.new_lib();
    }
  }
  pub fn prim(&mut self, t: u8) {
    let r = self.r.next();
    match t {
      1 => self.o.push((r & 1) as u8),
      2 | 10 => self.o.push(self.r.pick(&[0u8, 1, 12, 6, 9, 10, 0x7f, 0x80, 0xff, r as u8])),
      3 => {
        let c = loop {
          let hi = self.r.pick(&[0x80u32, 0x800, 0x10000, 0x110000]);
          if let Some(c) = char::from_u32(self.r.below(hi as usize) as u32) {
            break c;
          }
        };
        let mut b = [0; 4];
        self.o.extend(c.encode_utf8(&mut b).as_bytes());
      },
      5 => {
        let n = r % 1_000_000_000_000;
        let k = self.r.below(5);
        let mut s = (n + 1).to_string();
        if k > 0 && s.len() > k {
          s.insert(s.len() - k, '.');
        }
        if self.r.p(300) {
          s.insert(0, '-');
        }
        self.lps(s.as_bytes());
      },
      7 | 14 => {
        let v = self.r.pick(&[0u16, 12, 0x7fff, 0x8000, 0xffff, r as u16, r as u16]);
        self.o.extend(v.to_le_bytes());
      },
      8 | 15 | 11 => {
        let v = self.r.pick(&[0u32, 12, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x7fc0_0001, r as u32, r as u32]);
        self.o.extend(v.to_le_bytes());
      },
      6 | 9 | 12 | 13 | 16 => {
        let v = self.r.pick(&[0u64, 12, u64::MAX, 1 << 63, 1 << 62, 3 << 62, (1 << 62) - 1, 0x7ff8_0000_0000_0001, r, r, r]);
        self.o.extend(v.to_le_bytes());
      },
      _ => (),
    }
  }
  fn strrec(&mut self, id: u32) {
    self.o.push(6);
    self.i32(id as i32);
    let w = self.word();
    self.lps(&w);
  }
  fn null_run(&mut self, n: usize) {
    let f = self.r.p(self.c.fault_null);
    match n {
      1 if self.r.p(700) => self.o.push(10),
      _ if n < 256 && self.r.p(600) => {
        self.o.push(13);
        self.o.push(if f && self.r.p(300) { 0 } else { n as u8 });
      },
      _ => {
        self.o.push(14);
        let v = if f { self.r.pick(&[0i32, -1, i32::MIN]) } else { n as i32 };
        self.i32(v);
      },
    }
  }
  fn reference(&mut self, pend: &mut Vec<u32>) {
    self.o.push(9);
    if self.r.p(self.c.fault_ref) {
      let v = match self.r.below(5) {
        0 => 0,
        1 => -1,
        2 => self.next as i32 + 5,
        // one that can be referred to, but for high bits
        3 if !self.avail.is_empty() => {
          let i = self.r.below(self.avail.len());
          (self.avail[i] ^ (1 << self.r.pick(&[8, 16, 24, 30, 31]))) as i32
        },
        _ if !self.used.is_empty() => {
          let i = self.r.below(self.used.len());
          self.used[i] as i32
        },
        _ => 77,
      };
      self.i32(v);
      return;
    }
    if !self.avail.is_empty() && self.r.p(500) {
      let i = self.r.below(self.avail.len());
      let id = self.avail.swap_remove(i);
      self.i32(id as i32);
      return;
    }
    let id = self.fresh();
    self.i32(id as i32);
    pend.push(id);
  }
  /// A member or element without declared type; `room` null elements are possible here, returns how many it stands for.
  fn untyped(&mut self, room: usize, pend: &mut Vec<u32>) -> usize {
    self.left -= 1;
    self.maybe_lib_low();
    let c = self.c.clone();
    let tot = c.nulls + c.refs + c.string + c.prims + c.class;
    let mut x = self.r.below(tot.max(1) as usize) as u32;
    if self.left < 0 && self.r.p(800) {
      x = 0;
    }
    if x < c.nulls {
      return self.nulls(room);
    }
    x -= c.nulls;
    if x < c.refs {
      self.reference(pend);
      return 1;
    }
    x -= c.refs;
    if x < c.string {
      let id = self.fresh();
      self.strrec(id);
      return 1;
    }
    x -= c.string;
    if x < c.prims {
      self.o.push(8);
      let t = if self.r.p(c.fault_class / 4) { self.r.pick(&[0u8, 4, 17, 18, 19]) } else { self.r.pick(&PRIMS) };
      self.o.push(t);
      self.prim(t);
      return 1;
    }
    let id = self.fresh();
    self.class(id, None);
    1
  }
  fn maybe_lib_low(&mut self) {
    if self.c.libs > 0 && self.r.p(self.c.libs / 4) {
      self.new_lib();
    }
  }
  fn nulls(&mut self, room: usize) -> usize {
    let mut n = if room > 1 && self.r.p(self.c.multi) { 1 + self.r.below(room) } else { 1 };
    if self.r.p(self.c.multi / 3) {
      n = room.max(1);
    }
    if self.r.p(self.c.fault_null) {
      n = room + 1 + self.r.below(3);
    }
    self.null_run(n);
    n
  }
  fn typed(&mut self, t: &Ty, room: usize, pend: &mut Vec<u32>) -> usize {
    self.left -= 1;
    if let Ty::Prim(t) = t {
      self.prim(*t);
      return 1;
    }
    if let Ty::Obj(_) = t {
      return self.untyped(room, pend);
    }
    self.maybe_lib_low();
    if self.r.p(self.c.nulls) || self.left < 0 && self.r.p(800) {
      return self.nulls(room);
    }
    if self.r.p(self.c.refs) {
      self.reference(pend);
      return 1;
    }
    match t {
      Ty::Str | Ty::StrArr => {
        let id = self.fresh();
        self.strrec(id);
      },
      Ty::Sys(n) => {
        let id = self.fresh();
        let n = if self.r.p(self.c.fault_class) { self.word() } else { n.clone() };
        self.class(id, Some((n, None)));
      },
      Ty::Cls(n, l) => {
        let id = self.fresh();
        let n = if self.r.p(self.c.fault_class) { self.word() } else { n.clone() };
        let mut l = Some(*l);
        if self.r.p(self.c.fault_class) && !self.libs.is_empty() {
          let i = self.r.below(self.libs.len());
          l = if self.r.p(200) { None } else { Some(self.libs[i]) };
        }
        self.class(id, Some((n, l)));
      },
      _ => self.reference(pend),
    }
    1
  }
  fn ty(&mut self) -> Ty {
    match self.r.below(9) {
      0 | 1 => Ty::Prim(self.r.pick(&PRIMS)),
      2 => Ty::Str,
      3 => Ty::Obj(2),
      4 => Ty::Obj(5),
      5 => Ty::Sys(self.word()),
      6 if !self.libs.is_empty() => {
        let i = self.r.below(self.libs.len());
        let l = if self.r.p(self.c.fault_lib) {
              let any = 1 + self.r.below(99) as u32;
              self.r.pick(&[any, self.libs[i] ^ 1 << 16, self.libs[i] ^ 1 << 31])
            } else {
              self.libs[i]
            };
        Ty::Cls(self.word(), l)
      },
      7 => Ty::StrArr,
      8 => Ty::PrimArr(self.r.pick(&PRIMS)),
      _ => Ty::Prim(8),
    }
  }
  fn ty_code(&mut self, t: &Ty) {
    self.o.push(match t {
      Ty::Prim(_) => 0,
      Ty::Str => 1,
      Ty::Obj(c) => *c,
      Ty::Sys(_) => 3,
      Ty::Cls(..) => 4,
      Ty::StrArr => 6,
      Ty::PrimArr(_) => 7,
    });
  }
  fn ty_info(&mut self, t: &Ty) {
    match t {
      Ty::Prim(p) | Ty::PrimArr(p) => self.o.push(*p),
      Ty::Sys(n) => self.lps(n),
      Ty::Cls(n, l) => {
        self.lps(n);
        self.i32(*l as i32);
      },
      _ => (),
    }
  }
  fn class(&mut self, id: u32, want: Option<(Vec<u8>, Option<u32>)>) {
    self.left -= 1;
    let fits = |d: &Def| match &want {
      Some((n, l)) => d.name == *n && d.lib == *l,
      None => true,
    };
    let reusable: Vec<Def> = self.defs.iter().filter(|d| fits(d)).cloned().collect();
    let def = if !reusable.is_empty() && self.r.p(self.c.reuse) {
      let d = reusable[self.r.below(reusable.len())].clone();
      self.maybe_lib();
      self.o.push(1);
      self.i32(id as i32);
      let mut m = d.id as i32;
      if self.r.p(self.c.fault_class) {
        m = match self.r.below(5) {
          0 => id as i32,
          1 => 0,
          2 => (d.id as i32).wrapping_neg(),
          3 => (d.id ^ (1 << self.r.pick(&[8, 16, 24, 30, 31]))) as i32,
          _ => {
            if self.used.is_empty() {
              9
            } else {
              let i = self.r.below(self.used.len());
              self.used[i] as i32
            }
          },
        };
      }
      self.i32(m);
      d
    } else {
      let (name, lib) = match want {
        Some((n, l)) => {
          self.maybe_lib();
          (n, l)
        },
        None => {
          let mut n = self.word();
          if self.r.p(200) {
            n.insert(0, b'C');
          }
          if self.r.p(400) {
            self.maybe_lib();
            (n, None)
          } else {
            if self.libs.is_empty() {
              self.new_lib();
            } else {
              self.maybe_lib();
            }
            let i = self.r.below(self.libs.len());
            let l = if self.r.p(self.c.fault_lib) {
              let any = 1 + self.r.below(99) as u32;
              self.r.pick(&[any, self.libs[i] ^ 1 << 16, self.libs[i] ^ 1 << 31])
            } else {
              self.libs[i]
            };
            (n, Some(l))
          }
        },
      };
      let n = if self.left < 0 { self.r.below(2) } else { self.r.below(5) };
      let types = if self.r.p(self.c.typed) { Some((0..n).map(|_| self.ty()).collect::<Vec<_>>()) } else { None };
      self.o.push(match (types.is_some(), lib.is_some()) {
        (false, false) => 2,
        (false, true) => 3,
        (true, false) => 4,
        (true, true) => 5,
      });
      self.i32(id as i32);
      self.lps(&name);
      self.i32(n as i32);
      for i in 0..n {
        let mut w = self.word();
        if !self.r.p(60) {
          w.push(b'a' + i as u8);
        }
        self.lps(&w);
      }
      if let Some(ts) = &types {
        for t in ts {
          self.ty_code(t);
        }
        for t in ts {
          self.ty_info(t);
        }
      }
      if let Some(l) = lib {
        self.i32(l as i32);
      }
      let d = Def { id, name, n, types, lib };
      self.defs.push(d.clone());
      d
    };
    let mut pend = vec![];
    for i in 0..def.n {
      let room = if self.r.p(self.c.fault_null) { 3 } else { 1 };
      match &def.types {
        Some(ts) => self.typed(&ts[i], room, &mut pend),
        None => self.untyped(room, &mut pend),
      };
    }
    self.flush(pend);
  }
  fn flush(&mut self, mut pend: Vec<u32>) {
    if pend.len() > 1 && self.r.p(self.c.fault_ref) {
      let n = pend.len();
      match self.r.below(2) {
        0 => pend.swap(0, n - 1),
        _ => {
          pend.pop();
        },
      }
    }
    for id in pend {
      self.referenceable(id);
    }
  }
  fn elements(&mut self, n: usize, t: Option<Ty>) {
    let mut pend = vec![];
    let mut k = 0;
    while k < n {
      k += match &t {
        Some(t) => self.typed(t, n - k, &mut pend),
        None => self.untyped(n - k, &mut pend),
      };
    }
    self.flush(pend);
  }
  fn count(&mut self) -> usize {
    if self.left < 0 {
      self.r.below(3)
    } else {
      match self.r.below(12) {
        0 => 0,
        1 => 1,
        2 if self.c.nulls > 0 && self.r.p(4) => self.r.pick(&[65535usize, 65536, 65537, 65600]),
        2 if self.c.nulls > 0 => self.r.pick(&[255usize, 256, 257, 300]),
        _ => self.r.below(7),
      }
    }
  }
  pub fn array(&mut self, id: u32) {
    self.left -= 1;
    self.maybe_lib();
    let saved = self.c.clone();
    match self.r.below(4) {
      0 | 1 => {
        let n = self.count();
        if n > 50 {
          self.c.nulls = 2000;
          self.c.multi = 900;
        }
        let s = self.r.p(300);
        self.o.push(if s { 17 } else { 16 });
        self.i32(id as i32);
        self.i32(n as i32);
        self.elements(n, if s { Some(Ty::Str) } else { None });
      },
      2 => {
        let n = self.count();
        let t = self.r.pick(&PRIMS);
        self.o.push(15);
        self.i32(id as i32);
        self.i32(n as i32);
        self.o.push(t);
        for _ in 0..n {
          self.prim(t);
        }
      },
      _ => {
        let at = self.r.below(6) as u8;
        let rank = match self.r.below(12) {
          0 => 0,
          1..=4 => 1,
          5..=8 => 2,
          9..=10 => 3,
          _ => 4,
        };
        let ls: Vec<usize> = (0..rank).map(|_| self.r.pick(&[0usize, 1, 2, 2, 3, 3, 4])).collect();
        let n: usize = ls.iter().product();
        let t = self.ty();
        self.o.push(7);
        self.i32(id as i32);
        self.o.push(at);
        self.i32(rank as i32);
        for l in &ls {
          let l = if self.r.p(saved.fault_null / 8) { self.r.pick(&[-1i32, i32::MAX, 1 << 30]) } else { *l as i32 };
          self.i32(l);
        }
        if at >= 3 {
          for _ in 0..rank {
            let b = self.r.pick(&[0i32, 1, 5, i32::MAX]);
            self.i32(b);
          }
        }
        self.ty_code(&t);
        self.ty_info(&t);
        self.elements(n, Some(t));
      },
    }
    self.c = saved;
  }
  pub fn referenceable(&mut self, id: u32) {
    let c = &self.c;
    let tot = c.class + c.array + c.string;
    let mut x = self.r.below(tot.max(1) as usize) as u32;
    if self.left < 0 && self.r.p(900) && self.c.string > 0 {
      x = u32::MAX;
    }
    if x < self.c.class {
      return self.class(id, None);
    }
    x -= self.c.class;
    if x < self.c.array {
      return self.array(id);
    }
    self.strrec(id);
  }
  fn coded(&mut self) {
    let t = self.r.pick(&[1u8, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 17, 18, 18, 18]);
    self.o.push(t);
    if t == 18 {
      let w = self.word();
      self.lps(&w);
    } else {
      self.prim(t);
    }
  }
  fn coded_str(&mut self) {
    let t = if self.r.p(self.c.fault_flags) { self.r.pick(&[17u8, 8, 0]) } else { 18 };
    self.o.push(t);
    let w = self.word();
    self.lps(&w);
  }
  fn method(&mut self, root: u32) {
    self.maybe_lib();
    let call = self.r.p(500);
    let mut f: i32 = 0;
    f |= self.r.pick(&[0, 1, 2, 2, 4, 8]);
    f |= self.r.pick(&[0, 0x10, 0x20, 0x40]);
    if self.r.p(300) {
      f |= 0x80;
    }
    if self.r.p(200) {
      f |= 0x100;
    }
    if f & 0x80 == 0 && (!call || self.r.p(200)) {
      f |= self.r.pick(&[0, 0x200, 0x400, 0x800, 0x1000]);
    }
    if self.r.p(200) {
      f |= 0x8000;
    }
    if self.r.p(100) {
      f |= self.r.pick(&[0x4000, 0x10000, i32::MIN, 0x2000]);
    }
    if self.r.p(self.c.fault_flags) {
      f |= 1 << self.r.below(16);
    }
    self.o.push(if call { 21 } else { 22 });
    self.i32(f);
    if call {
      self.coded_str();
      self.coded_str();
    } else if f & 0x800 != 0 {
      self.coded();
    }
    if f & 0x20 != 0 {
      self.coded_str();
    }
    if f & 2 != 0 {
      let n = self.r.below(5);
      self.i32(n as i32);
      for _ in 0..n {
        self.coded();
      }
    }
    let need = f & 0x3 == 0 && f & 0xc != 0;
    if need && !self.r.p(self.c.fault_flags) || self.r.p(100) {
      self.maybe_lib();
      let n = 1 + self.r.below(4);
      let id = if self.r.p(self.c.fault_flags) { self.fresh() } else { root };
      self.used.push(id);
      self.o.push(16);
      self.i32(id as i32);
      if self.r.p(self.c.fault_flags) {
        self.i32(0);
        return;
      }
      self.i32(n as i32);
      let mut pend = vec![];
      let mut k = 0;
      if f & 8 != 0 && !self.r.p(self.c.fault_flags) {
        self.o.push(9);
        let a = self.fresh();
        self.i32(a as i32);
        pend.push(a);
        k = 1;
        let mut arrs = vec![];
        while k < n {
          k += self.untyped(n - k, &mut arrs);
        }
        self.array(a);
        self.flush(arrs);
        return;
      }
      while k < n {
        k += self.untyped(n - k, &mut pend);
      }
      self.flush(pend);
    }
  }
  pub fn message(mut self) -> Vec<u8> {
    let method = self.r.p(self.c.method);
    let root = self.fresh();
    let rootless = !method && self.r.p(50);
    self.o.push(0);
    let mut h = [if rootless { 0 } else { root as i32 }, self.r.pick(&[-1i32, 0, 1, i32::MIN]), 1, 0];
    if self.r.p(self.c.fault_frame) {
      match self.r.below(5) {
        0 => h[0] = -1,
        1 => h[0] = self.next as i32 + 7,
        2 => h[2] = self.r.pick(&[0i32, 2, -1, 256]),
        3 => h[3] = self.r.pick(&[1i32, -1, 256]),
        _ => self.o[0] = self.r.below(23) as u8,
      }
    }
    for v in h {
      self.i32(v);
    }
    let mut root_at = self.r.below(3);
    while self.left > 0 && self.r.p(self.c.standalone) {
      if root_at == 0 && !method && !rootless {
        self.referenceable(root);
      }
      root_at = root_at.wrapping_sub(1);
      let id = self.fresh();
      self.referenceable(id);
      self.avail.push(id);
    }
    if method {
      self.method(root);
    } else if !rootless && root_at < 1000 {
      self.referenceable(root);
    }
    while self.left > 0 && self.r.p(self.c.standalone) {
      let id = self.fresh();
      self.referenceable(id);
      self.avail.push(id);
    }
    if self.r.p(self.c.fault_frame) {
      match self.r.below(4) {
        0 => return self.o,
        1 => self.o.push(11),
        2 => self.new_lib(),
        _ => {
          let b = self.r.below(24) as u8;
          self.o.push(b)
        },
      }
    }
    self.o.push(11);
    if self.r.p(self.c.fault_frame) {
      let b = self.r.pick(&[11u8, 0, 12, 10]);
      self.o.push(b);
    }
    let mut o = self.o;
    if self.r.p(self.c.mutate) {
      mutate(self.r, &mut o);
    }
    o
  }
}

pub fn mutate(r: &mut Rng, o: &mut Vec<u8>) {
  for _ in 0..1 + r.below(3) {
    if o.is_empty() {
      return;
    }
    let i = r.below(o.len());
    match r.below(9) {
      0 => o.truncate(i),
      1 => o[i] ^= 1 << r.below(8),
      2 => o[i] = r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 12, 6, 9, 10, 13, 14]),
      3 => o[i] = r.below(23) as u8,
      4 => {
        let b = r.below(256) as u8;
        o.insert(i, b)
      },
      5 => {
        o.remove(i);
      },
      6 => {
        let j = (i + 1 + r.below(12)).min(o.len());
        let s = o[i..j].to_vec();
        let k = r.below(o.len());
        for (n, b) in s.into_iter().enumerate() {
          o.insert(k + n, b);
        }
      },
      7 => {
        if i + 4 <= o.len() {
          let v: i32 = r.pick(&[0, 1, 2, -1, i32::MAX, i32::MIN, 65536]);
          o[i..i + 4].copy_from_slice(&v.to_le_bytes());
        }
      },
      _ => {
        let j = (i + 1 + r.below(8)).min(o.len());
        o.drain(i..j);
      },
    }
  }
}
