//! Concrete search for failing inputs, run on the real crate in /repo.
//! `search PROP SEED BUDGET_MS CASEFILE` tries generated cases; `replay FILE` judges one recorded case again.
mod gen;
mod refdec;
mod serdecheck;

use gen::{Cfg, Gen, Rng, BASE, PRIMS};
use nrbf::value::DateTimeKind;
use nrbf::{RemotingMessage, Value};
use refdec::{Dec, Msg, UNKNOWN, V};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub enum Verdict {
  /// judged and fine; the flag says whether the message was accepted
  Fine(bool),
  /// the oracle cannot judge this case
  Skip,
  Bad(String),
}
use Verdict::*;

fn digits(s: &str) -> Option<String> {
  let i = s.rfind('(')? + 1;
  let j = i + s[i..].find(')')?;
  Some(s[i..j].to_string())
}

pub fn conv(v: &Value<'_>) -> V {
  match v {
    Value::Object(o) => V::Obj {
      class: o.class.to_string(),
      lib: o.library.map(|l| l.to_string()),
      members: o.members.iter().map(|(k, v)| (k.to_string(), conv(v))).collect(),
    },
    Value::Array(a) => V::Arr(a.iter().map(conv).collect()),
    Value::Boolean(x) => V::Bool(*x),
    Value::Byte(x) => V::U8(*x),
    Value::Char(x) => V::Char(*x),
    Value::Decimal(x) => {
      let d = format!("{:?}", x);
      V::Dec(digits(&d).unwrap_or(d))
    },
    Value::Double(x) => V::F64(x.to_bits()),
    Value::Single(x) => V::F32(x.to_bits()),
    Value::Int16(x) => V::I16(*x),
    Value::Int32(x) => V::I32(*x),
    Value::Int64(x) => V::I64(*x),
    Value::SByte(x) => V::I8(*x),
    Value::TimeSpan(x) => {
      let d = format!("{:?}", x);
      V::Span(digits(&d).and_then(|d| d.parse().ok()).unwrap_or(0x5eed))
    },
    Value::DateTime(x) => {
      let d = format!("{:?}", x);
      V::Date(digits(&d).and_then(|d| d.parse().ok()).unwrap_or(0x5eed))
    },
    Value::UInt16(x) => V::U16(*x),
    Value::UInt32(x) => V::U32(*x),
    Value::UInt64(x) => V::U64(*x),
    Value::String(s) => V::Str(s.to_string()),
    Value::Null => V::Null,
  }
}

fn conv_msg(m: &RemotingMessage<'_>) -> Msg {
  let args = |a: &Option<Vec<Value<'_>>>| a.as_ref().map(|a| a.iter().map(conv).collect());
  match m {
    RemotingMessage::MethodCall(c) => Msg::Call {
      method: c.method_name.to_string(),
      type_name: c.type_name.to_string(),
      ctx: c.call_context.map(|s| s.to_string()),
      args: args(&c.args),
    },
    RemotingMessage::MethodReturn(r) => Msg::Ret {
      value: r.return_value.as_ref().map(conv),
      ctx: r.call_context.map(|s| s.to_string()),
      args: args(&r.args),
    },
    RemotingMessage::Value(v) => Msg::Val(conv(v)),
  }
}

fn show(v: &V, o: &mut String) {
  use std::fmt::Write;
  match v {
    V::Obj { class, lib, members } => {
      write!(o, "obj({class:?},").unwrap();
      match lib {
        Some(l) => write!(o, "{l:?}").unwrap(),
        None => o.push('-'),
      }
      for (k, v) in members {
        write!(o, ",{k:?}=").unwrap();
        show(v, o);
      }
      o.push(')');
    },
    V::Arr(a) => show_list(a, o),
    V::Bool(x) => write!(o, "b{x}").unwrap(),
    V::U8(x) => write!(o, "u8:{x}").unwrap(),
    V::Char(x) => write!(o, "c{:x}", *x as u32).unwrap(),
    V::Dec(_) => o.push_str("dec"),
    V::F64(x) => write!(o, "f64:{x:x}").unwrap(),
    V::F32(x) => write!(o, "f32:{x:x}").unwrap(),
    V::I16(x) => write!(o, "i16:{x}").unwrap(),
    V::I32(x) => write!(o, "i32:{x}").unwrap(),
    V::I64(x) => write!(o, "i64:{x}").unwrap(),
    V::I8(x) => write!(o, "i8:{x}").unwrap(),
    V::Span(x) => write!(o, "span:{x}").unwrap(),
    V::Date(x) => write!(o, "date:{x}").unwrap(),
    V::U16(x) => write!(o, "u16:{x}").unwrap(),
    V::U32(x) => write!(o, "u32:{x}").unwrap(),
    V::U64(x) => write!(o, "u64:{x}").unwrap(),
    V::Str(x) => write!(o, "{x:?}").unwrap(),
    V::Null => o.push_str("null"),
  }
}

fn show_list(a: &[V], o: &mut String) {
  o.push('[');
  for x in a {
    show(x, o);
    o.push(',');
  }
  o.push(']');
}

fn show_msg(m: &Msg) -> String {
  let mut o = String::new();
  let opt = |t: &Option<String>, o: &mut String| match t {
    Some(x) => o.push_str(&format!(";{x:?}")),
    None => o.push_str(";-"),
  };
  let args = |a: &Option<Vec<V>>, o: &mut String| {
    o.push(';');
    match a {
      Some(a) => show_list(a, o),
      None => o.push('-'),
    }
  };
  match m {
    Msg::Call { method, type_name, ctx, args: a } => {
      o.push_str(&format!("call;{method:?};{type_name:?}"));
      opt(ctx, &mut o);
      args(a, &mut o);
    },
    Msg::Ret { value, ctx, args: a } => {
      o.push_str("return;");
      match value {
        Some(v) => show(v, &mut o),
        None => o.push('-'),
      }
      opt(ctx, &mut o);
      args(a, &mut o);
    },
    Msg::Val(v) => {
      o.push_str("value;");
      show(v, &mut o);
    },
  }
  o
}

/// The decimal texts are compared as numbers: trailing zeros and the sign of zero do not matter.
fn norm(v: &mut V) {
  match v {
    V::Dec(s) => {
      let neg = s.starts_with('-');
      let t = s.trim_start_matches('-').to_string();
      let t = if t.contains('.') { t.trim_end_matches('0').trim_end_matches('.').to_string() } else { t };
      *s = if neg && t != "0" { format!("-{t}") } else { t };
    },
    V::Arr(a) => a.iter_mut().for_each(norm),
    V::Obj { members, .. } => members.values_mut().for_each(norm),
    _ => (),
  }
}
fn norm_msg(m: &mut Msg) {
  match m {
    Msg::Call { args, .. } => args.iter_mut().flatten().for_each(norm),
    Msg::Ret { args, value, .. } => {
      args.iter_mut().flatten().for_each(norm);
      value.iter_mut().for_each(norm)
    },
    Msg::Val(v) => norm(v),
  }
}

fn clip(s: String) -> String {
  if s.chars().count() > 600 {
    s.chars().take(600).collect::<String>() + "…"
  } else {
    s
  }
}

extern "C" {
  fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}

/// CPU time of this process, in milliseconds: unlike the time of day it does not run ahead on a busy machine.
fn cpu_ms() -> u64 {
  let mut t = [0i64; 2];
  unsafe { clock_gettime(2, &mut t) };
  t[0] as u64 * 1000 + t[1] as u64 / 1_000_000
}

/// When the call of the crate that is running began, plus one; 0 when none is.
static CALL: AtomicU64 = AtomicU64::new(0);
/// When the case began.
static CASE: AtomicU64 = AtomicU64::new(0);
/// How much CPU time one case may take.
static BUDGET: AtomicU64 = AtomicU64::new(60_000);

/// Whether a case has had its time: a judge with many things left to try stops there.
fn late() -> bool {
  cpu_ms() - CASE.load(Relaxed) > BUDGET.load(Relaxed)
}

/// A call of the crate that takes a minute of CPU time for a message of at most a few megabytes does not terminate.
fn watch() {
  std::thread::spawn(|| loop {
    std::thread::sleep(std::time::Duration::from_millis(500));
    let c = CALL.load(Relaxed);
    if c != 0 && cpu_ms().saturating_sub(c) > 60_000 {
      println!("{{\"mismatch\":\"did not terminate within a minute of CPU time\",\"case\":\"\"}}");
      std::process::exit(3);
    }
  });
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  CALL.store(cpu_ms() + 1, Relaxed);
  let r = catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
  });
  CALL.store(0, Relaxed);
  r
}

fn oracle(b: &[u8]) -> Result<Msg, String> {
  Dec::new(b).message()
}

/// The real parser must accept exactly what the reference decoder accepts, with the same value.
fn judge_parse(b: &[u8]) -> Verdict {
  let want = oracle(b);
  if let Err(e) = &want {
    if e == UNKNOWN {
      return Skip;
    }
  }
  match guarded(|| RemotingMessage::parse(b).map(|m| conv_msg(&m)).map_err(|e| e.to_string())) {
    Err(p) => Bad(format!("panicked: {p}")),
    Ok(got) => match (want, got) {
      (Ok(mut w), Ok(mut g)) => {
        norm_msg(&mut w);
        norm_msg(&mut g);
        if w == g {
          Fine(true)
        } else {
          Bad(clip(format!("expected {w:?}, parsed {g:?}")))
        }
      },
      (Err(_), Err(_)) => Fine(false),
      (Ok(w), Err(e)) => Bad(clip(format!("rejected ({e}), expected {w:?}"))),
      (Err(e), Ok(g)) => Bad(clip(format!("accepted as {g:?}, although: {e}"))),
    },
  }
}

fn accepts(b: &[u8]) -> Result<bool, String> {
  guarded(|| RemotingMessage::parse(b).is_ok())
}

fn judge(prop: &str, b: &[u8]) -> Verdict {
  match prop {
    "C01" => {
      if oracle(b).err().as_deref() == Some(UNKNOWN) {
        return Skip;
      }
      match accepts(b) {
        Ok(a) => Fine(a),
        Err(p) => Bad(format!("panicked: {p}")),
      }
    },
    "C03" => match judge_parse(b) {
      Fine(true) => {
        if let Ok(Ok(RemotingMessage::Value(Value::String(s)))) = guarded(|| RemotingMessage::parse(b)) {
          let r = b.as_ptr_range();
          let p = s.as_ptr();
          if !s.is_empty() && !(r.start <= p && p < r.end) {
            return Bad("string is not borrowed from the input".into());
          }
        }
        Fine(true)
      },
      v => v,
    },
    "C10" => {
      if oracle(b).err().as_deref() == Some(UNKNOWN) {
        return Skip;
      }
      // by either way in
      let accepts = |b: &[u8]| accepts(b).and_then(|a| Ok(a || guarded(|| nrbf::from_slice::<serde::de::IgnoredAny>(b).is_ok())?));
      match accepts(b) {
        Err(p) => Bad(format!("panicked: {p}")),
        Ok(false) => Fine(false),
        Ok(true) => {
          // of a long message, every prefix that ends near an end and some of the others
          let step = 1 + b.len() / 300;
          let at = b.len() % step;
          for n in (0..b.len()).filter(|n| n % step == at || n + 60 > b.len() || *n < 60) {
            if late() {
              break;
            }
            match accepts(&b[..n]) {
              Ok(false) => (),
              Ok(true) => return Bad(format!("the message and its prefix of {n} of {} bytes are both accepted", b.len())),
              Err(p) => return Bad(format!("panicked on the prefix of {n} bytes: {p}")),
            }
          }
          let mut x = b.to_vec();
          let mut r = Rng::new(b.iter().fold(7, |h: u64, &c| h.wrapping_mul(0x100000001b3) ^ u64::from(c)));
          // runs of one byte, up to an alignment and of any length
          let byte = r.below(256) as u8;
          let runs = [1, 2, 3, 4, 5, 8, 16].map(|k| vec![byte; k]);
          let pads = [2, 4, 8, 16, 64, 512].map(|k| [0, b' ', 0xff, 11].map(|c| vec![c; (k - b.len() % k) % k]));
          // what could follow a record: records again, to another end
          let mut again = vec![];
          for _ in 0..1 + r.below(3) {
            match r.below(6) {
              0 => again.push(10),
              1 => again.extend([13, 1 + r.below(3) as u8]),
              2 => again.extend([9, r.below(4) as u8, 0, 0, 0]),
              3 => again.extend([6, 0x77, 0x77, 0x77, 0x77, 1, b'x']),
              4 => again.extend([12, 0x77, 0x77, 0x77, 0x77, 1, b'L']),
              _ => again.push(11),
            }
          }
          let mut again_end = again.clone();
          again_end.push(11);
          let some: Vec<u8> = (0..1 + r.below(12)).map(|_| r.next() as u8).collect();
          let fixed: [&[u8]; 13] = [&[11], &[0], &[10], &[10, 11], b"\n", b" ", b"\r\n", &[0x1a], b"\xef\xbb\xbf", &[6, 0xff, 0xff, 0xff, 0x6f, 0, 11], &[0x41; 9], b, &b[17..]];
          let made: [&[u8]; 3] = [&again, &again_end, &some];
          for e in fixed.into_iter().chain(made).chain(runs.iter().map(|e| &e[..])).chain(pads.iter().flatten().map(|e| &e[..])) {
            if e.is_empty() || late() {
              continue;
            }
            x.truncate(b.len());
            x.extend(e);
            match accepts(&x) {
              Ok(false) => (),
              Ok(true) => return Bad(format!("the message and its extension by {e:?} are both accepted")),
              Err(p) => return Bad(format!("panicked on the extension by {e:?}: {p}")),
            }
          }
          Fine(true)
        },
      }
    },
    "C11" | "C13" | "C15" => serdecheck::judge(prop, b),
    "C12" => {
      let raw = i64::from_le_bytes(b[..8].try_into().unwrap());
      for t in [13u8, 12] {
        let mut m = vec![0, 1, 0, 0, 0, 255, 255, 255, 255, 1, 0, 0, 0, 0, 0, 0, 0];
        m.extend([15, 1, 0, 0, 0, 1, 0, 0, 0, t]);
        m.extend(raw.to_le_bytes());
        m.push(11);
        let r = guarded(|| match RemotingMessage::parse(&m) {
          Ok(RemotingMessage::Value(Value::Array(a))) => match &a[..] {
            [Value::DateTime(d)] => {
              let k = match d.kind() {
                Some(DateTimeKind::Utc) => 1,
                Some(DateTimeKind::Local) => 2,
                None => 0,
              };
              Ok((d.ticks(), k))
            },
            [Value::TimeSpan(s)] => Ok((s.value(), 9)),
            x => Err(format!("{x:?}")),
          },
          x => Err(format!("{x:?}")),
        });
        let u = raw as u64;
        let want = if t == 13 { ((u % (1 << 62)) as i64, [0, 1, 2, 0][(u >> 62) as usize]) } else { (raw, 9) };
        match r {
          Err(p) => return Bad(format!("panicked: {p}")),
          Ok(Err(e)) => return Bad(clip(format!("{raw:#x} of type {t} not decoded: {e}"))),
          Ok(Ok(g)) if g != want => return Bad(format!("{raw:#x} of type {t}: expected {want:?}, got {g:?}")),
          _ => (),
        }
      }
      Fine(true)
    },
    _ => judge_parse(b),
  }
}

fn header(root: i32) -> Vec<u8> {
  let mut o = vec![0];
  for v in [root, -1, 1, 0] {
    o.extend(v.to_le_bytes());
  }
  o
}

fn le(o: &mut Vec<u8>, v: i32) {
  o.extend(v.to_le_bytes());
}

fn text(o: &mut Vec<u8>, s: &[u8]) {
  gen::varint(s.len(), o);
  o.extend(s);
}

/// Bytes of one primitive of type `t`, sometimes invalid.
fn prim_bytes(r: &mut Rng, t: u8, fault: bool) -> Vec<u8> {
  let mut g = Gen::new(r, BASE.clone());
  g.prim(t);
  let mut o = g.o;
  match t {
    5 if r.p(300) => {
      let w = ["0", "1.0", "-0.5", "12345678901234567", "0.00000000000000001", "007", "-1", "922337203685477580"];
      o.clear();
      text(&mut o, r.pick(&w).as_bytes());
    },
    3 if r.p(300) => {
      let c = r.pick(&['\0', '\x7f', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']);
      let mut b = [0; 4];
      o = c.encode_utf8(&mut b).as_bytes().to_vec();
    },
    _ => (),
  }
  if fault {
    match (t, r.below(3)) {
      (1, 0 | 1) => o = vec![r.pick(&[2u8, 3, 0x80, 0xff, r.clone().next() as u8])],
      (3, 0 | 1) => {
        let w: [&[u8]; 10] = [
          &[0x80],
          &[0xc0, 0x80],
          &[0xc1, 0xbf],
          &[0xe0, 0x80, 0x80],
          &[0xed, 0xa0, 0x80],
          &[0xf0, 0x80, 0x80, 0x80],
          &[0xf4, 0x90, 0x80, 0x80],
          &[0xf8, 0x88, 0x80, 0x80, 0x80],
          &[0xff],
          &[0xc3, 0x41],
        ];
        o = r.pick(&w).to_vec();
      },
      (5, 0 | 1) => {
        o.clear();
        let w: [&[u8]; 7] = [b"", b"x", b"1,5", b"1 ", b"NaN", b"0x10", b"\xff"];
        let w = r.pick(&w);
        text(&mut o, w);
      },
      _ => {
        let k = r.below(o.len().max(1));
        o.truncate(k);
      },
    }
  }
  o
}

fn gen_prim(r: &mut Rng) -> Vec<u8> {
  let mut t = r.pick(&PRIMS);
  let fault = r.p(250);
  let mut o = header(1);
  let ctx = r.below(7);
  let k = 1 + r.below(4);
  let at = r.below(k);
  let vals: Vec<Vec<u8>> = (0..k).map(|i| prim_bytes(r, t, fault && i == at)).collect();
  let bad_code = r.p(60);
  let real = t;
  if bad_code {
    t = r.pick(&[0u8, 4, 17, 18, 19, 20, 0x80, 255]);
  }
  let _ = real;
  let tail = vals.concat();
  match ctx {
    0 => {
      o.extend([15, 1, 0, 0, 0]);
      le(&mut o, k as i32);
      o.push(t);
      o.extend(tail);
    },
    1 => {
      o.extend([16, 1, 0, 0, 0]);
      le(&mut o, k as i32);
      for v in vals {
        o.extend([8, t]);
        o.extend(v);
      }
    },
    2 => {
      o.extend([4, 1, 0, 0, 0, 1, b'C']);
      le(&mut o, k as i32);
      for i in 0..k {
        text(&mut o, &[b'a' + i as u8]);
      }
      o.extend(std::iter::repeat(0).take(k));
      o.extend(std::iter::repeat(t).take(k));
      o.extend(tail);
    },
    3 => {
      let off = r.p(300);
      o.extend([7, 1, 0, 0, 0, if off { 3 } else { 0 }, 1, 0, 0, 0]);
      le(&mut o, k as i32);
      if off {
        le(&mut o, 4);
      }
      o.extend([0, t]);
      o.extend(tail);
    },
    4 => {
      o.extend([21, 2, 0, 0, 0, 18, 1, b'm', 18, 1, b't']);
      le(&mut o, k as i32);
      for v in vals {
        o.push(t);
        o.extend(v);
      }
    },
    5 => {
      o.extend([22, 0, 8, 0, 0, t]);
      o.extend(&vals[0]);
    },
    _ => {
      o.extend([2, 1, 0, 0, 0, 1, b'C']);
      le(&mut o, k as i32);
      for i in 0..k {
        text(&mut o, &[b'a' + i as u8]);
      }
      for v in vals {
        o.extend([8, t]);
        o.extend(v);
      }
    },
  }
  if !(fault && r.p(300)) {
    o.push(11);
  }
  o
}

fn string_bytes(r: &mut Rng) -> Vec<u8> {
  let n = match r.below(30) {
    0..=20 => r.below(20),
    21..=23 => r.pick(&[126usize, 127, 128, 129, 255, 256]),
    24..=27 => r.pick(&[16382usize, 16383, 16384, 16385]),
    28 => 2_097_151 + r.below(3) * (r.below(20) == 0) as usize,
    _ => r.below(3000),
  };
  let n = if n > 2_000_000 && r.below(10) > 0 { 40 } else { n };
  let mut s: Vec<u8> = if n > 100 {
    vec![b'x'; n]
  } else {
    let mut s = String::new();
    for _ in 0..n {
      let hi = r.pick(&[0x80u32, 0x80, 0x800, 0x10000, 0x110000]);
      if let Some(c) = char::from_u32(r.below(hi as usize) as u32) {
        s.push(c);
      }
    }
    s.into_bytes()
  };
  if r.p(150) && !s.is_empty() {
    let i = r.below(s.len());
    match r.below(4) {
      0 => s[i] = r.pick(&[0x80u8, 0xc0, 0xc1, 0xf5, 0xff, 0xed]),
      1 => s.truncate(i),
      2 => {
        let w: [&[u8]; 5] = [&[0xed, 0xa0, 0x80], &[0xe0, 0x9f, 0xbf], &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf4, 0x90, 0x80, 0x80], &[0xc0, 0xaf]];
        let w = r.pick(&w);
        s.splice(i..i, w.iter().copied());
      },
      _ => s[i] ^= 0x80,
    }
  }
  let mut n = s.len();
  let mut o = vec![];
  if r.p(100) {
    n = match r.below(4) {
      0 => n + 1 + r.below(4),
      1 => n.saturating_sub(1),
      2 => 0x7fff_ffff,
      _ => n | 1 << (7 * r.below(5)),
    };
  }
  gen::varint(n, &mut o);
  if r.p(200) {
    // padded, up to one byte too long
    while o.len() < 5 && r.p(700) || o.len() == 5 && r.p(150) {
      *o.last_mut().unwrap() |= 0x80;
      o.push(0);
    }
  }
  if o.len() == 5 && r.p(300) {
    o[4] = r.pick(&[0u8, 1, 7, 8, 16, 0x78, 0x80, 0x87, 0xff]);
  }
  o.extend(s);
  o
}

fn gen_string(r: &mut Rng) -> Vec<u8> {
  let s = string_bytes(r);
  let mut o = header(1);
  match r.below(9) {
    0..=2 => {
      o.extend([6, 1, 0, 0, 0]);
      o.extend(s);
    },
    3 => {
      o.extend([2, 1, 0, 0, 0]);
      o.extend(s);
      o.extend([1, 0, 0, 0, 1, b'm', 10]);
    },
    4 => {
      o.extend([2, 1, 0, 0, 0, 1, b'C', 1, 0, 0, 0]);
      o.extend(s);
      o.push(10);
    },
    5 => {
      o.extend([12, 3, 0, 0, 0]);
      o.extend(s);
      o.extend([3, 1, 0, 0, 0, 1, b'C', 0, 0, 0, 0, 3, 0, 0, 0]);
    },
    6 => {
      o.extend([17, 1, 0, 0, 0, 2, 0, 0, 0, 10, 6, 2, 0, 0, 0]);
      o.extend(s);
    },
    7 => {
      o.extend([21, 0x22, 0, 0, 0, 18]);
      let which = r.below(4);
      for i in 0..4 {
        if i == 1 || i == 2 {
          o.push(18);
        }
        if i == 3 {
          o.extend([1, 0, 0, 0, 18]);
        }
        if i == which {
          o.extend(&s);
        } else {
          o.extend([1, b'q']);
        }
      }
    },
    _ => {
      o.extend([4, 1, 0, 0, 0, 1, b'C', 1, 0, 0, 0, 1, b'm', 1, 6, 2, 0, 0, 0]);
      o.extend(s);
    },
  }
  if !r.p(50) {
    o.push(11);
  }
  if r.p(40) {
    let k = r.below(o.len());
    o.truncate(k);
  }
  o
}

fn gen_flags(r: &mut Rng, i: u64) -> Vec<u8> {
  let mut f = if i < 1 << 17 { (i >> 1) as u32 } else { r.next() as u32 & 0xffff };
  if i % 7 == 3 || i >= 1 << 17 {
    f |= r.pick(&[0u32, 1 << 16, 1 << 31, 0xffff_0000, (r.clone().next() as u32) << 16]);
  }
  let call = i & 1 == 0;
  let mut o = header(1);
  o.push(if call { 21 } else { 22 });
  o.extend(f.to_le_bytes());
  if call {
    o.extend([18, 1, b'm', 18, 1, b't']);
  } else if f & 0x800 != 0 {
    o.extend([8, 5, 0, 0, 0]);
  }
  if f & 0x20 != 0 {
    o.extend([18, 1, b'c']);
  }
  if f & 2 != 0 {
    o.extend([2, 0, 0, 0, 17, 18, 1, b's']);
  }
  if f & 12 != 0 {
    o.extend([16, 1, 0, 0, 0, 2, 0, 0, 0, 9, 2, 0, 0, 0, 10, 16, 2, 0, 0, 0, 1, 0, 0, 0, 10]);
  }
  o.push(11);
  o
}

fn gen_wild(r: &mut Rng) -> Vec<u8> {
  match r.below(4) {
    0 => {
      let mut o = if r.p(800) { header(1) } else { vec![] };
      let n = r.below(60);
      for _ in 0..n {
        let b = r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 21, 22, 0x7f, 0x80, 0xff]);
        o.push(if r.p(300) { r.next() as u8 } else { b });
      }
      o
    },
    1 => {
      // array headers with extreme shapes
      let mut o = header(1);
      o.extend([7, 1, 0, 0, 0, r.below(6) as u8]);
      let at = o[o.len() - 1];
      let rank = r.below(6);
      le(&mut o, if r.p(50) { r.pick(&[-1, i32::MAX, i32::MIN]) } else { rank as i32 });
      for _ in 0..rank {
        let l = r.pick(&[0, 0, 1, 2, 3, i32::MAX, i32::MAX, 1 << 30, -1]);
        le(&mut o, l);
      }
      if at >= 3 {
        for _ in 0..rank {
          let l = r.pick(&[0, 1, i32::MAX]);
          le(&mut o, l);
        }
      }
      let t = r.below(8) as u8;
      o.push(t);
      match t {
        0 | 7 => o.push(r.pick(&PRIMS)),
        3 => text(&mut o, b"C"),
        4 => {
          text(&mut o, b"C");
          le(&mut o, 1);
        },
        _ => (),
      }
      for _ in 0..r.below(8) {
        match r.below(4) {
          0 => o.push(10),
          1 => {
            let n = r.below(7) as u8;
            o.extend([13, n])
          },
          2 => {
            o.push(14);
            let n = r.pick(&[0, 1, 2, -1, i32::MIN, i32::MAX, 255]);
            le(&mut o, n);
          },
          _ => o.extend([9, 1, 0, 0, 0]),
        }
      }
      o.push(11);
      o
    },
    _ => {
      let c = Cfg {
        mutate: 700,
        fault_id: 20,
        fault_lib: 20,
        fault_null: 60,
        fault_ref: 40,
        fault_class: 40,
        fault_flags: 60,
        fault_frame: 20,
        ..BASE
      };
      Gen::new(r, c).message()
    },
  }
}

fn gen_case(prop: &str, r: &mut Rng, i: u64) -> Vec<u8> {
  let light = |c: Cfg| Cfg { max: 14, ..c };
  let mut c = match prop {
    "C01" => return gen_wild(r),
    "C02" => return gen_prim(r),
    "C03" => return gen_string(r),
    "C11" | "C13" | "C15" => return serdecheck::gen_case(prop, r, i),
    "C12" => {
      let x = r.next();
      let v = match r.below(4) {
        0 => x,
        1 => 1u64 << r.below(64),
        2 => (1u64 << r.below(64)).wrapping_sub(1),
        _ => (x >> 2) | (r.below(4) as u64) << 62,
      };
      return v.to_le_bytes().to_vec();
    },
    "C14" => return gen_flags(r, i),
    "C04" => Cfg { array: 500, class: 30, refs: 60, nulls: 400, fault_null: 40, multi: 500, method: 50, libs: 30, ..BASE },
    "C05" => Cfg { class: 500, array: 40, refs: 80, typed: 700, reuse: 500, fault_class: 30, fault_null: 10, method: 50, ..BASE },
    "C06" => Cfg { refs: 700, class: 200, array: 200, string: 150, standalone: 600, fault_ref: 30, prims: 100, method: 60, ..BASE },
    "C07" => Cfg { fault_frame: 250, standalone: 500, method: 250, max: 12, ..BASE },
    "C08" => Cfg { method: 1000, fault_flags: 40, ..BASE },
    "C09" => Cfg { fault_id: 60, fault_class: 60, class: 300, reuse: 500, method: 150, ..BASE },
    "C10" => Cfg { max: 15, method: 250, ..BASE },
    "C16" => Cfg { libs: 500, fault_lib: 60, class: 400, typed: 700, array: 60, method: 150, ..BASE },
    _ => panic!("unknown property {prop}"),
  };
  if r.p(500) {
    c = light(c);
  }
  if r.p(400) {
    // faultless, so that most of these are accepted
    for f in [
      &mut c.fault_id,
      &mut c.fault_lib,
      &mut c.fault_null,
      &mut c.fault_ref,
      &mut c.fault_class,
      &mut c.fault_frame,
      &mut c.fault_flags,
    ] {
      *f = 0;
    }
  }
  Gen::new(r, c).message()
}

fn hex(b: &[u8]) -> String {
  b.iter().map(|x| format!("{x:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
  (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn bad(prop: &str, b: &[u8]) -> bool {
  CASE.store(cpu_ms(), Relaxed);
  matches!(judge(prop, b), Bad(_))
}

fn shrink(prop: &str, mut b: Vec<u8>, note: &mut dyn FnMut(&[u8])) -> Vec<u8> {
  if prop == "C12" || b.len() > 5000 {
    return b;
  }
  let keep = if matches!(prop, "C11" | "C13" | "C15") { 3 } else { 0 };
  let mut w = b.len() / 2;
  let t = std::time::Instant::now();
  while w >= 1 && t.elapsed().as_secs() < 20 {
    let mut i = keep;
    while i + w <= b.len() {
      let mut x = b.clone();
      x.drain(i..i + w);
      note(&x);
      if bad(prop, &x) {
        b = x;
      } else {
        i += 1;
      }
    }
    w /= 2;
  }
  b
}

fn esc(s: &str) -> String {
  s.chars()
    .map(|c| match c {
      '"' => "\\\"".into(),
      '\\' => "\\\\".into(),
      c if (c as u32) < 0x20 => format!("\\u{:04x}", c as u32),
      c => c.to_string(),
    })
    .collect()
}

fn search(prop: &str, seed: u64, ms: u64, file: &str) {
  use std::io::{Seek, SeekFrom, Write};
  let t = std::time::Instant::now();
  watch();
  BUDGET.store(5_000, Relaxed);
  let mut f = std::fs::File::create(file).unwrap();
  let mut note = move |b: &[u8]| {
    let _ = f.set_len(0);
    let _ = f.seek(SeekFrom::Start(0));
    let _ = f.write_all(b);
  };
  let (mut n, mut acc, mut skip) = (0u64, 0u64, 0u64);
  let mut seen: HashSet<u64> = HashSet::new();
  let mut samples: Vec<String> = vec![];
  let mut i = 0u64;
  while (t.elapsed().as_millis() as u64) < ms {
    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
    let case = gen_case(prop, &mut r, i);
    i += 1;
    note(&case);
    CASE.store(cpu_ms(), Relaxed);
    match judge(prop, &case) {
      Fine(a) => {
        n += 1;
        acc += a as u64;
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        case.hash(&mut h);
        if seen.len() < 4_000_000 && seen.insert(h.finish()) && samples.len() < 4 && a && case.len() < 200 {
          samples.push(hex(&case));
        }
      },
      Skip => skip += 1,
      Bad(_) => {
        let case = shrink(prop, case, &mut note);
        CASE.store(cpu_ms(), Relaxed);
        let Bad(what) = judge(prop, &case) else { unreachable!() };
        println!(
          "{{\"mismatch\":\"{}\",\"case\":\"{}\",\"index\":{},\"evaluations\":{}}}",
          esc(&what),
          if case.len() < 100_000 { hex(&case) } else { String::new() },
          i - 1,
          n + 1
        );
        note(&case);
        std::process::exit(3);
      },
    }
  }
  println!(
    "{{\"evaluations\":{n},\"accepted\":{acc},\"skipped\":{skip},\"distinct\":{},\"samples\":[{}]}}",
    seen.len(),
    samples.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",")
  );
}

fn run() {
  let a: Vec<String> = std::env::args().collect();
  match a.get(1).map(|s| s.as_str()) {
    Some("search") => search(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
    Some("replay") => {
      // replay PROP HEX|@file
      let b = match a[3].strip_prefix('@') {
        Some(f) => std::fs::read(f).unwrap(),
        None => unhex(&a[3]),
      };
      watch();
      match judge(&a[2], &b) {
        Fine(_) => println!("{{\"fine\":true}}"),
        Skip => println!("{{\"skip\":true}}"),
        Bad(w) => {
          println!("{{\"mismatch\":\"{}\"}}", esc(&w));
          std::process::exit(3)
        },
      }
    },
    // dump PROP SEED N: generated messages and what the crate makes of them, for selftest/exec.py
    Some("dump") => {
      let mut r = Rng::new(a[3].parse().unwrap());
      for i in 0..a[4].parse().unwrap() {
        let b = gen_case(&a[2], &mut r, i);
        if b.len() < 20000 {
          println!("{}\t{}", hex(&b), guarded(|| RemotingMessage::parse(&b).map_or("rejected".into(), |m| show_msg(&conv_msg(&m)))).unwrap_or("panicked".into()));
        }
      }
    },
    // crude resource probes for the known findings
    Some("nest") => {
      let n: usize = a[2].parse().unwrap();
      let mut o = header(1);
      for k in 0..n {
        o.push(2);
        le(&mut o, k as i32 + 1);
        o.extend([1, b'C', 1, 0, 0, 0, 1, b'm']);
      }
      o.extend([10, 11]);
      // the default stack of a main thread
      let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || RemotingMessage::parse(&o).map(std::mem::forget).is_ok());
      println!("{{\"accepted\":{}}}", h.unwrap().join().unwrap());
    },
    Some("nulls") => {
      let mut o = header(1);
      o.extend([16, 1, 0, 0, 0, 255, 255, 255, 127, 14, 255, 255, 255, 127, 11]);
      println!("{{\"accepted\":{}}}", RemotingMessage::parse(&o).map(std::mem::forget).is_ok());
    },
    _ => panic!("usage"),
  }
}

fn main() {
  std::panic::set_hook(Box::new(|_| ()));
  let h = std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap();
  if h.join().is_err() {
    std::process::exit(101)
  }
}
