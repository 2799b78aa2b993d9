#!/usr/bin/env python3
"""Runs the extracted text. What Verus verifies is extracted from /repo by nrbf-extract; here the same text is compiled and run on
generated messages, and what it returns is compared with what the crate itself returns. The models of verus/prelude.rs run as
the std operations they describe, the leaves as their oracles (kani/oracle.rs); nothing else is added. Compares acceptance and the
whole decoded message. Usage: exec.py [EDITS.py] [N [SEED]]:
with EDITS.py, for every edit of a battery (which keep the behaviour), extracted from the edited source."""
import os, re, runpy, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EDITS = sys.argv.pop(1) if len(sys.argv) > 1 and sys.argv[1].endswith(".py") else None
N = sys.argv[1] if len(sys.argv) > 1 else "40000"
SEED = sys.argv[2] if len(sys.argv) > 2 else "1"
T = os.path.join(V, "build", "exec")
os.makedirs(T, exist_ok=True)


def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode:
        sys.exit(f"{' '.join(cmd)}:\n{r.stdout[-3000:]}")
    return r.stdout


def ok(pat, val):
    return f"match {pat} {{ Some((v, n)) => Ok((&input[n..], {val})), None => Err(nom::Err::Failure(from_error_kind_(input))) }}"


LEAF = {
    "Boolean": ok("crate::oracle::boolean(input)", "Boolean(v)"),
    "Byte": ok("crate::oracle::byte(input)", "Byte(v)"),
    "Int8": ok("crate::oracle::int8(input)", "Int8(v)"),
    "Int16": ok("crate::oracle::int16(input)", "Int16(v)"),
    "Int32": ok("crate::oracle::int32(input)", "Int32(v)"),
    "Int64": ok("crate::oracle::int64(input)", "Int64(v)"),
    "UInt16": ok("crate::oracle::uint16(input)", "UInt16(v)"),
    "UInt32": ok("crate::oracle::uint32(input)", "UInt32(v)"),
    "UInt64": ok("crate::oracle::uint64(input)", "UInt64(v)"),
    "Single": ok("crate::oracle::single(input)", "Single(f32::from_bits(v))"),
    "Double": ok("crate::oracle::double(input)", "Double(f64::from_bits(v))"),
    "TimeSpan": ok("crate::oracle::int64(input)", "TimeSpan(v)"),
    "DateTime": ok("crate::oracle::int64(input)", "DateTime(Int64(v))"),
    "Char": ok("crate::oracle::character(input)", "Char(char::from_u32(v).unwrap())"),
    "LengthPrefixedString": "match crate::oracle::string(input) { Some((s, e)) => match core::str::from_utf8(&input[s..e]) {"
                            " Ok(x) => Ok((&input[e..], LengthPrefixedString(x))), Err(_) => Err(nom::Err::Failure(from_error_kind_(input))) },"
                            " None => Err(nom::Err::Failure(from_error_kind_(input))) }",
    # the text is kept; whether it is a decimal is the crate's business (such messages are not compared)
    "Decimal": "{ crate::skip_(); match LengthPrefixedString::parse(input) { Ok((r, _)) => Ok((r, Decimal(rust_decimal::Decimal { d: 0 }))), Err(e) => Err(e) } }",
    "BinaryType": ok("crate::oracle::binary_type(input)", "v"),
    "PrimitiveType": ok("crate::oracle::primitive_type(input)", "v"),
    "BinaryArrayType": ok("crate::oracle::binary_array_type(input)", "v"),
    "RecordType": "if input.len() > 0 && input[0] == crate::oracle::record_code(&self) { Ok((&input[1..], self)) } else { Err(nom::Err::Error(from_error_kind_(input))) }",
    "MessageFlags": ok("crate::oracle::flags(input)", "MessageFlags { b: v }"),
}

MAIN = r'''
verus! {
#[verifier::external]
pub static mut SKIP: bool = false;
#[verifier::external]
pub fn skip_() { unsafe { SKIP = true } }
}
#[verifier::external]
mod run_ {
  use crate::{value::Value, remoting_message::RemotingMessage as M};
  use std::fmt::Write;
  type S = std::string::String;
  fn text(x: &str, o: &mut S) { write!(o, "{:?}", x).unwrap(); }
  fn list(v: &crate::prelude::Vec<Value>, o: &mut S) { o.push('['); for x in v.t.iter() { val(x, o); o.push(','); } o.push(']'); }
  pub fn val(v: &Value, o: &mut S) {
    match v {
      Value::Object(x) => {
        o.push_str("obj("); text(x.class, o); o.push(',');
        match x.library { Some(l) => text(l, o), None => o.push('-') }
        for (_, (k, v)) in x.members.t.iter() { o.push(','); text(k, o); o.push('='); val(v, o); }
        o.push(')');
      },
      Value::Array(x) => list(x, o),
      Value::Boolean(x) => write!(o, "b{x}").unwrap(),
      Value::Byte(x) => write!(o, "u8:{x}").unwrap(),
      Value::Char(x) => write!(o, "c{:x}", *x as u32).unwrap(),
      Value::Decimal(_) => o.push_str("dec"),
      Value::Double(x) => write!(o, "f64:{:x}", x.to_bits()).unwrap(),
      Value::Int16(x) => write!(o, "i16:{x}").unwrap(),
      Value::Int32(x) => write!(o, "i32:{x}").unwrap(),
      Value::Int64(x) => write!(o, "i64:{x}").unwrap(),
      Value::SByte(x) => write!(o, "i8:{x}").unwrap(),
      Value::Single(x) => write!(o, "f32:{:x}", x.to_bits()).unwrap(),
      Value::TimeSpan(x) => write!(o, "span:{}", x.0.0).unwrap(),
      Value::DateTime(x) => write!(o, "date:{}", x.0.0.0).unwrap(),
      Value::UInt16(x) => write!(o, "u16:{x}").unwrap(),
      Value::UInt32(x) => write!(o, "u32:{x}").unwrap(),
      Value::UInt64(x) => write!(o, "u64:{x}").unwrap(),
      Value::String(x) => text(x, o),
      Value::Null => o.push_str("null"),
    }
  }
  fn opt(t: Option<&str>, o: &mut S) { o.push(';'); match t { Some(x) => text(x, o), None => o.push('-') } }
  fn args(t: &Option<crate::prelude::Vec<Value>>, o: &mut S) { o.push(';'); match t { Some(x) => list(x, o), None => o.push('-') } }
  /// Clones share what they hold (`core::ptr::read`), so nothing is freed.
  struct Keep;
  unsafe impl std::alloc::GlobalAlloc for Keep {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { unsafe { std::alloc::System.alloc(l) } }
    unsafe fn dealloc(&self, _: *mut u8, _: std::alloc::Layout) {}
  }
  #[global_allocator]
  static KEEP: Keep = Keep;
  pub fn main() {
    for l in std::io::stdin().lines() {
      let l = l.unwrap();
      let b: std::vec::Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
      unsafe { crate::SKIP = false; }
      let b: &'static [u8] = b.leak();
      let r = M::parse(b);
      let mut o = S::new();
      match &r {
        Err(_) => o.push_str("rejected"),
        Ok(M::MethodCall(c)) => { o.push_str("call"); opt(Some(c.method_name), &mut o); opt(Some(c.type_name), &mut o); opt(c.call_context, &mut o); args(&c.args, &mut o); },
        Ok(M::MethodReturn(c)) => {
          o.push_str("return;");
          match &c.return_value { Some(v) => val(v, &mut o), None => o.push('-') }
          opt(c.call_context, &mut o); args(&c.args, &mut o);
        },
        Ok(M::Value(v)) => { o.push_str("value;"); val(v, &mut o); },
      }
      println!("{}", if unsafe { crate::SKIP } { "skipped" } else { &o });
    }
  }
}
fn main() { run_::main() }
'''


def build(src_dir, t_dir):
    """extracts, gives the models and leaves their bodies, compiles; or the reason why not"""
    x = subprocess.run([os.path.join(V, "build", "extract", "debug", "nrbf-extract"), src_dir, os.path.join(T, "contracts"),
                        os.path.join(V, "verus", "prelude.rs"), os.path.join(T, "spec.rs"), os.path.join(t_dir, "x.rs"), os.path.join(t_dir, "x.json")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, NRBF_PARSER="1"))
    if x.returncode:
        return "not extracted: " + x.stdout[-200:]
    out, impl, fn, left = [], None, None, []
    lines = open(os.path.join(t_dir, "x.rs")).read().split("\n")
    cut = next(i for i, l in enumerate(lines) if l.startswith("pub mod spec {"))
    for i, l in enumerate(lines):
        m = re.match(r"\s*impl(?:<.*?>)?\s+(?:\w+<.*?>+ for )?([\w:]+)", l)
        if m:
            impl = m.group(1)
        m = re.findall(r"\bfn (\w+)", l)
        if m:
            fn = m[-1]
        if "{ unimplemented!() }" in l:
            if fn == "clone_x":
                b = "unsafe { core::ptr::read(self) }"
            elif fn == "from_error_kind_":
                b = "crate::error::Error { input: i, inner: crate::error::ErrorInner::Other }"
            elif fn == "parse" and impl in LEAF:
                b = LEAF[impl]
            elif fn == "parse_exact" and impl == "PrimitiveType":
                b = "match crate::oracle::primitive_type(input) { Some((v, n)) if v as u8 == self as u8 => Ok((&input[n..], v)), _ => Err(nom::Err::Error(crate::prelude::nom::error::Error { input, code: 0 })) }"
            elif fn == "from_" and "DateTime" in l:
                b = "a.0.0"
            elif fn == "from_":
                b = "a.0"
            elif fn == "try_from_":
                b = "if a.0 >= 0 { Ok(a.0 as usize) } else { Err(TryFromIntError {}) }"
            else:
                left.append(f"{impl}::{fn}")
                b = "unimplemented!()"
            l = l.replace("{ unimplemented!() }", "{ " + b + " }")
        out.append(l)
    if left:
        return "not extracted: " + ", ".join(sorted(set(left)))
    t = "\n".join(out)
    # the collections are read by the printer
    t = re.sub(r"(pub struct (?:Vec|HashMap)<[^{]*\{ )t:", r"\1pub t:", t)
    t = t.replace("pub struct Decimal { d: u8 }", "pub struct Decimal { pub d: u8 }")
    t = re.sub(r"\nfn main\(\) \{\}\n", "\n", t) + MAIN
    src = os.path.join(t_dir, "run.rs")
    open(src, "w").write(t)
    c = subprocess.run(["verus", "--no-verify", "--compile", src, "-o", os.path.join(t_dir, "run")], cwd=t_dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if c.returncode == 0 else "not compiled: " + next((l for l in c.stdout.split("\n") if l.startswith("error")), "")[:200]


def dumps():
    sh(["cargo", "build", "-q", "--offline", "--release", "--target-dir", os.path.join(V, "build", "harness")], cwd=os.path.join(V, "harness"))
    exe = os.path.join(V, "build", "harness", "release", "nrbf-replay")
    return [sh([exe, "dump", p, SEED, N]).splitlines() for p in ("C02", "C04", "C05", "C06", "C07", "C08", "C09", "C15", "C16")]


def compare(t_dir, dump):
    bad = total = acc = skipped = 0
    for dump in dump:
        r = subprocess.run([os.path.join(t_dir, "run")], input="\n".join(d.split("\t")[0] for d in dump) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        got = r.stdout.splitlines()
        if len(got) != len(dump):
            bad += 1
            print(f"stopped at {dump[len(got)][:1000]}: {r.stderr[:300]}")
        for d, g in zip(dump, got):
            h, w = d.split("\t", 1)
            total += 1
            if g == "skipped":
                skipped += 1
            elif g != w:
                bad += 1
                if bad < 5:
                    print(f"{h[:1000]}\n  crate     {w[:300]}\n  extracted {g[:300]}")
            else:
                acc += w != "rejected"
    return bad, f"{total} messages: {acc} accepted by both with the same value, {skipped} with a decimal not compared, {bad} differ"


def main():
    sh(["cargo", "build", "-q", "--offline", "--target-dir", os.path.join(V, "build", "extract")], cwd=os.path.join(V, "extract"))
    with open(os.path.join(T, "spec.rs"), "w") as f:
        for x in ("spec.rs", "lemmas.rs"):
            f.write(open(os.path.join(V, "verus", x)).read())
        f.write(sh(["python3", os.path.join(V, "tools", "oracle.py"), os.path.join(V, "kani", "oracle.rs")]))
    # the contracts stay, what is attached to places of the text does not
    os.makedirs(os.path.join(T, "contracts"), exist_ok=True)
    for n in os.listdir(os.path.join(V, "verus", "contracts")):
        t, keep = [], True
        for l in open(os.path.join(V, "verus", "contracts", n)):
            if l.startswith(("===", "---")):
                keep = l.startswith("===")
            if keep:
                t.append(l)
        open(os.path.join(T, "contracts", n), "w").writelines(t)
    d = dumps()
    if not EDITS:
        why = build("/repo/src", T)
        if why:
            sys.exit(why)
        bad, text = compare(T, d)
        print(text)
        sys.exit(1 if bad else 0)

    def one(e):
        name, edits = e
        t = tempfile.mkdtemp(prefix="exec-")
        try:
            shutil.copytree("/repo/src", t + "/src")
            for f, old, new in edits:
                p = f"{t}/src/{f}"
                x = open(p).read()
                if old not in x:
                    return f"{name}: EDIT DOES NOT APPLY"
                open(p, "w").write(x.replace(old, new))
            why = build(t + "/src", t)
            return f"{name}: {why or compare(t, d)[1]}"
        finally:
            shutil.rmtree(t, ignore_errors=True)
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for r in ex.map(one, [e for e in runpy.run_path(EDITS)["E"]]):
            print(r, flush=True)


main()
