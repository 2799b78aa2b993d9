//! nrbf-extract SRC CONTRACTS_DIR SPEC_FILES... OUT MAP
//!
//! Extracts the functions under contract from SRC (the crate's src directory), expands the nom combinators,
//! closures, iterator chains and crate-local macros in them into plain control flow, attaches the contracts and
//! writes one Verus file.  See DESIGN.md for the list of rules and of what is dropped.
mod desugar;
mod pre;
mod source;

use std::collections::BTreeMap;
use std::path::Path;
use std::fmt::Write as _;

use quote::ToTokens;
use source::{Crate, FnDef, serde_mode};

#[derive(Default, Clone, Debug)]
pub struct Contract {
  pub leaf: bool,
  pub text: String,
  /// snippets by marker, e.g. "entry", "inv 0"
  pub parts: BTreeMap<String, String>,
}

fn read_contracts(dir: &str) -> BTreeMap<String, Contract> {
  let mut out = BTreeMap::new();
  let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
  files.sort();
  for f in files {
    let text = std::fs::read_to_string(&f).unwrap();
    let mut key: Option<String> = None;
    let mut cur = Contract::default();
    let mut part: Option<String> = None;
    for line in text.lines() {
      if let Some(h) = line.strip_prefix("=== ") {
        add(&mut out, &mut key, &mut cur);
        let (kind, name) = h.trim().split_once(' ').unwrap();
        cur = Contract { leaf: kind == "leaf", ..Default::default() };
        key = Some(name.trim().to_string());
        part = None;
      } else if let Some(p) = line.strip_prefix("--- ") {
        part = Some(p.trim().to_string());
      } else if key.is_some() && !line.starts_with("# ") {
        let t = match &part {
          None => &mut cur.text,
          Some(p) => cur.parts.entry(p.clone()).or_default(),
        };
        t.push_str(line);
        t.push('\n');
      }
    }
    add(&mut out, &mut key, &mut cur);
  }
  out
}

/// `a::{b,c}` stands for a::b and a::c
fn add(out: &mut BTreeMap<String, Contract>, key: &mut Option<String>, cur: &mut Contract) {
  let Some(k) = key.take() else { return };
  let cur = std::mem::take(cur);
  let keys: Vec<String> = match (k.find('{'), k.find('}')) {
    (Some(i), Some(j)) => k[i + 1..j].split(',').map(|x| format!("{}{}{}", &k[..i], x.trim(), &k[j + 1..])).collect(),
    _ => vec![k],
  };
  for k in keys {
    assert!(out.insert(k.clone(), cur.clone()).is_none(), "duplicate contract {k}");
  }
}

/// One function ready to be printed.
struct Emitted {
  key: String,
  module: Vec<String>,
  header: String,
  signature: String,
  contract: Contract,
  body: Option<syn::Block>,
  params: Vec<String>,
  loops: Vec<desugar::LoopInfo>,
  is_trait: bool,
}

fn substitute(text: &str, params: &[String], lp: Option<&desugar::LoopInfo>) -> String {
  let mut t = text.to_string();
  for (i, p) in params.iter().enumerate().rev() {
    t = t.replace(&format!("${}", i + 1), p);
  }
  if let Some(l) = lp {
    t = t.replace("$acc", &l.acc).replace("$asg", &l.asg);
  }
  t
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let (src, contracts_dir, prelude, spec, out, map) = (&a[1], &a[2], &a[3], &a[4], &a[5], &a[6]);
  // functions whose bodies are left out: their contracts are assumed
  let skip: Vec<String> = a.get(7).map(|s| s.split(',').map(str::to_string).collect()).unwrap_or_default();
  let krate = Crate::load(src);
  let mut contracts = read_contracts(contracts_dir);
  let mut problems: Vec<(String, String)> = vec![];
  // A contract speaks about the parameters and result that the function had when it was written.  Where they have become
  // others the function is one without a contract, whose body stands in for the calls to it.
  let sigs_path = Path::new(contracts_dir).parent().unwrap().join("signatures.txt");
  if std::env::var("NRBF_WRITE_SIGNATURES").is_ok() {
    let t: String = contracts.keys().filter_map(|k| krate.fns.get(k).map(|f| format!("{k}\t{}\n", shape_of(f)))).collect();
    std::fs::write(&sigs_path, t).unwrap();
  }
  for l in std::fs::read_to_string(&sigs_path).unwrap_or_default().lines() {
    let (k, s) = l.split_once('\t').unwrap();
    if let (Some(f), Some(c)) = (krate.fns.get(k), contracts.get(k)) {
      let now = shape_of(f);
      if now != s && !c.leaf && f.trait_.is_none() {
        problems.push((k.to_string(), format!("unsupported: its signature is {now}, the contract was written for {s}")));
        contracts.remove(k);
      }
    }
  }
  // contracts that are to be left out: the bodies of these functions stand in for the calls to them
  for k in std::env::var("NRBF_DROP").unwrap_or_default().split(',').filter(|k| !k.is_empty()) {
    if krate.fns.get(k).is_some_and(|f| f.trait_.is_none()) && contracts.remove(k).is_some() {
      problems.push((k.to_string(), "dropped".into()));
    }
  }
  let mut emitted: Vec<Emitted> = vec![];
  let opaque = opaque(&std::fs::read_to_string(spec).unwrap());

  for (key, c) in &contracts {
    let Some(f) = krate.fns.get(key) else {
      problems.push((key.clone(), "no such function in the source".into()));
      continue;
    };
    let f = &immutable_self(f);
    let mut body = None;
    let mut loops = vec![];
    if !c.leaf && !skip.contains(key) {
      match desugar::function(&krate, &contracts, f) {
        Ok((b, l)) => {
          body = Some(b);
          loops = l;
        },
        Err(e) => {
          problems.push((key.clone(), format!("unsupported: {e}")));
        },
      }
    }
    let (header, signature, params) = signature(f);
    let mut c = c.clone();
    if body.is_none() {
      c.leaf = true;
    }
    if !c.leaf {
      // the specification functions that the contract names may be unfolded
      let mut all = c.text.clone();
      c.parts.values().for_each(|p| all.push_str(p));
      let words: std::collections::BTreeSet<&str> =
        all.split(|x: char| !(x.is_alphanumeric() || x == '_')).filter(|w| opaque.contains(*w)).collect();
      c.parts.remove("reveal");
      if !words.is_empty() {
        let t: String = words.iter().map(|w| format!("reveal(crate::spec::{w}); ")).collect();
        let old = c.parts.remove("entry").unwrap_or_default();
        c.parts.insert("entry".into(), format!("  proof {{ {t}}}\n{old}"));
      }
    }
    emitted.push(Emitted { key: key.clone(), module: f.module.clone(), header, signature, contract: c, body, params, loops, is_trait: f.trait_.is_some() });
  }

  // format the bodies with rustfmt, in one file of free functions
  let mut tmp = String::new();
  for (i, e) in emitted.iter().enumerate() {
    if let Some(b) = &e.body {
      let _ = writeln!(tmp, "fn __body_{i}() {}", b.to_token_stream());
    }
  }
  let formatted = rustfmt(&tmp);
  let mut bodies: BTreeMap<usize, String> = BTreeMap::new();
  {
    let mut cur: Option<(usize, String)> = None;
    for line in formatted.lines() {
      if let Some(r) = line.strip_prefix("fn __body_") {
        if let Some((i, t)) = cur.take() {
          bodies.insert(i, t);
        }
        let n: usize = r.split('(').next().unwrap().parse().unwrap();
        let after = line.split_once("()").unwrap().1.trim_start();
        cur = Some((n, after.to_string() + "\n"));
      } else if let Some((_, t)) = &mut cur {
        t.push_str(line);
        t.push('\n');
      }
    }
    if let Some((i, t)) = cur.take() {
      bodies.insert(i, t);
    }
  }

  // A loop's invariant speaks about the variables that the loop changed when it was written.
  let loops_path = Path::new(contracts_dir).parent().unwrap().join("loops.txt");
  let loops_now: BTreeMap<String, String> =
    emitted.iter().filter(|e| !e.loops.is_empty()).map(|e| (e.key.clone(), e.loops.iter().map(|l| l.state.as_str()).collect::<Vec<_>>().join("; "))).collect();
  if std::env::var("NRBF_WRITE_SIGNATURES").is_ok() {
    std::fs::write(&loops_path, loops_now.iter().map(|(k, v)| format!("{k}\t{v}\n")).collect::<String>()).unwrap();
  }
  let loops_then = std::fs::read_to_string(&loops_path).unwrap_or_default();
  let reshaped: Vec<String> = loops_then
    .lines()
    .filter_map(|l| l.split_once('\t'))
    .filter(|(k, v)| emitted.iter().any(|e| e.key == *k && e.body.is_some()) && more_state(v, loops_now.get(*k).map(String::as_str).unwrap_or("")))
    .map(|(k, _)| format!("\"{k}\""))
    .collect();

  let mut texts: Vec<String> = vec![];
  for (i, e) in emitted.iter().enumerate() {
    let mut t = String::new();
    let c = &e.contract;
    if let (Some(a), true) = (e.contract.parts.get("impl"), e.is_trait) {
      t.push_str(a);
    }
    if c.leaf {
      t.push_str("#[verifier::external_body]\n");
    } else {
      if !e.loops.is_empty() && !e.contract.parts.get("attr").is_some_and(|a| a.contains("loop_isolation")) {
        t.push_str("#[verifier::loop_isolation(false)]\n");
      }
      if let Some(a) = e.contract.parts.get("attr") {
        t.push_str(a);
      }
    }
    let _ = writeln!(t, "{}{}", if e.is_trait { "" } else { "pub " }, e.signature);
    t.push_str(&substitute(&c.text, &e.params, None));
    if c.leaf {
      t.push_str("{ unimplemented!() }\n");
    } else {
      let b = bodies.get(&i).cloned().unwrap_or_else(|| "{ }".into());
      t.push_str(&stitch(&b, e, &mut problems));
    }
    texts.push(t);
  }

  // assemble: one module tree, mirroring the crate
  let mut o = String::new();
  o.push_str("#![allow(unused, non_snake_case, unused_parens, unused_braces, unused_mut)]\nuse vstd::prelude::*;\nverus! {\n");
  o.push_str(&std::fs::read_to_string(prelude).unwrap());
  let mut ranges: Vec<(String, usize, usize, bool)> = vec![];
  emit_module(&krate, &krate.root, &mut o, &emitted, &texts, &mut ranges);
  let spec_text = std::fs::read_to_string(spec).unwrap();
  o.push_str(&spec_text);
  o.push_str(&unfoldings(&spec_text));
  o.push_str("\nfn main() {}\n} // verus!\n");
  std::fs::write(out, &o).unwrap();

  let mut j = String::from("{\n \"functions\": [\n");
  for (n, (k, s, e, leaf)) in ranges.iter().enumerate() {
    let _ = writeln!(
      j,
      "  {{\"key\": \"{k}\", \"from\": {s}, \"to\": {e}, \"leaf\": {leaf}}}{}",
      if n + 1 < ranges.len() { "," } else { "" }
    );
  }
  j.push_str(" ],\n \"problems\": [\n");
  for (n, (k, p)) in problems.iter().enumerate() {
    let _ = writeln!(
      j,
      "  {{\"key\": \"{k}\", \"what\": \"{}\"}}{}",
      p.replace('\\', "\\\\").replace('"', "'").replace('\n', " "),
      if n + 1 < problems.len() { "," } else { "" }
    );
  }
  j.push_str(" ],\n \"inlined\": [");
  j.push_str(&desugar::inlined().iter().map(|k| format!("\"{k}\"")).collect::<Vec<_>>().join(", "));
  let _ = write!(j, "],\n \"reshaped\": [{}]\n}}\n", reshaped.join(", "));
  std::fs::write(map, j).unwrap();
  for (k, p) in &problems {
    eprintln!("problem: {k}: {p}");
  }
}

/// whether there are other loops, or a loop changes other variables as well
fn more_state(then: &str, now: &str) -> bool {
  let (a, b): (Vec<&str>, Vec<&str>) = (then.split("; ").collect(), now.split("; ").collect());
  a.len() != b.len() || a.iter().zip(&b).any(|(a, b)| b.split_whitespace().any(|x| !a.split_whitespace().any(|y| x == y)))
}

/// `mut` parameters become immutable ones and mutable variables
fn immutable_self(f: &FnDef) -> FnDef {
  let mut f = f.clone();
  if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
    if r.reference.is_none() && r.mutability.is_some() {
      r.mutability = None;
      struct V;
      impl syn::visit_mut::VisitMut for V {
        fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
          if i == "self" {
            *i = syn::Ident::new("__self", i.span());
          }
        }
        fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
          fn go(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
            t.into_iter()
              .map(|t| match t {
                proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(syn::Ident::new("__self", i.span())),
                proc_macro2::TokenTree::Group(g) => {
                  proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream())))
                },
                t => t,
              })
              .collect()
          }
          m.tokens = go(std::mem::take(&mut m.tokens));
        }
      }
      syn::visit_mut::VisitMut::visit_block_mut(&mut V, &mut f.block);
      f.block.stmts.insert(0, syn::parse_quote!(let mut __self = self;));
    }
  }
  // `mut x: T` becomes `__arg_x: T` and a mutable variable, so that contracts can name the argument
  let mut lets: Vec<syn::Stmt> = vec![];
  for a in f.sig.inputs.iter_mut() {
    if let syn::FnArg::Typed(t) = a {
      if let syn::Pat::Ident(i) = &mut *t.pat {
        if i.mutability.is_some() && i.by_ref.is_none() && i.subpat.is_none() {
          let x = i.ident.clone();
          let y = quote::format_ident!("__arg_{}", x);
          lets.push(syn::parse_quote!(let mut #x = #y;));
          i.mutability = None;
          i.ident = y;
        }
      }
    }
  }
  for (n, l) in lets.into_iter().enumerate() {
    f.block.stmts.insert(n, l);
  }
  f
}

/// Lemmas d_f that say that f is what it is defined to be, for the mutually recursive specification functions, which
/// can not be unfolded one at a time otherwise.
fn unfoldings(spec: &str) -> String {
  let mut o = String::from(
    "pub mod unf {\nuse crate::prelude::*; use crate::prelude::nom; use crate::spec::*; use crate::enumeration::{BinaryType, PrimitiveType, BinaryArrayType};\n",
  );
  let mut names = vec![];
  let mut lemmas = vec![];
  let lines: Vec<&str> = spec.lines().collect();
  for (i, l) in lines.iter().enumerate() {
    let Some(r) = l.strip_prefix("pub open spec fn sp_") else { continue };
    let Some((sig, _)) = r.split_once(" decreases ") else { continue };
    let (name, rest) = sig.split_once('(').unwrap();
    let params = &rest[..rest.find(") -> ").unwrap()];
    let args: Vec<&str> = params.split(": ").flat_map(|p| p.rsplit(", ").next()).collect();
    let args = &args[..args.len() - 1];
    let mut body = String::new();
    for b in &lines[i + 1..] {
      if *b == "}" {
        break;
      }
      body.push_str(b);
      body.push('\n');
    }
    names.push(format!("sp_{name}"));
    lemmas.push(format!("pub proof fn d_sp_{name}({params}) ensures sp_{name}({}) == ({{\n{body}}})", args.join(", ")));
  }
  let reveal: String = names.iter().map(|n| format!("reveal({n}); ")).collect();
  for l in lemmas {
    let _ = writeln!(o, "{l} {{ {reveal}}}");
  }
  o.push_str("}\n");
  o
}

/// names of the specification functions that are opaque
fn opaque(spec: &str) -> std::collections::BTreeSet<String> {
  let mut out = std::collections::BTreeSet::new();
  let mut on = false;
  for l in spec.lines() {
    if l.contains("#[verifier::opaque]") {
      on = true;
    } else if on && l.contains("spec fn sp_") && l.contains(" decreases ") {
      // d_f instead
      on = false;
    } else if let (true, Some(i)) = (on, l.find("spec fn ")) {
      out.insert(l[i + 8..].split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap().to_string());
      on = false;
    }
  }
  out
}

fn rustfmt(text: &str) -> String {
  use std::io::Write;
  let mut p = std::process::Command::new("rustfmt")
    .args(["--edition", "2021", "--emit", "stdout", "--quiet", "--config", "max_width=140,tab_spaces=2"])
    .stdin(std::process::Stdio::piped())
    .stdout(std::process::Stdio::piped())
    .spawn()
    .unwrap();
  p.stdin.take().unwrap().write_all(text.as_bytes()).unwrap();
  let o = p.wait_with_output().unwrap();
  assert!(o.status.success(), "rustfmt failed");
  String::from_utf8(o.stdout).unwrap()
}

/// Puts the contract's snippets at the markers of the body.
fn stitch(body: &str, e: &Emitted, problems: &mut Vec<(String, String)>) -> String {
  let mut used = std::collections::BTreeSet::new();
  used.insert("attr".to_string());
  used.insert("impl".to_string());
  let mut out: Vec<String> = vec![];
  let mut first = true;
  for line in body.lines() {
    let t = line.trim();
    if let Some(r) = t.strip_prefix("__m!(") {
      let r = r.trim_end_matches(");");
      let (what, n) = r.split_once(',').unwrap();
      let (what, n) = (what.trim(), n.trim());
      let name = format!("{what} {n}");
      let lp = e.loops.get(n.parse::<usize>().unwrap());
      if let Some(s) = e.contract.parts.get(&name) {
        used.insert(name.clone());
        let s = substitute(s, &e.params, lp);
        if what == "inv" {
          // the invariant goes between the condition and the body
          let last = out.last_mut().unwrap();
          assert!(last.trim_end().ends_with('{'), "unexpected loop layout: {last}");
          let l = last.trim_end().trim_end_matches('{').to_string();
          *last = format!("{l}\n{s}{{");
        } else {
          out.push(s);
        }
      } else if what == "inv" {
        problems.push((e.key.clone(), format!("loop {n} has no contract")));
      }
      continue;
    }
    out.push(line.to_string());
    if first {
      first = false;
      if let Some(s) = e.contract.parts.get("entry") {
        used.insert("entry".into());
        assert!(line.trim_end().ends_with('{') || line.trim() == "{");
        out.push(substitute(s, &e.params, None));
      }
    }
  }
  for k in e.contract.parts.keys() {
    if !used.contains(k) {
      problems.push((e.key.clone(), format!("lost anchor: {k}")));
    }
  }
  out.join("\n") + "\n"
}

/// the types of the parameters and of the result, without lifetimes and paths
fn shape_of(f: &FnDef) -> String {
  let ty = |t: String| -> String {
    let mut words: Vec<&str> = vec![];
    for w in t.split_whitespace() {
      if w.starts_with('\'') {
        continue;
      }
      if w == "::" {
        words.pop();
        continue;
      }
      words.push(if w == "Self" { f.type_name.as_deref().unwrap_or(w) } else { w });
    }
    words.concat().replace("<,", "<").replace("<>", "").replace(",>", ">")
  };
  let mut ps = vec![];
  for p in &f.sig.inputs {
    ps.push(match p {
      syn::FnArg::Receiver(r) => format!("{}{}self", if r.reference.is_some() { "&" } else { "" }, if r.reference.is_some() && r.mutability.is_some() { "mut " } else { "" }),
      syn::FnArg::Typed(t) => ty(t.ty.to_token_stream().to_string()),
    });
  }
  let ret = match &f.sig.output {
    syn::ReturnType::Default => "()".into(),
    syn::ReturnType::Type(_, t) => ty(t.to_token_stream().to_string()),
  };
  format!("({}) -> {ret}", ps.join(", "))
}

fn signature(f: &FnDef) -> (String, String, Vec<String>) {
  let header = match &f.self_ty {
    Some(ty) => {
      let g = &f.generics;
      let tr = f.trait_.as_ref().map(|t| format!("{} for ", t.to_token_stream())).unwrap_or_default();
      let w = if serde_mode() { g.where_clause.to_token_stream().to_string() } else { String::new() };
      format!("impl{} {tr}{} {w}", g.to_token_stream(), ty.to_token_stream())
    },
    None => String::new(),
  };
  let sig = &f.sig;
  let mut params = vec![];
  let mut names = vec![];
  for (i, p) in sig.inputs.iter().enumerate() {
    match p {
      syn::FnArg::Receiver(r) => params.push(r.to_token_stream().to_string()),
      syn::FnArg::Typed(t) => {
        let name = match &*t.pat {
          syn::Pat::Ident(i) => i.ident.to_string(),
          _ => format!("__p{i}"),
        };
        let is_mut = matches!(&*t.pat, syn::Pat::Ident(i) if i.mutability.is_some());
        params.push(format!("{}{}: {}", if is_mut { "mut " } else { "" }, name, t.ty.to_token_stream()));
        names.push(name);
      },
    }
  }
  let ret = match &sig.output {
    syn::ReturnType::Default => "()".to_string(),
    syn::ReturnType::Type(_, t) => t.to_token_stream().to_string(),
  };
  let g = sig.generics.to_token_stream().to_string();
  let w = if serde_mode() { sig.generics.where_clause.to_token_stream().to_string() } else { String::new() };
  let mut text = format!("fn {}{}({}) -> (r: {}) {w}", sig.ident, g, params.join(", "), ret);
  if serde_mode() {
    for (n, t) in &f.assoc {
      text = text.replace(&format!("Self :: {n}"), t);
    }
    text = text.replace("Self :: Error", "crate :: prelude :: serde :: de :: value :: Error");
  }
  (header, text, names)
}

fn line_of(o: &str) -> usize {
  o.bytes().filter(|b| *b == b'\n').count() + 1
}

fn emit_module(
  krate: &Crate,
  m: &source::Module,
  o: &mut String,
  emitted: &[Emitted],
  texts: &[String],
  ranges: &mut Vec<(String, usize, usize, bool)>,
) {
  if !m.path.is_empty() {
    let _ = writeln!(o, "pub mod {} {{\nuse crate::prelude::*; use crate::spec::*; use crate::dvs::*;{}", m.path.last().unwrap(), if serde_mode() { " use crate::sd::*; use crate::prelude::serde::de::SeqAccess as SeqAccess_;" } else { "" });
    o.push_str(krate.broadcasts(&m.path));
  } else {
    o.push_str("use crate::prelude::*; use crate::spec::*; use crate::dvs::*;\n");
    if serde_mode() {
      o.push_str("use crate::sd::*; use crate::prelude::serde::de::SeqAccess as SeqAccess_;\n");
    }
  }
  let dropped = |n: &str| {
    krate.free.contains(n) && !emitted.iter().any(|e| e.header.is_empty() && e.key.ends_with(&format!("::{n}")))
  };
  for u in &m.uses {
    if let Some(u) = Crate::without(u, &dropped) {
      let local = match &u {
        syn::UseTree::Path(p) => m.children.iter().any(|c| c.path.last() == Some(&p.ident.to_string())),
        _ => false,
      };
      let _ = writeln!(o, "pub use {}{};", if local { "self::" } else { "" }, u.to_token_stream());
    }
  }
  for t in &m.types {
    let _ = writeln!(o, "{t}");
  }
  for (e, t) in emitted.iter().zip(texts) {
    if e.module != m.path {
      continue;
    }
    if !e.header.is_empty() {
      let _ = writeln!(o, "{} {{", e.header);
    }
    let s = line_of(o);
    o.push_str(t);
    let end = line_of(o);
    ranges.push((e.key.clone(), s, end, e.contract.leaf));
    if !e.header.is_empty() {
      o.push_str("}\n");
    }
  }
  for c in &m.children {
    emit_module(krate, c, o, emitted, texts, ranges);
  }
  if !m.path.is_empty() {
    o.push_str("}\n");
  }
}
