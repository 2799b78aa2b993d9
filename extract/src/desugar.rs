//! Expands nom combinators, closures, iterator chains and the crate's macros into plain control flow.
//!
//! Every rule replaces an expression by its definition (nom 8 combinators, std iterator adapters, closure
//! application, the crate's two macros); nothing else about the functions is changed.
use std::collections::{BTreeMap, HashMap};

use proc_macro2::TokenStream;
use quote::{ToTokens, quote};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

use crate::Contract;
use crate::source::{Crate, FnDef, format_ident, type_name};

type R<T> = std::result::Result<T, String>;

#[derive(Clone, Debug, Default)]
pub struct LoopInfo {
  /// variable that the loop pushes to
  pub acc: String,
  /// first variable the loop assigns
  pub asg: String,
  /// the variables that the loop changes, as far as they are not its own
  pub state: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
  Iter,
  NomErr,
  Result,
  Option,
  Unknown,
}

struct Tx<'a> {
  krate: &'a Crate,
  contracts: &'a BTreeMap<String, Contract>,
  loops: Vec<LoopInfo>,
  /// let-bound closures and parsers
  env: Vec<HashMap<String, Expr>>,
  kinds: Vec<HashMap<String, Kind>>,
  n: usize,
  self_name: Option<String>,
  dir: String,
  depth: usize,
}

const ALT_MUT: &str = "($input:expr=>$($expr:expr),+$(,)?)=>{'alt:{$(#[allow(clippy::redundant_closure_call)]match$expr.parse($input){Err(nom::Err::Error(_))=>(),res=>break'altres,})+Err(nom::Err::Error(nom::error::ParseError::from_error_kind($input,nom::error::ErrorKind::Alt)))}};";
const ERROR_POSITION: &str = "($input:expr,$error_inner:ident)=>{{$crate::error::Error{input:$input,inner:$crate::error::ErrorInner::$error_inner}}};($input:expr,$error_inner:ident($expr:expr))=>{{$crate::error::Error{input:$input,inner:$crate::error::ErrorInner::$error_inner($expr)}}};";

fn squeeze(s: &str) -> String {
  s.chars().filter(|c| !c.is_whitespace()).collect()
}

thread_local! {
  static INLINED: std::cell::RefCell<std::collections::BTreeSet<String>> = const { std::cell::RefCell::new(std::collections::BTreeSet::new()) };
}

/// the functions whose bodies stand in for calls to them
pub fn inlined() -> std::collections::BTreeSet<String> {
  INLINED.with(|i| i.borrow().clone())
}

pub fn function(krate: &Crate, contracts: &BTreeMap<String, Contract>, f: &FnDef) -> R<(Block, Vec<LoopInfo>)> {
  let mut t = Tx {
    krate,
    contracts,
    loops: vec![],
    env: vec![HashMap::new()],
    kinds: vec![HashMap::new()],
    n: 0,
    self_name: f.type_name.clone(),
    dir: f.module.first().cloned().unwrap_or_default(),
    depth: 0,
  };
  for a in &f.sig.inputs {
    if let FnArg::Typed(p) = a {
      if let Pat::Ident(i) = &*p.pat {
        let k = kind_of_type(&p.ty);
        t.kinds[0].insert(i.ident.to_string(), k);
      }
    }
  }
  let mut block = f.block.clone();
  t.tail(&mut block)?;
  let b = t.block(&block)?;
  Ok((b, t.loops))
}

fn kind_of_type(t: &Type) -> Kind {
  match type_name(t).as_deref() {
    Some("Err") => Kind::NomErr,
    Some("IResult") | Some("Result") => Kind::Result,
    Some("Option") => Kind::Option,
    _ => Kind::Unknown,
  }
}

fn last_seg(e: &Expr) -> Option<String> {
  match e {
    Expr::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
    Expr::Paren(p) => last_seg(&p.expr),
    Expr::Group(p) => last_seg(&p.expr),
    _ => None,
  }
}

fn qualifier(e: &Expr) -> Option<String> {
  match e {
    Expr::Path(p) if p.path.segments.len() >= 2 => {
      Some(p.path.segments[p.path.segments.len() - 2].ident.to_string())
    },
    _ => None,
  }
}

fn strip(e: &Expr) -> &Expr {
  match e {
    Expr::Paren(p) => strip(&p.expr),
    Expr::Group(p) => strip(&p.expr),
    _ => e,
  }
}

struct Exits {
  try_: bool,
  ret: bool,
  ret_other: bool,
  brk: bool,
}

impl<'ast> Visit<'ast> for Exits {
  fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
  fn visit_item(&mut self, _: &'ast Item) {}
  fn visit_expr_try(&mut self, e: &'ast ExprTry) {
    self.try_ = true;
    visit::visit_expr_try(self, e);
  }
  fn visit_expr_return(&mut self, e: &'ast ExprReturn) {
    self.ret = true;
    let is_err = matches!(e.expr.as_deref().map(strip), Some(Expr::Call(c)) if last_seg(&c.func).as_deref() == Some("Err"));
    if !is_err {
      self.ret_other = true;
    }
    visit::visit_expr_return(self, e);
  }
  fn visit_expr_break(&mut self, e: &'ast ExprBreak) {
    if e.label.is_some() {
      self.brk = true;
    }
    visit::visit_expr_break(self, e);
  }
}

fn exits_block(b: &Block) -> Exits {
  let mut x = Exits { try_: false, ret: false, ret_other: false, brk: false };
  x.visit_block(b);
  x
}
fn exits(e: &Expr) -> Exits {
  let mut x = Exits { try_: false, ret: false, ret_other: false, brk: false };
  x.visit_expr(e);
  x
}
fn exits_stmt(s: &Stmt) -> bool {
  let mut x = Exits { try_: false, ret: false, ret_other: false, brk: false };
  x.visit_stmt(s);
  x.try_ || x.ret
}

/// Replaces the identifier `self` by another expression.
struct SubstSelf(Expr);
impl VisitMut for SubstSelf {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let Expr::Path(p) = e {
      if p.path.is_ident("self") {
        *e = self.0.clone();
        return;
      }
    }
    visit_mut::visit_expr_mut(self, e);
  }
}
/// Replaces `Self` by a type name.
struct SubstSelfTy(Ident);
impl VisitMut for SubstSelfTy {
  fn visit_path_mut(&mut self, p: &mut Path) {
    if p.segments.first().is_some_and(|s| s.ident == "Self") {
      p.segments[0].ident = self.0.clone();
    }
    visit_mut::visit_path_mut(self, p);
  }
}

fn block_expr(b: Block) -> Expr {
  Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
}

fn has_combinator(e: &Expr) -> bool {
  match strip(e) {
    Expr::Call(c) => matches!(
      last_seg(&c.func).as_deref(),
      Some("map" | "opt" | "verify" | "count" | "length_count" | "cond" | "alt" | "value" | "fail" | "pair" | "preceded" | "terminated" | "success")
    ) && matches!(strip(&c.func), Expr::Path(_)),
    _ => false,
  }
}

impl<'a> Tx<'a> {
  fn fresh(&mut self) -> usize {
    self.n += 1;
    self.n
  }
  fn id(&self, p: &str, n: usize) -> Ident {
    format_ident(&format!("__{p}{n}"))
  }

  fn lookup(&self, name: &str) -> Option<Expr> {
    for m in self.env.iter().rev() {
      if let Some(e) = m.get(name) {
        if matches!(e, Expr::Verbatim(_)) {
          return None;
        }
        return Some(e.clone());
      }
    }
    None
  }
  /// a variable that is not a let-bound closure or parser
  fn shadowed(&self, name: &str) -> bool {
    self.env.iter().rev().find_map(|m| m.get(name)).is_some_and(|e| matches!(e, Expr::Verbatim(_)))
  }
  fn kind_var(&self, name: &str) -> Kind {
    for m in self.kinds.iter().rev() {
      if let Some(k) = m.get(name) {
        return *k;
      }
    }
    Kind::Unknown
  }

  fn scoped<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
    self.env.push(HashMap::new());
    self.kinds.push(HashMap::new());
    let r = f(self);
    self.env.pop();
    self.kinds.pop();
    r
  }

  // ------------------------------------------------------------------ kinds

  fn kind(&self, e: &Expr) -> Kind {
    match strip(e) {
      Expr::MethodCall(m) => {
        let name = m.method.to_string();
        match name.as_str() {
          "iter" | "into_iter" | "zip" | "skip" | "rev" | "take" | "enumerate" | "chain" | "drain" | "keys" | "values" => Kind::Iter,
          "map" | "and_then" | "copied" | "cloned" | "map_err" | "filter" | "inspect" => self.kind(&m.receiver),
          "or" | "or_else" => self.kind(&m.receiver),
          "then" | "then_some" | "pop_first" | "pop_last" => Kind::Option,
          "ok" | "get" | "first" | "last" | "pop" | "next" | "as_ref" | "as_mut" | "take_" | "err" => Kind::Option,
          "ok_or" | "ok_or_else" | "parse" | "transpose" => Kind::Result,
          n if n.starts_with("checked_") => Kind::Option,
          "split_once" | "rsplit_once" | "strip_prefix" | "strip_suffix" => Kind::Option,
          n if crate::source::serde_mode() && (n.starts_with("deserialize") || n.starts_with("visit_") || ["next_element_seed", "end", "to_deserializer"].contains(&n)) => Kind::Result,
          _ => {
            let c = self.krate.find_method(&name);
            if let [f] = c[..] { self.ret_kind(f) } else { Kind::Unknown }
          },
        }
      },
      Expr::Call(c) => {
        let l = last_seg(&c.func).unwrap_or_default();
        match l.as_str() {
          "Ok" | "Err" | "try_from" | "from_str" => Kind::Result,
          "Some" => Kind::Option,
          "deserialize" if crate::source::serde_mode() => Kind::Result,
          "into_failure" => Kind::NomErr,
          "Failure" | "Error" | "Incomplete" if qualifier(&c.func).as_deref() == Some("Err") => Kind::NomErr,
          _ => match self.resolve(&c.func) {
            Some(f) => self.ret_kind(f),
            None => {
              if let Some(x) = self.lookup(&l) {
                if let Expr::Closure(_) = x {
                  return Kind::Result;
                }
              }
              Kind::Unknown
            },
          },
        }
      },
      Expr::Range(_) => Kind::Iter,
      Expr::Path(p) if p.path.get_ident().is_some() => {
        let n = p.path.get_ident().unwrap().to_string();
        if n == "None" {
          return Kind::Option;
        }
        self.kind_var(&n)
      },
      Expr::Block(b) => match b.block.stmts.last() {
        Some(Stmt::Expr(e, None)) => self.kind(e),
        _ => Kind::Unknown,
      },
      Expr::Reference(r) => self.kind(&r.expr),
      Expr::Macro(m) if m.mac.path.is_ident("alt_mut") => Kind::Result,
      _ => Kind::Unknown,
    }
  }

  fn ret_kind(&self, f: &FnDef) -> Kind {
    match &f.sig.output {
      ReturnType::Type(_, t) => kind_of_type(t),
      _ => Kind::Unknown,
    }
  }

  // ------------------------------------------------------------------ functions of the crate

  /// The crate function that a path calls.
  fn resolve(&self, func: &Expr) -> Option<&'a FnDef> {
    let Expr::Path(p) = strip(func) else { return None };
    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
    let name = segs.last()?;
    let k: &'a Crate = self.krate;
    if segs.len() >= 2 {
      let q = &segs[segs.len() - 2];
      let ty = if q == "Self" { self.self_name.clone()? } else { q.clone() };
      let c = k.find_assoc(&ty, name);
      // there are types of the same name in different modules: prefer the own directory
      if c.len() > 1 {
        return c.iter().find(|f| f.module.first() == Some(&self.dir)).copied().or(Some(c[0]));
      }
      if c.len() == 1 {
        return Some(c[0]);
      }
      if q.chars().next().is_some_and(|c| c.is_lowercase()) {
        let c = k.find_free(name);
        return if c.len() == 1 { Some(c[0]) } else { None };
      }
      return None;
    }
    if self.shadowed(name) {
      return None;
    }
    let c = k.find_free(name);
    if c.len() == 1 { Some(c[0]) } else { c.iter().find(|f| f.module.first() == Some(&self.dir)).copied() }
  }

  /// A function without a contract is inlined.
  fn inlinable(&self, f: &FnDef) -> bool {
    !self.contracts.contains_key(&f.key)
  }

  /// (receiver if any, function, arguments) of a call to a crate function that has no contract
  fn inline_target(&self, e: &Expr) -> Option<(Option<Expr>, &'a FnDef, Vec<Expr>)> {
    match strip(e) {
      Expr::Call(c) => {
        let Expr::Path(p) = strip(&c.func) else { return None };
        if let Some(id) = p.path.get_ident() {
          if self.lookup(&id.to_string()).is_some() {
            return None;
          }
        }
        let f = self.resolve(&c.func)?;
        if !self.inlinable(f) {
          return None;
        }
        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
        let recv = if f.sig.receiver().is_some() && !args.is_empty() { Some(args.remove(0)) } else { None };
        Some((recv, f, args))
      },
      Expr::MethodCall(m) => {
        let name = m.method.to_string();
        if ["parse", "into", "clone", "map", "iter", "get", "insert", "push", "len", "is_empty", "remove", "new", "from", "as_str", "end", "contains", "contains_key", "bits"].contains(&name.as_str())
        {
          return None;
        }
        let c = self.krate.find_method(&name);
        let f = if matches!(strip(&m.receiver), Expr::Path(p) if p.path.is_ident("self")) {
          *c.iter().find(|f| f.type_name == self.self_name && f.module.first() == Some(&self.dir))?
        } else if c.len() == 1 {
          c[0]
        } else {
          return None;
        };
        if !self.inlinable(f) {
          return None;
        }
        Some((Some((*m.receiver).clone()), f, m.args.iter().cloned().collect()))
      },
      _ => None,
    }
  }

  /// The body of a function as a block, with its parameters bound.
  fn bind(&mut self, recv: Option<Expr>, f: &FnDef, args: Vec<Expr>) -> R<(Vec<Stmt>, Block)> {
    if self.depth > 6 {
      return Err(format!("{} is recursive or nested too deeply", f.key));
    }
    INLINED.with(|i| i.borrow_mut().insert(f.key.clone()));
    let mut pre: Vec<Stmt> = vec![];
    let mut second: Vec<Stmt> = vec![];
    let mut body = f.block.clone();
    if let Some(name) = &f.type_name {
      SubstSelfTy(format_ident(name)).visit_block_mut(&mut body);
    }
    let mut args = args.into_iter();
    for a in &f.sig.inputs {
      match a {
        FnArg::Receiver(r) => {
          let recv = recv.clone().ok_or("no receiver")?;
          if matches!(strip(&recv), Expr::Path(p) if p.path.is_ident("self")) {
            // the same `self`
          } else {
            let n = self.fresh();
            let s = self.id("self", n);
            if r.reference.is_some() && r.mutability.is_some() {
              pre.push(parse_quote!(let #s = &mut #recv;));
            } else if r.reference.is_some() {
              pre.push(parse_quote!(let #s = &#recv;));
            } else {
              pre.push(parse_quote!(let #s = #recv;));
            }
            SubstSelf(parse_quote!(#s)).visit_block_mut(&mut body);
          }
        },
        FnArg::Typed(t) => {
          let v = args.next().ok_or("missing argument")?;
          let n = self.fresh();
          let x = self.id("a", n);
          let pat = &t.pat;
          if matches!(strip(&v), Expr::Path(p) if p.path.is_ident("None")) && !matches!(&*t.ty, Type::ImplTrait(_)) {
            // the type of the parameter is that of the argument
            let mut ty = (*t.ty).clone();
            ElideLifetimes.visit_type_mut(&mut ty);
            if let Some(name) = &f.type_name {
              SubstSelfTy(format_ident(name)).visit_type_mut(&mut ty);
            }
            pre.push(parse_quote!(let #x: #ty = #v;));
          } else {
            pre.push(parse_quote!(let #x = #v;));
          }
          second.push(parse_quote!(let #pat = #x;));
          if let Pat::Ident(i) = &*t.pat {
            self.kinds.last_mut().unwrap().insert(i.ident.to_string(), kind_of_type(&t.ty));
          }
          shadow(&t.pat, self.env.last_mut().unwrap());
        },
      }
    }
    pre.extend(second);
    Ok((pre, body))
  }

  fn inline(&mut self, recv: Option<Expr>, f: &FnDef, args: Vec<Expr>, mode: Mode) -> R<Expr> {
    self.depth += 1;
    let (dir, name) = (self.dir.clone(), self.self_name.clone());
    let r = self.scoped(|t| {
      let recv = match recv {
        Some(r) => Some(t.expr(&r)?),
        None => None,
      };
      let mut args2 = vec![];
      for a in &args {
        args2.push(t.expr(a)?);
      }
      let (pre, body) = t.bind(recv, f, args2)?;
      t.dir = f.module.first().cloned().unwrap_or_default();
      t.self_name = f.type_name.clone();
      let x = exits_block(&body);
      // already transformed
      let mut stmts = pre;
      match mode {
        Mode::Verbatim => {
          let b = t.block(&body)?;
          stmts.extend(b.stmts);
        },
        Mode::Try if !x.ret_other => {
          let mut body = body;
          match body.stmts.last_mut() {
            Some(Stmt::Expr(e, semi @ None)) => {
              let inner = e.clone();
              *e = match strip(&inner) {
                Expr::Call(c) if last_seg(&c.func).as_deref() == Some("Ok") && c.args.len() == 1 => c.args[0].clone(),
                _ => parse_quote!((#inner)?),
              };
              let _ = semi;
            },
            _ => return Err("body without value".into()),
          }
          let b = t.block(&body)?;
          stmts.extend(b.stmts);
        },
        _ => {
          if x.ret || x.try_ {
            let kind = t.ret_kind(f);
            let e = t.cps(&body.stmts, kind)?;
            let e = t.expr(&e)?;
            stmts.push(Stmt::Expr(e, None));
          } else {
            let b = t.block(&body)?;
            stmts.extend(b.stmts);
          }
          if matches!(mode, Mode::Try) {
            let e = block_expr(Block { brace_token: Default::default(), stmts });
            return Ok(parse_quote!((#e)?));
          }
        },
      }
      Ok(block_expr(Block { brace_token: Default::default(), stmts }))
    });
    self.dir = dir;
    self.self_name = name;
    self.depth -= 1;
    r
  }

  /// A call in tail position to a function without contract is replaced by its body as it is.
  fn tail(&mut self, b: &mut Block) -> R<()> {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
      if let Some((recv, f, args)) = self.inline_target(e) {
        if exits_block(&f.block).ret_other && has_loop(&f.block) {
          let simple = args.iter().all(|a| matches!(strip(a), Expr::Path(_) | Expr::Lit(_) | Expr::Field(_) | Expr::Reference(_)));
          if simple && self.depth < 4 {
            // bound before transformation
            self.depth += 1;
            let (pre, body) = self.bind(recv, f, args)?;
            self.depth -= 1;
            let mut stmts = pre;
            stmts.extend(body.stmts);
            *e = block_expr(Block { brace_token: Default::default(), stmts });
          }
        }
      }
    }
    Ok(())
  }

  // ------------------------------------------------------------------ early exits of inlined code

  /// Turns statements with `return` and `?` into one expression without them.
  fn cps(&mut self, stmts: &[Stmt], kind: Kind) -> R<Expr> {
    let Some((s, rest)) = stmts.split_first() else {
      return Ok(parse_quote!(()));
    };
    if !stmts.iter().any(exits_stmt) {
      return Ok(block_expr(Block { brace_token: Default::default(), stmts: stmts.to_vec() }));
    }
    if !exits_stmt(s) {
      let r = self.cps(rest, kind)?;
      let mut v = vec![s.clone()];
      v.push(Stmt::Expr(r, None));
      return Ok(block_expr(Block { brace_token: Default::default(), stmts: v }));
    }
    match s {
      Stmt::Local(l) => {
        let init = l.init.as_ref().unwrap();
        let pat = &l.pat;
        if let Some((_, div)) = &init.diverge {
          // let PAT = E else { diverge };
          let e = &init.expr;
          if exits(e).try_ || exits(e).ret {
            return Err("exit in let-else".into());
          }
          let r = self.cps(rest, kind)?;
          let d = self.cps(&[Stmt::Expr((**div).clone(), None)], kind)?;
          return Ok(parse_quote!(match #e { #pat => #r, _ => #d }));
        }
        self.cps_value(&init.expr, kind, &mut |t, v| {
          let mut st: Vec<Stmt> = vec![parse_quote!(let #pat = #v;)];
          st.extend(rest.iter().cloned());
          t.cps(&st, kind)
        })
      },
      Stmt::Expr(e, semi) => {
        let last = rest.is_empty() && semi.is_none();
        match e {
          Expr::Return(r) => {
            let v: Expr = r.expr.as_deref().cloned().unwrap_or_else(|| parse_quote!(()));
            self.cps_value(&v, kind, &mut |_, v| Ok(v))
          },
          _ if last => self.cps_value(e, kind, &mut |_, v| Ok(v)),
          _ => self.cps_value(e, kind, &mut |t, v| {
            let mut st: Vec<Stmt> = vec![];
            if !matches!(&v, Expr::Tuple(t) if t.elems.is_empty()) {
              st.push(Stmt::Expr(v, Some(Default::default())));
            }
            st.extend(rest.iter().cloned());
            t.cps(&st, kind)
          }),
        }
      },
      _ => Err("unsupported statement with an early exit".into()),
    }
  }

  /// Evaluates `e` (which may exit early) and continues with its value.
  fn cps_value(&mut self, e: &Expr, kind: Kind, k: &mut dyn FnMut(&mut Self, Expr) -> R<Expr>) -> R<Expr> {
    let x = exits(e);
    if !x.try_ && !x.ret {
      return k(self, e.clone());
    }
    match e {
      Expr::Paren(p) => self.cps_value(&p.expr, kind, k),
      Expr::Return(r) => {
        let v: Expr = r.expr.as_deref().cloned().unwrap_or_else(|| parse_quote!(()));
        self.cps_value(&v, kind, &mut |_, v| Ok(v))
      },
      Expr::Try(t) => {
        let n = self.fresh();
        let (v, er) = (self.id("v", n), self.id("e", n));
        self.cps_value(&t.expr, kind, &mut |t, x| {
          let r = k(t, parse_quote!(#v))?;
          Ok(if kind == Kind::Option {
            parse_quote!(match #x { Some(#v) => #r, None => None })
          } else {
            parse_quote!(match #x { Ok(#v) => #r, Err(#er) => Err(#er) })
          })
        })
      },
      Expr::Block(b) if b.label.is_none() => {
        // the value of the block
        let mut stmts = b.block.stmts.clone();
        let value: Expr = match stmts.pop() {
          Some(Stmt::Expr(e, None)) => e,
          Some(s) => {
            stmts.push(s);
            parse_quote!(())
          },
          None => parse_quote!(()),
        };
        self.cps_stmts(&stmts, &value, kind, k)
      },
      Expr::If(i) => {
        if let Expr::Let(_) = &*i.cond {
        } else if exits(&i.cond).try_ {
          return Err("`?` in a condition".into());
        }
        let cond = &i.cond;
        let a = self.cps_value(&block_expr(i.then_branch.clone()), kind, k)?;
        let b = match &i.else_branch {
          Some((_, e)) => self.cps_value(e, kind, k)?,
          None => k(self, parse_quote!(()))?,
        };
        if let Expr::Let(l) = &**cond {
          let pat = &l.pat;
          if exits(&l.expr).try_ {
            return self.cps_value(&l.expr, kind, &mut |_, v| Ok(parse_quote!(if let #pat = #v { #a } else { #b })));
          }
        }
        Ok(parse_quote!(if #cond { #a } else { #b }))
      },
      Expr::Match(m) => {
        let mut arms: Vec<TokenStream> = vec![];
        for a in &m.arms {
          let pat = &a.pat;
          let g = a.guard.as_ref().map(|(_, g)| quote!(if #g));
          let b = self.cps_value(&a.body, kind, k)?;
          arms.push(quote!(#pat #g => #b,));
        }
        let arms: TokenStream = arms.into_iter().collect();
        self.cps_value(&m.expr, kind, &mut |_, v| Ok(parse_quote!(match #v { #arms })))
      },
      Expr::Call(c) => {
        // evaluate the arguments from left to right
        for (i, a) in c.args.iter().enumerate() {
          let x = exits(a);
          if x.try_ || x.ret {
            let c2 = c.clone();
            return self.cps_value(a, kind, &mut |t, v| {
              let mut c3 = c2.clone();
              c3.args[i] = v;
              t.cps_value(&Expr::Call(c3), kind, k)
            });
          }
        }
        Err("exit in call".into())
      },
      Expr::MethodCall(m) => {
        let x = exits(&m.receiver);
        if x.try_ || x.ret {
          let m2 = m.clone();
          return self.cps_value(&m.receiver, kind, &mut |t, v| {
            let mut m3 = m2.clone();
            m3.receiver = Box::new(v);
            t.cps_value(&Expr::MethodCall(m3), kind, k)
          });
        }
        for (i, a) in m.args.iter().enumerate() {
          let x = exits(a);
          if x.try_ || x.ret {
            let m2 = m.clone();
            return self.cps_value(a, kind, &mut |t, v| {
              let mut m3 = m2.clone();
              m3.args[i] = v;
              t.cps_value(&Expr::MethodCall(m3), kind, k)
            });
          }
        }
        Err("exit in method call".into())
      },
      Expr::Tuple(tu) => {
        for (i, a) in tu.elems.iter().enumerate() {
          let x = exits(a);
          if x.try_ || x.ret {
            let m2 = tu.clone();
            return self.cps_value(a, kind, &mut |t, v| {
              let mut m3 = m2.clone();
              m3.elems[i] = v;
              t.cps_value(&Expr::Tuple(m3), kind, k)
            });
          }
        }
        Err("exit in tuple".into())
      },
      Expr::Assign(a) => {
        let left = a.left.clone();
        self.cps_value(&a.right, kind, &mut |t, v| {
          let st: Vec<Stmt> = vec![parse_quote!(#left = #v;)];
          let r = k(t, parse_quote!(()))?;
          Ok(parse_quote!({ #(#st)* #r }))
        })
      },
      _ => Err(format!("early exit inside `{}`", short(e))),
    }
  }

  fn cps_stmts(&mut self, stmts: &[Stmt], value: &Expr, kind: Kind, k: &mut dyn FnMut(&mut Self, Expr) -> R<Expr>) -> R<Expr> {
    let Some((s, rest)) = stmts.split_first() else {
      return self.cps_value(value, kind, k);
    };
    match s {
      Stmt::Local(l) if exits_stmt(s) => {
        let init = l.init.as_ref().unwrap();
        if init.diverge.is_some() {
          return Err("let-else in a nested block".into());
        }
        let pat = &l.pat;
        self.cps_value(&init.expr, kind, &mut |t, v| {
          let r = t.cps_stmts(rest, value, kind, k)?;
          Ok(parse_quote!({ let #pat = #v; #r }))
        })
      },
      Stmt::Expr(e, _) if exits_stmt(s) => {
        if let Expr::Return(_) = e {
          return self.cps_value(e, kind, &mut |_, v| Ok(v));
        }
        self.cps_value(e, kind, &mut |t, _v| t.cps_stmts(rest, value, kind, k))
      },
      _ => {
        let r = self.cps_stmts(rest, value, kind, k)?;
        Ok(parse_quote!({ #s #r }))
      },
    }
  }

  // ------------------------------------------------------------------ closures and parsers

  /// f(args...)
  fn apply(&mut self, f: &Expr, args: Vec<Expr>, kinds: &[Kind]) -> R<Expr> {
    match strip(f) {
      Expr::Closure(c) => {
        if c.inputs.len() != args.len() {
          return Err("closure arity".into());
        }
        self.scoped(|t| {
          let mut stmts: Vec<Stmt> = vec![];
          for (i, (p, a)) in c.inputs.iter().zip(args).enumerate() {
            let mut k = kinds.get(i).copied().unwrap_or(Kind::Unknown);
            let pat = match p {
              Pat::Type(ty) => {
                k = match kind_of_type(&ty.ty) {
                  Kind::Unknown => k,
                  x => x,
                };
                // types of inferred position are not needed
                &*ty.pat
              },
              p => p,
            };
            if let Pat::Ident(i) = pat {
              t.kinds.last_mut().unwrap().insert(i.ident.to_string(), k);
              t.env.last_mut().unwrap().insert(i.ident.to_string(), Expr::Verbatim(TokenStream::new()));
            }
            match deref_pat(pat) {
              Some(inner) => stmts.push(parse_quote!(let #inner = *#a;)),
              None => stmts.push(parse_quote!(let #pat = #a;)),
            }
          }
          let body = &*c.body;
          let x = exits(body);
          let b = if x.ret || x.try_ {
            let body_stmts: Vec<Stmt> = match body {
              Expr::Block(b) => b.block.stmts.clone(),
              e => vec![Stmt::Expr(e.clone(), None)],
            };
            let e = t.cps(&body_stmts, Kind::Result)?;
            t.expr(&e)?
          } else {
            t.expr(body)?
          };
          stmts.push(Stmt::Expr(b, None));
          Ok(block_expr(Block { brace_token: Default::default(), stmts }))
        })
      },
      Expr::Path(p) => {
        if let Some(id) = p.path.get_ident() {
          if let Some(e) = self.lookup(&id.to_string()) {
            return self.apply(&e, args, kinds);
          }
        }
        let call: Expr = parse_quote!(#p(#(#args),*));
        self.call_done(&call)
      },
      e => Err(format!("cannot apply `{}`", short(e))),
    }
  }

  /// A call whose arguments are already transformed.
  fn call_done(&mut self, e: &Expr) -> R<Expr> {
    let Expr::Call(c) = e else { return Err("call".into()) };
    let mut tmp = vec![];
    let mut names = vec![];
    for a in &c.args {
      let n = self.fresh();
      let x = self.id("c", n);
      tmp.push((x.clone(), a.clone()));
      names.push(x);
    }
    let f = &c.func;
    let call: Expr = parse_quote!(#f(#(#names),*));
    let mut r = self.expr(&call)?;
    // put the arguments back
    struct Put(HashMap<String, Expr>);
    impl VisitMut for Put {
      fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
          if let Some(id) = p.path.get_ident() {
            if let Some(x) = self.0.get(&id.to_string()) {
              *e = x.clone();
              return;
            }
          }
        }
        visit_mut::visit_expr_mut(self, e);
      }
    }
    Put(tmp.into_iter().map(|(i, e)| (i.to_string(), e)).collect()).visit_expr_mut(&mut r);
    Ok(r)
  }

  /// p.parse(input), `input` is already transformed
  fn papply(&mut self, p: &Expr, input: Expr) -> R<Expr> {
    let p = strip(p);
    match p {
      Expr::Block(b) if b.block.stmts.len() == 1 => {
        if let Stmt::Expr(e, None) = &b.block.stmts[0] {
          return self.papply(e, input);
        }
        Err("parser block".into())
      },
      Expr::Reference(r) => self.papply(&r.expr, input),
      Expr::Closure(_) => self.apply(p, vec![input], &[]),
      Expr::Path(path) => {
        if let Some(id) = path.path.get_ident() {
          if let Some(e) = self.lookup(&id.to_string()) {
            return self.papply(&e, input);
          }
          if self.shadowed(&id.to_string()) {
            // a variable of a type with a `parse` method
            return Ok(parse_quote!(#path.parse(#input)));
          }
        }
        let l = path.path.segments.last().unwrap().ident.to_string();
        let q = qualifier(p);
        if l.chars().next().unwrap().is_uppercase() && q.is_some() {
          return self.variant_parse(p, input);
        }
        self.apply(p, vec![input], &[])
      },
      Expr::Call(c) => {
        let name = last_seg(&c.func).ok_or("parser")?;
        let a: Vec<&Expr> = c.args.iter().collect();
        let n = self.fresh();
        let (i, o, e, inp) = (self.id("i", n), self.id("o", n), self.id("e", n), self.id("s", n));
        match (name.as_str(), a.len()) {
          ("map", 2) => {
            let r = self.papply(a[0], input)?;
            let f = self.apply(a[1], vec![parse_quote!(#o)], &[])?;
            Ok(parse_quote!(match #r { Ok((#i, #o)) => Ok((#i, #f)), Err(#e) => Err(#e) }))
          },
          ("opt", 1) => {
            let r = self.papply(a[0], parse_quote!(#inp))?;
            Ok(parse_quote!({
              let #inp = #input;
              match #r { Ok((#i, #o)) => Ok((#i, Some(#o))), Err(nom::Err::Error(_)) => Ok((#inp, None)), Err(#e) => Err(#e) }
            }))
          },
          ("verify", 2) => {
            let r = self.papply(a[0], parse_quote!(#inp))?;
            let f = self.apply(a[1], vec![parse_quote!(&#o)], &[])?;
            Ok(parse_quote!({
              let #inp = #input;
              match #r {
                Ok((#i, #o)) => if #f { Ok((#i, #o)) } else { Err(nom::Err::Error(from_error_kind_(#inp))) },
                Err(#e) => Err(#e)
              }
            }))
          },
          ("count", 2) => {
            let cnt = self.expr(a[1])?;
            self.count_loop(a[0], cnt, input)
          },
          ("length_count", 2) => {
            let r = self.papply(a[0], input)?;
            let l = self.count_loop(a[1], parse_quote!(#o), parse_quote!(#i))?;
            Ok(parse_quote!(match #r { Ok((#i, #o)) => { #l }, Err(#e) => Err(#e) }))
          },
          ("cond", 2) => {
            let b = self.expr(a[0])?;
            let r = self.papply(a[1], parse_quote!(#inp))?;
            Ok(parse_quote!({
              let #inp = #input;
              if #b { match #r { Ok((#i, #o)) => Ok((#i, Some(#o))), Err(#e) => Err(#e) } } else { Ok((#inp, None)) }
            }))
          },
          ("value", 2) => {
            let v = self.expr(a[0])?;
            let r = self.papply(a[1], input)?;
            Ok(parse_quote!(match #r { Ok((#i, _)) => Ok((#i, #v)), Err(#e) => Err(#e) }))
          },
          ("success", 1) => {
            let v = self.expr(a[0])?;
            Ok(parse_quote!(Ok((#input, #v))))
          },
          ("fail", 0) => Ok(parse_quote!(Err(nom::Err::Error(from_error_kind_(#input))))),
          ("pair" | "preceded" | "terminated", 2) => {
            let r = self.papply(a[0], input)?;
            let n2 = self.fresh();
            let (i2, o2, e2) = (self.id("i", n2), self.id("o", n2), self.id("e", n2));
            let r2 = self.papply(a[1], parse_quote!(#i))?;
            let v: Expr = match name.as_str() {
              "pair" => parse_quote!((#o, #o2)),
              "preceded" => parse_quote!(#o2),
              _ => parse_quote!(#o),
            };
            Ok(parse_quote!(match #r { Ok((#i, #o)) => match #r2 { Ok((#i2, #o2)) => Ok((#i2, #v)), Err(#e2) => Err(#e2) }, Err(#e) => Err(#e) }))
          },
          ("alt", 1) => {
            let alts: Vec<Expr> = match strip(a[0]) {
              Expr::Tuple(t) => t.elems.iter().cloned().collect(),
              Expr::Array(t) => t.elems.iter().cloned().collect(),
              _ => return Err("alt".into()),
            };
            self.alternatives(&alts, input)
          },
          _ => {
            // a function returning a parser
            if let Some((recv, f, args)) = self.inline_target(p) {
              if recv.is_none() && f.block.stmts.len() == 1 {
                if let Stmt::Expr(b, None) = &f.block.stmts[0] {
                  let _ = args;
                  if f.sig.inputs.is_empty() {
                    return self.papply(&b.clone(), input);
                  }
                }
              }
            }
            Err(format!("parser `{}`", short(p)))
          },
        }
      },
      Expr::MethodCall(m) => {
        // Parser::map, Parser::and ...
        let name = m.method.to_string();
        let n = self.fresh();
        let (i, o, e) = (self.id("i", n), self.id("o", n), self.id("e", n));
        match name.as_str() {
          "map" => {
            let r = self.papply(&m.receiver, input)?;
            let f = self.apply(&m.args[0], vec![parse_quote!(#o)], &[])?;
            Ok(parse_quote!(match #r { Ok((#i, #o)) => Ok((#i, #f)), Err(#e) => Err(#e) }))
          },
          _ => Err(format!("parser `{}`", short(p))),
        }
      },
      _ => Err(format!("parser `{}`", short(p))),
    }
  }

  fn variant_parse(&mut self, p: &Expr, input: Expr) -> R<Expr> {
    let q = qualifier(p).unwrap_or_default();
    let q = if q == "Self" { self.self_name.clone().unwrap_or_default() } else { q };
    if self.krate.fns.values().any(|f| f.type_name.as_deref() == Some(&q) && f.sig.ident == "parse" && f.sig.receiver().is_some()) {
      return Ok(parse_quote!(#p.parse(#input)));
    }
    if self.krate.parser_types.contains(&q) {
      return Ok(parse_quote!(#p.parse_exact(#input)));
    }
    Err(format!("parser `{}`", short(p)))
  }

  /// The alternatives, each tried on the same input as long as the previous ones return `Err::Error`.
  fn alternatives(&mut self, alts: &[Expr], input: Expr) -> R<Expr> {
    let n = self.fresh();
    let inp = self.id("s", n);
    let mut parts = vec![];
    for a in alts {
      parts.push(self.papply(a, parse_quote!(#inp))?);
    }
    let mut r: Expr = parse_quote!(Err(nom::Err::Error(from_error_kind_(#inp))));
    for p in parts.into_iter().rev() {
      let m = self.fresh();
      let x = self.id("r", m);
      r = parse_quote!(match #p { Err(nom::Err::Error(_)) => #r, #x => #x });
    }
    Ok(parse_quote!({ let #inp = #input; #r }))
  }

  fn new_loop(&mut self, acc: String, asg: String) -> usize {
    self.loops.push(LoopInfo { acc, asg, state: String::new() });
    self.loops.len() - 1
  }

  fn count_loop(&mut self, p: &Expr, count: Expr, input: Expr) -> R<Expr> {
    let l = self.loops.len();
    let (acc, inn, k, err, cnt) = (self.id("acc", l), self.id("in", l), self.id("k", l), self.id("err", l), self.id("n", l));
    self.new_loop(acc.to_string(), inn.to_string());
    let li = proc_macro2::Literal::usize_unsuffixed(l);
    let r = self.papply(p, parse_quote!(#inn))?;
    let n = self.fresh();
    let (i, o, e) = (self.id("i", n), self.id("o", n), self.id("e", n));
    Ok(parse_quote!({
      let #cnt: usize = #count;
      let mut #inn = #input;
      let mut #acc = Vec::new();
      let mut #k: usize = 0;
      let mut #err = None;
      __m!(pre, #li);
      while #k < #cnt && #err.is_none() {
        __m!(inv, #li);
        __m!(head, #li);
        match #r {
          Ok((#i, #o)) => { #inn = #i; #acc.push(#o); #k = #k + 1; },
          Err(#e) => { #err = Some(#e); },
        }
        __m!(tail, #li);
      }
      __m!(post, #li);
      match #err { Some(#e) => Err(#e), None => Ok((#inn, #acc)) }
    }))
  }

  /// Splits `ITER.map(f).map(g)` into the iterator and the functions applied on every pull.
  fn pull(&mut self, e: &Expr) -> (Expr, Vec<Expr>) {
    let mut fs = vec![];
    let mut cur = strip(e).clone();
    loop {
      match &cur {
        Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => {
          fs.push(m.args[0].clone());
          cur = strip(&m.receiver).clone();
        },
        _ => break,
      }
    }
    fs.reverse();
    (cur, fs)
  }

  fn iter_expr(&mut self, e: &Expr) -> R<Expr> {
    match strip(e) {
      Expr::Range(r) => {
        let a = match &r.start {
          Some(a) => self.expr(a)?,
          None => return Err("range".into()),
        };
        let b = match &r.end {
          Some(b) => self.expr(b)?,
          None => return Err("range".into()),
        };
        if !matches!(r.limits, RangeLimits::HalfOpen(_)) {
          return Err("inclusive range".into());
        }
        Ok(parse_quote!(range_(#a, #b)))
      },
      x => {
        let k = self.kind(x);
        let t = self.expr(x)?;
        if k == Kind::Iter { Ok(t) } else { Ok(parse_quote!(#t.into_iter_())) }
      },
    }
  }

  /// for pat in iter { body }, with the body given as a function of the loop
  fn pull_loop(
    &mut self,
    iter: &Expr,
    acc: String,
    asg: String,
    body: &mut dyn FnMut(&mut Self, Expr, &Ident) -> R<Vec<Stmt>>,
  ) -> R<(Vec<Stmt>, Ident)> {
    let (base, fs) = self.pull(iter);
    let l = self.new_loop(acc, asg);
    let it0 = self.iter_expr(&base)?;
    let li = proc_macro2::Literal::usize_unsuffixed(l);
    let (it, go, x) = (self.id("it", l), self.id("go", l), self.id("x", l));
    let mut v: Expr = parse_quote!(#x);
    for f in &fs {
      v = self.apply(f, vec![v], &[])?;
    }
    let b = body(self, v, &go)?;
    let stmts: Vec<Stmt> = {
      let blk: Block = parse_quote!({
        let mut #it = #it0;
        let mut #go = true;
        __m!(pre, #li);
        while #go {
          __m!(inv, #li);
          __m!(head, #li);
          match #it.next() {
            Some(#x) => { #(#b)* },
            None => { #go = false; },
          }
          __m!(tail, #li);
        }
        __m!(post, #li);
      });
      blk.stmts
    };
    Ok((stmts, go))
  }

  // ------------------------------------------------------------------ expressions

  fn block(&mut self, b: &Block) -> R<Block> {
    self.scoped(|t| {
      let mut stmts = vec![];
      for s in &b.stmts {
        t.stmt(s, &mut stmts)?;
      }
      Ok(Block { brace_token: b.brace_token, stmts })
    })
  }

  fn stmt(&mut self, s: &Stmt, out: &mut Vec<Stmt>) -> R<()> {
    match s {
      Stmt::Local(l) => {
        if let (Pat::Ident(i), Some(init)) = (untyped(&l.pat), &l.init) {
          let e = strip(&init.expr);
          if matches!(e, Expr::Closure(_)) || has_combinator(e) {
            // inlined where it is used
            self.env.last_mut().unwrap().insert(i.ident.to_string(), e.clone());
            return Ok(());
          }
        }
        let mut l = l.clone();
        l.attrs.clear();
        if let (true, Pat::Type(t)) = (crate::source::serde_mode(), &l.pat) {
          if type_name(&t.ty).as_deref() == Some("MapDeserializer") {
            l.pat = (*t.pat).clone();
          }
        }
        if let Some(init) = &mut l.init {
          let k = self.kind(&init.expr);
          init.expr = Box::new(self.expr(&init.expr)?);
          if let Some((_, d)) = &mut init.diverge {
            *d = Box::new(self.expr(d)?);
          }
          if let Pat::Ident(i) = untyped(&l.pat) {
            self.kinds.last_mut().unwrap().insert(i.ident.to_string(), k);
          }
        }
        shadow(&l.pat, self.env.last_mut().unwrap());
        out.push(Stmt::Local(l));
      },
      Stmt::Expr(e, semi) => {
        // a destructuring assignment
        if let Expr::Assign(a) = e {
          if let Expr::Tuple(t) = strip(&a.left) {
            let right = self.expr(&a.right)?;
            let mut pats: Vec<TokenStream> = vec![];
            let mut sets: Vec<Stmt> = vec![];
            for p in &t.elems {
              self.assign_pat(p, &mut pats, &mut sets)?;
            }
            out.push(parse_quote!({ let (#(#pats),*) = #right; #(#sets)* }));
            return Ok(());
          }
        }
        let x = self.expr(e)?;
        out.push(Stmt::Expr(x, *semi));
      },
      Stmt::Macro(m) => {
        let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
        if m.mac.path.is_ident("__m") {
          out.push(s.clone());
          return Ok(());
        }
        let x = self.expr(&e)?;
        out.push(Stmt::Expr(x, m.semi_token));
      },
      Stmt::Item(Item::Use(u)) => {
        if let (true, UseTree::Path(p)) = (crate::source::serde_mode(), &u.tree) {
          if p.ident == "serde" {
            let t = &p.tree;
            out.push(parse_quote!(use crate::prelude::serde::#t;));
          }
        }
      },
      Stmt::Item(_) => return Err("item in a function".into()),
    }
    Ok(())
  }

  fn assign_pat(&mut self, p: &Expr, pats: &mut Vec<TokenStream>, sets: &mut Vec<Stmt>) -> R<()> {
    match strip(p) {
      Expr::Tuple(t) if t.elems.is_empty() => pats.push(quote!(_)),
      Expr::Tuple(t) => {
        let mut inner = vec![];
        for x in &t.elems {
          self.assign_pat(x, &mut inner, sets)?;
        }
        pats.push(quote!((#(#inner),*)));
      },
      Expr::Infer(_) => pats.push(quote!(_)),
      e => {
        let n = self.fresh();
        let x = self.id("d", n);
        let e2 = self.expr(e)?;
        pats.push(quote!(#x));
        sets.push(parse_quote!(#e2 = #x;));
      },
    }
    Ok(())
  }

  fn exprs(&mut self, a: &syn::punctuated::Punctuated<Expr, Token![,]>) -> R<Vec<Expr>> {
    a.iter().map(|x| self.expr(x)).collect()
  }

  fn cond(&mut self, e: &Expr) -> R<Expr> {
    match e {
      Expr::Let(l) => {
        let mut l = l.clone();
        l.expr = Box::new(self.expr(&l.expr)?);
        shadow(&l.pat, self.env.last_mut().unwrap());
        Ok(Expr::Let(l))
      },
      e => self.expr(e),
    }
  }

  fn has_let(e: &Expr) -> bool {
    match e {
      Expr::Let(_) => true,
      Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => Self::has_let(&b.left) || Self::has_let(&b.right),
      Expr::Paren(p) => Self::has_let(&p.expr),
      _ => false,
    }
  }

  pub fn expr(&mut self, e: &Expr) -> R<Expr> {
    match e {
      Expr::Paren(p) => {
        let x = self.expr(&p.expr)?;
        Ok(parse_quote!((#x)))
      },
      Expr::Group(p) => self.expr(&p.expr),
      Expr::Lit(_) | Expr::Continue(_) | Expr::Infer(_) => Ok(e.clone()),
      Expr::Path(_) => Ok(e.clone()),
      Expr::Break(b) => {
        if b.label.is_some() || b.expr.is_some() {
          return Err("break with a label or value".into());
        }
        Ok(e.clone())
      },
      Expr::Block(b) => {
        if b.label.is_some() {
          return Err("labelled block".into());
        }
        Ok(block_expr(self.block(&b.block)?))
      },
      Expr::Return(r) => match &r.expr {
        Some(x) => {
          let x = self.expr(x)?;
          Ok(parse_quote!(return #x))
        },
        None => Ok(e.clone()),
      },
      Expr::Try(t) => {
        if let Some((recv, f, args)) = self.inline_target(&t.expr) {
          return self.inline(recv, f, args, Mode::Try);
        }
        let x = self.expr(&t.expr)?;
        Ok(parse_quote!((#x)?))
      },
      Expr::If(i) => {
        if Self::has_let(&i.cond) && !matches!(&*i.cond, Expr::Let(_)) {
          // let chains are nested
          if let Expr::Binary(b) = strip(&i.cond) {
            let (l, r) = (&b.left, &b.right);
            let then = &i.then_branch;
            let e2: Expr = match &i.else_branch {
              None => parse_quote!(if #l { if #r #then }),
              Some((_, els)) => parse_quote!(if #l { if #r #then else { #els } } else { #els }),
            };
            return self.expr(&e2);
          }
        }
        let x = i.clone();
        self.scoped(|t| {
          let cond = t.cond(&x.cond)?;
          let then = t.block(&x.then_branch)?;
          Ok(match &x.else_branch {
            Some((_, e)) => {
              let els = t.expr(e)?;
              match els {
                Expr::If(_) | Expr::Block(_) => parse_quote!(if #cond #then else #els),
                els => parse_quote!(if #cond #then else { #els }),
              }
            },
            None => parse_quote!(if #cond #then),
          })
        })
      },
      // string literals as patterns
      Expr::Match(m) if m.arms.iter().any(|a| str_pats(&a.pat).is_some()) => {
        let x = self.expr(&m.expr)?;
        let n = self.fresh();
        let v = self.id("s", n);
        let mut out: Expr = parse_quote!(unreachable_());
        for a in m.arms.iter().rev() {
          if a.guard.is_some() {
            return Err("guard of a string pattern".into());
          }
          let (pre, b) = self.scoped(|t| {
            shadow(&a.pat, t.env.last_mut().unwrap());
            let b = t.expr(&a.body)?;
            let pat = &a.pat;
            let pre: TokenStream = if matches!(pat, Pat::Ident(_)) { quote!(let #pat = #v;) } else { quote!() };
            Ok((pre, b))
          })?;
          out = match (&a.pat, str_pats(&a.pat)) {
            (_, Some(l)) => {
              let c: Vec<Expr> = l.iter().map(|l| parse_quote!(eq_(&#v, &#l))).collect();
              parse_quote!(if #(#c)||* { #b } else { #out })
            },
            (Pat::Wild(_) | Pat::Ident(_), None) => parse_quote!({ #pre #b }),
            _ => return Err("mixed string patterns".into()),
          };
        }
        Ok(parse_quote!({ let #v = #x; #out }))
      },
      Expr::Match(m) => {
        let x = self.expr(&m.expr)?;
        let mut arms: Vec<TokenStream> = vec![];
        for a in &m.arms {
          let pat = &a.pat;
          let r = self.scoped(|t| {
            shadow(pat, t.env.last_mut().unwrap());
            // Err(err) of a parser's result
            if let Pat::TupleStruct(ts) = pat {
              if ts.path.is_ident("Err") {
                if let Some(Pat::Ident(i)) = ts.elems.first() {
                  t.kinds.last_mut().unwrap().insert(i.ident.to_string(), Kind::NomErr);
                }
              }
            }
            let g = match &a.guard {
              Some((_, g)) => {
                let g = t.expr(g)?;
                quote!(if #g)
              },
              None => quote!(),
            };
            let b = t.expr(&a.body)?;
            Ok(quote!(#pat #g => #b,))
          })?;
          arms.push(r);
        }
        let arms: TokenStream = arms.into_iter().collect();
        Ok(parse_quote!(match #x { #arms }))
      },
      Expr::While(w) => {
        if w.label.is_some() {
          return Err("labelled loop".into());
        }
        let (acc, asg) = roles(&w.body);
        if let Expr::Let(l) = &*w.cond {
          // while let Some(pat) = it.next(), and `it` is not used in the body, is a for loop
          if let (Pat::TupleStruct(p), Expr::MethodCall(m)) = (&*l.pat, strip(&l.expr)) {
            if let (true, 1, true, true, Expr::Path(it)) =
              (p.path.is_ident("Some"), p.elems.len(), m.method == "next", m.args.is_empty(), strip(&m.receiver))
            {
              let name = it.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
              let words = w.body.to_token_stream().to_string();
              if !name.is_empty() && irrefutable(&p.elems[0]) && self.kind(&m.receiver) == Kind::Iter && !words.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == name) {
                let (pat, body) = (&p.elems[0], &w.body);
                return self.expr(&parse_quote!(for #pat in #it #body));
              }
            }
          }
          let n = self.new_loop(acc, asg);
          self.loops[n].state = state(&w.body, Some(&w.cond));
          let li = proc_macro2::Literal::usize_unsuffixed(n);
          let pat = l.pat.clone();
          let x = self.expr(&l.expr)?;
          let b = self.scoped(|t| {
            shadow(&pat, t.env.last_mut().unwrap());
            t.block(&w.body)
          })?;
          return Ok(parse_quote!({
            __m!(pre, #li);
            loop {
              __m!(inv, #li);
              __m!(head, #li);
              match #x { #pat => #b, _ => { break; } }
              __m!(tail, #li);
            }
            __m!(post, #li);
          }));
        }
        let n = self.new_loop(acc, asg);
        self.loops[n].state = state(&w.body, Some(&w.cond));
        let li = proc_macro2::Literal::usize_unsuffixed(n);
        let c = self.expr(&w.cond)?;
        let b = self.block(&w.body)?;
        let st = &b.stmts;
        Ok(parse_quote!({
          __m!(pre, #li);
          while #c {
            __m!(inv, #li);
            __m!(head, #li);
            #(#st)*
            __m!(tail, #li);
          }
          __m!(post, #li);
        }))
      },
      Expr::Loop(w) => {
        if w.label.is_some() {
          return Err("labelled loop".into());
        }
        let (acc, asg) = roles(&w.body);
        let n = self.new_loop(acc, asg);
        self.loops[n].state = state(&w.body, None);
        let li = proc_macro2::Literal::usize_unsuffixed(n);
        let b = self.block(&w.body)?;
        let st = &b.stmts;
        Ok(parse_quote!({
          __m!(pre, #li);
          loop {
            __m!(inv, #li);
            __m!(head, #li);
            #(#st)*
            __m!(tail, #li);
          }
          __m!(post, #li);
        }))
      },
      Expr::ForLoop(f) => {
        if f.label.is_some() {
          return Err("labelled loop".into());
        }
        let (acc, asg) = roles(&f.body);
        let f2 = f.clone();
        let n = self.loops.len();
        let (st, _) = self.pull_loop(&f.expr, acc, asg, &mut |t, v, _| {
          t.scoped(|t| {
            shadow(&f2.pat, t.env.last_mut().unwrap());
            let mut stmts: Vec<Stmt> = vec![];
            match (&*f2.pat, deref_pat(&f2.pat)) {
              (_, Some(inner)) => stmts.push(parse_quote!(let #inner = *#v;)),
              (Pat::Wild(_), _) => {},
              (pat, None) => stmts.push(parse_quote!(let #pat = #v;)),
            }
            let b = t.block(&f2.body)?;
            stmts.extend(b.stmts);
            Ok(stmts)
          })
        })?;
        self.loops[n].state = state(&f.body, None);
        Ok(parse_quote!({ #(#st)* }))
      },
      Expr::Closure(_) => Err("closure".into()),
      Expr::Binary(b) => {
        let (l, r) = (self.expr(&b.left)?, self.expr(&b.right)?);
        let op = &b.op;
        if matches!(op, BinOp::Eq(_) | BinOp::Ne(_)) && !numeric(&b.left) && !numeric(&b.right) {
          let q: Expr = parse_quote!(eq_(&#l, &#r));
          return Ok(if matches!(op, BinOp::Eq(_)) { q } else { parse_quote!(!#q) });
        }
        Ok(parse_quote!(#l #op #r))
      },
      Expr::Unary(u) => {
        let x = self.expr(&u.expr)?;
        let op = &u.op;
        Ok(parse_quote!(#op #x))
      },
      Expr::Reference(r) => {
        let x = self.expr(&r.expr)?;
        let m = &r.mutability;
        Ok(parse_quote!(& #m #x))
      },
      Expr::Field(f) => {
        let x = self.expr(&f.base)?;
        let m = &f.member;
        Ok(parse_quote!(#x.#m))
      },
      Expr::Tuple(t) => {
        let v = self.exprs(&t.elems)?;
        Ok(if v.len() == 1 { let x = &v[0]; parse_quote!((#x,)) } else { parse_quote!((#(#v),*)) })
      },
      Expr::Cast(c) => {
        let x = self.expr(&c.expr)?;
        let t = &c.ty;
        Ok(parse_quote!(#x as #t))
      },
      Expr::Assign(a) => {
        let (l, r) = (self.expr(&a.left)?, self.expr(&a.right)?);
        Ok(parse_quote!(#l = #r))
      },
      Expr::Struct(s) => {
        let mut s = s.clone();
        for f in s.fields.iter_mut() {
          f.expr = self.expr(&f.expr)?;
        }
        if s.rest.is_some() {
          return Err("struct update".into());
        }
        Ok(Expr::Struct(s))
      },
      Expr::Let(_) => Err("let".into()),
      Expr::Index(i) => {
        let x = self.expr(&i.expr)?;
        if let Expr::Range(r) = strip(&i.index) {
          let a: Expr = match &r.start {
            Some(a) => self.expr(a)?,
            None => parse_quote!(0),
          };
          if !matches!(r.limits, RangeLimits::HalfOpen(_)) {
            return Err("inclusive range".into());
          }
          return Ok(match &r.end {
            Some(b) => {
              let b = self.expr(b)?;
              parse_quote!(slice_(#x, #a, #b))
            },
            None => parse_quote!(slice_from_(#x, #a)),
          });
        }
        let k = self.expr(&i.index)?;
        Ok(parse_quote!((*#x.index_(#k))))
      },
      Expr::Macro(m) => self.macro_(m),
      Expr::Call(c) => self.call(c),
      Expr::MethodCall(m) => self.method(m),
      e => Err(format!("expression `{}`", short(e))),
    }
  }

  fn macro_(&mut self, m: &ExprMacro) -> R<Expr> {
    let name = m.mac.path.segments.last().unwrap().ident.to_string();
    let toks = m.mac.tokens.clone();
    match name.as_str() {
      "error_position" => {
        let text = self.krate.macros.get("error_position").cloned().unwrap_or_default();
        if squeeze(&text) != squeeze(ERROR_POSITION) && squeeze(&text) != squeeze(ERROR_POSITION).trim_end_matches(';') {
          return Err("error_position! was changed".into());
        }
        let p = |i: parse::ParseStream| {
          let a: Expr = i.parse()?;
          let _: Token![,] = i.parse()?;
          let b: Expr = i.parse()?;
          Ok((a, b))
        };
        let (a, b) = parse::Parser::parse2(p, toks).map_err(|e| e.to_string())?;
        let a = self.expr(&a)?;
        let b: Expr = match &b {
          Expr::Path(p) => parse_quote!(crate::error::ErrorInner::#p),
          Expr::Call(c) => {
            let f = &c.func;
            let args = self.exprs(&c.args)?;
            parse_quote!(crate::error::ErrorInner::#f(#(#args),*))
          },
          _ => return Err("error_position!".into()),
        };
        Ok(parse_quote!(crate::error::Error { input: #a, inner: #b }))
      },
      "alt_mut" => {
        let text = self.krate.macros.get("alt_mut").cloned().unwrap_or_default();
        if squeeze(&text) != squeeze(ALT_MUT) {
          return Err("alt_mut! was changed".into());
        }
        let p = |i: parse::ParseStream| {
          let a: Expr = i.parse()?;
          let _: Token![=>] = i.parse()?;
          let v = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated(i)?;
          Ok((a, v))
        };
        let (a, v) = parse::Parser::parse2(p, toks).map_err(|e| e.to_string())?;
        let a = self.expr(&a)?;
        let alts: Vec<Expr> = v.into_iter().collect();
        self.alternatives(&alts, a)
      },
      "matches" => {
        let p = |i: parse::ParseStream| {
          let a: Expr = i.parse()?;
          let _: Token![,] = i.parse()?;
          let b = Pat::parse_multi_with_leading_vert(i)?;
          let g: Option<Expr> = if i.peek(Token![if]) {
            let _: Token![if] = i.parse()?;
            Some(i.parse()?)
          } else {
            None
          };
          let _: Option<Token![,]> = i.parse()?;
          Ok((a, b, g))
        };
        let (a, b, g) = parse::Parser::parse2(p, toks).map_err(|e| e.to_string())?;
        let a = self.expr(&a)?;
        match g {
          None => Ok(parse_quote!(match #a { #b => true, _ => false })),
          Some(g) => {
            let g = self.expr(&g)?;
            Ok(parse_quote!(match #a { #b if #g => true, _ => false }))
          },
        }
      },
      "vec" => {
        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        let v = parse::Parser::parse2(p, toks).map_err(|e| e.to_string())?;
        let v = self.exprs(&v)?;
        if v.is_empty() {
          return Ok(parse_quote!(Vec::new()));
        }
        Ok(parse_quote!({ let mut __v = Vec::new(); #(__v.push(#v);)* __v }))
      },
      "format" => Ok(parse_quote!(formatted_())),
      "unreachable" | "panic" | "todo" | "unimplemented" => Ok(parse_quote!(unreachable_())),
      "assert" | "debug_assert" => {
        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        let v = parse::Parser::parse2(p, toks).map_err(|e| e.to_string())?;
        let c = self.expr(v.first().ok_or("assert")?)?;
        Ok(parse_quote!(if !(#c) { unreachable_() }))
      },
      "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        let v = parse::Parser::parse2(p, toks).map_err(|e| e.to_string())?;
        let (a, b) = (&v[0], &v[1]);
        let e: Expr = if name.ends_with("eq") { parse_quote!(#a == #b) } else { parse_quote!(#a != #b) };
        let c = self.expr(&e)?;
        Ok(parse_quote!(if !(#c) { unreachable_() }))
      },
      _ => Err(format!("macro {name}!")),
    }
  }

  fn call(&mut self, c: &ExprCall) -> R<Expr> {
    // a let-bound closure
    if let Expr::Path(p) = strip(&c.func) {
      if let Some(id) = p.path.get_ident() {
        if let Some(f) = self.lookup(&id.to_string()) {
          let args = self.exprs(&c.args)?;
          return self.apply(&f, args, &[]);
        }
      }
    }
    if let Expr::Closure(_) = strip(&c.func) {
      let args = self.exprs(&c.args)?;
      return self.apply(&c.func, args, &[]);
    }
    let e = Expr::Call(c.clone());
    if let Some((recv, f, args)) = self.inline_target(&e) {
      return self.inline(recv, f, args, Mode::Value);
    }
    let l = last_seg(&c.func).unwrap_or_default();
    if l == "Self" {
      let name = format_ident(self.self_name.as_deref().ok_or("Self")?);
      let args = self.exprs(&c.args)?;
      return Ok(parse_quote!(#name(#(#args),*)));
    }
    if let Some(q) = qualifier(&c.func) {
      let crate_fn = self.resolve(&c.func).is_some();
      if !crate_fn && c.args.len() == 1 {
        let Expr::Path(p) = strip(&c.func) else { return Err("call".into()) };
        let mut ty = p.path.clone();
        ty.segments.pop();
        if let Some(last) = ty.segments.pop() {
          ty.segments.push_value(last.into_value());
        }
        match (q.as_str(), l.as_str()) {
          ("HashMap" | "BTreeMap" | "Vec" | "BTreeSet", "from_iter") => {
            return self.collect(&c.args[0], Some(q.as_str()));
          },
          (_, "from") => {
            let a = self.expr(&c.args[0])?;
            return Ok(parse_quote!(<#ty as From_<_>>::from_(#a)));
          },
          (_, "try_from") => {
            let a = self.expr(&c.args[0])?;
            return Ok(parse_quote!(<#ty as TryFrom_<_>>::try_from_(#a)));
          },
          _ => {},
        }
      }
    }
    if l == "from_error_kind" && c.args.len() == 2 {
      let a = self.expr(&c.args[0])?;
      return Ok(parse_quote!(from_error_kind_(#a)));
    }
    if (l == "black_box" || l == "identity") && c.args.len() == 1 {
      let a = self.expr(&c.args[0])?;
      return Ok(parse_quote!((#a)));
    }
    if let ("replace", 2) | ("take", 1) | ("swap", 2) = (l.as_str(), c.args.len()) {
      if qualifier(&c.func).as_deref() == Some("mem") {
        let f = format_ident(&format!("mem_{l}_"));
        let args = self.exprs(&c.args)?;
        return Ok(parse_quote!(#f(#(#args),*)));
      }
    }
    if let ("min" | "max", 2) = (l.as_str(), c.args.len()) {
      if qualifier(&c.func).as_deref() == Some("cmp") {
        let f = format_ident(&format!("{l}_"));
        let args = self.exprs(&c.args)?;
        return Ok(parse_quote!(#f(#(#args),*)));
      }
    }
    if l == "drop" && c.args.len() == 1 {
      let a = self.expr(&c.args[0])?;
      return Ok(parse_quote!({ let _ = #a; }));
    }
    let args = self.exprs(&c.args)?;
    let f = &c.func;
    Ok(parse_quote!(#f(#(#args),*)))
  }

  /// I.collect() / C::from_iter(I)
  fn collect(&mut self, e: &Expr, what: Option<&str>) -> R<Expr> {
    let (base, fs) = self.pull(e);
    let map = matches!(what, Some("HashMap" | "BTreeMap"));
    if what == Some("BTreeSet") {
      return Err("BTreeSet".into());
    }
    if fs.is_empty() && !map {
      let it = self.iter_expr(&base)?;
      return Ok(parse_quote!(#it.collect_()));
    }
    let l = self.loops.len();
    let acc = self.id("acc", l);
    let x = self.id("y", l);
    let acc2 = acc.clone();
    let (st, _) = self.pull_loop(e, acc.to_string(), String::new(), &mut |_, v, _| {
      Ok(if map {
        let k = format_ident(&format!("{x}k"));
        vec![parse_quote!(let (#k, #x) = #v;), parse_quote!(#acc2.insert(#k, #x);)]
      } else {
        vec![parse_quote!(let #x = #v;), parse_quote!(#acc2.push(#x);)]
      })
    })?;
    let new: Expr = match what {
      Some("HashMap") => parse_quote!(HashMap::new()),
      Some("BTreeMap") => parse_quote!(BTreeMap::new()),
      _ => parse_quote!(Vec::new()),
    };
    Ok(parse_quote!({ let mut #acc = #new; #(#st)* #acc }))
  }

  fn method(&mut self, m: &ExprMethodCall) -> R<Expr> {
    let e = Expr::MethodCall(m.clone());
    let name = m.method.to_string();
    if let Some((recv, f, args)) = self.inline_target(&e) {
      return self.inline(recv, f, args, Mode::Value);
    }
    let nargs = m.args.len();
    match (name.as_str(), nargs) {
      ("parse", 1) => {
        let input = self.expr(&m.args[0])?;
        return self.papply(&m.receiver, input);
      },
      ("clone", 0) | ("to_owned", 0) => {
        let r = self.expr(&m.receiver)?;
        return Ok(parse_quote!(#r.clone_x()));
      },
      ("into", 0) => {
        let r = self.expr(&m.receiver)?;
        return Ok(parse_quote!(conv_(#r)));
      },
      ("try_into", 0) => {
        let r = self.expr(&m.receiver)?;
        return Ok(parse_quote!(try_conv_(#r)));
      },
      ("unwrap", 0) | ("expect", 1) => {
        let r = self.expr(&m.receiver)?;
        return Ok(parse_quote!(#r.unwrap()));
      },
      ("collect", 0) => {
        let what = m.turbofish.as_ref().and_then(|t| match t.args.first() {
          Some(GenericArgument::Type(t)) => type_name(t),
          _ => None,
        });
        return self.collect(&m.receiver, what.as_deref());
      },
      ("map", 1) => {
        let n = self.fresh();
        let o = self.id("o", n);
        let er = self.id("e", n);
        match self.kind(&m.receiver) {
          // handed to a library function: the elements, collected
          Kind::Iter if crate::source::serde_mode() => return self.collect(&e, Some("Vec")),
          Kind::Iter => return Err("iterator adapter outside of a loop".into()),
          Kind::NomErr => {
            let r = self.expr(&m.receiver)?;
            let f = self.apply(&m.args[0], vec![parse_quote!(#o)], &[])?;
            let f2 = f.clone();
            return Ok(parse_quote!(match #r {
              nom::Err::Incomplete(#er) => nom::Err::Incomplete(#er),
              nom::Err::Error(#o) => nom::Err::Error(#f),
              nom::Err::Failure(#o) => nom::Err::Failure(#f2),
            }));
          },
          Kind::Result => {
            let r = self.expr(&m.receiver)?;
            let f = self.apply(&m.args[0], vec![parse_quote!(#o)], &[])?;
            return Ok(parse_quote!(match #r { Ok(#o) => Ok(#f), Err(#er) => Err(#er) }));
          },
          _ => {
            let r = self.expr(&m.receiver)?;
            let f = self.apply(&m.args[0], vec![parse_quote!(#o)], &[])?;
            return Ok(parse_quote!(match #r { Some(#o) => Some(#f), None => None }));
          },
        }
      },
      ("map_err", 1) => {
        let n = self.fresh();
        let (o, er) = (self.id("o", n), self.id("e", n));
        let r = self.expr(&m.receiver)?;
        let f = self.apply(&m.args[0], vec![parse_quote!(#er)], &[Kind::NomErr])?;
        return Ok(parse_quote!(match #r { Ok(#o) => Ok(#o), Err(#er) => Err(#f) }));
      },
      ("and_then", 1) => {
        let n = self.fresh();
        let (o, er) = (self.id("o", n), self.id("e", n));
        let k = self.kind(&m.receiver);
        let r = self.expr(&m.receiver)?;
        let f = self.apply(&m.args[0], vec![parse_quote!(#o)], &[])?;
        return Ok(if k == Kind::Result {
          parse_quote!(match #r { Ok(#o) => #f, Err(#er) => Err(#er) })
        } else {
          parse_quote!(match #r { Some(#o) => #f, None => None })
        });
      },
      ("ok", 0) => {
        let n = self.fresh();
        let o = self.id("o", n);
        let r = self.expr(&m.receiver)?;
        return Ok(parse_quote!(match #r { Ok(#o) => Some(#o), Err(_) => None }));
      },
      ("ok_or", 1) | ("ok_or_else", 1) => {
        let n = self.fresh();
        let o = self.id("o", n);
        let r = self.expr(&m.receiver)?;
        let v = if name == "ok_or" { self.expr(&m.args[0])? } else { self.apply(&m.args[0], vec![], &[])? };
        return Ok(parse_quote!(match #r { Some(#o) => Ok(#o), None => Err(#v) }));
      },
      ("unwrap_or", 1) | ("unwrap_or_else", 1) => {
        let n = self.fresh();
        let o = self.id("o", n);
        let k = self.kind(&m.receiver);
        let r = self.expr(&m.receiver)?;
        if k == Kind::Result && name == "unwrap_or_else" {
          let er = self.id("e", n);
          let v = self.apply(&m.args[0], vec![parse_quote!(#er)], &[])?;
          return Ok(parse_quote!(match #r { Ok(#o) => #o, Err(#er) => #v }));
        }
        let v = if name == "unwrap_or" { self.expr(&m.args[0])? } else { self.apply(&m.args[0], vec![], &[])? };
        return Ok(if k == Kind::Result {
          parse_quote!(match #r { Ok(#o) => #o, Err(_) => #v })
        } else {
          parse_quote!(match #r { Some(#o) => #o, None => #v })
        });
      },
      ("or_else", 1) | ("or", 1) => {
        let n = self.fresh();
        let o = self.id("o", n);
        let k = self.kind(&m.receiver);
        let r = self.expr(&m.receiver)?;
        if k == Kind::Result {
          let er = self.id("e", n);
          let v = if name == "or" { self.expr(&m.args[0])? } else { self.apply(&m.args[0], vec![parse_quote!(#er)], &[Kind::NomErr])? };
          return Ok(parse_quote!(match #r { Ok(#o) => Ok(#o), Err(#er) => #v }));
        }
        let v = if name == "or" { self.expr(&m.args[0])? } else { self.apply(&m.args[0], vec![], &[])? };
        return Ok(parse_quote!(match #r { Some(#o) => Some(#o), None => #v }));
      },
      ("then", 1) | ("then_some", 1) => {
        let r = self.expr(&m.receiver)?;
        let v = if name == "then_some" { self.expr(&m.args[0])? } else { self.apply(&m.args[0], vec![], &[])? };
        return Ok(parse_quote!(if #r { Some(#v) } else { None }));
      },
      ("map_or", 2) | ("map_or_else", 2) => {
        let n = self.fresh();
        let (o, er) = (self.id("o", n), self.id("e", n));
        let k = self.kind(&m.receiver);
        let r = self.expr(&m.receiver)?;
        let f = self.apply(&m.args[1], vec![parse_quote!(#o)], &[])?;
        if k == Kind::Result {
          let d = if name == "map_or" { self.expr(&m.args[0])? } else { self.apply(&m.args[0], vec![parse_quote!(#er)], &[])? };
          return Ok(parse_quote!(match #r { Ok(#o) => #f, Err(#er) => #d }));
        }
        let d = if name == "map_or" { self.expr(&m.args[0])? } else { self.apply(&m.args[0], vec![], &[])? };
        return Ok(parse_quote!(match #r { Some(#o) => #f, None => #d }));
      },
      ("filter", 1) if self.kind(&m.receiver) == Kind::Option => {
        let n = self.fresh();
        let o = self.id("o", n);
        let r = self.expr(&m.receiver)?;
        let f = self.apply(&m.args[0], vec![parse_quote!(&#o)], &[])?;
        return Ok(parse_quote!(match #r { Some(#o) => if #f { Some(#o) } else { None }, None => None }));
      },
      ("is_none_or", 1) => {
        let n = self.fresh();
        let o = self.id("o", n);
        let r = self.expr(&m.receiver)?;
        let f = self.apply(&m.args[0], vec![parse_quote!(#o)], &[])?;
        return Ok(parse_quote!(match #r { Some(#o) => #f, None => true }));
      },
      ("is_ok_and", 1) => {
        let n = self.fresh();
        let o = self.id("o", n);
        let r = self.expr(&m.receiver)?;
        let f = self.apply(&m.args[0], vec![parse_quote!(#o)], &[])?;
        return Ok(parse_quote!(match #r { Ok(#o) => #f, Err(_) => false }));
      },
      ("is_err_and", 1) => {
        let n = self.fresh();
        let o = self.id("o", n);
        let r = self.expr(&m.receiver)?;
        let f = self.apply(&m.args[0], vec![parse_quote!(#o)], &[Kind::NomErr])?;
        return Ok(parse_quote!(match #r { Ok(_) => false, Err(#o) => #f }));
      },
      ("extend", 1) => {
        let r = self.expr(&m.receiver)?;
        let acc = match strip(&m.receiver) {
          Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).unwrap_or_default(),
          _ => return Err("extend".into()),
        };
        let (st, _) = self.pull_loop(&m.args[0], acc, String::new(), &mut |_, v, _| Ok(vec![parse_quote!(#r.push(#v);)]))?;
        return Ok(parse_quote!({ #(#st)* }));
      },
      ("min" | "max", 1) => {
        let f = format_ident(&format!("{name}_"));
        let r = self.expr(&m.receiver)?;
        let a = self.expr(&m.args[0])?;
        return Ok(parse_quote!(#f(#r, #a)));
      },
      ("or_insert", 1) => {
        if let Expr::MethodCall(x) = strip(&m.receiver) {
          if x.method == "entry" && x.args.len() == 1 {
            let r = self.expr(&x.receiver)?;
            let (k, v) = (self.expr(&x.args[0])?, self.expr(&m.args[0])?);
            return Ok(parse_quote!(#r.entry_or_insert_(#k, #v)));
          }
        }
        return Err("entry".into());
      },
      ("is_ok", 0) => {
        let r = self.expr(&m.receiver)?;
        return Ok(parse_quote!(match #r { Ok(_) => true, Err(_) => false }));
      },
      ("is_err", 0) => {
        let r = self.expr(&m.receiver)?;
        return Ok(parse_quote!(match #r { Ok(_) => false, Err(_) => true }));
      },
      ("is_some_and", 1) => {
        let n = self.fresh();
        let o = self.id("o", n);
        let r = self.expr(&m.receiver)?;
        let f = self.apply(&m.args[0], vec![parse_quote!(#o)], &[])?;
        return Ok(parse_quote!(match #r { Some(#o) => #f, None => false }));
      },
      ("try_fold", 2) => {
        let init = self.expr(&m.args[0])?;
        let l = self.loops.len();
        let (acc, ok, v) = (self.id("acc", l), self.id("ok", l), self.id("w", l));
        let (acc2, ok2) = (acc.clone(), ok.clone());
        let f = m.args[1].clone();
        let (st, _) = self.pull_loop(&m.receiver, acc.to_string(), String::new(), &mut |t, x, go| {
          let r = t.apply(&f, vec![parse_quote!(#acc2), x], &[])?;
          Ok(vec![parse_quote!(match #r { Some(#v) => { #acc2 = #v; }, None => { #go = false; #ok2 = false; } })])
        })?;
        return Ok(parse_quote!({ let mut #acc = #init; let mut #ok = true; #(#st)* if #ok { Some(#acc) } else { None } }));
      },
      ("fold", 2) => {
        let init = self.expr(&m.args[0])?;
        let l = self.loops.len();
        let acc = self.id("acc", l);
        let acc2 = acc.clone();
        let f = m.args[1].clone();
        let (st, _) = self.pull_loop(&m.receiver, acc.to_string(), String::new(), &mut |t, x, _| {
          let r = t.apply(&f, vec![parse_quote!(#acc2), x], &[])?;
          Ok(vec![parse_quote!(#acc2 = #r;)])
        })?;
        return Ok(parse_quote!({ let mut #acc = #init; #(#st)* #acc }));
      },
      ("for_each", 1) => {
        let f = m.args[0].clone();
        let (st, _) = self.pull_loop(&m.receiver, String::new(), String::new(), &mut |t, x, _| {
          let r = t.apply(&f, vec![x], &[])?;
          Ok(vec![parse_quote!({ #r; })])
        })?;
        return Ok(parse_quote!({ #(#st)* }));
      },
      ("drain", 1) => {
        if let Expr::Range(rg) = strip(&m.args[0]) {
          let r = self.expr(&m.receiver)?;
          let a: Expr = match &rg.start {
            Some(a) => self.expr(a)?,
            None => parse_quote!(0),
          };
          if !matches!(rg.limits, RangeLimits::HalfOpen(_)) {
            return Err("inclusive range".into());
          }
          return Ok(match &rg.end {
            Some(b) => {
              let b = self.expr(b)?;
              parse_quote!(#r.drain_(#a, #b))
            },
            None => parse_quote!(#r.drain_from_(#a)),
          });
        }
      },
      ("zip", 1) => {
        let r = self.expr(&m.receiver)?;
        let a = self.iter_expr(&m.args[0])?;
        return Ok(parse_quote!(#r.zip(#a)));
      },
      ("chain", 1) => {
        let r = self.expr(&m.receiver)?;
        let a = self.iter_expr(&m.args[0])?;
        return Ok(parse_quote!(#r.chain(#a)));
      },
      _ => {},
    }
    if let ("get" | "contains_key", 1) = (name.as_str(), nargs) {
      // &str for Borrow<str> of the keys
      if let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = strip(&m.args[0]) {
        let r = self.expr(&m.receiver)?;
        let id = &m.method;
        return Ok(parse_quote!(#r.#id(&#l)));
      }
    }
    if let ("next", 0, Expr::MethodCall(s)) = (name.as_str(), nargs, strip(&m.receiver)) {
      if s.method == "split" && s.args.len() == 1 {
        let r = self.expr(&s.receiver)?;
        let a = self.exprs(&s.args)?;
        return Ok(parse_quote!(#r.split_first_(#(#a),*)));
      }
    }
    if let ("split_once" | "rsplit_once" | "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix", 1) | ("to_string", 0) = (name.as_str(), nargs) {
      let r = self.expr(&m.receiver)?;
      let a = self.exprs(&m.args)?;
      let id = format_ident(&format!("{name}_"));
      return Ok(parse_quote!(#r.#id(#(#a),*)));
    }
    if m.args.iter().any(|a| matches!(strip(a), Expr::Closure(_))) {
      return Err(format!("method `{name}` with a closure"));
    }
    let r = self.expr(&m.receiver)?;
    let args = self.exprs(&m.args)?;
    let id = &m.method;
    let t = &m.turbofish;
    Ok(parse_quote!(#r.#id #t(#(#args),*)))
  }
}

#[derive(Clone, Copy)]
enum Mode {
  Value,
  Try,
  #[allow(dead_code)]
  Verbatim,
}

/// "a" | "b"
fn irrefutable(p: &Pat) -> bool {
  match p {
    Pat::Ident(i) => i.subpat.is_none() && !i.ident.to_string().starts_with(char::is_uppercase),
    Pat::Wild(_) => true,
    Pat::Tuple(t) => t.elems.iter().all(irrefutable),
    Pat::Reference(r) => irrefutable(&r.pat),
    _ => false,
  }
}

fn str_pats(p: &Pat) -> Option<Vec<LitStr>> {
  match p {
    Pat::Lit(ExprLit { lit: Lit::Str(l), .. }) => Some(vec![l.clone()]),
    Pat::Or(o) => Some(o.cases.iter().map(str_pats).collect::<Option<Vec<_>>>()?.concat()),
    Pat::Paren(p) => str_pats(&p.pat),
    _ => None,
  }
}

fn has_loop(b: &Block) -> bool {
  struct L(bool);
  impl<'ast> Visit<'ast> for L {
    fn visit_expr_while(&mut self, _: &'ast ExprWhile) {
      self.0 = true;
    }
    fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {
      self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {
      self.0 = true;
    }
  }
  let mut l = L(false);
  l.visit_block(b);
  l.0
}

fn untyped(p: &Pat) -> &Pat {
  match p {
    Pat::Type(t) => &t.pat,
    p => p,
  }
}

/// `&pat` is bound to the dereferenced value
fn deref_pat(p: &Pat) -> Option<Pat> {
  match p {
    Pat::Reference(r) => Some((*r.pat).clone()),
    _ => None,
  }
}

/// Names bound by a pattern hide let-bound closures.
fn shadow(p: &Pat, env: &mut HashMap<String, Expr>) {
  struct V<'a>(&'a mut HashMap<String, Expr>);
  impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
      self.0.insert(i.ident.to_string(), Expr::Verbatim(TokenStream::new()));
    }
  }
  V(env).visit_pat(p);
}

fn numeric(e: &Expr) -> bool {
  match strip(e) {
    Expr::Lit(l) => matches!(l.lit, Lit::Int(_) | Lit::Bool(_) | Lit::Byte(_) | Lit::Char(_)),
    Expr::Unary(u) => numeric(&u.expr),
    Expr::Binary(b) => !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Gt(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)),
    Expr::Cast(_) => true,
    _ => false,
  }
}

struct ElideLifetimes;
impl VisitMut for ElideLifetimes {
  fn visit_lifetime_mut(&mut self, l: &mut syn::Lifetime) {
    *l = syn::Lifetime::new("'_", l.span());
  }
}

/// the variables that a loop changes and that are declared outside of it
fn state(b: &Block, cond: Option<&Expr>) -> String {
  #[derive(Default)]
  struct V {
    set: std::collections::BTreeSet<String>,
    own: std::collections::BTreeSet<String>,
  }
  impl V {
    fn place(&mut self, e: &Expr) {
      match strip(e) {
        Expr::Path(p) => {
          if let Some(i) = p.path.get_ident() {
            self.set.insert(i.to_string());
          }
        },
        Expr::Field(f) => self.place(&f.base),
        Expr::Index(f) => self.place(&f.expr),
        Expr::Unary(u) => self.place(&u.expr),
        Expr::Tuple(t) => t.elems.iter().for_each(|e| self.place(e)),
        _ => {},
      }
    }
  }
  impl<'ast> Visit<'ast> for V {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
      let n = m.method.to_string();
      let change = ["push", "insert", "pop", "remove", "extend", "append", "drain", "truncate", "clear", "next", "next_back", "swap_remove", "retain", "resize", "reverse"];
      if change.contains(&n.as_str()) || n.ends_with("_mut") || n.starts_with("push_") || n.starts_with("pop_") || n.starts_with("extend_") {
        self.place(&m.receiver);
      }
      visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_reference(&mut self, r: &'ast ExprReference) {
      if r.mutability.is_some() {
        self.place(&r.expr);
      }
      visit::visit_expr_reference(self, r);
    }
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
      use BinOp::*;
      if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
        self.place(&b.left);
      }
      visit::visit_expr_binary(self, b);
    }
    fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
      self.place(&a.left);
      visit::visit_expr_assign(self, a);
    }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
      self.visit_expr(&c.body);
    }
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
      self.own.insert(p.ident.to_string());
      visit::visit_pat_ident(self, p);
    }
  }
  let mut v = V::default();
  v.visit_block(b);
  if let Some(c) = cond {
    v.visit_expr(c);
  }
  v.set.iter().filter(|x| !v.own.contains(*x) && *x != "self").cloned().collect::<Vec<_>>().join(" ")
}

fn roles(b: &Block) -> (String, String) {
  struct V {
    acc: String,
    asg: String,
  }
  impl<'ast> Visit<'ast> for V {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
      if (m.method == "push" || m.method == "insert") && self.acc.is_empty() {
        if let Expr::Path(p) = strip(&m.receiver) {
          if let Some(i) = p.path.get_ident() {
            self.acc = i.to_string();
          }
        }
      }
      visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
      if self.asg.is_empty() {
        let l = match strip(&a.left) {
          Expr::Tuple(t) => t.elems.first().cloned(),
          e => Some(e.clone()),
        };
        if let Some(Expr::Path(p)) = l {
          if let Some(i) = p.path.get_ident() {
            self.asg = i.to_string();
          }
        }
      }
      visit::visit_expr_assign(self, a);
    }
  }
  let mut v = V { acc: String::new(), asg: String::new() };
  v.visit_block(b);
  (v.acc, v.asg)
}

fn short(e: &Expr) -> String {
  let s = e.to_token_stream().to_string();
  s.chars().take(80).collect()
}
