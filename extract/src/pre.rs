//! What is rewritten before anything else looks at the source, whatever function it is in: type aliases are replaced by what they stand
//! for, slice patterns by the comparisons of the length and the elements they stand for.

use std::collections::BTreeMap;

use syn::visit_mut::{self, VisitMut};
use syn::*;

/// the type aliases of the crate; None where two have the same name
pub type Aliases = BTreeMap<String, Option<ItemType>>;

pub fn collect(f: &File, out: &mut Aliases) {
  fn items(list: &[Item], out: &mut Aliases) {
    for i in list {
      match i {
        Item::Type(t) => {
          let n = t.ident.to_string();
          let one = if out.contains_key(&n) { None } else { Some(t.clone()) };
          out.insert(n, one);
        },
        Item::Mod(m) => {
          if let Some((_, x)) = &m.content {
            items(x, out);
          }
        },
        _ => (),
      }
    }
  }
  items(&f.items, out)
}

pub fn file(f: &mut File, aliases: &Aliases) {
  if !aliases.is_empty() {
    Alias(aliases, 0).visit_file_mut(f);
  }
  Slices(0).visit_file_mut(f);
}

// ---------------------------------------------------------------- type aliases

struct Alias<'a>(&'a Aliases, usize);

/// puts the arguments of an alias into what it stands for
struct Put(BTreeMap<String, Type>, BTreeMap<String, Lifetime>);

impl VisitMut for Put {
  fn visit_type_mut(&mut self, t: &mut Type) {
    if let Type::Path(p) = t {
      if let (None, Some(i)) = (&p.qself, p.path.get_ident()) {
        if let Some(x) = self.0.get(&i.to_string()) {
          *t = x.clone();
          return;
        }
      }
    }
    visit_mut::visit_type_mut(self, t);
  }
  fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
    if let Some(x) = self.1.get(&l.ident.to_string()) {
      *l = x.clone();
    }
  }
}

impl Alias<'_> {
  fn of(&self, p: &Path) -> Option<Type> {
    let s = p.segments.last()?;
    let a = self.0.get(&s.ident.to_string())?.as_ref()?;
    let (mut ts, mut ls) = (BTreeMap::new(), BTreeMap::new());
    let args: Vec<GenericArgument> = match &s.arguments {
      PathArguments::AngleBracketed(x) => x.args.iter().cloned().collect(),
      _ => vec![],
    };
    let mut tys = args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None });
    let mut lts = args.iter().filter_map(|x| if let GenericArgument::Lifetime(t) = x { Some(t.clone()) } else { None });
    for g in &a.generics.params {
      match g {
        GenericParam::Type(t) => {
          ts.insert(t.ident.to_string(), tys.next().or_else(|| t.default.clone())?);
        },
        GenericParam::Lifetime(l) => {
          ls.insert(l.lifetime.ident.to_string(), lts.next().unwrap_or_else(|| parse_quote!('_)));
        },
        GenericParam::Const(_) => return None,
      }
    }
    let mut t = (*a.ty).clone();
    Put(ts, ls).visit_type_mut(&mut t);
    Some(t)
  }
}

impl VisitMut for Alias<'_> {
  fn visit_type_mut(&mut self, t: &mut Type) {
    if let Type::Path(p) = t {
      if p.qself.is_none() && self.1 < 20 {
        if let Some(x) = self.of(&p.path) {
          *t = x;
          self.1 += 1;
          self.visit_type_mut(t);
          self.1 -= 1;
          return;
        }
      }
    }
    visit_mut::visit_type_mut(self, t);
  }
  /// `Alias::function`, `Alias { .. }`
  fn visit_path_mut(&mut self, p: &mut Path) {
    if let Some(s) = p.segments.first() {
      if let (Some(Some(a)), PathArguments::None) = (self.0.get(&s.ident.to_string()), &s.arguments) {
        if let Type::Path(t) = &*a.ty {
          if p.segments.len() > 1 || a.generics.params.is_empty() {
            let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            let mut q = t.path.clone();
            for s in q.segments.iter_mut() {
              s.arguments = PathArguments::None;
            }
            q.segments.extend(rest);
            *p = q;
          }
        }
      }
    }
    visit_mut::visit_path_mut(self, p);
  }
  fn visit_item_type_mut(&mut self, _: &mut ItemType) {}
}

// ---------------------------------------------------------------- slice patterns

struct Slices(usize);

/// the conditions and bindings of a slice pattern on `v`
struct Parts {
  cond: Expr,
  nested: Vec<(Pat, Expr)>,
  lets: Vec<Stmt>,
}

fn slice_of(p: &Pat) -> Option<&PatSlice> {
  match p {
    Pat::Slice(s) => Some(s),
    Pat::Paren(p) => slice_of(&p.pat),
    Pat::Reference(r) => slice_of(&r.pat),
    _ => None,
  }
}

fn is_rest(p: &Pat) -> bool {
  matches!(p, Pat::Rest(_)) || matches!(p, Pat::Ident(i) if i.subpat.as_ref().is_some_and(|(_, p)| matches!(**p, Pat::Rest(_))))
}

fn parts(p: &PatSlice, v: &Ident) -> Option<Parts> {
  let n = p.elems.len();
  let rest = p.elems.iter().position(is_rest);
  let behind = rest.map_or(0, |r| n - r - 1);
  let lit = |k: usize| -> Expr {
    let l = proc_macro2::Literal::usize_unsuffixed(k);
    parse_quote!(#l)
  };
  let fixed = lit(n - rest.is_some() as usize);
  let mut cond: Expr = match rest {
    None => parse_quote!(#v.len() == #fixed),
    Some(_) => parse_quote!(#v.len() >= #fixed),
  };
  let (mut nested, mut lets) = (vec![], vec![]);
  for (k, e) in p.elems.iter().enumerate() {
    let at: Expr = match rest {
      Some(r) if k > r => {
        let back = lit(n - k);
        parse_quote!(#v.len() - #back)
      },
      _ => lit(k),
    };
    match e {
      _ if is_rest(e) => {
        if let Pat::Ident(i) = e {
          if i.by_ref.is_some() || i.mutability.is_some() {
            return None;
          }
          let (x, b) = (&i.ident, lit(behind));
          lets.push(if behind == 0 { parse_quote!(let #x = &#v[#at..];) } else { parse_quote!(let #x = &#v[#at..#v.len() - #b];) });
        }
      },
      Pat::Wild(_) => (),
      Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() && !i.ident.to_string().starts_with(char::is_uppercase) => {
        let x = &i.ident;
        lets.push(parse_quote!(let #x = &#v[#at];));
      },
      Pat::Reference(r) if matches!(&*r.pat, Pat::Ident(i) if i.subpat.is_none() && i.mutability.is_none()) => {
        let x = &r.pat;
        lets.push(parse_quote!(let #x = #v[#at];));
      },
      Pat::Lit(l) => cond = parse_quote!(#cond && #v[#at] == #l),
      e => nested.push((e.clone(), parse_quote!(&#v[#at]))),
    }
  }
  Some(Parts { cond, nested, lets })
}

impl Slices {
  fn name(&mut self) -> Ident {
    self.0 += 1;
    Ident::new(&format!("__sl{}", self.0), proc_macro2::Span::call_site())
  }
  /// if `p` matches `v`, then `then`, else `els`
  fn test(&mut self, p: &PatSlice, v: &Ident, then: Expr, els: Expr) -> Option<Expr> {
    let parts = parts(p, v)?;
    let lets = &parts.lets;
    let mut then: Expr = if lets.is_empty() { then } else { parse_quote!({ #(#lets)* #then }) };
    for (p, e) in parts.nested.iter().rev() {
      then = parse_quote!(if let #p = #e { #then } else { #els });
    }
    let c = &parts.cond;
    Some(parse_quote!(if #c { #then } else { #els }))
  }
}

impl VisitMut for Slices {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    visit_mut::visit_expr_mut(self, e);
    let new = match e {
      Expr::If(i) => match &*i.cond {
        Expr::Let(l) => slice_of(&l.pat).cloned().and_then(|p| {
          let v = self.name();
          let x = &l.expr;
          let then = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
          let els: Expr = i.else_branch.as_ref().map_or(parse_quote!({}), |(_, e)| (**e).clone());
          let t = self.test(&p, &v, then, els)?;
          Some(parse_quote!({ let #v = #x; #t }))
        }),
        _ => None,
      },
      Expr::Match(m) if m.arms.iter().any(|a| slice_of(&a.pat).is_some()) && m.arms.iter().all(|a| a.guard.is_none()) => {
        let v = self.name();
        let mut out: Option<Expr> = None;
        let last = m.arms.len() - 1;
        let mut ok = true;
        for (k, a) in m.arms.iter().enumerate().rev() {
          let b = (*a.body).clone();
          out = match (&a.pat, slice_of(&a.pat), out) {
            // the last arm of a match matches whatever is left
            (_, Some(p), None) if k == last => parts(p, &v).filter(|x| x.nested.is_empty()).map(|x| {
              let lets = x.lets;
              parse_quote!({ #(#lets)* #b })
            }),
            (_, Some(p), Some(o)) => self.test(p, &v, b, o),
            (Pat::Wild(_), None, None) if k == last => Some(b),
            (Pat::Ident(i), None, None) if k == last => {
              let x = &i.ident;
              Some(parse_quote!({ let #x = #v; #b }))
            },
            _ => None,
          };
          if out.is_none() {
            ok = false;
            break;
          }
        }
        let x = &m.expr;
        out.filter(|_| ok).map(|t| parse_quote!({ let #v = #x; #t }))
      },
      _ => None,
    };
    if let Some(x) = new {
      *e = x;
    }
  }
  fn visit_block_mut(&mut self, b: &mut Block) {
    visit_mut::visit_block_mut(self, b);
    let mut out = vec![];
    for s in std::mem::take(&mut b.stmts) {
      if let Stmt::Local(l) = &s {
        if let (Some(p), Some(LocalInit { expr, diverge: Some((_, d)), .. })) = (slice_of(&l.pat), &l.init) {
          let v = self.name();
          if let Some(p) = parts(p, &v).filter(|p| p.nested.is_empty()) {
            let (c, lets) = (p.cond, p.lets);
            out.push(parse_quote!(let #v = #expr;));
            out.push(parse_quote!(if !(#c) { #d }));
            out.extend(lets);
            continue;
          }
        }
      }
      out.push(s);
    }
    b.stmts = out;
  }
}
