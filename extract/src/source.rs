//! Loads the crate: its module tree, types, uses and functions.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

use quote::{ToTokens, quote};
use syn::*;
use syn::Path as Path_;

#[derive(Clone)]
pub struct FnDef {
  pub key: String,
  pub module: Vec<String>,
  pub generics: Generics,
  pub self_ty: Option<Type>,
  pub type_name: Option<String>,
  pub sig: Signature,
  pub block: Block,
  /// the trait that the method implements, if it stays one
  pub trait_: Option<Path_>,
  /// the associated types of the implementation
  pub assoc: Vec<(String, String)>,
}

#[derive(Default)]
pub struct Module {
  pub path: Vec<String>,
  pub uses: Vec<UseTree>,
  pub types: Vec<String>,
  pub children: Vec<Module>,
}

#[derive(Default)]
pub struct Crate {
  pub root: Module,
  pub fns: BTreeMap<String, FnDef>,
  /// types that implement nom's Parser, i.e. `X::Y.parse(input)` may mean Parser::parse
  pub parser_types: BTreeSet<String>,
  pub aliases: crate::pre::Aliases,
  /// names of all free functions
  pub free: BTreeSet<String>,
  /// token texts of the crate's macro_rules
  pub macros: BTreeMap<String, String>,
}

/// Whether the items behind the serde feature are wanted.
pub fn serde_mode() -> bool {
  std::env::var_os("NRBF_SERDE").is_some()
}

/// serde's traits whose implementations are turned into inherent methods; those of SeqAccess stay.
const INHERENT: [&str; 2] = ["Deserializer", "IntoDeserializer"];

/// The attributes under which an item is part of the verified text.
fn kept(attrs: &[Attribute]) -> bool {
  for a in attrs {
    if a.path().is_ident("cfg") {
      let t = a.meta.to_token_stream().to_string();
      if t.contains("test") || t.contains("kani") || (t.contains("serde") && t.contains("not") == serde_mode()) {
        return false;
      }
    }
  }
  true
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
  let mut v = vec![];
  for a in attrs {
    if a.path().is_ident("derive") {
      let _ = a.parse_nested_meta(|m| {
        v.push(m.path.segments.last().unwrap().ident.to_string());
        Ok(())
      });
    }
  }
  v
}

pub fn type_name(t: &Type) -> Option<String> {
  match t {
    Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
    Type::Reference(r) => type_name(&r.elem),
    _ => None,
  }
}

impl Crate {
  pub fn load(src: &str) -> Crate {
    let mut c = Crate::default();
    let lib = Path::new(src).join("lib.rs");
    // macros first: their names must not be imported
    c.find_macros(Path::new(src));
    let root = c.module(&lib, Path::new(src), vec![]);
    c.root = root;
    c.free = c.fns.values().filter(|f| f.type_name.is_none()).map(|f| f.sig.ident.to_string()).collect();
    if serde_mode() {
      // methods are resolved by name
      c.fns.retain(|k, _| ["value::", "remoting_message::", "crate::"].iter().any(|p| k.starts_with(p)));
    }
    c
  }

  fn find_macros(&mut self, dir: &Path) {
    for e in std::fs::read_dir(dir).unwrap() {
      let p = e.unwrap().path();
      if p.is_dir() {
        self.find_macros(&p);
      } else if p.extension().is_some_and(|x| x == "rs") {
        let f = parse_file(&std::fs::read_to_string(&p).unwrap()).unwrap();
        crate::pre::collect(&f, &mut self.aliases);
        for i in &f.items {
          if let Item::Macro(m) = i {
            if let Some(id) = &m.ident {
              self.macros.insert(id.to_string(), m.mac.tokens.to_string());
            }
          }
        }
      }
    }
  }

  pub fn broadcasts(&self, path: &[String]) -> &'static str {
    if serde_mode() {
      return "broadcast use {crate::ax::ax_arr, crate::ax::ax_map, crate::sd::only_seq, crate::prelude::ax_vec_len};\n";
    }
    match path[0].as_str() {
      "binary_parser" | "remoting_message" => "broadcast use crate::ax::parser;\n",
      "record" => "broadcast use {crate::ax::ax_arr, crate::ax::ax_map, crate::ax::ax_nz};\n",
      "common" | "combinator" | "data_type" => "broadcast use {crate::ax::ax_nz};\n",
      _ => "",
    }
  }

  fn module(&mut self, file: &Path, dir: &Path, path: Vec<String>) -> Module {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {e}", file.display()));
    let mut f = parse_file(&text).unwrap();
    crate::pre::file(&mut f, &self.aliases);
    self.items(&f.items, dir, path)
  }

  fn items(&mut self, items: &[Item], dir: &Path, path: Vec<String>) -> Module {
    let mut m = Module { path: path.clone(), ..Default::default() };
    for item in items {
      match item {
        Item::Mod(x) if kept(&x.attrs) => {
          let name = x.ident.to_string();
          let mut p = path.clone();
          p.push(name.clone());
          let sub = match &x.content {
            Some((_, items)) => self.items(&items.clone(), &dir.join(&name), p),
            None => {
              let flat: PathBuf = dir.join(format!("{name}.rs"));
              if flat.exists() {
                self.module(&flat, &dir.join(&name), p)
              } else {
                self.module(&dir.join(&name).join("mod.rs"), &dir.join(&name), p)
              }
            },
          };
          m.children.push(sub);
        },
        Item::Use(u) if kept(&u.attrs) => {
          if let Some(t) = self.filter_use(&u.tree, true) {
            m.uses.push(t);
          }
        },
        Item::Struct(s) if kept(&s.attrs) => {
          let d = derives(&s.attrs);
          let mut s2 = s.clone();
          s2.attrs.clear();
          s2.vis = parse_quote!(pub);
          for f in s2.fields.iter_mut() {
            f.attrs.clear();
            f.vis = parse_quote!(pub);
          }
          let copy = if d.iter().any(|x| x == "Copy") { "#[derive(Clone, Copy)]\n" } else { "" };
          m.types.push(format!("{copy}{}", s2.to_token_stream()));
          self.clone_impl(&mut m, &d, &s.ident, &s.generics);
          if d.iter().any(|x| x == "Default") {
            // #[derive(Default)]: every field of these types is an empty collection
            let (g, tg, _) = s.generics.split_for_impl();
            let id = &s.ident;
            let fields: Vec<_> = s
              .fields
              .iter()
              .map(|f| {
                let n = f.ident.as_ref().unwrap();
                let t = type_name(&f.ty).unwrap();
                let t = format_ident(&t);
                quote!(#n: #t::new())
              })
              .collect();
            let dir = path.first().cloned().unwrap_or_default();
            m.types.push(format!(
              "impl{} {}{} {{ pub fn default() -> (r: Self) ensures {}_{}_default(r) {{ {} }} }}",
              g.to_token_stream(),
              id,
              tg.to_token_stream(),
              dir,
              id,
              quote!(#id { #(#fields),* })
            ));
          }
        },
        Item::Const(c) if kept(&c.attrs) && plain_type(&c.ty) => {
          m.types.push(constant(&c.ident, &c.ty, &c.expr));
        },
        Item::Enum(s) if kept(&s.attrs) => {
          let d = derives(&s.attrs);
          let mut s2 = s.clone();
          s2.attrs.clear();
          s2.vis = parse_quote!(pub);
          for v in s2.variants.iter_mut() {
            v.attrs.clear();
            v.discriminant = None;
          }
          let copy = if d.iter().any(|x| x == "Copy") { "#[derive(Clone, Copy)]\n" } else { "" };
          m.types.push(format!("{copy}{}", s2.to_token_stream()));
          self.clone_impl(&mut m, &d, &s.ident, &s.generics);
        },
        Item::Macro(x) if x.mac.path.is_ident("bitflags") => {
          if let Some(t) = bitflags(&x.mac.tokens.to_string()) {
            m.types.push(t);
          }
        },
        Item::Impl(i) if kept(&i.attrs) => {
          if let Some((_, tr, _)) = &i.trait_ {
            let tr_name = tr.segments.last().unwrap().ident.to_string();
            if tr_name == "Parser" {
              if let Some(n) = type_name(&i.self_ty) {
                self.parser_types.insert(n);
              }
            }
            if serde_mode() && (INHERENT.contains(&tr_name.as_str()) || tr_name == "SeqAccess") {
              self.serde_impl(i, &tr_name, &path);
            }
            continue;
          }
          let tn = type_name(&i.self_ty);
          for it in &i.items {
            if let ImplItem::Const(c) = it {
              if kept(&c.attrs) && plain_type(&c.ty) {
                let (g, ty) = (&i.generics, &i.self_ty);
                m.types.push(format!("impl{} {} {{ {} }}", g.to_token_stream(), ty.to_token_stream(), constant(&c.ident, &c.ty, &c.expr)));
              }
            }
            if let ImplItem::Fn(f) = it {
              if !kept(&f.attrs) {
                continue;
              }
              let key = format!(
                "{}::{}::{}",
                path.first().cloned().unwrap_or_else(|| "crate".into()),
                tn.clone().unwrap_or_default(),
                f.sig.ident
              );
              self.fns.insert(
                key.clone(),
                FnDef {
                  key,
                  module: path.clone(),
                  generics: i.generics.clone(),
                  self_ty: Some((*i.self_ty).clone()),
                  type_name: tn.clone(),
                  sig: f.sig.clone(),
                  block: f.block.clone(),
                  trait_: None,
                  assoc: vec![],
                },
              );
            }
          }
        },
        Item::Fn(f) if kept(&f.attrs) => {
          let key = format!("{}::{}", path.first().cloned().unwrap_or_else(|| "crate".into()), f.sig.ident);
          self.fns.insert(
            key.clone(),
            FnDef {
              key,
              module: path.clone(),
              generics: Generics::default(),
              self_ty: None,
              type_name: None,
              sig: f.sig.clone(),
              block: (*f.block).clone(),
              trait_: None,
                  assoc: vec![],
            },
          );
        },
        _ => {},
      }
    }
    m
  }

  /// The methods of an implementation of one of serde's traits, those of forward_to_deserialize_any! included.
  fn serde_impl(&mut self, i: &ItemImpl, tr_name: &str, path: &[String]) {
    let Some(tn) = type_name(&i.self_ty) else { return };
    let mut generics = i.generics.clone();
    // type parameters of the trait only become those of the method
    let mut own: Vec<TypeParam> = vec![];
    if tr_name != "SeqAccess" {
      let ty = i.self_ty.to_token_stream().to_string();
      let words: BTreeSet<&str> = ty.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
      let keep = generics.params.clone();
      generics.params = keep
        .into_iter()
        .filter(|p| match p {
          GenericParam::Type(t) if !words.contains(t.ident.to_string().as_str()) => {
            own.push(t.clone());
            false
          },
          _ => true,
        })
        .collect();
      if let Some(w) = &mut generics.where_clause {
        let gone: Vec<String> = own.iter().map(|t| t.ident.to_string()).collect();
        w.predicates = std::mem::take(&mut w.predicates)
          .into_iter()
          .filter(|p| !matches!(p, WherePredicate::Type(t) if type_name(&t.bounded_ty).is_some_and(|n| gone.contains(&n))))
          .collect();
      }
    }
    let assoc: Vec<(String, String)> = i
      .items
      .iter()
      .filter_map(|x| match x {
        ImplItem::Type(t) if t.ident != "Error" => Some((t.ident.to_string(), t.ty.to_token_stream().to_string())),
        _ => None,
      })
      .collect();
    let mut add = |name: &Ident, sig: Signature, block: Block| {
      let key = format!("{}::{}::{}", path.first().cloned().unwrap_or_else(|| "crate".into()), tn, name);
      self.fns.insert(
        key.clone(),
        FnDef {
          key,
          module: path.to_vec(),
          generics: generics.clone(),
          self_ty: Some((*i.self_ty).clone()),
          type_name: Some(tn.clone()),
          sig,
          block,
          assoc: assoc.clone(),
          trait_: (tr_name == "SeqAccess").then(|| i.trait_.clone().unwrap().1),
        },
      );
    };
    for it in &i.items {
      match it {
        ImplItem::Fn(f) if kept(&f.attrs) => {
          let mut sig = f.sig.clone();
          for t in &own {
            sig.generics.params.push(GenericParam::Type(t.clone()));
          }
          if let Some(w) = &i.generics.where_clause {
            for p in &w.predicates {
              if let WherePredicate::Type(t) = p {
                if type_name(&t.bounded_ty).is_some_and(|n| own.iter().any(|o| o.ident == n)) {
                  sig.generics.make_where_clause().predicates.push(p.clone());
                }
              }
            }
          }
          add(&f.sig.ident, sig, f.block.clone());
        },
        ImplItem::Macro(m) if m.mac.path.segments.last().unwrap().ident == "forward_to_deserialize_any" => {
          // deserialize_x(self, [more,] visitor) is deserialize_any(self, visitor)
          let mut v = quote!('de);
          let mut names = vec![];
          let toks: Vec<_> = m.mac.tokens.clone().into_iter().collect();
          let mut k = 0;
          while k < toks.len() {
            match &toks[k] {
              proc_macro2::TokenTree::Punct(p) if p.as_char() == '<' => {
                let mut t = quote!();
                k += 1;
                while k < toks.len() && !matches!(&toks[k], proc_macro2::TokenTree::Punct(p) if p.as_char() == '>' || p.as_char() == ',') {
                  t.extend(std::iter::once(toks[k].clone()));
                  k += 1;
                }
                // `<'de, V: Visitor<'de>>`
                while k < toks.len() && !matches!(&toks[k], proc_macro2::TokenTree::Ident(_)) || matches!(&toks[k], proc_macro2::TokenTree::Ident(i) if i != "bool" && names.is_empty() && toks[k + 1].to_string() == ":") {
                  k += 1;
                }
                v = t;
                continue;
              },
              proc_macro2::TokenTree::Ident(n) => names.push(n.to_string()),
              _ => {},
            }
            k += 1;
          }
          for n in names {
            let extra = match n.as_str() {
              "unit_struct" | "newtype_struct" => quote!(_name: &'static str,),
              "tuple" => quote!(_len: usize,),
              "tuple_struct" => quote!(_name: &'static str, _len: usize,),
              "struct" => quote!(_name: &'static str, _fields: &'static [&'static str],),
              "enum" => quote!(_name: &'static str, _variants: &'static [&'static str],),
              _ => quote!(),
            };
            let id = format_ident(&format!("deserialize_{n}"));
            let f: ItemFn = parse_quote!(fn #id<V: Visitor<#v>>(self, #extra visitor: V) -> Result<V::Value, Self::Error> { self.deserialize_any(visitor) });
            add(&id, f.sig.clone(), (*f.block).clone());
          }
        },
        _ => {},
      }
    }
  }

  fn clone_impl(&self, m: &mut Module, d: &[String], id: &Ident, g: &Generics) {
    if d.iter().any(|x| x == "Clone") {
      let (ig, tg, _) = g.split_for_impl();
      m.types.push(format!(
        "impl{} CloneX for {}{} {{ #[verifier::external_body] fn clone_x(&self) -> (r: Self) {{ unimplemented!() }} }}",
        ig.to_token_stream(),
        id,
        tg.to_token_stream()
      ));
    }
  }

  /// Drops imports from other crates (the prelude provides what is needed of them) and of macros.
  fn filter_use(&self, t: &UseTree, top: bool) -> Option<UseTree> {
    match t {
      UseTree::Path(p) => {
        let root = p.ident.to_string();
        if top && root == "serde" && serde_mode() {
          let sub = self.filter_use(&p.tree, false)?;
          return Some(parse_quote!(crate::prelude::serde::#sub));
        }
        if top && ["std", "core", "alloc", "nom", "serde", "bitflags", "rust_decimal"].contains(&root.as_str()) {
          return None;
        }
        let sub = self.filter_use(&p.tree, false)?;
        let mut p = p.clone();
        p.tree = Box::new(sub);
        Some(UseTree::Path(p))
      },
      UseTree::Name(n) => {
        let name = n.ident.to_string();
        // types whose definition is behind the serde feature
        if self.macros.contains_key(&name) || (name.ends_with("Deserializer") && !serde_mode()) || name == "forward_to_deserialize_any" {
          return None;
        }
        Some(t.clone())
      },
      UseTree::Rename(_) | UseTree::Glob(_) => Some(t.clone()),
      UseTree::Group(g) => {
        let mut g = g.clone();
        let items: Vec<UseTree> = g.items.iter().filter_map(|x| self.filter_use(x, top)).collect();
        if items.is_empty() {
          return None;
        }
        g.items = items.into_iter().collect();
        Some(UseTree::Group(g))
      },
    }
  }

  /// Drops imports of functions that are not emitted because they have no contract.
  pub fn without(t: &UseTree, dropped: &dyn Fn(&str) -> bool) -> Option<UseTree> {
    match t {
      UseTree::Path(p) => {
        let sub = Self::without(&p.tree, dropped)?;
        let mut p = p.clone();
        p.tree = Box::new(sub);
        Some(UseTree::Path(p))
      },
      UseTree::Name(n) if dropped(&n.ident.to_string()) => None,
      UseTree::Group(g) => {
        let mut g = g.clone();
        let items: Vec<UseTree> = g.items.iter().filter_map(|x| Self::without(x, dropped)).collect();
        if items.is_empty() {
          return None;
        }
        g.items = items.into_iter().collect();
        Some(UseTree::Group(g))
      },
      _ => Some(t.clone()),
    }
  }

  pub fn find_method(&self, name: &str) -> Vec<&FnDef> {
    self.fns.values().filter(|f| f.sig.ident == name && f.type_name.is_some()).collect()
  }

  pub fn find_assoc(&self, ty: &str, name: &str) -> Vec<&FnDef> {
    self.fns.values().filter(|f| f.sig.ident == name && f.type_name.as_deref() == Some(ty)).collect()
  }

  pub fn find_free(&self, name: &str) -> Vec<&FnDef> {
    self.fns.values().filter(|f| f.sig.ident == name && f.type_name.is_none()).collect()
  }
}

/// constants of these types are kept
fn plain_type(t: &Type) -> bool {
  matches!(t, Type::Path(_))
    && matches!(
      type_name(t).as_deref(),
      Some("u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "bool" | "char")
    )
}

fn constant(id: &Ident, ty: &Type, e: &Expr) -> String {
  let e = e.to_token_stream().to_string().replace(":: MAX as", "::MAX as");
  format!("pub const {id}: {} = {e};", ty.to_token_stream())
}

pub fn format_ident(s: &str) -> Ident {
  Ident::new(s, proc_macro2::Span::call_site())
}

/// `bitflags! { pub struct Name: ty { const A = 1; ... } }`
fn bitflags(t: &str) -> Option<String> {
  let f: proc_macro2::TokenStream = t.parse().ok()?;
  let toks: Vec<_> = f.into_iter().collect();
  let mut name = None;
  let mut ty = None;
  let mut body = None;
  for (i, t) in toks.iter().enumerate() {
    if t.to_string() == "struct" {
      name = Some(toks.get(i + 1)?.to_string());
      ty = Some(toks.get(i + 3)?.to_string());
      body = toks.get(i + 4).cloned();
    }
  }
  let (name, ty) = (name?, ty?);
  let proc_macro2::TokenTree::Group(g) = body? else { return None };
  let b: Vec<_> = g.stream().into_iter().collect();
  let mut consts = String::new();
  let mut i = 0;
  while i < b.len() {
    if b[i].to_string() == "const" {
      let n = b.get(i + 1)?.to_string();
      let mut v = String::new();
      let mut k = i + 3;
      while k < b.len() && b[k].to_string() != ";" {
        v.push_str(&b[k].to_string());
        v.push(' ');
        k += 1;
      }
      consts.push_str(&format!("  pub const {n}: {name} = {name} {{ b: {v} }};\n"));
      i = k;
    }
    i += 1;
  }
  Some(format!("#[derive(Clone, Copy)]\npub struct {name} {{ pub b: {ty} }}\nimpl {name} {{\n{consts}}}\nimpl CloneX for {name} {{ #[verifier::external_body] fn clone_x(&self) -> (r: Self) {{ unimplemented!() }} }}"))
}
