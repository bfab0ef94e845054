//! Locating functions and items in the expanded source.
use quote::ToTokens;
use std::collections::HashMap;
use syn::*;

#[derive(Clone)]
pub struct Found {
    pub sig: Signature,
    pub block: Block,
    pub impl_self: Option<Type>,
    pub impl_trait: Option<Path>,
}

pub fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn header(i: &ItemImpl) -> String {
    let ty = squash(&i.self_ty.to_token_stream().to_string());
    match &i.trait_ {
        Some((_, p, _)) => format!("{}for{}", last_seg(p), ty),
        None => ty,
    }
}

pub fn last_seg(p: &Path) -> String {
    squash(&p.segments.last().unwrap().to_token_stream().to_string())
}

/// module path -> items
pub fn module<'a>(file: &'a File, path: &[&str]) -> std::result::Result<Vec<&'a Item>, String> {
    let mut items: Vec<&Item> = file.items.iter().collect();
    for seg in path {
        let mut next = None;
        for i in items.iter() {
            if let Item::Mod(m) = i {
                if m.ident == seg {
                    if let Some((_, c)) = &m.content {
                        next = Some(c.iter().collect::<Vec<_>>());
                    }
                }
            }
        }
        items = next.ok_or_else(|| format!("lost anchor: module {}", path.join("::")))?;
    }
    Ok(items)
}

pub struct PathSpec {
    pub src: String,
    pub module: Vec<String>,
    pub imp: Option<String>,
    pub name: String,
}

/// `src::mod::mod::<Trait for Type>::name`
pub fn parse_path(p: &str) -> PathSpec {
    let mut segs = vec![];
    let mut cur = String::new();
    let mut depth = 0i32;
    let b: Vec<char> = p.chars().collect();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            '<' => {
                depth += 1;
                cur.push('<')
            }
            '>' => {
                depth -= 1;
                cur.push('>')
            }
            ':' if depth == 0 && i + 1 < b.len() && b[i + 1] == ':' => {
                segs.push(std::mem::take(&mut cur));
                i += 1;
            }
            c => cur.push(c),
        }
        i += 1;
    }
    segs.push(cur);
    let name = segs.pop().unwrap();
    let src = segs.remove(0);
    let mut imp = None;
    if let Some(l) = segs.last() {
        if l.starts_with('<') {
            let l = segs.pop().unwrap();
            imp = Some(squash(&l[1..l.len() - 1]));
        }
    }
    PathSpec { src, module: segs, imp, name }
}

pub fn find_fn(srcs: &HashMap<String, File>, p: &str) -> std::result::Result<Found, String> {
    let ps = parse_path(p);
    let f = srcs.get(&ps.src).ok_or_else(|| format!("no source {}", ps.src))?;
    let mods: Vec<&str> = ps.module.iter().map(|s| s.as_str()).collect();
    let items = module(f, &mods)?;
    for i in items {
        match (i, &ps.imp) {
            (Item::Fn(f), None) if f.sig.ident == ps.name => {
                return Ok(Found { sig: f.sig.clone(), block: (*f.block).clone(), impl_self: None, impl_trait: None })
            }
            (Item::Impl(im), Some(h)) if header(im) == *h => {
                for ii in &im.items {
                    if let ImplItem::Fn(m) = ii {
                        if m.sig.ident == ps.name {
                            return Ok(Found {
                                sig: m.sig.clone(),
                                block: m.block.clone(),
                                impl_self: Some((*im.self_ty).clone()),
                                impl_trait: im.trait_.as_ref().map(|t| t.1.clone()),
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Err(format!("lost anchor: function {p}"))
}

pub fn find_item(srcs: &HashMap<String, File>, p: &str) -> std::result::Result<Item, String> {
    let ps = parse_path(p);
    let f = srcs.get(&ps.src).ok_or_else(|| format!("no source {}", ps.src))?;
    let mods: Vec<&str> = ps.module.iter().map(|s| s.as_str()).collect();
    for i in module(f, &mods)? {
        let ok = match i {
            Item::Struct(s) => s.ident == ps.name,
            Item::Enum(s) => s.ident == ps.name,
            _ => false,
        };
        if ok {
            return Ok(i.clone());
        }
    }
    Err(format!("lost anchor: item {p}"))
}
