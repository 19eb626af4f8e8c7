//! Loads XSD schemas with the code under test and reports, per schema, what it did:
//! the generated Rust source, the public type surface of that source, the dependency closure
//! of every root, or the error / panic. One JSON object per schema on stdout.
//!
//! usage: vloader LIST   -- LIST: one schema per line: `<id>\t<main.xsd>\t<out.rs>`

use std::collections::HashSet;
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

use quote::ToTokens;
use xsd_internal::xsd::schema::Schema;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(items: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", items.into_iter().collect::<Vec<_>>().join(","))
}

fn ident(i: &syn::Ident) -> String {
    let s = i.to_string();
    s.strip_prefix("r#").map(String::from).unwrap_or(s)
}

/// Type rendered with the last path segment only (`::std::string::String` = `String`).
fn ty(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => {
            let seg = p.path.segments.last().unwrap();
            let mut s = ident(&seg.ident);
            if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                let inner: Vec<String> = a
                    .args
                    .iter()
                    .map(|a| match a {
                        syn::GenericArgument::Type(t) => ty(t),
                        other => other.to_token_stream().to_string(),
                    })
                    .collect();
                s = format!("{}<{}>", s, inner.join(","));
            }
            s
        }
        syn::Type::Tuple(t) => format!("({})", t.elems.iter().map(ty).collect::<Vec<_>>().join(",")),
        syn::Type::Paren(p) => ty(&p.elem),
        syn::Type::Group(p) => ty(&p.elem),
        other => other.to_token_stream().to_string(),
    }
}

fn docs(attrs: &[syn::Attribute]) -> String {
    let mut out = Vec::new();
    for a in attrs {
        if a.path().is_ident("doc") {
            if let syn::Meta::NameValue(nv) = &a.meta {
                if let syn::Expr::Lit(syn::ExprLit {
                    lit: syn::Lit::Str(s),
                    ..
                }) = &nv.value
                {
                    out.push(s.value());
                }
            }
        }
    }
    // (an empty doc comment is one, too)
    if !out.is_empty() && out.iter().all(|d| d.is_empty()) {
        return "<empty>".to_string();
    }
    out.join("\n")
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut out = Vec::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                out.push(ident(&m.path.segments.last().unwrap().ident));
                Ok(())
            });
        }
    }
    out
}

fn fields(fs: &syn::Fields) -> String {
    arr(fs.iter().map(|f| {
        format!(
            "{{\"name\":{},\"ty\":{},\"doc\":{},\"pub\":{}}}",
            js(&f.ident.as_ref().map(ident).unwrap_or_default()),
            js(&ty(&f.ty)),
            js(&docs(&f.attrs)),
            matches!(f.vis, syn::Visibility::Public(_))
        )
    }))
}

fn surface(file: &syn::File) -> String {
    let mut types = Vec::new();
    for it in &file.items {
        match it {
            syn::Item::Struct(s) if matches!(s.vis, syn::Visibility::Public(_)) => {
                let kind = match s.fields {
                    syn::Fields::Unnamed(_) => "tuple",
                    _ => "struct",
                };
                types.push(format!(
                    "{{\"name\":{},\"kind\":\"{}\",\"doc\":{},\"fields\":{},\"variants\":[],\"derives\":{}}}",
                    js(&ident(&s.ident)),
                    kind,
                    js(&docs(&s.attrs)),
                    fields(&s.fields),
                    arr(derives(&s.attrs).iter().map(|d| js(d)))
                ));
            }
            syn::Item::Enum(e) if matches!(e.vis, syn::Visibility::Public(_)) => {
                types.push(format!(
                    "{{\"name\":{},\"kind\":\"enum\",\"doc\":{},\"fields\":[],\"variants\":{},\"derives\":{}}}",
                    js(&ident(&e.ident)),
                    js(&docs(&e.attrs)),
                    arr(e.variants.iter().map(|v| format!(
                        "{{\"name\":{},\"doc\":{},\"fields\":{}}}",
                        js(&ident(&v.ident)),
                        js(&docs(&v.attrs)),
                        fields(&v.fields)
                    ))),
                    arr(derives(&e.attrs).iter().map(|d| js(d)))
                ));
            }
            _ => {}
        }
    }
    arr(types)
}

fn type_names(file: &syn::File) -> Vec<String> {
    let mut names: Vec<String> = file
        .items
        .iter()
        .filter_map(|it| match it {
            syn::Item::Struct(s) => Some(ident(&s.ident)),
            syn::Item::Enum(s) => Some(ident(&s.ident)),
            _ => None,
        })
        .collect();
    names.sort();
    names
}

fn one(id: &str, path: &str, out: &str) -> String {
    let schema = match Schema::parse_file(path) {
        Ok(s) => s,
        Err(e) => {
            return format!(
                "{{\"id\":{},\"status\":\"error\",\"err\":{},\"msg\":{}}}",
                js(id),
                js(&format!("{:?}", e)),
                js(&e.to_string())
            )
        }
    };
    let code = match schema.generate_all() {
        Ok(c) => c,
        Err(e) => {
            return format!(
                "{{\"id\":{},\"status\":\"generr\",\"err\":{},\"msg\":{}}}",
                js(id),
                js(&format!("{:?}", e)),
                js(&e.to_string())
            )
        }
    };
    let text = code.to_string();
    fs::write(out, &text).unwrap();
    let file = match syn::parse2::<syn::File>(code) {
        Ok(f) => f,
        Err(e) => {
            return format!(
                "{{\"id\":{},\"status\":\"unparsable\",\"err\":{}}}",
                js(id),
                js(&e.to_string())
            )
        }
    };

    // dependency closures: every element on its own, and all elements with one shared
    // `already_generated` set
    let mut names: Vec<_> = schema.elements().map(|(n, _)| n).collect();
    names.sort_by_key(|n| (n.name.clone(), format!("{:?}", n.namespace)));
    let mut closures = Vec::new();
    let mut shared = HashSet::new();
    let mut all_shared: Vec<String> = Vec::new();
    for n in &names {
        let mut set = HashSet::new();
        let c = match schema.generate_element_and_dependencies(n, &mut set) {
            Ok(ts) => match syn::parse2::<syn::File>(ts) {
                Ok(f) => arr(type_names(&f).iter().map(|s| js(s))),
                Err(e) => js(&format!("unparsable: {}", e)),
            },
            Err(e) => js(&format!("error: {:?}", e)),
        };
        let sh = match schema.generate_element_and_dependencies(n, &mut shared) {
            Ok(ts) => match syn::parse2::<syn::File>(ts) {
                Ok(f) => {
                    all_shared.extend(type_names(&f));
                    String::new()
                }
                Err(e) => format!("unparsable: {}", e),
            },
            Err(e) => format!("error: {:?}", e),
        };
        closures.push(format!(
            "{{\"name\":{},\"ns\":{},\"types\":{},\"shared\":{}}}",
            js(&n.name),
            js(&format!("{:?}", n.namespace)),
            c,
            js(&sh)
        ));
    }
    all_shared.sort();
    format!(
        "{{\"id\":{},\"status\":\"ok\",\"surface\":{},\"closures\":{},\"all_shared\":{}}}",
        js(id),
        surface(&file),
        arr(closures),
        arr(all_shared.iter().map(|s| js(s)))
    )
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let list = fs::read_to_string(std::env::args().nth(1).expect("LIST")).unwrap();
    let stdout = std::io::stdout();
    for line in list.lines() {
        let mut p = line.split('\t');
        let (id, path, out) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap());
        let r = catch_unwind(AssertUnwindSafe(|| one(id, path, out))).unwrap_or_else(|e| {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            format!(
                "{{\"id\":{},\"status\":\"panic\",\"err\":{}}}",
                js(id),
                js(&msg)
            )
        });
        let mut o = stdout.lock();
        writeln!(o, "{}", r).unwrap();
        o.flush().unwrap();
    }
}
