//! Reads XSD schemas with the code under test and prints the model of each: every definition with
//! its members, occurrences, facets, values and documentation. One JSON object per schema on stdout.
//!
//! usage: vmodel LIST   -- LIST: one schema per line: `<id>\t<main.xsd>\t<unused>`

use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

use xsd_internal::ast::{
    Attribute, ElementContent, Leaf, LeafContent, MaxOccurs, Name, Namespace, Restriction, Root,
};
use xsd_internal::xsd::context::SchemaContext;
use xsd_internal::xsd::schema::Schema;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(items: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", items.into_iter().collect::<Vec<_>>().join(","))
}

fn docs(d: &Option<String>) -> String {
    js(d.as_deref().unwrap_or_default())
}

fn uri(ns: &Namespace, cx: &SchemaContext) -> String {
    match ns {
        Namespace::None => String::new(),
        Namespace::Id(id) => cx.namespaces.get_by_id(*id).namespace.clone(),
    }
}

fn qname(n: &Name, cx: &SchemaContext) -> String {
    format!("{{\"n\":{},\"u\":{}}}", js(&n.name), js(&uri(&n.namespace, cx)))
}

fn content(c: &LeafContent, cx: &SchemaContext) -> String {
    let none = Name::new("", Namespace::None);
    let (k, v, q) = match c {
        LeafContent::Literal(l) => ("lit", l.xsd_name().to_string(), &none),
        LeafContent::Fixed(f) => ("fixed", f.clone(), &none),
        LeafContent::Named(n) => ("named", String::new(), n),
    };
    format!("{{\"c\":\"{}\",\"v\":{},\"q\":{}}}", k, js(&v), qname(q, cx))
}

fn facet(r: &Restriction) -> String {
    let (t, v) = match r {
        Restriction::Length(n) => ("length", n.to_string()),
        Restriction::MinLength(n) => ("minLength", n.to_string()),
        Restriction::MaxLength(n) => ("maxLength", n.to_string()),
        Restriction::Pattern(p) => ("pattern", p.clone()),
        Restriction::MinInclusive(d) => ("minInclusive", d.to_string()),
        Restriction::MaxInclusive(d) => ("maxInclusive", d.to_string()),
        Restriction::FractionDigits(n) => ("fractionDigits", n.to_string()),
        Restriction::TotalDigits(n) => ("totalDigits", n.to_string()),
    };
    format!("{{\"t\":\"{}\",\"v\":{}}}", t, js(&v))
}

fn leaf(l: &Leaf, cx: &SchemaContext) -> String {
    let max = match l.max_occurs {
        MaxOccurs::Number(n) => n as i64,
        MaxOccurs::Unbounded => -1,
    };
    format!(
        "{{\"q\":{},\"c\":{},\"unord\":{},\"virt\":{},\"min\":{},\"max\":{},\"docs\":{}}}",
        qname(&l.name, cx),
        content(&l.definition.content, cx),
        l.is_unordered,
        l.is_virtual,
        l.min_occurs.0,
        max,
        docs(&l.definition.docs)
    )
}

fn attr(a: &Attribute, cx: &SchemaContext) -> String {
    format!(
        "{{\"q\":{},\"c\":{},\"opt\":{},\"dflt\":{},\"docs\":{}}}",
        qname(&a.name, cx),
        content(&a.content, cx),
        a.is_optional,
        arr(a.default.iter().map(|d| js(d))),
        docs(&a.docs)
    )
}

fn root(n: &Name, r: &Root, cx: &SchemaContext) -> String {
    let (k, d, rest) = match r {
        Root::Leaf(def) => (
            "leaf",
            docs(&def.docs),
            format!(
                "\"c\":{},\"fs\":{}",
                content(&def.content, cx),
                arr(def.restrictions.iter().map(facet))
            ),
        ),
        Root::Enum(vals) => (
            "enum",
            js(""),
            format!("\"vals\":{}", arr(vals.iter().map(|v| js(&v.name)))),
        ),
        Root::Choice(def) => (
            "choice",
            docs(&def.docs),
            format!("\"vars\":{}", arr(def.variants.iter().map(|l| leaf(l, cx)))),
        ),
        Root::Element(def) => {
            let (ck, ln, lc, leaves) = match &def.content {
                None => ("none", vec![], vec![], vec![]),
                Some(ElementContent::Leaf(name, d)) => (
                    "leaf",
                    vec![qname(name, cx)],
                    vec![content(&d.content, cx)],
                    vec![],
                ),
                Some(ElementContent::Leaves(ls)) => (
                    "leaves",
                    vec![],
                    vec![],
                    ls.iter().map(|l| leaf(l, cx)).collect(),
                ),
            };
            (
                "elem",
                docs(&def.docs),
                format!(
                    "\"ck\":\"{}\",\"ln\":{},\"lc\":{},\"leaves\":{},\"attrs\":{}",
                    ck,
                    arr(ln),
                    arr(lc),
                    arr(leaves),
                    arr(def.attributes.iter().map(|a| attr(a, cx)))
                ),
            )
        }
    };
    format!("{{\"q\":{},\"k\":\"{}\",\"docs\":{},{}}}", qname(n, cx), k, d, rest)
}

/// The model, with everything in an order that does not depend on the reading.
fn model(s: &Schema) -> String {
    let cx = s.context();
    let mut roots: Vec<String> = s.elements().map(|(n, r)| root(n, r, cx)).collect();
    roots.sort();
    let mut nss: Vec<String> = cx.namespaces.iter().map(|(_, d)| js(&d.namespace)).collect();
    nss.sort();
    let prefixes: std::collections::HashSet<_> = cx.namespaces.iter().map(|(_, d)| &d.prefix).collect();
    format!(
        "\"tns\":{},\"nss\":{},\"prefixes\":{},\"model\":{}",
        js(&uri(&cx.target_namespace, cx)),
        arr(nss),
        prefixes.len(),
        arr(roots)
    )
}

fn one(id: &str, path: &str) -> String {
    let path = Path::new(path);
    let by_file = Schema::parse_file(path);
    let data = fs::read_to_string(path).ok();
    // the same schema as text, and as a tree
    let by_text = data.as_deref().map(|d| Schema::parse(d, path));
    let by_tree = data.as_deref().and_then(|d| roxmltree::Document::parse(d).ok().map(|doc| {
        let node = doc.root_element().into();
        Schema::parse_schema(&node, path.parent().unwrap()).map_err(|_| ())
    }));
    match by_file {
        Err(e) => {
            let mut odd = Vec::new();
            match by_text {
                Some(Ok(_)) => odd.push(js("Schema::parse accepts what Schema::parse_file refuses")),
                Some(Err(x)) if x.to_string() != e.to_string() => {
                    odd.push(js(&format!("Schema::parse reports {}, Schema::parse_file {}", x, e)))
                }
                _ => {}
            }
            if let Some(Ok(_)) = by_tree {
                odd.push(js("Schema::parse_schema accepts what Schema::parse_file refuses"));
            }
            format!(
                "{{\"id\":{},\"status\":\"error\",\"err\":{},\"msg\":{},\"odd\":{}}}",
                js(id),
                js(&format!("{:?}", e)),
                js(&e.to_string()),
                arr(odd)
            )
        }
        Ok(s) => {
            let m = model(&s);
            let mut odd = Vec::new();
            match by_text.map(|r| r.map(|s| model(&s))) {
                Some(Ok(x)) if x == m => {}
                Some(Ok(x)) => odd.push(js(&format!("Schema::parse gives another model: {}", x))),
                Some(Err(e)) => odd.push(js(&format!("Schema::parse refuses: {:?}", e))),
                None => {}
            }
            match by_tree.map(|r| r.map(|s| model(&s))) {
                Some(Ok(x)) if x == m => {}
                Some(Ok(x)) => odd.push(js(&format!("Schema::parse_schema gives another model: {}", x))),
                Some(Err(_)) => odd.push(js("Schema::parse_schema refuses")),
                None => {}
            }
            format!("{{\"id\":{},\"status\":\"ok\",\"odd\":{},{}}}", js(id), arr(odd), m)
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let list = fs::read_to_string(std::env::args().nth(1).expect("LIST")).unwrap();
    let stdout = std::io::stdout();
    for line in list.lines() {
        let mut p = line.split('\t');
        let (id, path) = (p.next().unwrap(), p.next().unwrap());
        let r = catch_unwind(AssertUnwindSafe(|| one(id, path))).unwrap_or_else(|e| {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            format!("{{\"id\":{},\"status\":\"panic\",\"err\":{}}}", js(id), js(&msg))
        });
        let mut o = stdout.lock();
        writeln!(o, "{}", r).unwrap();
        o.flush().unwrap();
    }
}
