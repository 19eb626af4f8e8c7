//! Drives the runtime part of the library (document cursor, element writer) through histories of
//! calls. It knows nothing about what is right: `tree` compares with a table that TLC produced,
//! `rec` records what happened, `write` executes given histories and prints the output.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use xsd::decode::{decode, Document, FromXmlError, Node};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
type Q = (String, Option<String>);
fn names(s: &str) -> Vec<Q> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let (n, u) = x.split_once('|').unwrap();
            (unhex(n), if u.is_empty() { None } else { Some(unhex(u)) })
        })
        .collect()
}
fn missing(e: FromXmlError, q: &Q) -> i64 {
    match e {
        FromXmlError::MissingElement { name, namespace } if name == q.0 && namespace == q.1 => 0,
        _ => -2,
    }
}
fn id(n: &Node) -> i64 {
    n.attribute("id").and_then(|x| x.parse().ok()).unwrap_or(-1)
}
/// One call; peek gives 0/1, the others the number of the element they return (0: none).
fn call<'b>(n: &'b Node<'_>, op: usize, q: &Q, alt: bool) -> (i64, Option<Node<'b>>) {
    let u = q.1.as_deref();
    let r = match (op, alt) {
        (0, _) => return (n.peek_child(&q.0, u) as i64, None),
        (1, false) => n.next_child(&q.0, u),
        (1, true) => match n.try_next_child(&q.0, u) {
            Ok(x) => Some(x),
            Err(e) => return (missing(e, q), None),
        },
        (_, false) => n.child(&q.0, u),
        (_, true) => match n.try_child(&q.0, u) {
            Ok(x) => Some(x),
            Err(e) => return (missing(e, q), None),
        },
    };
    match r {
        Some(x) => (id(&x), Some(x)),
        None => (0, None),
    }
}

/// tree <depth>; stdin: "N names", then per document "W <hex xml>" and "T state op name out state".
fn tree(depth: usize) {
    let mut qs: Vec<Q> = vec![];
    let mut docs: Vec<(String, Vec<Vec<(i64, usize)>>)> = vec![];
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "N" => qs = names(f[1]),
            "W" => docs.push((unhex(f[1]), vec![])),
            "T" => {
                let v: Vec<i64> = f[1..].iter().map(|x| x.parse().unwrap()).collect();
                let t = &mut docs.last_mut().unwrap().1;
                let nops = 3 * qs.len();
                while t.len() <= v[0] as usize {
                    t.push(vec![(-9, 0); nops]);
                }
                t[v[0] as usize][v[1] as usize * qs.len() + v[2] as usize] = (v[3], v[4] as usize);
            }
            _ => {}
        }
    }
    let nops = 3 * qs.len();
    let mut total: u64 = 0;
    let docs = std::sync::Arc::new(docs);
    let qs = std::sync::Arc::new(qs);
    let ths: Vec<_> = (0..8)
        .map(|k| {
            let (docs, qs) = (docs.clone(), qs.clone());
            std::thread::spawn(move || {
                let mut n: u64 = 0;
                let mut bad = 0;
                for (di, (xml, table)) in docs.iter().enumerate() {
                    if di % 8 != k {
                        continue;
                    }
                    let mut hist = vec![0usize; depth];
                    let mut len = depth;
                    let root = match decode(xml) { Ok(d) => d, Err(e) => { println!("BAD {} [] error {}", di, js(&e.to_string())); continue } };
                    loop {
                        n += 1;
                        let (mut st, mut at) = (0usize, 0usize);
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let node = root.child("r", None)?;
                            for (i, &o) in hist.iter().enumerate() {
                                at = i;
                                let (want, to) = table[st][o];
                                let got = call(&node, o / qs.len(), &qs[o % qs.len()], (i + o) % 2 == 1).0;
                                if got != want {
                                    return Some((i, want, got));
                                }
                                st = to;
                            }
                            Some((depth, 0, 0))
                        }));
                        let fail = match r {
                            Ok(Some((i, _, _))) if i == depth => None,
                            Ok(Some((i, w, g))) => { at = i; Some(format!("{{\"want\":{},\"got\":{}}}", w, g)) }
                            Ok(None) => Some("\"no root\"".to_string()),
                            Err(_) => Some("\"panic\"".to_string()),
                        };
                        if let Some(f) = fail {
                            println!("BAD {} {:?} {}", di, &hist[..=at.min(depth - 1)], f.replace(' ', "_"));
                            bad += 1;
                            if bad > 5 {
                                return n;
                            }
                        }
                        // the next history
                        while len > 0 && hist[len - 1] + 1 == nops {
                            hist[len - 1] = 0;
                            len -= 1;
                        }
                        if len == 0 {
                            break;
                        }
                        hist[len - 1] += 1;
                        len = depth;
                    }
                }
                n
            })
        })
        .collect();
    for t in ths {
        total += t.join().unwrap();
    }
    println!("TOTAL {}", total);
}

struct Rng(u64);
impl Rng {
    fn below(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        ((self.0 >> 11) % n as u64) as usize
    }
}
fn ev(op: &str, h: usize, n: &str, u: &str, out: &str) -> String {
    format!("{{\"op\":\"{}\",\"h\":{},\"n\":{},\"u\":{},\"out\":{}}}", op, h, js(n), js(u), out)
}
/// rec; stdin: "<hex xml> <names> <attribute names> <calls> <seed>"; one line of events per line.
fn rec() {
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let f: Vec<&str> = l.split(' ').collect();
        let xml = unhex(f[0]);
        let qs = names(f[1]);
        let at: Vec<String> = f[2].split(',').map(unhex).collect();
        let calls: usize = f[3].parse().unwrap();
        let mut rng = Rng(f[4].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1);
        let mut evs: Vec<String> = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| {
            let doc: &'static Document<'static> = match decode(Box::leak(xml.into_boxed_str())) {
                Ok(d) => Box::leak(Box::new(d)),
                Err(e) => {
                    evs.push(ev("error", 0, &e.to_string(), "", "0"));
                    return;
                }
            };
            let mut hs: Vec<&'static Node<'static>> = vec![];
            for i in 0..calls {
                let q = &qs[rng.below(qs.len())];
                let u = q.1.as_deref().unwrap_or("");
                if hs.is_empty() {
                    let r = if rng.below(2) == 0 { doc.child(&q.0, q.1.as_deref()) } else { doc.try_child(&q.0, q.1.as_deref()).ok() };
                    evs.push(ev("root", 0, &q.0, u, &r.as_ref().map(id).unwrap_or(0).to_string()));
                    if let Some(x) = r {
                        hs.push(Box::leak(Box::new(x)));
                    } else if i > 200 {
                        break;
                    }
                    continue;
                }
                let h = if rng.below(3) == 0 { hs.len() - 1 } else if rng.below(3) == 0 { 0 } else { rng.below(hs.len()) };
                match rng.below(11) {
                    10 => {
                        let r = hs[h].range();
                        evs.push(ev("range", h + 1, "", "", &format!("[{},{}]", r.start, r.end)));
                    }
                    0 => {
                        let a = &at[rng.below(at.len())];
                        let v = if rng.below(2) == 0 {
                            hs[h].attribute(a)
                        } else {
                            match hs[h].try_attribute(a) {
                                Ok(v) => Some(v),
                                Err(FromXmlError::MissingAttribute { name }) if name == *a => None,
                                Err(_) => Some("?wrong error"),
                            }
                        };
                        let v = v.map(|v| format!("[{}]", js(v))).unwrap_or("[]".into());
                        evs.push(ev("attr", h + 1, a, "", &v));
                    }
                    1 => {
                        let v = match hs[h].text() {
                            Ok(s) => format!("[{}]", js(s)),
                            Err(FromXmlError::TextExpected { .. }) => "[]".to_string(),
                            Err(e) => format!("[\"?\",{}]", js(&e.to_string())),
                        };
                        evs.push(ev("text", h + 1, "", "", &v));
                    }
                    o => {
                        let op = if o < 5 { 0 } else if o < 8 { 1 } else { 2 };
                        let (out, x) = call(hs[h], op, q, rng.below(2) == 0);
                        evs.push(ev(["peek", "next", "child"][op], h + 1, &q.0, u, &out.to_string()));
                        if let Some(x) = x {
                            hs.push(Box::leak(Box::new(x)));
                        }
                    }
                }
            }
        }));
        if r.is_err() {
            evs.push(ev("panic", 0, "", "", "0"));
        }
        println!("[{}]", evs.join(","));
    }
}

type Ops<'a> = std::vec::IntoIter<Vec<&'a str>>;
type Wr<'w> = xsd::xml::writer::EventWriter<&'w mut Vec<u8>>;
fn run<'a, 'b>(ctx: &mut xsd::Context<'a, 'b>, ops: &mut Ops<'a>, w: &mut Wr) -> Result<(), String> {
    while let Some(o) = ops.next() {
        let s = |i: usize| -> String { unhex(o[i]) };
        match o[0] {
            "new" => {
                let name: &'static str = Box::leak(s(1).into_boxed_str());
                let mut c = xsd::Context::new(name);
                run(&mut c, ops, w)?;
            }
            "wrap" => {
                let mut c = xsd::Context::wrap(ctx);
                run(&mut c, ops, w)?;
            }
            "pop" => return Ok(()),
            "attr" => {
                let name: &'static str = Box::leak(s(1).into_boxed_str());
                ctx.set_attr(name, s(2));
            }
            "ns" => ctx.set_ns(s(1), s(2)),
            "dns" => ctx.set_default_ns(s(1)),
            "start" => ctx.write_start_element(w).map_err(|e| e.to_string())?,
            "end" => ctx.write_end_element(w).map_err(|e| e.to_string())?,
            "text" => w.write(xsd::xml::writer::events::XmlEvent::characters(&s(1))).map_err(|e| e.to_string())?,
            _ => return Err(format!("? {}", o[0])),
        }
    }
    Ok(())
}
/// write; stdin: "op arg arg;op arg;..." (args in hex); one answer per line.
fn write() {
    for l in std::io::stdin().lock().lines() {
        let l: &'static str = Box::leak(l.unwrap().into_boxed_str());
        let ops: Vec<Vec<&'static str>> = l.split(';').filter(|x| !x.is_empty()).map(|o| o.split(' ').collect()).collect();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut body = Vec::new();
            let r = {
                let mut w = xsd::xml::writer::EmitterConfig::new().perform_indent(false).create_writer(&mut body);
                let mut it = ops.into_iter();
                let first = it.next().unwrap();
                let name: &'static str = Box::leak(unhex(first[1]).into_boxed_str());
                let mut c = xsd::Context::new(name);
                run(&mut c, &mut it, &mut w)
            };
            match r {
                Ok(()) => format!("{{\"status\":\"ok\",\"xml\":{}}}", js(&String::from_utf8_lossy(&body))),
                Err(e) => format!("{{\"status\":\"err\",\"err\":{}}}", js(&e)),
            }
        }));
        println!("{}", r.unwrap_or("{\"status\":\"panic\"}".into()));
        std::io::stdout().flush().unwrap();
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "tree" => tree(a[2].parse().unwrap()),
        "rec" => rec(),
        "write" => write(),
        _ => std::process::exit(3),
    }
}
