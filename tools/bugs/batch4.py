R = "xsd-internal/src/ast/root.rs"
N = "xsd-internal/src/ast/namespaces.rs"
D = "xsd/src/decode.rs"
P = "xsd-internal/src/xsd/parse/"
XS = 'xmlns:xs="http://www.w3.org/2001/XMLSchema"'
LOADER = '''
use xsd_internal::ast::*;
use xsd_internal::xsd::schema::Schema;
#[allow(dead_code)]
fn load(s: &str) -> Schema { Schema::parse(s, "demo.xsd").unwrap() }
'''
M = '''
#[xsd::all(schema = "s.xsd")] mod m {}
'''
def sch(body, attrs=""):
    return f"\n<xs:schema {XS}{attrs}>{body}</xs:schema>"
def el(name, content, ):
    return f'<xs:element name="{name}"><xs:complexType>{content}</xs:complexType></xs:element>'
def text(s):
    return 'r#"' + s.strip() + '"#'

S = "xsd-internal/src/xsd/schema.rs"
BUGS = [
 dict(id="cursor-window", property="P13",
  needs="more than 32 elements that have been skipped by out-of-order lookups",
  breaks="a skipped element behind the 32nd is not found any more",
  edits=[(D, '''        for (ix, child) in children.peeked.iter().enumerate() {''', '''        for (ix, child) in children.peeked.iter().enumerate().take(32) {''')],
  files={"main.rs": '''
fn main() {
    let kids: String = (0..50).map(|i| format!("<k{i}/>")).collect();
    let text = format!("<r>{kids}<last/></r>");
    let doc = xsd::decode::decode(&text).unwrap();
    let r = doc.try_child("r", None).unwrap();
    assert!(r.child("last", None).is_some());
    assert!(r.child("k49", None).is_some());
    assert!(r.next_child("k0", None).is_some());
}
'''}),
 dict(id="docs-abridged", property="P21",
  needs="a documentation of more than 256 words",
  breaks="long documentation is cut off",
  edits=[(P + "annotation.rs", '''    docs.split_whitespace().collect::<Vec<&str>>().join(" ")''',
   '''    docs.split_whitespace()
        .take(256)
        .collect::<Vec<&str>>()
        .join(" ")''')],
  files={"main.rs": LOADER.replace("use xsd_internal::ast::*;\n", "") + '''
fn main() {
    let words: Vec<String> = (0..400).map(|i| format!("w{i}")).collect();
    let s = load(&format!(r#"<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="r" type="xs:string"><xs:annotation><xs:documentation>{}</xs:documentation></xs:annotation></xs:element></xs:schema>"#, words.join(" ")));
    let code = s.generate_all().unwrap().to_string();
    assert!(code.contains("w399"));
}
'''}),
 dict(id="row-packed", property="P12",
  needs="a schema that is not well-formed beyond its 255th line",
  breaks="the row of the fault is reported modulo 256",
  edits=[(S, '''                    row: pos.row,
                    col: pos.col,
                    err: Box::new(XsdError::Xml(err)),''', '''                    row: u32::from(pos.row as u8),
                    col: pos.col,
                    err: Box::new(XsdError::Xml(err)),''')],
  files={"main.rs": '''
use xsd_internal::xsd::schema::{Schema, SchemaError};
fn main() {
    let s = format!(r#"<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">{}<xs:element name="r" type="xs:string"></xs:schema>"#, "\\n".repeat(299));
    match Schema::parse(&s, "demo.xsd") {
        Err(SchemaError::Xsd { row, .. }) => assert_eq!(row, 300),
        other => panic!("{:?}", other.map(|_| ())),
    }
}
'''}),
 dict(id="writer-attr-limit", property="P14",
  needs="an element with more than 16 attributes",
  breaks="attributes beyond the sixteenth are not written",
  edits=[("xsd/src/lib.rs", '''            Context::Context(inner) => inner.attributes.push((name.into(), value.into())),''', '''            Context::Context(inner) => {
                if inner.attributes.len() < 16 {
                    inner.attributes.push((name.into(), value.into()))
                }
            }''')],
  files={"main.rs": '''
fn main() {
    let mut out = Vec::new();
    let mut w = xsd::xml::writer::EmitterConfig::new().create_writer(&mut out);
    let names: Vec<String> = (0..20).map(|i| format!("a{i}")).collect();
    let mut ctx = xsd::Context::new("r");
    for n in &names { ctx.set_attr(n.as_str(), "v"); }
    ctx.write_start_element(&mut w).unwrap();
    ctx.write_end_element(&mut w).unwrap();
    drop(w);
    assert_eq!(String::from_utf8(out).unwrap().matches("=\\"v\\"").count(), 20);
}
'''}),
 dict(id="enum-blank-value", property="P11",
  needs="an enumeration with a value that consists of white space only",
  breaks="a blank enumeration value is written as the empty string",
  edits=[(R, '''                    if !val.is_empty() {
                        writer.write(XmlEvent::characters(&val))?;''', '''                    if !val.trim().is_empty() {
                        writer.write(XmlEvent::characters(&val))?;''')],
  files={"s.xsd": sch('<xs:element name="r"><xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value=" "/><xs:enumeration value="x"/></xs:restriction></xs:simpleType></xs:element>'),
   "main.rs": M + '''
fn main() {
    let v = m::R::from_xml("<r> </r>").unwrap();
    let out = String::from_utf8(v.to_xml().unwrap()).unwrap();
    assert_eq!(m::R::from_xml(&out).unwrap(), v);
}
'''}),
]
