R = "xsd-internal/src/ast/root.rs"
L = "xsd-internal/src/ast/leaf.rs"
D = "xsd/src/decode.rs"
S = "xsd-internal/src/xsd/schema.rs"
C = "xsd-internal/src/xsd/context.rs"
P = "xsd-internal/src/xsd/parse/"
XS = 'xmlns:xs="http://www.w3.org/2001/XMLSchema"'

LOADER = '''
use xsd_internal::xsd::schema::{Schema, SchemaError};
#[allow(dead_code)]
fn load(s: &str) -> Result<Schema, SchemaError> { Schema::parse(s, "demo.xsd") }
'''

BUGS = [
 dict(id="cursor-swap-remove", property="P13",
  needs="an out-of-order lookup that leaves at least two elements behind, and a later in-order lookup on the same node",
  breaks="Node::child no longer keeps the order of the elements it skipped",
  edits=[(D, "children.peeked.remove(ix).map(Node::new)", "children.peeked.swap_remove_back(ix).map(Node::new)")],
  files={"main.rs": '''
fn main() {
    let doc = xsd::decode::decode("<r><a/><b/><c/><d/><e/></r>").unwrap();
    let r = doc.try_child("r", None).unwrap();
    assert!(r.child("e", None).is_some());
    assert!(r.child("a", None).is_some());
    assert!(r.next_child("b", None).is_some());
    assert!(r.next_child("c", None).is_some());
    assert!(r.next_child("d", None).is_some());
}
'''}),
 dict(id="cursor-peek-order", property="P13",
  needs="peek_child while skipped elements are waiting and further elements have not been visited",
  breaks="peek_child looks at an element behind the ones that were skipped before, so elements are read out of order",
  edits=[(D, '''            children.next = children
                .peeked
                .pop_front()
                .or_else(|| children.children.next());
''', '''            children.next = match children.children.next() {
                Some(child) => Some(child),
                None => children.peeked.pop_front(),
            };
''')],
  files={"main.rs": '''
fn main() {
    let doc = xsd::decode::decode("<r><a/><b/><c/><d/></r>").unwrap();
    let r = doc.try_child("r", None).unwrap();
    assert!(r.child("b", None).is_some());
    assert!(r.peek_child("a", None));
    assert!(r.next_child("a", None).is_some());
    assert!(r.next_child("c", None).is_some());
}
'''}),
 dict(id="max-occurs-two", property="P06",
  needs="a complexType whose outermost sequence has maxOccurs=2 and no minOccurs, and a document with two rounds",
  breaks="the second round of the sequence is dropped",
  edits=[(L, "MaxOccurs::Number(n) => *n > 1,", "MaxOccurs::Number(n) => *n > 2,")],
  files={"s.xsd": f'''
<xs:schema {XS}>
  <xs:element name="r"><xs:complexType><xs:sequence maxOccurs="2">
    <xs:element name="a" type="xs:string"/><xs:element name="b" type="xs:int"/>
  </xs:sequence></xs:complexType></xs:element>
</xs:schema>''', "main.rs": '''
#[xsd::all(schema = "s.xsd")] mod m {}
fn main() {
    let r = m::R::from_xml("<r><a>x</a><b>1</b><a>y</a><b>2</b></r>").unwrap();
    let s = format!("{r:?}");
    assert!(s.contains('y'), "{s}");
}
'''}),
 dict(id="enum-collision-once", property="P11",
  needs="an enumeration with a value that reads like a generated fallback name (variant1) and another value without any identifier characters",
  breaks="two declared values share one variant; one of them can no longer be read",
  edits=[(R, '''        loop {
            if variant_name.is_empty() || enum_names.contains_key(&variant_name) {
                unknown_count += 1;
                variant_name = format!("Variant{}", unknown_count);
            } else {
                break;
            }
        }
''', '''        if variant_name.is_empty() || enum_names.contains_key(&variant_name) {
            unknown_count += 1;
            variant_name = format!("Variant{}", unknown_count);
        }
''')],
  files={"s.xsd": f'''
<xs:schema {XS}>
  <xs:element name="e"><xs:simpleType><xs:restriction base="xs:string">
    <xs:enumeration value="variant1"/><xs:enumeration value="+"/><xs:enumeration value="other"/>
  </xs:restriction></xs:simpleType></xs:element>
</xs:schema>''', "main.rs": '''
#[xsd::all(schema = "s.xsd")] mod m {}
fn main() {
    for v in ["variant1", "+", "other"] {
        let e = m::E::from_xml(format!("<e>{v}</e>")).unwrap();
        assert_eq!(e.to_string(), v);
    }
}
'''}),
 dict(id="include-parent-dir", property="P09",
  needs="a schemaLocation that goes up a directory",
  breaks="../ in a schemaLocation is dropped, so another file (or none) is loaded",
  edits=[(S, "                path.push(location);\n", "                // make sure that it is a relative path\n                path.push(location.trim_start_matches(['.', '/']));\n")],
  files={"s.xsd": f'''
<xs:schema {XS}><xs:include schemaLocation="sub/a.xsd"/></xs:schema>''',
   "sub/a.xsd": f'''
<xs:schema {XS}><xs:include schemaLocation="../b.xsd"/><xs:element name="a" type="B"/></xs:schema>''',
   "b.xsd": f'''
<xs:schema {XS}><xs:complexType name="B"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType></xs:schema>''',
   "main.rs": '''
fn main() {
    let s = xsd_internal::xsd::schema::Schema::parse_file("s.xsd").unwrap();
    let mut names: Vec<_> = s.elements().map(|(n, _)| n.name.clone()).collect();
    names.sort();
    assert_eq!(names, ["B", "a"]);
}
'''}),
 dict(id="attr-inline-enum-dep", property="P19",
  needs="generating one type on its own that has an attribute with an inline enumeration",
  breaks="the attribute's enum type is not generated along with the type that uses it",
  edits=[(P + "attribute.rs", '''            ctx.add_root(virtual_name.clone(), root);
            ctx.discover_type(&virtual_name, Some(parent));
''', '''            ctx.add_root(virtual_name.clone(), root);
''')],
  files={"main.rs": LOADER + f'''
fn main() {{
    let s = load(r#"<xs:schema {XS}><xs:element name="r"><xs:complexType><xs:attribute name="k"><xs:simpleType>
      <xs:restriction base="xs:string"><xs:enumeration value="x"/></xs:restriction></xs:simpleType></xs:attribute>
      </xs:complexType></xs:element></xs:schema>"#).unwrap();
    let name = s.elements().map(|(n, _)| n).find(|n| n.name == "r").unwrap();
    let code = s.generate_element_and_dependencies(name, &mut Default::default()).unwrap().to_string();
    assert!(code.contains("pub enum"), "{{code}}");
}}
'''}),
 dict(id="docs-overwrite", property="P21",
  needs="an element without documentation of its own whose inline complexType is documented",
  breaks="the documentation of the inline type is lost",
  edits=[(R, '''        if docs.is_some() {
            match &mut self {
                Root::Leaf(def) => def.docs = docs,
                Root::Enum(_) => {}
                Root::Element(def) => def.docs = docs,
                Root::Choice(def) => def.docs = docs,
            }
        }
''', '''        match &mut self {
            Root::Leaf(def) => def.docs = docs,
            Root::Enum(_) => {}
            Root::Element(def) => def.docs = docs,
            Root::Choice(def) => def.docs = docs,
        }
''')],
  files={"main.rs": LOADER + f'''
fn main() {{
    let s = load(r#"<xs:schema {XS}><xs:element name="r"><xs:complexType>
      <xs:annotation><xs:documentation>About the type</xs:documentation></xs:annotation>
      <xs:attribute name="k" type="xs:int"/></xs:complexType></xs:element></xs:schema>"#).unwrap();
    let code = s.generate_all().unwrap().to_string();
    assert!(code.contains("About the type"), "{{code}}");
}}
'''}),
 dict(id="attr-empty-is-absent", property="P15",
  needs="an optional attribute that is present with an empty value",
  breaks="a present, empty attribute is read as absent (and lost when written again)",
  edits=[("xsd-internal/src/ast/attribute.rs", "if let Some(val) = node.attribute(#name_xml) {", "if let Some(val) = node.attribute(#name_xml).filter(|val| !val.is_empty()) {")],
  files={"s.xsd": f'''
<xs:schema {XS}><xs:element name="r"><xs:complexType><xs:attribute name="k" type="xs:string"/></xs:complexType></xs:element></xs:schema>''',
   "main.rs": '''
#[xsd::all(schema = "s.xsd")] mod m {}
fn main() {
    assert_eq!(m::R::from_xml("<r k=''/>").unwrap().k.as_deref(), Some(""));
    assert_eq!(m::R::from_xml("<r/>").unwrap().k.as_deref(), None);
}
'''}),
 dict(id="attr-any-namespace", property="P15",
  needs="an element with an attribute of another namespace with the same local name as a declared one",
  breaks="a foreign attribute is taken for the declared one",
  edits=[(D, "        self.node.attribute(name)\n", "        self.node\n            .attributes()\n            .find(|attr| attr.name() == name)\n            .map(|attr| attr.value())\n")],
  files={"s.xsd": f'''
<xs:schema {XS}><xs:element name="r"><xs:complexType><xs:attribute name="type" type="xs:string"/></xs:complexType></xs:element></xs:schema>''',
   "main.rs": '''
#[xsd::all(schema = "s.xsd")] mod m {}
fn main() {
    let r = m::R::from_xml("<r xmlns:xsi='http://www.w3.org/2001/XMLSchema-instance' xsi:type='foo'/>").unwrap();
    assert_eq!(r.r#type, None);
}
'''}),
 dict(id="macro-unknown-arg", property="P20",
  needs="an argument with a value other than schema next to a valid schema argument",
  breaks="unknown arguments of #[xsd::all] are swallowed",
  edits=[("xsd-derive/src/lib.rs", '''            Err(meta.error("unsupported property"))
''', '''            match meta.value() {
                // skip the value, so that the remaining arguments are still read
                Ok(value) => value.parse::<syn::Expr>().map(|_| ()),
                Err(_) => Err(meta.error("unsupported property")),
            }
''')],
  run='if cargo build --offline -q 2>err.txt; then exit 1; fi; grep -q "unsupported property" err.txt',
  files={"s.xsd": f'''
<xs:schema {XS}><xs:element name="r" type="xs:string"/></xs:schema>''',
   "main.rs": '''
#[xsd::all(schema = "s.xsd", elements = "r")] mod m {}
fn main() {}
'''}),
 dict(id="dependency-cycle-hang", property="P19",
  needs="types that refer to each other in a cycle of three",
  breaks="collecting the dependencies of a type never ends",
  edits=[(S, "if !names.contains(d) && !new_names.contains(d) {", "if !new_names.contains(d) {")],
  run='timeout 60 cargo run --offline -q',
  files={"main.rs": LOADER + f'''
fn main() {{
    let s = load(r#"<xs:schema {XS}>
      <xs:complexType name="A"><xs:sequence><xs:element name="b" type="B" minOccurs="0" maxOccurs="unbounded"/></xs:sequence></xs:complexType>
      <xs:complexType name="B"><xs:sequence><xs:element name="c" type="C" minOccurs="0" maxOccurs="unbounded"/></xs:sequence></xs:complexType>
      <xs:complexType name="C"><xs:sequence><xs:element name="a" type="A" minOccurs="0" maxOccurs="unbounded"/></xs:sequence></xs:complexType>
      </xs:schema>"#).unwrap();
    let name = s.elements().map(|(n, _)| n).find(|n| n.name == "A").unwrap();
    let code = s.generate_element_and_dependencies(name, &mut Default::default()).unwrap().to_string();
    assert_eq!(code.matches("pub struct").count(), 3);
}}
'''}),
 dict(id="second-documentation", property="P12",
  needs="an annotation with two documentation elements (e.g. one per language)",
  breaks="a schema with a second xs:documentation is refused",
  edits=[(P + "annotation.rs", '''    while children.remove("documentation", Some(NS_XSD)).is_some() {
        // TODO: actually use additional documentation tags
    }
''', '''    // TODO: actually use additional documentation tags
    children.remove("documentation", Some(NS_XSD));
''')],
  files={"main.rs": LOADER + f'''
fn main() {{
    let s = load(r#"<xs:schema {XS}><xs:element name="r" type="xs:string"><xs:annotation><xs:documentation>A</xs:documentation>
      <xs:documentation>B</xs:documentation><xs:documentation>C</xs:documentation></xs:annotation></xs:element></xs:schema>"#);
    assert!(s.is_ok());
}}
'''}),
 dict(id="simple-content-siblings", property="P12",
  needs="a complexType with simpleContent and another child next to it",
  breaks="what stands next to xs:simpleContent is silently ignored",
  edits=[(P + "complex_type.rs", '''        children.prevent_unvisited_children()?;
        return Ok(Root::Element(
            super::simple_content''', '''        return Ok(Root::Element(
            super::simple_content''')],
  files={"main.rs": LOADER + f'''
fn main() {{
    let s = load(r#"<xs:schema {XS}><xs:complexType name="T"><xs:simpleContent><xs:extension base="xs:string"/></xs:simpleContent>
      <xs:attribute name="lost" type="xs:int"/></xs:complexType></xs:schema>"#);
    assert!(s.is_err());
}}
'''}),
 dict(id="ref-max-occurs", property="P06",
  needs="an element ref inside a choice with maxOccurs above 1",
  breaks="a repeated reference inside of a choice reads the first occurrence only",
  edits=[(P + "choice.rs", '''"element" => super::element::parse_child(child, parent, ctx)?,''', '''"element" => {
                let is_ref = child.attribute("ref").is_some();
                let mut variant = super::element::parse_child(child, parent, ctx)?;
                if is_ref {
                    variant.max_occurs = Default::default();
                }
                variant
            }''')],
  files={"s.xsd": f'''
<xs:schema {XS}><xs:element name="i"><xs:complexType><xs:attribute name="k" type="xs:int"/></xs:complexType></xs:element>
<xs:element name="r"><xs:complexType><xs:choice><xs:element ref="i" maxOccurs="unbounded"/><xs:element name="z" type="xs:int"/></xs:choice></xs:complexType></xs:element></xs:schema>''',
   "main.rs": '''
#[xsd::all(schema = "s.xsd")] mod m {}
fn main() {
    let r = m::R::from_xml("<r><i k='1'/><i k='2'/></r>").unwrap();
    let s = format!("{r:?}");
    assert!(s.contains('2'), "{s}");
}
'''}),
 dict(id="lookahead-first-only", property="P06",
  needs="an optional or repeated sequence whose first member is optional and absent in the document",
  breaks="an optional group is taken for absent although its second element comes next",
  edits=[(R, '''                        if *prev_required {
                            return None;
                        }
''', '''                        if *prev_required || leaf.is_vec() && !leaf.is_optional() {
                            return None;
                        }
''')],
  files={"s.xsd": f'''
<xs:schema {XS}><xs:element name="r"><xs:complexType><xs:sequence>
  <xs:sequence minOccurs="0"><xs:element name="a" type="xs:int" minOccurs="0"/><xs:element name="b" type="xs:int" maxOccurs="3"/></xs:sequence>
  <xs:element name="z" type="xs:int" minOccurs="0"/></xs:sequence></xs:complexType></xs:element></xs:schema>''',
   "main.rs": '''
#[xsd::all(schema = "s.xsd")] mod m {}
fn main() {
    let r = m::R::from_xml("<r><b>41</b><b>42</b></r>").unwrap();
    let s = format!("{r:?}");
    assert!(s.contains("42"), "{s}");
}
'''}),
 dict(id="all-optional-in-order", retired=True, property="P07",
  needs="an xs:all with an optional member that comes after a later-declared one",
  breaks="optional members of xs:all are found in declaration order only",
  edits=[(L, "} else if self.is_optional() && self.is_unordered {", "} else if self.is_optional() && self.is_unordered && self.definition.restrictions.is_empty() && !matches!(self.definition.content, LeafContent::Named(_)) {")],
  files={"s.xsd": f'''
<xs:schema {XS}><xs:complexType name="T"><xs:attribute name="k" type="xs:int"/></xs:complexType>
<xs:element name="r"><xs:complexType><xs:all>
  <xs:element name="a" type="T" minOccurs="0"/><xs:element name="b" type="xs:int"/></xs:all></xs:complexType></xs:element></xs:schema>''',
   "main.rs": '''
#[xsd::all(schema = "s.xsd")] mod m {}
fn main() {
    let r = m::R::from_xml("<r><b>1</b><a k='7'/></r>").unwrap();
    assert_eq!(r.a.unwrap().k, Some(7));
}
'''}),
 dict(id="unsigned-as-signed", property="P17",
  needs="a nonNegativeInteger or positiveInteger above 2^63-1, or a negative one",
  breaks="positiveInteger is represented as a signed integer: -1 is accepted, large values are refused",
  edits=[(C, '''        "positiveInteger" => LiteralType::Uint64,''', '''        "positiveInteger" => LiteralType::Int64,''')],
  files={"s.xsd": f'''
<xs:schema {XS}><xs:element name="r" type="xs:positiveInteger"/></xs:schema>''',
   "main.rs": '''
#[xsd::all(schema = "s.xsd")] mod m {}
fn main() {
    assert!(m::R::from_xml("<r>18446744073709551615</r>").is_ok());
    assert!(m::R::from_xml("<r>-1</r>").is_err());
}
'''}),
 dict(id="namespace-trailing-slash", property="P08",
  needs="two namespaces that differ in a trailing slash only",
  breaks="namespaces that differ in a trailing slash are taken for one",
  edits=[("xsd-internal/src/ast/namespaces.rs", "        let id = if let Some(id) = self.by_namespace.get(namespace) {", "        let namespace = namespace.trim_end_matches('/');\n        let id = if let Some(id) = self.by_namespace.get(namespace) {")],
  files={"s.xsd": f'''
<xs:schema {XS} targetNamespace="http://a.org/v" xmlns="http://a.org/v" xmlns:b="http://a.org/v/" elementFormDefault="qualified">
  <xs:import namespace="http://a.org/v/" schemaLocation="b.xsd"/>
  <xs:element name="r"><xs:complexType><xs:sequence><xs:element ref="b:x"/></xs:sequence></xs:complexType></xs:element></xs:schema>''',
   "b.xsd": f'''
<xs:schema {XS} targetNamespace="http://a.org/v/" elementFormDefault="qualified">
  <xs:element name="x"><xs:complexType><xs:attribute name="k" type="xs:int"/></xs:complexType></xs:element></xs:schema>''',
   "main.rs": '''
#[xsd::all(schema = "s.xsd")] mod m {}
fn main() {
    let r = m::R::from_xml("<r xmlns='http://a.org/v'><x k='1' xmlns='http://a.org/v/'/></r>").unwrap();
    let xml = String::from_utf8(r.to_xml().unwrap()).unwrap();
    assert_eq!(m::R::from_xml(&xml).unwrap(), r, "{xml}");
}
'''}),
 dict(id="fixed-prefix", property="P04",
  needs="a fixed element whose document value merely starts with the fixed value",
  breaks="an element value that only starts with the fixed value is accepted",
  edits=[("xsd-internal/src/ast/leaf_content.rs", '''                        let val = node.text()?;
                        if val != #fixed {''', '''                        let val = node.text()?;
                        if !val.starts_with(#fixed) {''')],
  files={"s.xsd": f'''
<xs:schema {XS}><xs:element name="r"><xs:complexType><xs:sequence><xs:element name="v" type="xs:string" fixed="1.0"/></xs:sequence></xs:complexType></xs:element></xs:schema>''',
   "main.rs": '''
#[xsd::all(schema = "s.xsd")] mod m {}
fn main() {
    assert!(m::R::from_xml("<r><v>1.0</v></r>").is_ok());
    assert!(m::R::from_xml("<r><v>1.0.1</v></r>").is_err());
}
'''}),
 dict(id="snake-variant-ident", retired=True, property="P10",
  needs="a keyword as the name of a choice alternative or field, e.g. an element named Self",
  breaks="choice alternatives named like a keyword yield code that does not compile",
  edits=[(R, '''                let variants = variants.iter().map(|variant| {
                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                    let mut type_ident''', '''                let variants = variants.iter().map(|variant| {
                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
                    let mut type_ident''')],
  compile_ok=True,
  files={"s.xsd": f'''
<xs:schema {XS}><xs:element name="r"><xs:complexType><xs:choice><xs:element name="self" type="xs:int"/><xs:element name="other" type="xs:int"/></xs:choice></xs:complexType></xs:element></xs:schema>''',
   "main.rs": '''
#[xsd::all(schema = "s.xsd")] mod m {}
fn main() {
    assert!(m::R::from_xml("<r><self>1</self></r>").is_ok());
}
'''}),
 dict(id="ext-attrs-second", property="P16",
  needs="an extension with a sequence and attributes whose base has attributes too, over two levels",
  breaks="the extension's sequence is optional whenever it declares attributes too",
  edits=[(P + "complex_content.rs", '''        let min_occurs = parse_min_occurs(child.attribute("minOccurs"))?;

        let leaves = super::sequence::parse(child, parent, ctx)?;
        let leaf_name = ctx''', '''        let mut min_occurs = parse_min_occurs(child.attribute("minOccurs"))?;

        let leaves = super::sequence::parse(child, parent, ctx)?;
        if leaves.is_empty() || leaves.iter().skip(1).any(|leaf| leaf.is_optional()) {
            // nothing that has to be there
            min_occurs = MinOccurs(0);
        }
        let leaf_name = ctx''')],
  files={"s.xsd": f'''
<xs:schema {XS}><xs:complexType name="B"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>
<xs:element name="r"><xs:complexType><xs:complexContent><xs:extension base="B"><xs:sequence>
 <xs:element name="a" type="xs:int"/><xs:element name="b" type="xs:int" minOccurs="0"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType></xs:element></xs:schema>''',
   "main.rs": '''
#[xsd::all(schema = "s.xsd")] mod m {}
fn main() {
    assert!(m::R::from_xml("<r><x>1</x><a>2</a></r>").is_ok());
    assert!(m::R::from_xml("<r><x>1</x></r>").is_err());
}
'''}),
 dict(id="choice-nested-peek", retired=True, property="P05",
  needs="a choice with two sequence alternatives where the first one starts with an optional element",
  breaks="a choice decides by the first element of its sequence alternatives only if they are repeated",
  edits=[(R, '''                            } else {
                                quote! {
                                    if #first_name::lookahead(node) {
                                        Self::#variant_name(#inner)
                                    }
                                }
                            }''', '''                            } else {
                                let check = if variant.is_optional() {
                                    quote! { true }
                                } else {
                                    quote! { #first_name::lookahead(node) }
                                };
                                quote! {
                                    if #check {
                                        Self::#variant_name(#inner)
                                    }
                                }
                            }''')],
  files={"s.xsd": f'''
<xs:schema {XS}><xs:element name="r"><xs:complexType><xs:sequence><xs:choice>
 <xs:sequence minOccurs="0"><xs:element name="a" type="xs:int"/></xs:sequence>
 <xs:element name="c" type="xs:int"/>
 </xs:choice></xs:sequence></xs:complexType></xs:element></xs:schema>''',
   "main.rs": '''
#[xsd::all(schema = "s.xsd")] mod m {}
fn main() {
    assert!(m::R::from_xml("<r><a>2</a></r>").is_ok());
    assert!(m::R::from_xml("<r><c>2</c></r>").is_ok());
}
'''}),
 dict(id="wrap-virtual-attr", property="P14",
  needs="attributes set on a wrapped context",
  breaks="namespaces declared by a nested value that shares the element are lost",
  edits=[("xsd/src/lib.rs", '''    pub fn set_ns(&mut self, prefix: impl Into<String>, uri: impl Into<String>) {
        match self {
            Context::Virtual(inner) => {
                inner.namespace.put(prefix, uri);
            }
''', '''    pub fn set_ns(&mut self, prefix: impl Into<String>, uri: impl Into<String>) {
        match self {
            Context::Virtual(inner) => {
                // the outer element has its namespaces already
                if inner.namespace.is_empty() && inner.attributes.is_empty() {
                    inner.namespace.put(prefix, uri);
                }
            }
''')],
  files={"main.rs": '''
use xsd::xml::writer::EmitterConfig;
fn main() {
    let mut out = Vec::new();
    let mut w = EmitterConfig::new().write_document_declaration(false).create_writer(&mut out);
    let mut ctx = xsd::Context::new("r");
    ctx.set_attr("k", "v");
    {
        let mut inner = xsd::Context::wrap(&mut ctx);
        inner.set_ns("p", "urn:p");
        inner.set_attr("p:z", "1");
        inner.write_start_element(&mut w).unwrap();
        inner.write_end_element(&mut w).unwrap();
    }
    ctx.write_end_element(&mut w).unwrap();
    drop(w);
    let s = String::from_utf8(out).unwrap();
    assert!(s.contains("xmlns:p"), "{s}");
}
'''}),
]
