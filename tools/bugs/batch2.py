R = "xsd-internal/src/ast/root.rs"
L = "xsd-internal/src/ast/leaf.rs"
LC = "xsd-internal/src/ast/leaf_content.rs"
AT = "xsd-internal/src/ast/attribute.rs"
D = "xsd/src/decode.rs"
S = "xsd-internal/src/xsd/schema.rs"
C = "xsd-internal/src/xsd/context.rs"
N = "xsd-internal/src/xsd/node.rs"
P = "xsd-internal/src/xsd/parse/"
XS = 'xmlns:xs="http://www.w3.org/2001/XMLSchema"'

LOADER = '''
use xsd_internal::xsd::schema::{Schema, SchemaError};
#[allow(dead_code)]
fn load(s: &str) -> Result<Schema, SchemaError> { Schema::parse(s, "demo.xsd") }
'''
M = '''
#[xsd::all(schema = "s.xsd")] mod m {}
'''
def sch(body, attrs=""):
    return f"\n<xs:schema {XS}{attrs}>{body}</xs:schema>"
def el(name, content, ):
    return f'<xs:element name="{name}"><xs:complexType>{content}</xs:complexType></xs:element>'

BUGS = [
 dict(id="attr-empty-unwritten", property="P02",
  needs="an optional string attribute that is set to the empty string",
  breaks="an attribute that is set to the empty string is not written",
  edits=[(AT, "                if let Some(val) = val {\n", "                if let Some(val) = val.filter(|val| !val.is_empty()) {\n")],
  files={"s.xsd": sch(el("r", '<xs:attribute name="k" type="xs:string"/>')), "main.rs": M + '''
fn main() {
    let xml = String::from_utf8(m::R { k: Some(String::new()) }.to_xml().unwrap()).unwrap();
    assert!(xml.contains("k=\\"\\""), "{xml}");
}
'''}),
 dict(id="escaping-off", retired=True, property="P03",
  needs="text or attribute values with & or <",
  breaks="markup characters are written as they are",
  edits=[(S, "                        .perform_indent(true)\n", "                        .perform_indent(true)\n                        .perform_escaping(false)\n"),
         (S, '                    let mut ctx = ::xsd::Context::new(#name_xml);\n                    self.to_xml_writer(ctx, &mut writer)?;\n', '                    let ctx = ::xsd::Context::new(#name_xml);\n                    self.to_xml_writer(ctx, &mut writer)?;\n')],
  files={"s.xsd": sch(el("r", '<xs:sequence><xs:element name="x" type="xs:string"/></xs:sequence>')), "main.rs": M + '''
fn main() {
    let r = m::R { x: "a & b <c>".to_string() };
    let xml = String::from_utf8(r.to_xml().unwrap()).unwrap();
    assert_eq!(m::R::from_xml(xml).unwrap(), r);
}
'''}),
 dict(id="attr-bad-value-none", retired=True, property="P04",
  needs="an optional attribute whose value its type cannot represent",
  breaks="a value of an optional attribute that cannot be parsed is dropped instead of being refused",
  edits=[(AT, "                        Some({ #inner })\n", "                        let parse = || -> Result<_, ::xsd::decode::FromXmlError> { Ok({ #inner }) };\n                        parse().ok()\n")],
  files={"s.xsd": sch(el("r", '<xs:attribute name="k" type="xs:int"/>')), "main.rs": M + '''
fn main() {
    assert!(m::R::from_xml("<r k='1'/>").is_ok());
    assert!(m::R::from_xml("<r k='x'/>").is_err());
}
'''}),
 dict(id="error-without-namespace", property="P04",
  needs="a required element missing from a qualified document, and a look at the error's namespace",
  breaks="the error for a missing element does not carry its namespace",
  edits=[(D, '''        self.next_child(name, namespace)
            .ok_or_else(|| FromXmlError::MissingElement {
                name: name.to_string(),
                namespace: namespace.map(String::from),
            })''', '''        self.next_child(name, namespace)
            .ok_or_else(|| FromXmlError::MissingElement {
                name: name.to_string(),
                namespace: self.node.tag_name().namespace().filter(|_| false).map(String::from),
            })''')],
  files={"s.xsd": sch(el("r", '<xs:sequence><xs:element name="x" type="xs:string"/></xs:sequence>'), ' targetNamespace="urn:a" elementFormDefault="qualified"'), "main.rs": M + '''
fn main() {
    match m::R::from_xml("<r xmlns='urn:a'/>") {
        Err(xsd::decode::FromXmlError::MissingElement { name, namespace }) => {
            assert_eq!((name.as_str(), namespace.as_deref()), ("x", Some("urn:a")));
        }
        other => panic!("{other:?}"),
    }
}
'''}),
 dict(id="choice-seq-once", retired=True, property="P05",
  needs="a choice with a repeated sequence as alternative, and a document with two rounds of it",
  breaks="only the first round of a repeated sequence inside of a choice is read",
  edits=[(R, '''                                        let mut vec = Vec::new();
                                        while #first_name::lookahead(node) {
                                            vec.push(#inner);
                                        }
                                        Self::#variant_name(vec)''', '''                                        Self::#variant_name(vec![#inner])''')],
  files={"s.xsd": sch(el("r", '<xs:sequence><xs:choice><xs:sequence maxOccurs="unbounded"><xs:element name="a" type="xs:string"/><xs:element name="b" type="xs:string"/></xs:sequence><xs:element name="c" type="xs:string"/></xs:choice></xs:sequence>')),
   "main.rs": M + '''
fn main() {
    let xml = "<r><a>1</a><b>2</b><a>3</a><b>4</b></r>";
    let r = m::R::from_xml(xml).unwrap();
    let back = String::from_utf8(r.to_xml().unwrap()).unwrap();
    assert!(back.contains('4'), "{back}");
}
'''}),
 dict(id="choice-lookahead-optional", property="P05",
  needs="an optional or repeated choice with an alternative that has minOccurs=0",
  breaks="an optional choice overlooks the alternatives that are optional themselves",
  edits=[(R, '''                let checks = variants.iter().map(|variant| {
                    if variant.is_virtual {''', '''                let checks = variants.iter().filter(|variant| !variant.is_optional()).map(|variant| {
                    if variant.is_virtual {''')],
  files={"s.xsd": sch(el("r", '<xs:sequence><xs:choice minOccurs="0"><xs:element name="aa" type="xs:string" minOccurs="0"/><xs:element name="bc" type="xs:string"/></xs:choice></xs:sequence>')),
   "main.rs": M + '''
fn main() {
    let r = m::R::from_xml("<r><aa>1</aa></r>").unwrap();
    let back = String::from_utf8(r.to_xml().unwrap()).unwrap();
    assert!(back.contains("<aa>1</aa>"), "{back}");
}
'''}),
 dict(id="child-requeues-next", property="P13",
  needs="a peek, then an out-of-order lookup that leaves further elements behind, then in-order lookups",
  breaks="the element that was peeked at ends up behind the ones skipped by the lookup",
  edits=[(D, '''                return Some(Node::new(next));
            }
            children.next = Some(next)
        }

        for (ix, child)''', '''                return Some(Node::new(next));
            }
            children.peeked.push_back(next)
        }

        for (ix, child)''')],
  files={"main.rs": '''
fn main() {
    let doc = xsd::decode::decode("<r><a/><b/><c/><d/></r>").unwrap();
    let r = doc.try_child("r", None).unwrap();
    assert!(r.child("c", None).is_some());
    assert!(r.peek_child("a", None));
    assert!(r.child("d", None).is_some());
    assert!(r.next_child("a", None).is_some());
    assert!(r.next_child("b", None).is_some());
}
'''}),
 dict(id="unprefixed-is-target", retired=True, property="P08",
  needs="a schema with a target namespace and no default namespace that refers to a declaration of an imported schema without namespace",
  breaks="references without a prefix are resolved in the target namespace instead of in no namespace",
  edits=[(C, '''                .map(|ns| self.shared.namespaces.get_or_insert(ns))
                .unwrap_or_default();''', '''                .map(|ns| self.shared.namespaces.get_or_insert(ns))
                .unwrap_or_else(|| self.target_namespace());''')],
  files={"s.xsd": sch('<xs:import schemaLocation="b.xsd"/>' + el("r", '<xs:sequence><xs:element ref="e"/></xs:sequence>'), ' targetNamespace="urn:a"'),
   "b.xsd": sch('<xs:element name="e" type="xs:string"/>'),
   "main.rs": LOADER + '''
fn main() {
    let s = Schema::parse_file("s.xsd").unwrap();
    let mut names = Default::default();
    let r = s.elements().map(|(n, _)| n).find(|n| n.name == "r").unwrap();
    s.generate_element_and_dependencies(r, &mut names).unwrap();
}
'''}),
 dict(id="ref-local-namespace", retired=True, property="P08",
  needs="an element reference in a schema whose local elements are unqualified",
  breaks="referenced elements get the namespace of local elements",
  edits=[(P + "element.rs", '''                name: name.clone(),
                definition: LeafDefinition {
                    content: LeafContent::Named(name),''', '''                name: ctx.get_node_name(&name.name, false),
                definition: LeafDefinition {
                    content: LeafContent::Named(name),''')],
  files={"s.xsd": sch('<xs:element name="e" type="xs:string"/>' + el("r", '<xs:sequence><xs:element ref="t:e"/></xs:sequence>'), ' targetNamespace="urn:a" xmlns:t="urn:a"'),
   "main.rs": M + '''
fn main() {
    assert!(m::R::from_xml("<t:r xmlns:t='urn:a'><t:e>1</t:e></t:r>").is_ok());
}
'''}),
 dict(id="include-loses-dependencies", property="P19",
  needs="generating one type on its own that depends on types which were declared in front of an include",
  breaks="the dependencies of the including schema are forgotten when a file is included",
  edits=[(S, '''            dependencies: self.dependencies,
            files: self.files,''', '''            dependencies: Default::default(),
            files: self.files,''')],
  files={"s.xsd": sch('<xs:include schemaLocation="b.xsd"/><xs:element name="r" type="B"/>'),
   "b.xsd": sch('<xs:complexType name="B"><xs:sequence><xs:element name="x" type="X"/></xs:sequence></xs:complexType><xs:complexType name="X"><xs:attribute name="k" type="xs:int"/></xs:complexType>'),
   "main.rs": LOADER + '''
fn main() {
    let s = Schema::parse_file("s.xsd").unwrap();
    let name = s.elements().map(|(n, _)| n).find(|n| n.name == "r").unwrap();
    let code = s.generate_element_and_dependencies(name, &mut Default::default()).unwrap().to_string();
    assert_eq!(code.matches("pub struct").count(), 3);
}
'''}),
 dict(id="union-duplicates", property="P19",
  needs="generating two elements that share a type into one module",
  breaks="a type that two elements share is generated twice",
  edits=[(S, '''            result.append_all(self.generate_element(name)?);
            already_generated.insert(name);''', '''            result.append_all(self.generate_element(name)?);
            if !self.dependencies.contains_key(name) {
                continue;
            }
            already_generated.insert(name);''')],
  files={"main.rs": LOADER + f'''
fn main() {{
    let s = load(r#"<xs:schema {XS}><xs:element name="a" type="T"/><xs:element name="b" type="T"/>
      <xs:complexType name="T"><xs:attribute name="k" type="xs:int"/></xs:complexType></xs:schema>"#).unwrap();
    let mut done = Default::default();
    let mut code = String::new();
    for n in ["a", "b"] {{
        let name = s.elements().map(|(n, _)| n).find(|x| x.name == n).unwrap();
        code += &s.generate_element_and_dependencies(name, &mut done).unwrap().to_string();
    }}
    assert_eq!(code.matches("pub struct").count(), 3);
}}
'''}),
 dict(id="ext-base-dependency", property="P19",
  needs="generating one type on its own that extends another with a sequence",
  breaks="the base of an extended type is not generated along with it",
  edits=[(P + "complex_content.rs", '''        LeafContent::Named(name) => {
            ctx.discover_type(name, Some(parent));
            name
        }''', '''        LeafContent::Named(name) => name,''')],
  files={"main.rs": LOADER + f'''
fn main() {{
    let s = load(r#"<xs:schema {XS}><xs:complexType name="B"><xs:attribute name="k" type="xs:int"/></xs:complexType>
      <xs:complexType name="T"><xs:complexContent><xs:extension base="B"><xs:attribute name="j" type="xs:int"/></xs:extension></xs:complexContent></xs:complexType></xs:schema>"#).unwrap();
    let name = s.elements().map(|(n, _)| n).find(|x| x.name == "T").unwrap();
    let code = s.generate_element_and_dependencies(name, &mut Default::default()).unwrap().to_string();
    assert_eq!(code.matches("pub struct").count(), 2);
}}
'''}),
 dict(id="keyword-field", retired=True, property="P10",
  needs="an element or attribute whose name is one of the less common keywords",
  breaks="fields named like a keyword are not escaped: code that does not compile",
  edits=[("xsd-internal/src/utils.rs", '''"use" | "where" | "while" | "async"''', '''"use" | "while" | "async"''')], compile_ok=True,
  files={"s.xsd": sch(el("r", '<xs:attribute name="where" type="xs:string"/>')), "main.rs": M + '''
fn main() { assert!(m::R::from_xml("<r where='x'/>").is_ok()); }
'''}),
 dict(id="enum-trim", property="P11",
  needs="an enumeration value that is given with surrounding white space",
  breaks="strings that are no declared value are read as one",
  edits=[(R, "                            Ok(match s {\n", "                            Ok(match s.trim() {\n")],
  files={"s.xsd": sch('<xs:simpleType name="e"><xs:restriction base="xs:string"><xs:enumeration value="a"/><xs:enumeration value=" a"/></xs:restriction></xs:simpleType>'), "main.rs": M + '''
fn main() {
    let a: m::E = "a".parse().unwrap();
    let b: m::E = " a".parse().unwrap();
    assert_ne!(a, b);
    assert!("a ".parse::<m::E>().is_err());
}
'''}),
 dict(id="facet-bad-value", property="P12",
  needs="a facet with a value that is not a number",
  breaks="a malformed facet is silently ignored",
  edits=[(P + "simple_type.rs", '''                let value = usize::from_str(&attr.value()).map_err(|err| XsdError::ParseInt {
                    err,
                    range: attr.range(),
                })?;
                restrictions.push(Restriction::TotalDigits(value));''', '''                if let Ok(value) = usize::from_str(&attr.value()) {
                    restrictions.push(Restriction::TotalDigits(value));
                }''')],
  files={"main.rs": LOADER + f'''
fn main() {{
    assert!(load(r#"<xs:schema {XS}><xs:simpleType name="T"><xs:restriction base="xs:decimal"><xs:totalDigits value="many"/></xs:restriction></xs:simpleType></xs:schema>"#).is_err());
}}
'''}),
 dict(id="error-at-end", retired=True, property="P12",
  needs="a fault in a node that spans several lines",
  breaks="the reported position is the end of the faulty node",
  edits=[(S, "doc.text_pos_at(range.start)", "doc.text_pos_at(range.end)")],
  files={"main.rs": LOADER + f'''
fn main() {{
    match load("<xs:schema {XS.replace('"', "'")}>\\n  <xs:simpleType name='T'>\\n\\n</xs:simpleType></xs:schema>") {{
        Err(SchemaError::Xsd {{ row, col, .. }}) => assert_eq!((row, col), (2, 3)),
        other => panic!("{{:?}}", other.map(|_| ())),
    }}
}}
'''}),
 dict(id="foreign-attr-shadows", retired=True, property="P12",
  needs="a foreign attribute with the local name of a schema attribute",
  breaks="a foreign attribute is taken for the attribute of the schema language with the same local name",
  edits=[(N, '''            // ignore custom (aka namespaced) attributes
            .filter(|attr| attr.namespace().is_none())
            .map(|attr| {''', '''            .map(|attr| {''')],
  files={"main.rs": LOADER + f'''
fn main() {{
    let s = load(r#"<xs:schema {XS} xmlns:x="urn:x"><xs:element name="r" x:name="other" type="xs:string" x:type="y"/></xs:schema>"#).unwrap();
    assert!(s.elements().any(|(n, _)| n.name == "r"));
}}
'''}),
 dict(id="include-error-file", property="P12",
  needs="a fault in an included file",
  breaks="a fault in an included file is reported for the file that includes it",
  edits=[(S, '''                ParseError::Schema(err) => err,
                ParseError::Xsd(err) => {''', '''                ParseError::Schema(SchemaError::Xsd { err, row, col, .. }) => SchemaError::Xsd {
                    file: path.to_string_lossy().to_string(),
                    row,
                    col,
                    err,
                },
                ParseError::Schema(err) => err,
                ParseError::Xsd(err) => {''')],
  files={"s.xsd": sch('<xs:include schemaLocation="b.xsd"/>'), "b.xsd": sch('<xs:element name="x" type="xs:nope"/>'),
   "main.rs": LOADER + '''
fn main() {
    match Schema::parse_file("s.xsd") {
        Err(SchemaError::Xsd { file, .. }) => assert!(file.ends_with("b.xsd"), "{file}"),
        other => panic!("{:?}", other.map(|_| ())),
    }
}
'''}),
 dict(id="open-error-name", property="P09",
  needs="a missing file in a subdirectory",
  breaks="a file that cannot be opened is reported without its directory",
  edits=[(S, '''                    err,
                    file: path.to_string_lossy().to_string(),
                })''', '''                    err,
                    file: path
                        .file_name()
                        .unwrap_or(path.as_os_str())
                        .to_string_lossy()
                        .to_string(),
                })''')],
  files={"s.xsd": sch('<xs:include schemaLocation="sub/b.xsd"/>'),
   "main.rs": LOADER + '''
fn main() {
    match Schema::parse_file("s.xsd") {
        Err(SchemaError::Open { file, .. }) => assert!(file.ends_with("sub/b.xsd"), "{file}"),
        other => panic!("{:?}", other.map(|_| ())),
    }
}
'''}),
 dict(id="virtual-default-ns", property="P14",
  needs="a wrapped context that sets the default namespace before the element is started",
  breaks="a default namespace set through a wrapped context is dropped",
  edits=[("xsd/src/lib.rs", '''    pub fn set_default_ns(&mut self, uri: impl Into<String>) {
        match self {
            Context::Virtual(inner) => {
                inner.namespace.put(NS_NO_PREFIX, uri);
            }''', '''    pub fn set_default_ns(&mut self, uri: impl Into<String>) {
        match self {
            // set by the context that is wrapped
            Context::Virtual(_) => {}''')],
  files={"main.rs": '''
fn main() {
    let mut body = Vec::new();
    let mut writer = xsd::xml::writer::EmitterConfig::new().create_writer(&mut body);
    let mut outer = xsd::Context::new("r");
    {
        let mut inner = xsd::Context::wrap(&mut outer);
        inner.set_default_ns("urn:a");
        inner.write_start_element(&mut writer).unwrap();
        inner.write_end_element(&mut writer).unwrap();
    }
    outer.write_end_element(&mut writer).unwrap();
    assert!(String::from_utf8(body).unwrap().contains("urn:a"));
}
'''}),
 dict(id="prohibited-attr", retired=True, property="P15",
  needs="an attribute with use=prohibited",
  breaks="prohibited attributes get a field",
  edits=[(P + "attribute.rs", '''        Some("optional") | None => true,
        Some("prohibited") => return Ok(None),''', '''        Some("optional") | Some("prohibited") | None => true,'''),
         (P + "attribute.rs", '''    if default.is_some() && !is_optional {''', '''    if !is_optional && default.is_some() {''')],
  files={"s.xsd": sch(el("r", '<xs:attribute name="k" type="xs:string" use="prohibited"/>')), "main.rs": M + '''
fn main() { let _ = m::R {}; }
'''}, compile_ok=True),
 dict(id="fixed-attr-trim", retired=True, property="P15",
  needs="a fixed attribute whose value has surrounding white space",
  breaks="a value other than the fixed one is accepted",
  edits=[(LC, '''            LeafContent::Fixed(fixed) => quote! {
                if val != #fixed {''', '''            LeafContent::Fixed(fixed) => quote! {
                if val.trim() != #fixed {''')],
  files={"s.xsd": sch(el("r", '<xs:attribute name="k" type="xs:string" fixed="v"/>')), "main.rs": M + '''
fn main() {
    assert!(m::R::from_xml("<r k='v'/>").is_ok());
    assert!(m::R::from_xml("<r k=' v'/>").is_err());
}
'''}),
 dict(id="int-wide", property="P17",
  needs="an xs:int beyond 32 bits",
  breaks="xs:int accepts values that are out of its range",
  edits=[(C, '''        "int" => LiteralType::Int32,''', '''        "int" => LiteralType::Int64,''')],
  files={"s.xsd": sch('<xs:element name="r" type="xs:int"/>'), "main.rs": M + '''
fn main() {
    assert!(m::R::from_xml("<r>2147483647</r>").is_ok());
    assert!(m::R::from_xml("<r>2147483648</r>").is_err());
}
'''}),
 dict(id="leading-comment", property="P18",
  needs="a document with a comment or processing instruction in front of the root element",
  breaks="documents that start with a comment are refused",
  edits=[(D, '''        let root = self.0.root_element();
        if !root.is_element()''', '''        let root = self.0.root().first_child()?;
        if !root.is_element()''')],
  files={"s.xsd": sch('<xs:element name="r" type="xs:string"/>'), "main.rs": M + '''
fn main() { assert!(m::R::from_xml("<!-- c --><r>1</r>").is_ok()); }
'''}),
 dict(id="macro-cwd", property="P20",
  needs="a build whose working directory is not the crate's",
  breaks="the schema path is resolved against the working directory",
  edits=[("xsd-derive/src/lib.rs", '''    path.push(&schema_path);
''', '''    // prefer the path as it is, if it exists
    if std::path::Path::new(&schema_path).exists() {
        path = PathBuf::from(&schema_path);
    } else {
        path.push(&schema_path);
    }
''')],
  run='mkdir sub && mv Cargo.toml src s.xsd sub/ && sed "s/good/wrong/" sub/s.xsd > s.xsd && sed -i "/workspace/d" sub/Cargo.toml && printf "[workspace]\\nmembers = [\\"sub\\"]\\nresolver = \\"2\\"\\n" > Cargo.toml && cargo run --offline -q',
  files={"s.xsd": sch('<xs:element name="good" type="xs:string"/>'), "main.rs": M + '''
fn main() { assert!(m::Good::from_xml("<good>1</good>").is_ok()); }
'''}, compile_ok=True),
 dict(id="macro-visibility", property="P20",
  needs="a module that is private or pub(crate), used from outside of where it is visible",
  breaks="the module the macro is applied to becomes public",
  edits=[("xsd-derive/src/generator.rs", '''        #vis mod #ident {''', '''        pub mod #ident {'''), ("xsd-derive/src/generator.rs", "    let vis = &item.vis;\n", "")],
  run='if cargo build --offline -q 2>err.txt; then exit 1; fi; grep -q E0603 err.txt',
  files={"s.xsd": sch('<xs:element name="r" type="xs:string"/>'), "main.rs": '''
mod outer {
    #[xsd::all(schema = "s.xsd")] mod m {}
}
fn main() { let _ = outer::m::R::from_xml("<r/>"); }
'''}),
 dict(id="docs-attribute-of-other", property="P21",
  needs="a documented nested sequence",
  breaks="the documentation of a nested sequence is lost",
  edits=[(P + "sequence.rs", '''                        content: LeafContent::Named(root_name),
                        restrictions: Vec::new(),
                        docs,
                    },''', '''                        content: LeafContent::Named(root_name),
                        restrictions: Vec::new(),
                        docs: None,
                    },'''),
         (P + "sequence.rs", '''                let docs = super::parse_annotation(child.child("annotation", Some(NS_XSD)))?;

                let min_occurs''', '''                super::parse_annotation(child.child("annotation", Some(NS_XSD)))?;

                let min_occurs''')],
  files={"main.rs": LOADER + f'''
fn main() {{
    let s = load(r#"<xs:schema {XS}><xs:element name="r"><xs:complexType><xs:sequence><xs:sequence><xs:annotation><xs:documentation>Hello</xs:documentation></xs:annotation>
      <xs:element name="a" type="xs:string"/></xs:sequence></xs:sequence></xs:complexType></xs:element></xs:schema>"#).unwrap();
    assert!(s.generate_all().unwrap().to_string().contains("Hello"));
}}
'''}),
 dict(id="choice-min-occurs", retired=True, property="P06",
  needs="a choice inside of a sequence with minOccurs=0 and maxOccurs=unbounded that is absent",
  breaks="the optionality of a repeated choice is lost",
  edits=[(P + "sequence.rs", '''                    is_virtual: true,
                    min_occurs,
                    max_occurs,
                }''', '''                    is_virtual: true,
                    min_occurs: if max_occurs.is_vec() {
                        Default::default()
                    } else {
                        min_occurs
                    },
                    max_occurs,
                }''')],
  files={"s.xsd": sch(el("r", '<xs:sequence><xs:sequence minOccurs="0"><xs:choice minOccurs="0" maxOccurs="unbounded"><xs:element name="aa" type="xs:string"/><xs:element name="bc" type="xs:string"/></xs:choice><xs:element name="d" type="xs:string"/></xs:sequence></xs:sequence>')),
   "main.rs": M + '''
fn main() {
    let r = m::R::from_xml("<r><d>1</d></r>").unwrap();
    let back = String::from_utf8(r.to_xml().unwrap()).unwrap();
    assert!(back.contains("<d>1</d>"), "{back}");
}
'''}),
 dict(id="fixed-named", property="P16",
  needs="an extension without a sequence whose base has element content and attributes on both",
  breaks="attributes of an extension are written on nothing: they are set after the base has started the element",
  edits=[("xsd-internal/src/ast/element_definition.rs", '''        let mut ts = TokenStream::new();
        for attr in &self.attributes {
            ts.append_all(attr.to_xml_impl(ctx));
        }

        // let''', '''        let mut ts = TokenStream::new();
        for attr in self.attributes.iter().filter(|attr| {
            attr.default.is_none() || !matches!(self.content, Some(ElementContent::Leaf(..)))
        }) {
            ts.append_all(attr.to_xml_impl(ctx));
        }

        // let''')],
  files={"s.xsd": sch('<xs:complexType name="B"><xs:attribute name="k" type="xs:string"/></xs:complexType>' + el("r", '<xs:complexContent><xs:extension base="B"><xs:attribute name="j" type="xs:string" default="d"/></xs:extension></xs:complexContent>')),
   "main.rs": M + '''
fn main() {
    let r = m::R::from_xml("<r k='1' j='2'/>").unwrap();
    let back = String::from_utf8(r.to_xml().unwrap()).unwrap();
    assert_eq!(m::R::from_xml(back).unwrap(), r);
}
'''}),
 dict(id="optional-vec-of-groups", property="P01",
  needs="an optional repeated group in front of another element, with none in the document",
  breaks="an absent repeated group is read as present and empty",
  edits=[(L, '''                            vec.push(#value);
                        }
                        vec
                    }
                };

                if self.is_optional() {
                    value = quote! {
                        let val = #value;
                        if val.is_empty() {
                            None
                        } else {
                            Some(val)
                        }
                    }
                }''', '''                            vec.push(#value);
                        }
                        vec
                    }
                };

                if self.is_optional() {
                    value = quote! { Some(#value) }
                }''')],
  files={"s.xsd": sch(el("r", '<xs:sequence><xs:choice minOccurs="0" maxOccurs="unbounded"><xs:element name="aa" type="xs:string"/><xs:element name="bc" type="xs:string"/></xs:choice></xs:sequence>')),
   "main.rs": M + '''
fn main() {
    let r = format!("{:?}", m::R::from_xml("<r/>").unwrap());
    assert!(r.contains("None"), "{r}");
}
'''}),
 dict(id="peek-swallows", retired=True, property="P06",
  needs="a repeated element followed by an optional group",
  breaks="next_child drops an element that was peeked at and does not match, if it is the last one",
  edits=[(D, '''            if has_name(&next, name, namespace) {
                return Some(Node::new(next));
            }
            children.next = Some(next)
        }
        None''', '''            if has_name(&next, name, namespace) {
                return Some(Node::new(next));
            }
            if next.next_sibling_element().is_some() || next.prev_sibling_element().is_none() {
                children.next = Some(next)
            }
        }
        None''')],
  files={"main.rs": '''
fn main() {
    let doc = xsd::decode::decode("<r><a/><b/></r>").unwrap();
    let r = doc.try_child("r", None).unwrap();
    assert!(r.next_child("a", None).is_some());
    assert!(r.next_child("a", None).is_none());
    assert!(r.next_child("b", None).is_some());
}
'''}),
]
