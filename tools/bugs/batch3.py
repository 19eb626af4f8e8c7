R = "xsd-internal/src/ast/root.rs"
N = "xsd-internal/src/ast/namespaces.rs"
D = "xsd/src/decode.rs"
P = "xsd-internal/src/xsd/parse/"
XS = 'xmlns:xs="http://www.w3.org/2001/XMLSchema"'
LOADER = '''
use xsd_internal::ast::*;
use xsd_internal::xsd::schema::Schema;
#[allow(dead_code)]
fn load(s: &str) -> Schema { Schema::parse(s, "demo.xsd").unwrap() }
'''
M = '''
#[xsd::all(schema = "s.xsd")] mod m {}
'''
def sch(body, attrs=""):
    return f"\n<xs:schema {XS}{attrs}>{body}</xs:schema>"
def el(name, content, ):
    return f'<xs:element name="{name}"><xs:complexType>{content}</xs:complexType></xs:element>'
def text(s):
    return 'r#"' + s.strip() + '"#'

BUGS = [
 dict(id="facet-pattern-twice", property="P22",
  needs="a simple type with two pattern facets",
  breaks="of several patterns only the last one is kept",
  edits=[(P + "simple_type.rs", '''            "pattern" => restrictions.push(Restriction::Pattern(
                child.try_attribute("value")?.value().into_owned(),
            )),
''', '''            "pattern" => {
                let pattern =
                    Restriction::Pattern(child.try_attribute("value")?.value().into_owned());
                restrictions.retain(|r| !matches!(r, Restriction::Pattern(_)));
                restrictions.push(pattern)
            }
''')],
  files={"main.rs": LOADER + '''
fn main() {
    let s = load(%s);
    let (_, root) = s.elements().next().unwrap();
    let Root::Leaf(def) = root else { panic!() };
    assert_eq!(def.restrictions, vec![Restriction::Pattern("a+".into()), Restriction::Length(2), Restriction::Pattern("b+".into())]);
}
''' % text(sch('<xs:simpleType name="T"><xs:restriction base="xs:string"><xs:pattern value="a+"/><xs:length value="2"/><xs:pattern value="b+"/></xs:restriction></xs:simpleType>'))}),
 dict(id="occurs-saturate", property="P22",
  needs="a maxOccurs of more than 65535",
  breaks="large bounds are taken for unbounded",
  edits=[(P + "element.rs", '''                Ok(MaxOccurs::Number(u32::from_str(&val).map_err(|err| {
                    XsdError::ParseInt {
                        err,
                        range: attr.range(),
                    }
                })?))
''', '''                let max = u32::from_str(&val).map_err(|err| XsdError::ParseInt {
                    err,
                    range: attr.range(),
                })?;
                if max > u16::MAX.into() {
                    // practically unbounded
                    return Ok(MaxOccurs::Unbounded);
                }
                Ok(MaxOccurs::Number(max))
''')],
  files={"main.rs": LOADER + '''
fn main() {
    let s = load(%s);
    let (_, root) = s.elements().next().unwrap();
    let Root::Element(ElementDefinition { content: Some(ElementContent::Leaves(leaves)), .. }) = root else { panic!() };
    assert_eq!(leaves[0].max_occurs, MaxOccurs::Number(70000));
}
''' % text(sch(el("r", '<xs:sequence><xs:element name="a" type="xs:int" maxOccurs="70000"/></xs:sequence>')))}),
 dict(id="default-trim", property="P22",
  needs="an attribute whose default value has white space around it",
  breaks="the default value of an attribute is trimmed",
  edits=[(P + "attribute.rs", 'node.attribute("default").map(|a| a.value().to_string())', 'node.attribute("default").map(|a| a.value().trim().to_string())')],
  files={"main.rs": LOADER + '''
fn main() {
    let s = load(%s);
    let (_, root) = s.elements().next().unwrap();
    let Root::Element(def) = root else { panic!() };
    assert_eq!(def.attributes[0].default.as_deref(), Some(" x "));
}
''' % text(sch(el("r", '<xs:attribute name="a" type="xs:string" default=" x "/>')))}),
 dict(id="enum-numeric-start", retired=True, property="P11",
  needs="an enumeration value that starts with a number that is no ASCII digit",
  breaks="the schema cannot be generated",
  edits=[(R, '.map(|c| !c.is_alphabetic())', '.map(|c| c.is_ascii_digit())')],
  files={"s.xsd": sch('<xs:element name="r"><xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="\u00bd"/><xs:enumeration value="1"/></xs:restriction></xs:simpleType></xs:element>'),
   "main.rs": M + '''
fn main() {
    assert_eq!(m::R::from_xml("<r>\u00bd</r>").unwrap().as_str(), "\u00bd");
}
'''}),
 dict(id="fixed-empty", property="P15",
  needs="an attribute with an empty fixed value",
  breaks="an empty fixed value is ignored: the attribute may have any value",
  edits=[(P + "attribute.rs", '''                if let Some(attr) = node.attribute("fixed") {
''', '''                if let Some(attr) = node.attribute("fixed").filter(|a| !a.value().is_empty()) {
''')],
  files={"main.rs": LOADER + '''
fn main() {
    let s = load(%s);
    let code = s.generate_all().unwrap().to_string();
    assert!(code.contains("FixedMismatch"), "{code}");
}
''' % text(sch(el("r", '<xs:attribute name="a" type="xs:string" fixed=""/>')))}),
 dict(id="ns-prefix-wraps", property="P08",
  needs="a schema over more than nine namespaces",
  breaks="two namespaces get one prefix, so elements are written in the wrong one",
  edits=[(N, 'prefix: format!("ns{}", id),', 'prefix: format!("ns{}", (id - 1) % 9 + 1),')],
  files={**{f"f{i}.xsd": f'\n<xs:schema {XS} targetNamespace="urn:{i}"' + ' elementFormDefault="qualified"><xs:element name="e%d" type="xs:int"/></xs:schema>' % i for i in range(1, 11)},
   "s.xsd": f'\n<xs:schema {XS} ' + " ".join(f'xmlns:p{i}="urn:{i}"' for i in range(1, 11)) + ' targetNamespace="urn:r" elementFormDefault="qualified">' + "".join(f'<xs:import namespace="urn:{i}" schemaLocation="f{i}.xsd"/>' for i in range(1, 11))
      + el("r", "<xs:sequence>" + "".join(f'<xs:element ref="p{i}:e{i}"/>' for i in range(1, 11)) + "</xs:sequence>") + "</xs:schema>",
   "main.rs": M + '''
fn main() {
    let kids: String = (1..=10).map(|i| format!("<e{i} xmlns='urn:{i}'>{i}</e{i}>")).collect();
    let r = m::R::from_xml(format!("<r xmlns='urn:r'>{kids}</r>")).unwrap();
    let xml = String::from_utf8(r.to_xml().unwrap()).unwrap();
    assert_eq!(m::R::from_xml(&xml).unwrap(), r, "{xml}");
}
'''}),
 dict(id="optional-ref-dependency", property="P19",
  needs="a type that is only reached by an optional reference",
  breaks="the element an optional reference refers to is not generated along",
  edits=[(P + "element.rs", '''            ctx.discover_type(&name, Some(parent));

            return Ok(Leaf {''', '''            if min_occurs != MinOccurs(0) {
                ctx.discover_type(&name, Some(parent));
            }

            return Ok(Leaf {''')],
  files={"main.rs": LOADER + '''
fn main() {
    let s = load(%s);
    let (name, _) = s.elements().find(|(n, _)| n.name == "r").unwrap();
    let code = s.generate_element_and_dependencies(name, &mut Default::default()).unwrap().to_string();
    assert!(code.contains("struct G"), "{code}");
}
''' % text(sch(el("r", '<xs:sequence><xs:element ref="g" minOccurs="0"/></xs:sequence>') + el("g", '<xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence>')))}),
 dict(id="allow-dtd", property="P23",
  needs="a document with a document type declaration",
  breaks="document type declarations are accepted and their entities expanded",
  edits=[(D, '''    let doc = roxmltree::Document::parse(input)?;
''', '''    let options = roxmltree::ParsingOptions {
        allow_dtd: true,
        ..Default::default()
    };
    let doc = roxmltree::Document::parse_with_options(input, options)?;
''')],
  files={"main.rs": '''
fn main() {
    let r = xsd::decode::decode("<!DOCTYPE r [<!ENTITY e 'text'>]><r>&e;</r>");
    assert!(r.is_err());
}
'''}),
 dict(id="lookahead-any-namespace", property="P08",
  needs="an optional choice followed by an element of the same name in another namespace",
  breaks="the lookahead of a choice does not look at the namespace",
  edits=[(R, '''                        let namespace_xml = ctx.quote_xml_namespace(&variant.name);
                        quote! {
                            node.peek_child(#name_xml, #namespace_xml)
                        }
                    }
                });

                quote! {
                    false #(|| #checks)*
                }
            }
        }
    }
}
''', '''                        let namespace_xml = ctx.quote_xml_namespace(&variant.name);
                        let other = ctx.namespaces.iter().map(|(_, ns)| {
                            let uri = &ns.namespace;
                            quote! { || node.peek_child(#name_xml, Some(#uri)) }
                        });
                        quote! {
                            node.peek_child(#name_xml, #namespace_xml) #(#other)*
                        }
                    }
                });

                quote! {
                    false #(|| #checks)*
                }
            }
        }
    }
}
''')],
  files={"b.xsd": f'\n<xs:schema {XS} targetNamespace="urn:b"><xs:element name="x" type="xs:int"/></xs:schema>',
   "s.xsd": f'\n<xs:schema {XS} xmlns:b="urn:b" xmlns:a="urn:a" targetNamespace="urn:a" elementFormDefault="qualified"><xs:import namespace="urn:b" schemaLocation="b.xsd"/>'
     + el("r", '<xs:sequence><xs:choice minOccurs="0"><xs:element name="x" type="xs:int"/><xs:element name="y" type="xs:int"/></xs:choice><xs:element ref="b:x"/></xs:sequence>') + "</xs:schema>",
   "main.rs": M + '''
fn main() {
    m::R::from_xml("<r xmlns='urn:a'><x xmlns='urn:b'>1</x></r>").unwrap();
}
'''}),
 dict(id="prohibited-keeps-type", property="P19",
  needs="a prohibited attribute with an inline enumeration",
  breaks="an optional attribute that follows a prohibited one is lost",
  retired=True, edits=[], files={}),
]
