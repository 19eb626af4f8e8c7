import json,subprocess
H='<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"'
def s(body,attrs=' xmlns="urn:a" targetNamespace="urn:a" elementFormDefault="qualified"'): return H+attrs+'>'+body+'</xs:schema>'
F=[]
def f(id,prop,what,files,seen,**k):
    if isinstance(files,str): files={"main.xsd":files}
    F.append(dict(id=id,property=prop,what=what,files=files,seen=seen,**k))
f("F01","P09","a schema without targetNamespace that is included keeps no namespace (chameleon include): its elements are refused in the including schema's namespace",
  {"main.xsd":s('<xs:include schemaLocation="inc.xsd"/>'),"inc.xsd":H+' elementFormDefault="qualified"><xs:element name="thing"><xs:complexType><xs:sequence><xs:element name="x" type="xs:string"/></xs:sequence></xs:complexType></xs:element></xs:schema>'},
  ["err","MissingElement"],type="Thing",document='<thing xmlns="urn:a"><x>1</x></thing>')
f("F02","P10","an element and a type of the same name but different content share one generated type: the element's content is lost",
  s('<xs:complexType name="thing"><xs:sequence><xs:element name="x" type="xs:string"/></xs:sequence></xs:complexType><xs:element name="thing"><xs:complexType><xs:sequence><xs:element name="y" type="xs:string"/></xs:sequence></xs:complexType></xs:element><xs:element name="user" type="thing"/>'),
  ["err"],type="User",document='<user xmlns="urn:a"><x>1</x></user>')
f("F03","P10","names that differ only in separators or case collide after conversion: code that does not compile (a-b and a_b)",
  s('<xs:element name="thing"><xs:complexType><xs:sequence><xs:element name="a-b" type="xs:string"/><xs:element name="a_b" type="xs:string"/></xs:sequence></xs:complexType></xs:element>'),["compile"])
f("F04","P10","a type named like one of Rust's prelude (Option) shadows it: code that does not compile",
  s('<xs:complexType name="option"><xs:sequence><xs:element name="x" type="xs:string" minOccurs="0"/></xs:sequence></xs:complexType><xs:element name="thing" type="option"/>'),["compile"])
f("F05","P10","a type that contains itself through an optional element has infinite size: code that does not compile",
  s('<xs:complexType name="tree"><xs:sequence><xs:element name="left" type="tree" minOccurs="0"/></xs:sequence></xs:complexType>'),["compile"])
f("F06","P05","a choice one of whose alternatives may be empty refuses the empty document",
  s('<xs:element name="thing"><xs:complexType><xs:choice><xs:element name="a" type="xs:string" minOccurs="0"/><xs:element name="b" type="xs:string"/></xs:choice></xs:complexType></xs:element>'),
  ["err", "MissingVariant"],type="Thing",document="<thing xmlns=\"urn:a\"/>")
f("F07","P08","attributeFormDefault=\"qualified\" is ignored: the qualified attribute is not found",
  s('<xs:element name="thing"><xs:complexType><xs:attribute name="x" type="xs:string" use="required"/></xs:complexType></xs:element>',' xmlns:t="urn:a" targetNamespace="urn:a" attributeFormDefault="qualified"'),
  ["err","MissingAttribute"],type="Thing",document='<t:thing xmlns:t="urn:a" t:x="1"/>')
f("F08","P08","form=\"qualified\" on a local element is ignored: the element is not found",
  s('<xs:element name="thing"><xs:complexType><xs:sequence><xs:element name="x" form="qualified" type="xs:string"/></xs:sequence></xs:complexType></xs:element>',' xmlns:t="urn:a" targetNamespace="urn:a"'),
  ["err", "MissingElement"],type="Thing",document='<t:thing xmlns:t="urn:a"><t:x>1</t:x></t:thing>')
f("F09","P03","a tab in an attribute value is written as it is and read back as a space",
  s('<xs:element name="thing"><xs:complexType><xs:attribute name="x" type="xs:string" use="required"/></xs:complexType></xs:element>'),
  ["ok", ' -> Thing { x: "a b" }'],type="Thing",document='<thing xmlns="urn:a" x="a&#9;b"/>')
f("F10","P03","a carriage return in text is written as it is and read back as a line feed",
  s('<xs:element name="thing"><xs:complexType><xs:sequence><xs:element name="x" type="xs:string"/></xs:sequence></xs:complexType></xs:element>'),
  ["ok", ' -> Thing { x: "a\\nb" }'],type="Thing",document='<thing xmlns="urn:a"><x>a&#13;b</x></thing>')
f("F11","P10","a name without letters (_) panics the generator",
  s('<xs:element name="_" type="xs:string"/>'),["panic"])
f("F14","P10","an extension (with a sequence) of a type named base has two fields named base: code that does not compile",
  s('<xs:complexType name="base"><xs:sequence><xs:element name="x" type="xs:string"/></xs:sequence></xs:complexType><xs:complexType name="more"><xs:complexContent><xs:extension base="base"><xs:sequence><xs:element name="y" type="xs:string"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>'),["compile"])
f("F15","P12","identity constraints (xs:unique) in a local element that has a type attribute are ignored without an error",
  s('<xs:element name="thing"><xs:complexType><xs:sequence><xs:element name="x" type="xs:string"><xs:unique name="u"/></xs:element></xs:sequence></xs:complexType></xs:element>'),["ok"])
f("F16","P12","unknown attributes of xs:extension, xs:restriction and facets are ignored without an error",
  s('<xs:simpleType name="thing"><xs:restriction base="xs:string" nope="1"><xs:enumeration value="a" nope="1"/></xs:restriction></xs:simpleType>'),["ok"])
f("F17","P08","a prefix declared on the element that uses it (not on xs:schema) is refused in type references",
  {"main.xsd":H+' targetNamespace="urn:a" elementFormDefault="qualified"><xs:element xmlns:q="urn:a" name="thing" type="q:T"/><xs:complexType name="T"><xs:sequence><xs:element name="x" type="xs:string"/></xs:sequence></xs:complexType></xs:schema>'},
  ["error","MissingNamespace"])
F.append(dict(id="F12",property="P14",what="a namespace declaration an outer element makes is not written again by an element inside one that gave the prefix another meaning (xml-rs NamespaceStack::put_checked)",
  history="new|p:e;ns|p|urn:2;start;new|p:e;ns|p|urn:1;start;new|p:e;ns|p|urn:2;start;end;pop;end;pop;end;pop",
  seen=['xmlns:p="urn:2"','xmlns:p="urn:1"','<p:e />']))
json.dump({"findings":F,"fixed":["fixed: property=P10 5804f15 a sequence of nothing but a choice got the name of the choice's type, which then contained itself", "fixed: property=P21 ecced2e an empty xs:documentation was refused, and documentation text interrupted by comments or markup was cut off", 'fixed: property=P07 d90e72a an optional xs:all member could only be read in schema order', 'fixed: property=P07 d054eb6 an optional xs:all group was missed unless its first member came first', 'fixed: property=P02 072f8a3 an element of simple or fixed type was written without its own tag', 'fixed: property=P08 9e050a6 the alternatives of a choice were written without their namespace', 'fixed: property=P15 8f4a93d attributes of a named simple type could not be read or written', 'fixed: property=P15 30a322c fixed attributes were not checked or written', 'fixed: property=P05 6375b26 repeated sequences inside a choice did not compile or lost content', 'fixed: property=P10 0c50f38 element names that are Rust keywords gave code that does not compile', 'fixed: property=P10 d987b60 names starting with a non-ASCII letter panicked the generator', 'fixed: property=P10 f24e39e an element of the same name as its type gave an endless type', 'fixed: property=P08 254ee6d unprefixed type references ignored the default namespace', 'fixed: property=P15 bb7e66d attributes in a namespace were taken for unqualified ones', 'fixed: property=P09 381cec9 schemas that include each other were read for ever', "fixed: property=P16 dec37fc the base type's attributes were lost when a sequence was added by extension", 'fixed: property=P18 9feb6ac text was cut at comments, processing instructions and CDATA sections', 'fixed: property=P08 2bdfd95 xmlns="" did not take elements out of the default namespace', 'fixed: property=P17 018080c booleans 1/0 and numbers with surrounding white space or a plus sign were refused', 'fixed: property=P17 387b106 infinite floats were written as inf, not INF', 'fixed: property=P08 1f10f1a unqualified elements were written into the default namespace', 'fixed: property=P06 0bf8ec6 an optional group whose leading groups are empty was not recognised', 'fixed: property=P20 8e05fbb inner attributes of the annotated module were moved in front of it, where they do not compile']},open('/verif/known_findings.json','w'),indent=1)
