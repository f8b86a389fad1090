#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
DE="yaserde/src/de/mod.rs"; SER="yaserde/src/ser/mod.rs"; PRIM="yaserde/src/primitives.rs"; LIB="yaserde/src/lib.rs"
DS="yaserde_derive/src/de/expand_struct.rs"; DEN="yaserde_derive/src/de/expand_enum.rs"; DDV="yaserde_derive/src/de/build_default_value.rs"
SS="yaserde_derive/src/ser/expand_struct.rs"; SEN="yaserde_derive/src/ser/expand_enum.rs"; SI="yaserde_derive/src/ser/implement_serializer.rs"
SEL="yaserde_derive/src/ser/element.rs"; SL="yaserde_derive/src/ser/label.rs"; SN="yaserde_derive/src/ser/namespace.rs"
CA="yaserde_derive/src/common/attribute.rs"; CF="yaserde_derive/src/common/field.rs"; DP="yaserde_derive/src/primitives.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe) or ["yaserde::ser::to_string","yaserde::de::from_str"],"hook_needed":None}})

p("C01","Round trip: what is serialized deserializes to an equal value",
 "For every value of a type that derives both traits, deserializing the document that serializing the value produces succeeds and yields an equal value. It holds for every combination of structs, enums, options, vectors, scalars, attributes, text, CDATA, renamed, prefixed, flattened and generic members, at any nesting. (Text is compared after trimming; enum variants holding None or an empty vector, variants with named fields, vector attributes, an optional text member holding the empty string and unprefixed members of a default namespace have no round trip by design.)",
 ["inputs","programs"],"all values of all derivable types; checked: every value over a small scalar alphabet, up to a size bound, for each type of a corpus that crosses every member kind with every other",
 "The tests round-trip one hand-picked value per type; interactions between member kinds, emptiness, repetition and nesting depth are never crossed.",
 [DS,DEN,SS,SEN,SI,CF],[("generated serialize/deserialize pair","yaserde_derive/src/{ser,de}/expand_*.rs"),("name of a member",CF+" renamed_label")],
 [("depth","element start seen yet",DS),("enum_value","selected variant",DEN)])

p("C02","Serialized documents are well formed and have the prescribed shape",
 "Serializing any value yields a well-formed, namespace-well-formed XML document whose element structure is exactly the one the type's derive attributes prescribe: element and attribute names, prefixes bound to the declared namespaces, nesting, order of elements, one element per option or vector item, text and CDATA sections where declared, and nothing else. An independent XML parser reads it as that structure.",
 ["inputs","programs"],"all values of all derivable types; checked: every value of the corpus' bounded value space",
 "The tests compare a few dozen literal strings; no test judges a document by a reference description of its type.",
 [SS,SEN,SI,SEL,SL,SN,CF,SER],[("start element with attributes and namespaces",SI),("element for a member",SEL)],
 [("start_event_name/skip_start_end","name and suppression of the next element",SER)])

p("C03","Deserialization reads each member from its own place and nowhere else",
 "Deserializing a well-formed document yields the value the type's description assigns to it: an element member from the child elements of its name (the last one for a single member, all of them for a vector), an attribute member from the attribute of the element itself, a text member from the element's own text. Elements of the same name elsewhere (ancestors, descendants, unknown subtrees, the element itself) never contribute.",
 ["inputs"],"all documents; checked: every element tree up to a node bound over the type's own names plus a foreign one, for each type of the corpus, against a reference interpreter",
 "Tests feed documents of the expected shape; name coincidences between levels, repeated, missing and malformed members combine without bound.",
 [DS,DEN,DE,PRIM],[("event loop matching (namespace, name)",DS),("skip of unknown subtrees",DE+" skip_element")],
 [("Deserializer.depth","open elements",DE),("Deserializer.peeked","event looked at but not consumed",DE)],["yaserde::de::from_str"])

p("C04","The order of differently named siblings and of attributes does not matter",
 "Permuting the attributes of an element, and permuting child elements of a struct in any way that keeps the relative order of equally named ones, does not change the result of deserialization, whether that is a value or an error.",
 ["inputs"],"all documents and permutations; checked: all permutations of the children and of the attributes of documents of the bounded space",
 "Tests write members in declaration order; the number of orders is factorial and state left over from one member only shows in front of particular others.",
 [DS,DEN,DE],[("name-driven matching",DS)],[("depth","drifts if a member is not consumed exactly",DS)],["yaserde::de::from_str"])

p("C05","Foreign content is ignored wherever it stands",
 "Inserting content the type does not describe - unknown elements with any content (including the type's own names inside), unknown attributes, comments, processing instructions, insignificant whitespace, an XML declaration or a doctype - at any position between members does not change the deserialized value. The same holds inside nested structs, enums, and structs with flattened members.",
 ["inputs"],"all insertions at all positions; checked: every single and every pair of insertions of each foreign fragment at every position of the documents of the corpus values",
 "Tests contain two or three hand-written unknown elements; positions times fragments times nesting is not sampled.",
 [DS,DEN,DE],[("unknown element skipping",DS),("events filtered",DE+" inner_next"),("reader configuration",DE+" new_from_reader")],(),["yaserde::de::from_str"])

p("C06","Absent and unusable members are defaulted or reported exactly as declared",
 "A member for which the document has no usable content is None if optional, empty if a vector, the value of its default function if it has one, the variant marked default for an enum whose element names no known variant, and otherwise an error naming the member and its type; never a made-up value. A scalar element whose content cannot be parsed counts as absent; a scalar attribute that cannot be parsed is an error.",
 ["inputs"],"all subsets of absent or unusable members; checked: every subset of members removed, emptied, or replaced by each of a set of unusable contents, for each type",
 "Tests remove single members of a few types; subsets and combinations with unusable content are not covered.",
 [DS,DEN,DDV],[("struct_builder",DS),("build_default_value",DDV)],(),["yaserde::de::from_str"])

p("C07","Deserialization is total: a value or an error, for any input",
 "For every input, well formed or not, deserialization terminates without panicking or aborting. A document that is truncated inside its root element, or that the underlying XML parser rejects anywhere up to the end of its root element, never yields a value.",
 ["inputs"],"all byte strings; checked: every prefix and every single-token deletion, duplication, replacement and swap of the corpus documents, and all token strings up to a length bound",
 "Tests exercise two malformed documents; a loop that never ends or a panic needs a particular combination of element names, position and type.",
 [DE,DS,DEN,PRIM],[("EndDocument handling",DS),("errors propagated",DE)],[("Deserializer.depth","must not underflow",DE)],["yaserde::de::from_str"])

p("C08","Results do not depend on how input is delivered; read errors surface",
 "Deserializing from a reader gives the same result as from the complete string however the bytes are split over read calls, and whichever encoding known to the parser (byte order mark or declaration) they are in. If the reader fails before the end of the root element has been delivered, the result is an error; no partial value is ever returned.",
 ["inputs","fault_sequences"],"all splits and all failure points; checked: every single failure point and every one- and two-cut split plus one-byte delivery of the corpus documents",
 "No test uses a reader that returns short reads or errors.",
 [DE,DS,DEN,PRIM],[("from_reader",DE)],(),["yaserde::de::from_reader"])

p("C09","Output does not depend on how it is accepted; write errors surface",
 "Serializing to a writer produces the same bytes as serializing to a string however many bytes each write call accepts. If the writer fails at any point while the document is being produced, even once, serialization returns an error, and what was accepted before is a prefix of the document.",
 ["inputs","fault_sequences"],"all acceptance patterns and failure points; checked: every write call of every corpus document failing once or for good, and every constant acceptance size",
 "No test uses a writer that can fail or accept fewer bytes.",
 [SER,SI,SS,SEN,SEL,PRIM,LIB],[("map_err on every write","generated code"),("serialize_with_writer",SER)],(),["yaserde::ser::serialize_with_writer"])

p("C10","Elements match by namespace and local name, never by prefix",
 "An element supplies a member exactly if its local name is the member's and its namespace is the one the member's declared prefix stands for (no namespace if it has none), however the document spells prefixes and wherever it declares them. A root element in a namespace other than the type's is an error. Equal local names in different namespaces stay distinct, and serialized names resolve to the declared namespaces.",
 ["inputs"],"all prefix spellings and namespace assignments; checked: all assignments of namespaces to the elements of the namespaced corpus types times all spelling styles",
 "Tests use one document per namespaced type, with the prefixes spelled as in the derive attribute.",
 [DS,DEN,CA,CF,SN,SI,SL],[("get_namespace_matching",CA),("prefix_namespace",CF)])

p("C11","Text and attribute values survive unchanged and cannot become markup",
 "Every string of XML characters, put in an element, attribute, text or CDATA member, is written so that an XML parser reads back exactly that string as character data: no character of it is dropped, changed or interpreted as markup. Deserialization returns the same string, up to the trimming of surrounding whitespace in element text.",
 ["inputs"],"all strings; checked: all strings up to a length bound over an alphabet of markup characters, quotes, whitespace, non-ASCII and CDATA terminators, in every string position",
 "The tests use one or two strings with markup characters.",
 [SS,SEN,SEL,SI,SER,DE,DS,PRIM],[("characters/cdata/attr events",SEL)])

p("C12","Configuration changes layout only",
 "For every configuration, the serialized document has the same elements, attributes and text as with the default configuration: indentation only adds whitespace between elements and the declaration is present exactly if requested. Deserializing it yields the same value, and content-only serialization yields exactly what stands inside the root element.",
 ["configurations","inputs"],"all configurations and values; checked: every combination of the configuration switches and several indent strings for every value of the bounded value space",
 "One test checks one indented document.",
 [SER],[("new_from_writer",SER),("serialize_with_writer_content",SER)],(),["yaserde::ser::to_string_with_config","yaserde::ser::to_string_content"])

p("C13","Skipped members are absent from the output, all others are present",
 "A member marked skip_serializing is never written, one with skip_serializing_if is written exactly if its predicate is false, and one with a default function is written exactly if its value differs from the default; every other member with a value is always written. This holds for elements, attributes, text, options, vectors, nested and flattened members alike, and omission of one member does not affect how any other is written.",
 ["inputs","programs"],"all values of all types using these attributes; checked: every combination of member values over a small alphabet",
 "Tests check one or two values per attribute and never combine skip, predicate and default on one member or several members.",
 [SEL,CF,SS],[("condition_generator",SEL),("ser_wrap_default_attribute",CF)],(),["yaserde::ser::to_string"])

p("C14","A flattened member behaves as if its members stood in the parent",
 "Serializing a struct with a flattened struct member produces the same elements and attributes as a struct with those members written in its place, and deserializing any document gives corresponding results; an optional flattened member is present exactly if its members can be read. Flattening nests to any depth and beside ordinary members of every kind.",
 ["inputs","programs"],"all values and documents; checked: all bounded documents and values for pairs of a type with flattened members and its inlined twin",
 "Five tests use one document each; none compares with the inlined equivalent.",
 [DS,SS,SI],[("re-written unused events",DS+" build_code_for_unused_xml_events"),("serialize_attributes",SI)],[("writer/buf","document left over for flattened members",DS)])

p("C15","The deserializer cursor is a faithful view of the document",
 "For every document and every sequence of operations on a deserializer (peek, next event, skip element, read inner value, expect end element), peeking consumes nothing and shows exactly the event the next read returns, every event is delivered once and in document order, the depth equals the number of open elements read, skipping stops exactly after the end of the element the cursor is in, and the inner-value helpers accept exactly a complete matching element.",
 ["histories","inputs"],"all operation sequences on all documents; checked: every sequence of operations up to a depth on a set of documents, against a reference cursor over the event list",
 "The cursor is only tested through generated code; hand-written deserializers combine the operations freely.",
 [DE],[("peek/next_event/skip_element/read_inner_value/expect_end_element",DE)],[("depth","open elements",DE),("peeked","pending event",DE)],["yaserde::de::Deserializer"])

p("C16","An enum value is selected by exactly the variant its element names",
 "Deserializing an enum yields the variant that is named by a child element, by the element's text (unit variants), or by the tag attribute of a tagged enum (whose payload is then the child element of that name), with that variant's own payload, and repeated elements of a vector variant collect in order. An element that names no variant yields the default variant; names occurring elsewhere select nothing, and an enum between other members leaves them untouched.",
 ["inputs"],"all enum element contents in all contexts; checked: every content tree up to a bound over variant names, foreign names and texts, alone and between siblings",
 "Tests read each variant once from a well-shaped document.",
 [DEN,SEN],[("variant matching",DEN)],[("enum_value","selected variant",DEN)])

p("C17","Derived primitive types are transparent and exact",
 "A type deriving the primitive traits is written as exactly its text form wherever it stands (root, element, attribute, optional, vector, or with another name) and reading that text gives an equal value; text its parser rejects is an error, never another value. The hexadecimal derive writes uppercase hexadecimal of at least two digits and reads back every value it writes.",
 ["inputs"],"all values; checked: every 8- and 16-bit value and a bounded string set in every position",
 "No test covers the hexadecimal derive, and the others are tested with one value each.",
 [DP,PRIM],[("serialize_primitives/deserialize_primitives",PRIM),("Display/FromStr derives",DP)])

p("C18","A value is treated the same in every context",
 "The element written for a nested value depends only on that value and the member's name, not on siblings, on position, on what was serialized before, on how often it is serialized, or on whether the library's log is observed; it equals the value's own document up to the element name. Likewise what is read from an element depends on that element only, not on what stands before or after it or on earlier calls.",
 ["inputs","histories"],"all pairs of values in all pairs of positions; checked: every ordered pair of values from the corpus in adjacent positions and every pair of consecutive calls",
 "State carried from one member to the next (element name, suppression, depth) only shows for particular neighbours, which tests do not pair up.",
 [SER,SS,SEN,SI,DS,DEN],[("set_start_event_name/set_skip_start_end before each nested value",SS)],[("start_event_name, skip_start_end","carried from one value to the next",SER),("depth","carried between members",DS)])

p("C19","Scalars are read and written exactly",
 "Each scalar is written as its exact decimal (or true/false) text and read back to the same value, in elements, attributes, options, vectors, enum payloads and primitive newtypes. A numeral that is out of the type's range or not a numeral of that type is never turned into some other number, and boolean members accept exactly true, false, 1 and 0 (a primitive newtype of bool: true and false).",
 ["inputs"],"all scalar values and texts; checked: all 8- and 16-bit values, all boundary values and bit patterns of the wider types, and all texts up to a length bound over a numeral alphabet",
 "Tests use one or two small values per scalar type.",
 [DS,DEN,LIB,SEL,SS,CF],[("FromStr based visitors",DS),("Display based writers",SEL),("type name to scalar kind",CF)])

p("C20","Lists keep all their items in document order",
 "A vector member receives every element of its name (or every whitespace-separated token of its attribute) in document order and nothing else, however they are interleaved with other members and foreign content, and is written as its items in order. Two vectors of one struct never exchange, merge or lose items.",
 ["inputs"],"all interleavings of list items; checked: every sequence up to a length bound over the items of two lists, a single member and a foreign element",
 "Tests list items contiguously, one list at a time.",
 [DS,SS,DEN],[("push on each match",DS)])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
