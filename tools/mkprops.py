#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":a,"where":b} for a,b in mech],
                 "observe_at":observe,"hook_needed":None}})
PAR=["parser.go"]
XML=["xmlElement.go","xmlComplexType.go","xmlSimpleType.go","xmlAttribute.go","xmlAttributeGroup.go","xmlGroup.go","xmlChoice.go","xmlExtension.go","xmlRestriction.go","xmlUnion.go","xmlList.go","xmlEnumeration.go"]
GEN=["genGo.go","genTypeScript.go","genC.go","genJava.go","genRust.go"]
gold="The existing tests translate one fixed schema (test/xsd/base64.xsd) to each language and compare text; "

p("C01","Every input ends in a result: no panic, hang or host exit",
  "Translating any file, whatever its bytes (well-formed or not, a schema or not, XSD constructs nested in any order, self-, mutually- or repeatedly-including and -importing files), into any supported language returns control to the caller after bounded work, with success or an error value. It never panics, never overflows the stack, never loops, and never terminates the calling process.",
  ["inputs","configurations"],"all byte strings as schema files (singly and in include/import graphs, cyclic ones too), all five languages, generate and extract mode",
  gold+"a crash needs an element order, an empty parse stack or a cyclic file graph that fixture does not contain.",
  PAR+XML+["xmlCharData.go","utils.go"],[("dispatch of every XML start/end tag to a handler by name","parser.go Parse, utils.go callFuncByName"),("handlers that pop and cast the context stacks","xml*.go"),("recursion into included/imported files guarded by the parsed-file map","parser.go GetValueType")],
  ["return value / panic / exit status / liveness of worker processes running the library"],
  [{"name":"context stacks","meaning":"open elements, types, groups, attributes","where":"parser.go Options"}])
p("C02","Success is reported only for a completely read and written translation",
  "A translation (library call or command) reports success only if it read the whole input without an XML syntax error up to its end (a file without any element is an empty schema), could read every schema file (other than one at a URL, which is never read) it needed to resolve a referenced name, and stored the complete generated text in the output file. Malformed or truncated XML, an unreadable or missing input, include or import that is needed, a maxOccurs that is neither a number nor unbounded, an uncreatable output directory or file, and a failing write (full disk, device error) each produce an error value from the library and a non-zero exit status from the command.",
  ["inputs","fault_sequences","crash_points"],"every truncation point and corruption of a schema document; every failing file-system operation of the run (open, stat, mkdir, create, write)",
  gold+"none of them injects a fault or feeds malformed input.",
  PAR+GEN+["utils.go","cmd/xgen/xgen.go"],[("token loop and its error handling","parser.go Parse"),("output directory creation","utils.go PrepareOutputDir"),("file creation and writing","gen*.go Gen<Lang>"),("exit status","cmd/xgen/xgen.go main")],
  ["returned error and process exit status against the state of the output file under injected faults"])
p("C03","Output is a function of the input alone",
  "For a fixed set of input files and options, every translation produces byte-identical output files and the same outcome: repeating it in one process or in a fresh process, after translating any other (also failing or panicking) schemas before, from another working directory, over pre-existing or longer stale output, or again with an option value that has translated the same input successfully, makes no difference.",
  ["histories","inputs"],"all input file sets and all histories of earlier translations in the process",
  gold+"once per process; map-iteration order, leftover global counters and reused parser state only show over repetitions and histories.",
  PAR+["utils.go"]+GEN,[("sorting of union member maps","utils.go toSortedPairs"),("reset of the parse state at the start of Parse","parser.go Parse"),("reset of the name counter at the start of each generation","gen*.go fieldNameCount"),("order in which included files are searched","parser.go GetValueType")],
  ["hashes of all output files over repeated runs, processes and histories"],
  [{"name":"fieldNameCount","meaning":"package-level counter used to make identifiers unique","where":"utils.go"}])
p("C04","Concurrent translations are isolated from each other",
  "Independent translations running at the same time in one process (any mix of schemas and languages, separate option values) are free of data races and each produces exactly the output, parse tree and error it produces when run alone.",
  ["schedules","inputs"],"all interleavings of any number of concurrent translations of any schemas",
  "No existing test runs two translations concurrently, nor under the race detector.",
  GEN+["utils.go","parser.go"],[("package-level state shared by generators","utils.go fieldNameCount"),("per-call generator and parser values","parser.go Parse")],
  ["race-detector reports and output hashes compared with a solo run"])
p("C05","Every schema component becomes exactly one declaration, and nothing else does",
  "Each global simple type, complex type, element, attribute, group and attribute group of the input, and each anonymous complex type of an element, is declared exactly once in the output, under the identifier its name maps to, as the kind of declaration its definition calls for (alias, list, union structure, enumeration, structure). The output declares nothing else: local elements, attributes and anonymous simple types add no declarations, and no component is lost because of what surrounds it.",
  ["inputs"],"all valid schemas built from the supported constructs, all five languages",
  gold+"which has six shapes of component and none nested inside, before or after the ones that disturb the parser's context stacks.",
  XML+GEN,[("promotion of finished components to the tree","xml*.go End* handlers"),("per-kind generators and name de-duplication","gen*.go")],
  ["declarations parsed back from the generated source, matched with an independent schema model"])
p("C06","Structures own exactly their members, in document order",
  "The structure generated for a complex type, element with an anonymous complex type, group or attribute group has exactly one member for every element, attribute, group reference and attribute group reference that its definition contains at any depth of sequence, choice and all, and none that belongs to another definition (enclosing, nested, preceding or following). Members of one category appear in document order, and union structures have one member per listed member type.",
  ["inputs"],"all content models: arbitrary nesting of model groups, anonymous types inside anonymous types, references, inline simple types, derivations",
  gold+"whose content model nests two levels deep once.",
  XML+GEN,[("attachment of members to the innermost open component","xmlElement.go OnElement, xmlAttribute.go EndAttribute, xmlGroup.go, xmlAttributeGroup.go"),("opening and closing of nested types","xmlComplexType.go, xmlSimpleType.go")],
  ["members parsed back from the generated source, matched with the schema model"])
p("C07","Serialized names are the schema's names",
  "Where the target language records the XML name (Go field tags and XMLName, Java annotations, Rust rename attributes), it is exactly the name written in the schema for that attribute, element or type, whatever characters it contains, and attributes are distinguished from elements in Go, Java and C. The program identifier beside it is the fixed, injective-enough mapping of that name: letters and digits preserved, separators dropped, parts capitalised (snake case in Rust fields).",
  ["inputs"],"all XML names (case, digits, separators, non-ASCII letters, target-language keywords and built-in names) in all member positions",
  gold+"whose names are nine plain ASCII identifiers.",
  GEN+["utils.go","xmlElement.go","xmlAttribute.go"],[("identifier construction","gen*.go gen<Lang>FieldName"),("tags and annotations","gen*.go")],
  ["names in tags and annotations parsed back from the generated source"])
p("C08","A member is a list exactly when the schema lets it repeat",
  "A member generated for an element or group reference is of list/array type if and only if it, or one of the model groups (sequence, choice, all) that enclose it within the same definition, has a maxOccurs greater than one or unbounded; when the same element occurs in several branches of a content model, if any of those occurrences may repeat. Occurrence constraints never leak to siblings, to nested anonymous types or to other definitions, and 'unbounded' and every decimal bound are understood.",
  ["inputs"],"all combinations of minOccurs/maxOccurs on elements, group references and nested model groups",
  gold+"with one unbounded choice and no plural sequence, group or nested anonymous type.",
  ["xmlElement.go","xmlChoice.go","xmlGroup.go"]+GEN,[("parsing of maxOccurs","xmlElement.go, xmlChoice.go, xmlGroup.go"),("inherited plurality","xmlChoice.go"),("merging of repeated elements","xmlElement.go OnElement")],
  ["list layers of member types parsed back from the generated source"])
p("C09","Attribute optionality follows the use attribute",
  "An attribute is generated as optional in Go, TypeScript, C, Java and Rust (omitempty, null, 'optional', not required, Option) unless its schema says use=\"required\", in complex types, in derived types and in attribute groups alike, whatever its type or position and however it is declared (by name, by reference, with an anonymous type).",
  ["inputs"],"all attribute declarations and uses in all positions",
  gold+"with one required attribute, in one complex type.",
  ["xmlAttribute.go"]+GEN,[("use parsing","xmlAttribute.go OnAttribute"),("per-language optional markers","gen*.go ComplexType/AttributeGroup")],
  ["optional markers parsed back from the generated source"])
p("C10","Built-in types map to the documented language types everywhere",
  "Every built-in XML Schema type maps, in every position it can occupy (element, attribute, restriction base, simple-content base, list item, union member; local, global, in groups and attribute groups) and however its prefix is spelt, to the language type the project documents for it, in all five languages. The mapping does not depend on the position or on other content of the schema.",
  ["inputs","configurations"],"built-in type x position x language, exhaustively, within otherwise random schemas",
  gold+"which uses six of the 48 built-ins in few positions.",
  ["utils.go","parser.go"]+GEN,[("type table","utils.go BuildInTypes"),("lookup","parser.go GetValueType, utils.go getBuildInTypeByLang"),("per-language built-in sets","gen*.go")],
  ["types parsed back from the generated source, against a frozen copy of the documented table"])
p("C11","Type references resolve to the right definition, in any order",
  "A member, alias, list or union whose schema type is user-defined denotes in the output exactly that definition: simple types reduce, through any chain of restrictions, to their built-in base (with list layers kept), and complex types to the declaration of that name, whether declared before or after the use, with any namespace prefix. No generated type name is left undeclared.",
  ["inputs"],"all reference graphs among simple and complex types: chains, forward and backward references, lists of restrictions, unions, recursion",
  gold+"where every type is referenced once, backwards, at distance one.",
  ["parser.go","utils.go"]+GEN,[("resolution while parsing","parser.go GetValueType"),("resolution while generating","utils.go getBasefromSimpleType")],
  ["fully expanded member types parsed back from the generated source"])
p("C12","Derived types carry their base",
  "In Go, TypeScript, Java and Rust (C output has no bases, a documented gap), a complex type with simple content holds a value member of the language type of its base; a complex type extending another complex type embeds or inherits exactly that base, and no other type does; its own members are only those the derivation adds. This holds for named and anonymous types, for any chain of derivations and any declaration order.",
  ["inputs"],"all derivation graphs over simple and complex bases, declared in any order",
  gold+"with one complex and three simple extensions, all bases built in or declared earlier.",
  ["xmlExtension.go"]+GEN,[("recording of the base","xmlExtension.go OnExtension"),("value member / embedding / extends","gen*.go ComplexType")],
  ["bases and value members parsed back from the generated source"])
p("C13","Splitting a schema over included and imported files changes no types",
  "Moving components of a schema to other files connected by include or import (in sub-directories, transitively, cyclically, in any order, with any prefixes) changes neither which declarations exist overall nor the meaning of any member: a reference resolves to the same built-in or declaration as in the single-file schema. Each file's own output declares that file's components, and translating a directory gives every file the output it gets when translated alone.",
  ["inputs","configurations"],"all partitions of a schema's components into files and all include/import graphs over them",
  "The existing tests have no include and no import at all.",
  ["parser.go","schema.go","xmlInclude.go","xmlImport.go"],[("namespace to location map","schema.go"),("search of included and imported trees","parser.go GetValueType"),("nested parsers","parser.go GetValueType")],
  ["per-file outputs parsed back and compared with the single-file model"])
p("C14","Generated Go code compiles and carries valid documents without loss",
  "The Go files generated for a schema compile together with exactly the imports they need, and an instance document that is valid for the schema decodes (encoding/xml) into the generated type of its root and encodes back to a document with the same elements, attributes, character values and order of the elements of each name. Nothing in the instance is dropped, duplicated or altered. This holds for schemas made of elements, attributes, simple types (restrictions, lists of strings) and complex types (sequences, choices, simple content, extensions), whose complex types have names that are Go identifiers in the generated spelling; groups, attribute groups, unions, QName, time, lists of numbers, mixed content and wildcards are not carried by encoding/xml, and an optional attribute with the zero value or an optional simple element may come back absent or empty.",
  ["inputs","programs"],"all schemas of that subset, and all valid instance documents of each",
  gold+"and round-trips a single document of it.",
  ["genGo.go","xmlElement.go","xmlExtension.go"],[("field tags","genGo.go GoComplexType"),("import bookkeeping","genGo.go ImportTime/ImportEncodingXML")],
  ["go/types diagnostics and decoded/re-encoded instance documents of compiled generated code"])
p("C15","Generated source is well-formed in every target language",
  "The file generated for any valid schema is accepted by the compiler of its language: Go, TypeScript, Java, Rust (with the runtime libraries it names) and, for definitions without embedded lists, C after its types are ordered. Names that are keywords, contain separators or non-ASCII letters, documentation of any content, and any combination of constructs never break the syntax or leave a type undefined.",
  ["inputs","programs"],"all valid schemas of the supported subset, five languages",
  gold+"none of which compiles the TypeScript, C, Java or Rust output.",
  GEN+["utils.go"],[("text templates","gen*.go"),("keyword escaping","genRust.go rustKeywords"),("comment escaping","utils.go genFieldComment")],
  ["diagnostics of go/types, tsc, javac, rustc and clang on the generated files"])
p("C16","Documentation and annotations are inert",
  "Adding, removing or changing annotations, documentation or application information anywhere in a schema (any text, any markup inside, any position, foreign attributes and elements included) changes nothing in the output except comments; the documentation of a component appears in the comment of its own declaration, complete, and never as code.",
  ["inputs"],"all annotation contents (multi-line, control characters, comment delimiters, markup that imitates XSD) in all positions",
  gold+"which contains no annotation at all.",
  ["xmlCharData.go","utils.go","parser.go"],[("text capture","xmlCharData.go"),("comment rendering","utils.go genFieldComment")],
  ["output with comments stripped, compared between annotated and bare schemas; comments searched for the documentation"])
p("C17","Lexical presentation of the schema is irrelevant",
  "Two schema files with the same XML information content produce the same output: the prefix bound to the XSD namespace (or none) and to the target namespace, white space and line ends, comments and processing instructions, attribute order and quoting, character references, CDATA, empty-element form, a byte-order mark, an XML declaration, and the character encoding (UTF-8, UTF-16, declared single-byte encodings) make no difference.",
  ["inputs"],"all lexical variants of a schema document",
  gold+"always written the same way.",
  ["parser.go","schema.go","utils.go"],[("charset reader","parser.go Parse"),("prefix stripping","utils.go trimNSPrefix"),("dispatch on local names","parser.go Parse")],
  ["outputs of lexical variants compared byte for byte"])
p("C18","Components do not disturb each other",
  "What is generated for a component depends only on its own definition and on the definitions it refers to: adding, removing or permuting unrelated components, before or after it, leaves its declaration unchanged in every language, and only the order of declarations follows the order of components (in TypeScript, bases first).",
  ["inputs","histories"],"all schemas x all permutations and extensions by unrelated components",
  gold+"in one order; state leaking from one component into the next is only visible under permutation.",
  PAR+XML+GEN,[("context stacks emptied when a component ends","xml*.go"),("name counter and de-duplication map","gen*.go")],
  ["declarations of a component compared across permuted and extended schemas"])
p("C19","Output mirrors the input layout and touches nothing else",
  "A translation of a file at relative path P below the input path writes exactly one file, OUT/P with the language's extension appended unless the name already ends with it (OUT itself with the extension when the input path is that file), creating the directories it needs, for every spelling of the input and output paths (relative, absolute, trailing slash, dot segments, nested and dotted names, spaces); imported files likewise appear only under the output directory. Input files and everything outside the output directory stay untouched, and an input tree yields one output per schema file, none merged or overwritten by another.",
  ["inputs","configurations"],"all directory layouts, path spellings and include/import locations",
  "The existing tests use one flat directory and one spelling.",
  ["parser.go","utils.go","genGo.go","cmd/xgen/xgen.go"],[("output path computation","parser.go Parse"),("extension","genGo.go FileWithExtension"),("directory walk","utils.go GetFileList")],
  ["complete before/after snapshots of a scratch directory tree"])
p("C20","The command line does what it documents",
  "The command accepts every combination of -i, -o, -p, -l in any order and flag spelling: it generates what the library generates for the same options, uses package schema and directory xgen_out by default, puts -p into Go and Java output only, prints done and exits 0 on success. It exits non-zero with a message and writes nothing for a missing -i or -l, an unsupported language (case-sensitive) or a non-existing input; -h and -v print help and version and exit 0.",
  ["inputs","configurations"],"all command lines over the documented flags, with existing, missing and directory inputs",
  "The existing tests never run the command.",
  ["cmd/xgen/xgen.go","utils.go"],[("flag parsing and checks","cmd/xgen/xgen.go parseFlags"),("file loop","cmd/xgen/xgen.go main")],
  ["exit status, standard output and files written by the built binary"])
p("C21","The parsed tree is a faithful model of the schema",
  "Parsing in extract mode writes no file and returns, as the exported component values, exactly the components of the schema: in document order: names, documentation, plural flags, optional flags of attributes, resolved or by-name types, members, bases, enumeration values, list and union flags with their member types. Generating mode leaves the same tree, and the tree does not depend on the output options.",
  ["inputs"],"all schemas of the supported subset, five languages, both modes",
  "The existing tests look only at generated text and never use extract mode.",
  ["parser.go","proto.go"]+XML,[("component values","proto.go"),("promotion to the tree","xml*.go")],
  ["the exported tree after Parse, compared with the schema model; file-system snapshot"])
p("C22","Enumerations keep all their values in order",
  "Every enumeration value of a simple type is kept: the parsed component lists the values in document order without loss or addition, and the TypeScript enumeration has one member per value, bound to exactly that value as a string or number literal. Values of one type (named or anonymous) never appear in another, and other facets do not affect them.",
  ["inputs"],"all enumerations: any number and text of values, any base, mixed with other facets, next to anonymous enumerations",
  "The golden schema has one anonymous enumeration, whose values appear nowhere in its output.",
  ["xmlEnumeration.go","xmlRestriction.go","genTypeScript.go"],[("collection","xmlEnumeration.go OnEnumeration"),("enum emission","genTypeScript.go TypeScriptSimpleType")],
  ["parsed component values and TypeScript enums parsed back"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
import sys
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
except ImportError: pass
