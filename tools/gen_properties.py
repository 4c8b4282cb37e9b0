#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles, statements, anchors)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
T="generator/target/"
ALLT=[T+x for x in ("c/c.go","cpp/cpp.go","csharp/csharp.go","commonjs/commonjs.go","esm/esm_encode.go","esm/esm_decode.go","golang/golang.go","java/java.go","kotlin/kotlin_encode.go","kotlin/kotlin_decode.go","python/python.go")]

# ---------------------------------------------------------------- front end
p("C01","No schema text can crash the compiler",
 "Whatever text the input schema and its imports contain, the tool ends with generated code or with a reported error; it never aborts with an internal panic caused by the schema.",
 ["inputs"],"every schema file (well-formed, ill-formed, ill-named, self-contradictory), with any import graph",
 "The suite feeds about thirty hand-written schemas; a crash needs one particular pairing of a construct with an error raised inside it.",
 ["compiler/proto_visitor.go","compiler/literal_visitor.go","compiler/info_visitor.go","compiler/import_visitor.go","compiler/compilation_runtime.go"],
 [("every visitor result is inspected for the error kinds it may carry before it is used as a value","compiler/proto_visitor.go"),("visitor dispatch","compiler/*_visitor.go")])
p("C02","No error is lost on the way to the user",
 "Every failure detected while reading, parsing, checking, generating or writing reaches the caller of that step; no step reports success after one of its own sub-steps failed.",
 ["inputs","fault_sequences"],"every input, and every I/O failure at any file operation",
 "Tests exercise a handful of failing schemas and no failing file operation; a dropped error is silent by definition.",
 ["main.go","compiler/compilation_runtime.go","fileio/writer.go","generator/gen/gen_ctx.go","generator/gen/gen_dispatcher.go"],
 [("error values are tested and returned or joined","whole program")],observe=["exit status","stderr"])
p("C03","Nothing is generated unless the whole schema was accepted",
 "Code generation starts only after the input and all its imports compiled without error and every command-line option was validated, and any error ends the process with a non-zero status after it has been printed to standard error.",
 ["inputs","configurations"],"every input, option combination and failure",
 "Tests check the exit status of selected failures only, and never that the output directory stays untouched.",
 ["main.go","compiler/compiler.go"],[("error checks dominate generation and lead to a failing exit","main.go")],observe=["exit status","stderr","output directory"])
p("C04","A syntax error is always reported",
 "A file the grammar does not accept, in the lexer or in the parser, is never compiled: its first syntax error is reported with file, line and column and compilation of that file stops.",
 ["inputs"],"every malformed source text, in the main file or in any import",
 "A few malformed files are sampled; the error recovery of the parser would silently repair others.",
 ["compiler/error_listener.go","compiler/compilation_runtime.go"],
 [("error listener attached to lexer and parser before parsing, and consulted before the tree is used","compiler/compilation_runtime.go")])
p("C05","Imports are acyclic, resolved once, and shared",
 "A file that imports itself or takes part in an import cycle is rejected with an error naming the chain; every other file is compiled exactly once however many files import it, and before any file that uses it; two files may not declare the same package.",
 ["inputs","histories"],"every import graph",
 "Tests contain a few small import graphs.",
 ["compiler/compilation_runtime.go"],
 [("in-progress stack pushed before and popped after the imports are compiled","compiler/compilation_runtime.go"),("finished-unit table consulted before a file is parsed","compiler/compilation_runtime.go")],
 [("in-progress files","files on the current import chain","compiler/compilation_runtime.go"),("finished units","units already compiled, in dependency order","compiler/compilation_runtime.go")])
p("C06","Duplicate names are always rejected",
 "Two types in one scope, two fields of one structure (including those brought in by embedding), two values of one enumeration, two options of one kind on one element, two accessors of one kind and name on one field, or an accessor named like another field or an accessor of another field are always reported as errors naming the earlier declaration.",
 ["inputs"],"every schema",
 "Tests sample some duplicate kinds, in one position each.",
 ["compiler/proto_visitor.go","compiler/info_visitor.go","definition/compilation_unit.go"],
 [("each insertion into a name table is preceded by a lookup whose hit is an error","compiler/proto_visitor.go")])
p("C07","Impossible layouts are rejected before generation",
 "A declared size that is zero or larger than the type, an explicit size on a type that cannot take one, an array size not divisible by its length, a variable-sized, nested or string field not starting at a byte boundary, a structure whose total is not whole bytes, an enumeration value or constant that does not fit its width: all are reported as errors.",
 ["inputs"],"every schema",
 "Tests hold one sample of some of these errors; each rule quantifies over every type, size and position.",
 ["compiler/proto_visitor.go","definition/struct.go","definition/field.go"],
 [("admission checks guard every successful construction of a field or structure","compiler/proto_visitor.go")])
p("C08","Unknown or ill-typed options are diagnosed, known ones are kept",
 "An option the tool does not know produces a warning, one with a value of the wrong type produces an error, and every accepted option is stored on its file or field so that generation can see it.",
 ["inputs"],"every option name, value and position",
 "Tests use correct options almost exclusively.",
 ["compiler/option_validator.go","compiler/info_visitor.go","compiler/proto_visitor.go"],
 [("every option passes the validator before it is stored","compiler/info_visitor.go")])
p("C09","Every operator in an accessor expression means itself",
 "Each operator token of the expression language is turned into its own operation, with its operands in source order; each target prints exactly that operation.",
 ["inputs"],"every accessor expression",
 "Tests evaluate a handful of expressions using some operators in some targets.",
 ["compiler/proto_visitor.go","definition/expr.go"]+ALLT,
 [("token to operation mapping","compiler/proto_visitor.go"),("operation to token table of each target","generator/target/*")])
p("C10","A literal that does not fit is rejected, one that fits keeps its value",
 "A numeric literal in any base is either stored with its exact value and sign or rejected with an error; it is never truncated or wrapped silently.",
 ["inputs"],"every literal text","Only small literals are tested.",
 ["compiler/literal_visitor.go","definition/literal.go"],[("literal parsing with an error result that is returned","compiler/literal_visitor.go")])
p("C11","The same input always yields the same output",
 "Two runs of the tool with the same files, options and working directory write byte-identical files and diagnostics in the same order: nothing depends on map iteration order, time, randomness, environment or scheduling.",
 ["inputs","schedules","histories"],"every input and every pair of runs",
 "No test compares two runs; map order differs only sometimes.",
 ["util/ordered_map.go","generator/gen/gen_ctx.go","main.go"],[("insertion-ordered tables everywhere output is enumerated","util/ordered_map.go")])
p("C12","Files are touched only through the designated paths",
 "The tool reads only the input and its imports and creates or writes only files at or below the output path given by the user; it never deletes, renames or executes anything and opens no network connection.",
 ["inputs","configurations"],"every input and option combination",
 "Tests never look outside the output directory.",
 ["fileio/reader.go","fileio/writer.go","generator/gen/gen_ctx.go"],[("single writer joining the output path with the unit's path","generator/gen/gen_ctx.go")])
p("C13","Every command-line option reaches what it controls",
 "The value given for each documented option is the value the generators see, under its own meaning, with the documented default when absent; a target documented to honour an option consults it.",
 ["configurations"],"every combination of options and targets",
 "The suite tests options one by one and mostly on one target.",
 ["main.go","generator/gen/gen_option.go"],[("flag to option to generator chain","main.go")])
p("C14","Every documented target and alias selects its own generator",
 "Each documented target name and alias selects the generator of that language, the listing shown to the user is complete, and any other name is rejected before anything is compiled.",
 ["configurations"],"every target name",
 "Tests use one spelling per target; aliases and the rejection of unknown names are mostly untested.",
 ["generator/generator.go","main.go"],[("target registry","generator/generator.go")])
p("C15","One generated file never depends on what was generated before it",
 "The helpers, includes and imports a generated file contains are decided by that file's own content and the options, not by which other files were generated earlier in the run.",
 ["inputs","histories"],"every set of schema files and every order of generation",
 "Most tests generate one or two files; leaked state shows only in particular sequences.",
 [T+"c/c.go",T+"cpp/cpp.go",T+"golang/golang.go",T+"python/python.go",T+"commonjs/commonjs.go",T+"esm/esm.go"],
 [("per-file generator state cleared between files","generator/target/*")],
 [("generator state","which helpers and imports the current file needs","generator/target/*")])
p("C16","Generated text never contains an unresolved template value",
 "Every code template is well formed, refers only to values, functions and sub-templates that are supplied at every place it is rendered, and therefore renders completely for every schema.",
 ["inputs","configurations"],"every schema, target and option combination, including rarely rendered branches",
 "A missing value shows up only when the particular branch is rendered.",
 ["util/template.go"]+ALLT,[("template text and the data passed to it","generator/target/*")])
p("C17","Every kind of field and type is encoded, decoded and sized",
 "In every target, each kind of field and each kind of field or element type the language admits is handled by the encoder, by the decoder and by both size functions, or rejected with an error; none is silently skipped.",
 ["inputs"],"every combination of field kind, field type, element type and target",
 "The tested schemas cover many but not all combinations, and Kotlin output is never run.",
 ALLT+["generator/gen/gen_dispatcher.go"],[("dispatch on field and type kinds","generator/target/*")])
p("C18","Generated code brings every helper and import it uses",
 "Whenever generated code refers to a runtime helper or a conditionally emitted include or import, the same file defines or includes it, for every option combination and in single-file mode too; a helper that is emitted only when needed is emitted whenever it is needed.",
 ["inputs","configurations"],"every schema, option combination and target",
 "Needs a schema using one feature without the others that pull in the same helper.",
 ALLT,[("need flags set where the helper is used","generator/target/*")])
p("C19","Decoding checks the input length before it reads",
 "The decoder emitted for every language with checked buffers validates the available input before reading it, and the size function it relies on checks the remaining length before every read and reports the shortfall as a negative number.",
 ["inputs"],"every structure and every truncated or malformed input",
 "Tests truncate a few encodings of a few structures.",
 [T+"golang/golang.go",T+"c/c.go",T+"cpp/cpp.go",T+"java/java.go",T+"csharp/csharp.go",T+"python/python.go",T+"commonjs/commonjs.go",T+"esm/esm_decode.go",T+"kotlin/kotlin_decode.go"],
 [("size check emitted ahead of the field readers, length guard emitted ahead of each read","generator/target/*")])
p("C20","Decoding rejects a frame whose constant field differs",
 "In every target, the decoder of a structure with constant fields compares each of them with the declared value and reports failure when it differs; failures of nested structures fail the enclosing decode.",
 ["inputs"],"every structure with constants or nested structures, and every input",
 "Tests corrupt single bytes of a few frames.",
 ALLT,[("comparison and failure return emitted for each constant and nested structure","generator/target/*")])
p("C21","Narrow signed fields are sign-extended on every decode path",
 "A signed integer stored in fewer bits than its type decodes to the value that was encoded, negative ones included, whether it stands alone or in an array, unrolled or looped, with either sign-extension method.",
 ["inputs","configurations"],"every signed type, width, position, array shape and method",
 "Tests combine few widths, shapes and methods.",
 ALLT,[("sign extension emitted when the stored width is below the type width","generator/target/*")])
p("C22","Byte order is honoured by encoder and decoder alike",
 "For every field with a byte-order option, encoder and decoder of every target use that order on every path (single values, enumerations, constants, array elements, unrolled or looped), and little-endian is used when no option is given.",
 ["inputs","configurations"],"every field, byte order, array shape and target",
 "Tests sample big-endian fields in some shapes.",
 ALLT,[("order option consulted where the byte index is computed","generator/target/*")])
p("C23","The loop threshold changes the shape of the code, never its coverage",
 "An array is processed by a loop exactly when the threshold is non-negative and the array is longer than it, and otherwise element by element, and in both shapes every element from first to last is processed exactly once.",
 ["inputs","configurations"],"every array length, threshold, element type and target",
 "Tests use three thresholds and a few lengths.",
 ALLT,[("threshold comparison, loop bound and unroll bound","generator/target/*")])
p("C24","Length prefixes of byte fields follow one format everywhere",
 "The length of a byte field is written and read as groups of seven bits, least significant first, with the top bit marking continuation, identically in encoder, decoder and size functions of every target.",
 ["inputs"],"every byte-field length and target",
 "Tests use short byte fields: lengths of one or two groups.",
 ALLT,[("seven-bit group masks, continuation bit and shift","generator/target/*")])
p("C25","Unrolled code moves every bit to and from the same place",
 "For a field of any width at any bit offset, the generated straight-line encoder writes each bit of the value to the wire position assigned to it, touching no neighbouring field, and the decoder reads it back from the same position, in every target.",
 ["inputs"],"every width from 1 to 64, every bit offset and every target",
 "Tests sample a few widths and offsets; the placement error present in the base needed a width above two bytes at an odd offset.",
 [T+x for x in ("c/c.go","cpp/cpp.go","csharp/csharp.go","commonjs/commonjs.go","esm/esm_encode.go","esm/esm_decode.go","golang/golang.go","java/java.go","python/python.go")],
 [("segment arithmetic of the straight-line encoder and decoder","generator/target/*")])
p("C26","Looped code uses the same wire positions as unrolled code",
 "The runtime bit helpers that loops call place each bit of an element at the position the straight-line code would use, for any width, offset and byte order, in every target.",
 ["inputs","configurations"],"every width, offset, byte order and target",
 "Tests sample a few widths and offsets.",
 ALLT,[("bit helper text emitted into generated files","generator/target/*")])
p("C27","Every target maps each basic type to a matching native type",
 "Each basic type maps to a native type of the same class, width and signedness with a neutral default value in every target, and no type is missing from any table.",
 ["inputs"],"every basic type and target","Tests use most types in most targets but not every table entry.",
 ALLT,[("type, default and width tables","generator/target/*")])
p("C28","Numeric constants keep their value in generated code",
 "A constant or literal written in the schema appears in generated code with the same value: sign, base, magnitude and fractional precision are preserved whatever the options.",
 ["inputs","configurations"],"every literal, base, option and target",
 "Only small, short literals are tested.",
 ["generator/gen/gen_util.go","generator/gen/gen_option.go"]+ALLT,[("literal rendering","generator/target/*")])
p("C29","Accessor expressions keep their grouping",
 "The text generated for an accessor expression groups its operators exactly as the schema's grammar does, whatever the precedence rules of the target language.",
 ["inputs"],"every nesting of operators and target","Tests evaluate a few shallow expressions.",
 ALLT,[("composite expressions printed in parentheses or as calls","generator/target/*")])
p("C30","Copying decode never aliases the input buffer",
 "When copying is requested (or documented as always on), text and byte fields of decoded values are fresh copies of the input in every target and on every decode path; otherwise the documented sharing applies.",
 ["inputs","configurations"],"every string or bytes field, array shape and target",
 "Tests do not mutate the buffer after decoding for every shape.",
 [T+"c/c.go",T+"cpp/cpp.go",T+"golang/golang.go",T+"csharp/csharp.go"],[("copy option consulted in each reader of a variable-sized value","generator/target/*")])
p("C31","Every declared accessor is generated, and only when asked for",
 "Each accessor declared on a field appears in generated code, under its own name and with its own expression; plain accessors appear for every field unless minimal code is requested.",
 ["inputs","configurations"],"every accessor, field and target","Tests call some accessors in some targets.",
 ALLT,[("accessor groups enumerated for each normal field","generator/target/*")])
p("C32","Every warning is shown",
 "Each warning raised while compiling or generating, in the main file or any import, is printed even when compilation succeeds or fails later.",
 ["inputs"],"every warning site and import graph","Tests look at a few warnings in the main file.",
 ["main.go","compiler/compilation_runtime.go","definition/warning.go"],[("warnings accumulated by joining and printed before exit","main.go")])
p("C33","Bit positions of fields are contiguous and agreed on",
 "Fields occupy consecutive bit positions in declaration order, with embedded structures expanded in place; encoder, decoder and size functions all take positions from that one assignment.",
 ["inputs"],"every structure","Tests sample structures.",
 ["definition/struct.go","definition/field.go"]+ALLT,[("one traversal assigning positions","definition/struct.go")])
p("C34","Enumeration values are exactly what the schema says",
 "Every declared enumeration value is kept, with its written value or else one more than its predecessor (zero for the first), and every target emits all of them.",
 ["inputs"],"every enumeration","Tests use enumerations with few, non-negative values.",
 ["compiler/proto_visitor.go","definition/enum.go"]+ALLT,[("value assignment","compiler/proto_visitor.go")])
p("C35","Insertion-ordered tables never lose, duplicate or reorder entries",
 "The ordered tables that carry declarations through the tool enumerate every entry exactly once in first-insertion order, keep position on update, forget removed entries, and agree between their lookup, enumeration and slicing views.",
 ["histories"],"every sequence of operations","There is no direct test of these tables.",
 ["util/ordered_map.go"],[("index and list updated together","util/ordered_map.go")])

# ---------------------------------------------------------------- not applicable in this family
p("C90","Decode of encode returns the original value",
 "For every structure and every value of it, decoding the encoded bytes returns an equal value in the same target and in every other target.",
 ["inputs"],"every structure, value and pair of targets","Tests round-trip sampled values.",
 ALLT,[("generated encoder and decoder","generator/target/*")])
p("C91","Generated code compiles in its target language",
 "For every accepted schema and option combination, the generated files are accepted by the target language's compiler or interpreter.",
 ["inputs","configurations"],"every schema, target and option combination","Tests compile a fixed set of schemas.",
 ALLT,[("templates","generator/target/*")])
p("C92","Accessor expressions compute the schema's arithmetic",
 "The value computed at run time by a generated accessor equals the mathematical value of its expression under the schema's typing rules.",
 ["inputs"],"every expression and field value","Tests evaluate sampled values.",
 ALLT,[("expression printing","generator/target/*")])
p("C93","Generation time and output size stay proportional to the schema",
 "Running time and output size grow linearly with the schema and its array lengths.",
 ["inputs"],"every schema","No performance test.",
 ["generator/gen/gen_dispatcher.go"],[("loops over declarations","generator/*")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
