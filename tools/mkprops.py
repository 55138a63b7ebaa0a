#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json,os
S='nom-derive-impl/src/structs.rs'; G='nom-derive-impl/src/gen/'; T='src/traits.rs'
P='nom-derive-impl/src/parsertree.rs'; E='nom-derive-impl/src/enums.rs'; A='nom-derive-impl/src/meta/attr.rs'
PR=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=("return value of parse / parse_be / parse_le",)):
    PR.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
CUR=("input cursor","the unread suffix of the slice given to the parser",G+"structs.rs gen_fn_body (`i`, `orig_i`)")
p("C01","Fields are decoded in declaration order, leaving the exact remainder",
 "A derived parser decodes its fields in declaration order, each one from exactly where the previous one stopped, and on success returns every value in its own field together with the exact unread suffix of the caller's input. If a field fails, the whole parse fails with that field's error, unchanged, and nothing declared after it is run.",
 ["programs","inputs"],"every struct, tuple struct, unit struct and enum variant the derive accepts, every nesting of them, every input",
 "tests parse a handful of fixed structures with one or two inputs each; field order, shadowing, remainder and failure position depend on every combination of shapes and truncation points",
 [G+"structs.rs",G+"enums.rs",S],[("sequential let-bindings of the cursor",G+"structs.rs gen_fn_body"),("variant field sequence",G+"enums.rs gen_variants"),("field collection",S+" parse_fields")],[CUR])
p("C02","Byte order is resolved by the innermost declaration",
 "Every multi-byte number reached through a derived parser is decoded in the byte order given by the innermost applicable declaration: the field's own attribute, else the type's attribute or derive variant (for a run-time byte-order attribute on a field: that field and all the following ones of the same struct or variant), else the entry point that was called (the default entry point is big-endian). This holds through every wrapper (options, vectors, arrays, tuples, counts, conditions, maps, checks, nested types), and byte order changes nothing else.",
 ["programs","inputs","configurations"],"every placement of byte-order declarations on type and fields, every wrapper nesting, three entry points, every input",
 "tests cover one wrapper at a time, mostly through one entry point; the resolution is a product of declaration sites, wrappers and entry points",
 ["nom-derive-impl/src/endian.rs",S,P,G+"generator.rs",T],[("object/local resolution","nom-derive-impl/src/endian.rs"),("with_endianness rewriting of parser trees",P+" ParserExpr::with_endianness"),("SetEndian dispatch",S+" get_type_parser"),("per-type parse_be/parse_le",T)],
 [("object endianness","the byte order in force for the fields being expanded","nom-derive-impl/src/config.rs"),("__endianness","run-time byte order set by SetEndian",S+" get_pre_post_exec")])
p("C03","Standard types decode to their documented format",
 "Integers and floats of every width consume exactly their size and yield the value those bytes denote (two's complement, IEEE-754) in the requested byte order; an option is present exactly when its content can be parsed and otherwise consumes nothing; a vector takes as many items as can be parsed; a pair, a fixed-size array, a length-prefixed byte slice and a length-prefixed UTF-8 string take exactly the announced content. A type that only provides the default entry point behaves the same through the other two.",
 ["inputs"],"every type supported without attributes and their nestings, every input, both byte orders",
 "tests decode one value per type; the guarantee is about all byte patterns, lengths and truncations",
 [T,"src/helpers.rs"],[("impl_primitive_type",T),("Option/Vec/pair/array/String impls",T),("LengthData impl","src/helpers.rs")])
p("C04","Streaming: a truncated input is Incomplete, never a verdict",
 "For a parser built only of streaming parts, a proper prefix of an input on which it succeeds yields Incomplete, and a verdict (success or error) reached on some input does not change when more bytes are appended. The amount of data it asks for is never zero when known and never more than what is really missing, so a client that keeps feeding exactly what is asked reaches the same value and remainder as a client holding all data.",
 ["inputs","histories"],"every streaming program, every input, every prefix, every way of feeding it in chunks",
 "tests give complete buffers; the guarantee quantifies over all truncations and feeding histories",
 [G+"structs.rs",P,S,"src/helpers.rs",T],[("streaming leaf parsers",T),("Take/Tag/Skip/Align expansion",P),("Move bounds",S+" quote_move"),("length-prefixed data","src/helpers.rs")],[CUR])
p("C05","Complete turns missing data into an error and changes nothing else",
 "A field parser marked Complete, and every field of a type marked Complete (enums included), never reports missing data: where it would have been Incomplete it fails with a recoverable error located at the start of that field's value (or where the announced data would begin, for length-prefixed data). Every other outcome is the one obtained without the attribute.",
 ["programs","inputs"],"every field parser and type on which the attribute is accepted, every input and truncation point",
 "two tests truncate one struct once; the claim ranges over all wrapped parsers, nestings and truncations",
 [S,P,G+"fieldless_enums.rs",E],[("per-field wrapping",S+" parse_fields"),("attribute wrapping",S+" get_parser"),("complete combinator",P)])
p("C06","Field attributes compose in the order they are written",
 "The parser of a field is built from its attributes read left to right, each one wrapping the parser made from the rest, with the container's element type as inner type for count and condition attributes; splitting a list over several attribute lines or using the string instead of the parenthesised syntax changes nothing, and attributes after the one giving the final parser have no influence on it.",
 ["programs","inputs"],"every well-typed sequence of field attributes, in both syntaxes and in any grouping, every input",
 "tests use at most two attributes per field; orders and nestings are combinatorial",
 [S,A,"nom-derive-impl/src/meta/attr_list.rs"],[("recursive descent on the attribute list",S+" get_parser"),("attribute arguments",A+" parse_meta_content")])
p("C07","Counted collections hold exactly the announced number of items",
 "A field with a count expression (on any earlier field, argument or input property, whatever its integer type) or with a length parser yields exactly that many items parsed one after the other, and a fixed-size array exactly its declared number; if an item fails the whole field fails and no shorter collection is ever returned. A byte-taking field yields exactly the number of bytes given by its expression.",
 ["programs","inputs"],"every count expression and length parser, every item type, counts from 0 up to far beyond the input",
 "tests use small counts that match the input; zero, overlong, huge and failing items are not sampled",
 [S,P,T],[("count/length_count/take expansion",P+" to_tokens"),("array impl",T)])
p("C08","Conditional and non-parsed fields consume nothing unless they must",
 "A conditional field is present exactly when its condition holds on the values decoded so far, and then equals what its inner parser yields; otherwise it is absent and not one byte is consumed or required. Fields with a given value, ignored/default fields and marker fields consume nothing, cannot fail, and hold exactly the value given or the type's default.",
 ["programs","inputs"],"every condition over earlier fields, every inner parser, every input including truncated ones",
 "tests try one true and one false condition on fixed input",
 [S,P],[("cond expansion",P),("Value/Ignore/PhantomData expansion",S+" get_type_default")])
p("C09","Alignment, skipping and moving land exactly where stated",
 "Alignment advances to the next multiple (possibly nothing) counted from the start of that type's own input, skipping advances by the given count, relative and absolute moves set the position given; several directives, before and after the value, apply in written order on every field they are given on. A target before the start is a recoverable error, one beyond the end is Incomplete, and no position outside that type's input is ever reached.",
 ["programs","inputs"],"every sequence of directives with every offset (including negative and extreme ones), at any nesting depth, every input length",
 "tests apply one directive with one offset at the outermost level",
 [S],[("quote_align / quote_skip / quote_move / quote_move_abs",S),("orig_i","start of the type's own input, "+G+"structs.rs")],[CUR])
p("C10","Selector enums take the first matching variant",
 "A selector enum is decoded as the first variant, in declaration order, whose pattern and guard accept the selector; a default variant is used only when no other one accepts, wherever it is declared. With no accepting variant the result is a recoverable selection error and no input is consumed; the choice depends on the selector only, never on the input.",
 ["programs","inputs"],"every set of possibly overlapping patterns (literals, ranges, alternatives, guards, default at any place), every selector value, every input",
 "tests use disjoint literal patterns with two or three selector values",
 [G+"enums.rs",E,A],[("match arms and default reordering",G+"enums.rs gen_variants"),("selector pattern parsing",A+" PatternAndGuard")])
p("C11","Fieldless enums map exactly the declared discriminants",
 "A fieldless enum is decoded by reading its integer representation in the byte order in force and yields the variant carrying exactly that discriminant (explicit, implicit or negative), consuming exactly the representation's size. Every other value is a recoverable selection error, for every byte pattern of the representation.",
 ["programs","inputs"],"every integer representation, every assignment of explicit and implicit discriminants, every byte pattern",
 "tests try a few values of a u8 enum",
 [G+"fieldless_enums.rs",E],[("repr parser and if/else chain",G+"fieldless_enums.rs"),("get_repr",E)])
p("C12","Verify, ErrorIf and Exact accept exactly when their condition says so",
 "A verified field succeeds exactly when its parser does and the condition holds on the decoded value; an error condition on a field fails exactly when it is true, before the field is read; an exact type succeeds only if nothing is left in its own input. Each rejection is a recoverable verification error, evaluated at the stated moment, and when the check passes the value and remainder are those obtained without it.",
 ["programs","inputs"],"every condition over decoded values and earlier fields, every wrapped parser, every input with and without trailing data",
 "tests accept once and reject once per attribute",
 [S,P],[("verify expansion",P),("quote_error_if",S),("Exact post condition",S+" get_pre_post_exec")])
p("C13","User statements run once, in order, in the right scope",
 "Statements attached before or after fields and types run exactly once each, in written order, at their stated place between the fields, and only if everything before them succeeded; they see the current input position and all values decoded so far (and the built value for statements after a type), and what they define is visible to everything that follows.",
 ["programs","inputs"],"every placement of statements on types, variants and fields mixed with other attributes, every input and failure point",
 "tests check one statement's effect on success; order, multiplicity and failure cut-off are never observed",
 [S,G+"structs.rs",G+"enums.rs"],[("pre/post token accumulation",S+" get_pre_post_exec"),("placement around the field parser",G+"structs.rs gen_fn_body")],
 [("local environment","bindings visible to later attributes","generated function body")],("order and arguments of side effects of the attached statements","return value"))
p("C14","Diagnostic and naming attributes never change a result",
 "Debugging, code-dump, input-renaming and generic-error attributes leave value, remainder, kind of outcome, and error position and code unchanged (with Complete, an input that is too short can be described as the end of input of an item or as an incomplete field); debugging reports on standard output exactly the marked parsers that did not succeed. With generic errors the caller's own error type receives the same failures through its standard construction interface.",
 ["programs","inputs","configurations"],"every program with and without these attributes (on type, fields, in any combination), every input",
 "tests check that such attributes compile and succeed once",
 [P,S,"nom-derive-impl/src/config.rs",G+"generator.rs"],[("dbg_dmp wrapping",S+" parse_fields"),("names","nom-derive-impl/src/config.rs"),("error type parameter",G+"generator.rs gen_impl")])
p("C15","Arguments and entry points are equivalent and pass values through",
 "Selector and extra arguments reach the parser with exactly the caller's values, in the declared order, through each of the three entry points; the default entry point always equals the big-endian one, and the three are identical for a type whose byte order is fixed everywhere.",
 ["programs","inputs"],"every list of extra arguments with or without selector, three entry points, all argument values and inputs",
 "tests call one entry point with one or two arguments",
 [G+"generator.rs"],[("argument list and forwarding",G+"generator.rs get_call_args / get_fn_args"),("parse -> parse_be",G+"generator.rs gen_parse")])
p("C16","Parsing is total: every input gives a result, inside the input",
 "For every well-formed definition and every byte string, parsing terminates and returns success, error or Incomplete: no panic, no overflow, no read outside the input, whatever lengths, counts, offsets, alignments (at least 1) or discriminants the data carries. The remainder and any error position always lie inside the slice that was given.",
 ["programs","inputs"],"every definition whose own expressions do not panic, every byte string, including hostile lengths and offsets",
 "tests only give well-formed inputs",
 [S,"src/helpers.rs",T,P],[("bounds checks in quote_move/quote_move_abs",S),("streaming take","src/helpers.rs"),("many_m_n/count limits",T)])
p("C17","Well-formed definitions compile, ill-formed ones are rejected by the derive",
 "Each documented attribute is accepted at the levels it is documented for, in both syntaxes, with only the documented imports in scope. Unknown attributes, attributes at a wrong level, missing arguments, contradictory byte orders, enums without selector or representation, and unsupported items are reported at compile time by the derive instead of producing a parser.",
 ["programs"],"every attribute at every level on structs, enums, variants and fields, alone and in contradictory pairs",
 "compile-fail tests cover a few fixed definitions",
 [A,"nom-derive-impl/src/meta.rs","nom-derive-impl/src/endian.rs","nom-derive-impl/src/gen.rs",E],[("level tables",A+" acceptable_tla / acceptable_fla"),("endianness validation","nom-derive-impl/src/endian.rs"),("generator dispatch","nom-derive-impl/src/gen.rs")],(),("compiler diagnostics",))
p("C18","Generic and borrowing types behave as their concrete counterparts",
 "A definition with type parameters, lifetimes or where-clauses gives, for each instantiation, the same outcome as the definition written with the concrete types. Borrowed fields are sub-slices of the caller's own buffer (same bytes, same place, no copy) and stay usable as long as that buffer, independently of the call.",
 ["programs","inputs"],"every instantiation of type parameters by supported types, every arrangement of borrowed fields, every input",
 "tests instantiate one parameter and compare contents, not identity, of borrowed data",
 [G+"generator.rs",S],[("impl generics and where clause",G+"generator.rs gen_impl"),("'nom lifetime",G+"generator.rs gen_fn_decl")])
p("C19","Feature configurations agree",
 "The crate and derived code build with std, with alloc only, and with neither; a definition available in several of them decodes every input it accepts to the same value and remainder, and rejects the same complete inputs. No configuration panics or reads outside the input.",
 ["configurations","inputs"],"three feature sets, every definition expressible in them, every input",
 "the test suite only runs with default features",
 [T,"src/lib.rs","Cargo.toml"],[("feature-gated impls",T),("no_std attribute","src/lib.rs")])
if __name__=="__main__":
    f=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
    open(f,'w').write(''.join(json.dumps(x)+'\n' for x in PR))
    for x in PR: assert len(x['title'])<=80,x['id']
