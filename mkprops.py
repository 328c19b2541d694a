#!/usr/bin/env python3
# generates properties.jsonl (kept as a script so the list stays readable)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Integer expressions compute the value C prescribes",
 "For every well-defined integer expression built from the arithmetic, bitwise, shift, comparison, equality, logical and comma operators over any mix of integer types, the code toycc emits computes exactly the value C prescribes (after integer promotions and the usual arithmetic conversions, with two's-complement 32/64-bit results) for every value of the operands.",
 ["programs","inputs"],"all operator/operand-type combinations; all 64-bit operand contents",
 "test/arith.c and usualconv.c try a few small constants per operator; 2^128 operand pairs per operator and hundreds of type pairs exist, and most operands there are literals.",
 ["codegen.c","type.c","parser/parser.c"],
 [("usual arithmetic conversions and result types","type.c add_type/usual_arith_conv"),("operator selection","codegen.c gen_expr binary/unary switch"),("operator parsing and precedence","parser/parser.c expr..postfix")],
 ["register/return value of emitted functions"])
p("C02","Integer, _Bool, enum and pointer conversions preserve C's value mapping",
 "For every pair of integer, _Bool, enum or pointer types, converting a value from one to the other (by cast, assignment, initialization, argument passing or return) produces exactly the value C prescribes: truncation modulo 2^N, sign or zero extension according to the source type's signedness, and 0/1 for _Bool.",
 ["programs","inputs"],"all source/destination type pairs and all source values",
 "test/cast.c samples a handful of values; the canonical in-register form of each type is only exercised where a test happens to compare it.",
 ["codegen.c","type.c","parser/parser.c"],
 [("cast table","codegen.c cast/cast_table"),("load/store widths","codegen.c load/store"),("implicit casts","type.c add_type, parser/parser.c funcall")],
 ["return value of emitted functions"])
p("C03","Floating-point operations, comparisons and conversions follow C",
 "For every value of their operands (NaN, infinities, signed zeros and subnormals included), float, double and long double arithmetic, comparison, truth tests and conversions to and from every integer type emitted by toycc give the result IEEE-754/C prescribes, with the usual arithmetic conversions choosing the format.",
 ["programs","inputs"],"all operators and type pairs; all bit patterns of the operands",
 "test/float.c compares small literals only; NaN, unsigned and 64-bit boundary conversions are never exercised.",
 ["codegen.c","type.c"],
 [("float opcode selection","codegen.c gen_expr TY_FLOAT/TY_DOUBLE/TY_LDOUBLE"),("conversion table","codegen.c cast_table")],
 ["fa0/a0 of emitted functions"])
p("C04","Control flow executes exactly the statements C prescribes",
 "For every input, code emitted for if/else, while, do, for, switch (with default, fallthrough and case ranges), break, continue, goto, computed goto, the conditional operator and short-circuit && and || executes exactly the side effects C prescribes in C's order, and no others.",
 ["programs","inputs"],"all condition values of every controlling type; all selector values",
 "test/control.c drives each statement with a couple of constants; which switch label is taken is a function of a 64-bit selector.",
 ["codegen.c","parser/parser.c"],
 [("statement lowering","codegen.c gen_stmt"),("break/continue/case bookkeeping","parser/parser.c stmt"),("truth tests","codegen.c cmp_zero")],
 ["ordered external calls, memory effects and return value of emitted functions"])
p("C05","Calls follow the RISC-V LP64D ABI in both directions",
 "For every function signature (integer, floating, long double, pointer, struct/union and variadic parameters and results), arguments and results pass unchanged between toycc-compiled code and code from any ABI-conforming compiler, whichever side is caller; a call preserves callee-saved registers and the stack pointer, keeps the stack 16-byte aligned, and arguments are not disturbed by evaluating other arguments.",
 ["programs","inputs"],"signatures up to the stated bounds; all argument contents",
 "test/function.c, varargs.c and lib.c pin a fixed list of signatures with one value each; register/stack classification depends on combinations.",
 ["codegen.c","parser/parser.c"],
 [("argument classification","codegen.c place_*_args/push_args"),("prologue/epilogue","codegen.c emit_text"),("struct return","codegen.c copy_ret_buffer/copy_struct_*")],
 ["argument/return registers and stack at every call boundary"])
p("C06","Struct, union and bit-field layout and access match the platform ABI",
 "For every struct or union (nested, packed, aligned, anonymous and flexible members and bit-fields included, packed structs with bit-fields excepted) size, alignment and member offsets equal the platform ABI's, reading a member yields the last value stored to it (truncated to the bit-field's width and signedness), storing a member changes no other member's bits, and aggregate assignment copies the whole object and nothing else.",
 ["programs","inputs"],"member type sequences and bit widths; all prior memory contents and stored values",
 "test/struct.c, bitfield.c, offsetof.c check a few fixed layouts and values.",
 ["parser/parser.c","codegen.c","type.c"],
 [("layout","parser/parser.c struct_decl/union_decl"),("bit-field load/store","codegen.c ND_MEMBER/ND_ASSIGN")],
 ["object memory and return values"])
p("C07","Initializers produce exactly the C-specified object contents",
 "For every static or automatic object, its contents after initialization are exactly those C prescribes for its initializer: designators, brace elision, string literals, nested aggregates, unions, bit-fields, address constants and flexible arrays take effect in order, every unmentioned element or member is zero, and array length is inferred from the initializer (re-initializing an aggregate that an earlier designator already initialized is out of scope); storage outside the object is untouched.",
 ["programs","inputs"],"initializer shapes up to the bounds; all initializer values",
 "test/initializer.c checks a fixed list of shapes and values and never the unmentioned bytes of a heap-reused buffer.",
 ["parser/initializer.c","parser/parser.c","codegen.c"],
 [("initializer parsing","parser/initializer.c"),("static data image","parser/initializer.c write_gvar_data"),("data emission","codegen.c emit_data")],
 ["emitted .data/.bss bytes and relocations; memory after the local initializer"])
p("C08","Constant expressions evaluate to the value C prescribes",
 "For every integer, floating or address constant expression accepted (array sizes, case labels, enumerators, static initializers, bit-field widths, _Alignas, #if), the compile-time result equals the value the same expression has by C's rules in the expression's own type, for all constant values; division by zero is diagnosed and never crashes the compiler.",
 ["programs","inputs"],"operators x types; all literal values",
 "test/constexpr.c tries a dozen expressions with small literals.",
 ["parser/parser.c"],
 [("constant folding","parser/parser.c eval/eval2/eval_double/is_const_expr")],
 ["static initializer images, #if outcome, exit status"])
p("C09","Numeric literals have C's value and type",
 "Every decimal, hexadecimal, octal or binary integer literal with any suffix, and every floating literal, whose value is representable denotes exactly its mathematical value (floating ones correctly rounded; long double ones to the precision of the host's long double) in the first type of C's list that can represent it; malformed numbers are rejected with a diagnostic (digits directly followed by an f suffix, such as 8f, are accepted as floating: an extension the test suite relies on).",
 ["inputs"],"all digit strings and suffixes up to the stated length",
 "test/literal.c checks a fixed list; type boundaries at 2^31, 2^32, 2^63 depend on every digit.",
 ["tokenize.c"],[("pp-number conversion","tokenize.c convert_pp_int/convert_pp_number")],["value and type in emitted code"])
p("C10","Character and string literals denote exactly the right code units",
 "For every character or string literal, with any prefix (none, u8, u, U, L), any escape sequence, universal character name or UTF-8 text and adjacent-literal concatenation, the emitted object holds exactly the code units C prescribes (bytes, UTF-16 with surrogate pairs, UTF-32), null-terminated, with the right element type and length; character constants have the right value and type.",
 ["inputs"],"all source bytes in literals up to the stated length; all code points",
 "test/string.c and unicode.c test a handful of characters of the 1.1 million code points and 256 escapes.",
 ["tokenize.c","unicode.c","preprocessor/preprocess.c"],
 [("literal readers","tokenize.c read_string_literal/read_utf16/32/read_escaped_char/read_char_literal"),("concatenation","preprocessor/preprocess.c join_adjacent_string_literals")],
 ["emitted data bytes, character constant values"])
p("C11","UTF-8 and identifier characters are handled for every code point",
 "Encoding any Unicode scalar value to UTF-8 and decoding it returns the same code point and consumes exactly the bytes written; universal character names and literal UTF-8 spellings of the same identifier name the same entity; and a code point is accepted in (or at the start of) an identifier exactly when C11 Annex D (or '$') allows it. (Surrogates and values above 10FFFF are not scalar values and are out of scope.)",
 ["inputs"],"all 1,114,112 code points; all byte sequences up to 4 bytes",
 "test/unicode.c uses about ten characters.",
 ["unicode.c","tokenize.c"],[("encode/decode","unicode.c encode_utf8/decode_utf8"),("identifier ranges","unicode.c is_ident1/is_ident2")],["tokens, accepted/rejected sources"])
p("C12","Lexical structure: splices, newlines, comments, munching, spacing",
 "For every source text, the token sequence is the one C's translation phases 1-3 define: backslash-newline splices and CR/CRLF/LF line ends and a BOM never change tokens, each comment acts as one space, punctuators are recognised by maximal munch, every token keeps its true source line (the first physical line of its logical line) for diagnostics, debug line info and __LINE__, and unterminated comments and literals are diagnosed. (Digraphs and trigraphs are not supported.)",
 ["inputs"],"all byte strings up to the stated length over the lexical alphabet",
 "the suite has one fixed file per feature; which character precedes, follows or splits a token is unbounded.",
 ["tokenize.c"],[("phase 1-2 rewriting","tokenize.c tokenize_file/canonicalize_newline/remove_backslash_newline/convert_universal_chars"),("tokenizer","tokenize.c tokenize/read_punct/read_ident")],["-E output tokens and lines"])
p("C13","Symbol tables behave as finite maps under any operation history",
 "After any sequence of insertions, overwrites, deletions and lookups over any keys (colliding hashes and resizing included), a lookup returns the value most recently stored under exactly that key and not since deleted, and nothing otherwise; equivalently, #define/#undef/redeclare histories of any length resolve each name to its latest live definition.",
 ["histories","inputs"],"operation histories up to the stated length; all keys up to the stated length",
 "the suite contains no hash-map test; collisions, tombstones and rehashing arise only for particular key sets and orders.",
 ["hashmap.c"],[("open addressing with tombstones","hashmap.c get_entry/get_or_insert_entry/rehash")],["name resolution of macros, variables, keywords"])
p("C14","Macro expansion follows C's rescanning, #, ## and hide-set rules",
 "For every set of object-like, function-like and variadic macros and every invocation, the resulting token sequence is the one C prescribes: arguments are fully expanded before substitution except under # and ##, stringizing and pasting give the standard spelling, a macro never re-expands within its own expansion, __VA_ARGS__/__VA_OPT__ and GNU comma deletion behave as documented, and results are rescanned with the rest of the source.",
 ["programs","inputs"],"macro definitions and invocations up to the stated size",
 "test/macro.c lists about a hundred fixed cases.",
 ["preprocessor/preprocess.c"],[("substitution","preprocessor/preprocess.c subst/expand_macro/read_macro_args/stringize/paste")],["-E token sequence"])
p("C15","Conditional inclusion selects exactly the right groups",
 "For every nesting of #if, #ifdef, #ifndef, #elif, #else and #endif, exactly the groups C selects are processed: the first true branch of each active conditional and nothing of skipped groups (whatever they contain, nested conditionals included), controlling expressions are evaluated in 64-bit arithmetic with defined() and undefined names as 0, and unbalanced or misplaced directives are diagnosed.",
 ["programs","inputs"],"directive sequences up to the stated length; all controlling values",
 "test/macro.c has about twenty fixed conditionals; selection depends on the whole directive history.",
 ["preprocessor/preprocess.c"],[("conditional stack","preprocessor/preprocess.c preprocess2/skip_cond_incl/push_cond_incl")],["-E token sequence, exit status"])
p("C16","Pointers, arrays and VLAs address the element C prescribes",
 "For every element type and every index, pointer addition, subtraction, difference, comparison, subscripting (in either order), address-of/dereference, multi-dimensional arrays, VLAs and alloca compute the address or count C prescribes, objects do not overlap, each object is aligned to its type (or _Alignas), and sizeof of a VLA is its run-time size.",
 ["programs","inputs"],"element types and nesting up to the bounds; all pointer and index values",
 "test/pointer.c, vla.c, alloca.c use a few small indices.",
 ["parser/parser.c","codegen.c"],[("scaling","parser/parser.c new_add/new_sub"),("VLA","parser/parser.c compute_vla_size, codegen.c ND_VLA_PTR/alloca"),("frame layout","codegen.c assign_lvar_offsets")],["addresses and memory effects of emitted code"])
p("C17","Assignment, compound assignment, ++/-- and atomics update exactly once",
 "For every scalar lvalue type, =, op=, prefix and postfix ++/--, _Atomic op= and the atomic builtins evaluate the lvalue once, store exactly the converted result C prescribes, touch no other storage and yield the value C prescribes; the atomic forms remain correct for every interleaving at which another thread modifies the object between its read and write.",
 ["programs","inputs","schedules"],"operator x type; all operand and memory contents; one intervening store at any point",
 "test/arith.c and atomic.c run a few constants; races and lvalue double evaluation are invisible to them.",
 ["parser/parser.c","codegen.c"],[("op= lowering","parser/parser.c to_assign/new_inc_dec"),("CAS/exchange","codegen.c ND_CAS/ND_EXCH")],["memory effects and values of emitted code"])
p("C18","Emitted assembly is always accepted and reaches every offset",
 "For every object size, frame size, member offset, array index, argument count and branch distance within the stated range, the assembly toycc emits assembles without error (every immediate fits its instruction) and addresses the right byte.",
 ["programs","inputs"],"all sizes/offsets up to the bound",
 "tests use small frames; the 12-bit immediate boundary at +-2048 bytes is never crossed in most instruction forms.",
 ["codegen.c"],[("offset materialisation","codegen.c gen_addr/load/store/prologue")],["assembler acceptance, effective addresses"])
p("C19","Any input is compiled or diagnosed; the compiler never misbehaves",
 "For every source byte string, toycc terminates with either success or a diagnostic on stderr and a non-zero exit status, and never reads or writes outside its own live memory, never uses a null or uninitialised pointer, and never dies from a signal.",
 ["inputs"],"all byte strings up to the stated length in the stated contexts",
 "no test feeds malformed input except a few driver checks.",
 ["tokenize.c","preprocessor/preprocess.c","parser/parser.c","main.c"],[("diagnostics","utils.c error/error_at/error_tok")],["exit status, memory accesses"])
p("C20","Driver options have their documented effect and status is truthful",
 "For every combination and order of the supported command-line options, each has its documented effect (-D/-U in order, -I before system and -idirafter paths after, -include, -o, -S/-c/-E, -x, -M family quoting, -f options), unknown options and missing arguments are diagnosed, output goes only to the named file, and the exit status is non-zero exactly when some step failed.",
 ["configurations","inputs"],"option sequences up to the stated length; option argument bytes",
 "test/driver.sh checks each option once, alone.",
 ["main.c"],[("option parsing","main.c parse_args"),("-M quoting","main.c quote_makefile/print_dependencies")],["exit status, files written, -E/-M output"])
p("C21","Linkage, storage and symbol emission match C",
 "For every translation unit, each emitted symbol has the linkage, section, size, alignment and definedness C prescribes for its declarations (static, extern, tentative/common, inline, _Thread_local, local static), in any declaration order; a function or object that is referenced from emitted code is emitted, and unreferenced static inline functions need not be.",
 ["programs"],"declaration sequences and reference graphs up to the bound",
 "driver.sh checks a few fixed inline/static cases.",
 ["parser/parser.c","codegen.c"],[("liveness","parser/parser.c mark_live"),("tentative definitions","parser/parser.c scan_globals"),("emission","codegen.c emit_data/emit_text")],["emitted directives and symbols"])
p("C22","Types: sizeof, _Alignof, typeof, _Generic and compatibility follow C",
 "For every type expressible with the declaration syntax, sizeof and _Alignof equal the platform ABI's, the type of every expression (as observed by sizeof, typeof and _Generic) is the one C prescribes, and __builtin_types_compatible_p and _Generic select by C type compatibility.",
 ["programs"],"declarators and expressions up to the bound",
 "test/sizeof.c, generic.c, typeof.c and decl.c list fixed types.",
 ["type.c","parser/declarator.c","parser/parser.c"],[("declarators","parser/declarator.c declspec/declarator"),("typing","type.c add_type/is_compatible")],["sizeof/_Generic values in emitted code"])
p("C23","Identifiers resolve to the innermost visible declaration",
 "For every nesting of scopes, each use of an ordinary identifier, tag, typedef name, enumerator, label or member resolves to the innermost declaration visible at that point in its name space, shadowing and unshadowing at block boundaries; undeclared uses and duplicate labels are diagnosed.",
 ["programs"],"scope trees and declaration kinds up to the bound",
 "test/variable.c has two or three nested blocks.",
 ["parser/scope.c","parser/parser.c"],[("scope chain","parser/scope.c"),("name spaces","parser/scope.c find_var/find_tag/find_typedef")],["which object emitted code touches"])
p("C24","#include finds the right file, once per guard, with true locations",
 "For every combination of existing files, #include \"\" , #include <> and #include_next read the first existing file in the documented search order (repeat inclusions and caching included), include guards and #pragma once suppress a re-read only when re-reading would contribute nothing, and __FILE__, __LINE__, #line and __INCLUDE_LEVEL__-style location state are restored afterwards.",
 ["configurations","programs"],"existence of every candidate path; guard shapes up to the bound",
 "test/driver.sh and pragma-once.c check one fixed directory layout each.",
 ["preprocessor/preprocess.c","main.c"],[("search","preprocessor/preprocess.c search_include_paths/search_include_next"),("guards","preprocessor/preprocess.c detect_include_guard/include_file")],["-E token sequence and line markers"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
