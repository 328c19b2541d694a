#!/usr/bin/env python3
# generates MANIFEST.json from the checks that exist
import json, os
TV='symbolic translation validation: emitted RV64 code and the reference compiler\'s executed symbolically, Z3 decides equality for all inputs; counterexamples replayed under qemu'
SY='symbolic execution of the compiler\'s own LLVM bitcode over symbolic source text; Z3 decides the assertion for every input in the bounds; counterexamples replayed on the native build'
C={
 'C01':(TV,'translation_validation','All operand values of each listed expression shape; shapes enumerated plus seeded random nests. Trusts gcc -O1 -fwrapv as C semantics, the RV64 model in lib/rv.py, Z3.'),
 'C02':(TV,'translation_validation','All source values for every conversion pair and context. Trusts gcc as reference, lib/rv.py, Z3.'),
 'C03':(TV,'translation_validation','All bit patterns for float/double operations; long double through the same soft-float calls (uninterpreted). Trusts gcc, lib/rv.py, Z3.'),
 'C04':(TV,'translation_validation','All inputs of the enumerated and seeded random statement nests within path/step bounds; external-call traces compared. Trusts gcc, lib/rv.py, Z3.'),
 'C05':(TV,'translation_validation','All argument values of the enumerated and seeded signatures (caller and callee sides against gcc LP64D), register preservation, sp alignment, variadic calls. Trusts gcc, lib/rv.py, Z3.'),
 'C06':(TV,'translation_validation','All memory contents and stored values for the enumerated and seeded random struct/union/bit-field layouts. Packed structs with bit-fields are excluded. Trusts gcc, lib/rv.py, Z3.'),
 'C07':(TV,'translation_validation','All symbolic initializer values and prior memory contents for the enumerated and seeded initializer shapes; every byte of the object observed. Trusts gcc, lib/rv.py, Z3.'),
 'C08':(SY,'bounded_symbolic','All 64-bit literal values for every operator/type pair, seeded nests and the #if evaluator; floating constants by translation validation. Trusts strtoul (C09), the engine, Z3.'),
 'C09':(SY,'bounded_symbolic','All digit strings/suffixes within the length bounds (symbolic bytes); decimal-to-binary rounding is the C library\'s and checked by translation validation on listed literals. One known finding (long double precision). Trusts the grammar in lib/nfa.py, the engine, Z3.'),
 'C10':(SY,'bounded_symbolic','All characters, escapes, digits and scalar values in string/character literals of up to five symbolic elements, every prefix, and concatenations of up to three literals; emitted code units, size and type. Trusts the engine, Z3.'),
 'C11':(SY,'bounded_symbolic','All 2^32 code points for encode/decode/is_ident; all byte values in the enumerated identifier shapes. Trusts the Annex D table and reference lexer in harness/, the engine, Z3.'),
 'C12':(SY,'bounded_symbolic','All byte values at every symbolic position of the enumerated shapes against a reference lexer. Trusts harness/lex.c, the engine, Z3.'),
 'C13':(SY,'bounded_symbolic','All keys (symbolic bytes), all operation choices in histories up to the stated length, including collisions, tombstones and rehashing. Trusts harness/hashmap.c, the engine, Z3.'),
 'C14':(SY,'bounded_symbolic','Every value of the symbolic characters (macro names, parameters, operators, punctuation) in the listed templates and seeded random macro sets, against a reference preprocessor. Trusts harness/cpp.c, the engine, Z3.'),
 'C15':(SY,'bounded_symbolic','Every directive sequence up to the bound with every truth value, plus templates with symbolic names/operators, against a reference preprocessor. Trusts harness/cpp.c, the engine, Z3.'),
 'C16':(TV,'translation_validation','All indices/pointers of the enumerated shapes. Trusts gcc, lib/rv.py, Z3. Two known findings.'),
 'C17':(TV+'; atomic sequences executed with symbolic interfering stores','translation_validation','All operands, all interfering values (3 interferences, 1 failing sc). Memory ordering (aq/rl) is not modelled. Trusts gcc, lib/rv.py, Z3.'),
 'C18':(TV+'; for encodability the compiler itself runs symbolically on array sizes with symbolic digits','translation_validation','All data values of functions whose frames, member offsets, copies, argument lists and bodies straddle the 12-bit limits (sizes listed), every immediate checked against its instruction; array sizes 1..99999 symbolic for encodability. Branch distances beyond the assembler\'s relaxation (1 MiB) are outside. Trusts gcc, lib/rv.py, Z3.'),
 'C19':(SY+'; every memory access of the compiler is an assertion','bounded_symbolic','Every choice of the next 2-3 tokens in the listed syntactic contexts and of the next 1-3 bytes in the lexical ones: success or diagnostic, no invalid access, termination. Trusts the engine\'s memory model and C library, Z3.'),
 'C20':(SY,'bounded_symbolic','Every argument byte, file existence and child exit status within the listed option lists. Trusts the driver specification in checks/c20.py, the engine\'s model of processes and files, Z3.'),
 'C21':(SY+'; the object file assembled from each path is compared with the C rules, reachability is a formula over the symbolic targets','bounded_symbolic','All declaration sequences up to the bound for each listed type and option, and every target of every edge of the reference graphs. Trusts GNU as, the linkage rules in checks/c21.py, the engine, Z3.'),
 'C22':(TV+'; array dimensions as symbolic digits in the compiler run symbolically','translation_validation','Type and size of every listed operator/type pair, expression form, specifier permutation and seeded random declarator, selected by a symbolic index; VLA dimensions and decimal array dimensions symbolic. Four known findings (types toycc merges). Trusts gcc, lib/rv.py, the engine, Z3.'),
 'C23':(TV+'; identifiers as symbolic characters in the compiler run symbolically','translation_validation','All inputs of seeded scope trees and listed shapes; all spellings of the symbolic identifiers. Trusts gcc, lib/rv.py, the engine, Z3.'),
 'C24':(SY,'bounded_symbolic','Every combination of existing candidate files for the listed include programs and guard shapes, against a reference include model. Trusts the model in checks/c24.py, the engine\'s file system, Z3. One known finding.'),
}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'claims.py')).read()) if os.path.exists('claims.py') else None
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l)['id'] for l in open(here+'/properties.jsonl')]
checks=[]; na=[]
for p in props:
    if p in C and os.path.exists('%s/checks/%s.py'%(here,p.lower())):
        t,l,n=C[p]
        checks.append(dict(property=p,quick_cmd='./check.py '+p,thorough_cmd='VERIF_TIER=thorough ./check.py '+p,evidence_file='evidence/%s.json'%p,technique=t,level=l,level_note=n))
    else: na.append(dict(property=p,reason=NA[p] if 'NA' in globals() and p in NA else 'the check for this property is not finished yet; nothing is claimed for it'))
json.dump(dict(version=1,setup_cmd="python3-vt -c \"import sys;sys.path.insert(0,'lib');import core;core.engine()\"",checks=checks,not_applicable=na),open(here+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
