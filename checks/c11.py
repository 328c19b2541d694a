from report import Report
import core, sx, hx
from c12 import S
LEX=core.VERIF+'/harness/lex.c'; UNI=core.VERIF+'/harness/uni.c'
C=[[0x80,0xbf]]
def run():
    r=Report('C11','bounded_symbolic','encode_utf8, decode_utf8, is_ident1 and is_ident2 (LLVM bitcode) on a symbolic 32-bit code point; tokenize_file() on identifiers spelled with symbolic UTF-8 bytes and with universal character names of symbolic digits, against a reference lexer with the C11 Annex D ranges')
    hx.run(r,'code points',UNI,[('all code points',['x'])],timeout=300)
    gs=[]
    for nm,pre,post in (('start','',' z\n'),('inner','a','b z\n'),('after digit','x1','')):
        gs.append(('2 bytes '+nm,[x for x in (pre,{'sym':'a','n':1,'in':[[0xc2,0xdf]]},{'sym':'b','n':1,'in':C},post) if x]))
        gs.append(('3 bytes '+nm,[x for x in (pre,{'sym':'a','n':1,'in':[[0xe0,0xef]]},{'sym':'b','n':2,'in':C},post) if x]))
        gs.append(('4 bytes '+nm,[x for x in (pre,{'sym':'a','n':1,'in':[[0xf0,0xf4]]},{'sym':'b','n':3,'in':C},post) if x]))
        for u in ['\\u%s','\\U0000%s','\\U0001%s','\\U000e%s','\\U0010%s']:
            for h in (['00','03','20','fe','d7','ff','30','16','18','1d','2f','4e'] if 'u' in u or core.THOROUGH else ['00','ff']):
                gs.append(('ucn %s %s'%(u%(h+'..'),nm),[pre+(u%h),{'sym':'h','n':2,'in':[[48,57],[65,70],[97,102]]},post or ' ']))
    for n in (1,2,3):   # arbitrary bytes: decoded or diagnosed
        gs.append(('any %d bytes'%n,[{'sym':'a','n':n,'in':[[0x80,0xff],[97,97]]},' z\n']))
    gs.append(('two characters',['a',{'sym':'a','n':1,'in':[[0xc2,0xdf]]},{'sym':'b','n':1,'in':C},{'sym':'c','n':1,'in':[[0xc2,0xdf]]},{'sym':'d','n':1,'in':C},'\n']))
    hx.run(r,'identifiers',LEX,gs,timeout=400)
    r.bounds=['every 32-bit code point for the functions','identifiers with one or two symbolic multi-byte characters; universal character names with two symbolic digits after the listed heads']
    r.assume=['the Annex D table transcribed in harness/lex.c','surrogates, overlong forms and code points above 10FFFF are outside the property']
    return r.finish()
