from report import Report
import core, sx, hx, random
from c09 import sy
H=core.VERIF+'/harness/lex.c'
LEX=' \n\r\t\\/*"\'a1.e+-<>=&|#%^!Lu_,;('
def alpha(s):
    """any characters of s (no range notation)"""
    r=[]
    for c in sorted({ord(x) for x in s}):
        if r and r[-1][1]==c-1: r[-1][1]=c
        else: r.append([c,c])
    return r
def S(nm,n,s): return {'sym':nm,'n':n,'in':alpha(s)}
ANY=[[1,255]]
def run():
    r=Report('C12','bounded_symbolic','tokenize_file() (LLVM bitcode) and a reference lexer written from C\'s translation phases 1-3 run on the same file with symbolic characters; on every path token kinds, texts, line numbers, line-start and white-space marks must agree, malformed text must be diagnosed')
    gs=[]; k=3 if core.THOROUGH else 2
    for pre,post in [('',''),('x',''),('x','y\n'),('/*','*/z\n'),('//','\nz\n'),('"','" z\n'),('1','2 z'),('a\\','\nb\n'),('#define A ',' z\n'),('\r\n','\r\nz'),("'","' z\n"),('a \\\n',' b\n c'),('/* \n','\n */ z'),('L','"a" z'),('u8','"a"'),('.','. z'),('<','= z'),('\\\n\\\n','\nq\n\nz'),('1e','5 z'),('0x1p','3'),('-','- z'),('%','%='),('"a\\','b" z'),('/\\\n','/ a\n b'),("'a\\","' z\n"),("'\\","'' z\n"),('a\r','\rb'),('\xef\xbb\xbf'.encode('latin-1').decode('latin-1') and '','z')]:
        gs.append(('any %r %r'%(pre,post),[x for x in (pre,{'sym':'a','n':1,'in':ANY},post) if x]))
        gs.append(('lex %r %r'%(pre,post),[x for x in (pre,S('a',k,LEX),post) if x]))
    for n in (3,4) if not core.THOROUGH else (3,4,5):
        gs.append(('punctuators %d'%n,[S('a',n,'+-*/<>=&|!^%.#:,;' if n<4 or core.THOROUGH else '<>=.-#'),'\n']))
        gs.append(('line structure %d'%n,['a ',S('a',n+1,'\r\n\\ b'),' c\n d']))
        gs.append(('comments %d'%n,['a ',S('a',n+1,'/*\n\\"'),' b\n c */ "\nd\n']))
        gs.append(('numbers %d'%n,['1',S('a',n,'.eEpPxL+-_9' if n<4 or core.THOROUGH else '.eP+_9'),' z\n']))
        gs.append(('literals %d'%n,[S('a',n,'"\'\\LUu8a'),'"\n']))
    gs.append(('bom',[{'hex':'efbbbf'},S('a',2,LEX),'z\n'])); gs.append(('bom?',[{'sym':'a','n':3,'in':[[0xbb,0xbf],[0xef,0xef]]},'z\n']))
    hx.run(r,'lexing',H,gs,timeout=400)
    r.bounds=['files with up to 5 symbolic characters over the lexical alphabet (any byte for one character) in the listed contexts','NUL bytes, digraphs, trigraphs, unterminated character constants excluded']
    r.assume=['the reference lexer in harness/lex.c']
    return r.finish()
