"""Any input is compiled or diagnosed: memory safety, termination and truthful status on symbolic text."""
from report import Report
import core, sx, z3, os, itertools
EXPR=['x','a','p','s','f','1','0','(',')','[',']','{','}','+','-','*','/','&','.','->',',',';','=','?',':','sizeof','int','"s"',"'c'",'++','1.5','struct','_Alignof','_Generic','<<','!','==','&&','+=','g']
DECL=['int','char','struct','union','enum','typedef','static','extern','const','unsigned','void','T','x','y','*','(',')','[',']','{','}',',',';','=','3','f',':','...','_Alignas','_Bool','inline','double','typeof','_Atomic','0','"s"','return','S','long','_Thread_local']
STMT=['if','else','for','while','do','switch','case','default','break','continue','goto','return','x','l','1','(',')','{','}',';',':',',','=','int','asm','"s"','T','+','struct','&&','typedef','static','0','...']
DIR=['define','undef','if','ifdef','ifndef','elif','else','endif','include','include_next','line','pragma','error','once','M','F','x','(',')',',','#','##','1','0','"s"','<','>','defined','...','__VA_ARGS__','+','==','&&','?',':','\n','\n#','__VA_OPT__','!','-','__has_include']
INIT=['{','}','1','0',',','.','a','b','=','[',']','"s"','x','&','...','+','(',')','int','S','{}','-1','L"w"','2','*','b']
CTX={
 'file scope':('typedef int T; struct S{int a;int b;}; ','\n',DECL,3),
 'file scope, closed':('typedef int T; struct S{int a;int b;}; ',';\n',DECL,3),
 'declarator':('typedef int T; int ',';\n',['x','*','(',')','[',']','3','int','T',',','=','1','{','}','void','f','const','static','...',':','0','"s"','&','-'],4),
 'parameters':('typedef int T; int f(',');int g(void){return 0;}\n',DECL,3),
 'parameters of a definition':('typedef int T; int f(','){return 0;}\n',DECL,3),
 'members':('typedef int T; struct Q{','}q; int n=sizeof(struct Q);\n',DECL,3),
 'enumerators':('enum E{','}; int n;\n',['A','B',',','=','1','{','}','(',')','-','x','"s"',';','int','E'],4),
 'statement':('typedef int T; struct S{int a;}; int f(int x){ ','}\n',STMT,3),
 'statement, closed':('typedef int T; int f(int x){ ','; l:; return 0; }\n',STMT,3),
 'switch':('int f(int x){ switch(x){ ','} return 0; }\n',STMT,3),
 'expression':('struct S{int a;int b;}; struct S s; int g(int,int); int *p; int a[3]; int f(int x){ return ','; }\n',EXPR,3),
 'expression statement':('struct S{int a;int b;}; struct S s; void g(int,int); int *p; int a[3]; int f(int x){ ','; return 0; }\n',EXPR,3),
 'call arguments':('struct S{int a;}; struct S s; int g(int,int); int h(int,...); int a[3]; int f(int x){ return g(',')+h(1,2); }\n',EXPR,3),
 'constant expression':('struct S{int a;}; int a[3]; int f(void); int y=','; int z;\n',EXPR,3),
 'array size':('int g(void); int x=1; int f(void){ int v[','];  return sizeof v; }\n',EXPR,3),
 'case label':('int f(int x){ switch(x){ case ',': return 1; } return 0; }\n',EXPR,3),
 'scalar initialiser':('int x=','; int y;\n',INIT,4),
 'array initialiser':('int x[3]={','};\n',INIT,4),
 'struct initialiser':('struct S{int a; struct{int b;char c[2];};}; struct S x={','};\n',INIT,4),
 'local initialiser':('struct S{int a; int b;}; int f(int x){ struct S v[2]={','}; return v[0].a; }\n',INIT,4),
 'string initialiser':('char x[]=','; char *y;\n',INIT,3),
 'nested initialiser':('struct S{int a; struct{int b[2];} c; union{int d; char e[8];} u;}; struct S x[]={','};\n',INIT,4),
 'compound literal':('struct S{int a;int b;}; int f(int x){ return ((struct S){','}).a; }\n',INIT,3),
 'directive':('#','\nint x;\n',DIR,3),
 'directive at end':('#','',DIR,3),
 'if expression':('#define F(x) x\n#if ','\nint x;\n#endif\n',DIR,3),
 'macro definition':('#define M',' \nM int x; M(1) M(,) M\n',DIR,3),
 'function-like body':('#define F(x,y) ','\nint a = F(1,2); F(,) F()\n',DIR,3),
 'variadic body':('#define F(x,...) ','\nF(1) F(1,2) F(1,2,3)\n',DIR,3),
 'macro parameters':('#define F(',') x\nF(1) F(1,2) F()\n',DIR,3),
 'macro arguments':('#define F(x,y) x y #x x##y\n#define G() F\nint z; F(',')\n',DIR,3),
 'macro arguments, open':('#define F(x) x\nF(','',DIR,3),
 'generic':('int f(int x){ return _Generic(x,','); }\n',['int',':','1',',','default','char','x','(',')','*','long','T','{','}','"s"','int'],4),
 'attribute':('struct ','{char a;int b;} x;\n',['__attribute__','((','))','packed','aligned','(',')','8','S',',','{','}','3','x'],4),
 'asm':('int f(void){ asm ','; return 0; }\n',['volatile','(',')','"nop"',':','x','1',',','inline','{','goto','""'],4),
 'typeof':('int f(int x){ typeof(',') y; return 0; }\n',EXPR,2),
 'builtin':('int f(int x){ return ','; }\n',['__builtin_types_compatible_p','(',')','int',',','x','__builtin_reg_class','__builtin_compare_and_swap','__builtin_atomic_exchange','&','1','*','alloca','va_list'],4),
}
RAW={'file':('',''),'after text':('int x;\n','\nint y;\n'),'string':('char*s="','";\n'),'character':("int c='","';\n"),'number':('int x=1',';\n'),'identifier':('int a','=1;\n'),'comment':('/','/\nint x;\n'),'line comment at end':('int x;\n//',''),'directive':('#','\n'),'include':('#include ','\n'),'after backslash':('int x;\\',''),'macro body':('#define M a','\nM\n'),'stringize':('#define S(x) #x\nchar*p=S(',');\n'),'paste':('#define P(x,y) x##y\nP(','\n,1)\n'),'paste slash':('#define P(x,y) x##y\nint z; P(/,',')\n'),'unterminated string':('char*s="',''),'unterminated comment':('int x; /*',''),'raw end':('int x;',''),'universal':('char*s="\\u','";\n'),'ucn in text':('int \\U',';\n'),'line':('#line ','\nint x;\n'),'wide':('int*w=L"','";\n')}
SEM={'bit-field width':('struct S{int a:','; char b;} s={1,2}; int f(void){ return s.a++; }\n'),'unnamed bit-field width':('struct S{int a:3; int :','; char b;} s={1,2};\n'),
 'array size':('int a[','] = {1,2}; int f(void){ return sizeof a; }\n'),'local array size':('int f(void){ int a[','] = {1,2}; return a[0]; }\n'),'char array size':('char a[','] = "ab";\n'),
 'divisor':('int x=7/(',');\n'),'remainder':('long x=7%(',');\n'),'#if divisor':('#if 7/','\n#endif\n'),'#if remainder':('#if 1 || 7%(',')\n#endif\nint x;\n'),
 'designator':('int a[4]={[',']=1,2};\n'),'local designator':('int f(void){ int a[4]={[',']=1,2}; return a[0]; }\n'),'designator of unknown bound':('int a[]={[',']=1,2};\n'),'range designator':('int a[9]={[2 ... ',']=1,2};\n'),'nested designator':('struct S{int a[3];} s[2]={[1].a[',']=1,2};\n'),
 'case range':('int f(int x){ switch(x){ case 3 ... ',': return 1; } return 0; }\n'),'_Alignas':('_Alignas(',') int x; int f(void){ return _Alignof x; }\n'),'aligned':('struct __attribute__((aligned(','))) S{char a;} s;\n'),
 '#line':('#line ',' "f.c"\nint x=;\n'),'enumerator':('enum{A=',',B}; int x[B+200];\n'),'escape':('char x[]="\\',';\n'),'shift':('int x=1<<(',');\n'),'conditional':('int x=','?1:2;\n'),'subscript':('int a[3]; int *p=&a[','];\n'),'digits':('int x=',';\n'),'exponent':('double x=1e',';\n'),'file number':('# ',' "x"\nint x;\n')}
def judge(p):
    if p.kind=='exit':
        if p.status!=0 and not p.out.get('<stderr>','').strip(): return [('exit status %s without a diagnostic'%p.status,True)]
        return []
    return []
def confirm(txt,m):
    rc,asm,err=core.native_asm(txt)
    if rc==-99: return 'does not terminate within 20 s'
    if sx.crashed(rc): return 'killed by signal / status %d'%rc
    if rc and not err.strip(): return 'exit status %d without a diagnostic'%rc
    # memory errors that do not kill the native build: the sanitized build decides
    rc,err=san(txt)
    return err
_san=None
def san(txt):
    global _san
    import subprocess,tempfile,shutil
    if not _san:
        d=os.path.join(core.scratch(),'san'); os.makedirs(d)
        from concurrent.futures import ThreadPoolExecutor
        def comp(a):
            i,(f,fl)=a; o='%s/%d.o'%(d,i); r=core.sh(['clang-18','-w','-std=c2x','-g','-O0','-fsanitize=address,undefined','-fno-sanitize-recover=all']+fl+['-c',f,'-o',o],cwd=core.REPO)
            if r.returncode: raise core.BuildError(r.stderr.decode()[-300:])
            return o
        with ThreadPoolExecutor(8) as ex: objs=list(ex.map(comp,list(enumerate(core.sources()))))
        r=core.sh(['clang-18','-fsanitize=address,undefined','-o',d+'/toycc']+objs)
        if r.returncode: raise core.BuildError(r.stderr.decode()[-300:])
        _san=d+'/toycc'
    d=tempfile.mkdtemp(dir=core.scratch()); open(d+'/a.c','wb').write(txt)
    try:
        r=subprocess.run([_san,'-cc1','-cc1-input',d+'/a.c','-cc1-output',d+'/a.s',d+'/a.c'],stdout=-1,stderr=-1,timeout=60,env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0'))
        e=r.stderr.decode(errors='replace')
        if 'AddressSanitizer' in e or 'runtime error' in e: return r.returncode,'the sanitized build reports: '+next(l for l in e.split('\n') if 'AddressSanitizer' in l or 'runtime error' in l)[-200:]
        return r.returncode,None
    except subprocess.TimeoutExpired: return -99,'does not terminate'
    finally: shutil.rmtree(d,ignore_errors=True)
def groups():
    gs=[]
    for k,(a,b,al,n) in CTX.items():
        n=2 if len(al)>24 and k not in('compound literal','nested initialiser') else 3
        if core.THOROUGH: n+=1
        segs=[a]
        for i in range(n):
            segs.append({'choice':'t%d'%i,'alts':[' '+t for t in al]})
        segs.append(b)
        gs.append(dict(key='tokens in '+k,segs=segs,bad=judge,confirm=confirm,solo=k))
    W=[0,10,13,9,92,34,39,47,42,35,32,40,41,44,46,60,62,59]
    for k,(a,b) in RAW.items():
        gs.append(dict(key='one byte in '+k,segs=[a,{'sym':'b','n':1,'in':[[0,255]]},b],bad=judge,confirm=confirm,solo=k))
        gs.append(dict(key='two bytes in '+k,segs=[a,{'sym':'b','n':2,'in':[[c,c] for c in W]},b],bad=judge,confirm=confirm,solo=k))
        gs.append(dict(key='three bytes in '+k,segs=[a,{'sym':'b','n':4 if core.THOROUGH else 3,'in':[[c,c] for c in (0,10,92,34,39,47,42,35)]},b],bad=judge,confirm=confirm,solo=k))
    for k,(a,b) in SEM.items():
        gs.append(dict(key='number as '+k,segs=[a,{'choice':'h','alts':['','-','3','6','1.','0x','(char)','!','x+','sizeof ']},{'sym':'b','n':2 if core.THOROUGH else 1,'in':[[48,57],[32,32]]},b],bad=judge,confirm=confirm,solo=k))
    return gs
def run():
    r=Report('C19','bounded_symbolic','the compiler (LLVM bitcode, with every memory access checked by the engine) runs on token sequences and byte strings that are symbolic, in each syntactic context: every path must end in success or a diagnostic with non-zero status')
    sx.run(r,'inputs',groups(),abshash=True)
    n=1 if core.THOROUGH else 0
    r.bounds=['%d syntactic contexts with every sequence of %d tokens of up to 41 spellings (%d for the shorter lists)'%(len(CTX),2+n,3+n),'%d lexical contexts with any byte 0-255, any two of 18 bytes, any %d of 8 bytes that open or close lexical elements'%(len(RAW),3+n),'%d contexts that take a number, with every %d-digit number behind 10 prefixes'%(len(SEM),1+n)]
    r.outside=['longer inputs, deep nesting (native stack exhaustion), memory exhaustion']
    r.assume=['the engine detects reads and writes outside live objects and null pointers; reads of uninitialised heap memory are not detected','recursion depth of the compiler is not bounded by the check']
    return r.finish()
