"""Replays a solver counterexample against the real compiler: builds the program with the
native toycc and with gcc, runs both under qemu-riscv64 on the counterexample's inputs,
compares everything observable."""
import os, re, shutil, subprocess, tempfile, json
import core, rv, tv
from rv import *

ASM_CALL=r'''
	.text
	.globl call_f
call_f:
	addi sp,sp,-256
	sd ra,0(sp)
'''+''.join('\tsd s%d,%d(sp)\n'%(i,8+8*i) for i in range(12))+''.join('\tfsd fs%d,%d(sp)\n'%(i,104+8*i) for i in range(12))+r'''
	la t0,saved_sp
	sd sp,0(t0)
	# fill the stack below with a pattern
	la t1,stack_pat
	ld t1,0(t1)
	mv t2,sp
	li t3,16384
1:	addi t2,t2,-8
	sd t1,0(t2)
	addi t3,t3,-1
	bnez t3,1b
	addi sp,sp,-512
	la t0,in_stk
	li t1,0
2:	add t2,t0,t1
	ld t3,0(t2)
	add t2,sp,t1
	sd t3,0(t2)
	addi t1,t1,8
	li t2,512
	bne t1,t2,2b
	la t0,entry_sp
	sd sp,0(t0)
'''+''.join('\tli s%d,0x5a5a%04x\n\tfmv.d.x fs%d,s%d\n'%(i,i*257+1,i,i) for i in range(12))+r'''
	la t0,in_f
'''+''.join('\tfld fa%d,%d(t0)\n'%(i,8*i) for i in range(8))+'\tla t0,in_x\n'+''.join('\tld a%d,%d(t0)\n'%(i,8*i) for i in range(8))+r'''
	la t0,junk
	ld t0,0(t0)
	mv t1,t0
	mv t2,t0
	mv t3,t0
	mv t4,t0
	mv t5,t0
	mv t6,t0
	call ENTRY
	la t0,out_r
	sd a0,0(t0)
	sd a1,8(t0)
	fsd fa0,16(t0)
	fsd fa1,24(t0)
	sd sp,32(t0)
'''+''.join('\tsd s%d,%d(t0)\n\tfsd fs%d,%d(t0)\n'%(i,40+8*i,i,136+8*i) for i in range(12))+r'''
	la t0,saved_sp
	ld sp,0(t0)
	ld ra,0(sp)
'''+''.join('\tld s%d,%d(sp)\n'%(i,8+8*i) for i in range(12))+''.join('\tfld fs%d,%d(sp)\n'%(i,104+8*i) for i in range(12))+r'''
	addi sp,sp,256
	ret
'''
def stub(name,i):
    return '\t.globl %s\n%s:\n'%(name,name)+r'''	addi sp,sp,-16
	sd ra,0(sp)
	sd s0,8(sp)
	la t0,ev_cur
	ld t1,0(t0)
	li t2,320
	mul t1,t1,t2
	la t0,ev_buf
	add t0,t0,t1
	li t1,%d
	sd t1,0(t0)
'''%i+''.join('\tsd a%d,%d(t0)\n\tfsd fa%d,%d(t0)\n'%(k,8+8*k,k,72+8*k) for k in range(8))+r'''	addi t1,sp,16
	sd t1,136(t0)
'''+''.join('\tld t2,%d(sp)\n\tsd t2,%d(t0)\n'%(16+8*k,144+8*k) for k in range(16))+r'''	andi s0,sp,8
	sub sp,sp,s0
	call on_ev
	add sp,sp,s0
	ld ra,0(sp)
	ld s0,8(sp)
	addi sp,sp,16
	la t0,junk
	ld t0,0(t0)
'''+''.join('\tfmv.d.x %s,t0\n'%FN[k] for k in CALLER_F)+'\tmv t1,t0\n'.join([''])+'\tla t1,ret_cur\n\tfld fa0,16(t1)\n\tld a0,0(t1)\n\tld a1,8(t1)\n\tmv t1,t0\n\tmv t2,t0\n\tmv t3,t0\n\tmv t4,t0\n\tmv t5,t0\n\tmv t6,t0\n'+''.join('\tmv a%d,t0\n'%k for k in range(2,8))+'\tret\n'

C_DRV=r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
typedef unsigned long u64; typedef unsigned char u8;
u64 saved_sp, entry_sp, stack_pat=0xa5a5a5a5a5a5a5a5ul, junk=0x7eadbeef12345678ul;
u64 in_x[8]={%(x)s}; u64 in_f[8]={%(f)s}; u64 in_stk[64]={%(stk)s};
u64 out_r[32]; u64 ev_cur, ev_buf[4096*40]; u64 ret_cur[3];
extern void call_f(void);
%(decl)s
struct reg { char *name; u8 *p; u64 n; } regs[]={%(regs)s {0,0,0}};
struct w { u64 a; u8 *base; u64 off; u8 v; int ev; } ws[]={%(ws)s {0,0,0,0,-2}};
u64 rets[][3]={%(rets)s {0,0,0}}; int nrets=%(nrets)d;
char *names[]={%(names)s 0};
char *akinds[]={%(akinds)s 0};
extern char __executable_start, _end;
static void pv(u64 v){
  for (struct reg *r=regs; r->name; r++) if (v>=(u64)r->p && v<(u64)r->p+(r->n?r->n:1)) { printf("%%s+%%lu",r->name,v-(u64)r->p); return; }
  if (v>=entry_sp-0x400000 && v<entry_sp) { printf("<stack>"); return; }
  if (v>=(u64)&__executable_start && v<(u64)&_end) { printf("<image>"); return; }
  printf("%%#lx",v);
}
static void dump(void){
  for (struct reg *r=regs; r->name; r++) {
    u64 i=0; printf(" %%s:",r->name);
    while (i<r->n) {
      if (i%%8==0 && i+8<=r->n && ((u64)(r->p+i)%%8==0)) { u64 v; memcpy(&v,r->p+i,8); printf(" "); pv(v); i+=8; }
      else { printf(" %%02x",r->p[i]); i++; }
    }
    printf("\n");
  }
}
static void apply(int ev){ for (struct w *w=ws; w->ev!=-2; w++) if (w->ev==ev) { u8 *p = w->base ? w->base+w->off : (u8*)w->a; *p=w->v; } }
void on_ev(void){
  u64 *e=ev_buf+ev_cur*40; char *k=akinds[e[0]]; int xi=0,fi=0,si=0;
  printf("call %%s(",names[e[0]]);
  for (; *k; k++) {
    if (*k=='f') printf("f:%%#x ",(unsigned)e[9+fi++]);
    else if (*k=='d') printf("d:%%#lx ",e[9+fi++]);
    else if (*k=='s') printf("s:%%#lx ",e[18+si++]);
    else if (*k=='t') printf("t:%%#x ",(unsigned)e[18+si++]);
    else if (*k=='P') { u64 *p=(u64*)e[1+xi++]; printf("P:%%#lx,%%#lx ",p[0],p[1]); }
    else if (*k=='-') xi++;
    else { pv(e[1+xi++]); printf(" "); }
  }
  printf(") sp%%%%16=%%lu\n",e[17]%%16); dump(); fflush(stdout);
  apply(ev_cur);
  if ((int)ev_cur<nrets) { ret_cur[0]=rets[ev_cur][0]; ret_cur[1]=rets[ev_cur][1]; ret_cur[2]=rets[ev_cur][2]; }
  ev_cur++;
  if (akinds[e[0]][0]=='!' || ev_cur>4000) exit(3);
}
int main(){
  if (mmap((void*)0x30000000,0x200000,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED,-1,0)!=(void*)0x30000000) { puts("mmap"); return 9; }
  apply(-1);
  call_f();
  char rk='%(ret)s'[0];
  if ('v'!=RK) {
    if (RK=='f') printf("ret %%#x\n",(unsigned)out_r[2]);
    else if (RK=='d') printf("ret %%#lx\n",out_r[2]);
    else if (RK=='l') printf("ret %%#lx %%#lx\n",out_r[0],out_r[1]);
    else { printf("ret "); pv(out_r[0]); printf("\n"); }
  }
  printf("sp %%ld saved",(long)(out_r[4]-entry_sp));
  for (int i=0;i<24;i++) printf(" %%lx",out_r[5+i]);
  printf("\n"); dump();
  return 0;
}
'''
def build_driver(case, model, layout, sizes, d):
    x,f,mem,bufs,ins=tv.entry_regs(case)
    z=__import__('z3')
    sub=[]
    def val(e):
        if isint(e): return e
        vs=[]
        def walk(t,seen=set()):
            if z.is_const(t) and t.decl().kind()==z.Z3_OP_UNINTERPRETED: vs.append(t)
            for c in t.children(): walk(c)
        walk(e)
        s=[(v,z.BitVecVal(model.get(v.decl().name(),0),v.size())) for v in vs]
        return z.simplify(z.substitute(e,*s)).as_long()
    X=[0]*8; F=[0]*8
    for k,v in x.items(): X[k-A0]=val(v)
    for k,v in f.items(): F[k-FA0]=val(v)
    stk=[0]*64
    for a,(v,i) in mem.items():
        if i==0: stk[(a-SP0)//8]=val(v)
    names=list(case.externs); decl=''; regs=[]; ws=[]
    syms=[(n,a) for n,a in layout.items() if not n.startswith('.static.')]
    for n,a in syms:
        sz=sizes.get(a,0)
        decl+='extern u8 %s[] __asm__("%s");\n'%('g_'+n,n) if sz else ''
        if sz: regs.append('{"%s",g_%s,%d},'%(n,n,sz))
    for k,(a,n) in enumerate(bufs): regs.append('{"buf%d",(u8*)0x%xul,%d},'%(k,a,n))
    for nm,v in model.items():
        m=re.match(r'^(m|hv(\d+))_([0-9a-f]+)$',nm)
        if not m: continue
        a=int(m.group(3),16); ev=int(m.group(2)) if m.group(2) else -1
        own=[(n,b) for n,b in syms if b<=a<b+sizes.get(b,0)]
        if own: ws.append('{0,g_%s,%d,%d,%d},'%(own[0][0],a-own[0][1],v,ev))
        elif any(b<=a<b+n for b,n in bufs): ws.append('{0x%xul,0,0,%d,%d},'%(a,v,ev))
    R={}
    for nm,v in model.items():
        m=re.match(r'^ret(b?)(\d+)_(\w+)$',nm)
        if m:
            k=int(m.group(2)); R.setdefault(k,[0,0,0]); rk=case.externs[m.group(3)][1]
            if m.group(1): R[k][1]=v
            elif rk=='f': R[k][2]=v|(0xffffffff<<32)
            elif rk=='d': R[k][2]=v
            elif rk in('i32','u32','i8','i16'): R[k][0]=sx(v,{'i8':8,'i16':16}.get(rk,32))&M64
            else: R[k][0]=v
    n=max(R,default=-1)+1
    rets=''.join('{0x%xul,0x%xul,0x%xul},'%tuple(R.get(k,[0,0,0])) for k in range(n))
    ak=['"%s",'%(('!' if case.externs[nm][1]=='noreturn' else '')+case.externs[nm][0]) for nm in names]
    src=C_DRV%dict(x=','.join('0x%xul'%v for v in X),f=','.join('0x%xul'%v for v in F),stk=','.join('0x%xul'%v for v in stk),
        decl=decl,regs=''.join(regs),ws=''.join(ws),rets=rets,nrets=n,names=''.join('"%s",'%q for q in names),akinds=''.join(ak),ret=case.ret)
    rk={'v':'v','f':'f','d':'d','ld':'l','i128':'l'}.get(case.ret,'i')
    src=src.replace("char rk='%s'[0];"%case.ret,'').replace('RK',"'%s'"%rk)
    open(d+'/drv.c','w').write(src)
    open(d+'/call.S','w').write(ASM_CALL.replace('ENTRY',case.entry)+''.join(stub(nm,i) for i,nm in enumerate(names)))

def replay(case, mix, model, layout, sizes, outdir):
    """-> (confirmed, report)"""
    os.makedirs(outdir,exist_ok=True)
    d=outdir
    tus=case.src if isinstance(case.src,(list,tuple)) else [case.src]
    build_driver(case,model,layout,sizes,d)
    logs=[]
    def run(which):
        objs=[]
        for i,s in enumerate(tus):
            cc=which if which!='M' else ('T' if mix[i]=='A' else 'G')
            src=s if cc=='T' or not case.oracle else case.oracle[i]
            f='%s/tu%d.c'%(d,i) if cc=='T' or not case.oracle else '%s/oracle%d.c'%(d,i)
            open(f,'wb').write(src.encode())
            o='%s/tu%d_%s.s'%(d,i,cc)
            if cc=='T': r=core.sh([core.native(),'-S']+list(case.opts)+['-o',o,f],timeout=30)
            else: r=core.sh(core.GCC+['-S','-o',o,f])
            if r.returncode: return None,'compile failed (%s rc=%d): %s'%(cc,r.returncode,r.stderr.decode(errors='replace')[-500:])
            ob=o[:-1]+'o'
            r=core.sh(['riscv64-linux-gnu-as',o,'-o',ob])
            if r.returncode: return None,'assembler rejects output: '+r.stderr.decode(errors='replace')[-400:]
            objs.append(ob)
        exe='%s/exe_%s'%(d,which)
        r=core.sh(['riscv64-linux-gnu-gcc','-w','-static','-O0','-o',exe,d+'/drv.c',d+'/call.S']+objs)
        if r.returncode: return None,'link failed: '+r.stderr.decode(errors='replace')[-400:]
        try: r=core.sh(['qemu-riscv64',exe],timeout=20)
        except subprocess.TimeoutExpired: return 'timeout',''
        return 'rc=%d\n'%r.returncode+r.stdout.decode(errors='replace'),''
    g,eg=run('G')
    if g is None: return False,'oracle: '+eg
    m,em=run('M')
    if m is None:
        return True,em
    fixsp=lambda t: t
    same = g==m
    rep='--- expected (gcc)\n%s--- observed (toycc, mix %s)\n%s'%(g,mix,m)
    open(d+'/report.txt','w').write(rep)
    # sp%16 and saved registers are part of the text; gcc is always aligned
    for f in os.listdir(d):
        if f.startswith('exe_') or f.endswith('.o'): os.unlink(d+'/'+f)
    return (not same), rep
