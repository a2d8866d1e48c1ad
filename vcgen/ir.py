"""Textual LLVM IR (clang 18, opaque pointers) -> small Python AST."""
import re, subprocess

class Ty:
    __slots__=("k","a","b")
    def __init__(s,k,a=None,b=None): s.k=k; s.a=a; s.b=b
    def __repr__(s):
        return {"int":lambda:"i%d"%s.a,"ptr":lambda:"ptr","void":lambda:"void"}.get(s.k,lambda:"%s(%r,%r)"%(s.k,s.a,s.b))()
PTR=Ty("ptr"); VOID=Ty("void")

class Val:
    """operand: kind in local/global/int/null/undef/cexpr/fp"""
    __slots__=("kind","v","ty")
    def __init__(s,kind,v,ty): s.kind=kind; s.v=v; s.ty=ty
    def __repr__(s): return "%s:%s"%(s.kind,s.v)

class Ins:
    __slots__=("op","res","ty","args","extra","dbg","text")
    def __init__(s,op,res,ty,args,extra=None): s.op=op; s.res=res; s.ty=ty; s.args=args; s.extra=extra; s.dbg=None; s.text=""
    def __repr__(s): return s.text

class Func:
    def __init__(s,name,ret,params,attrs):
        s.name=name; s.ret=ret; s.params=params; s.attrs=attrs; s.blocks={}; s.order=[]; s.param_attrs=[]
class Unsupported(Exception): pass

class Lexer:
    TOK=re.compile(r'''\s*(%"[^"]*"|@"[^"]*"|[%@][-\w$.]+|c"[^"]*"|"[^"]*"|![\w.]*|#\d+|-?\d+\.\d+e[+-]?\d+|0x[0-9A-Fa-f]+|-?\d+|[\w.]+|\.\.\.|[()\[\]{}<>,=*:])''')
    def __init__(s,t):
        s.t=[]; i=0; n=len(t)
        while i<n:
            m=s.TOK.match(t,i)
            if not m:
                if t[i:].strip()=="" : break
                raise Unsupported("lex: "+t[i:i+40])
            s.t.append(m.group(1)); i=m.end()
        s.i=0
    def peek(s,k=0): return s.t[s.i+k] if s.i+k<len(s.t) else None
    def next(s): x=s.t[s.i]; s.i+=1; return x
    def accept(s,x):
        if s.peek()==x: s.i+=1; return True
        return False
    def expect(s,x):
        y=s.next()
        if y!=x: raise Unsupported("expected %s got %s in %s"%(x,y," ".join(s.t)))

PATTRS={"noundef","nonnull","zeroext","signext","nocapture","readonly","writeonly","readnone","returned","noalias","nofree","immarg","inreg","noinline","dead_on_unwind","writable","allocptr","allocalign","swiftself","nest"}
def skip_attrs(L,out=None):
    while True:
        p=L.peek()
        if p in PATTRS:
            L.next()
            if out is not None: out.append(p)
        elif p=="align": L.next(); L.next()
        elif p in("dereferenceable","dereferenceable_or_null","sret","byval","elementtype","byref","inalloca","range","initializes","memory","captures"):
            L.next()
            if out is not None: out.append(p)
            if L.accept("("):
                d=1
                while d:
                    t=L.next()
                    if t=="(": d+=1
                    elif t==")": d-=1
        else: break

class Module:
    def __init__(s,text):
        s.types={}; s.funcs={}; s.decls={}; s.globals={}; s.dbg={}
        s.text=text
        s._parse(text)
    # -------- types
    def parse_type(s,L):
        t=L.next()
        if t=="ptr": r=PTR
        elif t=="void": r=VOID
        elif re.fullmatch(r"i\d+",t): r=Ty("int",int(t[1:]))
        elif t in("float","double","x86_fp80","half"): r=Ty("fp",t)
        elif t[0]=="%": r=Ty("named",t)
        elif t=="[":
            n=int(L.next()); L.expect("x"); e=s.parse_type(L); L.expect("]"); r=Ty("arr",n,e)
        elif t=="{":
            f=[]
            if L.peek()!="}":
                while True:
                    f.append(s.parse_type(L))
                    if not L.accept(","): break
            L.expect("}"); r=Ty("struct",f,False)
        elif t=="<":
            if L.peek()=="{":
                L.next(); f=[]
                if L.peek()!="}":
                    while True:
                        f.append(s.parse_type(L))
                        if not L.accept(","): break
                L.expect("}"); L.expect(">"); r=Ty("struct",f,True)
            else:
                n=int(L.next()); L.expect("x"); e=s.parse_type(L); L.expect(">"); r=Ty("vec",n,e)
        elif t in("metadata","label","token","opaque"): r=Ty(t)
        else: raise Unsupported("type "+t)
        # function type "ret (args)"
        return r
    def resolve(s,t):
        while t.k=="named":
            t=s.types[t.a]
        return t
    def size_align(s,t):
        t=s.resolve(t)
        if t.k=="ptr": return 8,8
        if t.k=="int":
            n=(t.a+7)//8
            p=1
            while p<n: p*=2
            return p,min(p,16)
        if t.k=="fp": return {"float":(4,4),"double":(8,8),"x86_fp80":(16,16),"half":(2,2)}[t.a]
        if t.k=="arr":
            a,b=s.size_align(t.b); return a*t.a,b
        if t.k=="struct":
            off,_,al=s.layout(t); return off,al
        raise Unsupported("sizeof %r"%t)
    def layout(s,t):
        off=0; al=1; offs=[]
        for f in t.a:
            a,b=s.size_align(f)
            if t.b: b=1
            off=(off+b-1)//b*b; offs.append(off); off+=a; al=max(al,b)
        off=(off+al-1)//al*al
        return off,offs,al
    def sizeof(s,t): return s.size_align(t)[0]
    # -------- values
    def parse_val(s,L,ty):
        skip_attrs(L)
        t=L.peek()
        if t[0]=="%": L.next(); return Val("local",t,ty)
        if t[0]=="@": L.next(); return Val("global",t.replace('"',""),ty)
        if t=="null": L.next(); return Val("null",None,ty)
        if t in("undef","poison"): L.next(); return Val("undef",None,ty)
        if t in("true","false"): L.next(); return Val("int",1 if t=="true" else 0,ty)
        if t=="zeroinitializer": L.next(); return Val("zero",None,ty)
        if re.fullmatch(r"-?\d+",t): L.next(); return Val("int",int(t),ty)
        if re.fullmatch(r"-?\d+\.\d+e[+-]?\d+|0x[0-9A-Fa-f]+",t): L.next(); return Val("fp",t,ty)
        if t in("getelementptr","inttoptr","ptrtoint","bitcast","sub","add"):
            L.next()
            if t=="getelementptr":
                L.accept("inbounds"); L.expect("(")
                bt=s.parse_type(L); L.expect(","); a=s.parse_tv(L); idx=[]
                while L.accept(","):
                    L.accept("inrange"); idx.append(s.parse_tv(L))
                L.expect(")")
                return Val("cexpr",("gep",bt,a,idx),ty)
            d=0
            while True:
                x=L.next()
                if x=="(": d+=1
                elif x==")":
                    d-=1
                    if d==0: break
            return Val("undef",None,ty)
        if t=="{" or t=="[" or t=="<":
            d=0
            while True:
                x=L.next()
                if x in"{[<": d+=1
                elif x in"}]>":
                    d-=1
                    if d==0: break
            return Val("aggr",None,ty)
        if t.startswith("c\""): L.next(); return Val("cstr",t,ty)
        if t[0]=="!" or t in("asm",): L.next(); return Val("meta",t,ty)
        raise Unsupported("value "+t)
    def parse_tv(s,L):
        t=s.parse_type(L)
        if t.k=="metadata":
            # swallow
            while L.peek() not in(",",")",None): L.next()
            return Val("meta",None,t)
        return s.parse_val(L,t)
    # -------- module
    def _parse(s,text):
        lines=text.split("\n"); i=0; n=len(lines)
        defs=[]
        while i<n:
            l=lines[i]
            if l.startswith("%") and " = type " in l:
                nm,rest=l.split(" = type ",1)
                if rest.strip()=="opaque": s.types[nm]=Ty("struct",[],False)
                else: s.types[nm]=s.parse_type(Lexer(rest))
            elif l.startswith("@") and " = " in l:
                nm,rest=l.split(" = ",1); s.globals[nm.replace('"',"")]=rest
            elif l.startswith("declare "):
                m=re.search(r'@("?[^"(]+"?)\(',l)
                if m: s.decls["@"+m.group(1).replace('"',"")]=l
            elif l.startswith("define "):
                j=i+1
                while lines[j]!="}": j+=1
                m=re.search(r'@("?[^"(]+"?)\(',l)
                s.funcs["@"+m.group(1).replace('"',"")]=(i,j)
                i=j
            elif l.startswith("!") and "!DILocation(" in l:
                m=re.match(r"(!\d+) = (?:distinct )?!DILocation\(line: (\d+)",l)
                if m: s.dbg[m.group(1)]=int(m.group(2))
            i+=1
        s.lines=lines
        s._cache={}
    def has(s,name): return name in s.funcs
    def func(s,name):
        if name in s._cache: return s._cache[name]
        i,j=s.funcs[name]
        f=s._parse_func(s.lines[i:j])
        s._cache[name]=f
        return f
    def _parse_func(s,ls):
        head=ls[0]
        m=re.search(r'@("?[^"(]+"?)\(',head)
        name="@"+m.group(1).replace('"',"")
        pre=head[len("define "):m.start()]
        toks=pre.split()
        L=Lexer(pre); 
        # return type: the last type before @
        while True:
            p=L.peek()
            if p in("linkonce_odr","dso_local","internal","weak_odr","hidden","weak","private","available_externally","fastcc","local_unnamed_addr","unnamed_addr","linkonce","noalias") or p in PATTRS: L.next(); continue
            if p in("align",): L.next(); L.next(); continue
            if p in("dereferenceable","dereferenceable_or_null"): skip_attrs(L); continue
            break
        ret=s.parse_type(L)
        # params
        k=m.end(); d=1; e=k
        while d:
            if head[e]=="(": d+=1
            elif head[e]==")": d-=1
            e+=1
        P=Lexer(head[k:e-1]); params=[]; pat=[]
        while P.peek() is not None:
            if P.peek()=="...": P.next(); break
            t=s.parse_type(P); at=[]; skip_attrs(P,at); nm=P.next(); params.append((nm,t)); pat.append(at)
            P.accept(",")
        f=Func(name,ret,params,head[e:]); f.param_attrs=pat
        cur="%%%d"%len(params) if all(re.fullmatch(r"%\d+",p[0]) for p in params) else "%entry"
        first=True; buf=[]
        blk=None
        idx=1
        while idx<len(ls):
            l=ls[idx]; idx+=1
            st=l.strip()
            if not st or st.startswith(";"): continue
            m=re.match(r'^([-\w$.]+|"[^"]*"):',l)
            if m:
                cur="%"+m.group(1); blk=[]; f.blocks[cur]=blk; f.order.append(cur); continue
            if blk is None:
                blk=[]; f.blocks[cur]=blk; f.order.append(cur)
            if st.startswith("switch ") and not st.rstrip().endswith("]") and "]" not in st:
                while True:
                    x=ls[idx]; idx+=1; st+=" "+x.strip()
                    if x.strip().startswith("]"): break
            if st.startswith("call void @llvm.dbg") : continue
            blk.append(s._parse_ins(st))
        # fix entry label name if it was implicit: entry label number is next unnamed value
        return f
    def _parse_ins(s,st):
        text=st
        dbg=None
        m=re.search(r", !dbg (!\d+)",st)
        if m: dbg=s.dbg.get(m.group(1))
        st=re.sub(r",? ![a-zA-Z.]+ !\d+","",st)
        st=re.sub(r",? !srcloc !\d+","",st)
        res=None
        m=re.match(r'^(%[-\w$.]+|%"[^"]*") = (.*)$',st)
        if m: res=m.group(1); st=m.group(2)
        try:
            r=s._ins(res,st)
        except Unsupported:
            r=Ins("unsupported",res,None,[],st)
        except Exception as ex:
            r=Ins("unsupported",res,None,[],st+" / "+repr(ex))
        r.dbg=dbg; r.text=text
        return r
    def _ins(s,res,st):
        L=Lexer(st)
        op=L.next()
        while op in("tail","musttail","notail"): op=L.next()
        if op in("add","sub","mul","shl","sdiv","udiv","srem","urem","lshr","ashr","and","or","xor"):
            fl=[]
            while L.peek() in("nsw","nuw","exact","disjoint"): fl.append(L.next())
            t=s.parse_type(L); a=s.parse_val(L,t); L.expect(","); b=s.parse_val(L,t)
            return Ins(op,res,t,[a,b],fl)
        if op in("fadd","fsub","fmul","fdiv","frem","fneg","fcmp","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc"):
            return Ins("float",res,None,[],st)
        if op=="icmp":
            p=L.next()
            if p=="samesign": p=L.next()
            t=s.parse_type(L); a=s.parse_val(L,t); L.expect(","); b=s.parse_val(L,t)
            return Ins("icmp",res,Ty("int",1),[a,b],p)
        if op in("sext","zext","trunc","ptrtoint","inttoptr","bitcast"):
            while L.peek() in("nneg","nuw","nsw"): L.next()
            a=s.parse_tv(L); L.expect("to"); t=s.parse_type(L)
            return Ins(op,res,t,[a])
        if op=="freeze":
            a=s.parse_tv(L); return Ins("freeze",res,a.ty,[a])
        if op=="select":
            c=s.parse_tv(L); L.expect(","); a=s.parse_tv(L); L.expect(","); b=s.parse_tv(L)
            return Ins("select",res,a.ty,[c,a,b])
        if op=="phi":
            t=s.parse_type(L); inc=[]
            while True:
                L.expect("["); v=s.parse_val(L,t); L.expect(","); b=L.next(); L.expect("]"); inc.append((v,b))
                if not L.accept(","): break
            return Ins("phi",res,t,[],inc)
        if op=="alloca":
            t=s.parse_type(L); n=None
            if L.accept(","):
                if L.peek()!="align":
                    n=s.parse_tv(L)
            return Ins("alloca",res,PTR,[n] if n else [],t)
        if op=="load":
            while L.peek() in("volatile","atomic"): L.next()
            t=s.parse_type(L); L.expect(","); a=s.parse_tv(L)
            return Ins("load",res,t,[a])
        if op=="store":
            while L.peek() in("volatile","atomic"): L.next()
            v=s.parse_tv(L); L.expect(","); a=s.parse_tv(L)
            return Ins("store",None,v.ty,[v,a])
        if op=="getelementptr":
            while L.peek() in("inbounds","nuw","nusw"): L.next()
            bt=s.parse_type(L); L.expect(","); a=s.parse_tv(L); idx=[]
            while L.accept(","): idx.append(s.parse_tv(L))
            return Ins("gep",res,PTR,[a]+idx,bt)
        if op=="br":
            if L.peek()=="label":
                L.next(); return Ins("br",None,None,[],[L.next()])
            c=s.parse_tv(L); L.expect(","); L.expect("label"); a=L.next(); L.expect(","); L.expect("label"); b=L.next()
            return Ins("br",None,None,[c],[a,b])
        if op=="switch":
            v=s.parse_tv(L); L.expect(","); L.expect("label"); d=L.next(); L.expect("["); cs=[]
            while not L.accept("]"):
                c=s.parse_tv(L); L.expect(","); L.expect("label"); cs.append((c.v,L.next()))
            return Ins("switch",None,None,[v],(d,cs))
        if op=="ret":
            if L.peek()=="void": return Ins("ret",None,None,[])
            return Ins("ret",None,None,[s.parse_tv(L)])
        if op=="unreachable": return Ins("unreachable",None,None,[])
        if op in("extractvalue","insertvalue"):
            a=s.parse_tv(L); vs=[a]
            if op=="insertvalue": L.expect(","); vs.append(s.parse_tv(L))
            ix=[]
            while L.accept(","): ix.append(int(L.next()))
            return Ins(op,res,a.ty,vs,ix)
        if op=="call":
            while L.peek() in("fastcc","ccc","nnan","fast"): L.next()
            skip_attrs(L)
            t=s.parse_type(L)
            if L.peek()=="(":   # function type
                d=0
                while True:
                    x=L.next()
                    if x=="(": d+=1
                    elif x==")":
                        d-=1
                        if d==0: break
            if L.peek()=="asm": return Ins("asm",res,t,[])
            cal=s.parse_val(L,PTR)
            L.expect("("); args=[]
            if L.peek()!=")":
                while True:
                    args.append(s.parse_tv(L))
                    if not L.accept(","): break
            L.expect(")")
            return Ins("call",res,t,args,cal)
        raise Unsupported(op)

def demangle(names):
    if not names: return {}
    names=list(names)
    p=subprocess.run(["c++filt","-i"],input="\n".join(n.lstrip("@") for n in names),capture_output=True,text=True)
    return dict(zip(names,p.stdout.split("\n")))
