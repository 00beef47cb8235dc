"""mutants.py FILE CHECKS [max] [seed]: small syntactic edits of one file of src/wulfric.

For every mutant the checks (comma separated) run on a fifth of their cases and without the
design models, and, if they stay quiet, on all of them.  Prints the survivors, which have to be
read: many of them behave like the original.  Works in a scratch clone of /repo and /verif.
"""
import ast,sys,os,subprocess,random,shutil,tempfile,json
F,checks=sys.argv[1],sys.argv[2].split(",")
mx=int(sys.argv[3]) if len(sys.argv)>3 else 10**9
seed=int(sys.argv[4]) if len(sys.argv)>4 else 0
repo=tempfile.mkdtemp(prefix="mm_")
subprocess.run(["git","clone","-q","/repo",repo+"/r"],check=True); R=repo+"/r"
V=repo+"/v"; subprocess.run(["git","clone","-q","/verif",V],check=True)
c=open(V+"/harness/core.py").read()
d=c.replace("        return thorough if self.thorough else quick\n","        k = float(os.environ.get('MM_SCALE', '1'))\n        return max(1, int(quick * k)) if isinstance(quick, int) and quick > 10 else quick\n").replace("for m in mod.MODELS if","for m in [] if")
assert d.count("MM_SCALE")==1 and "for m in [] if" in d
open(V+"/harness/core.py","w").write(d)
def run_check(ch,k):
    try: return subprocess.run(["/opt/venv/bin/python","run.py",ch],cwd=V,env=dict(os.environ,WULFRIC_REPO=R,MM_SCALE=str(k),PYTHONDONTWRITEBYTECODE="1"),capture_output=True,text=True,timeout=900).returncode
    except subprocess.TimeoutExpired: return "T"
p=f"{R}/src/wulfric/{F}"; src=open(p).read(); lines=src.splitlines(keepends=True)
off=[0]
for l in lines: off.append(off[-1]+len(l.encode()))
b=src.encode()
def pos(l,c): return off[l-1]+c
def seg(n): return b[pos(n.lineno,n.col_offset):pos(n.end_lineno,n.end_col_offset)].decode()
tree=ast.parse(src)
M=[]
def add(n,new,why): M.append((pos(n.lineno,n.col_offset),pos(n.end_lineno,n.end_col_offset),new,f"{n.lineno}: {why}"))
CW={"<":["<="],"<=":["<","=="],">":[">="],">=":[">","=="],"==":["!="],"!=":["=="]}
OPS={ast.Lt:["<=",">"],ast.LtE:["<"],ast.Gt:[">=","<"],ast.GtE:[">"],ast.Eq:["!="],ast.NotEq:["=="],ast.In:["not in"],ast.NotIn:["in"],ast.Is:["is not"],ast.IsNot:["is"]}
doc=set()
for n in ast.walk(tree):
    if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant): doc.add(id(n.body[0].value))
skip=set()
for n in ast.walk(tree):
    if isinstance(n,(ast.Raise,ast.JoinedStr,ast.Import,ast.ImportFrom)): 
        for m in ast.walk(n): skip.add(id(m))
    if isinstance(n,ast.Assign) and any(isinstance(t,ast.Name) and t.id=="__all__" for t in n.targets):
        for m in ast.walk(n): skip.add(id(m))
for n in ast.walk(tree):
    if id(n) in doc or id(n) in skip: continue
    if isinstance(n,ast.Compare) and len(n.ops)>=1:
        for k,o in enumerate(n.ops):
            L=n.left if k==0 else n.comparators[k-1]; Rr=n.comparators[k]
            for new in OPS.get(type(o),[]):
                a,c=pos(L.end_lineno,L.end_col_offset),pos(Rr.lineno,Rr.col_offset)
                M.append((a,c," "+new+" ",f"{n.lineno}: {seg(n)!r} -> op {new}"))
    if isinstance(n,ast.Call) and isinstance(n.func,ast.Name) and n.func.id in("cwt","compare_with_tolerance") and len(n.args)==3 and isinstance(n.args[1],ast.Constant):
        for new in CW[n.args[1].value]: add(n.args[1],json.dumps(new),f"{seg(n)!r} -> {new}")
        skip.add(id(n.args[1]))
    if isinstance(n,ast.BoolOp):
        for v in n.values:
            # drop operand: replace by neutral
            add(v,"True" if isinstance(n.op,ast.And) else "False",f"drop {seg(v)!r}")
    if isinstance(n,ast.BinOp):
        sw={ast.Add:"-",ast.Sub:"+",ast.Mult:"/",ast.Div:"*",ast.Mod:"*"}.get(type(n.op))
        if sw:
            M.append((pos(n.left.end_lineno,n.left.end_col_offset),pos(n.right.lineno,n.right.col_offset)," "+sw+" ",f"{n.lineno}: {seg(n)[:60]!r} -> {sw}") if b"(" not in b[pos(n.left.end_lineno,n.left.end_col_offset):pos(n.right.lineno,n.right.col_offset)] and b")" not in b[pos(n.left.end_lineno,n.left.end_col_offset):pos(n.right.lineno,n.right.col_offset)] else (0,0,"","skip"))
    if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.USub): add(n,"("+seg(n.operand)+")",f"{seg(n)!r} drop minus")
    if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not): add(n,"("+seg(n.operand)+")",f"{seg(n)!r} drop not")
    if isinstance(n,ast.Constant) and id(n) not in skip:
        v=n.value
        if isinstance(v,bool): add(n,str(not v),f"{v}->{not v}")
        elif isinstance(v,int): add(n,f"({v+1})",f"{v}->{v+1} in {lines[n.lineno-1].strip()[:60]}")
        elif isinstance(v,float): add(n,f"({v}*1.37+0.01)",f"{v} const in {lines[n.lineno-1].strip()[:60]}")
        elif isinstance(v,str) and len(v)<40 and v.strip(): add(n,repr(v+"_"),f"str {v!r} in {lines[n.lineno-1].strip()[:60]}")
    if isinstance(n,ast.If): add(n.test,"False",f"if {seg(n.test)[:50]!r} -> False")
    if isinstance(n,ast.IfExp): add(n.test,"False",f"ifexp {seg(n.test)[:50]!r} -> False"); add(n.test,"True",f"ifexp {seg(n.test)[:50]!r} -> True")
    if isinstance(n,(ast.Continue,ast.Break)): add(n,"pass",type(n).__name__)
    if isinstance(n,ast.AugAssign) or (isinstance(n,ast.Assign) and isinstance(n.targets[0],(ast.Subscript,ast.Attribute))): add(n,"pass",f"drop {seg(n)[:60]!r}")
    if isinstance(n,ast.Expr) and isinstance(n.value,ast.Call): add(n,"pass",f"drop {seg(n)[:60]!r}")
M=[m for m in M if m[3]!="skip"]
M=sorted(set(M)); 
if len(M)>mx: M=sorted(random.Random(seed).sample(M,mx))
print(F,len(M),"mutants",flush=True)
surv=0
for a,c,new,why in M:
    t=b[:a]+new.encode()+b[c:]
    try: ast.parse(t)
    except SyntaxError: continue
    open(p,"wb").write(t)
    if subprocess.run(["/opt/venv/bin/python","-W","ignore","-c","import wulfric"],env=dict(os.environ,PYTHONPATH=R+"/src",PYTHONDONTWRITEBYTECODE="1"),capture_output=True).returncode: continue
    res=[]
    for k in (0.2,1):
        for ch in checks:
            r=run_check(ch,k); res.append(r)
            if r==1: break
        if res[-1]==1: break
    if res[-1]!=1:
        surv+=1; print("SURVIVES" if set(res)=={0} else f"NOANSWER {res}",why,flush=True)
print(F,"survivors",surv,flush=True)
shutil.rmtree(repo)
