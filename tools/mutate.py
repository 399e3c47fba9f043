import ast, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
BASE=os.environ.get("MBASE", "/repo"); V=os.environ.get("MV", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
RB="rainbow/simulators/prox_rigid_bodies/"; SB="rainbow/simulators/prox_soft_bodies/"; PC="rainbow/simulators/proximal_contact/"
RIGID="C13 C05 C06 C12 C08 C07 C11 C10 C09 C04 C14 C15 C02 C01 C03".split()
SOFT="C25 C22 C23 C24 C27 C26 C21 C28 C30 C20".split()
Q={RB+"collision_detection.py":22,RB+"api.py":26,RB+"types.py":8,RB+"mass.py":14,RB+"steppers.py":10,RB+"state_storage.py":12,RB+"constraints/contacts.py":16,RB+"constraints/hinges.py":12,
 RB+"constraints/post_stabilization.py":7,RB+"constraints/problem.py":5,RB+"gauss_seidel_solver.py":8,RB+"prox_operators.py":3,PC+"gauss_seidel_solver.py":6,PC+"jacobi_solver.py":5,PC+"solver_interface.py":8,PC+"blocking.py":6,PC+"proximal_operators.py":6,
 RB+"scenes/read_urdf.py":14,RB+"scenes/write_xml.py":6,SB+"api.py":14,SB+"collision_detection.py":24,SB+"solver.py":44,SB+"types.py":6,SB+"mechanics.py":6,
 "rainbow/simulators/inverse_kinematics/api.py":20,"rainbow/simulators/inverse_kinematics/types.py":4,"rainbow/util/USD.py":9,"rainbow/geometry/grid3.py":10,"rainbow/geometry/kdop.py":4,"rainbow/geometry/kdop_bvh.py":6,"rainbow/geometry/spatial_hashing.py":5,"rainbow/geometry/barycentric.py":4,"rainbow/geometry/volume_mesh.py":6,"rainbow/geometry/surface_mesh.py":8,"rainbow/geometry/tetrahedron.py":3,
 "rainbow/math/quaternion.py":8,"rainbow/math/vector3.py":4,"rainbow/math/matrix3.py":4,"rainbow/math/expmap.py":2,"rainbow/math/coordsys.py":3}
for f in sorted(os.listdir(os.path.join(BASE,RB+"scenes"))):
    if f.startswith("create_"): Q[RB+"scenes/"+f]=2
def checks(f):
    if "scenes/create" in f: return ["C17"]
    if "read_urdf" in f: return ["C16"]
    if "write_xml" in f: return ["C15"]
    if "inverse_kin" in f: return ["C50","C51"]
    if "USD" in f: return ["C44"]
    if "heap" in f: return ["C42"]
    if "kdop" in f: return ["C41","C10"]
    if "spatial" in f: return ["C40","C24"]
    if "volume_mesh" in f or "barycentric" in f or "tetra" in f: return ["C22","C25","C24","C26","C27","C23"]
    if "surface_mesh" in f: return ["C17","C13","C10","C16"]
    if "grid3" in f: return ["C10","C24","C13"]
    if "math/" in f: return ["C13","C12","C05","C17","C50","C16","C10","C51"]
    if "proximal_contact" in f: return ["C23","C30","C08","C26","C27","C28","C21","C14"]
    if RB in f: return {"types.py":["C13","C02","C01","C14"]}.get(os.path.basename(f),[])+RIGID
    if SB in f: return SOFT
    return RIGID+SOFT
def seg(src,lines,n):
    return offs(lines,n.lineno,n.col_offset),offs(lines,n.end_lineno,n.end_col_offset)
def offs(lines,l,c):
    return lines[l-1]+c
def cands(path):
    b=open(path,'rb').read(); s=b.decode(); src=b
    t=ast.parse(s)
    ls=[0]
    for l in b.split(b"\n"): ls.append(ls[-1]+len(l)+1)
    out=[]
    def sub(n,new,k):
        a,e=seg(src,ls,n); out.append((a,e,new.encode() if isinstance(new,str) else new,k,n.lineno))
    tx=lambda n:(lambda a,e:src[a:e].decode())(*seg(src,ls,n))
    CM={ast.Lt:"<=",ast.LtE:"<",ast.Gt:">=",ast.GtE:">",ast.Eq:"!=",ast.NotEq:"=="}
    skip=set()
    for n in ast.walk(t):
        if isinstance(n,ast.FunctionDef) and (n.name.startswith("test_") or n.name in("plot","__repr__","__str__","show_layout")):
            for m in ast.walk(n): skip.add(id(m))
        if isinstance(n,ast.FunctionDef):
            for m in ast.walk(n.args): skip.add(id(m))
            if n.returns is not None:
                for m in ast.walk(n.returns): skip.add(id(m))
        if isinstance(n,ast.If) and isinstance(n.test,ast.Compare) and "__main__" in tx(n.test):
            for m in ast.walk(n): skip.add(id(m))
        if isinstance(n,ast.AnnAssign):
            for m in ast.walk(n.annotation): skip.add(id(m))
        if isinstance(n,ast.Raise):
            for m in ast.walk(n): skip.add(id(m))
    for n in ast.walk(t):
        if id(n) in skip: continue
        if isinstance(n,ast.Compare) and len(n.ops)==1 and type(n.ops[0]) in CM:
            l,r=tx(n.left),tx(n.comparators[0])
            sub(n,"%s %s %s"%(l,CM[type(n.ops[0])],r),"cmp")
        elif isinstance(n,ast.BinOp) and type(n.op) in (ast.Add,ast.Sub,ast.Mult,ast.Div):
            o={ast.Add:"-",ast.Sub:"+",ast.Mult:"/",ast.Div:"*"}[type(n.op)]
            l,r=tx(n.left),tx(n.right)
            # keep parentheses found between
            a,e=seg(src,ls,n); la,le=seg(src,ls,n.left); ra,re_=seg(src,ls,n.right)
            mid=src[le:ra].decode(); c={ast.Add:"+",ast.Sub:"-",ast.Mult:"*",ast.Div:"/"}[type(n.op)]
            if mid.count(c)==1: out.append((le,ra,mid.replace(c,o).encode(),"arith",n.lineno))
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,(ast.USub,ast.Not)):
            sub(n,"("+tx(n.operand)+")","unary")
        elif isinstance(n,ast.Constant) and isinstance(n.value,(int,float)) and not isinstance(n.value,bool):
            v=n.value
            sub(n,repr(v+1) if isinstance(v,int) else repr(v*1.5 if v else 0.1),"const")
        elif isinstance(n,ast.Constant) and isinstance(n.value,bool):
            sub(n,repr(not n.value),"bool")
        elif isinstance(n,(ast.Assign,ast.AugAssign)):
            tg=n.targets[0] if isinstance(n,ast.Assign) else n.target
            if isinstance(tg,(ast.Attribute,ast.Subscript)) or isinstance(n,ast.AugAssign): sub(n,"pass","del")
        elif isinstance(n,ast.Expr) and isinstance(n.value,ast.Call):
            if not tx(n).startswith(("print","logg")): sub(n,"pass","del")
        elif isinstance(n,ast.BoolOp):
            if len(n.values)==2:
                a,e=seg(src,ls,n); le=seg(src,ls,n.values[0])[1]; ra=seg(src,ls,n.values[1])[0]
                mid=src[le:ra].decode(); w="and" if isinstance(n.op,ast.And) else "or"
                if mid.count(w)==1: out.append((le,ra,mid.replace(w,"or" if w=="and" else "and").encode(),"bool",n.lineno))
        elif isinstance(n,ast.If): sub(n.test,"not (%s)"%tx(n.test),"neg"); sub(n.test,"(%s) and False"%tx(n.test),"never")
        elif isinstance(n,ast.Call):
            f=tx(n.func)
            if f in("np.copy","copy.deepcopy") and len(n.args)==1: sub(n,tx(n.args[0]),"nocopy")
            if f.endswith(".copy") and not n.args: sub(n,f[:-5],"nocopy")
            if f in("min","max","np.minimum","np.maximum","np.min","np.max"):
                sub(n.func,f.replace("min","#").replace("max","min").replace("#","max"),"minmax")
            if f=="range" : sub(n,"range(%s)"%(", ".join([tx(a) for a in n.args[:-1]]+["(%s) - 1"%tx(n.args[-1])])) ,"range")
            if len(n.args)>=2 and not n.keywords and f!="range" and tx(n.args[0])!=tx(n.args[1]):
                sub(n,f+"("+", ".join([tx(n.args[1]),tx(n.args[0])]+[tx(a) for a in n.args[2:]])+")","swapargs")
        elif isinstance(n,(ast.Name,ast.Attribute)) and isinstance(getattr(n,"ctx",None),ast.Load):
            nm=n.id if isinstance(n,ast.Name) else n.attr
            new=None
            if re.search(r"(?<![A-Z])A$",nm) and len(nm)>1: new=nm[:-1]+"B"
            elif re.search(r"(?<![A-Z])B$",nm) and len(nm)>1: new=nm[:-1]+"A"
            elif nm in("v","w") and isinstance(n,ast.Attribute): new={"v":"w","w":"v"}[nm]
            elif nm in("x","x0") and isinstance(n,ast.Attribute) : new={"x":"x0","x0":"x"}[nm]
            elif nm.startswith("parent") and isinstance(n,ast.Attribute): new=nm.replace("parent","child")
            if new:
                a,e=seg(src,ls,n)
                out.append((e-len(nm),e,new.encode(),"name",n.lineno))
        elif isinstance(n,ast.Continue): sub(n,"break","loop")
        elif isinstance(n,ast.Break): sub(n,"continue","loop")
        elif isinstance(n,ast.Subscript) and isinstance(n.slice,ast.Slice) and n.slice.upper is not None and isinstance(n.ctx,ast.Load):
            sub(n.slice.upper,"(%s) - 1"%tx(n.slice.upper),"slice")
    good=[]
    for (a,e,new,k,l) in sorted(set(out)):
        m=src[:a]+new+src[e:]
        try: ast.parse(m)
        except SyntaxError: continue
        if m!=src: good.append((a,e,new.decode(),k,l))
    return good
def sample(seed,scale=1.0):
    r=random.Random(seed); M=[]
    for f,q in Q.items():
        c=cands(os.path.join(BASE,f))
        # weight kinds evenly
        by={}
        for x in c: by.setdefault(x[3],[]).append(x)
        W={"const":.5,"arith":1,"swapargs":.5,"neg":.2,"never":.5}
        for _ in range(min(max(1,int(q*scale+0.5)),len(c))):
            ks=[k for k in sorted(by) if by[k]]
            k=r.choices(ks,[W.get(k,1)*len(by[k])**0.5 for k in ks])[0]
            x=by[k].pop(r.randrange(len(by[k])))
            M.append({"id":"m%s-%03d"%(seed,len(M)),"file":f,"a":x[0],"e":x[1],"new":x[2],"kind":x[3],"line":x[4]})
    return M
def apply(m,root):
    p=os.path.join(root,m["file"]); b=open(os.path.join(BASE,m["file"]),'rb').read()
    open(p,'wb').write(b[:m["a"]]+m["new"].encode()+b[m["e"]:])
STABLE=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def env(w,tmp):
    e=dict(os.environ,PYTHONDONTWRITEBYTECODE="1",PYTHONHASHSEED="0",NUMBA_CACHE_DIR=tmp+"/nc",PYTHONPATH="/opt/vp/pyplugin",OMP_NUM_THREADS="1",OPENBLAS_NUM_THREADS="1")
    e["PATH"]="/opt/venv/bin:"+e["PATH"]; return e
def tests(m):
    tmp="/tmp/mut-"+m["id"]; w=tmp+"/repo"
    shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
    try:
        subprocess.run(["cp","-a",BASE,w],check=True); apply(m,w)
        try:
            p=subprocess.run("python -m pytest -q -p no:cacheprovider -p vp_seed --timeout=120 --rootdir=%s -o junit_family=xunit2 --junitxml=%s/j.xml unit_tests"%(w,tmp),shell=True,cwd=w,env=env(w,tmp),capture_output=True,text=True,timeout=400)
        except subprocess.TimeoutExpired: return "killed"
        import xml.etree.ElementTree as ET
        ok=set()
        try:
            for c in ET.parse(tmp+"/j.xml").iter("testcase"):
                if not list(c.iter("failure")) and not list(c.iter("error")) and not list(c.iter("skipped")): ok.add("%s::%s"%(c.get("classname"),c.get("name")))
        except Exception: return "killed"
        return "killed" if STABLE-ok else "alive"
    finally: shutil.rmtree(tmp,ignore_errors=True)
def check(m):
    tmp="/tmp/mut-"+m["id"]; w=tmp+"/repo"
    shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
    res={}
    try:
        subprocess.run(["cp","-a",BASE,w],check=True); apply(m,w)
        for c in checks(m["file"]):
            e=dict(os.environ,VERIF_REPO=w,VERIF_SEED="1",VERIF_TIER="quick",VERIF_NOEVIDENCE="1",VERIF_WORKERS=os.environ.get("MW","4"))
            try: p=subprocess.run(["python3","check.py",c,"quick"],cwd=V,env=e,capture_output=True,text=True,timeout=900)
            except subprocess.TimeoutExpired: res[c]="timeout"; continue
            res[c]=p.returncode
            if p.returncode==1:
                k=[l for l in p.stdout.splitlines() if l.startswith("violation:")]
                return {"by":c,"how":k[:1],"res":res}
        return {"by":None,"res":res}
    finally: shutil.rmtree(tmp,ignore_errors=True)
if __name__=="__main__":
    cmd,seed=sys.argv[1],sys.argv[2]
    F="/tmp/mutants-%s.json"%seed
    if cmd=="sample":
        M=sample(seed,float(sys.argv[3]) if len(sys.argv)>3 else 1.0); json.dump(M,open(F,"w"),indent=0); print(len(M))
    if cmd=="tests":
        M=json.load(open(F))
        todo=[m for m in M if "tests" not in m and ("check" not in m or m["check"]["by"] is None)]
        with ThreadPoolExecutor(int(sys.argv[3])) as ex:
            for m,r in zip(todo,ex.map(tests,todo)):
                m["tests"]=r; json.dump(M,open(F,"w"),indent=0)
        print(sum(m["tests"]=="alive" for m in M),"alive of",len(M))
    if cmd=="check":
        M=json.load(open(F)); todo=[m for m in M if m.get("tests")!="killed" and "check" not in m]
        random.Random(1).shuffle(todo)
        with ThreadPoolExecutor(int(sys.argv[3])) as ex:
            for m,r in zip(todo,ex.map(check,todo)):
                m["check"]=r; json.dump(M,open(F,"w"),indent=0)
    if cmd=="show":
        M=json.load(open(F)); A=[m for m in M if "check" in m]
        print(len(A),"checked,",sum(m["check"]["by"] is None for m in A),"missed")
        for m in A:
            if m["check"]["by"] is None:
                s=open(os.path.join(BASE,m["file"])).read().splitlines()
                old=open(os.path.join(BASE,m["file"]),'rb').read()[m["a"]:m["e"]].decode()
                print("\n%s %s:%d [%s] %s\n    %s\n    %r -> %r"%(m["id"],m["file"],m["line"],m["kind"],{k:v for k,v in m["check"]["res"].items() if v} or "",s[m["line"]-1].strip(),old[:100],m["new"][:100]))
