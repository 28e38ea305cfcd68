"""mutate.py SEED N WORKERS OUT [FILE_REGEX]: N random mutants of the lines of jajapy that the checks execute
(JV_LINES=/tmp/l.Cxx python3 run.py Cxx for each check beforehand); each goes through the checks that execute
its line until one notices. Prints the survivors. Run it from a copy of /verif."""
import ast, json, glob, os, sys, random, subprocess, shutil, re, concurrent.futures as cf, time, collections
seed=int(sys.argv[1]); N=int(sys.argv[2]); W=int(sys.argv[3]); OUT=sys.argv[4]
only=sys.argv[5] if len(sys.argv)>5 else None
root=os.environ.get('JV_REPO','/repo')+'/jajapy/'
MAP=collections.defaultdict(set)
for f in glob.glob('/tmp/l.C*'):
    c=f[-3:]
    for r,n in json.load(open(f)): MAP[r,n].add(c)
RUN=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'run.py')
rnd=random.Random(seed)
def docs(tree):
    s=set()
    for n in ast.walk(tree):
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant) and isinstance(n.value.value,str): s|=set(range(n.lineno,n.end_lineno+1))
    return s
CMP={'Lt':'<=','LtE':'<','Gt':'>=','GtE':'>','Eq':'!=','NotEq':'==','In':'not in','NotIn':'in','Is':'is not','IsNot':'is'}
BIN={'Add':'-','Sub':'+','Mult':'/','Div':'*','FloorDiv':'*','Pow':'*'}
def muts(src,tree):
    """yields (lineno, start, end, new text)"""
    lines=src.split('\n'); off=[0]
    for l in lines: off.append(off[-1]+len(l)+1)
    # col offsets are utf8 bytes
    def pos(l,c): return off[l-1]+len(lines[l-1].encode()[:c].decode())
    def seg(n): return pos(n.lineno,n.col_offset),pos(n.end_lineno,n.end_col_offset)
    par={}
    for n in ast.walk(tree):
        for k in ast.iter_child_nodes(n): par[k]=n
    for n in ast.walk(tree):
        if not hasattr(n,'lineno'): continue
        a,b=seg(n); t=src[a:b]
        p=par.get(n)
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            l=src[a:seg(n.left)[1]]; r=src[seg(n.comparators[0])[0]:b]
            yield n.lineno,a,b,'%s %s %s'%(t[:seg(n.left)[1]-a],CMP[type(n.ops[0]).__name__],r)
        if isinstance(n,ast.BinOp) and type(n.op).__name__ in BIN:
            la,lb=seg(n.left); ra,rb=seg(n.right)
            mid=src[lb:ra]; o={'Add':'+','Sub':'-','Mult':'*','Div':'/','FloorDiv':'//','Pow':'**'}[type(n.op).__name__]
            if mid.count(o)==1:
                yield n.lineno,lb,ra,mid.replace(o,BIN[type(n.op).__name__])
        if isinstance(n,ast.Constant) and type(n.value) in (int,float) and not isinstance(n.value,bool):
            v=n.value
            if isinstance(p,ast.UnaryOp): continue
            yield n.lineno,a,b,repr(v+1)
            if v: yield n.lineno,a,b,repr(0 if isinstance(v,int) else 0.0)
        if isinstance(n,ast.Constant) and type(n.value) is bool: yield n.lineno,a,b,repr(not n.value)
        if isinstance(n,ast.BoolOp):
            yield n.lineno,a,b,'('+(' or ' if isinstance(n.op,ast.And) else ' and ').join('('+src[slice(*seg(v))]+')' for v in n.values)+')'
        if isinstance(n,(ast.If,ast.While)):
            ta,tb=seg(n.test)
            yield n.lineno,ta,tb,'not ('+src[ta:tb]+')'
            if isinstance(n,ast.If): yield n.lineno,ta,tb,'False'
        if isinstance(n,(ast.Assign,ast.AugAssign,ast.Expr)) and not (isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant)):
            if '\n' not in t: yield n.lineno,a,b,'pass'
        if isinstance(n,ast.AugAssign) and '\n' not in t:
            for o in ('+=','-=','*=','/='):
                if o in t: yield n.lineno,a,b,t.replace(o,'=',1)
        if isinstance(n,ast.Call) and isinstance(n.func,ast.Name) and n.func.id in ('deepcopy','list','array','sorted','copy','set') and len(n.args)==1:
            x=n.args[0]; yield n.lineno,a,b,'('+src[slice(*seg(x))]+')'
        if isinstance(n,ast.Call) and len(n.args)==2 and '\n' not in t:
            x,y=n.args; sx,sy=src[slice(*seg(x))],src[slice(*seg(y))]
            if sx!=sy: yield n.lineno,seg(x)[0],seg(y)[1],sy+','+sx
        if isinstance(n,ast.Subscript) and isinstance(n.slice,ast.Slice):
            for e in (n.slice.lower,n.slice.upper):
                if e is not None:
                    ea,eb=seg(e); yield n.lineno,ea,eb,'('+src[ea:eb]+')+1'
        if isinstance(n,(ast.Break,ast.Continue)): yield n.lineno,a,b,'pass'
        if isinstance(n,ast.Return) and n.value is not None and p is not None: yield n.lineno,a,b,'return None'
cand=[]
for d,_,fs in os.walk(root):
    if 'tests' in d: continue
    for f in fs:
        if not f.endswith('.py'): continue
        p=os.path.join(d,f); r=p[len(root):]
        src=open(p).read(); tree=ast.parse(src); dd=docs(tree)
        for m in muts(src,tree):
            if (r,m[0]) not in MAP: continue
            line=src.split('\n')[m[0]-1]
            if re.search(r'print\(|msg|raise |import |bar|res \+=|__str__|os\.system',line): continue
            cand.append((r,)+m)
cand.sort()
print(len(cand),'mutants')
if only: cand=[c for c in cand if re.search(only,c[0])]
rnd.shuffle(cand)
done=set()
if os.path.exists(OUT):
    for l in open(OUT):
        x=json.loads(l); done.add((x['file'],x['line'],x['old'],x['new']))
OWN={'mc/MC.py':['C01','C18','C15'],'ctmc/CTMC.py':['C02','C18','C22'],'pctmc/PCTMC.py':['C21','C23','C02','C14'],'mdp/MDP.py':['C01','C18','C15'],'base/BW.py':['C06','C24','C08','C09'],'base/Set.py':['C12','C11'],'mc/Alergia.py':['C19'],'mdp/IOAlergia.py':['C20'],'with_stormpy/model_converter.py':['C13','C14'],'mdp/Scheduler.py':['C26'],'mdp/Active_BW_MDP.py':['C25'],'base/Parametric_Model.py':['C21'],'hmm/HMM.py':['C18'],'gohmm/GoHMM.py':['C18']}
def run(k,c):
    r,ln,a,b,new=c
    src=open(root+r).read(); old=src[a:b]
    key=(r,ln,old,new)
    if key in done: return None
    mu=src[:a]+new+src[b:]
    try: compile(mu,r,'exec')
    except SyntaxError: return None
    w='/tmp/mut/%s-%d'%(os.path.basename(OUT),k)
    shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    shutil.copytree(root,w+'/jajapy',ignore=shutil.ignore_patterns('__pycache__','tests'))
    open(w+'/jajapy/'+r,'w').write(mu)
    checks=sorted(MAP[r,ln],key=lambda x:(OWN.get(r,[]).index(x) if x in OWN.get(r,[]) else 9+(x in('C27','C28')), x))
    res={'file':r,'line':ln,'old':old,'new':new,'text':src.split('\n')[ln-1].strip(),'caught':None,'tried':checks}
    t=time.time()
    for ch in checks:
        e=dict(os.environ,JV_REPO=w,VERIF_SEED='1',VERIF_TIER='quick',JV_EVIDENCE=w+'/ev')
        try: o=subprocess.run(['nice','-n','10','python3',RUN,ch],env=e,capture_output=True,text=True,timeout=400)
        except subprocess.TimeoutExpired: res['caught']=ch+' timeout'; break
        if o.returncode: res['caught']='%s rc%d'%(ch,o.returncode); res['how']=o.stdout[-300:]; break
    res['s']=round(time.time()-t)
    shutil.rmtree(w,ignore_errors=True)
    with open(OUT,'a') as f: f.write(json.dumps(res)+'\n')
    return res
with cf.ThreadPoolExecutor(W) as ex:
    for res in ex.map(lambda kc: run(*kc), list(enumerate(cand[:N]))):
        if res and not res['caught']: print('SURVIVES',res['file'],res['line'],repr(res['old'][:70]),'->',repr(res['new'][:70]),'|',res['text'][:100],flush=True)
