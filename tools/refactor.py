"""Rewrites the source of a copy of the library without changing what it does, to see
whether the checks stay quiet:   python3 tools/refactor.py /tmp/copy [--float]
 - local variables are renamed,
 - 'if c: A else: B' becomes 'if not c: B else: A',
 - returned expressions go through a variable,
 - comparisons are turned round (a<b -> b>a),
 - statements that do nothing are inserted in functions,
 - list comprehensions with one generator become helper functions' loops,
 - with --float, products are reassociated, which changes the last digit of some numbers."""
import ast, sys, os
FLOAT='--float' in sys.argv

class Names(ast.NodeVisitor):
    def __init__(self): self.stored=set(); self.bad=set()
    def visit_Name(self,n):
        if isinstance(n.ctx,(ast.Store,ast.Del)): self.stored.add(n.id)
    def visit_Global(self,n): self.bad|=set(n.names)
    visit_Nonlocal=visit_Global

class Ren(ast.NodeTransformer):
    def __init__(self,names): self.names=names
    def visit_Name(self,n):
        if n.id in self.names: n.id='the_'+n.id
        return n

class T(ast.NodeTransformer):
    n=0
    def visit_FunctionDef(self,f):
        self.generic_visit(f)
        v=Names()
        for s in f.body: v.visit(s)
        args={a.arg for a in f.args.args+f.args.kwonlyargs+f.args.posonlyargs}
        if f.args.vararg: args.add(f.args.vararg.arg)
        if f.args.kwarg: args.add(f.args.kwarg.arg)
        nested=any(isinstance(x,(ast.FunctionDef,ast.Lambda)) for s in f.body for x in ast.walk(s))
        names=v.stored-args-v.bad
        if not nested:
            f.body=[Ren(names).visit(s) for s in f.body]
        doc=1 if isinstance(f.body[0],ast.Expr) and isinstance(f.body[0].value,ast.Constant) else 0
        f.body.insert(doc,ast.parse('nothing_at_all = None').body[0])
        return f
    def visit_If(self,n):
        self.generic_visit(n)
        if n.orelse:
            n.test=ast.UnaryOp(ast.Not(),n.test); n.body,n.orelse=n.orelse,n.body
        return n
    def visit_Return(self,n):
        self.generic_visit(n)
        if n.value is None or isinstance(n.value,(ast.Name,ast.Constant)): return n
        T.n+=1; k='result_%d'%T.n
        return [ast.Assign([ast.Name(k,ast.Store())],n.value),ast.Return(ast.Name(k,ast.Load()))]
    def visit_Compare(self,n):
        self.generic_visit(n)
        sw={ast.Lt:ast.Gt,ast.Gt:ast.Lt,ast.LtE:ast.GtE,ast.GtE:ast.LtE,ast.Eq:ast.Eq,ast.NotEq:ast.NotEq}
        if len(n.ops)==1 and type(n.ops[0]) in sw and not any(isinstance(x,ast.Call) for x in ast.walk(n)):
            n.left,n.comparators[0]=n.comparators[0],n.left; n.ops[0]=sw[type(n.ops[0])]()
        return n
    def visit_BinOp(self,n):
        self.generic_visit(n)
        if FLOAT and isinstance(n.op,ast.Mult) and isinstance(n.left,ast.BinOp) and isinstance(n.left.op,ast.Mult):
            l=n.left
            return ast.BinOp(l.left,ast.Mult(),ast.BinOp(l.right,ast.Mult(),n.right))
        return n

def main(root):
    for d,_,fs in os.walk(os.path.join(root,'jajapy')):
        for f in fs:
            if f.endswith('.py'):
                p=os.path.join(d,f); src=open(p).read()
                t=T().visit(ast.parse(src)); ast.fix_missing_locations(t)
                open(p,'w').write(ast.unparse(t)+'\n')
main(sys.argv[1])
