import ast, sys, os, json, copy
ROOT='/repo/quantities'
FILES=['quantity.py','dimensionality.py','unitquantity.py','uncertainquantity.py','registry.py','markup.py','decorators.py','umath.py','constants/_utils.py','units/prefixes.py']
muts=[]
def variants(tree):
    """yield (desc, lineno, apply, undo)"""
    for parent in ast.walk(tree):
        for field, val in ast.iter_fields(parent):
            if isinstance(val, list):
                for i, n in enumerate(val):
                    if isinstance(n, ast.AST):
                        yield from muts_of(parent, field, i, n, val)
            elif isinstance(val, ast.AST):
                yield from muts_of(parent, field, None, val, None)
def doc(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)
CMP={ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.Lt:[ast.LtE,ast.GtE],ast.LtE:[ast.Lt],ast.Gt:[ast.GtE],ast.GtE:[ast.Gt],ast.Is:[ast.IsNot],ast.IsNot:[ast.Is],ast.In:[ast.NotIn],ast.NotIn:[ast.In]}
BIN={ast.Add:[ast.Sub],ast.Sub:[ast.Add],ast.Mult:[ast.Div],ast.Div:[ast.Mult],ast.Pow:[ast.Mult],ast.BitXor:[ast.BitOr]}
def muts_of(parent, field, i, n, lst):
    def put(new):
        return (parent, field, i, n, new)
    ln=getattr(n,'lineno',0)
    if isinstance(n, ast.stmt) and not doc(n) and not isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Import,ast.ImportFrom,ast.Pass,ast.Raise)):
        yield ln,'del '+ast.unparse(n)[:60],put(ast.Pass())
    if isinstance(n, ast.FunctionDef):
        for d in range(len(n.decorator_list)):
            m=copy.deepcopy(n); x=m.decorator_list.pop(d)
            if 'with_doc' in ast.unparse(x) or ast.unparse(x)=='property' or 'setter' in ast.unparse(x) or 'wraps' in ast.unparse(x): continue
            yield ln,'undecorate '+n.name,put(m)
        if field=='body' and isinstance(parent, ast.ClassDef):
            yield ln,'remove method '+n.name,put(ast.Pass())
    if isinstance(n, ast.Compare) and len(n.ops)==1:
        for o in CMP.get(type(n.ops[0]),[]):
            m=copy.copy(n); m.ops=[o()]; yield ln,'cmp '+ast.unparse(m)[:60],put(m)
    if isinstance(n, ast.BinOp):
        for o in BIN.get(type(n.op),[]):
            m=copy.copy(n); m.op=o(); yield ln,'bin '+ast.unparse(m)[:60],put(m)
        if isinstance(n.op,(ast.Mult,ast.Div,ast.Add,ast.Sub,ast.Pow)):
            yield ln,'left of '+ast.unparse(n)[:60],put(n.left)
    if isinstance(n, ast.BoolOp):
        m=copy.copy(n); m.op=ast.Or() if isinstance(n.op,ast.And) else ast.And(); yield ln,'bool '+ast.unparse(m)[:60],put(m)
        for k in range(len(n.values)):
            m=copy.copy(n); m.values=n.values[:k]+n.values[k+1:]
            if len(m.values)==1: m=m.values[0]
            yield ln,'drop cond -> '+ast.unparse(m)[:60],put(m)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op,(ast.Not,ast.USub)):
        yield ln,'unary '+ast.unparse(n)[:60],put(n.operand)
    if isinstance(n, (ast.If,ast.IfExp)):
        for c in (True,False):
            m=copy.copy(n); m.test=ast.Constant(c); yield ln,'if %s for %s'%(c,ast.unparse(n.test)[:60]),put(m)
    if isinstance(n, ast.Constant) and not (isinstance(parent,ast.Expr)):
        v=n.value
        news=[]
        if isinstance(v,bool): news=[not v]
        elif isinstance(v,(int,float)): news=[v+1, 0 if v else -1]
        elif isinstance(v,str) and len(v)<40: news=[v+'x'] if v else []
        for w in news:
            if w==v: continue
            yield ln,'const %r -> %r in %s'%(v,w,ast.unparse(parent)[:50]),put(ast.Constant(w))
    if isinstance(n, ast.Call):
        for k in range(len(n.args)):
            m=copy.copy(n); m.args=n.args[:k]+n.args[k+1:]
            yield ln,'drop arg %d of %s'%(k,ast.unparse(n)[:70]),put(m)
            if not isinstance(n.args[k],(ast.Constant,ast.Starred)):
                m=copy.copy(n); m.args=n.args[:k]+[ast.Constant(None)]+n.args[k+1:]
                yield ln,'None for arg %d of %s'%(k,ast.unparse(n)[:70]),put(m)
        if len(n.args)==2 and not any(isinstance(a,ast.Starred) for a in n.args):
            m=copy.copy(n); m.args=n.args[::-1]; yield ln,'swap args of '+ast.unparse(n)[:70],put(m)
        for k in range(len(n.keywords)):
            m=copy.copy(n); m.keywords=n.keywords[:k]+n.keywords[k+1:]
            yield ln,'drop kw %s of %s'%(n.keywords[k].arg,ast.unparse(n)[:70]),put(m)
        if isinstance(n.func, ast.Attribute) and not ast.unparse(n).startswith(('np.','super','numpy.')):
            yield ln,'no call '+ast.unparse(n)[:70],put(n.func.value)
    if isinstance(n, ast.Attribute) and isinstance(n.ctx,ast.Load) and n.attr in ('magnitude','dimensionality','simplified','units','_dimensionality','_reference','uncertainty'):
        yield ln,'no attr '+ast.unparse(n)[:60],put(n.value)
    if isinstance(n, ast.ExceptHandler) and n.type is not None:
        m=copy.copy(n); m.type=ast.Name('ZeroDivisionError',ast.Load()); yield ln,'except other than '+ast.unparse(n.type),put(m)
out='/tmp/mut/m'
os.makedirs(out,exist_ok=True)
index=[]
for f in FILES:
    p=os.path.join(ROOT,f)
    if not os.path.exists(p): print('no',f); continue
    src=open(p).read(); tree=ast.parse(src)
    base=ast.unparse(tree)
    seen={base}
    for ln,desc,(parent,field,i,n,new) in list(variants(tree)):
        cur=getattr(parent,field)
        if i is None: setattr(parent,field,new)
        else: cur[i]=new
        try:
            t=ast.unparse(ast.fix_missing_locations(tree))
            ok=t not in seen
            if ok: compile(t,f,'exec')
        except Exception as e:
            ok=False
        if i is None: setattr(parent,field,n)
        else: cur[i]=n
        if ok:
            seen.add(t)
            k=len(index)
            open('%s/%04d.py'%(out,k),'w').write(t)
            index.append({'id':k,'file':f,'line':ln,'desc':desc})
    assert ast.unparse(tree)==base
    print(f,len(index))
json.dump(index,open('/tmp/mut/index.json','w'))
