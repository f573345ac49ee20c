"""usage: vy.py SPEC.py OUT ; SPEC: dict {(file, qualname): new source or [(old,new)..]}, plus EXTRA {file: text appended after imports? }"""
import ast,sys,shutil,textwrap,os
spec={}; exec(open(sys.argv[1]).read(),spec); out=sys.argv[2]
shutil.rmtree(out,ignore_errors=True); shutil.copytree('/repo',out,ignore=shutil.ignore_patterns('.git'))
def find(body,parts):
    for n in body:
        if isinstance(n,(ast.FunctionDef,ast.ClassDef)) and n.name==parts[0]:
            return n if len(parts)==1 else find(n.body,parts[1:])
for (f,q),new in spec['R'].items():
    p=out+'/algebraixlib/'+f; raw=open(p,newline='').read(); crlf='\r\n' in raw; s=raw.replace('\r\n','\n')
    n=find(ast.parse(s).body,q.split('.'))
    assert n is not None,(f,q)
    L=s.split('\n'); start=(n.decorator_list[0].lineno if n.decorator_list and new.strip().startswith('@') else n.lineno)-1
    new=textwrap.indent(textwrap.dedent(new).strip('\n'),' '*n.col_offset)
    L[start:n.end_lineno]=new.split('\n')
    s='\n'.join(L); compile(s,p,'exec')
    open(p,'w',newline='').write(s.replace('\n','\r\n') if crlf else s)
print(len(spec['R']),'functions')
