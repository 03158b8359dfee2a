"""uncovered.py COV.json [file-substring]: executable lines of niapy not executed on symbols (VF_COV=COV.json ./check Cxx)"""
import json, sys, glob, ast, os
cov = {}
for f in sys.argv[1].split(','):
    for k, v in json.load(open(f)).items():
        cov.setdefault(k.split('/niapy/', 1)[1], set()).update(v)
root = os.environ.get('VF_SRC', '/repo/src') + '/niapy/'
for p in sorted(glob.glob(root + '**/*.py', recursive=True)):
    rel = p[len(root):]
    if len(sys.argv) > 2 and sys.argv[2] not in rel:
        continue
    src = open(p).read()
    lines = set()
    for fn in ast.walk(ast.parse(src)):
        if isinstance(fn, ast.FunctionDef) and fn.name not in ('info', 'latex_code'):
            for st in fn.body:
                for n in ast.walk(st):
                    if isinstance(n, ast.stmt) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        lines.add(n.lineno)
    miss = sorted(lines - cov.get(rel, set()))
    if miss:
        print('%s %d/%d' % (rel, len(lines) - len(miss), len(lines)))
        sl = src.split('\n')
        for m in miss:
            print('   %4d %s' % (m, sl[m - 1].strip()))
