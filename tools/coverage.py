"""python tools/coverage.py: functions of the package whose body no contract executes symbolically (from the evidence files)."""
import ast, json, glob, os, subprocess, warnings
warnings.simplefilter('ignore')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = set()
for f in glob.glob(ROOT + '/evidence/C*.json'):
    seen |= set(json.load(open(f))['coverage'].get('functions_verified', []))
n = 0
for f in subprocess.run(['git', '-C', '/repo', 'ls-files', 'rainbow/*.py'], capture_output=True, text=True).stdout.split():
    def walk(node, p):
        global n
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.FunctionDef):
                q = f[:-3].replace('/', '.') + '.' + p + c.name
                n += 1
                if q not in seen:
                    print(q)
                walk(c, p + c.name + '.<locals>.')
            else:
                walk(c, p + c.name + '.' if isinstance(c, ast.ClassDef) else p)
    if '/scenes/' not in f:
        walk(ast.parse(open('/repo/' + f).read()), '')
print(n, 'functions')
