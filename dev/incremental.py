"""Development aid: program model of an edited copy of /repo, extracting only the translation units an edit reaches."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import model, slang

CACHE = '/tmp/tucache'


def project(root, f):
    return os.path.relpath(f, os.path.join(root, 'Projects')).split('/')[0]


def run(root, f, out):
    r = subprocess.run([model.tool_path(), root, out, f, '--'] + model.flags(root, project(root, f)), capture_output=True, text=True, cwd='/tmp')
    if r.returncode:
        raise model.AnalysisBroken('does not parse: ' + r.stderr[-1500:])


def base():
    """extracts every unit of /repo once"""
    key = model.tree_hash('/repo', model.tool_path())
    d = os.path.join(CACHE, key)
    if os.path.exists(d + '/deps.json'):
        return d
    subprocess.run(['rm', '-rf', CACHE])
    os.makedirs(d)
    files = model.source_files('/repo')

    def one(f):
        rel = os.path.relpath(f, '/repo')
        run('/repo', f, os.path.join(d, rel.replace('/', '+')))
        fl = model.flags('/repo', project('/repo', f))[:-2]
        o = subprocess.run(['g++', '-MM'] + fl + [f], capture_output=True, text=True).stdout
        deps = [os.path.relpath(os.path.realpath(x), '/repo') for x in o.replace('\\\n', ' ').split()[1:] if x.startswith('/repo')]
        return rel, deps
    with ThreadPoolExecutor(8) as ex:
        deps = dict(ex.map(one, files))
    json.dump(deps, open(d + '/deps.json', 'w'))
    return d


def load(root, edited):
    d = base()
    deps = json.load(open(d + '/deps.json'))
    edited = set(edited)
    lines = []
    todo = []
    for f in model.source_files(root):
        rel = os.path.relpath(f, root)
        if rel in deps and not edited & set(deps[rel]):
            with open(os.path.join(d, rel.replace('/', '+'))) as i:
                lines += i.readlines()
        else:
            todo.append(f)

    def one(f):
        out = os.path.join(root, os.path.relpath(f, root).replace('/', '+'))
        run(root, f, out)
        with open(out) as i:
            return i.readlines()
    with ThreadPoolExecutor(4) as ex:
        for l in ex.map(one, todo):
            lines += l
    return model.Program(model.decode(lines) + slang.extract(root))


if __name__ == '__main__':
    print(base())
