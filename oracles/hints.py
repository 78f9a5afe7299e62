"""Search guidance only: numbers written in the current source that were not in the source the
checks were developed on.  Part of the random inputs is drawn around them, so that a branch taken
at an unusual size or value is reached.  Nothing is decided from the text."""
import ast, collections, json, os

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'literals.json')


def literals(root):
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ('test', 'tests', '__pycache__', 'plot')]
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            c = collections.Counter()
            try:
                for x in ast.walk(ast.parse(open(p, encoding='utf-8').read())):
                    if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                        if abs(x.value) < 1e12:
                            c[repr(float(x.value))] += 1
            except (SyntaxError, OSError):
                continue
            out[os.path.relpath(p, root)] = dict(c)
    return out


def novel(root):
    try:
        base = json.load(open(BASE))
    except (OSError, ValueError):
        return []
    out = set()
    for f, c in literals(root).items():
        b = base.get(f, {})
        for k, n in c.items():
            if n > b.get(k, 0):
                out.add(abs(float(k)))
    return sorted(out)


def load():
    root = os.environ.get('PVC_SRC', '/repo/src/direpack')
    return novel(root)


if __name__ == '__main__':
    json.dump(literals('/repo/src/direpack'), open(BASE, 'w'), indent=0, sort_keys=True)
