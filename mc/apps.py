"""Import application scripts of the code under test from a scratch copy (some of them write next to themselves)."""
import ast, importlib.util, json, os, shutil, sys
from .core import REPO


def load(ctx, folder, script='example', packages=()):
    """Module object of applications/<folder>/<script>.py, imported from a copy below ctx.scratch."""
    root = os.path.join(ctx.scratch, 'apps')
    for f in [folder] + list(packages):
        dst = os.path.join(root, 'applications', f)
        if not os.path.exists(dst):
            shutil.copytree(os.path.join(REPO, 'applications', f), dst, ignore=shutil.ignore_patterns('data', 'figures', '*.gif', '*.png', '__pycache__'))
    path = os.path.join(root, 'applications', folder, script + '.py')
    name = 'mcapp_%s_%s' % (folder.replace('/', '_'), script)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    old = os.getcwd(), list(sys.path)
    os.chdir(ctx.scratch)
    sys.path.insert(0, root)
    try:
        spec.loader.exec_module(mod)
    finally:
        os.chdir(old[0])
        sys.path[:] = old[1]
    return mod


class _Over(ast.NodeTransformer):
    """After every assignment to a name in `names`, assign the overriding value."""

    def __init__(self, names):
        self.names = names

    def _after(self, node):
        got = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} & self.names
        out = [node]
        for k in sorted(got):
            new = ast.parse('%s = __mc_over__[%r]' % (k, k)).body[0]
            out.append(ast.copy_location(new, node))
            ast.fix_missing_locations(out[-1])
        return out

    def visit_Assign(self, node):
        return self._after(node)

    visit_AnnAssign = visit_Assign


def script(ctx, folder, name='example', over=None, patch=None, files=None, whole=False, packages=()):
    """Namespace after running applications/<folder>/<name>.py in a scratch copy.

    over: values that replace what the script assigns to these names (mesh sizes, schedules).
    patch: {name: f}; an imported object bound to the name is replaced by f(object) (to record solver calls and saved data).
    files: f(directory of the scratch copy), called before the script runs, to write its input files.
    whole=False: stop before the first top-level loop (definitions and problem set-up only)."""
    n = len(os.listdir(ctx.scratch))
    root = os.path.join(ctx.scratch, 'script%d' % n)
    for f in [folder] + list(packages):
        dst = os.path.join(root, 'applications', f)
        if not os.path.exists(dst):
            shutil.copytree(os.path.join(REPO, 'applications', f), dst, ignore=shutil.ignore_patterns('data', 'output', 'figures', 'assets', '*.gif', '*.png', '__pycache__'))
    here = os.path.join(root, 'applications', folder)
    if files:
        files(here)
    path = os.path.join(here, name + '.py')
    with open(path) as f:
        text = f.read()
    return _run(text, path, here, root, over, patch, whole)


def notebook(ctx, folder, over=None, patch=None, files=None, skip=()):
    """Namespace after running all code cells of docs/source/learn/<folder>/example.ipynb in a scratch directory; arguments as in script()."""
    here = os.path.join(ctx.scratch, 'notebook%d' % len(os.listdir(ctx.scratch)))
    os.makedirs(here)
    if files:
        files(here)
    with open(os.path.join(REPO, 'docs', 'source', 'learn', folder, 'example.ipynb')) as f:
        cells = [''.join(c['source']) for c in json.JSONDecoder().raw_decode(f.read())[0]['cells'] if c['cell_type'] == 'code']
    return _run('\n\n'.join(c for c in cells if not any(c.lstrip().startswith(k) for k in skip)), os.path.join(here, 'example.py'), here, here, over, patch, True)


def _run(text, path, here, root, over, patch, whole):
    tree = ast.parse(text, path)
    over, patch = dict(over or {}), dict(patch or {})
    tree = ast.fix_missing_locations(_Over(set(over)).visit(tree))
    ns = {'__name__': '__main__' if whole else 'mcapp', '__file__': path, '__mc_over__': over}
    old = os.getcwd(), list(sys.path)
    os.chdir(here)
    sys.path.insert(0, root)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    for k in [k for k in sys.modules if k == 'applications' or k.startswith('applications.')]:
        del sys.modules[k]
    try:
        for node in tree.body:
            loop = any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(node)) and not isinstance(node, (ast.FunctionDef, ast.ClassDef))
            if loop and not whole:
                break
            exec(compile(ast.Module([node], []), path, 'exec'), ns)
            if isinstance(node, (ast.Import, ast.ImportFrom)):
                for a in node.names:
                    k = a.asname or a.name.split('.')[0]
                    if k in patch:
                        ns[k] = patch[k](ns[k])
    finally:
        os.chdir(old[0])
        sys.path[:] = old[1]
    import jax
    jax.config.update('jax_enable_x64', True)
    return ns
