"""C27: the input is not truncated before its replacement is ready"""
import os

from .entry import *

EXPLANATION = ('Every shipped tool and plugin is interpreted from its command line (or parameters) to its end; opening, reading, writing and every '
               'processing step (each of which may refuse the program) are recorded in order. On every path a file opened for writing by name is '
               'opened after the input is read and after every processing step, is closed over by nothing that can refuse, and is the file chosen. '
               'All call sites of the package are searched for functions that delete, rename or truncate files.')
DELETE = {'remove', 'unlink', 'rename', 'replace', 'renames', 'removedirs', 'rmdir', 'truncate', 'rmtree', 'move', 'ftruncate'}
MODULES = {'os', 'shutil', 'posix', 'pathlib'}


def is_write_mode(m):
    return m.op == 'c' and isinstance(m.args[1], str) and any(x in m.args[1] for x in 'wax+')


def wrong(q):
    rows = steps(q)
    if rows is None:
        return 'unknown'
    opened = read = refused = False
    for r in rows:
        k = kind_of(r)
        if k == 'open':
            if r[2].op != 'c':
                return 'unknown'
            if is_write_mode(r[2]):
                opened = True
                if refused:
                    return 'opens a file for writing although the program was refused'
                if not read:
                    return 'opens a file for writing before the input is read'
        elif k == 'refused':
            refused = True
        elif k in ('read', 'parse'):
            if opened:
                return 'reads the input after a file is opened for writing'
            read = True
        elif k in ('filter', 'visit', 'temp') and opened:
            return 'processing follows the opening of the file for writing'
    return None


def order(c):
    for name in TOOLS + plugins(c):
        e = Entry(c, name, keep=True, refuse=True)
        if not e.ok:
            continue
        R = e.R
        ev = e.events()
        ends = [(R.st.pc, ev)]
        bad = False
        for pc, q in ends:
            res = {l: wrong(l) for l in leaves(q)}
            for v in sorted({v for v in res.values() if v}):
                bad = True
                if v == 'unknown':
                    c.undecided('order of the steps', e.where, name)
                else:
                    c.never('a file is opened for writing only when its replacement is ready', e.where, band(pc, lift1(lambda l: B(res[l] == v), q)), '%s %s' % (name, v))
        if not bad:
            c.ok('a file is opened for writing only when its replacement is ready', e.where, name)


def package_files(c):
    out = []
    for top in ('gcodeutils', 'cura_plugins'):
        for d, ds, fs in os.walk(os.path.join(c.root, top)):
            ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__'))
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.py')]
    return out


def no_delete(c):
    for f in package_files(c):
        tree = parse_file(f)
        rel = os.path.relpath(f, c.root)
        names = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    names[a.asname or a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and n.module and n.module.split('.')[0] in MODULES:
                for a in n.names:
                    if a.name in DELETE:
                        c.bad('no file is deleted or renamed', '%s:%d' % (rel, n.lineno), 'imports %s.%s' % (n.module, a.name))
        hit = False
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and n.attr in DELETE and isinstance(n.value, ast.Name) and names.get(n.value.id) in MODULES:
                c.bad('no file is deleted or renamed', '%s:%d' % (rel, n.lineno), 'uses %s.%s' % (n.value.id, n.attr))
                hit = True
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('system', 'popen', 'Popen', 'run', 'call') \
                    and isinstance(n.func.value, ast.Name) and names.get(n.func.value.id) in ('os', 'subprocess'):
                c.bad('no file is deleted or renamed', '%s:%d' % (rel, n.lineno), 'runs another program')
                hit = True
        if not hit:
            c.ok('no file is deleted or renamed', rel)


def other_opens(c):
    """no function of the package outside of the entry points opens files for writing"""
    for f in package_files(c):
        tree = parse_file(f)
        rel = os.path.relpath(f, c.root)
        mod = rel[:-3].replace('/', '.')
        if mod in TOOLS or rel.startswith('cura_plugins'):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'open':
                m = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
                if m is None:
                    continue
                if isinstance(m, ast.Constant) and isinstance(m.value, str):
                    if any(x in m.value for x in 'wax+'):
                        c.bad('files are opened for writing by the entry points only', '%s:%d' % (rel, n.lineno), 'opens a file for writing')
                else:
                    c.undecided('files are opened for writing by the entry points only', '%s:%d' % (rel, n.lineno), 'mode not constant')
        c.ok('files are opened for writing by the entry points only', rel)


PARTS = [order, no_delete, other_opens]
