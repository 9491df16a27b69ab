"""Jython: dump_ast.py ROOT OUT.json  --  parse every non-test module of ROOT/request_parser with the parser of the
interpreter that runs the code, and write the syntax trees as JSON (nothing is dropped but comments)."""
import ast
import json
import os
import sys


def conv(n):
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if isinstance(n, ast.AST) or hasattr(n, '_fields'):
        d = {'_': n.__class__.__name__}
        for f in n._fields or ():
            x = getattr(n, f, None)
            d[f] = str(x) if isinstance(x, str) and d['_'] != 'Str' else conv(x)
        if hasattr(n, 'lineno'):
            d['lineno'] = n.lineno
        return d
    if isinstance(n, unicode):
        return {'_': '$u', 's': n}
    if isinstance(n, str):
        return {'_': '$b', 's': n.decode('latin-1')}
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, (int, long)):
        return {'_': '$i', 'n': str(n)}
    if isinstance(n, float):
        return {'_': '$f', 'n': repr(n)}
    if repr(n) in ('DictComp', 'SetComp'):
        # Jython leaves these two classes without Python attributes: read them through reflection
        from java.lang import Class
        c = Class.forName('org.python.antlr.ast.' + repr(n))
        get = lambda f: conv(Class.getMethod(c, 'getInternal' + f, []).invoke(n, []))
        d = {'_': repr(n), 'generators': get('Generators')}
        if repr(n) == 'DictComp':
            d['key'], d['value'] = get('Key'), get('Value')
        else:
            d['elt'] = get('Elt')
        return d
    return {'_': '$x', 's': repr(n)}


def main():
    root, out = sys.argv[1:3]
    mods = {}
    top = os.path.join(root, 'request_parser')
    for base, dirs, files in os.walk(top):
        dirs[:] = sorted(d for d in dirs if d not in ('tests', 'file_uploads') and not d.startswith('.'))
        for name in sorted(files):
            if not name.endswith('.py'):
                continue
            path = os.path.join(base, name)
            f = open(path, 'rb')
            src = f.read()
            f.close()
            mod = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
            if mod.endswith('.__init__'):
                mod = mod[:-9]
            mods[mod] = {'path': os.path.relpath(path, root),
                         'tree': conv(compile(src.replace('\r\n', '\n') + '\n', path, 'exec', ast.PyCF_ONLY_AST, 1))}
    # the library functions the package takes its URL splitting from are verified with it
    import future.backports.urllib.parse as lib
    path = lib.__file__.replace('$py.class', '.py').replace('.pyc', '.py')
    f = open(path, 'rb')
    src = f.read()
    f.close()
    mods['future.backports.urllib.parse'] = {'path': path, 'tree': conv(compile(src.replace('\r\n', '\n') + '\n', path, 'exec', ast.PyCF_ONLY_AST, 1))}
    f = open(out, 'w')
    json.dump(mods, f)
    f.close()


main()
