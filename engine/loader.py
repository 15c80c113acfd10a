"""Imports the code under test into python3-vt: same translation as the build, plus
hooks for symbolic values."""
import ast
import builtins
import importlib
import io
import sys
import tokenize

sys.dont_write_bytecode = True
REPO = "/repo"
sys.path.insert(0, "/opt/vp/py2")
import py2compat            # noqa: E402  installs the import hook for /repo
sys.path.remove("/opt/vp/py2")

from engine import npshim, shadow, sym      # noqa: E402
from engine.sym import SymBytes, SymFP, SymInt, SymReal     # noqa: E402

SHIMS = {"numpy": npshim.numpy, "math": npshim.math, "struct": npshim.struct}


def _encode_hex(s):
    if isinstance(s, SymBytes):
        return s.hex()
    return py2compat._encode_hex(s)


def _decode_hex(s):
    t = sym.untoken(s)
    if t is not None:
        if isinstance(t, SymBytes):
            return t
        sym.limit("hex text of a number")
    return py2compat._decode_hex(s)


def _hexlify(s, *a):
    import binascii
    if isinstance(s, SymBytes):
        return s.hex().encode("ascii")
    return binascii.hexlify(s, *a)


def _unhexlify(s):
    return _decode_hex(s)


class _Binascii:
    hexlify = b2a_hex = staticmethod(_hexlify)
    unhexlify = a2b_hex = staticmethod(_unhexlify)

    def __getattr__(self, n):
        import binascii
        return getattr(binascii, n)


SHIMS["binascii"] = _Binascii()

import operator             # noqa: E402


def _install(g):
    for k, v in shadow.NAMES.items():
        g.setdefault(k, v)


builtins.__py2_encode_hex__ = _encode_hex
builtins.__py2_decode_hex__ = _decode_hex
builtins.__sym_mod__ = lambda a, b: sym.sym_mod(a, b) if isinstance(a, (str, bytes)) else operator.mod(a, b)
builtins.__sym_module__ = lambda n: SHIMS[n]
builtins.__sym_install__ = _install


class _Hooks(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            call = ast.Call(func=ast.Name(id="__sym_mod__", ctx=ast.Load()), args=[node.left, node.right], keywords=[])
            return ast.fix_missing_locations(ast.copy_location(call, node))
        return node

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name in SHIMS:
                new = ast.parse("%s = __sym_module__(%r)" % (a.asname or a.name, a.name)).body[0]
                ast.increment_lineno(new, node.lineno - 1)
                out.append(new)
            else:
                out.append(ast.copy_location(ast.Import(names=[a]), node))
        return out

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in SHIMS:
            out = []
            for a in node.names:
                if a.name == "*":
                    return node
                new = ast.parse("%s = __sym_module__(%r).%s" % (a.asname or a.name, node.module, a.name)).body[0]
                ast.increment_lineno(new, node.lineno - 1)
                out.append(new)
            return out
        return node


FUNCS = {}


def translate(data, path):
    encoding, _ = tokenize.detect_encoding(io.BytesIO(data).readline)
    text = io.TextIOWrapper(io.BytesIO(data), encoding, newline=None).read()
    try:
        text = py2compat._refactor(text, path)
    except (py2compat.ParseError, py2compat.TokenError, IndentationError) as e:
        raise SyntaxError("%s: %s" % (path, e))
    tree = ast.parse(text, path)
    tree = py2compat._Semantics(path, tree).visit(tree)
    tree = _Hooks().visit(tree)
    k = 0
    for k, n in enumerate(tree.body):
        if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) and \
                not (isinstance(n, ast.ImportFrom) and n.module == "__future__"):
            break
    tree.body.insert(k, ast.parse("__sym_install__(globals())").body[0])
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


py2compat.translate = translate


def load():
    if REPO + "/python" not in sys.path:
        sys.path.insert(0, REPO + "/python")
    return importlib.import_module("aces.clf")
