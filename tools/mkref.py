"""Regenerate the reference dataflow model from a reviewed tree.

usage: python3 tools/mkref.py [/repo]

Writes /verif/spec/reference/optbinning/**: the reviewed functions without
docstrings and comments.  Only run by hand, after a repair was reviewed; checks
never write it.
"""
import ast
import os
import sys
import shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = os.path.join(HERE, "spec", "reference")


class Strip(ast.NodeTransformer):
    def _doc(self, node):
        self.generic_visit(node)
        b = node.body
        if b and isinstance(b[0], ast.Expr) and \
                isinstance(b[0].value, ast.Constant) and \
                isinstance(b[0].value.value, str):
            node.body = b[1:] or [ast.Pass()]
        return node
    visit_FunctionDef = visit_ClassDef = visit_Module = _doc


def main(root):
    shutil.rmtree(DST, ignore_errors=True)
    for d, dirs, files in os.walk(os.path.join(root, "optbinning")):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "tests"))
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            src = open(os.path.join(d, f)).read()
            t = Strip().visit(ast.parse(src))
            out = os.path.join(DST, os.path.relpath(os.path.join(d, f), root))
            os.makedirs(os.path.dirname(out), exist_ok=True)
            with open(out, "w") as g:
                g.write(ast.unparse(ast.fix_missing_locations(t)) + "\n")


main(sys.argv[1] if len(sys.argv) > 1 else "/repo")
