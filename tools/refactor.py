"""Behaviour-preserving rewrites: refactor.py SPEC_FILE BUNDLE DEST  -> a copy of the package in DEST with the bundle applied.

A spec file defines BUNDLES = {name: [edit, ...]}; an edit is
  ("def", file, "Class.method" | "function", new source)   replace a definition
  ("sub", file, old, new)                                   replace text (all occurrences)
  ("top", file, text)                                       add text before the first class/def
  ("end", file, text)                                       add text at the end."""
import ast, os, shutil, sys, textwrap


def find(tree, name):
    body = tree.body
    node = None
    for part in name.split("."):
        node = next(n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part)
        body = node.body
    return node


def apply(dest, edits):
    for e in edits:
        kind, f = e[0], os.path.join(dest, "pterasoftware", e[1])
        s = open(f).read()
        if kind == "sub":
            assert e[2] in s, e
            s = s.replace(e[2], e[3])
        elif kind == "end":
            s = s + e[2]
        else:
            t = ast.parse(s)
            lines = s.splitlines(keepends=True)
            if kind == "top":
                n = next(n for n in t.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)))
                k = (n.decorator_list[0].lineno if n.decorator_list else n.lineno) - 1
                lines[k:k] = [e[2] + "\n\n"]
            else:
                n = find(t, e[2])
                start = (n.decorator_list[0].lineno if n.decorator_list else n.lineno) - 1
                new = textwrap.indent(textwrap.dedent(e[3]).strip("\n"), " " * n.col_offset) + "\n"
                lines[start:n.end_lineno] = [new]
            s = "".join(lines)
        ast.parse(s)
        open(f, "w").write(s)


def main():
    spec, bundle, dest = sys.argv[1:4]
    g = {}
    exec(open(spec).read(), g)
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(dest)
    shutil.copytree("/repo/pterasoftware", dest + "/pterasoftware", ignore=shutil.ignore_patterns("ui_resources", "__pycache__"))
    apply(dest, g["BUNDLES"][bundle])


main()
