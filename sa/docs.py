"""What the class docstrings promise: parameters and attributes (numpydoc sections)."""
import ast
import re

from .model import ClassInfo


def sections(doc):
    out, cur = {}, None
    lines = doc.expandtabs().split("\n")
    ind = min((len(l) - len(l.lstrip()) for l in lines[1:] if l.strip()), default=0)
    lines = [lines[0].strip()] + [l[ind:] for l in lines[1:]]
    i = 0
    while i < len(lines):
        if i + 1 < len(lines) and re.fullmatch(r"\s*-{3,}\s*", lines[i + 1]) and lines[i].strip():
            cur = lines[i].strip().lower()
            out[cur] = []
            i += 2
            continue
        if cur is not None:
            out[cur].append(lines[i])
        i += 1
    return out


def entries(lines):
    """(name, type text, description) of a Parameters/Attributes section."""
    res = []
    base = min((len(l) - len(l.lstrip()) for l in lines if l.strip()), default=0)
    for l in lines:
        if not l.strip():
            continue
        ind = len(l) - len(l.lstrip())
        if ind == base:
            m = re.match(r"\s*([A-Za-z_][\w, ]*?)\s*(?::\s*(.*))?$", l)
            if m:
                for n in m.group(1).split(","):
                    res.append([n.strip(), m.group(2) or "", ""])
        elif res:
            res[-1][2] += " " + l.strip()
    return res


def class_doc(ci):
    return ast.get_docstring(ci.node, clean=False) or ""


def documented(ci, section):
    return entries(sections(class_doc(ci)).get(section, []))


if __name__ == "__main__":
    from .engine import Interp
    from .programs import exported_estimators
    I = Interp()
    for n, ci in sorted(exported_estimators(I).items()):
        print("==", n)
        print("   A:", [e[0] for e in documented(ci, "attributes")])
        for e in documented(ci, "parameters"):
            print("   P:", e[0], "|", e[1], "|", e[2][:110])
