"""Front end for the C++ part: clang's syntax trees of the project's own declarations, rewritten as Python functions over a model of Eigen.

The project's sources are included inside a namespace after every system header they name, so that one dump of that namespace holds exactly the
project's declarations. Uninstantiated templates are analysed: their bodies are what every instantiation executes."""
import ast
import json
import os
import re
import subprocess
import tempfile
from . import npm, npfun, poly
from .interp import Module, Interp
from .lib import *
from .values import *

NS = "pv_primate"
CASTS = {"ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr",
         "SubstNonTypeTemplateParmExpr", "CXXStdInitializerListExpr", "FullExpr"}


class NoCompiler(Undecided):
    pass


def includes():
    out = ["/usr/include/eigen3"]
    for py in ("/opt/venv/bin/python", "python3"):
        try:
            r = subprocess.run([py, "-m", "pybind11", "--includes"], capture_output=True, text=True, timeout=60)
        except (OSError, subprocess.TimeoutExpired):
            continue
        if r.returncode == 0:
            out += [x[2:] for x in r.stdout.split() if x.startswith("-I")]
            break
    return out


def dump(src, entry="_lanczos.cpp"):
    """Syntax tree of the project's namespace."""
    heads = []
    for d, _ds, fs in sorted(os.walk(src)):
        for f in sorted(fs):
            if f.endswith((".h", ".hpp", ".cpp", ".cc")):
                for l in open(os.path.join(d, f), errors="replace"):
                    m = re.match(r"\s*#\s*include\s*<([^>]+)>", l)
                    if m and m[1] not in heads:
                        heads.append(m[1])
    text = "".join(f"#if __has_include(<{h}>)\n#include <{h}>\n#endif\n" for h in heads)
    text += f'namespace {NS} {{\n#include "{os.path.join(src, entry)}"\n}}\n'
    with tempfile.TemporaryDirectory() as tmp:
        t = os.path.join(tmp, "unit.cpp")
        open(t, "w").write(text)
        cmd = ["clang++", "-std=c++20", "-fsyntax-only", "-w"] + [f"-I{x}" for x in includes() + [os.path.join(src, "include"), src]]
        cmd += ["-Xclang", "-ast-dump=json", "-Xclang", f"-ast-dump-filter={NS}", t]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
        except (OSError, subprocess.TimeoutExpired) as e:
            raise NoCompiler(f"clang++ unavailable: {e}")
    if r.returncode and not r.stdout.strip():
        raise NoCompiler("clang++: " + r.stderr[:300])
    dec, i, docs, s = json.JSONDecoder(), 0, [], r.stdout
    while i < len(s):
        while i < len(s) and s[i] in " \t\r\n":
            i += 1
        if i >= len(s):
            break
        if s[i] != "{":
            i = s.index("\n", i) if "\n" in s[i:] else len(s)
            continue
        d, i = dec.raw_decode(s, i)
        docs.append(d)
    return docs, r.stderr


class Unit:
    def __init__(self, src):
        self.src = src
        self.docs, self.err = dump(src)
        self.texts = {}
        st = {"file": None, "line": 0}
        for d in self.docs:
            self.locate(d, st)
        self.funcs, self.classes, self.insts = {}, {}, {}
        for d in self.docs:
            self.collect(d, None)

    # ------------------------------------------------------------------------------------------------------ source places
    def locate(self, d, st):
        """Files and lines are printed only when they change: carried along in printing order."""
        stack = [d]

        def loc(l):
            for part in ("spellingLoc", "expansionLoc"):
                if part in l:
                    loc(l[part])
                    l.setdefault("offset", l[part].get("offset"))
            if "file" in l:
                st["file"] = l["file"]
            if "line" in l:
                st["line"] = l["line"]
            l["file"], l["line"] = st["file"], st["line"]

        def go(n):
            if not isinstance(n, dict):
                return
            if isinstance(n.get("loc"), dict) and n["loc"]:
                loc(n["loc"])
            r = n.get("range")
            if isinstance(r, dict):
                for k in ("begin", "end"):
                    if r.get(k):
                        loc(r[k])
            for k, v in n.items():
                if k == "inner":
                    for c in v:
                        go(c)
        import sys
        sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
        go(d)

    def text(self, n):
        """Source text of a node."""
        b, e = n["range"]["begin"], n["range"]["end"]
        f = b.get("file")
        if f is None or e.get("file") != f:
            return ""
        if f not in self.texts:
            try:
                self.texts[f] = open(f, errors="replace").read().encode()
            except OSError:
                return ""
        return self.texts[f][b["offset"]:e["offset"] + e.get("tokLen", 1)].decode(errors="replace")

    def line(self, n):
        b = (n.get("range") or {}).get("begin") or {}
        return b.get("line") or 0

    def fileof(self, n):
        b = (n.get("range") or {}).get("begin") or {}
        return b.get("file") or "?"

    def collect(self, n, cls):
        k = n.get("kind")
        if k in ("NamespaceDecl", "LinkageSpecDecl"):
            for c in n.get("inner", []):
                self.collect(c, cls)
        elif k == "FunctionTemplateDecl":
            names = [x.get("name") for x in n.get("inner", []) if x["kind"] in ("TemplateTypeParmDecl", "NonTypeTemplateParmDecl", "TemplateTemplateParmDecl")]
            for c in n.get("inner", []):
                ta = [targ(x) for x in c.get("inner", []) if x.get("kind") == "TemplateArgument"]
                if ta:
                    self.insts[c["id"]] = (n["name"], dict(zip(names, ta)))
            for c in n.get("inner", []):
                if c.get("kind") in ("FunctionDecl", "CXXMethodDecl") and body(c) is not None:
                    c["_tparams"] = [x for x in n["inner"] if "TemplateTypeParm" in x["kind"] or "NonTypeTemplateParm" in x["kind"]]
                    (self.funcs if cls is None else cls["methods"]).setdefault(c["name"], []).append(c)
                    break
        elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
            if body(n) is not None:
                key = n["name"] if k != "CXXConstructorDecl" else "__init__"
                (self.funcs if cls is None else cls["methods"]).setdefault(key, []).append(n)
        elif k == "ClassTemplateDecl":
            for c in n.get("inner", []):
                if c.get("kind") == "CXXRecordDecl":
                    self.collect(c, cls)
                    if c["name"] in self.classes:
                        self.classes[c["name"]]["tparams"] = [x for x in n["inner"] if x["kind"] in ("TemplateTypeParmDecl", "NonTypeTemplateParmDecl")]
                    break
        elif k == "CXXRecordDecl" and n.get("completeDefinition"):
            d = {"node": n, "methods": {}, "fields": []}
            for c in n.get("inner", []):
                if c.get("kind") == "FieldDecl":
                    d["fields"].append(c)
                elif c.get("kind") in ("CXXMethodDecl", "FunctionTemplateDecl", "CXXConstructorDecl"):
                    self.collect(c, d)
            self.classes[n["name"]] = d


def targ(x):
    if "value" in x:
        return str(x["value"])
    return re.sub(rf"\b{NS}::", "", ty(x)) or (x.get("decl") or {}).get("name") or "?"


def body(n):
    for c in n.get("inner", []):
        if c.get("kind") == "CompoundStmt":
            return c
    return None


def params(n):
    return [c for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]


def ty(n):
    return (n.get("type") or {}).get("qualType", "")


def strip(n):
    while n.get("kind") in CASTS and n.get("inner"):
        n = n["inner"][-1] if n["kind"] != "SubstNonTypeTemplateParmExpr" else n["inner"][-1]
    return n


INTS = re.compile(r"^(const )?(unsigned |signed )?(int|long|short|char|size_t|std::size_t|ssize_t|py::ssize_t|ptrdiff_t|Eigen::Index|Index|"
                  r"unsigned|unsigned long|unsigned int|long long|int64_t|int32_t|uint64_t|std::ptrdiff_t|value_type|size_type|difference_type)( int)?( &&?)?$")


def is_int(t):
    return bool(INTS.match(t.strip()))


class Trans:
    """Rewrites one function into Python source."""

    def __init__(self, unit, node, name, cls=None):
        self.u, self.node, self.name, self.cls = unit, node, name, cls
        self.names, self.used, self.lv = {}, set(), {}
        self.out, self.lines, self.ind = [], [], 0
        self.cur, self.tmp = 0, 0
        self.incs = []
        self.fnlevel = [set()]

    def emit(self, s):
        self.out.append("    " * self.ind + s)
        self.lines.append(self.cur)

    def temp(self, p="t"):
        self.tmp += 1
        return f"_{p}{self.tmp}"

    def bind(self, d):
        base = re.sub(r"\W", "_", d.get("name") or "anon") or "anon"
        nm, k = base, 1
        while nm in self.used or nm in PYRES:
            k += 1
            nm = f"{base}__{k}"
        self.used.add(nm)
        self.names[d["id"]] = nm
        self.fnlevel[-1].add(nm)
        return nm

    # --------------------------------------------------------------------------------------------------------- functions
    def function(self):
        self.cur = self.u.line(self.node)
        ps = []
        if self.cls is not None:
            ps.append("self")
            self.used.add("self")
        copies = []
        for p in params(self.node):
            nm = self.bind(p)
            t = ty(p)
            if scalar_ref(t):
                raise Undecided(f"{self.name}: scalar reference parameter {p.get('name')}")
            init = [c for c in p.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
            ps.append(nm + (f"={self.ex(init[0])}" if init else ""))
            if owning(t):
                copies.append(nm)
        self.emit(f"def {self.name}({', '.join(ps)}):")
        self.ind += 1
        for nm in copies:
            self.emit(f"{nm} = __cx_copy({nm})")
        if self.node.get("kind") == "CXXConstructorDecl":
            for c in self.node.get("inner", []):
                if c.get("kind") == "CXXCtorInitializer":
                    f = (c.get("anyInit") or {}).get("name")
                    if f:
                        inner = [x for x in c.get("inner", [])]
                        v = ", ".join(self.ex(x) for x in inner)
                        self.emit(f"__cx_setfld(self, {f!r}, __cx_make({ty(c.get('anyInit') or {})!r}, {v}))")
        self.block(body(self.node))
        self.emit("return None")
        self.ind -= 1
        return "\n".join(self.out) + "\n", self.lines

    # -------------------------------------------------------------------------------------------------------- statements
    def block(self, n):
        k0 = len(self.out)
        if n.get("kind") == "CompoundStmt":
            for c in n.get("inner", []):
                self.stmt(c)
        elif n.get("kind"):
            self.stmt(n)
        if len(self.out) == k0:
            self.emit("pass")

    def stmt(self, n):
        k = n.get("kind")
        if k is None:
            return
        self.cur = self.u.line(n) or self.cur
        h = getattr(self, "s_" + k, None)
        if h is not None:
            return h(n)
        self.exstmt(n)

    def s_CompoundStmt(self, n):
        for c in n.get("inner", []):
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_AttributedStmt(self, n):
        self.stmt(n["inner"][-1])

    def s_DeclStmt(self, n):
        for c in n.get("inner", []):
            k = c.get("kind")
            if k == "VarDecl":
                self.vardecl(c)
            elif k == "DecompositionDecl":
                self.decomposition(c)
            elif k in ("TypeAliasDecl", "TypedefDecl", "StaticAssertDecl", "UsingDecl", "UsingDirectiveDecl", "NamespaceAliasDecl", "CXXRecordDecl", "UsingShadowDecl"):
                pass
            else:
                self.emit(f"__cx_unknown({k!r})")

    def init_of(self, c):
        xs = [x for x in c.get("inner", []) if not x.get("kind", "").endswith(("Type", "Attr", "Comment"))]
        return xs[-1] if xs else None

    def vardecl(self, c):
        t, i = ty(c), self.init_of(c) if c.get("init") else None
        if i is not None and t.rstrip().endswith("&") and not t.rstrip().endswith("&&"):
            x = strip(i)
            tgt = self.element(x)
            if tgt is not None and not re.match(r"^const\b(?!.*auto)", t):
                a, ix = tgt
                names = []
                for e in [a] + ix:
                    v = self.temp("r")
                    self.emit(f"{v} = {e}")
                    names.append(v)
                self.lv[c["id"]] = (names[0], names[1:])
                return
            nm = self.bind(c)
            self.emit(f"{nm} = {self.ex(i)}")
            return
        if c.get("storageClass") == "static":
            pass
        if i is None:
            nm = self.bind(c)
            self.emit(f"{nm} = __cx_make({t!r})")
            return
        if i.get("kind") == "LambdaExpr":
            nm = self.lam(i)
            self.names[c["id"]] = nm
            return
        args = self.args_of(i)
        e = f"__cx_make({t!r}, {', '.join(args)})" if c.get("init") in ("call", "list") or "auto" not in t else f"__cx_auto({args[0]})"
        nm = self.bind(c)
        self.emit(f"{nm} = {e}")

    def args_of(self, i):
        x = i
        while x.get("kind") in CASTS and x.get("inner"):
            x = x["inner"][-1]
        if x.get("kind") == "ParenListExpr":
            return [self.ex(y) for y in x.get("inner", [])]
        if x.get("kind") == "CXXConstructExpr" and x.get("inner"):
            return [self.ex(y) for y in x["inner"] if y.get("kind") != "CXXDefaultArgExpr"]
        if x.get("kind") in ("CXXConstructExpr",):
            return []
        return [self.ex(i)]

    def decomposition(self, c):
        i = self.init_of({"inner": [x for x in c.get("inner", []) if x.get("kind") != "BindingDecl"]})
        bs = [x for x in c.get("inner", []) if x.get("kind") == "BindingDecl"]
        t = ty(c)
        src = self.ex(i)
        v = self.temp("d")
        alias = "&" in t
        self.emit(f"{v} = {src}" if alias else f"{v} = __cx_copy({src})")
        for k, b in enumerate(bs):
            if alias and not t.startswith("const"):
                self.lv[b["id"]] = (v, [str(k)])
                for x in b.get("inner", []):
                    if x.get("kind") == "VarDecl":
                        self.lv[x["id"]] = (v, [str(k)])
                continue
            nm = self.bind(b)
            for x in b.get("inner", []):
                if x.get("kind") == "VarDecl":
                    self.names[x["id"]] = nm
            self.emit(f"{nm} = __cx_get({v}, {k})")

    def s_IfStmt(self, n):
        xs = list(n.get("inner", []))
        if n.get("hasInit"):
            self.stmt(xs.pop(0))
        if n.get("hasVar"):
            self.stmt(xs.pop(0))
        cond = self.ex(xs[0])
        self.emit(f"if {cond}:")
        self.ind += 1
        self.block(xs[1])
        self.ind -= 1
        if len(xs) > 2:
            self.emit("else:")
            self.ind += 1
            self.block(xs[2])
            self.ind -= 1

    def s_ForStmt(self, n):
        init, var, cond, inc, bd = (list(n.get("inner", [])) + [{}] * 5)[:5]
        r = self.range_for(init, cond, inc, bd)
        if r is not None:
            nm, lo, hi = r
            self.emit(f"for {nm} in range({lo}, {hi}):")
            self.incs.append(None)
            self.ind += 1
            self.block(bd)
            self.ind -= 1
            self.incs.pop()
            return
        if init.get("kind"):
            self.stmt(init)
        self.while_head(cond)
        self.incs.append(inc if inc.get("kind") else None)
        self.ind += 1
        self.block(bd)
        if inc.get("kind"):
            self.stmt(inc)
        self.ind -= 1
        self.incs.pop()

    def range_for(self, init, cond, inc, bd):
        ds = init.get("inner", []) if init.get("kind") == "DeclStmt" else []
        if len(ds) != 1 or ds[0].get("kind") != "VarDecl" or not ds[0].get("init"):
            return None
        v = ds[0]
        c = strip(cond) if cond.get("kind") else {}
        if c.get("kind") != "BinaryOperator" or c.get("opcode") not in ("<", "<=", "!="):
            return None
        l, r = c["inner"]
        if not self.is_ref(l, v["id"]):
            return None
        i = strip(inc) if inc.get("kind") else {}
        ok = (i.get("kind") == "UnaryOperator" and i.get("opcode") == "++" and self.is_ref(i["inner"][0], v["id"])) or \
             (i.get("kind") == "CompoundAssignOperator" and i.get("opcode") == "+=" and self.is_ref(i["inner"][0], v["id"]) and strip(i["inner"][1]).get("value") == "1")
        if not ok or self.assigned(bd, {v["id"]}):
            return None
        bound = {strip(x)["referencedDecl"]["id"] for x in walk(r) if strip(x).get("kind") == "DeclRefExpr" and strip(x).get("referencedDecl")}
        if self.assigned(bd, bound):
            return None
        lo = self.ex(self.init_of(v))
        hi = self.ex(r)
        nm = self.bind(v)
        return nm, lo, hi if c["opcode"] != "<=" else f"__cx_add({hi}, 1)"

    def is_ref(self, n, i):
        n = strip(n)
        return n.get("kind") == "DeclRefExpr" and (n.get("referencedDecl") or {}).get("id") == i

    def assigned(self, n, ids):
        for x in walk(n):
            if x.get("kind") in ("BinaryOperator", "CompoundAssignOperator") and x.get("opcode", "").endswith("=") and x["opcode"] not in ("==", "<=", ">=", "!="):
                t = strip(x["inner"][0])
                if (t.get("referencedDecl") or {}).get("id") in ids:
                    return True
            if x.get("kind") == "UnaryOperator" and x.get("opcode") in ("++", "--", "&"):
                t = strip(x["inner"][0])
                if (t.get("referencedDecl") or {}).get("id") in ids:
                    return True
        return False

    def while_head(self, cond):
        """The header of a loop; what evaluating the condition changes goes to the top of the body."""
        k0 = len(self.out)
        c = self.ex(cond) if cond.get("kind") else "True"
        if len(self.out) == k0:
            return self.emit(f"while {c}:")
        pre, ln = self.out[k0:], self.lines[k0:]
        del self.out[k0:], self.lines[k0:]
        self.emit("while True:")
        self.out += ["    " + x for x in pre]
        self.lines += ln
        self.ind += 1
        self.emit(f"if not ({c}):")
        self.ind += 1
        self.emit("break")
        self.ind -= 2

    def guarded(self, x):
        """An operand evaluated only sometimes: nothing may be taken out of it."""
        k0 = len(self.out)
        e = self.ex(x)
        if len(self.out) != k0 and any(not l.lstrip().startswith("def _lam") for l in self.out[k0:k0 + 1]):
            del self.out[k0:], self.lines[k0:]
            return "__cx_unknown('effect in a conditional operand')"
        return e

    def s_WhileStmt(self, n):
        xs = n.get("inner", [])
        self.while_head(xs[-2])
        self.incs.append(None)
        self.ind += 1
        self.block(xs[-1])
        self.ind -= 1
        self.incs.pop()

    def s_DoStmt(self, n):
        bd, cond = n["inner"]
        self.emit("while True:")
        self.incs.append(None)
        self.ind += 1
        self.block(bd)
        self.emit(f"if not ({self.ex(cond)}):")
        self.ind += 1
        self.emit("break")
        self.ind -= 2
        self.incs.pop()

    def s_CXXForRangeStmt(self, n):
        xs = n.get("inner", [])
        rng = next((x for x in walk(xs[1]) if x.get("kind") == "VarDecl"), None) if len(xs) > 1 and xs[1].get("kind") else None
        lv = next((x for x in walk(xs[-2]) if x.get("kind") == "VarDecl"), None)
        if rng is None or lv is None:
            self.emit("__cx_unknown('range for')")
            return
        src = self.ex(self.init_of(rng))
        nm = self.bind(lv)
        it = self.temp("i")
        t = ty(lv)
        if "&" in t and "const" not in t:
            v = self.temp("r")
            self.emit(f"{v} = {src}")
            self.emit(f"for {it} in range(__cx_m('size', {v})):")
            self.lv[lv["id"]] = (v, [it])
        else:
            self.emit(f"for {nm} in {src}:")
        self.incs.append(None)
        self.ind += 1
        self.block(xs[-1])
        self.ind -= 1
        self.incs.pop()

    def s_BreakStmt(self, n):
        self.emit("break")

    def s_ContinueStmt(self, n):
        if self.incs and self.incs[-1] is not None:
            self.stmt(self.incs[-1])
        self.emit("continue")

    def s_ReturnStmt(self, n):
        xs = n.get("inner", [])
        self.emit(f"return {self.ex(xs[0])}" if xs else "return None")

    def s_CXXTryStmt(self, n):
        self.emit("__cx_unknown('try')")
        self.stmt(n["inner"][0])

    # ------------------------------------------------------------------------------------------------ expression statements
    def exstmt(self, n):
        x = strip(n)
        k = x.get("kind")
        self.cur = self.u.line(x) or self.cur
        if k == "BinaryOperator" and x.get("opcode") == ",":
            for c in x["inner"]:
                self.exstmt(c)
            return
        if k == "BinaryOperator" and x.get("opcode") == "=":
            l, r = x["inner"]
            rs = strip(r)
            if rs.get("kind") in ("BinaryOperator",) and rs.get("opcode") == "=":
                self.exstmt(rs)
                return self.store(l, self.ex(rs["inner"][0]))
            return self.store(l, self.ex(r))
        if k == "CXXOperatorCallExpr" and self.opname(x) == "operator=":
            return self.store(x["inner"][1], self.ex(x["inner"][2]))
        if k == "CXXOperatorCallExpr" and re.match(r"operator[-+*/%]=$", self.opname(x)):
            return self.update(x["inner"][1], self.opname(x)[8], self.ex(x["inner"][2]), x)
        if k == "CompoundAssignOperator":
            l, r = x["inner"]
            return self.update(l, x["opcode"][:-1], self.ex(r), x)
        if k == "UnaryOperator" and x.get("opcode") in ("++", "--"):
            return self.update(x["inner"][0], x["opcode"][0], "1", x)
        if k == "CXXThrowExpr":
            t = ty(x["inner"][0]) if x.get("inner") else ""
            exc = {"std::invalid_argument": "ValueError", "std::out_of_range": "IndexError", "std::domain_error": "ValueError", "std::length_error": "ValueError",
                   "py::value_error": "ValueError", "py::type_error": "TypeError", "py::index_error": "IndexError"}.get(t.replace("const ", ""), "RuntimeError")
            return self.emit(f"raise {exc}('thrown')")
        if k == "ConditionalOperator":
            c, a, b = x["inner"]
            self.emit(f"if {self.ex(c)}:")
            self.ind += 1
            self.exstmt(a)
            self.ind -= 1
            self.emit("else:")
            self.ind += 1
            self.exstmt(b)
            self.ind -= 1
            return
        if k in ("CStyleCastExpr", "CXXStaticCastExpr") and ty(x) == "void":
            return self.exstmt(x["inner"][-1])
        self.emit(self.ex(x))

    def opname(self, x):
        f = strip(x["inner"][0])
        return (f.get("referencedDecl") or {}).get("name") or f.get("name") or ""

    def element(self, x):
        """(array expression, indices) of an element expression."""
        x = strip(x)
        k = x.get("kind")
        if k == "ArraySubscriptExpr":
            return self.ex(x["inner"][0]), [self.ex(x["inner"][1])]
        if k == "CXXOperatorCallExpr" and self.opname(x) in ("operator[]", "operator()"):
            return self.ex(x["inner"][1]), [self.ex(y) for y in x["inner"][2:]]
        if k == "UnaryOperator" and x.get("opcode") == "*":
            return self.ex(x["inner"][0]), ["0"]
        if k == "CallExpr":
            f = strip(x["inner"][0])
            if f.get("kind") == "DeclRefExpr" and (f.get("referencedDecl") or {}).get("kind") in ("VarDecl", "ParmVarDecl") and not self.is_lambda(f):
                return self.ex(f), [self.ex(y) for y in x["inner"][1:]]
        if k == "DeclRefExpr" and (x.get("referencedDecl") or {}).get("id") in self.lv:
            a, ix = self.lv[x["referencedDecl"]["id"]]
            return a, list(ix)
        return None

    def is_lambda(self, f):
        return self.names.get((f.get("referencedDecl") or {}).get("id"), "").startswith("_lam")

    def field(self, x):
        x = strip(x)
        if x.get("kind") == "MemberExpr":
            b = x.get("inner", [{}])
            return (self.ex(b[0]) if b and b[0].get("kind") else "self"), x.get("name")
        if x.get("kind") == "CXXDependentScopeMemberExpr":
            b = x.get("inner", [])
            return (self.ex(b[0]) if b else "self"), x.get("member")
        return None

    def store(self, l, v):
        e = self.element(l)
        if e is not None:
            return self.emit(f"__cx_set({e[0]}, {v}, {', '.join(e[1])})")
        x = strip(l)
        if x.get("kind") == "DeclRefExpr":
            nm = self.local(x)
            return self.emit(f"{nm} = __cx_assign({nm}, {v})")
        f = self.field(x)
        if f is not None:
            return self.emit(f"__cx_setfld({f[0]}, {f[1]!r}, __cx_assign(__cx_fld({f[1]!r}, {f[0]}), {v}))")
        self.emit(f"__cx_store({self.ex(x)}, {v})")

    def update(self, l, op, v, x):
        f = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod"}.get(op)
        if f is None:
            return self.emit(f"__cx_unknown('compound {op}')")
        if f == "div" and is_int(ty(x)):
            f = "idiv"
        e = self.element(l)
        if e is not None:
            ix = ", ".join(e[1])
            return self.emit(f"__cx_set({e[0]}, __cx_{f}(__cx_get({e[0]}, {ix}), {v}), {ix})")
        y = strip(l)
        if y.get("kind") == "DeclRefExpr":
            nm = self.local(y)
            return self.emit(f"{nm} = __cx_assign({nm}, __cx_{f}({nm}, {v}))")
        fl = self.field(y)
        if fl is not None:
            g = f"__cx_fld({fl[1]!r}, {fl[0]})"
            return self.emit(f"__cx_setfld({fl[0]}, {fl[1]!r}, __cx_assign({g}, __cx_{f}({g}, {v})))")
        t = self.temp("v")
        self.emit(f"{t} = {self.ex(y)}")
        self.emit(f"__cx_store({t}, __cx_{f}({t}, {v}))")

    # ------------------------------------------------------------------------------------------------------- expressions
    def local(self, x):
        i = (x.get("referencedDecl") or {}).get("id")
        if i in self.names:
            nm = self.names[i]
            if nm not in self.fnlevel[-1] and len(self.fnlevel) > 1:
                self.nonlocals.add(nm)
            return nm
        raise Undecided(f"assignment to {(x.get('referencedDecl') or {}).get('name')}")

    def ex(self, n):
        n = strip(n)
        k = n.get("kind")
        h = getattr(self, "e_" + str(k), None)
        if h is None:
            return f"__cx_unknown({str(k)!r})"
        return h(n)

    def e_IntegerLiteral(self, n):
        return str(int(n["value"]))

    def e_FloatingLiteral(self, n):
        v = n["value"]
        return repr(float(v)) if re.match(r"^-?[\d.]+([eE][-+]?\d+)?$", v) else f"__cx_unknown('literal')"

    def e_CXXBoolLiteralExpr(self, n):
        return "True" if n.get("value") else "False"

    def e_StringLiteral(self, n):
        try:
            return repr(json.loads(n["value"]))
        except (ValueError, KeyError):
            return "'?'"

    def e_CXXNullPtrLiteralExpr(self, n):
        return "None"

    def e_CXXThisExpr(self, n):
        return "self"

    def e_DeclRefExpr(self, n):
        d = n.get("referencedDecl") or {}
        i = d.get("id")
        if i in self.lv:
            a, ix = self.lv[i]
            return f"__cx_get({a}, {', '.join(ix)})"
        if i in self.names:
            return self.names[i]
        nm = d.get("name") or ""
        if d.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
            return nm if nm in self.u.funcs else f"__cx_unknown({nm!r})"
        return f"__cx_global({nm!r}, {self.u.text(n)!r})"

    def e_UnresolvedLookupExpr(self, n):
        nm = n.get("name") or ""
        return nm if nm in self.u.funcs else f"__cx_unknown({nm!r})"

    def e_DependentScopeDeclRefExpr(self, n):
        return f"__cx_s({norm_text(self.u.text(n))!r})"

    def e_BinaryOperator(self, n):
        l, r = n["inner"]
        op = n["opcode"]
        if op == "=":
            return self.effect(n, l)
        if op == ",":
            self.exstmt(l)
            return self.ex(r)
        return self.bin(op, self.ex(l), self.guarded(r) if op in ("&&", "||") else self.ex(r), n)

    def effect(self, n, target):
        """An assignment used for its value: made a statement of its own."""
        self.exstmt(n)
        v = self.temp("v")
        self.emit(f"{v} = {self.ex(target)}")
        return v

    def e_CompoundAssignOperator(self, n):
        return self.effect(n, n["inner"][0])

    def bin(self, op, a, b, n):
        f = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod"}.get(op)
        if f:
            if f == "div" and is_int(ty(n)):
                f = "idiv"
            return f"__cx_{f}({a}, {b})"
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return f"({a} {op} {b})"
        if op == "&&":
            return f"({a} and {b})"
        if op == "||":
            return f"({a} or {b})"
        return f"__cx_unknown('operator {op.replace(chr(39), '')}')"

    def e_UnaryOperator(self, n):
        op, x = n.get("opcode"), n["inner"][0]
        if op in ("++", "--"):
            if not n.get("isPostfix"):
                return self.effect(n, x)
            v = self.temp("v")
            self.emit(f"{v} = {self.ex(x)}")
            self.exstmt(n)
            return v
        if op == "-":
            return f"__cx_neg({self.ex(x)})"
        if op == "+":
            return self.ex(x)
        if op == "!":
            return f"(not {self.ex(x)})"
        if op == "*":
            return f"__cx_get({self.ex(x)}, 0)" if strip(x).get("kind") != "CXXThisExpr" else "self"
        if op == "&":
            e = self.element(x)
            return f"__cx_addr({e[0]}, {', '.join(e[1])})" if e else self.ex(x)
        return f"__cx_unknown('unary {op}')"

    def e_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        c = self.ex(c)
        return f"({self.guarded(a)} if {c} else {self.guarded(b)})"

    def e_ArraySubscriptExpr(self, n):
        return f"__cx_get({self.ex(n['inner'][0])}, {self.ex(n['inner'][1])})"

    def e_InitListExpr(self, n):
        xs = n.get("inner", [])
        if len(xs) == 1 and xs[0].get("kind") == "InitListExpr":
            return self.e_InitListExpr(xs[0])
        return "[" + ", ".join(self.ex(x) for x in xs) + "]"

    def cast(self, n):
        xs = [x for x in n.get("inner", []) if x.get("kind") != "CXXDefaultArgExpr"]
        if len(xs) == 1 and xs[0].get("kind") == "ParenListExpr":
            xs = xs[0].get("inner", [])
        return f"__cx_make({ty(n)!r}{''.join(', ' + self.ex(x) for x in xs)})"

    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXUnresolvedConstructExpr = e_CXXTemporaryObjectExpr = cast
    e_CXXReinterpretCastExpr = e_CXXConstCastExpr = cast

    def e_CXXConstructExpr(self, n):
        xs = [x for x in n.get("inner", []) if x.get("kind") != "CXXDefaultArgExpr"]
        if len(xs) == 1:
            return f"__cx_make({ty(n)!r}, {self.ex(xs[0])})"
        return self.cast(n)

    def e_ParenListExpr(self, n):
        xs = n.get("inner", [])
        return self.ex(xs[0]) if len(xs) == 1 else "(" + ", ".join(self.ex(x) for x in xs) + ")"

    def e_MemberExpr(self, n):
        b, f = self.field(n)
        return f"__cx_fld({f!r}, {b})"

    e_CXXDependentScopeMemberExpr = e_MemberExpr

    def e_CXXDefaultArgExpr(self, n):
        return "__cx_unknown('default argument')"

    def e_CXXScalarValueInitExpr(self, n):
        return "0"

    def e_LambdaExpr(self, n):
        return self.lam(n)

    def e_CXXOperatorCallExpr(self, n):
        op = self.opname(n)
        xs = n["inner"][1:]
        if op in ("operator[]",):
            return f"__cx_get({self.ex(xs[0])}, {self.ex(xs[1])})"
        if op == "operator()":
            c = strip(xs[0])
            if c.get("kind") == "DeclRefExpr" and self.is_lambda(c):
                return f"{self.ex(c)}({', '.join(self.ex(x) for x in xs[1:])})"
            return f"__cx_get({', '.join(self.ex(x) for x in xs)})"
        m = re.match(r"operator([-+*/%]|[<>!=]=|<|>|&&|\|\|)$", op)
        if m and len(xs) == 2:
            return self.bin(m[1], self.ex(xs[0]), self.ex(xs[1]), n)
        if op == "operator-" and len(xs) == 1:
            return f"__cx_neg({self.ex(xs[0])})"
        if op == "operator*" and len(xs) == 1:
            return f"__cx_get({self.ex(xs[0])}, 0)"
        return f"__cx_unknown({op!r})"

    def e_CXXMemberCallExpr(self, n):
        return self.e_CallExpr(n)

    def e_CallExpr(self, n):
        f = strip(n["inner"][0])
        args = [self.ex(x) for x in n["inner"][1:] if x.get("kind") != "CXXDefaultArgExpr"]
        k = f.get("kind")
        tail = "".join(", " + a for a in args)
        if k in ("CXXDependentScopeMemberExpr", "MemberExpr", "UnresolvedMemberExpr"):
            b, m = self.field(f) if k != "UnresolvedMemberExpr" else ((self.ex(f["inner"][0]) if f.get("inner") else "self"), f.get("name") or self.member_text(f))
            return f"__cx_m({m!r}, {b}{tail})"
        if k in ("DeclRefExpr", "UnresolvedLookupExpr"):
            d = f.get("referencedDecl") or {}
            if d.get("id") in self.names:
                return f"{self.names[d['id']]}({', '.join(args)})" if self.is_lambda(f) else f"__cx_get({self.names[d['id']]}{tail})"
            nm = d.get("name") or f.get("name") or ""
            if nm in self.u.funcs:
                if d.get("id") in self.u.insts:
                    return f"__cx_inst({d['id']!r}{tail})"
                return f"{nm}({', '.join(args)})"
            return f"__cx_f({nm!r}{tail})"
        if k == "DependentScopeDeclRefExpr":
            return f"__cx_s({norm_text(self.u.text(f))!r}{tail})"
        if k == "LambdaExpr":
            return f"{self.lam(f)}({', '.join(args)})"
        return f"__cx_get({self.ex(f)}{tail})"

    def member_text(self, f):
        t = self.u.text(f).rstrip()
        if t.endswith(">"):         # explicit template arguments
            d = 0
            for i in range(len(t) - 1, -1, -1):
                d += (t[i] == ">") - (t[i] == "<")
                if d == 0:
                    t = t[:i].rstrip()
                    break
        m = re.search(r"(\w+)$", t)
        return m[1] if m else ""

    def lam(self, n):
        rec = next((c for c in n.get("inner", []) if c.get("kind") == "CXXRecordDecl"), {})
        op = next((c for c in walk(rec) if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"), None)
        if op is None or body(op) is None:
            return "__cx_unknown('lambda')"
        nm = self.temp("lam")
        self.fnlevel.append(set())
        outer, self.nonlocals = getattr(self, "nonlocals", set()), set()
        ps = [self.bind(p) for p in params(op)]
        self.emit(f"def {nm}({', '.join(ps)}):")
        at = len(self.out)
        self.ind += 1
        save, self.incs = self.incs, []
        self.block(body(op))
        self.emit("return None")
        self.incs = save
        if self.nonlocals:
            self.out.insert(at, "    " * self.ind + "nonlocal " + ", ".join(sorted(self.nonlocals)))
            self.lines.insert(at, self.cur)
        self.ind -= 1
        self.nonlocals = outer
        self.fnlevel.pop()
        return nm


PYRES = set("and as assert async await break class continue def del elif else except finally for from global if import in is lambda nonlocal not or pass raise return try while with yield None True False self range print len min max abs sum list tuple map".split())


def walk(n):
    yield n
    for c in n.get("inner", []):
        if isinstance(c, dict):
            yield from walk(c)


def norm_text(t):
    t = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"\s+|\btemplate\b|\btypename\b", "", t)))
    return t


def scalar_ref(t):
    t = t.strip()
    return t.endswith("&") and "const" not in t and (is_int(t[:-1]) or re.match(r"^(F|float|double|bool|size_t|int)\s*&$", t) is not None)


def owning(t):
    t = t.strip()
    if t.endswith(("&", "*")):
        return False
    return bool(re.match(r"^(const )?(Eigen::)?(Vector|Array|DenseMatrix|Matrix|VectorF|ArrayF|VectorX\w|MatrixX\w|Matrix\w*|std::array|std::vector|std::pair|vector|array)\b", t)) and "Ref<" not in t.split(",")[0].split("Matrix")[0] and "Map<" not in t.split("Matrix")[0]


# ------------------------------------------------------------------------------------------------------------ run-time model
class CxOp(Model):
    """An operator object of symbolic shape with matvec(in, out); every application is recorded."""
    tag = "operator"

    def __init__(self, I, rows, cols):
        self.rows, self.cols = P(rows), P(cols)
        self.nm = fresh_name("A")
        tensor(self.nm, (self.rows, self.cols))
        self.uid = self.nm

    def el(self, i, j):
        return el(self.nm, (P(i), P(j)))

    def __repr__(self):
        return f"<operator {self.nm}>"


class CxMat(Model):
    """A matrix member of an operator class."""
    tag = "matrix"

    def __init__(self, I, rows, cols, adj=None):
        self.rows, self.cols, self.adj = P(rows), P(cols), adj
        self.nm = adj.nm if adj else fresh_name("M")
        if not adj:
            tensor(self.nm, (self.rows, self.cols))
        self.uid = self.nm + ("T" if adj else "")

    def el(self, i, j):
        return el(self.nm, (P(j), P(i))) if self.adj else el(self.nm, (P(i), P(j)))


class CxThis(Model):
    """An object of a project class; fields live in a list cell."""
    tag = "object"

    def __init__(self, I, cls, unit):
        self.cls, self.unit, self.uid = cls, unit, fresh_name("obj")
        self.cell = I.new(ListC([]), LRef)
        self.targs = {}


class CxIter(Model):
    tag = "iterator"

    def __init__(self, ref, pos):
        self.ref, self.pos, self.uid = ref, pos, fresh_name("it")


class PyObjM(Model):
    """A Python object handed to the extension: its attributes are unknown, its product is recorded."""
    tag = "pyobject"

    def __init__(self, I, rows, cols, outlen, name="A"):
        self.rows, self.cols, self.outlen, self.uid = P(rows), P(cols), P(outlen), fresh_name(name)


class PyAttr(Model):
    tag = "pyattr"

    def __init__(self, obj, name):
        self.obj, self.name, self.uid = obj, name, fresh_name("attr")


def bound(I, ok, what):
    """An access that must satisfy the indicator ok."""
    ok = P(ok)
    if ok.is_const() and ok.cval():
        return
    I.event("bounds", ok=I.norm(ok) if hasattr(I, "norm") else ok, what=what)


def inside(i, n):
    return ge(P(i)) * gt(P(n) - P(i))


def ptr2(v):
    return isinstance(v, ARef) and len(v.dims) == 2


def shifted(I, a, k):
    k = P(k)
    if len(a.dims) == 1:
        bound(I, ge(k) * ge(a.dims[0] - k), "pointer offset")
        return npm.view_of(a, (a.dims[0] - k,), lambda iv: (iv[0] + k,))
    rows = a.dims[0]
    c = divide(k, rows)
    if c is None:
        raise Undecided("offset into a matrix")
    bound(I, ge(c) * ge(a.dims[1] - c), "column offset")
    return npm.view_of(a, (rows, a.dims[1] - c), lambda iv: (iv[0], iv[1] + c))


def divide(k, r):
    """k / r when r divides k term by term."""
    k, r = P(k), P(r)
    if not k.t:
        return ZERO
    if r.is_const():
        return k * Fr(1, r.cval()) if r.cval() else None
    q = k * power(r, Fr(-1))
    return q if poly.is_zero(q * r - k) and not any(e < 0 or ATOMS[a].kind == "pw" for (m, _b) in q.t for a, e in m) else None


def linear(I, k, dims):
    """(row, column) of element k of a column-major matrix: the terms that are multiples of the number of rows make the column."""
    c, r = ZERO, ZERO
    k, d = P(k), P(dims[0])
    if not d.is_const():
        m = {}
        for a in k.free() - d.free():
            q = I.norm(eq(poly.sym_poly(a) - d))
            if q.is_const() and q.cval():
                m[a] = d
        k = poly.subst(k, m)
    for m, b in k.t.items():
        t = poly.Poly({m: b})
        q = divide(t, dims[0])
        if q is None:
            r = r + t
        else:
            c = c + q
    return [r, c]


def column(I, a, c):
    c = P_of(c)
    if c is None or not ptr2(a):
        raise Undecided("column of an unmodelled matrix")
    bound(I, inside(c, a.dims[1]), "column index")
    return npm.view_of(a, (a.dims[0],), lambda iv: (iv[0], c))


def mapping(I, t, args):
    p = args[0]
    if not isinstance(p, ARef):
        raise Undecided("map of an unmodelled pointer")
    ds = [P_of(x) for x in args[1:]]
    if any(d is None for d in ds):
        raise Undecided("map dimensions")
    if len(ds) == 2 and ds[1] == ONE and not (ptr2(p) and "Dense" in t):
        ds = ds[:1]
    if len(ds) == 1:
        if ptr2(p):        # the first column(s)
            bound(I, ge(p.dims[0] - ds[0]) * gt(p.dims[1]), "length of the mapped column")
            return npm.view_of(p, (ds[0],), lambda iv: (iv[0], ZERO))
        bound(I, ge(p.dims[0] - ds[0]), "length of the mapped vector")
        return npm.view_of(p, (ds[0],), lambda iv: (iv[0],))
    if len(ds) == 2:
        if ptr2(p):
            bound(I, eq(p.dims[0] - ds[0]) * ge(p.dims[1] - ds[1]), "shape of the mapped matrix")
            return npm.view_of(p, tuple(ds), lambda iv: (iv[0], iv[1]))
        raise Undecided("matrix mapped onto a vector")
    raise Undecided("map")


def vec(I, n, f=None):
    return npm.build(I, (P(n),), lambda iv: f(iv[0]) if f else ZERO)


def total(I, a, f=lambda x: x):
    r = [fresh_index(d) for d in a.dims]
    s = f(npm.elem(I, a, r))
    for i, d in zip(r, a.dims):
        s = sum_over(s, i, d)
    return Sc(s, "float")


def dot(I, a, b):
    if len(a.dims) != 1 or len(b.dims) != 1:
        raise Undecided("product of matrices")
    bound(I, eq(a.dims[0] - b.dims[0]), "lengths of a scalar product")
    return Sc(S(lambda i: npm.elem(I, a, [i]) * npm.elem(I, b, [i]), a.dims[0]), "float")


def norm2(I, a):
    return total(I, a, lambda x: x * x)


def root(p):
    return Sc(power(P_of(p), Fr(1, 2)), "float")


def scale(I, a, s):
    return npm.build(I, a.dims, lambda iv: npm.elem(I, a, iv) * s)


def safe_norm(I, a):
    """Norm used as a divisor: a zero vector is left as it is."""
    q = P_of(norm2(I, a))
    return phi(gt(q), power(q, Fr(-1, 2)), ONE)


def assign_into(I, a, v):
    if isinstance(v, ARef):
        if len(v.dims) != len(a.dims):
            if len(a.dims) == 2 and a.dims[1] == ONE and len(v.dims) == 1:
                v = npm.view_of(v, (v.dims[0], ONE), lambda iv: (iv[0],))
            else:
                raise Undecided("assignment between ranks")
        for x, y in zip(a.dims, v.dims):
            if x != y:
                bound(I, eq(x - y), "lengths of an assignment")
        w = npm.copy(I, v) if v.buf == a.buf else v
        if any(x != y for x, y in zip(a.dims, v.dims)):
            w = npm.build(I, a.dims, lambda iv: npm.elem(I, v, iv))
        npm.store(I, a, w)
        return a
    p = P_of(v)
    if p is None:
        raise Undecided(f"assignment of {v!r}")
    npm.store(I, a, npm.build(I, a.dims, lambda iv: p))
    return a


class Runtime:
    def __init__(self, I, unit, gram=False):
        self.I, self.u = I, unit
        env = {}
        for nm in ("make", "auto", "copy", "get", "set", "store", "assign", "fld", "setfld", "m", "f", "s", "global", "unknown", "addr", "inst",
                   "add", "sub", "mul", "div", "idiv", "mod", "neg"):
            env["__cx_" + nm] = PrimV("cxx." + nm, self.lifted(getattr(self, "r_" + nm)))
        self.module = Module("cxx", unit.src, ast.parse(""))
        self.module.loaded = True
        self.env = self.module.frame.env
        self.env.update(env)
        self.consts, self.targs = {"gram": gram}, {}
        self.classes = {}
        self.failed = {}
        I.funcs_cxx = getattr(I, "funcs_cxx", set())
        for name, ns in unit.funcs.items():
            self.define(name, ns)

    def lifted(self, f):
        def g(I, *args):
            if any(isinstance(a, PhiV) for a in args):
                return I.lift(lambda *xs: f(I, *xs), *args)
            return f(I, *args)
        return g

    def define(self, name, ns, cls=None):
        """Defines a project function; overloads are told apart by their number of parameters."""
        vs = []
        for n in ns:
            try:
                src, lines = Trans(self.u, n, name, cls).function()
                tree = ast.parse(src)
            except (Undecided, SyntaxError, KeyError, IndexError) as e:
                self.failed[name] = str(e)
                vs.append((len(params(n)), None))
                continue
            for x in ast.walk(tree):
                if hasattr(x, "lineno"):
                    x.lineno = x.end_lineno = lines[min(x.lineno, len(lines)) - 1]
            sub = self.module
            saved = (self.I.frame, self.I.guard, self.I.pos)
            self.I.frame = sub.frame
            old = self.env.get(name)
            self.I.exec_block(tree.body)
            fv = self.env.pop(name)
            if old is not None:
                self.env[name] = old
            self.I.frame, self.I.guard, self.I.pos = saved
            vs.append((len(params(n)), fv))
        if cls is not None:
            return vs
        if len(vs) == 1 and vs[0][1] is not None:
            self.env[name] = vs[0][1]
        else:
            def pick(I, *args):
                for k, fv in vs:
                    if k == len(args) and fv is not None:
                        return I.call(fv, list(args), {})
                raise Undecided(f"overload of {name}")
            self.env[name] = PrimV("cxx." + name, pick)

    def method(self, cname, mname):
        key = (cname, mname)
        if key not in self.classes:
            self.classes[key] = self.define(mname, self.u.classes[cname]["methods"].get(mname, []), cname)
        return self.classes[key]

    def callm(self, obj, mname, *args):
        for k, fv in self.method(obj.cls, mname):
            if k == len(args) and fv is not None:
                return self.within(obj.targs, lambda: self.I.call(fv, [obj] + list(args), {}))
        raise Undecided(f"method {mname}")

    # ------------------------------------------------------------------------------------------------------------ values
    def r_unknown(self, I, why):
        return Unk("C++ " + why)

    def r_global(self, I, nm, text):
        if nm in self.targs:
            t = self.targs[nm]
            return {"true": True, "false": False, "0": False, "1": True, "-1": True}[t] if t in ("true", "false", "0", "1", "-1") else Unk("C++ template argument " + t)
        if nm in self.consts:
            return self.consts[nm]
        if nm == "Dynamic":
            return -1
        return Unk("C++ name " + nm)

    def r_inst(self, I, key, *args):
        """A call with known template arguments."""
        nm, ta = self.u.insts[key]
        return self.within(ta, lambda: I.call(self.env[nm], list(args), {}))

    def within(self, ta, f):
        saved, self.targs = self.targs, {**self.targs, **ta}
        try:
            return f()
        finally:
            self.targs = saved

    def construct(self, I, t, args):
        """An object of a project class, named directly or through a template parameter."""
        base, _, rest = t.partition("<")
        cls = base.strip().split("::")[-1]
        if cls not in self.u.classes:
            return None
        o = CxThis(I, cls, self.u)
        names = [x.get("name") for x in self.u.classes[cls].get("tparams", [])]
        o.targs = dict(zip(names, [x.strip() for x in rest.rstrip("> ").split(",")])) if rest else {}
        for k, fv in self.method(cls, "__init__"):
            if k == len(args) and fv is not None:
                self.within(o.targs, lambda: I.call(fv, [o] + list(args), {}))
                return o
        raise Undecided(f"construction of {t}")

    def r_copy(self, I, v):
        if isinstance(v, ARef):
            return npm.copy(I, v)
        if isinstance(v, LRef):
            return I.mklist(list(I.sequence(v)))
        return v

    def r_auto(self, I, v):
        if isinstance(v, LRef):
            return self.r_copy(I, v)
        return v

    def r_make(self, I, t, *args):
        t0 = re.sub(r"^(const|static|constexpr|volatile)\s+", "", t.strip())
        t0 = re.sub(r"^(const|constexpr)\s+", "", t0)
        t0 = t0.rstrip("& ").strip()
        t0 = self.targs.get(t0, t0)
        if t0.partition("<")[0].strip().split("::")[-1] in self.u.classes:
            if args and isinstance(args[0], CxThis):
                return args[0]
            return self.construct(I, t0, args)
        if not args:
            if re.match(r"^(std::)?(array|vector)<", t0):
                m = re.match(r"^(?:std::)?array<[^,]+,\s*(\d+)>", t0)
                return I.mklist([0] * int(m[1])) if m else I.mklist([])
            return 0 if is_int(t0) or t0 in ("F", "double", "float", "bool") else Unk("uninitialised " + t0)
        a = args[0]
        if any(isinstance(x, Unk) for x in args):
            return next(x for x in args if isinstance(x, Unk))
        if re.match(r"^(Eigen::)?Ref<", t0):
            return a
        if re.match(r"^(Eigen::)?Map<", t0):
            return mapping(I, t0, args)
        if re.match(r"^(py::)?(array_t|py_array|array)\b", t0) and len(args) == 2 and isinstance(args[0], (LRef, tuple)):
            ds = [P_of(x) for x in I.sequence(args[0])]
            src = args[1]
            if len(ds) != 1 or not isinstance(src, ARef) or len(src.dims) != 1:
                raise Undecided("array construction")
            bound(I, ge(src.dims[0] - ds[0]), "length read to build an array")
            return npm.build(I, (ds[0],), lambda iv: npm.elem(I, src, [iv[0]]))
        if isinstance(a, ARef):
            if "Matrix" in t0 or "Vector" in t0 or "Array" in t0:
                return npm.copy(I, a)
            return a
        if isinstance(a, LRef) and len(args) == 1:
            return self.r_copy(I, a)
        if re.match(r"^std::vector<", t0) or re.match(r"^vector<", t0):
            n = P_of(args[0])
            v = P_of(args[1]) if len(args) > 1 else ZERO
            if n is not None and v is not None:
                return npm.build(I, (n,), lambda iv: v)
            raise Undecided("vector construction")
        if re.match(r"^(std::)?array<", t0):
            return I.mklist(list(args)) if len(args) > 1 else a
        if is_int(t0):
            p = P_of(a)
            if p is None:
                return a
            return a if ty_of(a) in ("int", "bool") else I.call(I.getname("int") if False else PrimV("int", lambda I, x: npm._int(I, x)), [a], {})
        if t0 in ("F", "double", "float", "bool", "value_type", "typename F", "long double"):
            return a
        if re.match(r"^(std::)?pair<", t0):
            return tuple(args) if len(args) == 2 else a
        if re.match(r"^(Eigen::)?(Matrix|Vector|Array|DenseMatrix|VectorX|MatrixX|ArrayX)\w*", t0):
            ds = [P_of(x) for x in args]
            if all(d is not None for d in ds):
                nm = fresh_name("uninit")
                tensor(nm, tuple(ds))
                return npm.build(I, tuple(ds), lambda iv: el(nm, tuple(iv)))
        if len(args) == 1:
            return a
        return Unk("C++ construction of " + t0)

    def r_get(self, I, a, *ix):
        if isinstance(a, (LRef, tuple)) and len(ix) == 1:
            return I.getitem(a, ix[0])
        if isinstance(a, ARef):
            ps = [P_of(i) for i in ix]
            if any(p is None for p in ps):
                return Unk("C++ index")
            if len(ps) == 1 and len(a.dims) == 2:
                if a.dims[1] == ONE:
                    ps.append(ZERO)
                elif a.dims[0] == ONE:
                    ps = [ZERO] + ps
                else:
                    ps = linear(I, ps[0], a.dims)
                    if ps is None:
                        return Unk("C++ linear index")
            if len(ps) != len(a.dims):
                return Unk("C++ index")
            for p, d in zip(ps, a.dims):
                bound(I, inside(p, d), "element index")
            return Sc(npm.elem(I, a, ps), "float")
        if isinstance(a, (FuncV, PrimV)):
            return I.call(a, list(ix), {})
        if isinstance(a, CxIter) and len(ix) == 1:
            return I.getitem(a.ref, binop(I, "Add", a.pos, ix[0]))
        if isinstance(a, PyAttr):
            return self.pycall(I, a, ix)
        return a if isinstance(a, Unk) else Unk(f"C++ element of {a!r}")

    def r_set(self, I, a, v, *ix):
        if isinstance(a, LRef) and len(ix) == 1:
            I.setitem(a, ix[0], v)
            return None
        if isinstance(a, ARef):
            ps = [P_of(i) for i in ix]
            if len(ps) == 1 and len(a.dims) == 2 and ps[0] is not None:
                ps = linear(I, ps[0], a.dims) or ()
            if any(p is None for p in ps) or len(ps) != len(a.dims):
                raise Undecided("store at an unmodelled index")
            for p, d in zip(ps, a.dims):
                bound(I, inside(p, d), "element index written")
            I.event("write", ref=a, idx=tuple(ps))
            p = P_of(v)
            if p is None:
                raise Undecided(f"store of {v!r}")
            npm.store(I, npm.view_of(a, (), lambda iv: tuple(ps)), Sc(p, "float"))
            return None
        raise Undecided(f"store into {a!r}")

    def r_store(self, I, a, v):
        if isinstance(a, ARef):
            assign_into(I, a, v)
            I.event("write", ref=a, idx=None)
            return None
        raise Undecided(f"store into {a!r}")

    def r_assign(self, I, a, v):
        if isinstance(a, ARef):
            if isinstance(v, ARef) and v.buf == a.buf and v == a:
                return a
            r = assign_into(I, a, v)
            I.event("write", ref=a, idx=None)
            return r
        return self.r_copy(I, v) if isinstance(v, LRef) else v

    def r_fld(self, I, nm, o):
        if isinstance(o, (tuple, LRef)) and nm in ("first", "second"):
            return I.getitem(o, 0 if nm == "first" else 1)
        if isinstance(o, CxThis):
            xs = I.heap[o.cell.id].segs
            for s in xs:
                if s[1][0] == nm:
                    return s[1][1]
            return Unk("C++ field " + nm)
        return o if isinstance(o, Unk) else Unk(f"C++ member {nm}")

    def r_setfld(self, I, o, nm, v):
        if not isinstance(o, CxThis):
            if isinstance(o, LRef) and nm in ("first", "second"):
                I.setitem(o, 0 if nm == "first" else 1, v)
                return None
            raise Undecided(f"member {nm} of {o!r}")
        xs = [s for s in I.heap[o.cell.id].segs if s[1][0] != nm] + [("v", (nm, v))]
        I.heap[o.cell.id] = ListC(xs)
        return None

    def r_addr(self, I, a, *ix):
        if isinstance(a, ARef) and len(ix) == 1 and len(a.dims) == 1:
            return shifted(I, a, P_of(ix[0]))
        if isinstance(a, ARef) and len(ix) == 2 and len(a.dims) == 2 and P_of(ix[0]) == ZERO:
            return shifted(I, a, P_of(ix[1]) * a.dims[0])
        raise Undecided("address of an element")

    # --------------------------------------------------------------------------------------------------------- arithmetic
    def r_add(self, I, a, b):
        if isinstance(a, ARef) and P_of(b) is not None:
            return shifted(I, a, P_of(b))
        if isinstance(b, ARef) and P_of(a) is not None:
            return shifted(I, b, P_of(a))
        if isinstance(a, CxIter):
            return CxIter(a.ref, I.binop("Add", a.pos, b))
        return self.lin(I, "Add", a, b)

    def r_sub(self, I, a, b):
        if isinstance(a, CxIter) and not isinstance(b, CxIter):
            return CxIter(a.ref, I.binop("Sub", a.pos, b))
        if isinstance(a, CxIter):
            return I.binop("Sub", a.pos, b.pos)
        return self.lin(I, "Sub", a, b)

    def lin(self, I, op, a, b):
        if isinstance(a, CxMat) or isinstance(b, CxMat):
            raise Undecided("matrix arithmetic")
        if isinstance(a, ARef) and isinstance(b, ARef):
            if len(a.dims) != len(b.dims):
                raise Undecided("ranks")
            for x, y in zip(a.dims, b.dims):
                if x != y:
                    bound(I, eq(x - y), "lengths of a sum")
            s = 1 if op == "Add" else -1
            return npm.build(I, a.dims, lambda iv: npm.elem(I, a, iv) + s * npm.elem(I, b, iv))
        if isinstance(a, ARef) or isinstance(b, ARef):
            raise Undecided("array plus scalar")
        return I.binop(op, a, b)

    def r_mul(self, I, a, b):
        if isinstance(a, (CxMat, CxOp)) and isinstance(b, ARef):
            if len(b.dims) != 1:
                raise Undecided("matrix product")
            bound(I, eq(a.cols - b.dims[0]), "inner dimension of a product")
            return vec(I, a.rows, lambda i: S(lambda j: a.el(i, j) * npm.elem(I, b, [j]), a.cols))
        if isinstance(a, ARef) and isinstance(b, ARef):
            if len(a.dims) == 2:
                bound(I, eq(a.dims[1] - b.dims[0]), "inner dimension of a product")
                return npm.matmul(I, a, b)
            if len(b.dims) == 2:
                raise Undecided("vector times matrix")
            bound(I, eq(a.dims[0] - b.dims[0]), "lengths of an elementwise product")
            return npm.build(I, a.dims, lambda iv: npm.elem(I, a, iv) * npm.elem(I, b, iv))
        if isinstance(a, ARef) or isinstance(b, ARef):
            x, s = (a, b) if isinstance(a, ARef) else (b, a)
            p = P_of(s)
            if p is None:
                raise Undecided("scale factor")
            return scale(I, x, p)
        return I.binop("Mult", a, b)

    def r_div(self, I, a, b):
        if isinstance(a, ARef):
            p = P_of(b)
            if p is None:
                raise Undecided("quotient of arrays")
            return scale(I, a, power(p, Fr(-1)))
        if P_of(a) is not None and P_of(b) is not None and ty_of(a) == "int" and ty_of(b) == "int":
            return self.r_idiv(I, a, b)
        return I.binop("Div", a, b)

    def r_idiv(self, I, a, b):
        """Truncating division."""
        x, y = P_of(a), P_of(b)
        if x is None or y is None:
            return Unk("C++ division")
        if x.is_const() and y.is_const() and y.cval():
            q = abs(x.cval()) // abs(y.cval())
            return int(q if (x.cval() < 0) == (y.cval() < 0) else -q)
        return I.binop("FloorDiv", a, b)

    def r_mod(self, I, a, b):
        x, y = P_of(a), P_of(b)
        if x is not None and y is not None and x.is_const() and y.is_const() and y.cval():
            r = abs(x.cval()) % abs(y.cval())
            return int(r if x.cval() >= 0 else -r)
        return Unk("C++ remainder of unknown numbers")

    def r_neg(self, I, a):
        if isinstance(a, ARef):
            return scale(I, a, Poly.const(-1))
        return I.binop("Sub", 0, a)

    # ------------------------------------------------------------------------------------------------------------ methods
    def r_m(self, I, nm, o, *args):
        if isinstance(o, Unk):
            return o
        if isinstance(o, ARef):
            return self.arr_m(I, nm, o, args)
        if isinstance(o, (LRef, tuple)):
            n = npm.length(I, o) if not isinstance(o, tuple) else len(o)
            if nm in ("begin", "cbegin", "data"):
                return CxIter(o, 0)
            if nm in ("end", "cend"):
                return CxIter(o, n)
            if nm == "size":
                return n
            if nm == "front":
                return I.getitem(o, 0)
            if nm == "back":
                return I.getitem(o, -1)
            if nm == "at":
                return I.getitem(o, args[0])
            if nm == "fill":
                for k in range(int(P_of(n).cval())):
                    I.setitem(o, k, args[0])
                return None
        if isinstance(o, CxOp):
            if nm == "shape":
                return (N(o.rows), N(o.cols))
            if nm == "rows":
                return N(o.rows)
            if nm == "cols":
                return N(o.cols)
            if nm == "matvec" and len(args) == 2 and all(isinstance(x, ARef) for x in args):
                x, y = args
                x, y = (npm.view_of(z, (z.dims[0],), lambda iv: (iv[0], ZERO)) if ptr2(z) else z for z in (x, y))
                bound(I, ge(x.dims[0] - o.cols), "vector read by the operator")
                bound(I, ge(y.dims[0] - o.rows), "vector written by the operator")
                src = npm.build(I, (o.cols,), lambda iv: npm.elem(I, x, iv))
                I.event("matvec", op=o, x=src)
                out = vec(I, o.rows, lambda i: S(lambda j: o.el(i, j) * npm.elem(I, src, [j]), o.cols))
                npm.store(I, npm.view_of(y, (o.rows,), lambda iv: (iv[0],)), out)
                I.event("write", ref=y, idx=None)
                return None
        if isinstance(o, CxMat):
            if nm in ("rows", "cols", "size"):
                return N({"rows": o.rows, "cols": o.cols, "size": o.rows * o.cols}[nm])
            if nm in ("adjoint", "transpose"):
                return CxMat(I, o.cols, o.rows, o)
        if isinstance(o, CxThis):
            return self.callm(o, nm, *args)
        if isinstance(o, PyObjM) and nm == "attr" and isinstance(args[0], str):
            return PyAttr(o, args[0])
        if isinstance(o, PyAttr) and nm == "cast" and o.name == "shape":
            return (N(o.obj.rows), N(o.obj.cols))
        if nm == "cast":
            return o
        if isinstance(o, (FuncV, PrimV)) and nm == "operator()":
            return I.call(o, list(args), {})
        return Unk(f"C++ method {nm}")

    def pycall(self, I, a, args):
        if a.name in ("matvec", "__matmul__", "dot") and len(args) == 1 and isinstance(args[0], ARef):
            x = args[0]
            I.event("pycall", obj=a.obj, name=a.name, x=freeze(I, x))
            nm = fresh_name("pyout")
            tensor(nm, (a.obj.outlen,))
            a.obj.out = nm
            return npm.build(I, (a.obj.outlen,), lambda iv: el(nm, tuple(iv)))
        return Unk("C++ call of a Python attribute")

    def arr_m(self, I, nm, a, args):
        d = a.dims
        v = lambda k: P_of(args[k])
        if nm == "rows":
            return N(d[0])
        if nm == "cols":
            return N(d[1] if len(d) > 1 else ONE)
        if nm == "size":
            s = ONE
            for x in d:
                s = s * x
            return N(s)
        if nm == "ndim":
            return len(d)
        if nm == "shape":
            k = int(v(0).cval())
            if k >= len(d):
                bound(I, ZERO, "axis of an array")
                return Unk("C++ axis")
            return N(d[k])
        if nm == "col":
            return column(I, a, args[0]) if len(d) == 2 else a
        if nm == "row" and len(d) == 2:
            r = v(0)
            bound(I, inside(r, d[0]), "row index")
            return npm.view_of(a, (d[1],), lambda iv: (r, iv[0]))
        if nm in ("data", "mutable_data", "array", "matrix", "noalias", "eval", "derived", "begin", "mutable_unchecked", "unchecked", "const_cast_derived") and not args:
            return a
        if nm == "dot":
            return dot(I, a, args[0])
        if nm == "squaredNorm":
            return norm2(I, a)
        if nm in ("norm", "stableNorm", "blueNorm"):
            return root(norm2(I, a))
        if nm in ("normalized", "stableNormalized"):
            return scale(I, a, safe_norm(I, a))
        if nm in ("normalize", "stableNormalize"):
            assign_into(I, a, scale(I, a, safe_norm(I, a)))
            I.event("write", ref=a, idx=None)
            return None
        if nm in ("setZero", "setOnes", "setConstant", "fill"):
            assign_into(I, a, 0 if nm == "setZero" else 1 if nm == "setOnes" else args[0])
            I.event("write", ref=a, idx=None)
            return a
        if nm == "sum":
            return total(I, a)
        if nm == "mean":
            return I.binop("Div", total(I, a), self.arr_m(I, "size", a, ()))
        if nm in ("cwiseAbs", "abs"):
            return npm.build(I, d, lambda iv: fun("abs", npm.elem(I, a, iv)))
        if nm in ("cwiseAbs2", "square", "abs2"):
            return npm.build(I, d, lambda iv: npm.elem(I, a, iv) ** 2)
        if nm in ("cwiseProduct",):
            return npm.build(I, d, lambda iv: npm.elem(I, a, iv) * npm.elem(I, args[0], iv))
        if nm in ("head", "topRows", "tail", "segment", "middleRows") and len(d) == 1:
            if nm == "segment":
                s, n = v(0), v(1)
            elif nm == "head":
                s, n = ZERO, v(0)
            else:
                n = v(0)
                s = d[0] - n
            bound(I, ge(s) * ge(d[0] - s - n) * ge(n), "segment")
            return npm.view_of(a, (n,), lambda iv: (iv[0] + s,))
        if nm in ("leftCols", "rightCols", "middleCols") and len(d) == 2:
            if nm == "middleCols":
                s, n = v(0), v(1)
            else:
                n = v(0)
                s = ZERO if nm == "leftCols" else d[1] - n
            bound(I, ge(s) * ge(d[1] - s - n) * ge(n), "columns")
            return npm.view_of(a, (d[0], n), lambda iv: (iv[0], iv[1] + s))
        if nm in ("transpose", "adjoint"):
            if len(d) == 2:
                return npm.view_of(a, (d[1], d[0]), lambda iv: (iv[1], iv[0]))
            return npm.view_of(a, (ONE, d[0]), lambda iv: (iv[1],))
        if nm in ("coeff", "coeffRef", "operator()", "operator[]", "at", "mutable_at", "value"):
            return self.r_get(I, a, *args)
        if nm in ("end",):
            return shifted(I, a, d[0]) if len(d) == 1 else Unk("C++ end")
        if nm in ("swap",) and isinstance(args[0], ARef):
            t = npm.copy(I, a)
            assign_into(I, a, npm.copy(I, args[0]))
            assign_into(I, args[0], t)
            return None
        if nm == "cast":
            return a
        return Unk(f"C++ method {nm}")

    # ---------------------------------------------------------------------------------------------------------- functions
    def r_f(self, I, nm, *args):
        if any(isinstance(a, Unk) for a in args):
            return next(a for a in args if isinstance(a, Unk))
        if nm in ("sqrt", "sqrtf"):
            p = P_of(args[0])
            return Sc(power(p, Fr(1, 2)), "float") if p is not None else Unk("C++ sqrt")
        if nm in ("abs", "fabs", "fabsf"):
            p = P_of(args[0])
            if p is None:
                return Unk("C++ abs")
            return abs(args[0]) if isinstance(args[0], (int, float)) else Sc(fun("abs", p), ty_of(args[0]) or "float")
        if nm in ("max", "min") and len(args) == 2:
            a, b = P_of(args[0]), P_of(args[1])
            if a is None or b is None:
                return Unk("C++ " + nm)
            c = gt(a - b)
            t = "int" if ty_of(args[0]) == "int" and ty_of(args[1]) == "int" else "float"
            return sc(phi(c, a, b) if nm == "max" else phi(c, b, a), t)
        if nm in ("max", "min") and len(args) == 1 and isinstance(args[0], LRef):
            xs = list(I.sequence(args[0]))
            r = xs[0]
            for x in xs[1:]:
                r = self.r_f(I, nm, r, x)
            return r
        if nm == "clamp" and len(args) == 3:
            return self.r_f(I, "min", self.r_f(I, "max", args[0], args[1]), args[2])
        if nm == "pow" and len(args) == 2:
            e = P_of(args[1])
            p = P_of(args[0])
            if p is not None and e is not None and e.is_const():
                return Sc(power(p, e.cval()), "float")
        if nm == "hypot" and len(args) == 2:
            a, b = P_of(args[0]), P_of(args[1])
            return Sc(power(a * a + b * b, Fr(1, 2)), "float")
        if nm in ("move", "forward", "as_const", "ref", "cref") and len(args) == 1:
            return args[0]
        if nm in ("make_pair", "make_tuple"):
            return tuple(args)
        if nm in ("isnan", "isinf"):
            return False
        if nm == "isfinite":
            return True
        if nm == "get" and len(args) == 1:
            return Unk("C++ get")
        if nm == "rotate" and all(isinstance(a, CxIter) for a in args):
            ps = [P_of(a.pos) for a in args]
            if not all(p is not None and p.is_const() for p in ps):
                raise Undecided("rotation")
            a, m, b = (int(p.cval()) for p in ps)
            xs = [I.getitem(args[0].ref, k) for k in range(a, b)]
            xs = xs[m - a:] + xs[:m - a]
            for k, x in zip(range(a, b), xs):
                I.setitem(args[0].ref, k, x)
            return CxIter(args[0].ref, b - (m - a))
        if nm in ("copy", "copy_n", "fill", "fill_n", "uninitialized_copy") and all(isinstance(a, ARef) or P_of(a) is not None for a in args):
            return self.algo(I, nm, args)
        if nm in ("swap", "iter_swap", "exchange"):
            raise Undecided("C++ swap of variables")
        if nm in ("assert", "__assert_fail"):
            return None
        if nm == "hasattr":
            return True
        return Unk(f"C++ function {nm}")

    def algo(self, I, nm, args):
        if nm in ("copy", "uninitialized_copy"):
            s, e, o = args
            if not all(isinstance(x, ARef) and len(x.dims) == 1 for x in args) or s.buf != e.buf:
                raise Undecided("copied range")
            n = s.dims[0] - e.dims[0]
        elif nm == "copy_n":
            s, n, o = args[0], P_of(args[1]), args[2]
            bound(I, ge(s.dims[0] - n), "range read by a copy")
        elif nm == "fill_n":
            o, n, s = args[0], P_of(args[1]), args[2]
        else:
            a, e, s = args
            n, o = a.dims[0] - e.dims[0], a
        if len(o.dims) != 1:
            raise Undecided("copy into a matrix")
        bound(I, ge(o.dims[0] - n), "range written by a copy")
        dst = npm.view_of(o, (n,), lambda iv: (iv[0],))
        val = npm.build(I, (n,), lambda iv: npm.elem(I, s, iv)) if isinstance(s, ARef) else s
        assign_into(I, dst, val)
        I.event("write", ref=o, idx=None)
        return None

    def r_s(self, I, text, *args):
        """Static members named through a template parameter."""
        last = text.split("::")[-1]
        if last == "Zero" or last == "Ones" or last == "Constant":
            ds = [P_of(x) for x in args]
            val = ZERO if last == "Zero" else ONE
            if last == "Constant":
                val, ds = ds[-1], ds[:-1]
            if len(ds) == 2 and ds[1] == ONE:
                ds = ds[:1]
            if any(d is None for d in ds) or val is None:
                return Unk("C++ " + text)
            return npm.build(I, tuple(ds), lambda iv: val)
        if last == "Map":
            return mapping(I, text, args)
        if last in ("epsilon", "min", "denorm_min") and "numeric_limits" in text:
            return 0.0          # exact arithmetic
        if last in ("max", "infinity", "lowest") and "numeric_limits" in text:
            return Unk("C++ " + text)
        return Unk("C++ " + text)


_UNITS = {}


def unit(src):
    if src not in _UNITS:
        _UNITS[src] = Unit(src)
    return _UNITS[src]
