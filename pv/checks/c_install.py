"""What is installed is closed under what it needs (C30)."""
import ast
import os
import posixpath
import re
import sys
import tomllib

from ..chk import REPO, SRC, Anchor, prop

# ---------------------------------------------------------------------------------------------------- a subset of meson
TOKEN = re.compile(r"[ \t\r]*(?:#[^\n]*)?(?:(?P<nl>\n)|(?P<str>'''(?:.|\n)*?'''|f?'(?:\\.|[^'\\\n])*')|(?P<id>[A-Za-z_]\w*)|(?P<num>\d+)|(?P<op>\+=|==|!=|<=|>=|[-+*/%\[\](){},:.=<>?]))")


def tokens(text):
    out, i, depth = [], 0, 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            i += 1
            continue
        i = m.end()
        k = m.lastgroup
        v = m.group(k)
        if k == "op":
            depth += (v in "([{") - (v in ")]}")
        if k == "nl" and depth > 0:
            continue
        out.append((k, v))
    return out + [("nl", "\n")]


class Call:
    def __init__(self, name, args, kw):
        self.name, self.args, self.kw = name, args, kw


class Meson:
    """Evaluates lists, strings, joins, concatenations and loops; calls are recorded with their evaluated arguments."""

    def __init__(self, text):
        self.t, self.i, self.env, self.calls = tokens(text), 0, {}, []
        self.block(())

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")

    def take(self, v=None):
        x = self.peek()
        if v is not None and x[1] != v:
            raise ValueError(f"meson: {x[1]!r} where {v!r} was expected")
        self.i += 1
        return x

    def block(self, ends):
        while self.i < len(self.t):
            k, v = self.peek()
            if k == "id" and v in ends:
                return v
            if k == "nl":
                self.i += 1
            elif k == "id" and v == "foreach":
                self.loop()
            elif k == "id" and v in ("if", "elif", "else", "endif", "endforeach"):
                self.line()      # the branches of a condition are all looked at
            else:
                self.statement()
        return None

    def line(self):
        while self.peek()[0] not in ("nl", "end"):
            self.i += 1

    def loop(self):
        self.take("foreach")
        names = [self.take()[1]]
        while self.peek()[1] == ",":
            self.take()
            names.append(self.take()[1])
        self.take(":")
        seq = self.expr()
        start = self.i
        for x in seq if isinstance(seq, list) and len(names) == 1 else [None]:
            self.i = start
            self.env[names[0]] = x
            self.block(("endforeach",))
        self.line()

    def statement(self):
        start = self.i
        try:
            if self.peek()[0] == "id" and self.peek(1)[1] in ("=", "+="):
                n, o = self.take()[1], self.take()[1]
                v = self.expr()
                old = self.env.get(n)
                self.env[n] = v if o == "=" else (old + (v if isinstance(v, list) else [v]) if isinstance(old, list) else None)
            else:
                self.expr()
        except ValueError:
            pass
        self.line()
        if self.i == start:
            self.i += 1

    def expr(self):
        v = self.product()
        while self.peek()[1] in ("+", "-", "==", "!=", "<", ">", "<=", ">=") or self.peek() in (("id", "and"), ("id", "or"), ("id", "in")):
            o = self.take()[1]
            w = self.product()
            if o == "+" and isinstance(v, list):
                v = v + (w if isinstance(w, list) else [w])
            else:
                v = v + w if o == "+" and isinstance(v, str) and isinstance(w, str) else None
        return v

    def product(self):
        v = self.unary()
        while self.peek()[1] in ("/", "*", "%"):
            o = self.take()[1]
            w = self.unary()
            v = posixpath.join(v, w) if o == "/" and isinstance(v, str) and isinstance(w, str) else None
        return v

    def unary(self):
        if self.peek() == ("id", "not") or self.peek()[1] == "-":
            self.take()
            self.unary()
            return None
        return self.postfix()

    def postfix(self):
        k, v = self.peek()
        name = None
        if k == "str":
            self.take()
            v = v[3:-3] if v.startswith("'''") else v.lstrip("f")[1:-1]
        elif k == "num":
            self.take()
            v = int(v)
        elif v == "[":
            self.take()
            out = []
            while self.peek()[1] != "]":
                out.append(self.expr())
                if self.peek()[1] == ",":
                    self.take()
            self.take("]")
            v = out
        elif v == "{":
            depth = 0
            while True:
                x = self.take()[1]
                depth += (x == "{") - (x == "}")
                if depth == 0:
                    break
            v = None
        elif v == "(":
            self.take()
            v = self.expr()
            self.take(")")
        elif k == "id":
            self.take()
            name, v = v, self.env.get(v, True if v == "true" else False if v == "false" else None)
        else:
            raise ValueError(f"meson: {v!r}")
        while self.peek()[1] in (".", "(", "["):
            o = self.take()[1]
            if o == ".":
                name = (name or "?") + "." + self.take()[1]
                v = None
            elif o == "[":
                self.expr()
                self.take("]")
                v = None
            else:
                args, kw = [], {}
                while self.peek()[1] != ")":
                    if self.peek()[0] == "id" and self.peek(1)[1] == ":":
                        n = self.take()[1]
                        self.take(":")
                        kw[n] = self.expr()
                    else:
                        args.append(self.expr())
                    if self.peek()[1] == ",":
                        self.take()
                self.take(")")
                c = Call(name or "?", args, kw)
                self.calls.append(c)
                v = posixpath.join(*args) if name == "join_paths" and all(isinstance(a, str) for a in args) else list(args) if name == "files" else c
        return v


def flat(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from flat(x)
    elif isinstance(v, Call):
        for x in v.args:
            yield from flat(x)
    else:
        yield v


# ------------------------------------------------------------------------------------------------------------- the sources
def includes(path):
    """Names a header asks for, comments removed."""
    t = open(path).read()
    t = re.sub(r'//[^\n]*|/\*.*?\*/|("(?:\\.|[^"\\\n])*")', lambda m: m.group(1) or " ", t, flags=re.S)
    return re.findall(r'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]+)[>"]', t, flags=re.M)


def top_names(tree):
    """Names bound when a module is imported."""
    out = set()

    def walk(body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out.update((a.asname or a.name.split(".")[0]) for a in n.names)
            else:
                out.update(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
                for f in ("body", "orelse", "finalbody"):
                    walk(getattr(n, f, []) or [])
                for h in getattr(n, "handlers", []):
                    walk(h.body)
    walk(tree.body)
    return out


def imports(tree):
    """(node, guarded, deferred) of every import statement."""
    def walk(n, guarded, deferred):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                yield c, guarded, deferred
            g = guarded or isinstance(c, ast.Try) or (isinstance(c, ast.If) and "TYPE_CHECKING" in ast.dump(c.test))
            yield from walk(c, g, deferred or isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)))
    yield from walk(tree, False, False)


def folded(fn, where):
    """The path a function of constants returns, by constant folding; None when not in that form."""
    env = {"__file__": where}

    def dotted(n):
        return dotted(n.value) + "." + n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else "?"

    def ev(n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            return env[n.id]
        if isinstance(n, ast.Attribute) and n.attr == "parent":
            return posixpath.dirname(ev(n.value))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div):
            return posixpath.join(ev(n.left), ev(n.right))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return ev(n.left) + ev(n.right)
        if isinstance(n, ast.JoinedStr):
            return "".join(str(ev(v.value) if isinstance(v, ast.FormattedValue) else v.value) for v in n.values)
        if isinstance(n, ast.Call):
            d = dotted(n.func).split(".")[-1]
            a = [ev(x) for x in n.args]
            if d in ("join", "joinpath"):
                return posixpath.join(*([ev(n.func.value)] if d == "joinpath" else []), *a)
            if d == "dirname":
                return posixpath.dirname(a[0])
            if d in ("abspath", "realpath", "normpath", "fspath", "str", "Path", "PurePath"):
                return posixpath.normpath(a[0]) if d != "str" else a[0]
            if d in ("resolve", "absolute", "as_posix"):
                return ev(n.func.value)
        raise KeyError(ast.dump(n)[:60])
    try:
        for s in fn.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = ev(s.value)
            elif isinstance(s, ast.Return):
                return posixpath.normpath(ev(s.value))
            elif not isinstance(s, (ast.Import, ast.ImportFrom, ast.Expr, ast.Pass)):
                return None
    except Exception:
        return None
    return None


norm = lambda s: re.sub(r"[-_.]+", "-", s).lower()


@prop("C30", "The lists of the build description are evaluated (strings, joins, concatenations, loops) and closed under what the listed files ask for: "
      "every import statement of an installed module that names a module of the package must name an installed source or extension module and names "
      "defined in it; modules imported when the package is imported must belong to the standard library or to the declared dependencies; every "
      "project header included, directly or not, by an installed header must be installed; every listed file must exist; the include directory the "
      "package reports and the distribution name it looks itself up under must be the installed ones.",
      tech="custom query: closure of import and include graphs over the evaluated build lists")
def c30(ck):
    path = os.path.join(SRC, "meson.build")
    if not os.path.exists(path):
        raise Anchor("src/primate/meson.build")
    m = Meson(open(path).read())
    inst, exts, bad = {}, set(), False     # installed name -> source file, both relative
    for c in m.calls:
        base = c.name.split(".")[-1]
        if base == "install_sources":
            sub = c.kw.get("subdir", "")
            for f in flat(c.args):
                if not isinstance(f, str) or not isinstance(sub, str):
                    bad = True
                    continue
                inst[posixpath.normpath(posixpath.join(sub, os.path.basename(f)))] = f
        elif base == "extension_module":
            n = next(iter(flat(c.args[:1])), None)
            if not isinstance(n, str):
                bad = True
                continue
            if c.kw.get("install") is not False:
                exts.add(posixpath.normpath(posixpath.join(c.kw.get("subdir") or "", n)))
            for f in flat(c.args[1:]):
                if isinstance(f, str):
                    ck.require("listed-file-exists", f"src/primate/{f}", os.path.exists(os.path.join(SRC, f)), f"source of the extension module {n}")
        elif base in ("install_headers", "install_subdir", "configure_file", "custom_target"):
            bad = True
    if bad or not inst:
        ck.undecided("listed-file-exists", "src/primate/meson.build", "a list of the build description could not be evaluated")
        if not inst:
            return
    lenient = bad
    say = ck.undecided if lenient else ck.bad
    for n, f in sorted(inst.items()):
        ck.require("listed-file-exists", f"src/primate/{f}", os.path.exists(os.path.join(SRC, f)), f"installed as {n}")
    # ---- python modules
    mods = {posixpath.splitext(n)[0]: f for n, f in inst.items() if n.endswith(".py")}
    have = set(mods) | exts
    pack = "primate"
    for f in sorted(os.listdir(SRC)):
        if f.endswith(".py"):
            ck.funcs.add(f)
    pp = os.path.join(REPO, "pyproject.toml")
    proj = tomllib.load(open(pp, "rb")).get("project", {}) if os.path.exists(pp) else {}
    deps = {norm(re.split(r"[ ;<>=!~\[(]", d.strip())[0]) for d in proj.get("dependencies", [])}
    names = {}

    def defined(mod):
        if mod not in names:
            f = mods.get(mod)
            p = os.path.join(SRC, f) if f else None
            names[mod] = top_names(ast.parse(open(p).read())) if p and os.path.exists(p) else None
        return names[mod]

    def module(mod, where, asked):
        ok = mod in have or (mod == pack and pack + "/__init__" in have)
        if ok:
            ck.ok("imported-module-installed", f"{where} imports {asked}")
        else:
            say("imported-module-installed", f"{where} imports {asked}", "not among the installed modules")
        return ok
    for mod, f in sorted(mods.items()):
        p = os.path.join(SRC, f)
        if not os.path.exists(p):
            continue
        where = f"src/primate/{f}"
        tree = ast.parse(open(p).read())
        here = posixpath.dirname(mod)
        for n, guarded, deferred in imports(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    parts = a.name.split(".")
                    if parts[0] == pack:
                        module("/".join(parts), where, a.name)
                    elif not guarded and not deferred:
                        ck.require("dependency-declared", f"{where} imports {parts[0]}", parts[0] in sys.stdlib_module_names or norm(parts[0]) in deps or not deps, "not in the standard library nor among the dependencies")
                continue
            if n.level:
                base = here
                for _ in range(n.level - 1):
                    base = posixpath.dirname(base)
                target = posixpath.join(base, *(n.module.split(".") if n.module else []))
            else:
                parts = (n.module or "").split(".")
                if parts[0] != pack:
                    if not guarded and not deferred:
                        ck.require("dependency-declared", f"{where} imports {parts[0]}", parts[0] in sys.stdlib_module_names or norm(parts[0]) in deps or not deps, "not in the standard library nor among the dependencies")
                    continue
                target = "/".join(parts)
            asked = "." * n.level + (n.module or "")
            if target == pack:
                known = defined(pack + "/__init__") or set()
                for a in n.names:
                    if a.name != "*" and a.name not in known:
                        module(posixpath.join(pack, a.name), where, asked + (" " if n.module else "") + a.name)
                continue
            if not module(target, where, asked):
                continue
            known = defined(target)
            if known is None or "__getattr__" in known:
                continue
            for a in n.names:
                ck.require("imported-name-defined", f"{where} imports {a.name} from {asked}", a.name == "*" or a.name in known or posixpath.join(target, a.name) in have, "not defined there")
    # ---- headers
    hdirs = {posixpath.dirname(n) for n in inst if n.endswith((".h", ".hpp"))}
    local = {}
    for root, _d, fs in os.walk(os.path.join(SRC, "include")):
        for x in fs:
            local[posixpath.relpath(os.path.join(root, x), os.path.join(SRC, "include"))] = os.path.join(root, x)
    headers = {n: f for n, f in inst.items() if n.endswith((".h", ".hpp"))}
    todo = [(n, os.path.join(SRC, f)) for n, f in sorted(headers.items())]
    seen = set()
    while todo:
        n, p = todo.pop()
        if p in seen or not os.path.exists(p):
            continue
        seen.add(p)
        for inc in includes(p):
            near = posixpath.normpath(posixpath.relpath(os.path.join(os.path.dirname(p), inc), os.path.join(SRC, "include")))
            key = near if near in local else inc if inc in local else None
            if key is None:
                continue
            want = {posixpath.normpath(posixpath.join(d, key)) for d in hdirs}
            c = f"{posixpath.relpath(p, REPO)} includes {inc}"
            if want & set(headers):
                ck.ok("included-header-installed", c)
            else:
                say("included-header-installed", c, "reachable from an installed header, not installed itself")
            todo.append((next(iter(want)), local[key]))
    for f in sorted(x for x in os.listdir(SRC) if x.endswith((".cpp", ".cc", ".cxx"))):
        for inc in includes(os.path.join(SRC, f)):
            if inc.endswith((".h", ".hpp")) and "/" not in inc and any(re.search(rf'"{re.escape(inc)}"', l) for l in open(os.path.join(SRC, f)) if "include" in l and not l.lstrip().startswith("//")):
                ck.require("listed-file-exists", f"src/primate/{f} includes {inc}", inc in local or os.path.exists(os.path.join(SRC, inc)), "no such header")
    # ---- what the package says about its installation
    ini = os.path.join(SRC, "__init__.py")
    if pack + "/__init__" in mods and os.path.exists(ini):
        tree = ast.parse(open(ini).read())
        for fn in tree.body:
            if isinstance(fn, ast.FunctionDef) and fn.name == "get_include":
                got = folded(fn, "/site/primate/__init__.py")
                if got is None:
                    ck.undecided("include-directory", "primate.get_include", "not a constant path")
                else:
                    ck.require("include-directory", "primate.get_include", got in {"/site/" + d for d in hdirs} or not hdirs, f"{got}, while the headers are installed in {sorted(hdirs)}")
    for mod, f in sorted(mods.items()):
        p = os.path.join(SRC, f)
        for n in ast.walk(ast.parse(open(p).read())) if os.path.exists(p) else ():
            if isinstance(n, ast.Call) and ast.unparse(n.func).endswith("metadata.version") and n.args and isinstance(n.args[0], ast.Constant) and proj.get("name"):
                ck.require("distribution-name", f"src/primate/{f}", norm(str(n.args[0].value)) == norm(proj["name"]), f"looks up {n.args[0].value!r}; the distribution is {proj['name']!r}")
