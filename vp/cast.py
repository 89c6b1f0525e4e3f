"""clang AST front end: parses the real translation units and indexes functions."""
import json, os, subprocess, hashlib, re, tempfile

REPO = os.environ.get("VP_REPO", "/repo")

class TU:
    def __init__(self, name, text):
        self.name = name
        self.decl = {}          # id -> decl node
        self.parent = {}        # id -> parent class/namespace decl (for decls)
        self.func = {}          # mangled -> definition node
        self.ptext = text

DECLS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl",
         "VarDecl", "FieldDecl", "ParmVarDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl",
         "EnumDecl", "EnumConstantDecl", "NamespaceDecl", "FunctionTemplateDecl", "ClassTemplateDecl")
FUNCS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")

class FrontEndError(Exception):
    pass

def clang_json(src_text, flags=()):
    d = tempfile.mkdtemp(prefix="vpast")
    try:
        p = os.path.join(d, "tu.cpp")
        with open(p, "w") as f:
            f.write(src_text)
        cmd = ["clang++", "-std=c++11", "-DNDEBUG", "-I", REPO + "/Source", "-fsyntax-only", "-w",
               "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=mvlt", *flags, p]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise FrontEndError("clang: " + r.stderr.decode()[:2000])
        return r.stdout.decode()
    finally:
        import shutil
        shutil.rmtree(d)

def split_docs(s):
    dec = json.JSONDecoder()
    i, n = 0, len(s)
    while i < n:
        while i < n and s[i] in " \r\n\t":
            i += 1
        if i >= n:
            break
        if s[i] != "{":
            j = s.find("\n", i)
            i = n if j < 0 else j
            continue
        o, i = dec.raw_decode(s, i)
        yield o

def has_body(n):
    return any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", []))

def load(src_text, name="tu", flags=()):
    tu = TU(name, src_text)
    for doc in split_docs(clang_json(src_text, flags)):
        index(tu, doc, None, set())
    return tu

def index(tu, n, parent, seen):
    k = n.get("kind")
    if k in DECLS:
        i = n.get("id")
        old = tu.decl.get(i)
        if old is None or len(json_inner(n)) >= len(json_inner(old)):
            tu.decl[i] = n
        if parent is not None and i not in tu.parent:
            tu.parent[i] = parent
        if k in FUNCS and "mangledName" in n and has_body(n):
            tu.func.setdefault(n["mangledName"], n)
        np = n if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "NamespaceDecl", "EnumDecl") + FUNCS else parent
    else:
        np = parent
    for c in n.get("inner", ()):
        if isinstance(c, dict) and c:
            index(tu, c, np, seen)
    if k == "CXXForRangeStmt" or k == "LambdaExpr":
        pass

def json_inner(n):
    return n.get("inner", ())

_dem = {}
def demangle(names):
    todo = [x for x in names if x not in _dem]
    if todo:
        r = subprocess.run(["c++filt"], input="\n".join(todo).encode(), stdout=subprocess.PIPE)
        for a, b in zip(todo, r.stdout.decode().split("\n")):
            _dem[a] = b
    return {x: _dem[x] for x in names}

# ---------------------------------------------------------------- types
class CT:
    """A parsed C++ type."""
    __slots__ = ("name", "args", "ptr", "ref", "const", "_s")
    def __init__(self, name, args=(), ptr=0, ref=False, const=False):
        self.name, self.args, self.ptr, self.ref, self.const = name, tuple(args), ptr, ref, const
        self._s = None
    def __str__(self):
        if self._s is None:
            s = self.name
            if self.args:
                s += "<" + ", ".join(map(str, self.args)) + ">"
            self._s = s + "*" * self.ptr
        return self._s
    __repr__ = __str__
    def __eq__(self, o):
        return isinstance(o, CT) and str(self) == str(o)
    def __hash__(self):
        return hash(str(self))
    def deref(self):
        assert self.ptr > 0, self
        return CT(self.name, self.args, self.ptr - 1)
    def addr(self):
        return CT(self.name, self.args, self.ptr + 1)
    def plain(self):
        return CT(self.name, self.args, self.ptr)

_tok = re.compile(r"\s*(\(anonymous [^)]*\)|\(lambda at [^)]*\)|[A-Za-z_$][\w$]*|::|&&|[<>,*&()\[\]]|\d+\w*|\.\.\.|'.'|-\d+|.)")

def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = _tok.match(s, i)
        if not m:
            break
        t = m.group(1)
        i = m.end()
        if t.strip():
            out.append(t)
    return out

_tcache = {}
def parse_type(s):
    r = _tcache.get(s)
    if r is None:
        t = tokens(s)
        r, i = _ptype(t, 0)
        _tcache[s] = r
    return r

_skip = {"const", "volatile", "class", "struct", "enum", "typename"}
def _ptype(t, i):
    parts, args = [], ()
    ptr, ref = 0, False
    const = False
    builtin = []
    while i < len(t):
        x = t[i]
        if x in _skip:
            if x == "const":
                const = True
            i += 1
            continue
        if x in ("unsigned", "signed", "long", "short", "int", "char", "double") :
            builtin.append(x)
            i += 1
            continue
        if x == "<":
            args = []
            i += 1
            while t[i] != ">":
                a, i = _ptype(t, i)
                args.append(a)
                if t[i] == ",":
                    i += 1
            i += 1
            continue
        if x == "::":
            if args:
                # nested name after template args: keep as name<..>::sub
                parts.append("<>")
                parts.append("::")
            else:
                parts.append("::")
            i += 1
            continue
        if x == "*":
            ptr += 1; i += 1; continue
        if x in ("&", "&&"):
            ref = True; i += 1; continue
        if x == "[":
            n = ""
            j = i + 1
            while t[j] != "]":
                n += t[j]; j += 1
            i = j + 1
            nm = "".join(parts) or " ".join(builtin)
            base = CT(norm(nm), args, ptr)
            return CT("[]", (base, CT(n))), i
        if x == "(":
            # function type
            depth = 1
            j = i + 1
            while depth:
                if t[j] == "(": depth += 1
                if t[j] == ")": depth -= 1
                j += 1
            inner = t[i + 1:j - 1]
            nm = "".join(parts) or " ".join(builtin)
            if inner in (["*"], ["&"], ["*", "&"], ["*", "const", "&"], ["*", "&&"]):
                # pointer to function
                k = j
                depth = 0
                while k < len(t):
                    if t[k] == "(": depth += 1
                    if t[k] == ")":
                        depth -= 1
                        if depth == 0:
                            k += 1
                            break
                    k += 1
                return CT("fnptr", (CT(norm(nm), args, ptr),)), k
            while j < len(t) and t[j] in ("const", "noexcept"):
                j += 1
            ar = []
            q = 0
            while q < len(inner):
                a, q = _ptype(inner, q)
                ar.append(a)
                if q < len(inner) and inner[q] == ",":
                    q += 1
                elif q < len(inner):
                    break
            return CT("fn", (CT(norm(nm), args, ptr), *ar)), j
        if x in (">", ",", ")", "]"):
            break
        parts.append(x)
        i += 1
    nm = "".join(parts)
    if builtin and not parts:
        nm = " ".join(builtin)
    return CT(norm(nm), args, ptr, ref, const), i

INTS = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
        "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
        "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False)}
_alias = {"std::nullptr_t": "nullptr_t", "std::size_t": "unsigned long", "size_t": "unsigned long", "std::int8_t": "signed char", "int8_t": "signed char",
          "uint8_t": "unsigned char", "std::uint8_t": "unsigned char", "int16_t": "short", "std::int16_t": "short",
          "uint16_t": "unsigned short", "std::uint16_t": "unsigned short", "int32_t": "int", "std::int32_t": "int",
          "uint32_t": "unsigned int", "std::uint32_t": "unsigned int", "int64_t": "long", "std::int64_t": "long",
          "uint64_t": "unsigned long", "std::uint64_t": "unsigned long", "std::streamsize": "long",
          "unsigned": "unsigned int", "short int": "short", "unsigned short int": "unsigned short", "long int": "long",
          "unsigned long int": "unsigned long", "long long int": "long long",
          "string": "std::string", "std::__cxx11::string": "std::string"}
_std = {"reverse_iterator", "_Rb_tree_iterator", "_Rb_tree_const_iterator", "_Node_iterator", "_Node_const_iterator", "pair", "vector", "map", "multimap",
        "set", "unordered_map", "unordered_multimap", "unordered_set", "list", "function", "_List_iterator", "_List_const_iterator"}
def norm(n):
    n = n.replace("std::__cxx11::", "std::").replace("std::__1::", "std::").replace("__detail::", "").replace("__cxx11::", "")
    if n in _std:
        n = "std::" + n
    if n.startswith("mvlt::"):
        n = n[6:]
    return _alias.get(n, n)

def ctype(node):
    t = node.get("type")
    if t is None:
        return CT("void")
    s = t.get("desugaredQualType") or t.get("qualType")
    return canon(parse_type(s))

def iter_of(base, args):
    """iterator of a library container"""
    b = base.split("::")[-1]
    if b in ("map", "multimap"):
        return CT("std::tree_iterator", (CT("std::pair", args[:2]),))
    if b in ("unordered_map", "unordered_multimap"):
        return CT("std::hash_iterator", (CT("std::pair", args[:2]),))
    if b in ("set", "multiset"):
        return CT("std::tree_iterator", args[:1])
    if b == "unordered_set":
        return CT("std::hash_iterator", args[:1])
    if b in ("list", "vector"):
        return CT("std::%s_iterator" % b, args[:1])
    return None

_iters = {"std::_Rb_tree_iterator": "std::tree_iterator", "std::_Rb_tree_const_iterator": "std::tree_iterator", "std::_Node_iterator": "std::hash_iterator",
          "std::_Node_const_iterator": "std::hash_iterator", "std::_List_iterator": "std::list_iterator", "std::_List_const_iterator": "std::list_iterator",
          "__gnu_cxx::__normal_iterator": "std::vector_iterator"}

def canon(c):
    if c.ptr:
        d = canon(CT(c.name, c.args))
        return CT(d.name, d.args, c.ptr + d.ptr, c.ref, c.const)
    if c.name in ("MapIterator", "UnorderedMapIterator", "ReverseMapIterator") and len(c.args) == 2:
        # aliases of Map.h inside template arguments, which clang prints as written
        it = iter_of("unordered_map" if c.name[0] == "U" else "map", [canon(x) for x in c.args])
        if c.name[0] == "R":
            it = CT("std::reverse_iterator", (it,))
        return CT("AllMapIterator", (it, it) + tuple(canon(x) for x in c.args), c.ptr, c.ref, c.const)
    if c.name in _iters and c.args:
        a = c.args[:1]
        if c.name == "__gnu_cxx::__normal_iterator":
            a = (c.args[0].deref() if c.args[0].ptr else c.args[0],)
        return CT(_iters[c.name], [canon(x) for x in a], c.ptr, c.ref, c.const)
    if c.name.endswith("<>::iterator") or c.name.endswith("<>::const_iterator"):
        r = iter_of(c.name[:c.name.index("<>")], [canon(x) for x in c.args])
        if r is not None:
            return r
    if c.name.endswith("<>::reverse_iterator"):
        r = iter_of(c.name[:c.name.index("<>")], [canon(x) for x in c.args])
        if r is not None:
            return CT("std::reverse_iterator", (r,))
    if c.name in ("std::basic_string",):
        return CT("std::string", (), c.ptr, c.ref, c.const)
    if c.args:
        a = [canon(x) for x in c.args]
        # drop defaulted template arguments (allocators, hashes, comparators)
        if c.name.startswith("std::"):
            a = [x for x in a if x.name not in ("std::allocator", "std::hash", "std::equal_to", "std::less", "std::char_traits")]
        return CT(c.name, a, c.ptr, c.ref, c.const)
    return c
