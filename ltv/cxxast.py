"""Extraction: runs clang on the real source text in /repo and keeps the AST of every
declaration that is written in a /repo file (functions, methods, template instantiations).
Nothing is rewritten: the VC generator walks this AST directly.

What extraction drops: source ranges other than line numbers, comments, and every
declaration that is not written in /repo (the standard library, ICU, libxml2); calls into
those are handled by the trusted models in stl.py or make the function `out of reach`."""
import json, os, re, subprocess, sys, hashlib, pickle

REPO = os.environ.get("LTV_REPO", "/repo")
INCS = ["-I/usr/include/libxml2", "-I/usr/include/utf8cpp", "-I" + REPO, "-I" + REPO + "/lttoolbox"]
DEFS = ["-DHAVE_DECL_FGETC_UNLOCKED", "-DHAVE_DECL_FMEMOPEN", "-DHAVE_DECL_FPUTC_UNLOCKED",
        "-DHAVE_DECL_FPUTS_UNLOCKED", "-DHAVE_DECL_FREAD_UNLOCKED", "-DHAVE_DECL_FWRITE_UNLOCKED",
        "-DHAVE_GETOPT_LONG", '-DPACKAGE_VERSION="3.8.4"', "-D_GNU_SOURCE",
        "-D_POSIX_C_SOURCE=200112", "-DNDEBUG"]
KINDS = {"CXXRecordDecl", "ClassTemplateDecl", "FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl",
         "CXXDestructorDecl", "FunctionTemplateDecl", "NamespaceDecl", "VarDecl", "TypedefDecl",
         "TypeAliasDecl", "CXXConversionDecl", "EnumDecl", "ClassTemplatePartialSpecializationDecl",
         "ClassTemplateSpecializationDecl", "LinkageSpecDecl"}


class ExtractError(Exception):
    pass


def dump(src, extra=()):
    """AST (list of top-level decl dicts from /repo files) of one translation unit."""
    cmd = ["clang++", "-std=c++23"] + DEFS + INCS + list(extra) + \
          ["-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", src]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         bufsize=1 << 20, errors="replace")
    out, buf, keep, first = [], None, False, False
    lastfile, prev, dfile = "", "", ""
    srcdir = os.path.dirname(os.path.abspath(src))
    for line in p.stdout:
        s = line.lstrip()
        if s.startswith('"file": "') and not prev.startswith('"includedFrom"'):
            lastfile = s[9:].rstrip().rstrip(',').rstrip('"')
            if buf is not None and not first:
                pass
        ind = len(line) - len(s)
        if ind == 4 and s[0] == '{':
            buf = [line]; keep = None
        elif ind == 4 and s[0] == '}' and buf is not None:
            if keep:
                buf.append("}")
                out.append(json.loads("".join(buf)))
                out[-1]["_file"] = dfile
            buf = None; keep = None
        elif buf is not None and keep is not False:
            buf.append(line)
            if keep is None and ind == 6:
                # decide once the loc object has been read
                if s.startswith('}') or s.startswith('"range"'):
                    keep = lastfile.startswith(REPO + "/") or lastfile.startswith(srcdir + "/")
                    dfile = lastfile
                    if not keep:
                        buf = []
        prev = s
    err = p.stderr.read()
    if p.wait() != 0:
        raise ExtractError("clang rejects %s: %s" % (src, err[-2000:]))
    return out


def inner(n):
    return n.get("inner") or []


class TU:
    """All functions and records of one translation unit, indexed."""

    def __init__(self, src, extra=()):
        self.src = src
        self.tops = dump(src, extra)
        self.funcs = {}      # qualified name -> list of FunctionDecl nodes with a body
        self.records = {}    # class name -> record node (definition)
        self.byid = {}
        self.enums = {}
        self.aliases = {}
        self.globals = {}
        self.parent = {}
        for d in self.tops:
            self.curfile = d.get("_file")
            self._walk(d, [])
        for fs in self.funcs.values():
            for f in fs:
                f["_tu"] = self

    def _index(self, d):
        if "id" in d:
            self.byid[d["id"]] = d

    def _targs(self, d):
        a = []
        for i in inner(d):
            if i.get("kind") == "TemplateArgument":
                if "type" in i:
                    a.append(i["type"]["qualType"])
                elif "value" in i:
                    a.append(str(i["value"]))
        return a

    @property
    def short(self):
        """unqualified name -> qualified name, for nested records with a unique short name"""
        if getattr(self, "_short", None) is None:
            m = {}
            for q in self.records:
                if "<" not in q and "::" in q:
                    m.setdefault(q.split("::")[-1], []).append(q)
            self._short = {k: v[0] for k, v in m.items() if len(v) == 1}
        return self._short

    def _walk(self, d, ctx):
        k = d.get("kind")
        self._index(d)
        if k in ("NamespaceDecl", "LinkageSpecDecl"):
            c = ctx + ([d["name"]] if d.get("name") else [])
            for i in inner(d):
                self._walk(i, c)
        elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            nm = d.get("name", "")
            if k == "ClassTemplateSpecializationDecl":
                nm += "<" + ",".join(self._targs(d)) + ">"
            c = ctx + [nm]
            if d.get("completeDefinition"):
                self.records["::".join(c)] = d
            d["_qname"] = "::".join(c)
            for i in inner(d):
                self._walk(i, c)
        elif k in ("ClassTemplateDecl",):
            for i in inner(d):
                if i.get("kind") in ("ClassTemplateSpecializationDecl",):
                    self._walk(i, ctx)
        elif k == "FunctionTemplateDecl":
            n = 0
            for i in inner(d):
                if i.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                    n += 1
                    if n == 1 and not self._targs(i):
                        self._index(i)
                        continue        # the uninstantiated pattern
                    self._walk(i, ctx)
        elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl",
                   "CXXConversionDecl"):
            par = d.get("parentDeclContextId")
            c = ctx
            if par and par in self.byid and not ctx:
                c = (self.byid[par].get("_qname") or self.byid[par].get("name", "")).split("::")
            q = "::".join(c + [d.get("name", "")])
            d["_qname"] = q
            d["_class"] = "::".join(c)
            d["_file"] = self.curfile
            if any(i.get("kind") == "CompoundStmt" for i in inner(d)):
                self.funcs.setdefault(q, []).append(d)
            # link declaration -> definition
            pv = d.get("previousDecl")
            if pv:
                self.parent[pv] = d["id"]
        elif k == "EnumDecl":
            val = 0
            for i in inner(d):
                if i.get("kind") == "EnumConstantDecl":
                    self._index(i)
                    v = None
                    for j in inner(i):
                        if "value" in j:
                            v = int(j["value"])
                        else:
                            for jj in inner(j):
                                if "value" in jj:
                                    v = int(jj["value"])
                    if v is not None:
                        val = v
                    self.enums[i["id"]] = val
                    i["_val"] = val
                    val += 1
        elif k in ("TypedefDecl", "TypeAliasDecl"):
            t = d.get("type", {})
            self.aliases["::".join(ctx + [d["name"]])] = t.get("desugaredQualType") or t.get("qualType")
        elif k == "VarDecl":
            self.globals["::".join(ctx + [d.get("name", "")])] = d


_src = {}


def text(f, n):
    """source text of node n inside function f"""
    p = f.get("_file")
    if p not in _src:
        _src[p] = open(p, "rb").read()
    r = n["range"]
    if "offset" not in r.get("begin", {}) or "offset" not in r.get("end", {}):
        return ""
    return _src[p][r["begin"]["offset"]:r["end"]["offset"] + r["end"]["tokLen"]].decode("utf8", "replace")


_cache = {}


def tu(name, extra=()):
    key = (name, tuple(extra))
    if key not in _cache:
        src = name if name.startswith("/") else os.path.join(REPO, "lttoolbox", name)
        _cache[key] = TU(src, extra)
    return _cache[key]


if __name__ == "__main__":
    import time
    t = time.time()
    T = tu(sys.argv[1])
    print("%.1fs" % (time.time() - t), len(T.tops), "tops")
    for q in sorted(T.funcs):
        for f in T.funcs[q]:
            print(q, f["type"]["qualType"], f.get("loc", {}).get("line"))
