"""C++ type strings (as printed by clang) -> small type terms -> SMT sorts."""
import re
import z3


class T:
    __slots__ = ("k", "name", "args", "bits", "signed", "_r")

    def __init__(self, k, name="", args=(), bits=0, signed=False):
        self.k, self.name, self.args, self.bits, self.signed = k, name, tuple(args), bits, signed
        self._r = None

    def __repr__(self):
        if self._r is None:
            if self.k == "int":
                r = ("i" if self.signed else "u") + str(self.bits)
            elif self.k in ("bool", "double", "void"):
                r = self.k
            elif self.args:
                r = self.k + ("_" + self.name if self.name else "") + "<" + ",".join(map(repr, self.args)) + ">"
            else:
                r = self.k + ("_" + self.name if self.name else "")
            self._r = r
        return self._r

    def __eq__(self, o):
        return isinstance(o, T) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))

    @property
    def rng(self):
        if self.signed:
            return -(1 << (self.bits - 1)), (1 << (self.bits - 1)) - 1
        return 0, (1 << self.bits) - 1

    def deref(self):
        return self.args[0] if self.k == "ref" else self


def I(b, s):
    return T("int", bits=b, signed=s)


BASIC = {
    "void": T("void"), "bool": T("bool"), "double": T("double"), "float": T("double"), "long double": T("double"),
    "char": I(8, True), "signed char": I(8, True), "unsigned char": I(8, False),
    "short": I(16, True), "unsigned short": I(16, False), "int": I(32, True), "unsigned int": I(32, False),
    "unsigned": I(32, False), "long": I(64, True), "unsigned long": I(64, False), "long long": I(64, True),
    "unsigned long long": I(64, False), "char16_t": I(16, False), "char32_t": I(32, False),
    "wchar_t": I(32, True), "int8_t": I(8, True), "uint8_t": I(8, False), "int16_t": I(16, True),
    "uint16_t": I(16, False), "int32_t": I(32, True), "uint32_t": I(32, False), "int64_t": I(64, True),
    "uint64_t": I(64, False), "size_t": I(64, False), "size_type": I(64, False), "UChar": I(16, False),
    "UChar32": I(32, True), "UBool": I(8, True), "ptrdiff_t": I(64, True), "difference_type": I(64, True),
    "nullptr_t": T("ptr", args=(T("void"),)), "streamsize": I(64, True),
}
USTR = T("vec", "ustr", (I(16, False),))
ARITY = {"map": ("map", 2), "multimap": ("mmap", 2), "unordered_map": ("map", 2), "set": ("set", 1),
         "unordered_set": ("set", 1), "vector": ("vec", 1), "list": ("vec", 1), "deque": ("vec", 1), "queue": ("vec", 1),
         "pair": ("pair", 2), "basic_string": ("vec", 1), "basic_string_view": ("vec", 1),
         "initializer_list": ("vec", 1)}


class TypeErr(Exception):
    pass


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_pc = {}
SVEC = True      # clients see sorted_vector<T> through its contracts (S12): a set with ordered iteration


def parse(s, aliases=None):
    s0 = (s, SVEC)
    if s0 in _pc:
        return _pc[s0]
    t = _parse(s, aliases or {})
    _pc[s0] = t
    return t


def _parse(s, al):
    s = s.strip()
    s = re.sub(r"\b(class|struct|enum|typename)\s+", "", s)
    while True:
        o = s
        s = s.strip()
        if s.startswith("const "):
            s = s[6:]
        if s.endswith(" const"):
            s = s[:-6]
        if s.startswith("volatile "):
            s = s[9:]
        if s == o:
            break
    if s.endswith("&&"):
        return T("ref", args=(_parse(s[:-2], al),))
    if s.endswith("&"):
        return T("ref", args=(_parse(s[:-1], al),))
    if s.endswith("*const"):
        s = s[:-5]
    if s.endswith("*"):
        return T("ptr", args=(_parse(s[:-1], al),))
    m = re.match(r"^(.*)\[(\d*)\]$", s)
    if m:
        return T("vec", args=(_parse(m.group(1), al),))
    s = s.replace("std::__cxx11::", "").replace("std::", "").replace("icu_74::", "").replace("icu::", "")
    s = s.replace("__cxx11::", "")
    if s in BASIC:
        return BASIC[s]
    if s in ("UString", "UStringView", "string", "u16string", "basic_string<char16_t>", "basic_string_view<char16_t>"):
        return USTR if s != "string" else T("vec", args=(I(8, True),))
    if "iterator" in s and not s.endswith(">") or re.match(r"^(_Rb_tree|__gnu_cxx::__normal|reverse_iterator|_List_|_Deque_|__detail::_Node)", s):
        return T("iter")
    m = re.match(r"^([\w:]+)\s*<(.*)>$", s)
    if m:
        nm = m.group(1)
        if nm in ARITY:
            k, n = ARITY[nm]
            a = [_parse(x, al) for x in split_args(m.group(2))[:n]]
            if k == "vec" and nm.startswith("basic_string") and a[0] == I(16, False):
                return USTR
            if nm == "unordered_map" or nm == "unordered_set":
                return T(k, "", a)
            return T(k, "", a)
        if nm == "sorted_vector" and SVEC:
            return T("set", "", [_parse(split_args(m.group(2))[0], al)])
        if nm in ("basic_ostream", "basic_istream", "basic_ostringstream", "basic_stringstream", "basic_istringstream"):
            return T("stream", "io")
        if nm == "tuple":
            return T("tuple", "", [_parse(x, al) for x in split_args(m.group(2))])
        if nm == "less":
            return T("less", "", [_parse(split_args(m.group(2))[0], al)])
        if "iterator" in nm:
            return T("iter")
        return T("rec", nm + "<" + ",".join(x.strip() for x in split_args(m.group(2))) + ">")
    if s in ("ostream", "istream", "FILE", "_IO_FILE", "__ostream_type", "__istream_type", "stringstream", "ostringstream", "istringstream", "UFILE"):
        return T("stream", "io")
    if s in al and al[s] and al[s] != s:
        return _parse(al[s], al)
    if "(" in s:
        return T("fun")
    return T("rec", s)


def mangle(t):
    return re.sub(r"[^A-Za-z0-9]+", "_", repr(t)).strip("_")
