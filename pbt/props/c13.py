"""C13: the argument language of #[pin_project], decided by a reference parser."""
import itertools
from ..core import case, prog
from ..items import *

LEVEL = "exploration"
CASES = {"quick": 5000, "thorough": 40000}
RULE = ("A case is an argument list (a valid one with up to three random mutations: duplicated, conflicting, unknown or malformed arguments, clashing names, punctuation, delimiters) on "
        "a struct or enum. A reference parser of the documented grammar decides whether it must be accepted; accepted lists are also compiled in another order, with code that uses "
        "everything requested (names, methods, Unpin mode, pinned drop). All lists of up to 2 (thorough: 3) well-formed arguments are enumerated besides. "
        "Non-trivial: at least one argument.")
NAMES = ["P", "R", "O", "Proj", "r#fn", "r#type", "P2", "S", "lower", "É"]


# ------------------------------------------------------------------ reference parser
TOK = re.compile(r"\s*(r#[^\W\d]\w*|[^\W\d]\w*|\"[^\"]*\"|'[^\W\d]\w*|\d+|::|[^\s])", re.UNICODE)
KEYWORDS = {"as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self",
            "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "_"}


def tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        out.append(m.group(1))
        i = m.end()
        while i < len(s) and s[i].isspace():
            i += 1
    return out


def is_ident(t):
    return re.fullmatch(r"(r#)?[^\W\d]\w*", t) is not None and t not in KEYWORDS


def reference(s, kind, name="S"):
    """None if the list is invalid, else what was requested."""
    t = tokens(s)
    r = {}
    i = 0
    while i < len(t):
        a = t[i]
        if a in ("project", "project_ref"):
            if i + 2 >= len(t) + 0 and i + 2 > len(t) - 1:
                return None
            if t[i + 1] != "=" or not is_ident(t[i + 2]):
                return None
            if a in r:
                return None
            r[a] = t[i + 2]
            i += 3
        elif a == "project_replace":
            if a in r:
                return None
            if i + 1 < len(t) and t[i + 1] == "=":
                if i + 2 >= len(t) or not is_ident(t[i + 2]):
                    return None
                r[a] = t[i + 2]
                i += 3
            else:
                r[a] = True
                i += 1
        elif a == "PinnedDrop":
            if "pinned_drop" in r:
                return None
            r["pinned_drop"] = True
            i += 1
        elif a == "UnsafeUnpin":
            if "unpin" in r:
                return None
            r["unpin"] = a
            i += 1
        elif a == "!":
            if i + 1 >= len(t) or t[i + 1] != "Unpin" or "unpin" in r:
                return None
            r["unpin"] = "!Unpin"
            i += 2
        else:
            return None
        if i < len(t):
            if t[i] != ",":
                return None
            i += 1
    if "pinned_drop" in r and "project_replace" in r:
        return None
    ns = [x for k, x in r.items() if k.startswith("project") and isinstance(x, str)]
    if len(set(ns)) != len(ns) or name in ns:
        return None
    if kind == "enum" and r.get("project_replace") is True:
        return None
    return r


# ------------------------------------------------------------------ programs
def program(args, kind, r, shape, delim="()", pd=None):
    d = {"()": f"({args})", "[]": f"[{args}]", "{}": f" {{ {args} }}", "none": ""}[delim]
    attr = f"#[pin_project{d}]"
    if kind == "struct":
        body = "struct S { #[pin] a: u8, b: u16 }" if shape == "named" else "struct S(#[pin] u8, u16);"
    else:
        body = "enum S { A { #[pin] a: u8, b: u16 }, B(#[pin] u8, u16), C }"
    s = f"    {attr}\n    {body}\n"
    if pd if r is None else "pinned_drop" in r:
        s += "    #[pinned_drop] impl PinnedDrop for S { fn drop(self: ::std::pin::Pin<&mut Self>) {} }\n"
    if r is not None:
        u = ""
        for m in ("project", "project_ref", "project_replace"):
            n = r.get(m)
            have = (kind == "struct" and m != "project_replace") or bool(n)
            arg = "x: ::std::pin::Pin<&S>" if m == "project_ref" else "x: ::std::pin::Pin<&mut S>, s: S" if m == "project_replace" else "x: ::std::pin::Pin<&mut S>"
            call = f"x.{m}({'s' if m == 'project_replace' else ''})"
            if have and not isinstance(n, str):
                u += f"    fn use_{m}({arg}) {{ let _ = {call}; }}\n"
            elif have:
                lt = "" if m == "project_replace" else "<'_>"
                u += f"    fn use_{m}({arg}) -> {n}{lt} {{ {call} }}\n"
        up = "true" if "unpin" not in r else "false"
        u += f"    const _: () = assert!(vsut::holds!(S: ::std::marker::Unpin) == {up});\n"
        s += u
    return crate("    use pin_project::{pin_project, pinned_drop};\n" + s)


ELEMS = ["project = P", "project_ref = R", "project_replace", "project_replace = O", "PinnedDrop", "UnsafeUnpin", "!Unpin"]
JUNK = ["Replace", "Unpin", "foo", "project", "project_ref", "project = ", "project(P)", "project = \"P\"", "project = a::B", "project == P", "project: P", "project = P<T>", "project = fn", "project = self",
        "project = _", "project_replace()", "project_replace(O)", "project_replace = ", "PinnedDrop = D", "PinnedDrop()", "PinnedDrop(x)", "UnsafeUnpin = U", "UnsafeUnpin()", "!UnsafeUnpin", "!PinnedDrop",
        "!!Unpin", "! Unpin", "!", "!Unpin()", "pinneddrop", "Project = P", "projection = P", "1", "\"x\"", "=", "= P", "::", "project_mut = P", "project_own = O", "pin", "Self", "project = 'a", "!project",
        "project = P R", "project_ref = R = Q", "UnsafeUnpin !Unpin", "PinnedDrop project = P", "pin_project", "UnpinX", "#[x]", "unsafe", "project = Self", "unpin", "!unpin", "NotUnpin", "no_drop", "project = 1",
        "project_ref", "pinned_drop", "project = r#P3", "drop", "crate = x", "project_replace = r#move", "not(Unpin)", "project = P,", "..", "_"]


def gen_list(g):
    elems = []
    if g.chance(3, 5):
        elems.append("project = " + g.pick(NAMES))
    if g.chance(3, 5):
        elems.append("project_ref = " + g.pick(NAMES[1:] + NAMES[:1]))
    if g.chance(1, 3):
        elems.append(g.pick(["project_replace", "project_replace = " + g.pick(NAMES[2:] + NAMES[:2])]))
    elif g.chance(1, 3):
        elems.append("PinnedDrop")
    if g.chance(1, 3):
        elems.append(g.pick(["UnsafeUnpin", "!Unpin"]))
    elems = g.perm(elems)
    muts = []
    for _ in range(g.weighted([(3, 0), (4, 1), (2, 2), (1, 3)])):
        k = g.pick(["junk", "dup", "conflict", "comma", "nocomma", "leading", "sep", "replace-elem", "clash", "double-sep"])
        muts.append(k)
        if k == "junk":
            elems.insert(g.int(0, len(elems)), g.pick(JUNK))
        elif k == "dup" and elems:
            elems.insert(g.int(0, len(elems)), g.pick(elems))
        elif k == "conflict":
            elems.insert(g.int(0, len(elems)), g.pick(["UnsafeUnpin", "!Unpin", "PinnedDrop", "project_replace", "project_replace = O2", "project = P9", "project_ref = R9"]))
        elif k == "replace-elem" and elems:
            elems[g.int(0, len(elems) - 1)] = g.pick(JUNK)
        elif k == "clash":
            n = g.pick(["S", "P", "R"])
            elems.insert(g.int(0, len(elems)), g.pick(["project = ", "project_ref = ", "project_replace = "]) + n)
    sep = ", "
    s = sep.join(elems)
    if "comma" in muts or g.chance(1, 6):
        s += ","
    if "nocomma" in muts and ", " in s:
        s = s.replace(", ", " ", 1)
    if "leading" in muts:
        s = ", " + s
    if "sep" in muts and ", " in s:
        s = s.replace(", ", g.pick(["; ", " | ", " = ", ": ", " + "]), 1)
    if "double-sep" in muts:
        s = s.replace(", ", ",, ", 1) if ", " in s else s + ",,"
    return s, elems, muts


def make(args, kind, shape, delim, elems=None, perm=None, classes=()):
    r = reference(args, kind)
    cl = set(classes) | {kind, "delim:" + delim, "accept" if r is not None else "reject", f"args:{min(len(elems or []), 5)}"}
    if r is None:
        progs = [prog(program(args, kind, None, shape, delim, pd), expect="fail", name="list", why=f"`{args}` is not a valid argument list for this {kind}")
                 for pd in ([False, True] if "PinnedDrop" in args else [False])]
    else:
        progs = [prog(program(args, kind, r, shape, delim), name="list", why=f"`{args}` is a valid argument list")]
        if perm and len(perm) > 1:
            p2 = ", ".join(perm)
            assert reference(p2, kind) == r or sorted(map(str, reference(p2, kind).items())) == sorted(map(str, r.items()))
            progs.append(prog(program(p2, kind, r, shape, delim), name="permuted", why=f"`{p2}` requests the same as `{args}`"))
    return case(progs, cl, bool(args.strip()), f"{kind} with argument list `{args}`")


def fixed(tier):
    for kind in ("struct", "enum"):
        yield make("", kind, "named", "none")
        for n in range(1, 3 if tier == "quick" else 4):
            for el in itertools.product(ELEMS, repeat=n):
                yield make(", ".join(el), kind, "named", "()", list(el), classes={"enumerated"})
        for j in JUNK:
            yield make(j, kind, "tuple", "()", [j], classes={"enumerated"})


def gen(g, tier):
    s, elems, muts = gen_list(g)
    kind = g.pick(["struct", "enum"])
    delim = g.weighted([(6, "()"), (1, "[]"), (1, "{}")])
    shape = g.pick(["named", "tuple"])
    perm = g.perm(elems) if not muts or set(muts) <= {"comma"} else None
    return make(s, kind, shape, delim, elems, perm, {"mutation:" + m for m in muts})
