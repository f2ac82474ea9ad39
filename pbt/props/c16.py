"""C16: how long projections borrow. Controls that need the full lifetime, mutants that need more than it."""
import copy
from ..core import case, prog
from ..items import *

LEVEL = "exploration"
CASES = {"quick": 900, "thorough": 9000}
RULE = ("A case is a generated definition (lifetimes of any name, generics, unsized tails, reference fields) with generic client code. The control keeps, splits and returns projections and "
        "each projected field for the whole lifetime of the pinned reference, shortens and reborrows them, interleaves projections with other uses once they are dead, and lets the result of "
        "project_replace outlive everything. 3-5 mutants differ by one overlapping use, one longer lifetime or one shorter-lived reference stored, and must be rejected by the borrow checker; "
        "the same mutant without that difference is accepted (audited). Non-trivial: every case.")


def own(item):
    return item.name + item.generics_use()


def gen_decl(item, *first):
    g = item.generics_decl(defaults=False)
    a = list(first) + ([g[1:-1]] if g else [])
    return "<" + ", ".join(a) + ">" if a else ""


def order(decl):
    return decl


def ref(m, lt, f, item):
    t = "(" + subst(getattr(f.ty, "explicit", f.ty.src), {}, own=own(item)) + ")"
    r = f"&{lt} mut {t}" if m == "project" else f"&{lt} {t}"
    return f"Pin<{r}>" if f.pin else r


def pinref(item, m, lt):
    return f"Pin<&{lt} {'mut ' if m == 'project' else ''}{own(item)}>"


def name_args(item, m, lt, over=None):
    over = over or {}
    a = ([lt] if m != "project_replace" else []) + [over.get(p.name, p.name) for p in item.params]
    return f"{item.args[m]}<{', '.join(a)}>" if a else item.args[m]


def field_get(item, m, vi, i):
    """An expression of type Option<field reference> from x."""
    if item.kind == "struct":
        return f"Some(x.{m}().{item.access(i)})"
    v = item.variants[vi]
    n = item.args[m]
    p = f"{n}::{v.name} {{ {v.fields[i].name}: y, .. }}" if v.shape == "named" else f"{n}::{v.name}(" + "_, " * i + "y, ..)"
    return f"if let {p} = x.{m}() {{ Some(y) }} else {{ None }}"


def named(item, m):
    return isinstance(item.args.get(m), str)


def gen(g, tier):
    item = gen_item(g, frags=8, methods=8, replace="maybe", unpin="maybe", pinned_drop="maybe", named=True if g.chance(2, 3) else None, tail=20, no_self_where=True, many=False)
    if item.kind == "struct" and not item.tail and not any("Self: Sized" in x for x in item.where) and not any("Self" in f.ty.src or item.name in f.ty.src for f in item.all_fields()) and g.chance(1, 3):
        # a tail that is unsized as written
        lt = [p.name for p in item.params if p.kind == "lt"]
        t, explicit = g.pick([("dyn Fp", "dyn Fp + 'static"), ("(dyn Fp)", "dyn Fp + 'static"), ("((dyn Send + Fp))", "dyn Fp + Send + 'static"), ("dyn Fp + Send", "dyn Fp + Send + 'static"), ("[Tr]", "[Tr]"), ("str", "str"), ("dyn Fn(&u8) -> &u8", "dyn Fn(&u8) -> &u8 + 'static")]
                             + [(f"dyn Fp + {l}", f"dyn Fp + {l}") for l in lt])
        ty = Ty(t, t, kind="bare-unsized", sized=False)
        ty.explicit = explicit
        item.variants[0].fields.append(Field("tail" if item.variants[0].shape == "named" else None, ty, pin=g.flip()))
        item.tail = ("", "")
        item.args.pop("project_replace", None)
        item.classes |= {"ty:bare-unsized"}
        if not item.frags and "dyn" in t and "'" not in t and g.chance(1, 3):
            item.frags = ("ty", (3 - (len(item.variants[0].fields) - 1) % 3) % 3)   # the tail comes as a fragment
            item.classes.add("fragments:ty")
    if item.kind == "enum" and not item.args.get("project"):
        item.args["project"] = "ZzP"
    o = own(item)
    base = item.render() + (pinned_drop_impl(item) if item.args.get("pinned_drop") else "")
    have = [m for m in ("project", "project_ref") if item.exists(m)]
    repl = item.exists("project_replace")
    w = lambda *x: item.where_str(x)
    G = lambda *first: gen_decl(item, *first)
    c = "    fn touch<T: ?Sized>(_: &T) {}\n"
    flds = [(vi, i, f) for vi, v in enumerate(item.variants) for i, f in enumerate(v.fields)]
    n = [0]

    def fn(sig, ret, body, *bounds, lts=("'zz",)):
        n[0] += 1
        return f"    fn q{n[0]}{G(*lts)}({sig}){' -> ' + ret if ret else ''}{w(*bounds)} {{ {body} }}\n"
    px = {"project": "x.as_mut().project()", "project_ref": "x.as_ref().project_ref()", "project_replace": "x.as_mut().project_replace(v)"}
    # ---------------------------------------------------------------- control
    for m in have:
        for vi, i, f in flds:
            c += fn(f"x: {pinref(item, m, chr(39) + 'zz')}", f"Option<{ref(m, chr(39) + 'zz', f, item)}>", field_get(item, m, vi, i))
        if item.kind == "struct":
            fs = item.variants[0].fields
            rt = "(" + "".join(ref(m, "'zz", f, item) + ", " for f in fs) + ")"
            c += fn(f"x: {pinref(item, m, chr(39) + 'zz')}", rt, f"let p = x.{m}(); (" + "".join(f"p.{item.access(i)}, " for i in range(len(fs))) + ")")
        if named(item, m):
            c += fn(f"x: {pinref(item, m, chr(39) + 'zz')}", name_args(item, m, "'zz"), f"x.{m}()")
            c += fn(f"p: {name_args(item, m, chr(39) + 'll')}", name_args(item, m, "'zz"), "p", lts=("'zz", "'ll: 'zz"))
    c += fn(f"mut x: Pin<&mut {o}>", None, "".join(f"{{ let p = {px[m]}; touch(&p); }}" for m in have + have) + " touch(&*x);", lts=())
    c += fn(f"mut x: Pin<Box<{o}>>", None, "".join(f"{{ let p = {px[m]}; touch(&p); }}" for m in have + have) + " drop(x);", lts=())
    if "project_ref" in have:
        c += fn(f"x: Pin<&{o}>", None, "let a = x.project_ref(); let b = x.project_ref(); touch(&a); touch(&b); touch(&a); touch(&*x);", lts=())
        c += fn(f"x: Pin<&mut {o}>", None, "let a = x.as_ref().project_ref(); let b = x.as_ref().project_ref(); touch(&*x); touch(&a); touch(&b);", lts=())
    if repl:
        c += fn(f"mut x: Pin<Box<{o}>>, v: {o}", None, "let r = x.as_mut().project_replace(v); " + "".join(f"touch(&{px[m]}); " for m in have) + "drop(x); touch(&r);", lts=())
        if named(item, "project_replace"):
            c += fn(f"x: Pin<&'zz mut {o}>, v: {o}", name_args(item, "project_replace", ""), "x.project_replace(v)")
        c += fn(f"mut x: Pin<&mut {o}>, v: {o}, v2: {o}", None, "let a = x.as_mut().project_replace(v); let b = x.as_mut().project_replace(v2); touch(&a); touch(&b); touch(&a);", lts=())
    lts = [p for p in item.params if p.kind == "lt"]
    # fields that are directly `&'a mut ..` / `&'a ..`
    refs = [(vi, i, f) for vi, i, f in flds if re.match(r"&'", f.ty.src) and not f.pin]
    progs = [prog(crate(USES + base + c), name="control", why="every projection is used within the pinned borrow", plain_src=crate(USES_PLAIN + item.render(macro=False)))]
    # ---------------------------------------------------------------- mutants
    muts = []
    hdr = "    fn touch<T: ?Sized>(_: &T) {}\n"
    add = lambda lab, bad, good: muts.append((lab, bad, good))
    box_, mref = f"mut x: Pin<Box<{o}>>", f"mut x: Pin<&mut {o}>"
    F = lambda sig, body, ret=None, lts=(), b=(): fn(sig, ret, body, *b, lts=lts)
    tail2 = " touch(&p);"
    for m in have:
        for m2 in have + (["project_replace"] if repl else []):
            if m == "project_ref" and m2 == "project_ref":
                continue
            for recv in (mref, box_):
                sig = recv + (f", v: {o}" if m2 == "project_replace" else "")
                bd = f"let p = {px[m]}; let q = {px[m2]};"
                add(f"overlap-{m}-{m2}", F(sig, bd + tail2), F(sig, bd))
        bd = f"let p = {px[m]}; drop(x);"
        add(f"drop-{m}", F(box_, bd + tail2), F(box_, bd))
        bd = f"let p; {{ let mut y = x; p = y.{'as_mut' if m == 'project' else 'as_ref'}().{m}(); }}"
        add(f"outlive-{m}", F(box_, bd + tail2), F(box_, bd))
        bd = f"let p = {px[m]}; let y = x;"
        add(f"move-{m}", F(box_, bd + tail2), F(box_, bd))
        if m == "project":
            bd = f"let p = {px[m]}; touch(&*x);"
            add(f"shared-{m}", F(mref, bd + tail2), F(mref, bd))
            add("reuse-moved", F(mref, "let p = x.project(); let q = x.project();"), F(mref, "let p = x.as_mut().project(); let q = x.as_mut().project();"))
        if not item.tail:
            bd = f"let p = {px[m]}; x.set(v);"
            add(f"set-{m}", F(f"{mref}, v: {o}", bd + tail2), F(f"{mref}, v: {o}", bd))
        vi, i, f = g.pick(flds)
        bad_lt = g.pick(["'ll", "'static"])
        mk = lambda lt: F(f"x: {pinref(item, m, chr(39) + 'zz')}, _l: &'ll ()", field_get(item, m, vi, i), f"Option<{ref(m, lt, f, item)}>", ("'zz", "'ll"), () if lt == "'zz" else [f"{o}: {lt}"])
        add(f"stretch-field-{m}", mk(bad_lt), mk("'zz"))
        if item.kind == "struct":
            # local borrow escaping through a returned field
            mk2 = lambda s: F(f"{box_}, _z: &'zz ()", f"let mut x = x; let r = {field_get(item, m, vi, i).replace('x.' + m, px[m].rsplit('.', 1)[0] + '.' + m)}; {s}", f"Option<{ref(m, chr(39) + 'zz', f, item)}>", ("'zz",), [f"{o}: 'zz"])
            add(f"return-local-{m}", mk2("r"), mk2("None"))
        if named(item, m):
            mk3 = lambda lt: F(f"x: {pinref(item, m, chr(39) + 'zz')}, _l: &'ll ()", f"x.{m}()", name_args(item, m, lt), ("'zz", "'ll"), [f"{o}: {lt}"])
            add(f"stretch-{m}", mk3("'ll"), mk3("'zz"))
            mk4 = lambda lt: F(f"p: {name_args(item, m, chr(39) + 'zz')}, _l: &'ll ()", "p", name_args(item, m, lt), ("'zz", "'ll"), [f"{o}: {lt}"])
            add(f"convert-{m}", mk4("'ll"), mk4("'zz"))
    if lts and named(item, "project") and not any(l.bounds for l in lts):
        l = g.pick(lts)
        ov = {l.name: "'ss"}
        o2 = inst_name(item, {p.name: ov.get(p.name, p.name) for p in item.params})
        mk5 = lambda x: F(f"p: {name_args(item, 'project', chr(39) + 'zz')}, _o: &{o2}, _p: {name_args(item, 'project', chr(39) + 'zz', ov)}", "p", name_args(item, "project", "'zz", ov if x else None), ("'zz", "'ss"), [f"{l.name}: 'ss"])
        if not any(re.search(re.escape(l.name) + r"\b", s) for s in item.where) and not any(l.name in (p.bounds or "") for p in item.params if p is not l):
            add("shorten-inner", mk5(True), mk5(False))
    if refs and "project" in have:
        vi, i, f = g.pick(refs)
        t = f.ty.src
        l = re.match(r"&('\w+(?:#\w+)?)", t).group(1)
        ts = re.sub(r"^&'[\w#]+", "&'ss", t)
        ge = field_get(item, "project", vi, i)
        mk6 = lambda tt: F(f"x: Pin<&mut {o}>, r: {tt}, _s: &'ss ()", f"if let Some(y) = {{ {ge} }} {{ *y = r; }}", None, ("'ss",))
        add("store-shorter", mk6(ts), mk6(t))
    classes = set(item.classes)
    for _ in range(min(len(muts), g.int(3, 5))):
        lab, bad, good = muts.pop(g.int(0, len(muts) - 1))
        classes.add("mutant:" + lab)
        progs.append(prog(crate(USES + base + hdr + bad), expect="fail", name=lab, sane_src=crate(USES + base + hdr + good), why="borrow conflict or lifetime too long: " + lab))
    return case(progs, classes, True, f"{item.kind} {item.generics_decl()} borrow patterns")
