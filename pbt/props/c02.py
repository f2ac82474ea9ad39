"""C02: default mode - the type is Unpin iff every #[pin] field type is."""
from ..core import batch_case, case, prog
from ..items import *

LEVEL = "exploration"
CASES = {"quick": 1800, "thorough": 9000}
K = 4
RULE = ("A case is a generated definition (default Unpin mode, with or without project_replace and PinnedDrop). Concrete part: for 2-4 random instantiations the "
        "compiled program evaluates `Type: Unpin` and the conjunction of `FieldType: Unpin` over the pinned fields and compares them. Generic part: a "
        "generic function that assumes Unpin for exactly the pinned field types must compile, and one that assumes it for every parameter except one that a pinned "
        "field needs must be rejected. Non-trivial: the definition has at least one pinned and one unpinned field, or at least one type parameter.")
IPOOL = INST + ["std::cell::Cell<PhantomPinned>", "*const TrP", "[PhantomPinned; 0]", "PhantomData<PhantomPinned>", "Box<PhantomPinned>"]
UNPINNABLE = ["u8", "Tr", "String", "Box<TrP>", "Option<Tr>"]


def make(g, **kw):
    o = dict(tail=15, fixed_tail=10, replace="maybe", pinned_drop="maybe", named=None)
    o.update(kw)
    item = gen_item(g, **{"frags": 12, **o})
    for p in item.params:
        if p.kind == "ty" and p.sized and g.chance(1, 12):
            p.bounds = (p.bounds + " + " if p.bounds else "") + "Unpin"
            p.default = ""
    last = False
    for p in reversed(item.params):       # defaults only on a trailing run
        if not p.default:
            last = True
        elif last:
            p.default = ""
    return item


def pinned(item):
    return [f for f in item.all_fields() if f.pin]


def inst(g, item):
    # Assoc is only implemented for the standard instantiations.
    m = instantiate(g, item, None)
    for p in item.params:
        if p.kind == "ty" and p.sized:
            assoc = any(f"<{p.name} as Assoc>" in f.ty.src for f in item.all_fields())
            pool = INST if assoc else IPOOL
            if "Unpin" in p.bounds:
                pool = [x for x in UNPINNABLE]
            m[p.name] = g.pick(pool)
    return m


def source(item, macro=True):
    s = (USES if macro else USES_PLAIN) + item.render(macro=macro)
    if macro and item.args.get("pinned_drop"):
        s += pinned_drop_impl(item)
    return s


def part(g, tier):
    item = make(g)
    body = ""
    for k in range(g.int(2, 4)):
        m = inst(g, item)
        own = inst_name(item, m)
        e = [f"holds!({subst(f.ty.src, m, own)}: Unpin)" for f in pinned(item)]
        body += f"        assert_eq!(holds!({own}: Unpin), {' & '.join(e) if e else 'true'}, \"{own}: Unpin\");\n"
    return {"src": source(item) + "    pub fn run() {\n" + body + "    }\n", "plain": source(item, False) + "    pub fn run() {}\n",
            "classes": item.classes | {"concrete"}, "nontrivial": nontrivial(item)}


def nontrivial(item):
    pins = {f.pin for f in item.all_fields()}
    return len(pins) == 2 or any(p.kind == "ty" for p in item.params)


def generic_fn(item, extra, name="f"):
    own = item.name + item.generics_use()
    return f"    pub fn {name}{item.generics_decl(defaults=False)}(_: PhantomData<{own}>){subst(item.where_str(extra), {}, own)} {{ need_unpin::<{own}>() }}\n"


def generic_case(g, tier):
    item = make(g)
    ps = pinned(item)
    own = item.name + item.generics_use()
    tps = [p.name for p in item.params if p.kind == "ty"]
    hard = lambda t: "TrP" in t or "mb::Node" in t or "PhantomPinned" in t or "dyn" in t
    head = source(item)
    plain = crate(source(item, False))
    progs = []
    gen_f = [f for f in ps if f.ty.uses & set(tps)]
    fixed_bad = [f for f in ps if not (f.ty.uses & set(tps)) and hard(f.ty.src)]
    classes = set(item.classes) | {"generic"}
    if not fixed_bad:
        w = [subst(f.ty.src, {}, own) + ": Unpin" for f in gen_f]
        w = list(dict.fromkeys(w))
        progs.append(prog(crate(head + generic_fn(item, w)), name="assume-exactly-the-pinned-fields", why="every pinned field type is assumed Unpin", plain_src=plain))
        classes.add("generic-accept")
        if gen_f and all(f.ty.kind != "assoc" and "Assoc" not in f.ty.src and not hard(f.ty.src) for f in gen_f):
            need = sorted(set().union(*[f.ty.need for f in gen_f]))
            progs.append(prog(crate(head + generic_fn(item, [f"{p}: Unpin" for p in need])), name="assume-the-needed-parameters", why="all pinned field types are Unpin under these bounds", plain_src=plain))
    bounded = {p.name for p in item.params if p.kind == "ty" and "Unpin" in p.bounds}
    needed = sorted(set().union(*[f.ty.need for f in ps]) - bounded) if ps else []
    if needed:
        p = g.pick(needed)
        progs.append(prog(crate(head + generic_fn(item, [f"{q}: Unpin" for q in tps if q != p])), expect="fail", name="assume-less", why=f"{p} is not known to be Unpin but a pinned field needs it"))
        classes.add("generic-reject")
    if not progs:
        progs.append(prog(crate(head), name="definition", plain_src=plain))
    return case(progs, classes, nontrivial(item), "generic use of Unpin")


def gen(g, tier):
    if g.chance(2, 5):
        return generic_case(g, tier)
    parts = [part(g, tier)] + [part(g, tier) for _ in range(K - 1) if g.chance(7, 8)]
    return batch_case(parts, "unpin-concrete", "definitions with concrete instantiations")
