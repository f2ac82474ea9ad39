"""C03: !Unpin types are never Unpin; UnsafeUnpin types are Unpin exactly as the user's unsafe impl says."""
from ..core import batch_case, case, prog
from ..items import *
from .c02 import inst, pinned, IPOOL

LEVEL = "exploration"
CASES = {"quick": 1800, "thorough": 9000}
K = 4
RULE = ("A case is a generated definition in !Unpin or UnsafeUnpin mode, the latter with a generated user impl of UnsafeUnpin (none, unconditional, conditional on "
        "parameters or compound types, or only for one instantiation). For 2-4 random instantiations the program compares `Type: Unpin` with what the user's impl "
        "says (computed from the impl's own conditions, not from the trait); generic functions assuming everything / exactly the impl's conditions / less must be "
        "accepted or rejected accordingly. Non-trivial: the definition has at least one type parameter, or a pinned and an unpinned field.")


def make(g):
    mode = g.pick(["!Unpin", "UnsafeUnpin", "UnsafeUnpin"])
    return gen_item(g, frags=8, tail=10, fixed_tail=10, replace="maybe", pinned_drop="maybe", unpin=mode), mode


def user_impl(g, item):
    """(source, oracle): oracle maps an instantiation to a Rust bool expression."""
    tps = [p.name for p in item.params if p.kind == "ty"]
    k = g.weighted([(2, "none"), (3, "all"), (5 if tps else 0, "cond"), (3 if tps else 0, "one")])
    if k == "none":
        return "", None, k
    if k == "all":
        return impl_for(item, "UnsafeUnpin", kw="unsafe "), [], k
    if k == "cond":
        conds = []
        for p in g.subset(tps, 2, 3) or [tps[0]]:
            sized = next(q for q in item.params if q.name == p).sized
            conds.append(g.pick([f"{p}: Unpin", f"{p}: Send", f"{p}: UnsafeUnpin", f"{p}: Copy"] + ([f"Option<{p}>: Unpin", f"({p}, u8): Unpin", f"PhantomData<{p}>: Unpin"] if sized else [])))
        return impl_for(item, "UnsafeUnpin", kw="unsafe ", extra=conds), conds, k
    return None, None, k


def source(item, extra=""):
    s = USES + item.render()
    if item.args.get("pinned_drop"):
        s += pinned_drop_impl(item)
    return s + extra


def plain(item):
    return USES_PLAIN + item.render(macro=False)


def nontrivial(item):
    return any(p.kind == "ty" for p in item.params) or len({f.pin for f in item.all_fields()}) == 2


def part(g, tier):
    item, mode = make(g)
    ms = [inst(g, item) for _ in range(g.int(2, 4))]
    impl, conds, k = ("", None, "notunpin") if mode == "!Unpin" else user_impl(g, item)
    if k == "one":
        a = inst_name(item, ms[0])
        impl = f"    unsafe impl UnsafeUnpin for {a} {{}}\n"
    body = ""
    for m in ms:
        own = inst_name(item, m)
        if k == "one":
            # type identity, decided by the compiler's own trait selection on an unrelated trait
            e = f"holds!({own}: IsOne)"
        elif k in ("none", "notunpin"):
            e = "false"
        else:
            e = " & ".join([f"holds!({subst(c.rsplit(': ', 1)[0], m, own)}: {c.rsplit(': ', 1)[1]})" for c in conds] or ["true"])
        body += f"        assert_eq!(holds!({own}: Unpin), {e}, \"{own}: Unpin\");\n"
    pre = ""
    if k == "one":
        pre = f"    trait IsOne {{}} impl IsOne for {inst_name(item, ms[0])} {{}}\n"
    src = source(item, (impl or "") + pre) + "    pub fn run() {\n" + body + "    }\n"
    return {"src": src, "plain": plain(item) + "    pub fn run() {}\n", "classes": item.classes | {"impl:" + k}, "nontrivial": nontrivial(item)}


def generic_fn(item, extra):
    own = item.name + item.generics_use()
    return f"    pub fn f{item.generics_decl(defaults=False)}(_: PhantomData<{own}>){subst(item.where_str(extra), {}, own)} {{ need_unpin::<{own}>() }}\n"


def generic_case(g, tier):
    item, mode = make(g)
    tps = [p.name for p in item.params if p.kind == "ty"]
    every = [f"{p}: Unpin" for p in tps] + [f"{p}: Send" for p in tps] + [f"{p}: UnsafeUnpin" for p in tps] + [f"{p}: Copy" for p in tps]
    impl, conds, k = ("", None, "notunpin") if mode == "!Unpin" else user_impl(g, item)
    if k == "one":
        impl, conds, k = "", None, "none"
    progs = []
    if k in ("none", "notunpin"):
        progs.append(prog(crate(source(item, impl)), name="definition", plain_src=crate(plain(item))))
        progs.append(prog(crate(source(item, impl) + generic_fn(item, every)), expect="fail", name="assume-everything", why="the type is never Unpin"))
    else:
        progs.append(prog(crate(source(item, impl) + generic_fn(item, conds)), name="assume-the-impl-conditions", plain_src=crate(plain(item)), why="the user's UnsafeUnpin impl covers this"))
        if conds:
            c = g.pick(conds)
            p = [t for t in tps if t in re.findall(r"(?:r#)?\w+", c)][0]
            less = [x for x in every if not x.startswith(p + ":")] + [x for x in every if x.startswith(p + ":") and not x.endswith(c.rsplit(": ", 1)[1])]
            # Copy etc. say nothing about the dropped condition; Unpin-ness of compound types needs the parameter's.
            progs.append(prog(crate(source(item, impl) + generic_fn(item, less)), expect="fail", name="assume-less", why=f"`{c}` is not assumed"))
    return case(progs, item.classes | {"generic", "impl:" + k}, nontrivial(item), "generic use of Unpin in explicit mode")


def gen(g, tier):
    if g.chance(2, 5):
        return generic_case(g, tier)
    parts = [part(g, tier)] + [part(g, tier) for _ in range(K - 1) if g.chance(7, 8)]
    return batch_case(parts, "unpin-explicit", "definitions in explicit Unpin mode")
