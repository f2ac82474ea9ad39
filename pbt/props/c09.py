"""C09: with PinnedDrop the user's code runs once, first and in place; without it the type has no destructor of its own."""
from ..core import batch_case
from ..items import *

LEVEL = "exploration"
CASES = {"quick": 750, "thorough": 9000}
K = 3
RULE = ("A case is a generated definition with PinnedDrop (2/3) or without (1/3). With it, values are disposed of in 2-5 generated ways (scope end, temporary, box, pinned box, "
        "stack pin, Vec, array, tuple, assignment, mem::replace, Option, Rc, Pin::set, unwinding, field of another annotated type); for every disposed value the event "
        "log must be: user code once, at the final address, seeing all contents intact, then every tracker once, in place, in declaration order. Without it needs_drop, "
        "moving all fields out by pattern (concrete and generic) and the drop order must be those of the plain type. Non-trivial: at least one tracker-owning field.")


def ways(g, item, nv):
    """(statements, [(variant, seed) in drop order], pinned?)"""
    def val():
        return (g.int(0, nv - 1), g.int(1, 300))
    m = lambda x: f"mk({x[0]}, {x[1]})"
    a, b, c = val(), val(), val()
    if item.tail:
        k = g.pick(["dynbox", "dynpin", "dynrc", "dynunwind"])
        if k == "dynbox":
            return f"let x: Box<C> = Box::new({m(a)}); drop(x);", [a], k
        if k == "dynpin":
            return f"let x: Pin<Box<C>> = Box::pin({m(a)}) as Pin<Box<CS>>; let at = addr(&*x); drop(x); pinned_at.push(at);", [a], k
        if k == "dynrc":
            return f"let x: std::rc::Rc<C> = std::rc::Rc::new({m(a)}); let y = x.clone(); drop(x); assert!(user_addrs().is_empty()); drop(y);", [a], k
        return f"let _ = catch(|| {{ let _x: Pin<Box<C>> = Box::pin({m(a)}) as Pin<Box<CS>>; unwind() }});", [a], k
    k = g.pick(["scope", "temp", "box", "pinbox", "stackpin", "vec", "array", "tuple", "assign", "replace", "option", "rc", "set", "unwind", "nested", "unwind-stack", "vec-truncate", "shadow", "closure", "set-twice"])
    d = {
        "scope": (f"{{ let _x = {m(a)}; }}", [a]),
        "temp": (f"{m(a)};", [a]),
        "box": (f"let x = Box::new({m(a)}); let at = addr(&*x); drop(x); pinned_at.push(at);", [a]),
        "pinbox": (f"let x = Box::pin({m(a)}); let at = addr(&*x); drop(x); pinned_at.push(at);", [a]),
        "stackpin": (f"let at; {{ let x = std::pin::pin!({m(a)}); at = addr(&*x); }} pinned_at.push(at);", [a]),
        "vec": (f"let x = vec![{m(a)}, {m(b)}, {m(c)}]; drop(x);", [a, b, c]),
        "array": (f"let x = [{m(a)}, {m(b)}]; let _y = 1; drop(x);", [a, b]),
        "tuple": (f"{{ let _x = ({m(a)}, 5u8, {m(b)}); }}", [a, b]),
        "assign": (f"{{ let mut x = {m(a)}; x = {m(b)}; let _ = &x; }}", [a, b]),
        "replace": (f"{{ let mut x = {m(a)}; let o = std::mem::replace(&mut x, {m(b)}); drop(o); }}", [a, b]),
        "option": (f"let mut x = Some({m(a)}); x = None; assert_eq!(user_addrs().len(), 1);", [a]),
        "rc": (f"let x = std::rc::Rc::pin({m(a)}); let y = x.clone(); drop(x); assert!(user_addrs().is_empty()); drop(y);", [a]),
        "set": (f"let mut x = Box::pin({m(a)}); let at = addr(&*x); x.as_mut().set({m(b)}); assert_eq!(user_addrs(), [at]); drop(x); pinned_at.push(at); pinned_at.push(at);", [a, b]),
        "set-twice": (f"let mut x = Box::pin({m(a)}); x.as_mut().set({m(b)}); x.set({m(c)}); drop(x);", [a, b, c]),
        "unwind": (f"let _ = catch(|| {{ let _x = Box::pin({m(a)}); unwind() }});", [a]),
        "unwind-stack": (f"let _ = catch(|| {{ let _x = {m(a)}; let _y = {m(b)}; unwind() }});", [b, a]),
        "nested": (f"{{ let mut x = std::pin::pin!(Outer {{ a: 1, b: {m(a)}, c: {m(b)} }}); let _ = x.as_mut().project().b; }}", [a, b]),
        "vec-truncate": (f"let mut x = vec![{m(a)}, {m(b)}]; x.truncate(1); assert_eq!(user_addrs().len(), 1); drop(x);", [b, a]),
        "shadow": (f"{{ let _x = {m(a)}; let _x = {m(b)}; }}", [b, a]),
        "closure": (f"let x = {m(a)}; let f = move || addr(&x); let _ = f(); drop(f);", [a]),
    }[k]
    return d[0], d[1], k


def part_with(g, tier):
    item = gen_item(g, frags=8, methods=15, tail=15, replace=False, pinned_drop=True, unpin="maybe", trackers=g.chance(2, 3))
    nv = len(item.variants)
    ms = [m for m in ("project", "project_ref") if item.exists(m)]
    body = g.pick(["user_drop(&*self);"] + (["let mut me_ = self; user_drop(&*me_); let _ = me_.as_mut().project();", "user_drop(&*self); let _p = self.project();"] if "project" in ms else [])
                  + (["user_drop(&*self); let _ = self.as_ref().project_ref();"] if "project_ref" in ms else []))
    src = USES + item.render() + pinned_drop_impl(item, body) + helpers(item, True)
    hook = "set_hook(|a| { let x: &C = unsafe { &*(a as *const C) }; (snap(x).fields.into_iter().map(|f| f.1).collect(), flat(&trks(x))) });"
    if item.tail:
        # an unsized value: look at it through the sized type it was made as
        hook = "set_hook(|a| { let x: &C = unsafe { &*(a as *const CS) }; (snap(x).fields.into_iter().map(|f| f.1).collect(), flat(&trks(x))) });"
    else:
        src += "    #[pin_project] struct Outer { a: u8, #[pin] b: C, c: C }\n"
    src += "    fn unwind() { std::panic::panic_any(Injected(7)) }\n"
    run, classes = "", set()
    for _ in range(g.int(2, 5)):
        st, vals, k = ways(g, item, nv)
        w = ", ".join(f"want({v}, {s})" for v, s in vals)
        run += f"        {{ let n0 = log_len(); let mut pinned_at: Vec<usize> = vec![]; {st} let w = keep(|| vec![{w}]); let at = check_groups(n0, &w); if !pinned_at.is_empty() {{ assert_eq!(at, pinned_at, \"in place\"); }} }}\n"
        classes.add("way:" + k)
    src += "    pub fn run() {\n        " + hook + " assert!(std::mem::needs_drop::<C>());\n" + run + "        no_leak();\n    }\n"
    plain = USES_PLAIN + item.render(macro=False) + helpers(item, True) + "    pub fn run() {}\n"
    return {"src": src, "plain": plain,
            "classes": item.classes | classes | {"with"}, "nontrivial": any("Tr" in f.ty.conc for f in item.all_fields())}


def part_without(g, tier):
    item = gen_item(g, frags=8, methods=15, replace="maybe", pinned_drop=False, unpin="maybe")
    nv = len(item.variants)
    src = USES + item.render() + helpers(item, True)
    own = item.name + item.generics_use()
    mods = {}
    nd = " | ".join(f"std::mem::needs_drop::<{f.ty.conc}>()" for f in item.all_fields()) or "false"
    arms = "".join(f"            {item.pat(vi)} => {{ {' '.join(f'drop(f{i});' for i in range(len(v.fields)))} }}\n" for vi, v in enumerate(item.variants))
    src += f"    fn take{item.generics_decl(defaults=False)}(x: {own}){subst(item.where_str(), {}, own)} {{ match x {{\n{arms}    }} }}\n"
    run = f"        assert_eq!(std::mem::needs_drop::<C>(), {nd}, \"needs_drop\");\n"
    for _ in range(g.int(1, 3)):
        v, s = g.int(0, nv - 1), g.int(1, 300)
        run += f"        {{ let x = Box::new(mk({v}, {s})); let t = ids(&flat(&trks(&x))); let n0 = log_len(); take(*x); assert_eq!(ids(&drops_since(n0)), t, \"moved out field by field\"); }}\n"
        run += f"        {{ let x = Box::pin(mk({v}, {s})); let t = flat(&trks(&x)); let n0 = log_len(); drop(x); dropped_exactly(n0, &t, \"plain drop order\"); }}\n"
    src += "    pub fn run() {\n" + run + "        no_leak();\n    }\n"
    plain = USES_PLAIN + item.render(macro=False) + helpers(item, True) + f"    fn take{item.generics_decl(defaults=False)}(x: {own}){subst(item.where_str(), {}, own)} {{ match x {{\n{arms}    }} }}\n    pub fn run() {{}}\n"
    return {"src": src, "plain": plain, "classes": item.classes | {"without"}, "nontrivial": any("Tr" in f.ty.conc for f in item.all_fields())}


def part_zst(g, tier):
    """Values of size zero, sized and unsized: the user's code still runs once per value, and then the fields are dropped in order."""
    pool = [("()", "()", 0), ("PhantomData<u64>", "PhantomData", 0), ("[u64; 0]", "[]", 0), ("Zd", "Zd", 1), ("(Zd, ())", "(Zd, ())", 1), ("[Zd; 2]", "[Zd, Zd]", 2), ("[Zd; 0]", "[]", 0), ("PhantomPinned", "PhantomPinned", 0)]
    kind = g.pick(["struct", "struct", "enum"])
    fs = [g.pick(pool) for _ in range(g.int(0, 3))]
    tail = kind == "struct" and g.chance(2, 3)
    gen = use = ""
    conc = "S"
    if tail:
        n = g.int(0, 3)
        cty, t = g.pick([("[Zd]", (f"[Zd; {n}]", "[" + "Zd, " * n + "]", n)), ("[()]", (f"[(); {n}]", "[" + "(), " * n + "]", 0)), ("dyn std::any::Any", ("Zd", "Zd", 1)), ("dyn std::fmt::Debug", ("()", "()", 0)), ("[[Zd; 2]]", (f"[[Zd; 2]; {n}]", "[" + "[Zd, Zd], " * n + "]", 2 * n))])
        b = g.pick(["T: ?Sized", "T", "T: ?Sized + Sz"])
        gen, use = f"<{b}>", "<T>"
        where = " where T: ?Sized" if b == "T" else ""
        conc, sized = f"S<{cty}>", f"S<{t[0]}>"
        tys = [(f[0], f[1], f[2]) for f in fs] + [("T", t[1], t[2])]
    else:
        where = ""
        fs = fs or [g.pick(pool)]
        tys, sized = fs, "S"
    named = g.flip()
    pins = [g.flip() for _ in tys]
    body = ", ".join(("#[pin] " if pn else "") + (f"f{i}: " if named else "") + t[0] for i, (t, pn) in enumerate(zip(tys, pins)))
    vals = ", ".join((f"f{i}: " if named else "") + t[1] for i, t in enumerate(tys))
    br = (lambda x: " { " + x + " }") if named else (lambda x: "(" + x + ")")
    opts = g.perm(["PinnedDrop"] + g.pick([[], ["project = P"], ["!Unpin"], ["UnsafeUnpin"], ["project_ref = R"]]))
    if kind == "struct":
        d = f"struct S{gen}" + (where + br(body) if named else br(body) + where + ";")
        lit = "S" + br(vals)
    else:
        d = "enum S { A" + br(body) + " }"
        lit = "S::A" + br(vals)
    pd = g.pick(["note(0);", "let _q = self; note(0);", "note(0); let _ = self.as_ref();"])
    defs = "    thread_local!(static EV: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(vec![]) });\n    fn note(x: u8) { EV.with(|e| e.borrow_mut().push(x)) }\n    fn events() -> Vec<u8> { EV.with(|e| std::mem::take(&mut *e.borrow_mut())) }\n"
    defs += "    pub trait Sz {} impl<T: ?Sized> Sz for T {}\n    pub struct Zd; impl Drop for Zd { fn drop(&mut self) { note(1) } }\n"
    src = USES + defs + f"    #[pin_project({', '.join(opts)})] {d}\n    #[pinned_drop] impl{gen} PinnedDrop for S{use}{where} {{ fn drop(self: Pin<&mut Self>) {{ {pd} }} }}\n"
    k = sum(t[2] for t in tys)
    one = [0] + [1] * k
    run = ""
    for _ in range(g.int(2, 4)):
        w = g.pick(["box", "pin", "rc", "unwind"] + ([] if tail else ["scope", "vec", "set", "temp"]))
        m = g.int(0, 5) if w == "vec" else 1
        st = {"box": f"let x: Box<{conc}> = Box::new(mk()); drop(x);", "pin": f"let x: Pin<Box<{conc}>> = Box::pin(mk()); drop(x);", "rc": f"let x: std::rc::Rc<{conc}> = std::rc::Rc::new(mk()); let y = x.clone(); drop(x); assert!(events().is_empty()); drop(y);",
              "unwind": f"let _ = catch(|| {{ let _x: Pin<Box<{conc}>> = Box::pin(mk()); std::panic::panic_any(Injected(7)) }});", "scope": "let _x = mk();", "vec": f"let x: Vec<{conc}> = (0..{m}).map(|_| mk()).collect(); drop(x);",
              "set": "let mut x = Box::pin(mk()); x.as_mut().set(mk());", "temp": "mk();"}[w]
        want = one * (2 if w == "set" else m)
        run += f"        {{ {{ {st} }} assert_eq!(events(), {want}, \"zero-sized value, {w}\"); }}\n" if want else f"        {{ {{ {st} }} assert!(events().is_empty()); }}\n"
    src += f"    fn mk() -> {sized} {{ {lit} }}\n    pub fn run() {{\n        assert!(std::mem::needs_drop::<{sized}>()); assert_eq!(std::mem::size_of::<{sized}>(), 0);\n" + run + "    }\n"
    plain = USES_PLAIN + defs + f"    {d.replace('#[pin] ', '')}\n    fn mk() -> {sized} {{ {lit} }}\n    pub fn run() {{ let _x: Box<{conc}> = Box::new(mk()); }}\n"
    return {"src": src, "plain": plain, "classes": {"with", "zero-sized" + (":unsized" if tail else ""), "kind:" + kind}, "nontrivial": True}


def part(g, tier):
    if g.chance(1, 12):
        return part_zst(g, tier)
    return part_with(g, tier) if g.chance(2, 3) else part_without(g, tier)


def gen(g, tier):
    parts = [part(g, tier)] + [part(g, tier) for _ in range(K - 1) if g.chance(7, 8)]
    return batch_case(parts, "drops", "definitions with disposals")
