"""Runs a property: Hypothesis generates cases (programs + expected outcome), the real compiler and the compiled
programs decide them, failures are shrunk by Hypothesis and saved as replay files, coverage is written as evidence."""
import hashlib, importlib, json, multiprocessing as mp, os, random, re, sys, time, traceback
from hypothesis import HealthCheck, Phase, assume, given, seed as hyp_seed, settings, strategies as st, Verbosity
from . import rust
from .rust import InfraError, BuildError, Rust, VERIF

# Fresh examples only: Hypothesis' mutation of earlier examples mostly repeats the same programs here.
from hypothesis.internal.conjecture.engine import ConjectureRunner
ConjectureRunner.generate_mutations_from = lambda self, data: None

WORKERS = 8
DEBUG = bool(os.environ.get("VERIF_DEBUG"))


class GeneratorError(InfraError):
    """A generated program is invalid independently of the code under test."""


class Violation(Exception):
    pass


class StopSearch(BaseException):
    pass


# ------------------------------------------------------------------ drawing
class G:
    """All random choices of a case go through Hypothesis' draw. 0 / first / False are the simplest choices."""

    def __init__(self, draw):
        self._draw = draw

    def int(self, a, b):
        if a >= b:
            return a
        return self._draw(st.integers(a, b))

    def chance(self, num, den):
        """True with probability num/den; False is simplest."""
        return self.int(0, den - 1) >= den - num

    def flip(self):
        return self.int(0, 1) == 1

    def pick(self, seq):
        seq = list(seq)
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: (weight, value)."""
        n = sum(w for w, _ in pairs)
        k = self.int(0, n - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def perm(self, seq):
        seq, out = list(seq), []
        while seq:
            out.append(seq.pop(self.int(0, len(seq) - 1)))
        return out

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.chance(num, den)]


class RandG(G):
    """Same interface over a plain PRNG; only used by development tools (never by checks)."""

    def __init__(self, s):
        self.r = random.Random(s)

    def int(self, a, b):
        return a if a >= b else self.r.randint(a, b)


KEYWORDS = {"as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self",
            "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "_"}


# ------------------------------------------------------------------ cases
def prog(src, mode="check", expect="ok", **kw):
    """mode: check (type check only) | run (link and execute) | miri | lib (metadata usable by later programs of the case).
    expect: ok | fail | nopanic.  plain_src: the same program without the macros; must compile, or the case is void."""
    d = {"src": src, "mode": mode, "expect": expect, "edition": "2021", "name": "p"}
    d.update(kw)
    return d


class CaseD(dict):
    def __repr__(self):
        return "<case>"


def case(progs, classes=(), nontrivial=True, summary="", n=1):
    return CaseD({"progs": progs, "classes": sorted(set(classes)), "nontrivial": bool(nontrivial), "summary": summary, "n": n})


def case_hash(c):
    return hashlib.sha256(json.dumps([[p["src"], p["mode"], p["expect"], p["edition"], p.get("flags"), p.get("skeleton"), p.get("templates")] for p in c["progs"]]).encode()).hexdigest()


def short(s, n=1500):
    return s if len(s) <= n else s[: n // 2] + "\n...\n" + s[-n // 2:]


def check_lines(out, want):
    ok = set()
    for l in out.splitlines():
        w = l.split(" ", 3)
        if w[0] == "CASE":
            if w[2] == "OK":
                ok.add(int(w[1]))
            else:
                return l
    if len(ok) != want:
        return f"only {sorted(ok)} of {want} parts finished"
    return None


def reject_or_ok(src, p, R, count, name, kw):
    """Rejected, or harmless when run."""
    res, out = R.rustc(src, run=True, **kw)
    if res.panicked:
        return f"{name}: a macro panicked\n{short(res.stderr)}"
    if not res.ok:
        count("attempts_rejected")
        return None
    count("attempts_harmless")
    r, rc = R.exec(out)
    m = check_lines(r.stdout, p.get("parts", 1))
    if m or rc != 0:
        return f"{name}: accepted, and: exit {rc}: {m or ''}\n{short(r.stderr, 800)}\n{src}"
    return None


def stat_lines(out, stats):
    if stats is not None:
        for l in out.splitlines():
            w = l.split()
            if len(w) == 3 and w[0] == "STAT":
                stats[w[1]] = stats.get(w[1], 0) + int(w[2])


ALLOW_HERE = "/*ALLOW-HERE*/"


def judge(c, R, stats=None):
    """None if the case holds, else a message saying how the property is violated."""
    libs = {}

    def count(k):
        if stats is not None:
            stats[k] = stats.get(k, 0) + 1

    for p in c["progs"]:
        kw = dict(edition=p["edition"], flags=p.get("flags", []), strict=p.get("strict", False), externs=p.get("externs", ["pin_project", "vsut", "auxmac"]))
        use = [(n, libs[n]) for n in p.get("uses", [])]
        if p["mode"] == "miri":
            count("miri_runs")
            r = R.run_miri(p["src"], edition=p["edition"], flags=p.get("flags", []))
            stat_lines(r.stdout, stats)
            if r.returncode != 0 or check_lines(r.stdout, p.get("parts", 1)):
                if "Undefined Behavior" in r.stderr or "FAIL" in r.stdout:
                    return f"{p['name']}: {short(r.stderr)}\n{short(r.stdout)}"
                if "unsupported operation" in r.stderr or "error: " not in r.stderr:
                    raise InfraError("miri: " + short(r.stderr))
                return f"{p['name']}: {short(r.stderr)}\n{short(r.stdout)}"
            continue
        if p["mode"] == "hunt":
            # Names of functions that only exist in the expansion are put into the call templates.
            own = set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*", p["src"]))
            names = sorted(set(re.findall(r"\bfn\s+((?:r#)?[A-Za-z_][A-Za-z0-9_]*)", R.expand(p["src"], p["edition"]))) - own | set(p["names"]))
            count("names_hunted_sets")
            for n in names:
                for t in p["templates"]:
                    src = p["skeleton"].replace("@ATTEMPT@", t.replace("@NAME@", n))
                    m = reject_or_ok(src, p, R, count, f"{p['name']} `{t.replace('@NAME@', n)}`", kw)
                    if m:
                        return m
            continue
        if p["mode"] == "same":
            # The plain definition decides whether the client code is valid.
            r1, _ = R.rustc(p["plain"], **kw)
            r2, _ = R.rustc(p["src"], **kw)
            if r2.panicked:
                return f"{p['name']}: a macro panicked\n{short(r2.stderr)}"
            count("same_accepted" if r1.ok else "same_rejected")
            if r1.ok != r2.ok:
                return f"{p['name']}: {'accepted' if r1.ok else 'rejected'} with the plain definition, {'accepted' if r2.ok else 'rejected'} with the attribute\n{short(r1.stderr + r2.stderr)}"
            continue
        if p["mode"] == "modules":
            # The expansion of each module is the same text in every variant of the crate that contains it.
            seen = {}
            for i, v in enumerate(p["variants"]):
                x = R.expand(v, p["edition"])
                count("expansions")
                if not x:
                    seen[""] = seen.get("", 0) + 1
                    continue
                for m in p["mods"]:
                    t = re.search(r"^pub mod " + m + r" \{\n.*?^\}$", x, re.S | re.M)
                    if t:
                        count("module_texts_compared")
                        t = [l.strip() for l in t.group(0).split("\n") if l.strip()]      # the pretty printer adds empty lines according to the source
                        if seen.setdefault(m, t) != t:
                            a, b = seen[m], t
                            d = [(l, r) for l, r in zip(a + [""] * len(b), b + [""] * len(a)) if l != r][:3]
                            return f"{p['name']}: module {m} expands differently in variant {i} of the crate: {d}"
            if seen.get("") == len(p["variants"]):
                raise GeneratorError("no variant expands:\n" + p["src"])
            if seen.get(""):
                return f"{p['name']}: the crate expands in some of its variants only"
            continue
        if p["mode"] == "lints":
            # No lint fires that does not fire for the plain definition.
            ok1, w1, e1 = R.lints(p["plain"], p["edition"], p["driver"], p["flags"])
            if not ok1:
                raise GeneratorError("plain version does not compile:\n" + short(e1) + "\n" + p["plain"])
            if ALLOW_HERE in p["plain"]:
                # The user silences what fires for the definition itself.
                own = sorted({c for c, l, k in w1} - set(p["ignore"]))
                if own:
                    p = dict(p, **{k: p[k].replace(ALLOW_HERE, f"#[allow({', '.join(own)})]") for k in ("src", "plain")})
                    ok1, w1, e1 = R.lints(p["plain"], p["edition"], p["driver"], p["flags"])
                    count("linted_silenced")
                    if not ok1:
                        raise GeneratorError("plain version does not compile:\n" + short(e1) + "\n" + p["plain"])
            ok2, w2, e2 = R.lints(p["src"], p["edition"], p["driver"], p["flags"])
            count("linted_" + p["driver"])
            if not ok2:
                return f"{p['name']}: rejected, but must be accepted\n{short(e2)}"
            codes = lambda w: {c for c, l, k in w} - set(p["ignore"])
            new = codes(w2) - codes(w1)
            if new:
                return f"{p['name']}: lints fired that the plain definition does not trigger: {sorted(new)}\n{short(e2)}"
            continue
        if p["mode"] == "occupy":
            # Every name that only the expansion defines is still free for the user, in the module and on the type.
            words = lambda t: {w.replace("r#", "") for w in re.findall(r"(?:r#)?[^\W\d]\w*", t)}
            own = words(p["src"]) | {w.replace("r#", "") for w in p["taken"]} | KEYWORDS
            x = R.expand(p["src"], p["edition"])
            ident = r"((?:r#)?[^\W\d]\w*)"
            defs = lambda kw: {w.replace("r#", "") for w in re.findall(r"\b(?:" + kw + r")\s+" + ident, x)}
            types = defs("struct|enum|trait|type|union|mod") - own | set(p["free_types"])
            fns = defs("fn|const|static") - own | set(p["free_fns"])
            count("occupied_name_probes")
            d = "".join(f"pub struct {n} {{}} " for n in sorted(types)) + "".join(f"pub fn {n}() {{}} " for n in sorted(fns))
            m = "".join(f"pub fn {n}() {{}} " for n in sorted(fns | types))
            src = p["skeleton"].replace("@DEFS@", d).replace("@METHODS@", m)
            res, _ = R.rustc(src, **kw)
            if not res.ok:
                return f"{p['name']}: the user cannot define items with names that were not requested ({d}{m})\n{short(res.stderr)}\n{src}"
            continue
        count("programs_compiled")
        if p["expect"] == "reject_or_ok":
            m = reject_or_ok(p["src"], p, R, count, p["name"], kw)
            if m:
                return m
            continue
        if p["expect"] == "nopanic":
            try:
                res, out = R.rustc(p["src"], timeout=30, **kw)
            except InfraError as e:
                # Hang or crash: of the macros, if the same tokens under an identity attribute are harmless.
                try:
                    R.rustc(p["neutral"], timeout=30, **kw)
                except InfraError:
                    raise GeneratorError("the compiler itself fails: " + str(e))
                return f"{p['name']}: the compiler hangs or crashes: {short(str(e))}"
            if res.panicked:
                return f"{p['name']}: a macro panicked\n{short(res.stderr)}"
            count("accepted" if res.ok else "rejected")
            if int(hashlib.sha256(p["src"].encode()).hexdigest(), 16) % 16 == 0:
                res, out = R.rustc(p["neutral"], timeout=30, **kw)
                if stats is not None:
                    stats["sampled_uses"] = stats.get("sampled_uses", 0) + p["parts"]
                    stats["sampled_invocations"] = stats.get("sampled_invocations", 0) + res.stderr.count("PROBE-REACHED")
            continue
        res, out = R.rustc(p["src"], run=p["mode"] == "run", libs=use, crate_name=p.get("crate_name", p["name"] if p["mode"] == "lib" else "t"), **kw)
        if res.panicked:
            return f"{p['name']}: a macro panicked\n{short(res.stderr)}"
        if p["expect"] == "fail":
            if res.ok:
                return f"{p['name']}: accepted, but must be rejected: {p.get('why', '')}"
            count("rejected_as_required")
            # A mutant must be wrong only because of what the property is about: without the macros (or without the offending part)
            # the program is valid Rust. Audited on a fixed quarter of the mutants.
            if p.get("sane_src") and (DEBUG or int(hashlib.sha256(p["src"].encode()).hexdigest(), 16) % 4 == 0):
                r2, _ = R.rustc(p["sane_src"], libs=use, **kw)
                count("mutants_audited")
                if not r2.ok:
                    if DEBUG:
                        raise GeneratorError(f"vacuous mutant {p['name']}:\n" + short(r2.stderr) + "\n" + p["sane_src"])
                    count("mutants_vacuous")
            continue
        if not res.ok:
            if p.get("plain"):
                raise GeneratorError("plain control does not compile:\n" + short(res.stderr) + "\n" + p["src"])
            if p.get("plain_src"):
                r2, _ = R.rustc(p["plain_src"], libs=use, **kw)
                if not r2.ok:
                    raise GeneratorError("plain version does not compile:\n" + short(r2.stderr) + "\n" + p["plain_src"])
            return f"{p['name']}: rejected, but must be accepted: {p.get('why', '')}\n{short(res.stderr)}"
        count("accepted_as_required")
        if p["mode"] == "lib":
            libs[p["name"]] = out
        elif p["mode"] == "run":
            count("programs_run")
            r, rc = R.exec(out)
            stat_lines(r.stdout, stats)
            m = check_lines(r.stdout, p.get("parts", 1))
            if m or rc != 0:
                return f"{p['name']}: exit {rc}: {m or ''}\n{short(r.stderr, 800)}"
    return None


def batch_case(parts, name, summary, **kw):
    c = case([batch(parts, name=name, **kw)], set().union(*[p["classes"] for p in parts]), any(p["nontrivial"] for p in parts), f"{len(parts)} {summary}", n=len(parts))
    c["subhash"] = [hashlib.sha256(p["src"].encode()).hexdigest() for p in parts if p["nontrivial"]]
    if len(parts) > 1:
        c["singles"] = lambda: [case([batch([p], name=name, **kw)], p["classes"], p["nontrivial"], summary) for p in parts]
    return c


def batch(mods, header="", plain=True, mode="run", name="p", miri_flags=(), edition="2021", inner=""):
    """One program from several independent parts. Each part: dict(src=module body with `pub fn run()`, plain=... )."""
    def render(key):
        s = inner + "#![allow(unused, non_camel_case_types, non_snake_case, non_upper_case_globals, uncommon_codepoints, mixed_script_confusables)]\n" + header
        for i, m in enumerate(mods):
            s += f"mod c{i} {{\n{m[key]}\n}}\n"
        s += "fn main() {\n" + "".join(f"    vsut::case({i}, c{i}::run);\n" for i in range(len(mods))) + "}\n"
        return s
    p = prog(render("src"), mode, "ok", parts=len(mods), name=name, edition=edition, flags=list(miri_flags))
    if all(m.get("plain") for m in mods):
        p["plain_src"] = render("plain")
    return p


# ------------------------------------------------------------------ workers
def worker(pid, tier, seed, wid, nworkers, info, miri, conn):
    R = Rust(info, miri)
    stats, classes, seen, samples = {}, {}, set(), []
    nontrivial = set()
    evals = [0]
    best = [None]
    budget = {"after": 0, "t": 0.0}
    void = []

    def run(c):
        h = case_hash(c)
        if h in seen and best[0] is None:
            return
        evals[0] += c["n"]
        seen.add(h)
        for k in c["classes"]:
            classes[k] = classes.get(k, 0) + 1
        for k in c.get("subhash", [h] if c["nontrivial"] else []):
            nontrivial.add(k)
        if best[0] is None and len(samples) < 2 and c["nontrivial"] and (evals[0] > 5):
            samples.append({"summary": c["summary"], "program": short(c["progs"][-1]["src"], 2500), "expect": c["progs"][-1]["expect"]})
        try:
            msg = judge(c, R, stats)
        except GeneratorError as e:
            # An invalid program says nothing about the code under test; the run is aborted if there are many.
            void.append(str(e))
            if not os.environ.get("VERIF_DEBUG"):
                if len(void) > 20:
                    raise InfraError("too many invalid generated programs; last: " + str(e)[-3000:])
                return
            msg = "GENERATOR ERROR " + str(e)[:1500]
        if msg is not None:
            if c.get("singles") and best[0] is None:
                for one in c["singles"]():
                    m1 = judge(one, R, stats)
                    if m1 is not None:
                        best[0] = (one, m1)
                        break
            if best[0] is None or sum(len(p["src"]) for p in c["progs"]) <= sum(len(p["src"]) for p in best[0][0]["progs"]):
                best[0] = (c, msg)
            if budget["after"] == 0:
                budget["t"] = time.time()
            budget["after"] += 1
            raise Violation(msg)
        if best[0] is not None:
            budget["after"] += 1
        if best[0] is not None and (budget["after"] > 600 or time.time() - budget["t"] > 45):
            raise StopSearch()

    try:
        mod = importlib.import_module(f"pbt.props.{pid.lower()}")
        err = None
        try:
            if hasattr(mod, "fixed"):
                for i, c in enumerate(mod.fixed(tier)):
                    if i % nworkers == wid:
                        run(c)
                        stats["enumerated_cases"] = stats.get("enumerated_cases", 0) + 1
            n = mod.CASES[tier]
            n = n // nworkers + (1 if wid < n % nworkers else 0)
            if n:
                @st.composite
                def cases(draw):
                    try:
                        return mod.gen(G(draw), tier)
                    except (LookupError, ValueError, TypeError, AttributeError):
                        if DEBUG:
                            raise
                        stats["discarded_by_generator"] = stats.get("discarded_by_generator", 0) + 1
                    assume(False)      # a slip of the generator is not a case

                @hyp_seed((seed * 1000003 + wid * 7919 + int(pid[1:])) & 0x7FFFFFFF)
                @settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate, Phase.shrink], print_blob=False,
                          suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet, report_multiple_bugs=False)
                @given(cases())
                def t(c):
                    run(c)
                t()
        except (Violation, StopSearch):
            pass
        fail = None
        if best[0]:
            best[0][0].pop("singles", None)
            fail = {"case": dict(best[0][0]), "msg": best[0][1]}
        conn.send({"stats": stats, "classes": classes, "nontrivial": nontrivial, "evals": evals[0], "samples": samples, "fail": fail, "void": len(void),
                   "void_msg": void[-1] if void else ""})
    except InfraError as e:
        conn.send({"infra": str(e)})
    except BaseException:
        if best[0]:
            best[0][0].pop("singles", None)
            conn.send({"stats": stats, "classes": classes, "nontrivial": nontrivial, "evals": evals[0], "samples": samples,
                       "fail": {"case": best[0][0], "msg": best[0][1]}, "void": len(void), "void_msg": ""})
        else:
            conn.send({"infra": traceback.format_exc()})
    finally:
        R.close()
        conn.close()


def write_evidence(pid, tier, seed, mod, agg, wall, violations, extra):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"evaluations": agg["evals"], "distinct_nontrivial": len(agg["nontrivial"]), "rule": mod.RULE, "samples": agg["samples"][:4],
           "classes": dict(sorted(agg["classes"].items())), **{k: v for k, v in sorted(agg["stats"].items())}, "void_cases": agg["void"]}
    if agg.get("void_msg"):
        cov["void_example"] = agg["void_msg"][:3000]
    cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov, "wall_s": round(wall, 2), "violations": violations,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + ["The installed stable rustc decides acceptance; std's own behaviour is trusted."]}
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def save_replay(pid, tier, seed, fail):
    d = os.path.join(VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, case_hash(fail["case"])[:16] + ".json")
    with open(f, "w") as fh:
        json.dump({"property": pid, "tier": tier, "seed": seed, **fail}, fh, indent=1)
    return f


def known_findings(pid):
    try:
        d = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        return []
    return [k for k in d["findings"] if k["property"] == pid]


def run_check(pid, tier, seed):
    t0 = time.time()
    mod = importlib.import_module(f"pbt.props.{pid.lower()}")
    try:
        info = rust.build()
        miri = rust.build_miri() if getattr(mod, "MIRI", False) else None
    except InfraError as e:
        print(f"ERROR property={pid}: {e}", file=sys.stderr)
        return 2
    agg = {"stats": {}, "classes": {}, "nontrivial": set(), "evals": 0, "samples": [], "void": 0, "void_msg": ""}
    extra = {}
    # Known findings: exact programs, listed in known_findings.json; reported, never alarmed on, never added at run time.
    fail, infra = None, None
    kf = known_findings(pid)
    if kf:
        R = Rust(info, miri)
        still = 0
        for k in kf:
            if judge(k["case"], R) is not None:
                still += 1
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        extra["known_findings_still_present"] = still
        R.close()
    ctx = mp.get_context("fork")
    nw = min(WORKERS, getattr(mod, "WORKERS", WORKERS))
    procs = []
    for w in range(nw):
        a, b = ctx.Pipe(duplex=False)
        pr = ctx.Process(target=worker, args=(pid, tier, seed, w, nw, info, miri, b))
        pr.start()
        b.close()
        procs.append((pr, a))
    left = dict((a, pr) for pr, a in procs)
    from multiprocessing.connection import wait
    t_fail = None
    while left:
        for a in wait(list(left), timeout=1.0):
            try:
                m = a.recv()
            except EOFError:
                m = {"infra": "worker died"}
            del left[a]
            if "infra" in m:
                infra = infra or m["infra"]
                continue
            for k, v in m["stats"].items():
                agg["stats"][k] = agg["stats"].get(k, 0) + v
            for k, v in m["classes"].items():
                agg["classes"][k] = agg["classes"].get(k, 0) + v
            agg["nontrivial"] |= m["nontrivial"]
            agg["evals"] += m["evals"]
            agg["samples"] += m["samples"]
            agg["void"] += m["void"]
            agg["void_msg"] = agg["void_msg"] or m["void_msg"]
            if m["fail"]:
                t_fail = t_fail or time.time()
                size = lambda f: sum(len(p["src"]) for p in f["case"]["progs"])
                if fail is None or size(m["fail"]) < size(fail):
                    fail = m["fail"]
        if fail is not None and left:
            # One worker has a shrunk counterexample: the others need not finish.
            if time.time() - t_fail > 5:
                for pr in left.values():
                    pr.terminate()
                left = {}
    for pr, a in procs:
        pr.join(timeout=10)
        if pr.is_alive():
            pr.kill()
    import shutil
    if not agg["samples"]:
        agg["samples"] = [{"summary": "none collected"}]
    wall = time.time() - t0
    if fail is not None:
        # Confirm once more from scratch before reporting.
        R = Rust(info, miri)
        try:
            msg = judge(fail["case"], R)
        except GeneratorError as e:
            msg = str(e)
        finally:
            R.close()
        if msg is None:
            print(f"ERROR property={pid}: counterexample did not reproduce", file=sys.stderr)
            return 2
        f = save_replay(pid, tier, seed, fail)
        write_evidence(pid, tier, seed, mod, agg, wall, 1, extra)
        print(fail["msg"])
        print("--- counterexample: " + fail["case"]["summary"])
        for p in fail["case"]["progs"]:
            print(f"--- program {p['name']} ({p['mode']}, expected: {p['expect']})\n{short(p['src'], 6000)}")
        print(f"VIOLATION property={pid} replay={f}")
        return 1
    if infra is not None:
        print(f"ERROR property={pid}: {infra}", file=sys.stderr)
        return 2
    if agg["void"] > max(10, agg["evals"] // 50):
        print(f"ERROR property={pid}: {agg['void']} void cases\n{agg['void_msg']}", file=sys.stderr)
        return 2
    write_evidence(pid, tier, seed, mod, agg, wall, 0, extra)
    print(f"OK property={pid} tier={tier} seed={seed} cases={agg['evals']} nontrivial={len(agg['nontrivial'])} wall={wall:.1f}s void={agg['void']} "
          + " ".join(f"{k}={v}" for k, v in sorted(agg["stats"].items())))
    return 0


def run_replay(path):
    d = json.load(open(path))
    mod = importlib.import_module(f"pbt.props.{d['property'].lower()}")
    info = rust.build()
    miri = rust.build_miri() if getattr(mod, "MIRI", False) else None
    R = Rust(info, miri)
    try:
        msg = judge(d["case"], R)
    finally:
        R.close()
    if msg is None:
        print(f"holds now: property={d['property']}")
        return 0
    print(msg)
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1
