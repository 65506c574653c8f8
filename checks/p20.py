"""No output after an error; success only after a complete write."""
import re

from sa import fe
from sa.absint import Adt, Ref, Sym, It, Sl, Stop, Budget, C, kv

TECHNIQUE = "abstract interpretation of the compiler's entry points: traces of every path, with tracked Cells"
LEVEL = "proved-static"
RULE = (
    "Every path of main, of every exported entry point of the translation crate and of every function that builds an error diagnostic is "
    "enumerated by abstract interpretation. (a) Each write to the error record only adds bits, each function building an error diagnostic leaves a non-empty record when "
    "given a non-empty error kind, and every error kind passed in a call is a non-empty constant. (b) An entry point returns a result only on paths on which the record was "
    "found empty after the last call that could report anything. (c) On each path of main, files are only created and output only printed after the translation "
    "returned a result; no result leads to failure; success is returned only when every write returned success, the written bytes are the whole of what was generated from that "
    "result, and they go to the file the command line names. (d) A function that runs another program returns a result only on paths on which every step and the program itself succeeded."
)
TRUSTED = ["std, clap, codespan and color-eyre behave as documented (write_all writes everything or returns an error)"]
ENTRY = "planus_translation::"
GEN = "planus_codegen::generate_"


def flag_types(c):
    """Types kept in a Cell field of this crate that are structs of this crate (the error record)."""
    out = set()
    for p, a in c.adts.items():
        for v in a["variants"]:
            for f in v["fields"]:
                t = c.ty(f[1])
                if t[0] == "adt" and t[1] == "core::cell::Cell" and t[2] and t[2][0][0] == "adt" and t[2][0][1] in c.adts:
                    out.add(t[2][0][1])
    return out


def derefd(t):
    while t[0] == "ref":
        t = t[1]
    return t


def check(store, rep):
    tr = store.crate("planus_translation")
    flags = flag_types(tr)
    rep.floor("error records (Cell fields)", len(flags), 1)
    record(tr, store, rep, flags)
    entries(tr, store, rep, flags)
    cli(store, rep)
    processes(store, rep)


def isflag(t, flags):
    t = derefd(t)
    return t[0] == "adt" and t[1] in flags


def record(tr, store, rep, flags):
    mods = {p.rsplit("::", 1)[0] for p in flags}
    eng = fe.Front([tr, store.crate("planus_types")])
    nset = nsev = nkind = 0
    for f in tr.fns:
        if not f.body:
            continue
        locs = [tr.ty(x) for x in f.body["locals"]]
        sets = sev = False
        for bb, cal, args, dest, span in f.calls():
            p = cal.get("f") or "?"
            if p.startswith("core::cell::Cell::<T>::") and cal.get("a") and isflag(tr._arg(cal["a"][0]), flags):
                op = p.rsplit("::", 1)[1]
                rep.ob(op in ("new", "get", "set"), "record-op:%s:%s" % (f.path, op), "%s (%s) changes the error record with Cell::%s" % (f.path, f.loc, op))
                sets |= op == "set"
            if p.endswith(("Diagnostic::<FileId>::error", "Diagnostic::<FileId>::bug")):
                sev = True
        if any("Severity" in repr(s) and ("'Error'" in repr(s) or "'Bug'" in repr(s)) for st, t, cl in f.blocks() for s in st if not cl):
            sev = True
        if sets or sev:
            try:
                ps = run_assuming(eng, f, flags)
            except (Budget, Stop) as e:
                rep.fail("engine:" + f.path, "%s (%s): not analysable: %s" % (f.path, f.loc, e))
                continue
            for st, v, a in ps:
                for e in st.ev:
                    if e[0] == "set":
                        old, new = fe.bits(eng, st, e[2]), fe.bits(eng, st, e[3])
                        nset += 1
                        rep.ob(old is not None and new is not None and eng.entails(st, new - old), "record-shrinks:" + f.path,
                               "%s (%s) replaces the error record by one that may lack errors recorded before" % (f.path, f.loc),
                               "%s: the error record only grows" % f.path)
                if sev:
                    nsev += 1
                    ok = False
                    for k, x in st.exp.items():
                        if isinstance(k, tuple) and k and k[0] == "cell":
                            b = fe.bits(eng, st, x)
                            ok |= b is not None and eng.entails(st, b - 1)
                    rep.ob(ok, "unrecorded:" + f.path, "%s (%s) reports an error on a path that leaves the error record empty: %s" % (f.path, f.loc, trace(st)),
                           "%s: reporting an error leaves the record non-empty" % f.path)
        # kinds handed on
        if f.path.rsplit("::", 1)[0] in mods or any(f.path.startswith(m + "::") for m in mods):
            continue
        const = None
        for bb, cal, args, dest, span in f.calls():
            for i, o in enumerate(args):
                t = tr.ty(o[1]["t"]) if o[0] == "k" else locs[o[1][0]] if len(o[1]) == 1 else None
                if t is None or not isflag(t, flags) or t[0] == "ref":
                    continue
                p = cal.get("f") or "?"
                if p.startswith("core::") or any(p.startswith((m + "::", "<" + m.split("::", 1)[1])) for m in mods):
                    continue
                nkind += 1
                ok = kind_ok(eng, tr, f, o, flags)
                rep.ob(ok, "empty-kind:%s:%s" % (f.path, cal.get("f")), "%s (%s:%s) passes an error kind to %s that may be empty" % (f.path, f.span[0], span[1], cal.get("f")))
    rep.floor("writes to the error record", nset, 1)
    rep.floor("paths that build an error diagnostic", nsev, 2)
    rep.floor("error kinds passed in calls", nkind, 30)


def trace(st):
    return " -> ".join(fe.name(e).rsplit("::", 1)[1] for e in fe.calls(st))[-300:]


def run_assuming(eng, f, flags):
    from sa.absint import State
    st = State()
    eng.root = f
    eng.steps = 0
    a = fe.args_of(eng, st, f)
    for i, x in enumerate(a):
        if isflag(f.crate.ty(f.body["locals"][i + 1]), flags):
            b = fe.bits(eng, st, x)
            if b is not None:
                eng.add_ge(st, b - 1)
    return [(s, eng.expand(s, v), a) for s, v in eng.run(f, {}, a, st)]


def kind_ok(eng, tr, f, o, flags, depth=0):
    """A constant that is not empty, or a parameter (whose callers are checked)."""
    from sa.absint import State
    if o[0] == "k":
        class Fr:
            fn, subst, fid, caller, depth = f, {}, 0, None, 0
        st = State()
        try:
            b = fe.bits(eng, st, eng.konst(st, Fr, o[1]))
        except (Stop, Budget):
            return False
        return b is not None and eng.entails(st, b - 1)
    l = o[1][0]
    if len(o[1]) > 1 or depth > 6:
        return False
    if 1 <= l <= f.body["argc"]:
        return True
    defs = []
    for st, t, cl in f.blocks():
        if cl:
            continue
        for s in st:
            if s[0] == "=" and s[1] == [l]:
                defs.append(s[2])
        if t[0] == "call" and t[3] == [l]:
            return (t[1].get("f") or "").endswith(("BitOr::bitor", "::union", "Clone::clone")) and any(kind_ok(eng, tr, f, x, flags, depth + 1) for x in t[2] if x[0] == "k" or len(x[1]) == 1)
    return bool(defs) and all(r[0] == "use" and kind_ok(eng, tr, f, r[1], flags, depth + 1) for r in defs)


def entries(tr, store, rep, flags):
    """Exported functions that return a result."""
    eng = fe.Front([tr, store.crate("planus_types")])
    n = 0
    own = eng.owners()
    for f in tr.fns:
        if not f.body or not f.exported or f.kind == "closure":
            continue
        rt = tr.ty(f.body["locals"][0])
        if not (rt[0] == "adt" and rt[1] in ("core::option::Option", "core::result::Result")):
            continue
        if f.impl_trait or not f.path.startswith(ENTRY) or not works(tr, f, own):
            continue
        n += 1
        try:
            ps = fe.paths(eng, f)
        except (Budget, Stop) as e:
            rep.fail("engine:" + f.path, "%s (%s): not analysable: %s" % (f.path, f.loc, e))
            continue
        some = 0
        for st, v, a in ps:
            vn = fe.variant(eng, st, v)
            if vn in ("None", "Err"):
                continue
            some += 1
            ok = False
            for k, x in st.exp.items():
                if isinstance(k, tuple) and k and k[0] == "cell":
                    b = fe.bits(eng, st, x)
                    ok |= b is not None and eng.entails(st, -b)
            if not ok:
                # the caller asked for it
                for x in a:
                    if isinstance(x, C) and x.op in ("b", "op", "atom") or isinstance(x, C):
                        y, no = eng.branch(st, x)
                        ok |= not no
            rep.ob(ok, "result-despite-errors:" + f.path, "%s (%s) returns a result on a path on which errors may have been reported: %s" % (f.path, f.loc, trace(st)),
                   "%s: a result implies an empty error record" % f.path)
        rep.ob(some > 0, "never:" + f.path, "%s (%s) never returns a result" % (f.path, f.loc))
    rep.floor("exported entry points", n, 2)


def works(tr, f, own):
    """Does f create a context itself (so that it decides whether there is a result)?"""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g.id in seen or not g.body:
            continue
        seen.add(g.id)
        if any(isinstance(tr.ty(x), tuple) and tr.ty(x)[0] == "adt" and tr.ty(x)[1] in own for x in g.body["locals"]):
            return True
        if len(seen) < 4:
            todo += list(fe.local_callees(tr, g))
    return False


# ------------------------------------------------------------------ command line
WRITE = ("core::io::write::Write::write_all", "std::io::Write::write_all", "std::fs::write")
PRINT = ("std::io::stdio::_print", "std::io::_print")
KEEP = ("::deref", "::as_ref", "::borrow", "::as_path", "::as_str", "::clone", "::to_owned", "::to_path_buf", "::into", "::from", "::new", "::as_os_str", "::to_string")
PARTIAL = ("::Write::write", "::Write::write_vectored", "::write_fmt")
CREATE = ("std::fs::File::create", "std::fs::File::create_new", "std::fs::OpenOptions::open", "std::fs::File::options", "std::fs::write", "std::fs::copy", "std::fs::rename",
          "std::fs::remove_file", "std::fs::create_dir", "std::fs::create_dir_all", "std::fs::File::set_len", "std::fs::remove_dir_all", "std::fs::hard_link")


def is_translate(e):
    n = fe.name(e)
    return n.startswith(ENTRY) and n.count("::") >= 1


def derives(eng, st, v, src, calls, depth=0):
    """Is the value (part of) the result of the call src?"""
    v = eng.expand(st, v)
    r = eng.expand(st, src[3])
    if v is src[3] or v is r or (hasattr(v, "k") and hasattr(r, "k") and v.k() == r.k()):
        return True
    if isinstance(r, Adt) and depth < 4:
        for x in r.fields:
            if derives(eng, st, v, (0, 0, 0, x), calls, depth + 1):
                return True
    reg, rr = region(eng, st, v), region(eng, st, r)
    if reg is not None and reg == rr:
        return True
    if isinstance(v, Ref) and depth < 4:
        try:
            return derives(eng, st, eng.load(st, v.cell, v.path), src, calls, depth + 1)
        except Stop:
            return False
    return False


def region(eng, st, v):
    v = eng.expand(st, v)
    if isinstance(v, Sl):
        return v.region
    if isinstance(v, It):
        return v.f.get("region")
    return None


def cli(store, rep):
    c = store.crate("planus-bin")
    eng = fe.Front([c])
    mains = [f for f in c.fns if f.body and f.name == "main" and f.path.count("::") == 1]
    rep.floor("main functions", len(mains), 1)
    npath = ntr = nwrite = nsucc = 0
    for f in mains:
        try:
            ps = fe.paths(eng, f)
        except (Budget, Stop) as e:
            rep.fail("engine:" + f.path, "%s (%s): not analysable: %s" % (f.path, f.loc, e))
            continue
        for st, v, a in ps:
            npath += 1
            cs = fe.calls(st)
            where = next((e[4].path for e in reversed(cs) if not fe.name(e).startswith("core::")), f.path)
            ts = [e for e in cs if is_translate(e)]
            trs = [e for e in ts if fe.variant(eng, st, e[3]) in ("Some", "Ok")]
            none = [e for e in ts if fe.variant(eng, st, e[3]) not in ("Some", "Ok")]
            ntr += len(ts)
            creates = [e for e in cs if fe.name(e).startswith(CREATE)]
            writes = [e for e in cs if fe.name(e).startswith(WRITE)]
            prints = [e for e in cs if fe.name(e) in PRINT]
            first = min([cs.index(e) for e in ts] or [len(cs)])
            for e in creates + writes + prints:
                i = cs.index(e)
                if e in prints and not ts:
                    continue
                before = [t for t in trs if cs.index(t) < i]
                rep.ob(bool(before), "output-before-result:" + e[4].path, "%s (%s, line %s) reaches %s although no translation has returned a result on this path: %s" % (
                    e[4].path, e[4].loc, e[5], fe.name(e), trace(st)), "%s: %s only after a result" % (e[4].path, fe.name(e).rsplit("::", 1)[1]))
            vn = fe.variant(eng, st, v)
            code = None
            if isinstance(v, Adt) and vn == "Ok":
                code = fe.bits(eng, st, v.fields[0])
            fail = vn == "Err" or (code is not None and eng.entails(st, code - 1))
            succ = vn == "Ok" and code is not None and eng.entails(st, -code)
            if none:
                rep.ob(fail, "success-despite-errors:" + none[0][4].path, "%s (%s, line %s): the translation returned no result, but the process does not exit with a failure" % (
                    none[0][4].path, none[0][4].loc, none[0][5]), "%s: no result leads to failure" % none[0][4].path)
                rep.ob(not creates and not writes, "output-despite-errors:" + none[0][4].path, "%s (%s): output is written although the translation returned no result: %s" % (none[0][4].path, none[0][4].loc, trace(st)))
            if not (succ or fail) and (ts or creates or writes):
                rep.fail("exit:" + where, "%s: the exit status cannot be determined on the path %s" % (where, trace(st)))
            if succ and (creates or writes):
                nsucc += 1
                for e in cs:
                    t = eng.expand(st, e[3])
                    n = fe.name(e)
                    if any(n.endswith(q) for q in PARTIAL):
                        rep.fail("partial-write:" + e[4].path, "%s (%s, line %s) uses %s, which may write only a part" % (e[4].path, e[4].loc, e[5], n))
                    if n.startswith(CREATE) or n.startswith(WRITE) or n.endswith(("::flush", "::into_inner", "::sync_all", "::finish")):
                        r = fe.variant(eng, st, t)
                        ok = r == "Ok" or not (isinstance(t, Sym) and t.ty[0] == "adt" and t.ty[1] == "core::result::Result" or isinstance(t, Adt) and t.path == "core::result::Result")
                        rep.ob(ok, "ignored-failure:%s:%s" % (e[4].path, n.rsplit("::", 1)[1]),
                               "%s (%s, line %s): success is returned although %s may have failed" % (e[4].path, e[4].loc, e[5], n), "%s: success needs %s to succeed" % (e[4].path, n.rsplit("::", 1)[1]))
                buffered = [e for e in cs if "BufWriter" in fe.name(e) and fe.name(e).endswith(("::new", "::with_capacity"))]
                if buffered:
                    last = max(cs.index(e) for e in writes) if writes else 0
                    rep.ob(any(fe.name(e).endswith(("::flush", "::into_inner")) and cs.index(e) > last for e in cs), "unflushed:" + where, "%s: a buffered writer is dropped without flushing" % where)
                gens = [e for e in cs if fe.name(e).startswith(GEN)]
                rep.ob(len(writes) == 1, "writes:" + where, "%s: success is returned after %d writes of output instead of one: %s" % (where, len(writes), trace(st)), "%s: one complete write" % where)
                for e in writes:
                    nwrite += 1
                    data = e[6][-1]
                    src = [g for g in gens if derives(eng, st, data, g, cs)]
                    whole = False
                    for g in src:
                        x = eng.expand(st, data)
                        r = eng.expand(st, g[3])
                        if isinstance(r, Adt) and r.fields:
                            r = eng.expand(st, r.fields[0])
                        while isinstance(x, Ref):
                            x = eng.expand(st, eng.load(st, x.cell, x.path))
                        if isinstance(x, Sl) and isinstance(r, It):
                            whole |= eng.entails_eq(st, x.start) and eng.entails_eq(st, x.n - r.f["n"])
                        elif x is r or isinstance(x, It):
                            whole = True
                    rep.ob(whole, "content:" + e[4].path, "%s (%s, line %s) writes something else than the whole generated text" % (e[4].path, e[4].loc, e[5]),
                           "%s: the written bytes are the whole generated text" % e[4].path)
                    for g in src:
                        rep.ob(any(derives(eng, st, g[6][0], t, cs) for t in trs), "generated-from:" + g[4].path, "%s (%s, line %s) generates from something else than the translation's result" % (g[4].path, g[4].loc, g[5]))
                outs = [e for e in creates]
                for e in outs:
                    pth = path_of(eng, st, e[2][0], e[6][0])
                    rep.ob("output" in pth, "target:" + e[4].path, "%s (%s, line %s) creates %s instead of the output file of the command line" % (e[4].path, e[4].loc, e[5], pth or "another file"),
                           "%s: writes to %s" % (e[4].path, pth))
    rep.floor("paths of main", npath, 12)
    rep.floor("translations on paths of main", ntr, 6)
    rep.floor("paths that succeed after writing a file", nsucc, 2)
    rep.floor("complete writes", nwrite, 2)


def path_of(eng, st, v, then, depth=0):
    """The field of the parsed command line a value comes from (through conversions that keep the value)."""
    out = repr(v) + repr(then)
    x = v = eng.expand(st, v)
    if isinstance(v, Ref):
        try:
            v = eng.expand(st, eng.load(st, v.cell, v.path))
            out += repr(v)
        except Stop:
            pass
    m = re.findall(r"parse[\w.<>: ]*", out)
    if m:
        return m[0]
    if depth < 6:
        for e in reversed(fe.calls(st)):
            r = eng.expand(st, e[3])
            if kv(r) in (kv(x), kv(v)) and fe.name(e).endswith(KEEP) and e[2]:
                return path_of(eng, st, e[2][0], e[6][0], depth + 1)
    return out[:120]


# ------------------------------------------------------------------ formatter run on the generated text
WAIT = ("::wait_with_output", "::wait", "::output", "::status", "::try_wait")
FALLIBLE = ("::write_all", "::spawn", "::flush") + WAIT


def processes(store, rep):
    """Text that went through another program is only used if that program got all of it and succeeded."""
    c = store.crate("planus_codegen")
    eng = fe.Front([c])
    n = 0
    for f in c.fns:
        if not f.body or f.kind == "closure" or not any((cal.get("f") or "").startswith("std::process::") and (cal.get("f") or "").endswith(WAIT) for _, cal, *_ in f.calls()):
            continue
        try:
            ps = fe.paths(eng, f)
        except (Budget, Stop) as e:
            rep.fail("engine:" + f.path, "%s (%s): not analysable: %s" % (f.path, f.loc, e))
            continue
        for st, v, a in ps:
            if fe.variant(eng, st, v) in ("Err", "None"):
                continue
            n += 1
            cs = fe.calls(st)
            for i, e in enumerate(cs):
                if not fe.name(e).endswith(FALLIBLE) or not fe.name(e).startswith(("std::process", "core::io", "std::io")):
                    continue
                r = eng.expand(st, e[3])
                ok = fe.variant(eng, st, r) == "Ok"
                for g in cs[i + 1:]:
                    if any(kv(eng.expand(st, x)) == kv(r) for x in g[2]) and fe.variant(eng, st, g[3]) == "Ok":
                        ok = True
                rep.ob(ok, "ignored-failure:%s:%s" % (f.path, fe.name(e).rsplit("::", 1)[1]), "%s (%s, line %s): text is returned although %s may have failed" % (f.path, f.loc, e[5], fe.name(e)),
                       "%s: a result needs %s to succeed" % (f.path, fe.name(e).rsplit("::", 1)[1]))
            waits = [i for i, e in enumerate(cs) if fe.name(e).startswith("std::process") and fe.name(e).endswith(WAIT)]
            for k, i in enumerate(waits):
                nxt = waits[k + 1] if k + 1 < len(waits) else len(cs)
                ok = False
                for e in cs[i:nxt]:
                    if fe.name(e) == "std::process::ExitStatus::success":
                        yes, no = eng.branch(st, eng.expand(st, e[3]))
                        ok |= not no
                rep.ob(ok, "unchecked-status:" + f.path, "%s (%s, line %s): text is returned although the program run may have failed" % (f.path, f.loc, cs[i][5]), "%s: a result needs the program run to succeed" % f.path)
    rep.floor("results made with another program", n, 1)
