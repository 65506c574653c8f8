"""Builds and loads the facts the rules read: the resolved MIR of /repo's crates (and of the Rust
that /repo's generator emits for the witness schemas), dumped by driver/driver.rs."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CACHE = os.environ.get("SA_CACHE", os.path.join(VERIF, ".cache"))
NIGHTLY = "nightly"


class BuildError(Exception):
    pass


class GenFailure(Exception):
    """The repository's generator did not produce (well-typed) code for a witness."""

    def __init__(self, kind, text):
        super().__init__(text)
        self.kind = kind
        self.text = text


def env(**kw):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["PLANUS_SKIP_FLATC"] = "1"
    e["RUSTUP_TOOLCHAIN"] = NIGHTLY
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update(kw)
    return e


def run(cmd, cwd, e, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def _hash_tree(h, root, exts=None):
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".cache", "__pycache__", "evidence", "seeded"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())


def repo_hash():
    h = hashlib.sha256()
    for sub in ("crates", "examples/rust"):
        _hash_tree(h, os.path.join(REPO, sub))
    for f in ("Cargo.toml", "Cargo.lock"):
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
    for sub in ("driver", "gen"):
        _hash_tree(h, os.path.join(VERIF, sub))
    return h.hexdigest()[:20]


def sysroot():
    return subprocess.check_output(["rustc", "+" + NIGHTLY, "--print", "sysroot"]).decode().strip()


def driver():
    src = os.path.join(VERIF, "driver", "driver.rs")
    with open(src, "rb") as f:
        hx = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(CACHE, "driver-" + hx)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        rc, o = run(["rustc", "+" + NIGHTLY, "-O", "--edition", "2021", src, "-o", tmp], VERIF, env())
        if rc != 0:
            raise BuildError("driver does not build:\n" + o)
        os.rename(tmp, out)
    return out


class Store:
    """One facts directory for the current content of /repo."""

    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.lock = open(os.path.join(CACHE, "lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.hash = repo_hash()
        self.dir = os.path.join(CACHE, "facts", self.hash)
        os.makedirs(self.dir, exist_ok=True)
        self.target = os.path.join(CACHE, "target")
        self.crates = {}
        self._gc()

    def _gc(self):
        base = os.path.join(CACHE, "facts")
        ds = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base) if d != self.hash)
        for _, d in ds[:-6]:
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)

    def _marker(self, name):
        return os.path.join(self.dir, name + ".done")

    def _done(self, name):
        return os.path.exists(self._marker(name))

    def _wrapped(self, out):
        # a wrapper path cargo has not seen: its freshness check would otherwise skip the workspace's units
        d = driver()
        wd = os.path.join(CACHE, "w")
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        w = os.path.join(wd, "d%d-%d" % (time.time_ns(), os.getpid()))
        os.link(d, w)
        return env(
            RUSTC_WORKSPACE_WRAPPER=w,
            LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
            SA_OUT=out,
            CARGO_TARGET_DIR=self.target,
            CARGO_INCREMENTAL="0",
        )

    # ---- facts of the workspace itself
    def workspace(self):
        if self._done("workspace"):
            return self.dir
        e = self._wrapped(self.dir)
        rc, o = run(["cargo", "check", "--workspace", "--offline"], REPO, e)
        if rc != 0:
            raise BuildError("cargo check failed:\n" + o[-6000:])
        need = ["planus", "planus_types", "planus_lexer", "planus_translation", "planus_codegen", "array_init_cursor", "planus_buffer_inspection", "planus-bin"]
        for n in need:
            if not os.path.exists(os.path.join(self.dir, n + ".json")):
                raise BuildError("no facts for crate %s (driver skipped?)\n%s" % (n, o[-3000:]))
        open(self._marker("workspace"), "w").close()
        return self.dir

    # ---- facts of the runtime crate under other feature sets
    def runtime_features(self, feats):
        name = "rt_" + ("_".join(feats) if feats else "none")
        out = os.path.join(self.dir, name)
        if not self._done(name):
            os.makedirs(out, exist_ok=True)
            e = self._wrapped(out)
            cmd = ["cargo", "check", "-p", "planus", "--lib", "--offline", "--no-default-features"]
            if feats:
                cmd += ["--features", ",".join(feats)]
            rc, o = run(cmd, REPO, e)
            if rc != 0:
                raise BuildError("cargo check (%s) failed:\n%s" % (name, o[-4000:]))
            if not os.path.exists(os.path.join(out, "planus.json")):
                raise BuildError("no facts for planus with features %s" % feats)
            open(self._marker(name), "w").close()
        return out

    # ---- facts of the runtime crates only (release: as compiled without debug assertions and overflow checks)
    def runtime(self, release=False):
        name = "rt_release" if release else "rt_debug"
        out = os.path.join(self.dir, name)
        if not self._done(name):
            if not release and self._done("workspace"):
                return self.crate("planus"), self.crate("array_init_cursor")
            os.makedirs(out, exist_ok=True)
            e = self._wrapped(out)
            if release:
                e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
                e["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
            rc, o = run(["cargo", "check", "-p", "planus", "--lib", "--offline"], REPO, e)
            if rc != 0:
                raise BuildError("cargo check (%s) failed:\n%s" % (name, o[-4000:]))
            for n in ("planus", "array_init_cursor"):
                if not os.path.exists(os.path.join(out, n + ".json")):
                    raise BuildError("no facts for %s (%s)" % (n, name))
            open(self._marker(name), "w").close()
        return self.load(os.path.join(out, "planus.json")), self.load(os.path.join(out, "array_init_cursor.json"))

    # ---- the generator, built from /repo's crates
    def generator(self):
        gd = os.path.join(self.dir, "gen")
        exe = os.path.join(self.dir, "sa-gen")
        if not os.path.exists(exe):
            shutil.rmtree(gd, ignore_errors=True)
            shutil.copytree(os.path.join(VERIF, "gen"), gd)
            man = os.path.join(gd, "Cargo.toml")
            with open(man) as f:
                t = f.read().replace("/repo/", REPO.rstrip("/") + "/")
            with open(man, "w") as f:
                f.write(t)
            shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(gd, "Cargo.lock"))
            e = env(CARGO_TARGET_DIR=self.target, CARGO_INCREMENTAL="0")
            rc, o = run(["cargo", "build", "--offline"], gd, e)
            if rc != 0:
                raise BuildError("generator build failed:\n" + o[-6000:])
            shutil.copy(os.path.join(self.target, "debug", "sa-gen"), exe + ".tmp")
            os.rename(exe + ".tmp", exe)
        return exe

    def generate(self, name, files):
        """files: {filename.fbs: text}; roots = every file. Returns {stem: rust text} and failures."""
        key = hashlib.sha256(json.dumps(files, sort_keys=True).encode()).hexdigest()[:10]
        out = os.path.join(self.dir, "wit_%s_%s" % (name, key))
        res = os.path.join(out, "result.json")
        if not os.path.exists(res):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            for f, t in files.items():
                os.makedirs(os.path.dirname(os.path.join(out, f)), exist_ok=True)
                with open(os.path.join(out, f), "w") as fh:
                    fh.write(t)
            rc, o = run([self.generator(), out] + sorted(f for f in files if f.endswith(".fbs") and not f.startswith("inc/")), out, env(), 300)
            with open(res, "w") as fh:
                json.dump({"rc": rc, "out": o}, fh)
        with open(res) as fh:
            r = json.load(fh)
        texts = {}
        for f in files:
            if f.startswith("inc/") or not f.endswith(".fbs"):
                continue
            p = os.path.join(out, os.path.basename(f)[:-4] + ".rs")
            if os.path.exists(p):
                with open(p) as fh:
                    texts[os.path.basename(f)[:-4]] = fh.read()
        return texts, r

    def witness(self, name, files, feats=("std", "vtable-cache", "string-cache", "bytes-cache")):
        """Generate Rust for the schemas, type-check it, and return the crate's facts."""
        texts, r = self.generate(name, files)
        if r["rc"] != 0:
            raise GenFailure("generate", r["out"][-4000:])
        return self.check_rust(name, {k + ".rs": v for k, v in texts.items()}, feats=feats), texts

    def check_rust(self, name, mods, feats=("std",), edition="2021", attrs=""):
        crate = "sa_witness_" + name
        key = hashlib.sha256(json.dumps([mods, list(feats), edition] + ([attrs] if attrs else []), sort_keys=True).encode()).hexdigest()[:10]
        marker = "wit_%s_check_%s" % (name, key)
        out = os.path.join(self.dir, marker)
        if not self._done(marker):
            shutil.rmtree(out, ignore_errors=True)
            src = os.path.join(out, "src")
            os.makedirs(src)
            lib = "#![allow(warnings)]\n" + attrs
            for m, t in sorted(mods.items()):
                with open(os.path.join(src, m), "w") as fh:
                    fh.write(t)
                lib += "pub mod %s;\n" % m[:-3]
            with open(os.path.join(src, "lib.rs"), "w") as fh:
                fh.write(lib)
            with open(os.path.join(out, "Cargo.toml"), "w") as fh:
                fh.write('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "%s"\n[lib]\n[dependencies]\n' % (crate, edition))
                fh.write('planus = { path = "%s/crates/planus", default-features = false, features = [%s] }\n' % (REPO, ",".join('"%s"' % f for f in feats)))
                fh.write('serde = { version = "1.0.228", default-features = false, features = ["alloc", "derive", "std"] }\n[workspace]\n')
            shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(out, "Cargo.lock"))
            e = self._wrapped(out)
            rc, o = run(["cargo", "check", "--offline", "--lib"], out, e)
            if rc != 0:
                if "error: could not compile `%s`" % crate in o or "could not compile `%s`" % crate in o:
                    raise GenFailure("typecheck", o[-5000:])
                raise BuildError("witness crate: cargo failed:\n" + o[-5000:])
            if not os.path.exists(os.path.join(out, crate + ".json")):
                raise BuildError("no facts for " + crate + "\n" + o[-2000:])
            open(self._marker(marker), "w").close()
        return self.load(os.path.join(out, crate + ".json"))

    def crate(self, name):
        self.workspace()
        return self.load(os.path.join(self.dir, name + ".json"))

    def load(self, path):
        if path not in self.crates:
            with open(path) as fh:
                self.crates[path] = Crate(json.load(fh))
        return self.crates[path]


class Fn:
    __slots__ = ("id", "path", "kind", "span", "name", "unsafe", "pub", "exported", "parent", "impl_self", "impl_trait", "impl_args", "trait_item", "in_trait", "generics", "value", "body", "promoted", "crate", "root")

    def __init__(self, crate, d):
        for k in self.__slots__:
            setattr(self, k, d.get(k))
        self.crate = crate

    def __repr__(self):
        return "<Fn %s>" % self.path

    @property
    def loc(self):
        return "%s:%s" % (rel(self.span[0]), self.span[1])

    def blocks(self):
        return self.body["blocks"]

    def calls(self):
        """(bb, callee, args, dest, span) of every call on a non-cleanup block."""
        for i, (st, t, cl) in enumerate(self.body["blocks"]):
            if not cl and t[0] == "call":
                yield i, t[1], t[2], t[3], t[6]


def rel(p):
    if p.startswith(REPO + "/"):
        return p[len(REPO) + 1:]
    i = p.find("/.cache/")
    return p if i < 0 else p[i + 1:]


class Crate:
    def __init__(self, d):
        self.name = d["crate"]
        self.types = d["types"]
        self.fns = [Fn(self, f) for f in d["fns"]]
        self.by_id = {f.id: f for f in self.fns}
        self.adts = {a["path"]: a for a in d["adts"]}
        for a in self.adts.values():
            a["_crate"] = self
            a["_generics"] = a["generics"]
        self.impls = d["impls"]
        self.traits = {t["path"]: t for t in d["traits"]}
        self.sigs = {s["id"]: s for s in d["sigs"]}
        self._ts = {}

    def ty(self, i):
        """Structural rendering of an interned type as a nested tuple."""
        if i in self._ts:
            return self._ts[i]
        t = self.types[i]
        k = t[0]
        if k == "adt":
            r = ("adt", t[1], tuple(self._arg(a) for a in t[2]))
        elif k in ("array",):
            r = ("array", self.ty(t[1]), tuple(t[2]))
        elif k in ("slice",):
            r = ("slice", self.ty(t[1]))
        elif k in ("ref", "ptr"):
            r = (k, self.ty(t[1]), t[2])
        elif k == "tuple":
            r = ("tuple", tuple(self.ty(x) for x in t[1]))
        elif k == "closure":
            r = ("closure", t[1])
        elif k == "fndef":
            r = ("fndef", t[1], t[2], tuple(self._arg(a) for a in t[3]))
        elif k == "proj":
            r = ("proj", t[1], tuple(self._arg(a) for a in t[2]))
        else:
            r = tuple(t)
        self._ts[i] = r
        return r

    def _arg(self, a):
        return self.ty(a) if isinstance(a, int) else tuple(a)

    def tys(self, i):
        return ty_str(self.ty(i))


def ty_str(t):
    k = t[0]
    if k == "adt":
        return t[1] + ("<" + ", ".join(ty_str(a) for a in t[2]) + ">" if t[2] else "")
    if k == "n":
        return str(t[1])
    if k == "p":
        return str(t[1])
    if k == "array":
        return "[%s; %s]" % (ty_str(t[1]), t[2][1])
    if k == "slice":
        return "[%s]" % ty_str(t[1])
    if k == "ref":
        return "&" + ("mut " if t[2] else "") + ty_str(t[1])
    if k == "ptr":
        return "*" + ("mut " if t[2] else "const ") + ty_str(t[1])
    if k == "tuple":
        return "(" + ", ".join(ty_str(x) for x in t[1]) + ")"
    if k in ("int", "float", "param"):
        return t[1]
    if k == "closure":
        return "{closure %s}" % t[1]
    if k == "fndef":
        return "fn " + t[1]
    if k in ("bool", "str", "char"):
        return k
    if k == "never":
        return "!"
    return str(t[1]) if len(t) > 1 else k


# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, pid, tier, level="other"):
        self.pid = pid
        self.tier = tier
        self.level = level
        self.t0 = time.time()
        self.viol = {}  # key -> text
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.obligations = 0
        self.discharged = 0

    def ob(self, ok, key, text, sample=None):
        """One obligation: discharged, or a violation under a line-number-free key."""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if sample and len(self.samples) < 12:
                self.samples.append(sample)
        else:
            self.viol.setdefault(key, text)
        return ok

    def fail(self, key, text):
        self.viol.setdefault(key, text)

    def floor(self, what, n, least):
        """Fail closed when the rule matched fewer instances than were counted by hand."""
        self.cov.setdefault("instances", {})[what] = n
        if n < least:
            self.fail("anchor:" + what, "rule instance count for '%s' is %d, below the %d confirmed on the reference tree" % (what, n, least))


def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    known = {}
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d.get("status") == "known":
                        known[(d["property"], d["key"])] = d["what"]
    return known


def finish(rep, rule, trusted):
    known = load_known()
    new = []
    for k, v in sorted(rep.viol.items()):
        if (rep.pid, k) in known:
            print("KNOWN-FINDING: property=%s %s" % (rep.pid, known[(rep.pid, k)]))
        else:
            new.append((k, v))
    ev = {
        "property": rep.pid,
        "tier": rep.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": rep.level,
        "coverage": dict(rep.cov),
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - rep.t0, 2),
        "violations": len(new),
    }
    ev["coverage"]["obligations"] = rep.obligations
    ev["coverage"]["discharged"] = rep.discharged
    ev["coverage"]["rule"] = rule
    ev["coverage"]["samples"] = rep.samples or ["(none)"]
    if rep.level == "proof":
        ev["coverage"]["checker_cmd"] = "python3 check.py %s" % rep.pid
        ev["coverage"]["trusted_base"] = trusted
    ev["coverage"]["explanation"] = rule
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %.1f s" % (rep.pid, rep.obligations, rep.discharged, ev["wall_s"]))
    for k, v in rep.cov.get("instances", {}).items():
        print("  analysed %-46s %d" % (k, v))
    if new:
        rp = os.path.join(VERIF, "evidence", rep.pid + ".violation.txt")
        with open(rp, "w") as f:
            for k, v in new:
                f.write("[%s]\n%s\n\n" % (k, v))
        for k, v in new:
            print("  - [%s] %s" % (k, v))
        print("VIOLATION property=%s replay=%s" % (rep.pid, rp))
        return 1
    rp = os.path.join(VERIF, "evidence", rep.pid + ".violation.txt")
    if os.path.exists(rp):
        os.unlink(rp)
    return 0
