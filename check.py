#!/usr/bin/env python3
"""Driver of the runtime monitors: builds the monitor binaries of one property
against /repo's working tree, runs them, and turns what they observed into a
verdict and an evidence file.

    python3 check.py C01            # tier from VERIF_TIER (quick by default)
    python3 check.py C01 thorough

Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: no
verdict (does not build, a harness mistake, a timeout).
"""
import collections, glob, hashlib, json, os, re, shutil, subprocess, sys, tarfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
TOOLCHAIN = "1.74.0"
BUDGET = float(os.environ.get("MONITOR_BUDGET", "0"))

sys.path.insert(0, VERIF)
from checks import CHECKS, CONFIGS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def env_base():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTC", "CARGO_INCREMENTAL",
              "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE"):
        e.pop(k, None)
    return e


def make_table():
    """src/bn256/fr/table.rs is generated (git-ignored): make it anew when it
    is missing or is not what its generator writes now."""
    gen = os.path.join(REPO, "script/bn256.py")
    table = os.path.join(REPO, "src/bn256/fr/table.rs")
    if not os.path.exists(gen):
        return
    import tempfile
    d = tempfile.mkdtemp(prefix="table-", dir=TARGET)
    try:
        os.makedirs(os.path.join(d, "src/bn256/fr"))
        p = subprocess.run([sys.executable, gen], cwd=d, capture_output=True, text=True, timeout=300)
        new = os.path.join(d, "src/bn256/fr/table.rs")
        if p.returncode == 0 and os.path.exists(new):
            b = open(new, "rb").read()
            old = open(table, "rb").read() if os.path.exists(table) else None
            if b != old:
                with open(table, "wb") as f:
                    f.write(b)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def words():
    """Integer literals of the sources under test, with the number of times each occurs."""
    vals = collections.Counter()
    for root in ("src", "derive/src"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            if "/tests" in d:
                continue
            for f in sorted(fs):
                if not f.endswith(".rs") or f == "table.rs":
                    continue
                s = open(os.path.join(d, f), errors="replace").read()
                for m in re.finditer(r"\b0x([0-9a-fA-F_]{1,200})", s):
                    h = m.group(1).replace("_", "")
                    if h:
                        vals[int(h, 16)] += 1
                for m in re.finditer(r"(?<![\w.])(\d[\d_]*)", s):
                    t = m.group(1).replace("_", "")
                    if len(t) < 200:
                        vals[int(t)] += 1
                for m in re.finditer(r'"([0-9a-fA-F]{8,200})"', s):
                    vals[int(m.group(1), 16)] += 1
    return {v: n for v, n in vals.items() if v.bit_length() <= 512}


def dictionary():
    """The words as an input dictionary. Those that occur more often than when
    tools/words.txt was written are marked: monitors prefer them as inputs. The
    dictionary only adds inputs; no verdict depends on it."""
    old = {}
    try:
        for l in open(os.path.join(VERIF, "tools", "words.txt")):
            v, n = l.split()
            old[int(v, 16)] = int(n)
    except OSError:
        pass
    path = os.path.join(TARGET, "dict.txt")
    tmp = path + f".{os.getpid()}"
    with open(tmp, "w") as f:
        for v, n in sorted(words().items()):
            # 0, 1 and 2 are everywhere: they say nothing
            f.write("%s%x\n" % ("+" if old and v > 2 and n > old.get(v, 0) else "", v))
    os.replace(tmp, path)
    return path


def nightly(cmd, e):
    return subprocess.run(cmd, env=e, capture_output=True, text=True).stdout.strip()


VENDOR_LOCK = threading.Lock()


def vendor_flags(e):
    """A directory source with the crates of the harness and of the standard
    library, which is rebuilt for ThreadSanitizer and for Miri."""
    d = os.path.join(TARGET, "vendor")
    with VENDOR_LOCK:
        os.makedirs(d, exist_ok=True)
        lock = open(os.path.join(VERIF, "harness/Cargo.lock")).read()
        for m in re.finditer(r'\[\[package\]\]\nname = "(.*?)"\nversion = "(.*?)"\nsource = "registry.*?"\nchecksum = "(.*?)"', lock):
            n, v, c = m.groups()
            p = os.path.join(d, f"{n}-{v}")
            if os.path.exists(os.path.join(p, ".cargo-checksum.json")):
                continue
            for f in glob.glob(f"/root/.cargo/registry/cache/*/{n}-{v}.crate")[:1]:
                tarfile.open(f).extractall(d)
                with open(os.path.join(p, ".cargo-checksum.json"), "w") as f:
                    json.dump({"files": {}, "package": c}, f)
        sysroot = nightly(["rustc", "+nightly", "--print", "sysroot"], dict(e, RUSTUP_TOOLCHAIN="nightly"))
        for p in glob.glob(os.path.join(sysroot, "lib/rustlib/src/rust/library/vendor/*")):
            q = os.path.join(d, os.path.basename(p))
            if not os.path.lexists(q):
                os.symlink(p, q)
    return ["--config", 'source.crates-io.replace-with="v"', "--config", f'source.v.directory="{d}"']


def tree_state():
    """A digest of everything that the monitors are built from."""
    h = hashlib.sha256()
    for top in (REPO, os.path.join(VERIF, "harness")):
        for d, ds, fs in sorted(os.walk(top)):
            ds[:] = sorted(x for x in ds if not (d == top and x in (".git", "target")) and x != "target")
            for f in sorted(fs):
                p = os.path.join(d, f)
                if not f.endswith((".rs", ".toml", ".lock", ".py")) or os.path.islink(p):
                    continue
                h.update(p.encode() + b"\0" + hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()


def forget(tdir, state):
    """Cargo goes by the times of files. Where the target directory was last
    used with other sources, whatever their times, the crates are built anew."""
    stamp = os.path.join(tdir, "sources.sha256")
    try:
        if open(stamp).read() == state:
            return
    except OSError:
        pass
    for p in glob.glob(os.path.join(tdir, "**", ".fingerprint"), recursive=True):
        for q in glob.glob(os.path.join(p, "halo2curves*")) + glob.glob(os.path.join(p, "h2c-monitor*")):
            shutil.rmtree(q, ignore_errors=True)
    os.makedirs(tdir, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(state)


def link32():
    """What a 32-bit program is linked from: the libraries are here without the
    files of a development package."""
    d = os.path.join(TARGET, "link32")
    os.makedirs(d, exist_ok=True)
    for n, v in (("c", 6), ("m", 6), ("dl", 2), ("pthread", 0), ("rt", 1), ("util", 1), ("gcc_s", 1)):
        q = os.path.join(d, f"lib{n}.so")
        if not os.path.lexists(q):
            os.symlink(f"/usr/lib32/lib{n}.so.{v}", q)
    subprocess.run(["gcc", "-m32", "-c", os.path.join(VERIF, "harness/i686/crt.S"), "-o", os.path.join(d, "crt.o")])
    return f"-C relocation-model=static -C link-arg=-nostartfiles -C link-arg=-no-pie -C link-arg={d}/crt.o -C link-arg=-L{d}"


class Built:
    def __init__(self, conf):
        self.conf, self.err, self.bindir, self.log, self.note = conf, None, None, "", None


def build(conf, bins):
    c = CONFIGS[conf]
    e = env_base()
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, c.get("dir", conf))
    flags = link32() if c.get("link32") else c.get("rustflags", "")
    if flags:
        e["RUSTFLAGS"] = flags
    if c.get("rustc") == "nightly":
        # the nightly compiler under the old cargo, for the sanitizer flags
        e["RUSTC"] = nightly(["rustup", "which", "rustc", "--toolchain", "nightly"], e)
    cargo = c.get("cargo", TOOLCHAIN)
    if cargo != TOOLCHAIN:
        e["RUSTUP_TOOLCHAIN"] = cargo
    cmd = ["cargo", "+" + cargo, "build", "--offline", "--profile", c["profile"]]
    if c.get("vendor"):
        cmd += vendor_flags(e)
    if c.get("features"):
        cmd += ["--features", c["features"]]
    if c.get("target"):
        cmd += ["--target", c["target"]]
    cmd += c.get("args", [])
    for b in bins:
        cmd += ["--bin", b]
    b = Built(conf)
    forget(e["CARGO_TARGET_DIR"], tree_state())
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 and c.get("fallback"):
        # the hook does not fit this tree any more: without it
        b.note = f"build of {conf} failed, built without the hook: {p.stdout[-1500:]}"
        e.pop("RUSTFLAGS", None)
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
    b.log = p.stdout
    if p.returncode != 0:
        b.err = p.stdout[-6000:]
    prof = "debug" if c["profile"] == "dev" else c["profile"]
    b.bindir = os.path.join(e["CARGO_TARGET_DIR"], c.get("target", ""), prof)
    return b


def build_all(need):
    """need: {config: set(bins)} -> {config: Built}; the configs build at once."""
    out, ts = {}, []

    def go(conf, bins):
        out[conf] = build(conf, sorted(bins))
    for conf, bins in need.items():
        t = threading.Thread(target=go, args=(conf, bins))
        t.start()
        ts.append(t)
    for t in ts:
        t.join()
    return out


CRASH = re.compile(r"MONITOR-CRASH signal=(\d+) task=(.*) op=(.*) case=(\d+)")
SAN = re.compile(r"(?:ERROR: |WARNING: )(AddressSanitizer|ThreadSanitizer|LeakSanitizer|MemorySanitizer)[^\n]*")


def valgrind_reports(path):
    """The first report before every mark of the monitor."""
    out, cur = {}, ""
    with open(path, errors="replace") as f:
        for x in f:
            x = re.sub(r"^[*=]+\d+[*=]+ ?", "", x)
            if x.startswith("ABOVE "):
                out.setdefault(x[6:].strip(), cur[:2500])
                cur = ""
            elif len(cur) < 4000:
                cur += x
    return out


def run_bin(prop, b, spec, bindir, conf, seed, tier, dict_path, deadline):
    """One monitor process: its report, violations and errors."""
    out = os.path.join(TARGET, f"report-{prop}-{conf}-{spec['bin']}-{os.getpid()}.json")
    for f in (out, out + ".digests"):
        if os.path.exists(f):
            os.remove(f)
    cmd = [os.path.join(bindir, spec["bin"]), "--seed", str(seed), "--tier", tier,
           "--scale", str(spec.get("scale", 1)), "--config", conf, "--out", out, "--dict", dict_path,
           "--threads", str(spec.get("threads", 8))]
    if spec.get("only"):
        cmd += ["--only", spec["only"]]
    log_file = out + ".valgrind"
    if spec.get("valgrind"):
        cmd = ["valgrind", "--error-limit=no", "--log-file=" + log_file] + spec["valgrind"] + cmd
    e = env_base()
    e.update(CONFIGS[conf].get("env", {}))
    e.update(spec.get("env", {}))
    limit = max(5.0, deadline - time.time())
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=TARGET, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE)
    timed_out = False
    try:
        so, se = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        timed_out = True
        p.kill()
        so, se = p.communicate()
    so, se = so.decode(errors="replace"), se.decode(errors="replace")
    r = {"conf": conf, "bin": spec["bin"], "cmd": cmd, "wall": time.time() - t0, "violations": [], "errors": [],
         "report": None, "stdout": so, "stderr": se, "digests": {}, "env": e}
    if os.path.exists(out):
        try:
            r["report"] = json.load(open(out))
        finally:
            os.remove(out)
    if os.path.exists(out + ".digests"):
        r["digests"] = read_digests(out + ".digests")
        os.remove(out + ".digests")
    if "sanitizer=thread" in CONFIGS[conf].get("rustflags", ""):
        reports = tsan_reports(se)
        r["violations"] += [x for x in reports if x]
        r["foreign"] = reports.count(None)
        san = None
    else:
        san = SAN.search(se)
    if san:
        i = se.find(san.group(0))
        r["violations"].append({"sig": "sanitizer/" + san_sig(se[i:]), "detail": se[i:i + 6000], "task": "", "case": 0})
    m = CRASH.search(se)
    if m:
        r["violations"].append({
            "sig": f"{m.group(2)}/{m.group(3)}/signal-{int(m.group(1))}",
            "detail": "the process was killed by signal %s while running %s of task %s (case %s)\n%s" % (
                m.group(1), m.group(3), m.group(2), m.group(4), se[-3000:]),
            "task": m.group(2), "case": int(m.group(4))})
    rep = r["report"]
    if os.path.exists(log_file):
        above = valgrind_reports(log_file)
        os.remove(log_file)
        for v in rep["violations"] if rep else []:
            v["detail"] += "\n" + above.get(v["sig"], "")
    if rep:
        r["violations"] += rep["violations"]
        r["errors"] += rep["harness_errors"] + rep["inconclusive"]
        if rep["tasks_planned"] == 0:
            r["errors"].append("no task ran")
        for t in rep["tasks"]:
            if t["evaluations"] == 0 and not rep["violations"]:
                r["errors"].append("task observed nothing: " + t["task"])
    elif not r["violations"]:
        r["errors"].append("%s (%s): %s rc=%s\n%s" % (
            spec["bin"], conf, "timed out" if timed_out else "no report", p.returncode, se[-3000:]))
    return r


def run_miri(spec, seed, deadline):
    """The interpreter of MIR over small workloads, each part under a few
    schedules: one step is one evaluation."""
    e = env_base()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri")
    base = ["-Zmiri-disable-isolation", "-Zmiri-tree-borrows", "-Zmiri-permissive-provenance", "-Zmiri-ignore-leaks"]
    forget(e["CARGO_TARGET_DIR"], tree_state())
    vend = vendor_flags(e)
    work = [(p, seed * 1000 + i) for p, n in spec["parts"].items() for i in range(n)]
    t0 = time.time()
    r = {"conf": "miri", "bin": "miri", "cmd": ["cargo", "+nightly", "miri", "run", "--offline"] + vend + ["--bin", "miri", "--"],
         "wall": 0, "violations": [], "errors": [], "stdout": "", "stderr": "", "digests": {}, "env": e, "notes": []}
    tasks, samples, lock = [], [], threading.Lock()

    def one(part, sd):
        ee = dict(e, MIRIFLAGS=" ".join(base + [f"-Zmiri-seed={sd}"] + spec.get("flags", [])))
        p = subprocess.Popen(r["cmd"] + [part, str(spec.get("depth", 1))], cwd=os.path.join(VERIF, "harness"), env=ee, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            so, se = p.communicate(timeout=max(5.0, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            so, se = p.communicate()
        so, se = so.decode(errors="replace"), se.decode(errors="replace")
        steps = re.findall(r"^MIRI-STEP (.*) [\d.]+s$", so, re.M)
        with lock:
            name = f"miri/{part}/seed {sd}"
            tasks.append({"task": name, "evaluations": len(steps), "distinct_nontrivial": len(steps), "fingerprints_not_stored": 0,
                          "classes": {"interpreted steps": len(steps)}})
            samples.extend(f"{name}: {x}" for x in steps[:2])
            last = re.findall(r"^MIRI-BEGIN (.*)$", so, re.M)[-1:]
            ub = re.search(r"error: (Undefined Behavior|[^\n]*data race|the evaluated program deadlocked|abnormal termination)[^\n]*", se)
            pan = re.search(r"panicked at (\S+?):(\d+):\d+:\n([^\n]*)", se)
            if ub:
                fr = re.search(r"(?:-->|at) (/repo/\S+?):\d+", se) or re.search(r"(?:-->|at) (\S+?):\d+", se)
                r["violations"].append({"sig": "miri/%s %s" % (ub.group(0)[7:100], fr.group(1) if fr else ""), "detail": f"in {last} of part {part}\n" + se[-5000:],
                                        "task": name, "case": 0})
            elif pan and "src/bin/miri.rs" not in pan.group(1):
                r["violations"].append({"sig": "miri/panic in %s" % ",".join(last), "detail": f"in {last} of part {part}\n" + pan.group(0), "task": name, "case": 0})
            elif "MIRI-DONE" not in so:
                r["notes"].append(f"miri part {part} seed {sd} stopped in {last} after {len(steps)} steps: {(so + se)[-700:]}")

    # the first builds; the others find it built
    ths = [threading.Thread(target=one, args=w) for w in work]
    for w in range(0, len(ths), 8):
        for t in ths[w:w + 8]:
            t.start()
        for t in ths[w:w + 8]:
            t.join()
    r["wall"] = time.time() - t0
    r["report"] = {"tasks": sorted(tasks, key=lambda t: t["task"]), "samples": samples, "tasks_planned": len(work)}
    return r


def tsan_reports(se):
    """Data races on memory that the library under test accesses: in some
    access the innermost frame outside of the standard library is its own."""
    out = []
    for blk in re.findall(r"WARNING: ThreadSanitizer: .*?(?=\n==================|\Z)", se, re.S):
        head = blk.split("\n")[0]
        secs, cur = [], None
        for line in blk.split("\n")[1:]:
            if re.match(r"  \S", line):
                cur = [line.strip(), []]
                secs.append(cur)
            elif cur is not None and re.match(r"\s+#\d+ ", line):
                cur[1].append(line.strip())
        mine = []
        for title, frames in secs:
            if "data race" in head and not re.match(r"(Previous )?(atomic )?(read|write) of size", title, re.I):
                continue
            for f in frames:
                m = re.search(r" (/\S+?):\d+", f)
                if not m or "/rustlib/" in m.group(1) or m.group(1).startswith("/rustc/"):
                    continue
                if m.group(1).startswith(REPO + "/"):
                    mine.append(f)
                break
        if mine:
            fr = re.search(r"#\d+ (.*) (/repo/\S+?):(\d+)", mine[0])
            out.append({"sig": "tsan/%s %s" % (re.sub(r" \(pid.*", "", head[9:]), fr.group(2) if fr else ""), "detail": blk[:6000], "task": "", "case": 0})
        else:
            out.append(None)
    return out


def read_digests(path):
    b = open(path, "rb").read()
    out, i = {}, 0
    while i < len(b):
        n = int.from_bytes(b[i:i + 8], "little")
        name = b[i + 8:i + 8 + n].decode()
        i += 8 + n
        n = int.from_bytes(b[i:i + 8], "little")
        out[name] = b[i + 8:i + 8 + 8 * n]
        i += 8 + 8 * n
    return out


def dump(r, task, idx):
    """The record of one case, operation by operation."""
    cmd = list(r["cmd"])
    i = cmd.index("--out")
    del cmd[i:i + 2]
    cmd += ["--only", task, "--dump", str(idx)]
    try:
        p = subprocess.run(cmd, cwd=TARGET, env=r["env"], capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return []
    pre = f"DUMP {task} "
    return [x[len(pre):] for x in p.stderr.split("\n") if x.startswith(pre)]


def cross(results):
    """Compares the records of the runs with those of the first run."""
    viol, errs = [], []
    base = results[0]
    for r in results[1:]:
        if r["bin"] != base["bin"]:
            continue
        if not r["digests"] or not base["digests"]:
            if not (r["violations"] or base["violations"]):
                errs.append("no records to compare")
            continue
        for task, a in base["digests"].items():
            b = r["digests"].get(task)
            if b is None:
                errs.append(f"no record of {task} in {r['conf']}")
                continue
            if a == b:
                continue
            n = min(len(a), len(b)) // 8
            diff = [i for i in range(n) if a[8 * i:8 * i + 8] != b[8 * i:8 * i + 8]]
            if not diff:
                errs.append(f"records of {task} have different lengths")
                continue
            da, db = dump(base, task, diff[0]), dump(r, task, diff[0])
            ops, detail = [], []
            for x, y in zip(da, db):
                if x != y:
                    ops.append(x.split(" on ")[0])
                    detail.append(f"{base['conf']}: {x}\n{r['conf']}: {y}")
            viol.append({"sig": f"{task.rsplit('/', 1)[0]}/{','.join(ops[:3]) or 'record'}/{base['conf']}-{r['conf']}",
                         "detail": f"{len(diff)} of {n} records differ, first at case {diff[0]}:\n" + "\n".join(detail[:4]),
                         "task": task, "case": diff[0]})
    return viol, errs


def san_sig(s):
    head = s.split("\n")[0]
    kind = re.sub(r"^(ERROR|WARNING): ", "", head)
    kind = re.sub(r"(0x[0-9a-f]+|\(pid=\d+\)|\bpid=\d+)", "", kind)
    kind = " ".join(kind.split()[:4])
    fr = re.search(r"#\d+ .*? (/repo/\S+)", s)
    return kind + (" " + fr.group(1) if fr else "")


def known(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path):
        m = re.match(r"finding: property=(\S+) sig=\[(.*?)\] (.*)", line.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        return setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    chk = CHECKS[prop]
    runs = chk[tier]
    t0 = time.time()
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, "replay")):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(EVID, "replay", f))
    make_table()
    dict_path = dictionary()
    need = {}
    for r in runs:
        if r["conf"] != "miri":
            need.setdefault(r["conf"], set()).add(r["bin"])
    deadline = t0 + (820 if tier == "quick" else 6 * 3600)
    if BUDGET:
        deadline = t0 + BUDGET
    results = []
    miri = [threading.Thread(target=lambda s=s: results.append(run_miri(s, seed, deadline))) for s in runs if s["conf"] == "miri"]
    for t in miri:
        t.start()
    built = build_all(need)
    tb = time.time() - t0
    errors, notes = [], []
    for c, b in built.items():
        if b.note:
            notes.append(b.note)
        if b.err and CONFIGS[c].get("soft"):
            # a build that depends on the nightly toolchain, next to others that do not
            notes.append(f"build of {c} failed, not run: {b.err[-1500:]}")
        elif b.err:
            errors.append(f"build of {c} failed:\n{b.err}")
    if errors:
        for e in errors:
            log(e)
        log(f"NO-VERDICT property={prop} the monitors do not build")
        sys.exit(2)
    for t in miri:
        t.join()
    for s in runs:
        if s["conf"] == "miri" or built[s["conf"]].err:
            continue
        r = run_bin(prop, built[s["conf"]], s, built[s["conf"]].bindir, s["conf"], seed, tier, dict_path, deadline)
        if CONFIGS[s["conf"]].get("soft") and not r["violations"]:
            notes += [f"{s['conf']}: {x}" for x in r["errors"]]
            r["errors"] = []
        results.append(r)
    for r in results:
        notes += r.get("notes", [])
        if r.get("foreign"):
            notes.append(f"{r['conf']}: {r['foreign']} reports about memory of other crates only")
    if chk.get("cross"):
        v, e = cross(results)
        results.append({"conf": "cross", "bin": "compare", "cmd": [], "wall": 0, "violations": v, "errors": e,
                        "report": None})

    finds = known(prop)
    for sig, what in finds.items():
        log(f"KNOWN-FINDING: property={prop} {sig}: {what}")
    viol, hit = [], set()
    for r in results:
        for v in r["violations"]:
            if v["sig"] in finds:
                hit.add(v["sig"])
            else:
                viol.append((r, v))
        errors += r["errors"]
    # one VIOLATION line per signature
    seen = {}
    for r, v in viol:
        seen.setdefault(v["sig"], []).append((r, v))
    for i, (sig, vs) in enumerate(sorted(seen.items())):
        r, v = vs[0]
        path = os.path.join(EVID, "replay", f"{prop}-{i}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "sig": sig, "config": r["conf"], "monitor": r["bin"], "seed": seed,
                       "tier": tier, "task": v.get("task"), "case": v.get("case"), "detail": v.get("detail"),
                       "command": r["cmd"], "same_signature": [x[1].get("detail") for x in vs[1:4]]}, f, indent=1)
        if i < 12:
            log(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)} sig={sig}")
            log("   " + str(v.get("detail"))[:700].replace("\n", "\n   "))
    write_evidence(prop, chk, tier, seed, results, len(viol), time.time() - t0, tb, hit, notes)
    for n in notes:
        log("NOTE " + n[:800])
    for e in errors[:10]:
        log("ERROR " + e)
    ev = sum(t["evaluations"] for r in results if r["report"] for t in r["report"]["tasks"])
    log(f"{prop} {tier}: configs={','.join(dict.fromkeys(r['conf'] for r in results))} evaluations={ev} "
        f"violations={len(viol)} errors={len(errors)} build={tb:.0f}s wall={time.time() - t0:.0f}s")
    if viol:
        sys.exit(1)
    sys.exit(2 if errors else 0)


def setup():
    """Builds the monitors of the quick tier ahead of time. Every check builds
    again from the tree it is to judge: this only saves it what is the same."""
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    p = subprocess.run(["cargo", "+" + TOOLCHAIN, "metadata", "--offline", "--format-version", "1"],
                       cwd=os.path.join(VERIF, "harness"), env=env_base(), capture_output=True, text=True)
    if p.returncode != 0:
        log("setup: " + p.stderr[-2000:])
        sys.exit(1)
    make_table()
    need, parts = {}, None
    for c in CHECKS.values():
        for r in c["quick"]:
            if r["conf"] == "miri":
                parts = True
            else:
                need.setdefault(r["conf"], set()).add(r["bin"])
    t0 = time.time()
    # a few at a time, for the memory's sake
    confs = sorted(need, key=lambda c: -len(need[c]))
    for i in range(0, len(confs), 3):
        if time.time() - t0 > 1100:
            break
        for c, b in build_all({c: need[c] for c in confs[i:i + 3]}).items():
            log("setup: %s %s after %.0f s" % (c, "failed: " + b.err[-300:] if b.err else "built", time.time() - t0))
    if parts and time.time() - t0 < 1200:
        r = run_miri({"parts": {"-": 1}}, 1, time.time() + 400)
        log("setup: miri after %.0f s" % (time.time() - t0))
    sys.exit(0)


def write_evidence(prop, chk, tier, seed, results, nviol, wall, tb, hit, notes):
    ev = dn = over = 0
    samples, confs, tasks = [], [], {}
    for r in results:
        rep = r["report"]
        if not rep:
            continue
        n = sum(t["evaluations"] for t in rep["tasks"])
        d = sum(t["distinct_nontrivial"] for t in rep["tasks"])
        o = sum(t["fingerprints_not_stored"] for t in rep["tasks"])
        ev, dn, over = ev + n, dn + d, over + o
        confs.append({"config": r["conf"], "monitor": r["bin"], "tasks": len(rep["tasks"]), "evaluations": n,
                      "distinct_nontrivial": d, "wall_s": round(r["wall"], 1)})
        samples += rep["samples"][:4 if len(results) < 4 else 2]
        for t in rep["tasks"]:
            k = tasks.setdefault(t["task"], {"evaluations": 0, "classes": {}})
            k["evaluations"] += t["evaluations"]
            for c, x in t["classes"].items():
                k["classes"][c] = k["classes"].get(c, 0) + x
    j = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": dn, "rule": chk["rule"],
            "samples": samples[:16] or ["(no sample recorded)"],
            "fingerprints_not_stored": over,
            "runs": confs, "observed": tasks,
            "build_s": round(tb, 1),
        },
        "assumptions": chk.get("assumptions", []) + COMMON,
        "wall_s": round(wall, 1), "violations": nviol,
    }
    if notes:
        j["coverage"]["notes"] = [n[:1500] for n in notes]
    if hit:
        j["coverage"]["known_findings_observed"] = sorted(hit)
    path = os.path.join(EVID, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(j, f, indent=1)
    os.replace(path + ".tmp", path)


COMMON = [
    "num-bigint arithmetic (the reference) is correct",
    "rustc 1.74.0 on x86_64 as installed; the monitored code is the working tree of /repo",
    "inputs not generated by this run are not covered",
]

if __name__ == "__main__":
    main()
