"""Common machinery: build, model-check, drive the code, validate traces."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8


class ToolError(Exception):
    pass


class Timeout(ToolError):
    pass


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, env=e, cwd=cwd, errors="replace")
    except subprocess.TimeoutExpired:
        raise Timeout("timeout after %ss: %s" % (timeout, " ".join(cmd)[:200]))
    return p.returncode, p.stdout


def build():
    """javac of the Exact override and cargo build of the harness from /repo's tree."""
    jd = os.path.join(BUILD, "java")
    os.makedirs(jd, exist_ok=True)
    src = os.path.join(SPEC, "java", "Exact.java")
    cls = os.path.join(jd, "Exact.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        rc, out = sh(["javac", "-cp", TLA, "-d", jd, src], 120)
        if rc:
            raise ToolError("javac failed:\n" + out[-2000:])
    rc, out = sh(["cargo", "build", "--release", "--offline", "--quiet"], 600,
                 {"CARGO_TARGET_DIR": os.path.join(BUILD, "target")},
                 os.path.join(ROOT, "harness"))
    if rc:
        raise ToolError("harness does not build against /repo:\n" + out[-3000:])
    return os.path.join(BUILD, "target", "release", "conf")


def tlc(module, cfg, workers, timeout, tag, env=None, override=True, heap="2g", extra=()):
    """Runs TLC; returns its output."""
    meta = os.path.join(BUILD, "meta", tag)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    cp = ":".join(([os.path.join(BUILD, "java")] if override else []) + [TLA, CM])
    gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xss64m", "-Xmx" + heap] + gc + ["-cp", cp, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    rc, out = sh(cmd, timeout, env, SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
SCN = re.compile(r'^"?SCN (.*?)"?$')


def model_check(m, tag):
    """m: dict(module, cfg, workers). Returns dict with counts and scenarios."""
    rc, out = tlc(m["module"], m["cfg"], m.get("workers", NPROC), m.get("timeout", 600), tag,
                  override=m.get("override", True), heap=m.get("heap", "6g"),
                  extra=m.get("extra", ()))
    s = STATES.findall(out)
    ok = "Model checking completed. No error has been found" in out
    if not ok:
        raise ToolError("model %s (%s) is not satisfied by its own properties:\n%s"
                        % (m["module"], m["cfg"], out[-3000:]))
    scn = []
    for line in out.splitlines():
        k = SCN.match(line)
        if k:
            t = k.group(1)
            scn.append(t.replace('\\"', '"') if '\\"' in t else t)
    g, d = (int(s[-1][0]), int(s[-1][1])) if s else (0, 0)
    acts = re.findall(r"^<(\w+) line[^>]*>: (\d+):(\d+)", out, re.M)
    return {"model": m["module"].replace(".tla", ""), "cfg": os.path.basename(m["cfg"]),
            "transitions": g, "states": d, "scn": sorted(set(scn)),
            "actions": {a: int(n) for a, _, n in acts}}


def exact_selftest(tier, tag):
    """Module Exact with the Java override and with its TLA+ definitions alone."""
    t = "_thorough" if tier == "thorough" else ""
    laws = model_check(dict(module="MCExact.tla", cfg="MCExact%s.cfg" % t, timeout=1500), tag + "-exact")
    texts = []
    for ov in (True, False):
        rc, out = tlc("MCExact.tla", "MCExactRef%s.cfg" % t, NPROC, 1500, tag + "-exactref", override=ov, heap="4g")
        texts.append(sorted(l for l in out.splitlines() if l.startswith('"X')))
    if not texts[0] or texts[0] != texts[1]:
        raise ToolError("the Java override of module Exact differs from its TLA+ definitions")
    return laws | {"results_compared_with_definitions": len(texts[0])}


# ------------------------------------------------------------------ controls
def _is_float(v):
    return isinstance(v, list) and len(v) in (1, 2) and all(isinstance(x, int) and not isinstance(x, bool) for x in v)


def _leaves(o, path, acc):
    if _is_float(o) or isinstance(o, (bool, int)):
        acc.append(path)
    elif isinstance(o, dict):
        for k in o:
            _leaves(o[k], path + [k], acc)
    elif isinstance(o, list):
        for i, x in enumerate(o):
            _leaves(x, path + [i], acc)


def _perturb(v, r):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + r.choice([1, -1, 2])
    import struct
    if len(v) == 1:
        b = v[0] & 0xffffffff
        x = struct.unpack("<f", struct.pack("<I", b))[0]
        pk = lambda y: [struct.unpack("<i", struct.pack("<f", y))[0]]
    else:
        b = ((v[0] & 0xffffffff) << 32) | (v[1] & 0xffffffff)
        x = struct.unpack("<d", struct.pack("<Q", b))[0]

        def pk(y):
            q = struct.unpack("<Q", struct.pack("<d", y))[0]
            h, l = q >> 32, q & 0xffffffff
            s = lambda t: t - (1 << 32) if t >= (1 << 31) else t
            return [s(h), s(l)]
    if x != x or x in (float("inf"), float("-inf")):
        return pk(r.choice([0.0, 3.5]))
    k = r.randrange(4)
    try:
        y = [-x if abs(x) > 1e-30 else 7.25, x * 1.5 if abs(x) > 1e-30 else -7.25,
             x + max(1.0, abs(x) * 0.25), x - max(1.0, abs(x) * 0.25)][k]
        return pk(y)
    except (OverflowError, struct.error):
        return pk(1.0)


def add_controls(path, seed, every, skip=()):
    """Before some events insert a copy whose recorded outcome is corrupted."""
    r = random.Random(seed)
    n = 0
    out = []
    with open(path) as f:
        lines = f.read().splitlines()
    per = {}
    for ln in lines:
        e = None
        kind = ln[6:ln.index('"', 6)] if ln.startswith('{"e":"') else None
        per[kind] = per.get(kind, 0) + 1
        if kind in skip:
            out.append(ln)
            continue
        # every kind gets controls early on, then a sample
        if per[kind] <= 3 or r.randrange(every) == 0:
            if '"o":' in ln:
                e = json.loads(ln)
                acc = []
                _leaves(e["o"], [], acc)
                if acc:
                    p = r.choice(acc)
                    o = e
                    key = "o"
                    for k in p:
                        o = o[key]
                        key = k
                    o[key] = _perturb(o[key], r)
                    e["ctl"] = True
                    out.append(json.dumps(e, separators=(",", ":")))
                    n += 1
        out.append(ln)
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")
    return n


# TLC breaks the line of a long tuple
REJ = re.compile(r'<<\s*"(REJECT|KNOWN|CTLMISS|CTLHIT|END|SKIP)",\s*(\d+)(?:,\s*"([^"]*)")?')


def validate(module, path, prop, tag, timeout, heap="2g"):
    cfg = module.replace(".tla", ".cfg")
    dropped = 0
    while True:
        rc, out = tlc(module, cfg, 1, timeout, tag, {"TRACE": path, "PROP": prop}, heap=heap)
        res = {"REJECT": [], "KNOWN": [], "CTLMISS": [], "CTLHIT": [], "END": [], "SKIP": []}
        for k, l, s in REJ.findall(out):
            res[k].append((int(l), s))
        res["DROPPED"] = dropped
        if res["END"]:
            # every verdict TLC printed must have been read
            n = sum(out.count('"%s"' % k) for k in res if isinstance(res[k], list))
            if n != sum(len(v) for v in res.values() if isinstance(v, list)):
                raise ToolError("trace validation of %s: some verdicts were not understood" % path)
            return res
        # TLC could not evaluate an event: what it records is outside what the
        # specification can even look at (a NaN where a number has to be, a missing part)
        g = STATES.findall(out)
        n = int(g[-1][0]) if g else 0
        lines = open(path).read().splitlines()
        if "Error:" in out and "emory" not in out and "StackOverflow" not in out and 0 < n <= len(lines):
            if ',"ctl":true' not in lines[n - 1]:
                res["REJECT"].append((n, "recorded outcome is malformed"))
                return res
            # a corrupted copy: rejected by that very fact; go on without it
            dropped += 1
            if dropped <= 50:
                del lines[n - 1]
                open(path, "w").write("\n".join(lines) + "\n")
                continue
        if res["REJECT"]:
            return res
        k = out.find("Error:")
        raise ToolError("trace validation of %s did not finish:\n%s\n...\n%s" % (path, out[k:k + 1500], out[-600:]))
