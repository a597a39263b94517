#!/usr/bin/env python3
"""Mutation campaign (development aid; no check uses it): small edits of /repo's sources in scratch copies, those that compile, pass
the tests and change the object code are given to the harness's scenarios at a fraction of their quick counts.
mutate.py OUT.jsonl NUMBER SEED WORKERS [file-prefix]   - survivors are lines with "result": "survived" """
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, time
V = os.environ.get("MUT_V", "/verif"); REPO = os.environ.get("MUT_REPO", "/repo"); sys.path.insert(0, V)
import vbuild, check
OUT, NUM, SEED, W = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
ONLY = sys.argv[5] if len(sys.argv) > 5 else ""
SCALE = float(os.environ.get("MUT_SCALE", "0.12"))
BASE = "/tmp/mut"
PROPS = {"engine/ameth.c": "P13 P09 P10 P11 P07 P08 P25 P28 P27", "engine/cipher.c": "P03 P04 P25 P13 P28 P27", "engine/md.c": "P01 P02 P25 P07 P28 P27", "engine/pmeth.c": "P05 P06 P08 P07 P25 P28 P27",
         "engine/sign.c": "P06 P05 P25 P28 P27", "engine/rbg.c": "P21 P22 P28 P27", "engine/dstu.c": "P23 P09 P25 P07 P28 P27", "engine/err.c": "P23 P25 P28 P27", "dstulib/asn1.c": "P11 P13 P28 P27", "dstulib/compress.c": "P12 P13 P25 P28 P27",
         "dstulib/key.c": "P11 P09 P10 P13 P08 P25 P28 P27", "dstulib/params.c": "P11 P08 P13 P09 P25 P07 P24 P28 P27", "dstulib/gost/gost89.c": "P24 P03 P01 P04", "dstulib/gost/gosthash.c": "P01 P24 P02",
         "keylib/jks.c": "P15 P14 P18 P19 P25 P27", "keylib/key6.c": "P16 P18 P19 P25 P27", "keylib/pkcs12.c": "P17 P18 P19 P25 P27", "keylib/keystore.c": "P20 P14 P17 P25 P27", "keylib/utils.c": "P16 P18 P14 P25 P27"}
def mask(src):
    o = list(src); i = 0; n = len(src)
    def blank(a, b):
        for k in range(a, b):
            if o[k] != "\n": o[k] = " "
    while i < n:
        if src.startswith("//", i): j = src.find("\n", i); j = n if j < 0 else j; blank(i, j); i = j
        elif src.startswith("/*", i): j = src.find("*/", i) + 2; blank(i, j); i = j
        elif src[i] in "\"'":
            q = src[i]; j = i + 1
            while src[j] != q: j += 2 if src[j] == "\\" else 1
            blank(i, j + 1); i = j + 1
        elif src[i] == "#" and (i == 0 or src[i - 1] == "\n"):
            j = src.find("\n", i)
            while src[j - 1] == "\\": j = src.find("\n", j + 1)
            blank(i, j); i = j
        else: i += 1
    return "".join(o)
def bodies(m):
    """spans of top-level braces that belong to functions"""
    r, d, st = [], 0, 0
    for i, c in enumerate(m):
        if c == "{":
            if d == 0: st = i
            d += 1
        elif c == "}":
            d -= 1
            if d == 0 and m[:st].rstrip().endswith(")"): r.append((st, i))
    return r
SWAP = [(r"<=", ["<", "=="]), (r">=", [">", "=="]), (r"(?<![<\-])<(?![<=])", ["<=", "!="]), (r"(?<![>\-])>(?![>=])", [">=", "!="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
        (r"(?<![+\w(=,] )(?<!\+)\+(?![+=])", ["-"]), (r"(?<![-=(,<>] )(?<!-)-(?![-=>])", ["+"]), (r"\+\+", ["--"]), (r"<<", [">>"]), (r">>(?!=)", ["<<"]), (r"(?<!&)&(?![&=\w(])", ["|"]), (r"\^(?!=)", ["|"]), (r"\|=", ["="]), (r"\^=", ["="]), (r"\+=", ["="]),
        (r"\b\d+\b", None), (r"\breturn 0\b", ["return 1"]), (r"\breturn 1\b", ["return 0"]), (r"!(?![=])", [""]), (r"\bNULL\b", None)]
def mutants(f, src):
    m = mask(src); out = []
    for a, b in bodies(m):
        for pat, reps in SWAP:
            for x in re.finditer(pat, m[a:b]):
                s, e = a + x.start(), a + x.end(); t = m[s:e]
                if reps is None:
                    if t == "NULL": continue
                    if m[s - 1] in "xX.": continue
                    v = int(t); rs = [str(v + 1)] + ([str(v - 1)] if v else [])
                else: rs = reps
                for r in rs: out.append((s, e, r))
        # statements removed
        for x in re.finditer(r"(?<=[;{})\n])(\s*)([A-Za-z_*][^;{}]*;)", m[a:b]):
            st = x.group(2); s, e = a + x.start(2), a + x.end(2)
            if re.match(r"(return|break|goto|else|case|default|do|while|for|if)\b", st) and not re.match(r"(break|return\s+0|goto)", st): continue
            if re.match(r"[A-Za-z_][\w\s\*]*\s[\*\w]+(\[.*\])?\s*(=[^=]|;|,)", st) and not re.match(r"(return|goto|break)", st): continue
            if re.match(r"(return|goto|break)", st): continue
            if "cleanse" in st or "DSTUerr" in st: continue
            out.append((s, e, ";"))
        for x in re.finditer(r"\bif\s*\(", m[a:b]):
            s = a + x.end() - 1; d = 0; k = s
            while True:
                if m[k] == "(": d += 1
                if m[k] == ")":
                    d -= 1
                    if d == 0: break
                k += 1
            out.append((s, k + 1, "(!" + src[s:k + 1] + ")")); out.append((s, k + 1, "(0 && " + src[s:k + 1] + ")")); out.append((s, k + 1, "(1 || " + src[s:k + 1] + ")"))
    return out
def sh(cmd, cwd=None, timeout=200, env=None):
    try: p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as e: return 124, "timeout"
    return p.returncode, p.stdout
rnd = random.Random(SEED)
files = [f for f in PROPS if f.startswith(ONLY)]
pool = []
for f in files:
    src = open(REPO + "/" + f).read()
    pool += [(f,) + x for x in mutants(f, src)]
rnd.shuffle(pool)
print(len(pool), "mutants possible"); pool = pool[:NUM]
done = set()
if os.path.exists(OUT):
    for l in open(OUT): d = json.loads(l); done.add((d["file"], d["at"], d["to"]))
pool = [p for p in pool if (p[0], p[1], p[3]) not in done]
exe = vbuild.build_harness("asan"); shutil.copy(exe, f"{BASE}/harness-{SEED}"); exe = f"{BASE}/harness-{SEED}"
lib0 = vbuild.build_libs("asan")
scen = {}
for l in subprocess.run([exe, "list"], env=check.env_for("asan", lib0), stdout=subprocess.PIPE, text=True).stdout.splitlines():
    p, n, q, t, fl, var = l.split()
    if n in ("digest_long", "digest_huge", "nonce_spread", "keygen_spread", "unregistered_unload", "second_key_without_memory"): continue
    if var in ("asan",) : scen.setdefault(p, []).append((n, int(q), int(fl), var))
    if n == "pieces_tile": scen.setdefault(p, []).append((n, int(q), int(fl), "asan"))
lock = threading.Lock()
def strip_hash(d):
    r = []
    for f in ("engine/dstu.so", "keylib/libkeylib.so"):
        shutil.copy(f"{d}/{f}", f"{d}/x.so"); subprocess.run(["strip", f"{d}/x.so"]); h = subprocess.run(["objcopy", "--remove-section=.note.gnu.build-id", f"{d}/x.so"]); r.append(hashlib.sha256(open(f"{d}/x.so", "rb").read()).hexdigest())
    return r
def worker(w):
    r = f"{BASE}/w{SEED}-{w}"; shutil.rmtree(r, ignore_errors=True); subprocess.run(["cp", "-a", REPO, r]); shutil.rmtree(r + "/_build"); shutil.rmtree(r + "/.git")
    e = dict(os.environ, CC="gcc", CXX="g++")
    c, o = sh(["cmake", "-S", r, "-B", r + "/_b", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DBUILD_TESTS=ON"], env=e); assert c == 0, o
    c, o = sh(["ninja", "-C", r + "/_b"]); assert c == 0, o
    v = vbuild.VARIANTS["asan"]
    c, o = sh(["cmake", "-S", r, "-B", r + "/_a", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DBUILD_TESTS=OFF", "-DCMAKE_C_COMPILER=clang", f"-DCMAKE_C_FLAGS={v['lib']}"], env=dict(os.environ, CC="clang", CXX="clang++")); assert c == 0, o
    c, o = sh(["ninja", "-C", r + "/_a", "dstu", "keylib"]); assert c == 0, o
    h0 = strip_hash(r + "/_b"); env = check.env_for("asan", r + "/_a")
    while True:
        with lock:
            if not pool: return
            m = pool.pop()
        f, s, t, rep = m; src = open(REPO + "/" + f).read(); p = f"{r}/{f}"
        line = src.count("\n", 0, s) + 1; t0 = time.time()
        res = dict(file=f, line=line, at=s, old=src[s:t][:80], to=rep[:100] if not rep.startswith("(") else rep[:3], text=src.split("\n")[line - 1].strip()[:110])
        open(p, "w").write(src[:s] + rep + src[t:])
        try:
            c, o = sh(["ninja", "-C", r + "/_b"])
            if c: res["result"] = "nocompile"
            elif strip_hash(r + "/_b") == h0: res["result"] = "same"
            else:
                c, o = sh(["ctest", "--test-dir", r + "/_b", "-j3", "--timeout", "20"])
                if c: res["result"] = "tests"
                else:
                    c, o = sh(["ninja", "-C", r + "/_a", "dstu", "keylib"])
                    res["result"] = "survived"
                    if c: res["result"] = "noasan"
                    else:
                        for pr in PROPS[f].split():
                            for n, q, fl, var in scen[pr]:
                                out, rp = f"{r}/out.json", f"{r}/rep.txt"
                                if os.path.exists(out): os.unlink(out)
                                k = max(60, int(q * SCALE)); k = max(k, 200) if pr == "P25" else k
                                c, o = sh([exe, "run", n, "7", str(k), "1", "90", out, rp], env=env, timeout=240)
                                d = json.load(open(out)) if os.path.exists(out) else None
                                if d is None or d["violated"]: res["result"] = "killed"; res["by"] = n; res["msg"] = (d or {}).get("message", o[-150:])[:150]; break
                                if d["unconfirmed"]: res["unconfirmed"] = n
                            if res["result"] == "killed": break
        finally: open(p, "w").write(src)
        res["s"] = round(time.time() - t0, 1)
        with lock: open(OUT, "a").write(json.dumps(res) + "\n")
ts = [threading.Thread(target=worker, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
for i in range(W): shutil.rmtree(f"{BASE}/w{SEED}-{i}", ignore_errors=True)
