#!/usr/bin/env python3
"""Mutation testing of the checks (development aid, not a check): small edits are made one at a time in scratch copies of
the sources and the checks of the edited file are run against each.  mutate.py FILE[:CHECKS] ... [-n COUNT] [-s SEED] [-l LO-HI] [-o OUT]"""
import sys, os, re, random, subprocess, shutil, hashlib, json, time, glob
from concurrent.futures import ThreadPoolExecutor
import queue
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CHECKS = {
 "DiscreteRange.h": "R01 S01 S02 S04 S03 N04", "RBTree.cc": "S02 S03 S01", "RBTree.h": "S02 S03",
 "IPAddr.h": "N02 N01 N03 B07", "IPRange.h": "N03 N04 B07 X01", "IPSrv.h": "N05 B07", "IPEndpoint.h": "N05 B07", "swoc_ip.cc": "N01 N02 N03 N05 N04",
 "swoc_ip_util.h": "N02 N03", "MemArena.h": "A01 A02 A03", "MemArena.cc": "A02 A01 A03", "ArenaWriter.cc": "A03", "ArenaWriter.h": "A03",
 "TextView.h": "T01 T02 T04 T03 H01", "TextView.cc": "T03 T02", "string_view_util.cc": "T04", "string_view_util.h": "T04",
 "BufferWriter.h": "B01 B04", "bw_format.cc": "B02 B03 B05 B06 B04", "bwf_base.h": "B02 B03 B04 B06", "bwf_ex.h": "B06 B03", "bwf_std.h": "B06", "bwf_ip.h": "B07", "bw_ip_format.cc": "B07",
 "Errata.h": "E01 E02", "Errata.cc": "E01 E02", "IntrusiveDList.h": "D01 D02", "IntrusiveHashMap.h": "D02", "Vectray.h": "D03", "Lexicon.h": "L01",
 "MemSpan.h": "M01 T04", "Scalar.h": "C01", "HashFNV.h": "H01", "swoc_file.cc": "P02 P01", "swoc_file.h": "P01 P02", "swoc_meta.h": "G01 M01 B06",
}
def strip(code):
    """lines with comments and string contents blanked (same length)"""
    out = []; inc = False
    for l in code.split("\n"):
        r = list(l); i = 0
        while i < len(l):
            if inc:
                if l.startswith("*/", i): inc = False; r[i] = r[i+1] = " "; i += 2; continue
                r[i] = " "; i += 1; continue
            if l.startswith("//", i): r[i:] = " " * (len(l) - i); break
            if l.startswith("/*", i): inc = True; r[i] = r[i+1] = " "; i += 2; continue
            if l[i] in "\"'":
                q = l[i]; j = i + 1
                while j < len(l) and l[j] != q: j += 2 if l[j] == "\\" else 1
                for k in range(i, min(j + 1, len(l))): r[k] = "\1"
                i = j + 1; continue
            i += 1
        out.append("".join(r))
    return out
SUBST = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \+= ", " = "),
         (r" && ", " || "), (r" \|\| ", " && "), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r"--(?!>)", "++"),
         (r"(?<![\w.])(\d+)(?![\w.])", "+1"), (r"(?<![\w.])([1-9]\d*)(?![\w.])", "-1"), (r" \| ", " & "), (r" & ", " | "), (r" << ", " >> "), (r" >> ", " << "), (r"\bif \((?!constexpr)", "if (!"), (r" \* ", " / "), (r" / ", " * "), (r"!(?=[\w(*])", ""), (r" \? ", " ? !"), ("DEL", "")]
NARROW = {"size_t": ["uint32_t", "uint16_t", "int", "uint8_t"], "auto": [], "intmax_t": ["int"], "uintmax_t": ["uint32_t"], "uint64_t": ["uint32_t"], "unsigned": ["uint16_t", "uint8_t"], "int": ["int16_t", "int8_t"], "uint32_t": ["uint16_t"], "in_addr_t": ["uint16_t"], "ssize_t": ["int"], "Size": ["uint16_t"]}
def args_of(l, i):
    """top level arguments of the call whose '(' is at i"""
    d = 0; parts = []; b = i + 1
    for j in range(i, len(l)):
        if l[j] in "([{": d += 1
        elif l[j] in ")]}":
            d -= 1
            if d == 0: parts.append((b, j)); return parts
        elif l[j] == "," and d == 1: parts.append((b, j)); b = j + 1
    return None
def structural(raw, st, lo, hi):
    """narrowed local types, swapped call arguments, locals made static, swapped statements"""
    res = []
    for n, l in enumerate(st):
        if not l.startswith("  ") or not (lo <= n + 1 <= hi) or l.lstrip().startswith("#") or "static_assert" in l or "using " in l or "template" in l: continue
        m = re.match(r"^(\s+)((?:const )?)(auto|size_t|intmax_t|uintmax_t|uint64_t|unsigned|int|uint32_t|in_addr_t|ssize_t|Size)\b( const)? (\w+)(\s*(?:=[^=].*|\{.*\}));\s*$", l) or re.match(r"^(.*(?:if|for) \()((?:const )?)(auto|size_t|int|unsigned)\b( const)? (\w+)(\s*=[^=].*)$", l)
        if m:
            for t in NARROW[m.group(3)] + (["uint16_t", "uint8_t", "int", "uint32_t"] if m.group(3) == "auto" else []): res.append((n, "narrow " + t, raw[n][:m.start(3)] + t + raw[n][m.end(3):]))
            if l.endswith(";") and not m.group(0).lstrip().startswith(("if", "for")): res.append((n, "static local", raw[n][:m.end(1)] + "static " + raw[n][m.end(1):]))
        m = re.match(r"^(\s+)(std::string|std::string_view|TextView|Spec|self_type|[A-Z]\w+)( \w+(?:\{.*\}|\(.*\)| = .*)?);\s*$", l)
        if m and not l.lstrip().startswith("return"): res.append((n, "static local", raw[n][:m.end(1)] + "static " + raw[n][m.end(1):]))
        for m in re.finditer(r"\w\(|\w\{", l):
            a = args_of(l, m.end() - 1)
            if a and len(a) >= 2 and not re.match(r"^\s*(static |constexpr |inline |virtual )*[\w:<>&* ]+ [&*]?\w+\($", l[:m.end()]):
                for k in range(len(a) - 1):
                    x, y = a[k], a[k + 1]; X, Y = raw[n][x[0]:x[1]].strip(), raw[n][y[0]:y[1]].strip()
                    if X and Y and X != Y: res.append((n, "swap args", raw[n][:x[0]] + Y + ", " + X + raw[n][y[1]:]))
        for m in re.finditer(r"std::move\((\w+)\)", l): res.append((n, "no move", raw[n][:m.start()] + m.group(1) + raw[n][m.end():]))
        m = re.match(r"^\s+return .*;$", l)
        if re.match(r"^\s+else \{|^\s+\} else \{$", l): res.append((n, "no else", raw[n].replace("else {", "if (false) {")))
        if re.search(r"\bif \((?!constexpr)", l) and l.rstrip().endswith("{"):
            i = l.index("if (") + 4; d = 1; j = i
            while j < len(l) and d: d += (l[j] == "(") - (l[j] == ")"); j += 1
            if not d and ";" not in l[i:j]: res += [(n, "if true", raw[n][:i] + "true || (" + raw[n][i:j-1] + ")" + raw[n][j-1:]), (n, "if false", raw[n][:i] + "false && (" + raw[n][i:j-1] + ")" + raw[n][j-1:])]
        if n + 1 < len(st) and re.match(r"^\s+[^{}]*;\s*$", l) and re.match(r"^\s+[^{}]*;\s*$", st[n+1]) and not re.search(r"\breturn\b|\bbreak\b|\busing\b|\bcase\b|\bcontinue\b", l + st[n+1]) and l.count("(") == l.count(")") and st[n+1].count("(") == st[n+1].count(")") and re.match(r"\s*", l).group(0) == re.match(r"\s*", st[n+1]).group(0) and "=" in l + st[n+1] and not re.match(r"^\s+(\w+ )+\w+\(", l):
            res.append((n, "swap statements", raw[n+1] + "\n" + raw[n], 1))
    return res
STRUCT = "--struct" in sys.argv
def mutants(path, lo, hi):
    code = open(path).read(); raw = code.split("\n"); st = strip(code); res = []
    if STRUCT: return raw, structural(raw, st, lo, hi)
    for n, l in enumerate(st):
        if l.lstrip().startswith("#") or l.lstrip().startswith("template") or "static_assert" in l or "enable_if" in l or "using " in l or "namespace" in l: continue
        if not l.startswith("  ") or not (lo <= n + 1 <= hi): continue
        for pat, rep in SUBST:
            if pat == "DEL":
                if re.match(r"^\s+(?!return|break|continue|using|static|const|typedef|case|default|auto |else|throw|public|template|friend|class|struct|virtual|explicit|inline|void |bool |size_t |int )[\w>:.\-\[\]*()+]+(\(.*\)|\s*[+\-|&]?=\s*.*|\+\+|--);\s*$", l) and l.count("(") == l.count(")") and not re.match(r"^\s+[\w:<>]+ [\w]+\(.*\)( const)?( override)?( noexcept)?;", l):
                    res.append((n, "delete", re.match(r"\s*", raw[n]).group(0) + ";" ))
                continue
            for m in re.finditer(pat, l):
                if pat == " > " and "template" in l or pat in (" < ", " > ") and re.search(r"\w<|operator", l): continue
                if "operator" in l: continue
                if rep in ("+1", "-1") and pat.startswith("("):
                    v = int(m.group(1)); nv = v + (1 if rep == "+1" else -1); new = raw[n][:m.start(1)] + str(nv) + raw[n][m.end(1):]
                elif rep == "if (!":
                    # negate whole condition: find the matching parenthesis
                    i = m.end(); d = 1; j = i
                    while j < len(l) and d: d += (l[j] == "(") - (l[j] == ")"); j += 1
                    if d or ";" in l[i:j]: continue
                    new = raw[n][:i] + "!(" + raw[n][i:j-1] + ")" + raw[n][j-1:]
                else: new = raw[n][:m.start()] + rep + raw[n][m.end():]
                res.append((n, "%s->%s" % (m.group(0).strip(), rep.strip()), new))
    return raw, res
BASE = ["-std=c++17", "-g0", "-D_GLIBCXX_ASSERTIONS", "-Wno-everything", "-pthread", "-I", ROOT + "/harness"]
SAN = ["-O1", "-fsanitize=thread"] if os.environ.get("MUT_SAN") == "thread" else ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=nonnull-attribute,pointer-overflow,vptr", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=86:hard_rss_limit_mb=3000:handle_abort=1:detect_stack_use_after_return=1:max_malloc_fill_size=65536", UBSAN_OPTIONS="exitcode=86:halt_on_error=1", TSAN_OPTIONS="exitcode=86:halt_on_error=1", LC_ALL="C", TZ="UTC")
TOP = "/dev/shm/mutate.%d" % os.getpid()
def workspace(w):
    d = "%s/w%d" % (TOP, w)
    if not os.path.exists(d): os.makedirs(d); shutil.copytree(REPO + "/code", d + "/code"); os.makedirs(d + "/obj")
    return d
def cc(src, inc, out):
    r = subprocess.run(["clang++"] + BASE + SAN + ["-I", inc, "-c", src, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout
def deps(src, hdr):
    """does src include the header (transitively)?"""
    r = subprocess.run(["clang++"] + BASE + ["-I", REPO + "/code/include", "-MM", src], stdout=subprocess.PIPE, text=True)
    return hdr in r.stdout
def main():
    a = sys.argv[1:]; n = 60; seed = 1; files = []; out = None; lo, hi = 1, 10**9; kind = re.compile("")
    while a:
        x = a.pop(0)
        if x == "-n": n = int(a.pop(0))
        elif x == "-s": seed = int(a.pop(0))
        elif x == "-o": out = a.pop(0)
        elif x == "--struct": pass
        elif x == "-k": kind = re.compile(a.pop(0))
        elif x == "-l": lo, hi = map(int, a.pop(0).split("-"))
        else: files.append(x)
    rnd = random.Random(seed); jobs = []
    for f in files:
        f, _, ck = f.partition(":"); p = [q for q in glob.glob(REPO + "/code/**/" + f, recursive=True)][0]
        raw, ms = mutants(p, lo, hi); ms = [m for m in ms if kind.search(m[1])]; ms = list({(m[0], m[2]): m for m in ms}.values())
        pick = rnd.sample(ms, min(n, len(ms)))
        print(f, len(ms), "mutants, trying", len(pick), flush=True)
        for m in pick: jobs.append((p, raw, m, (ck.replace(",", " ") or CHECKS[os.path.basename(f)]).split()))
    base = TOP + "/base"; os.makedirs(base, exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/code/src/*.cc"))
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda s: cc(s, REPO + "/code/include", "%s/%s.o" % (base, os.path.basename(s))), srcs))
    harn = sorted({c for j in jobs for c in j[3]})
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda c: cc("%s/harness/%s.cc" % (ROOT, c), REPO + "/code/include", "%s/%s.o" % (base, c)), harn))
    dep = {}
    for j in jobs:
        h = os.path.basename(j[0])
        if h.endswith(".h") and h not in dep: dep[h] = {s for s in srcs if deps(s, "/" + h)}
    q = queue.Queue(); [q.put(w) for w in range(8)]
    stats = {}
    def one(j):
        p, raw, (ln, kind, new, *rest), checks = j
        w = q.get(); d = workspace(w)
        try:
            mp = d + p[len(REPO):]; lines = list(raw); lines[ln] = new; lines[ln+1:ln+1+len(rest)] = []; open(mp, "w").write("\n".join(lines))
            inc = d + "/code/include"; h = os.path.basename(p); objs = []
            try:
                need = dep.get(h, {p})
                for s in srcs:
                    b = os.path.basename(s)
                    if s in need:
                        ok, o = cc(d + s[len(REPO):], inc, "%s/obj/%s.o" % (d, b))
                        if not ok: return j, "NOCOMPILE", ""
                        objs.append("%s/obj/%s.o" % (d, b))
                    else: objs.append("%s/%s.o" % (base, b))
                for c in checks:
                    ho = "%s/%s.o" % (base, c)
                    if h.endswith(".h"):
                        ho = d + "/obj/h.o"; ok, o = cc("%s/harness/%s.cc" % (ROOT, c), inc, ho)
                        if not ok: return j, "NOCOMPILE", ""
                    exe = d + "/exe"
                    r = subprocess.run(["clang++"] + SAN[1:2] + [ho] + objs + ["-pthread", "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode: return j, "NOCOMPILE", ""
                    for sh in range(3):
                        t = d + "/tmp"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t); os.chmod(t, 0o777); open(t + "/p", "wb").write(b"\0" * 4096)
                        ex2 = []
                        if c in ("P01", "P02"): os.makedirs(t + "/scr"); os.chown(t + "/scr", 65534, 65534); ex2 = ["--user", "65534", "--scratch", t + "/scr"]; [os.chmod(x, 0o755) for x in (TOP, d, t)]
                        try: rc = subprocess.run([exe, "--shard", str(sh), "--nshards", "8", "--progress", t + "/p", "--out", t + "/o", "--bitmap", t + "/b", "--seed", "1"] + ex2, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, cwd=t, timeout=300).returncode
                        except subprocess.TimeoutExpired: rc = 99
                        if rc: return j, "CAUGHT", c
                return j, "SURVIVED", ""
            finally: open(mp, "w").write("\n".join(raw))
        finally: q.put(w)
    fo = open(out, "a") if out else sys.stdout
    try:
        with ThreadPoolExecutor(8) as ex:
            for j, st, c in ex.map(one, jobs):
                b = os.path.basename(j[0]); stats.setdefault(b, {}).setdefault(st, 0); stats[b][st] += 1
                if st == "SURVIVED": print("SURVIVED %s:%d [%s]\n   - %s\n   + %s" % (b, j[2][0] + 1, j[2][1], j[1][j[2][0]].strip(), j[2][2].strip()), file=fo, flush=True)
        print(json.dumps(stats), file=fo, flush=True)
    finally: shutil.rmtree(TOP, ignore_errors=True)
main()
