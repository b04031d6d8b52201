#!/usr/bin/env python3
"""Shows that the machinery is not vacuous; no registered check uses it.
   design     wrong definitions of the design violate the design's invariants
   legacy     the original defects, switched back on in the model, break the refinement
   memo       hidden memory and unsound use of memory break the models
   traces     recorded histories with one altered observation are rejected
   fixes      undoing each "fix:" commit makes that property's check report it
usage: selftest.py [design|legacy|memo|traces|fixes ...]   (default: all)
Works in a scratch directory of its own; /repo is only read."""
import json, os, random, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import check
SPEC = os.path.join(VERIF, "spec")
S = tempfile.mkdtemp(prefix="selftest-")
bad = []

def tlc(name, module, cfg, edits=(), env=None):
    d = os.path.join(S, re.sub(r"\W+", "-", name))
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(SPEC, d)
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(old) == 1, (name, f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    open(os.path.join(d, "M.cfg"), "w").write(cfg)
    r = subprocess.run(check.JAVA + ["-noGenerateSpecTE", "-deadlock", "-workers", "6", "-config", "M.cfg", module], cwd=d, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, **(env or {})), timeout=1500)
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout

def expect(name, ok, what):
    print("%-60s %s" % (name, "as expected: " + what if ok else "UNEXPECTED: " + what), flush=True)
    if not ok:
        bad.append(name)

def rejected(name, module, cfg, edits=(), env=None, by=None):
    rc, out = tlc(name, module, cfg, edits, env)
    m = re.search(r"(Invariant|Action property|Temporal properties|property) (\w+)? ?(is|was|of)? ?\w*violated|Assumption .* is false|Action property (\w+)", out)
    hit = re.findall(r"(?:Invariant|[Pp]roperty) (\w+) is violated", out)
    if "is false" in out and "Assumption" in out:
        hit = ["ASSUME"]
    expect(name, rc != 0 and bool(hit) and (by is None or by in hit), ("rejected by %s" % hit[0]) if hit else "rc %d %s" % (rc, out[-300:].replace("\n", " ")))

# ---- the design
MD = "MortonDesign.tla"
DESIGN = [
    ("level access counts from the other end", MD, "ELSE Ok(v.c[l + 1])\n", "ELSE Ok(v.c[Len(v.c) - l])\n", "RebuildInv"),
    ("capacity off by one", MD, "    IF Len(c) > Capacity(k, d, w)\n    THEN Err", "    IF Len(c) > Capacity(k, d, w) + 1\n    THEN Err", "CapacityInv"),
    ("descendant may exceed the capacity", MD, "IF Len(v.c) + Len(path) > Capacity(v.k, d, w)", "IF Len(path) > Capacity(v.k, d, w)", "CapacityInv"),
    ("update writes another level", MD, "[@ EXCEPT ![l + 1] = x]", "[@ EXCEPT ![Len(v.c) - l] = x]", "SetInv"),
    ("update clears the levels below", MD, "Ok([v EXCEPT !.c = [@ EXCEPT ![l + 1] = x]])", "Ok([v EXCEPT !.c = Prefix(@, l) \\o <<x>> \\o Zeros(Len(@) - l - 1)])", "SetInv"),
    ("every register is written", "Morton.tla", "[reg EXCEPT ![d] = res.v] ELSE reg", "[r \\in Regs |-> IF reg[r] = reg[d] THEN res.v ELSE reg[r]] ELSE reg", "OnlyTarget"),
    ("a refusal empties the register", "Morton.tla", "[reg EXCEPT ![d] = res.v] ELSE reg", "[reg EXCEPT ![d] = res.v] ELSE [reg EXCEPT ![d] = NoIdx]", "RefusalKeeps"),
    ("grid uses the high bits of a coordinate", MD, "THEN SubSeq(s, Len(s) - n + 1, Len(s))\n", "THEN SubSeq(s, 1, n)\n", "GridInv"),
    ("grid import ignores the ordering", MD, "low[AxisOfBit(o, b - 1)][l]", "low[b][l]", "GridInv"),
    ("ancestor drops the top", MD, "Ok(Idx(v.k, Prefix(v.c, Len(v.c) - g)))", "Ok(Idx(v.k, SubSeq(v.c, g + 1, Len(v.c))))", "NavInv"),
    ("descendant puts the path on top", MD, "Ok(Idx(v.k, v.c \\o path))", "Ok(Idx(v.k, path \\o v.c))", "NavInv"),
    ("order ignores the depth", MD, 'ELSE IF Len(a) < Len(b) THEN "lt" ELSE IF Len(a) > Len(b) THEN "gt" ELSE "eq"\nLessEq', 'ELSE "eq"\nLessEq', None),
    ("order puts prefixes last", MD, 'ELSE IF Len(a) < Len(b) THEN "lt" ELSE IF Len(a) > Len(b) THEN "gt" ELSE "eq"\nLessEq', 'ELSE IF Len(a) < Len(b) THEN "gt" ELSE IF Len(a) > Len(b) THEN "lt" ELSE "eq"\nLessEq', "ASSUME"),
    ("conversion pads on top", MD, "Pad(c, n)  == IF Len(c) >= n THEN c ELSE c \\o Zeros(n - Len(c))", "Pad(c, n)  == IF Len(c) >= n THEN c ELSE Zeros(n - Len(c)) \\o c", "ConvInv"),
    ("grid name without the last axis", MD, "ToString(Len(v.c)), [i \\in 1..d |-> i])\nName", "ToString(Len(v.c)), [i \\in 1..(d - 1) |-> i])\nName", "NameInv"),
    ("text without separators", MD, "(IF i = 1 THEN <<>> ELSE <<TSep>>)", "<<>>", "TextInv"),
    ("inversion rotates", MD, "RevSeq(c)  == [i \\in 1..Len(c) |-> c[Len(c) + 1 - i]]", "RevSeq(c)  == [i \\in 1..Len(c) |-> c[(i % Len(c)) + 1]]", "InvolutionInv"),
    ("packed from the other end", MD, "      \\o Zeros(w - d * Len(c))\n", "", "RawInv"),
    ("packed with swapped bits", MD, "[b \\in 1..d |-> CellBit(c[l], d - b)]])\n", "[b \\in 1..d |-> CellBit(c[l], b - 1)]])\n", "RawInv"),
    ("grid export reverses the levels", MD, "GridAxis(cb, o, a) == [l \\in 1..Len(cb) |-> cb[l][BitOfAxis(o, a) + 1]]", "GridAxis(cb, o, a) == [l \\in 1..Len(cb) |-> cb[Len(cb) + 1 - l][BitOfAxis(o, a) + 1]]", "NestInv"),
    ("nth takes one too many", MD, "THEN [y |-> <<u.c[u.p + j + 1]>>, u |-> [u EXCEPT !.p = @ + j + 1]]", "THEN [y |-> <<u.c[u.p + j + 1]>>, u |-> [u EXCEPT !.p = @ + j + 2]]", "IterInv"),
]
ALLINV = ["RebuildInv", "IterInv", "CapacityInv", "SetInv", "GridInv", "NavInv", "OrderInv", "ConvInv", "NameInv", "TextInv", "InvolutionInv", "RawInv", "NestInv"]
def design():
    for name, f, old, new, by in DESIGN:
        inv = ALLINV if by in (None, "ASSUME", "OnlyTarget", "RefusalKeeps") else [by]
        act = [by] if by in ("OnlyTarget", "RefusalKeeps") else []
        cfg = "SPECIFICATION Spec\nCONSTANTS\n D = 2\n W = %d\n Regs = %s\n MaxDyn = 2\nVIEW HeapView\n%s\n%s" % (
            *((6, "{1}") if "rotates" in name else (4, "{1,2}")), "INVARIANTS " + " ".join(inv) if not act else "", "PROPERTIES " + act[0] if act else "")
        rejected("design: " + name, "Morton.tla", cfg, [(f, old, new)], by=by)

def legacy():
    for sw, mod, ops in (("zeroed", "MortonCases", ["zer"]), ("conv", "MortonCases", ["cnv"]), ("shl64", "MortonCases", ["fg"]), ("chunk", "MortonCases", ["fg"]),
                         ("vget", "BitCases", ["vget"]), ("spread", "BitCases", ["spread"]), ("align", "BitCases", ["align"])):
        cfg = 'SPECIFICATION Spec\nCONSTANTS\n%s Legacy = {"%s"}\n Ops = {%s}\n Deep = FALSE\n Emit = FALSE\nINVARIANT Refines\n' % (
            " Dims = {2, 3}\n Own = {40}\n" if mod == "MortonCases" else "", sw, ",".join('"%s"' % o for o in ops))
        rejected("original defect in the model: " + sw, mod + ".tla", cfg, by="Refines")

def memo():
    for m in ("depth", "torn", "count"):
        rejected("hidden memory: " + m, "Threads.tla", 'SPECIFICATION Spec\nCONSTANTS\n D = 2\n W = 4\n Callers = {1,2}\n Memo = "%s"\nINVARIANT NeverWrong\n' % m, by="NeverWrong")

    for m, by in (("short", "Sound"), ("leak", "Owned"), ("alias", "Owned"), ("junk", "Fits"), ("bound", "Sound"), ("pair", "Sound"), ("stale", "Owned")):
        rejected("memory: " + m, "Heap.tla", 'SPECIFICATION Spec\nCONSTANTS\n D = 3\n BB = 4\n MaxN = 3\n Regs = {1,2}\n Slip = "%s"\nINVARIANTS Sound Owned Fits\n' % m, by=by)

# ---- recorded histories
def alter(rng, x):
    """one changed observation of an event, or None"""
    keys = [k for k in ("regs", "g", "v", "o", "s", "res", "bits", "y", "out", "pos", "c", "eq", "ret", "x", "m", "i") if k in x]
    rng.shuffle(keys)
    for k in keys:
        v = x[k]
        if k == "regs":
            live = [i for i, r in enumerate(v) if r["n"] > 0]
            if live:
                r = v[rng.choice(live)]
                j = rng.randrange(len(r["c"]))
                r["c"][j] = (r["c"][j] + 1) % 4
                return "a cell of a register"
        elif k == "out" and v in ("ok", "none", "err", "panic"):
            x[k] = rng.choice([o for o in ("ok", "none", "err", "panic") if o != v])
            return "outcome " + v + " -> " + x[k]
        elif k == "eq" and isinstance(v, bool):
            x[k] = not v
            return "equality"
    return None

def traces():
    for p in ("dev",):
        subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"), check=True,
                       env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(check.BUILD, p), RUSTFLAGS="-Awarnings"))
    binary = os.path.join(check.BUILD, "dev", "debug", "morton-harness")
    every = ",".join('"C%02d"' % i for i in range(1, 19))
    for mode, mod, plan in (("record", "Trace.tla", "C03"), ("record", "Trace.tla", "C07"), ("record", "Trace.tla", "C17"), ("brecord", "BitTrace.tla", "C12")):
        d = os.path.join(S, "rec")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run([binary, mode, "--prop", "all", "--seed", "5", "--out", d, "--parts", "1", "--events", "40", "--plan", plan], check=True, stdout=subprocess.DEVNULL)
        files = sorted(os.listdir(d))
        rng = random.Random(7)
        done = n = 0
        cfg = 'SPECIFICATION Spec\nCONSTANT Check = {%s}\nINVARIANT Held\n' % every
        for f in files:
            o = json.loads(open(os.path.join(d, f)).read())
            for _ in range(3):
                c = json.loads(json.dumps(o))
                i = rng.randrange(len(c["ev"]))
                what = None
                if mode == "record":
                    what = alter(rng, c["ev"][i])
                else:
                    e = c["ev"][i]
                    for k in ("ret", "x", "v", "r"):
                        if isinstance(e.get(k), list) and e[k] and k != "v":
                            j = rng.randrange(len(e[k]))
                            if isinstance(e[k][j], int):
                                e[k][j] = 1 - e[k][j] if e[k][j] in (0, 1) else e[k][j] + 1
                                what = "a bit of " + k
                                break
                if what is None:
                    continue
                path = os.path.join(S, "t.ndjson")
                open(path, "w").write(json.dumps(c) + "\n")
                rc, out = tlc("trace", mod, cfg, env={"TRACES": path})
                n += 1
                if "Invariant Held is violated" in out:
                    done += 1
                else:
                    print("   accepted: %s event %d (%s) with %s changed, rc %d" % (f, i, c["ev"][i]["op"], what, rc))
        expect("altered histories, %s plan %s" % (mode, plan), n > 0 and done == n, "%d of %d rejected" % (done, n))

    # logs of allocations, and outcomes in guarded memory
    d = os.path.join(S, "mem")
    os.makedirs(d)
    subprocess.run([binary, "memory", "--prop", "all", "--seed", "5", "--out", d, "--parts", "1", "--events", "20", "--clusters", "13"], check=True, stdout=subprocess.DEVNULL)
    rng = random.Random(8)
    done = n = 0
    for f in sorted(os.listdir(d)):
        o = json.loads(open(os.path.join(d, f)).read())
        for what in ("not released", "released twice", "another size", "never allocated", "damaged", "an outcome", "ends early"):
            c = json.loads(json.dumps(o))
            h = c["heap"]
            frees = [i for i, e in enumerate(h) if e[0] < 0]
            if what == "an outcome":
                r = rng.choice(c["runs"])
                r[rng.randrange(len(r))] += "!"
            elif what == "ends early":
                rng.choice(c["runs"]).pop()
            elif not frees:
                continue
            else:
                i = rng.choice(frees)
                if what == "not released":
                    h.pop(i)
                elif what == "released twice":
                    h.insert(rng.randrange(i, len(h)) + 1, h[i])
                elif what == "another size":
                    h[i] = [h[i][0], h[i][1] + 1, h[i][2]]
                elif what == "never allocated":
                    h.remove([-h[i][0]] + h[i][1:])
                else:
                    h.insert(i, [0, 4, -h[i][0]])
            path = os.path.join(S, "t.ndjson")
            open(path, "w").write(json.dumps(c) + "\n")
            rc, out = tlc("trace", "HeapTrace.tla", 'SPECIFICATION Spec\nCONSTANT Check = {"C19"}\nINVARIANT Held\n', env={"TRACES": path})
            n += 1
            if "Invariant Held is violated" in out:
                done += 1
            else:
                print("   accepted: %s with %s, rc %d" % (f, what, rc))
    expect("altered logs of allocations", n > 0 and done == n, "%d of %d rejected" % (done, n))

def fixes():
    repo, verif = os.path.join(S, "repo"), os.path.join(S, "verif")
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target"))
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns("build", ".git", "seeded", "replays", "evidence"))
    toml = os.path.join(verif, "harness", "Cargo.toml")
    s = open(toml).read()
    open(toml, "w").write(s.replace('"/repo"', '"%s"' % repo))
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"fixed: property=(\S+) (\w+)", line)
        if not m:
            continue
        p, commit = m.groups()
        g = lambda c: subprocess.run(c, shell=True, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        g("git checkout -q -- .")
        r = g("git diff %s %s~1 | git apply" % (commit, commit))
        if r.returncode:
            expect("undoing %s (%s)" % (commit, p), False, r.stdout[-300:])
            continue
        r = subprocess.run(["python3", "check.py", p], cwd=verif, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        expect("undoing %s" % commit, r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout, "%s rc %d" % (p, r.returncode))

try:
    for part in sys.argv[1:] or ["design", "legacy", "memo", "traces", "fixes"]:
        globals()[part]()
finally:
    shutil.rmtree(S, ignore_errors=True)
print("%d unexpected" % len(bad))
sys.exit(1 if bad else 0)
