#!/usr/bin/env python3
"""Decides one property of morton-rs: model checks the TLA+ specification,
replays its transitions on the real code, and validates recorded histories of
the real code against it.  usage: check.py <property> [--tier quick|thorough]

exit 0: held on everything explored; 1: VIOLATION printed; 2: tool error."""
import json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
JAVA = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss16m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]

NAV = ["anc", "par", "wd", "desc", "chd"]
MAKE = ["new", "def", "zer", "fg"]
# cases: operations of MortonCases; bits: operations of BitCases; inv: design
# statements of Morton.tla; walk: compose the transitions into random walks
PROPS = {
    "C01": dict(sparse=True, cases=["new", "def", "zer", "get", "it"], inv=["RebuildInv", "IterInv"], rounds=2),
    "C02": dict(sparse=True, cases=["new", "zer", "fg", "desc", "chd", "set", "get", "cnv", "max"], inv=["CapacityInv"], act=["RefusalKeeps"], rounds=2),
    "C03": dict(sparse=True, cases=MAKE + ["set", "get", "inv", "cnv", "tg"] + NAV, inv=["SetInv"], act=["OnlyTarget", "RefusalKeeps"], walk=True, rounds=1),
    "C04": dict(cases=["tg"], inv=["GridInv"], rounds=12),
    "C05": dict(cases=["fg", "ff", "tg"], inv=["GridInv"]),
    "C06": dict(sparse=True, cases=["new", "set", "inv", "cnv"] + NAV, replay=NAV, inv=["NavInv"], walk=True, rounds=2),
    "C07": dict(cases=["cmp"], inv=["OrderInv"]),
    "C08": dict(cases=MAKE + ["ff", "set", "inv", "cnv", "raw"] + NAV, inv=["OrderInv", "RebuildInv"], walk=True, rounds=1),
    "C09": dict(sparse=True, cases=["cnv"], inv=["ConvInv"], rounds=12),
    "C10": dict(cases=["nam", "dsp"], inv=["NameInv", "TextInv"], rounds=6),
    "C11": dict(cases=["inv"], inv=["InvolutionInv"], rounds=20),
    "C12": dict(bits=["bget", "bset", "bgetu", "bsetu", "vget", "vset", "vgetu", "vsetu", "conv"]),
    "C13": dict(bits=["spread"], rounds=10),
    "C14": dict(bits=["align"], rounds=6),
    "C15": dict(bits=["cell"]),
    "C16": dict(cases=["raw", "new", "def", "set", "anc", "desc", "cmp"], inv=["RawInv"]),
    "C17": dict(cases=["nst", "zc"], inv=["NestInv"]),
    "C18": dict(indep=True),
    "C19": dict(heap=True, cases=MAKE + ["ff", "get", "set", "inv", "cnv", "tg", "cmp", "raw"] + NAV, rounds=1,
                bits=["bget", "bset", "bgetu", "bsetu", "vget", "vset", "vgetu", "vsetu", "conv", "spread", "cell"]),
}

class ToolError(Exception):
    pass

def now():
    return time.time()

def heap_fault(events):
    """What HeapTrace.tla rejects, in words."""
    live = {}
    what = {1: "was written after its release", 2: "was released twice", 3: "was released as something else than was allocated",
            4: "was written outside its bounds"}
    for i, a, b in events:
        if i > 0:
            live[i] = (a, b)
        elif i < 0:
            if live.pop(-i, None) != (a, b):
                return "block %d released with size %d, alignment %d, but it is not live with these" % (-i, a, b)
        elif a:
            return "a block (%d) %s" % (b, what.get(a, "?"))
        elif live:
            return "never released: " + ", ".join("block %d of %d bytes" % (k, v[0]) for k, v in list(live.items())[:5])
    return "?"

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.conf = PROPS[prop]
        self.thorough = tier == "thorough"
        self.own = [40, 24, 96] if self.thorough else [40]  # widths of our own words, in the order of main.rs
        self.work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
        self.fails, self.errors, self.log = [], [], []
        self.states = self.transitions = 0
        self.models = []
        self.replay = {}
        self.samples = []
        self.traces = self.events = 0
        self.trace_ops = {}
        self.saved = {}
        self.lock = threading.Lock()

    # ---- helpers
    def note(self, s):
        self.log.append("%7.1fs %s" % (now() - self.t0, s))

    def tlc(self, name, module, cfg, env=None, limit=1500, workers=8):
        d = os.path.join(self.work, name)
        os.makedirs(d)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        out = os.path.join(d, "out.txt")
        e = dict(os.environ)
        e.update(env or {})
        with open(out, "w") as f:
            try:
                rc = subprocess.run(JAVA + ["-noGenerateSpecTE", "-deadlock", "-workers", str(workers), "-metadir",
                                            os.path.join(d, "meta"), "-config", "M.cfg", module],
                                    cwd=d, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=limit).returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC on %s (%s): no result in %d s" % (module, name, limit))
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        gen = dist = 0
        tail = []
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('"{'):
                    continue
                m = re.match(r"(\d+) states generated.*?, (\d+) distinct states found", line)
                if m:
                    gen, dist = int(m.group(1)), int(m.group(2))
                tail.append(line.rstrip("\n")[:2000])
        done = any("No error has been found" in t for t in tail)
        self.note("TLC %s %s: rc %d, %d states generated, %d distinct" % (module, name, rc, gen, dist))
        return rc, done, gen, dist, out, tail

    def model(self, name, module, cfg, **kw):
        """A model check that must succeed: it does not depend on the code."""
        rc, done, gen, dist, out, tail = self.tlc(name, module, cfg, **kw)
        if rc != 0 or not done:
            raise ToolError("the specification itself fails: %s %s: %s" % (module, name, " | ".join(tail[-40:])[:3000]))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append(dict(module=module, run=name, states_generated=gen, distinct_states=dist))
        return out

    # ---- stages
    def build(self, profile):
        d = os.path.join(BUILD, profile)
        cmd = ["cargo", "build", "--offline", "--quiet"] + ([] if profile == "dev" else ["--profile", profile])
        e = dict(os.environ, CARGO_TARGET_DIR=d, RUSTFLAGS="-Awarnings")
        # with words of our own; without them if the crate no longer takes them
        for more in (["--features", "own"], []):
            r = subprocess.run(cmd + more, cwd=os.path.join(VERIF, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                break
            self.note("harness does not build (%s %s)" % (profile, more))
        if r.returncode != 0:
            raise ToolError("harness does not build (%s): %s" % (profile, r.stdout[-3000:]))
        self.note("built %s" % profile)

    def binary(self, profile):
        return os.path.join(BUILD, profile, "debug" if profile == "dev" else profile, "morton-harness")

    def harness(self, profile, mode, args, limit):
        prog = os.path.join(self.work, "progress-%s-%s" % (profile, mode))
        cmd = [self.binary(profile), mode, "--own", str(2 * len(self.own)), "--prop", self.prop, "--seed", str(self.seed), "--progress", prog] + args
        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit, preexec_fn=lim)
        except subprocess.TimeoutExpired:
            raise ToolError("harness %s %s: no result in %d s" % (profile, mode, limit))
        stat = {}
        for line in r.stdout.splitlines():
            if line.startswith("FAIL\t"):
                _, props, detail = line.split("\t", 2)
                if self.prop in props.split("+"):
                    self.fails.append("[%s %s] %s" % (mode, profile, detail))
            elif line.startswith("STAT\t"):
                stat = json.loads(line[5:])
        if r.returncode < 0 or r.returncode == 134:
            at = ""
            try:
                at = " | ".join(x.strip() for x in open(prog, errors="replace").read().splitlines() if x.strip(" \0"))
            except OSError:
                pass
            self.fails.append("[%s %s] the process was killed by signal %d (%s); being executed: %s"
                              % (mode, profile, -r.returncode, r.stderr.strip()[-300:], at[:3000]))
        elif r.returncode != 0 or not stat:
            raise ToolError("harness %s %s: rc %d %s" % (profile, mode, r.returncode, r.stderr[-2000:]))
        self.note("harness %s %s: %s" % (profile, mode, json.dumps({k: stat.get(k) for k in ("templates", "cases", "failures")})))
        return stat

    def giants(self, profile, templates, rounds):
        """The scripts of Sparse.tla, in a process of their own: an implementation that takes too long or
        too much memory for billions of levels is left in peace."""
        cmd = [self.binary(profile), "replay", "--prop", self.prop, "--seed", str(self.seed), "--hang", "100000",
               "--templates", templates, "--rounds", str(rounds), "--own", "0"]
        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60, preexec_fn=lim)
        except subprocess.TimeoutExpired:
            self.note("harness %s giants: too slow for indices of billions of levels, left" % profile)
            return
        stat = {}
        for line in r.stdout.splitlines():
            if line.startswith("FAIL\t"):
                _, props, detail = line.split("\t", 2)
                if self.prop in props.split("+"):
                    self.fails.append("[replay %s] %s" % (profile, detail))
            elif line.startswith("STAT\t"):
                stat = json.loads(line[5:])
        if r.returncode in (-11, -7):
            self.fails.append("[replay %s] indices of billions of levels: the process was killed by signal %d" % (profile, -r.returncode))
        if r.returncode != 0 or not stat:
            self.note("harness %s giants: rc %d %s, left" % (profile, r.returncode, r.stderr[-300:]))
            return
        self.replay["giants-" + profile] = stat
        self.note("harness %s giants: %s" % (profile, json.dumps({k: stat.get(k) for k in ("templates", "cases", "failures")})))

    def templates_cfg(self, ops, bits):
        t = "TRUE" if self.thorough else "FALSE"
        s = "SPECIFICATION Spec\nCONSTANTS\n Legacy = {}\n Ops = {%s}\n Deep = %s\n Emit = TRUE\nINVARIANT Refines\n" % (
            ",".join('"%s"' % o for o in ops), t)
        return s if bits else s.replace("CONSTANTS\n", "CONSTANTS\n Dims = {2, 3}\n Own = {%s}\n" % ",".join(map(str, self.own)))

    def design_cfgs(self):
        inv = self.conf["inv"]
        act = self.conf.get("act", [])
        def cfg(d, w, regs, maxdyn):
            return ("SPECIFICATION Spec\nCONSTANTS\n D = %d\n W = %d\n Regs = {%s}\n MaxDyn = %d\nVIEW HeapView\nINVARIANTS TypeOK %s\n%s"
                    % (d, w, ",".join(str(i + 1) for i in range(regs)), maxdyn, " ".join(inv), "PROPERTIES %s\n" % " ".join(act) if act else ""))
        if self.thorough:
            return {"2D-w4-2regs": cfg(2, 4, 2, 3), "2D-w6-1reg": cfg(2, 6, 1, 4), "3D-w3-2regs": cfg(3, 3, 2, 2), "3D-w6-1reg": cfg(3, 6, 1, 3)}
        return {"2D-w4-2regs": cfg(2, 4, 2, 2), "3D-w6-1reg": cfg(3, 6, 1, 2)}

    def threads_cfg(self):
        return ("SPECIFICATION Spec\nCONSTANTS\n D = %d\n W = %d\n Callers = {1,2}\n Memo = \"none\"\nINVARIANT NeverWrong\nPROPERTIES SharedKept OwnKept\n"
                % ((3, 6) if self.thorough else (2, 4)))

    def emit(self):
        paths = []
        if "cases" in self.conf:
            paths.append(self.model("cases", "MortonCases.tla", self.templates_cfg(self.conf["cases"], False)))
        if "bits" in self.conf:
            paths.append(self.model("bitcases", "BitCases.tla", self.templates_cfg(self.conf["bits"], True)))
        return ",".join(paths)

    def sparse(self, emit):
        """Indices of billions of levels: refinement of the design, or scripts for the code."""
        cfg = "SPECIFICATION Spec\nCONSTANTS\n D = %d\n B = %d\n Emit = %s\n%sINVARIANT Agrees\n"
        if emit:
            return [self.model("sparse%d" % d, "Sparse.tla", cfg % (d, 65536, "TRUE", "")) for d in (2, 3)]
        return [self.model("sparse-refines", "Sparse.tla", cfg % (2, 4 if self.thorough else 3, "FALSE", "VIEW SView\n"))]

    def sample(self, path):
        n = 0
        seen = set()
        for p in path.split(","):
            with open(p, errors="replace") as f:
                for line in f:
                    if line.startswith('"{'):
                        o = json.loads(json.loads(line))
                        if o["op"] in seen or len(o.get("r", [])) > 40:
                            continue
                        seen.add(o["op"])
                        o.pop("ph", None), o.pop("ok", None)
                        self.samples.append({"transition replayed on the code": o})
                        n += 1
                        if n >= 6:
                            return

    def trace(self, profile, parts, events):
        d = os.path.join(self.work, "rec-" + profile)
        os.makedirs(d)
        mode = "indep" if "indep" in self.conf else "memory" if "heap" in self.conf else "record" if "inv" in self.conf else "brecord"
        more = ["--clusters", "3900", "--reps", "60", "--cold", "1300", "--calls", "700000"] if self.thorough else []
        if mode == "memory":
            more = ["--clusters", "1300" if self.thorough else "312"]
        self.harness(profile, mode, more + ["--out", d, "--parts", str(parts), "--events", str(events), "--plan", self.prop], 3000 if self.thorough else 600)
        return d

    def validate(self, dirs):
        path = os.path.join(self.work, "traces.ndjson")
        lines = []
        for d in dirs:
            for f in sorted(os.listdir(d)):
                lines.append(open(os.path.join(d, f)).read())
        if not lines:
            raise ToolError("no traces recorded")
        with open(path, "w") as f:
            f.writelines(lines)
        want = 0
        module = "IndepTrace.tla" if "indep" in self.conf else "HeapTrace.tla" if "heap" in self.conf else "Trace.tla" if "inv" in self.conf else "BitTrace.tla"
        for t in lines:
            o = json.loads(t)
            if "runs" in o:
                want += max([len(r) for r in o["runs"]] + [(len(o.get("heap", [])) + 63) // 64]) + 1
                continue
            want += len(o["ev"]) + 1
            for e in o["ev"]:
                self.trace_ops[e["op"]] = self.trace_ops.get(e["op"], 0) + 1
        rc, done, gen, dist, out, tail = self.tlc("trace", module, 'SPECIFICATION Spec\nCONSTANT Check = {"%s"}\nINVARIANT Held\n' % self.prop,
                                                  env={"TRACES": path})
        self.states += dist
        self.transitions += gen
        self.models.append(dict(module=module, run="recorded histories", states_generated=gen, distinct_states=dist))
        txt = "\n".join(tail)
        if "Invariant Held is violated" in txt:
            tid = [int(x) for x in re.findall(r"/\\ tid = (\d+)", txt)][-1]
            l = [int(x) for x in re.findall(r"/\\ l = (\d+)", txt)][-1]
            o = json.loads(lines[tid - 1])
            self.saved["trace.json"] = lines[tid - 1]
            if module == "HeapTrace.tla" and re.findall(r"/\\ ok = (\w+)", txt)[-1] == "FALSE":
                self.fails.append("[%s] allocations %d to %d of the log: %s" % (o["t"], 64 * (l - 2), 64 * (l - 1), heap_fault(o["heap"])))
                return
            if module in ("IndepTrace.tla", "HeapTrace.tla"):
                self.fails.append("[%s] event %d differs between executions of the same calls: %s"
                                  % (o["t"], l - 1, " | ".join(r[l - 2][:400] if l - 2 < len(r) else "-" for r in o["runs"])))
                return
            ev = o["ev"]
            e = ev[l - 2]
            seen = [x for x in ev[:l - 2] if "regs" in x or "x" in x]
            before = (seen[-1].get("regs") or seen[-1].get("x")) if seen else []
            self.fails.append("[trace %sD<%s>] event %d is not allowed by the specification: content before %s; event %s"
                              % (o["d"], o["t"], l - 1, json.dumps(before), json.dumps(e)))
            return
        if rc != 0 or not done:
            raise ToolError("trace validation: rc %d: %s" % (rc, txt[-3000:]))
        if dist != want:
            raise ToolError("trace validation consumed %d of %d states" % (dist, want))
        self.traces += len(lines)
        self.events += want - len(lines)
        if module in ("IndepTrace.tla", "HeapTrace.tla"):
            o = json.loads(lines[len(lines) // 2])
            self.samples.append({"script executed %d times with equal results" % len(o["runs"]): o["t"], "first events": [x[:300] for x in o["runs"][0][:4]]})
            return
        o = json.loads(lines[len(lines) // 2])
        self.samples.append({"history validated": "%dD<%s>" % (o["d"], o["t"]),
                             "first events": [{k: v for k, v in e.items() if k not in ("regs", "x")} for e in o["ev"][:6]]})

    def run(self):
        self.t0 = now()
        os.makedirs(self.work, exist_ok=True)
        res, threads = {}, []
        def bg(name, f, *a):
            def go():
                try:
                    res[name] = f(*a)
                except Exception as e:
                    self.errors.append("%s: %s" % (name, e if isinstance(e, ToolError) else repr(e)))
            t = threading.Thread(target=go)
            t.start()
            threads.append((name, t))
        def wait(*names):
            for n, t in threads:
                if n in names:
                    t.join()
            if any(n not in res for n in names):
                raise ToolError("; ".join(self.errors) or "stage failed: %s" % (names,))
        c = self.conf
        profiles = ["dev", "rel"]
        try:
            for p in profiles:
                bg("build-" + p, self.build, p)
            if "indep" in c:
                bg("threads", self.model, "threads", "Threads.tla", self.threads_cfg())
            else:
                bg("emit", self.emit)
            if "heap" in c:
                for d, bb, n, k in ((3, 8, 5, 2), (2, 4, 3, 3)) if self.thorough else ((3, 4, 3, 2), (2, 4, 3, 2)):
                    bg("heap-%d" % d, self.model, "heap-%d" % d, "Heap.tla", "SPECIFICATION Spec\nCONSTANTS\n D = %d\n BB = %d\n MaxN = %d\n Regs = {%s}\n"
                       ' Slip = "none"\nINVARIANTS Sound Owned Fits\n' % (d, bb, n, ",".join(str(i + 1) for i in range(k))))
            if "inv" in c:
                for n, cfg in self.design_cfgs().items():
                    bg("design-" + n, self.model, n, "Morton.tla", cfg)
            if "sparse" in c:
                bg("sparse-emit", self.sparse, True)
                bg("sparse-refines", self.sparse, False)
            # code -> model
            def traces():
                dirs = []
                for p in profiles:
                    wait("build-" + p)
                    if self.failed():
                        break
                    if "heap" in c:
                        n, ev = (16, 120) if self.thorough else (2, 60)
                        dirs.append(self.trace(p, n, ev))
                        continue
                    if "indep" in c:
                        n, ev = (24, 160) if self.thorough else (8, 80)
                        dirs.append(self.trace(p, n, ev))
                        continue
                    n, ev = ((60, 120) if p == "dev" else (30, 120)) if self.thorough else ((10, 60) if p == "dev" else (5, 60))
                    dirs.append(self.trace(p, n, ev))
                if dirs:
                    self.validate(dirs)
                return True
            bg("traces", traces)
            if "indep" in c:
                wait("threads", "traces")
                raise StopIteration
            # model -> code
            wait("emit", *["build-" + p for p in profiles])
            tp = res["emit"]
            self.sample(tp)
            rounds = c.get("rounds", 3) * (8 if self.thorough else 1)
            rp = tp
            if "replay" in c:
                rp = os.path.join(self.work, "replay-templates")
                with open(rp, "w") as f, open(tp, errors="replace") as g:
                    f.writelines(x for x in g if x.startswith('"{') and any('\\"op\\":\\"%s\\"' % o in x for o in c["replay"]))
            for p in profiles:
                if self.failed():
                    break
                if "sparse" in c:
                    wait("sparse-emit")
                    self.giants(p, ",".join(res["sparse-emit"]), rounds)
                s = self.harness(p, "replay", ["--templates", rp, "--rounds", str(rounds)] + (["--guarded", "yes"] if "heap" in c else []),
                                 3000 if self.thorough else 600)
                self.replay["replay-" + p] = s
                if c.get("walk") and not self.failed():
                    n = 4000 if self.thorough else 150
                    self.replay["walk-" + p] = self.harness(p, "walk", ["--templates", tp, "--walks", str(n), "--steps", "50"], 3000 if self.thorough else 600)
        except StopIteration:
            pass
        except ToolError as e:
            if str(e) not in "; ".join(self.errors):
                self.errors.append(str(e))
        for n, t in threads:
            t.join()
        return self.finish()

    def failed(self):
        """Something was found already: no need to look further."""
        return any(not any(k[0] in f for k in self.known()) for f in list(self.fails))

    def known(self):
        out = []
        try:
            for line in open(os.path.join(VERIF, "known_findings.txt")):
                m = re.match(r"finding: property=(\S+) match=\"(.*?)\" (.*)", line)
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        except OSError:
            pass
        return out

    def finish(self):
        new = []
        for f in self.fails:
            hit = [k for k in self.known() if k[0] in f]
            if not hit:
                new.append(f)
        for k in self.known():
            if any(k[0] in f for f in self.fails):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k[1]))
        wall = now() - self.t0
        hist = self.traces
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=hist,
                   recorded_events=self.events, recorded_events_by_operation=self.trace_ops,
                   model_runs=self.models,
                   model_transitions_replayed={k: v.get("templates") for k, v in self.replay.items() if k.startswith("replay")},
                   concrete_cases_executed={k: v.get("cases") for k, v in self.replay.items()},
                   replayed_by_operation={k: v.get("per_op") for k, v in self.replay.items()},
                   samples=self.samples or ["none: the run stopped early"])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=["TLC and the Rust toolchain are correct",
                               "a transition template is judged on sampled cell values, exhaustive for at most 8 cell bits",
                               "depths, levels and widths are those of MortonCases/BitCases (DESIGN.md)"],
                  wall_s=round(wall, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for l in self.log:
            print(l)
        for e in self.errors:
            print("ERROR: " + e)
        rc = 0
        if new:
            d = os.path.join(VERIF, "replays", "%s-%s-%d" % (self.prop, self.tier, self.seed))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, "failures.txt"), "w") as f:
                f.write("rerun: VERIF_SEED=%d python3 %s %s --tier %s\n" % (self.seed, os.path.join(VERIF, "check.py"), self.prop, self.tier))
                for x in new:
                    f.write(x + "\n")
            for n, txt in self.saved.items():
                with open(os.path.join(d, n), "w") as f:
                    f.write(txt)
            for x in new[:8]:
                print("  " + x[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.join(d, "failures.txt")))
            rc = 1
        elif self.errors:
            rc = 2
        else:
            print("OK property=%s tier=%s seed=%d in %.1f s" % (self.prop, self.tier, self.seed, wall))
        shutil.rmtree(self.work, ignore_errors=True)
        return rc

def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a == ["--build"]:
        b = Check("C01", tier, seed)
        b.t0 = now()
        for p in ("dev", "rel"):
            b.build(p)
        return 0
    if len(a) != 1 or a[0] not in PROPS:
        print("usage: check.py --build | <%s> [--tier quick|thorough]" % "|".join(PROPS))
        return 2
    return Check(a[0], tier, seed).run()

if __name__ == "__main__":
    sys.exit(main())
