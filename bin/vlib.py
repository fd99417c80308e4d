"""Runner shared by all checks: builds harness programs from /repo's current
tree, runs scripts on the real container, and lets TLC judge the recorded
traces against the TLA+ specification."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4

CXX = ["clang++", "-std=c++17", "-O0", "-g0", "-fno-strict-aliasing", "-w",
       "-include", "cstdint", "-include", "stdexcept", "-I" + REPO + "/include", "-I" + REPO + "/common", "-I" + HARN]


class CheckError(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


class Violation(Exception):
    def __init__(self, msg, files=None):
        super().__init__(msg)
        self.files = files or {}


class Cfg:
    """One instantiation of the container."""

    def __init__(self, S, B, elem="Tr", traits=0, seg=None, base=None, judge_base=True, std=False):
        if std:
            traits = 10   # std::allocator: always equal, propagates on move
        self.S, self.B, self.elem, self.traits, self.std = S, B, elem, traits, std
        self.seg = seg if seg is not None else "%d*sizeof(%s)" % (S, elem)
        self.base = base if base is not None else "%d" % (16 + 16 * B)
        self.judge_base = judge_base
        self.tracked = elem in ("Tr", "Mo", "Weird", "Greedy", "Wide")
        self.copyable = elem != "Mo"
        self.keydiv = 1 if elem in ("int", "double") else 100   # built-in types compare by the whole value
        self.name = re.sub(r"[^A-Za-z0-9]+", "_", "%s_S%s_B%s_T%s_%s_%s" % (elem, S, B, "std" if std else traits, seg or "", base or "")).strip("_")

    def source(self):
        al = "std::allocator<%s>" % self.elem if self.std else "RA<%s,%d>" % (self.elem, self.traits)
        pre = "#define VH_KEYDIV 1\n" if self.keydiv == 1 else ""
        return pre + ("#include \"interp.hpp\"\n#define SEQ_T st::seq<%s, %s, %s, %s>\n#include \"main.inc\"\n"
                % (self.elem, al, self.seg, self.base))


class Big:
    """One instantiation for large containers (harness/big.cpp, BigTrace)."""
    traits, std = 0, False
    extra = ["-O1"]

    def __init__(self, S, B, elem=0):
        self.S, self.B, self.elem = S, B, elem
        self.name = "big_S%d_B%d_E%d" % (S, B, elem)

    def source(self):
        return "#define BIG_ELEM %d\n#define BIG_S %d\n#define BIG_B %d\n#include \"big.cpp\"\n" % (self.elem, self.S, self.B)


class Run:
    """State of one check: scratch directory, counters, evidence."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vp_%s_" % prop, dir=os.environ.get("VERIF_TMP"))
        self.pool = cf.ThreadPoolExecutor(max_workers=CORES)
        self.bins = {}
        self.states = self.transitions = self.traces = self.events = self.histories = 0
        self.ops = {}
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.models = []
        self.pending = []
        self.procs = set()

    def sh(self, cmd, timeout, **k):
        """subprocess.run that close() can end."""
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **k)
        self.procs.add(p)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            raise
        finally:
            self.procs.discard(p)
        return subprocess.CompletedProcess(cmd, p.returncode, out, err)

    # ------------------------------------------------------------- building
    def compile(self, name, source, cxx=None, extra=()):
        src = os.path.join(self.dir, name + ".cpp")
        exe = os.path.join(self.dir, name)
        with open(src, "w") as f:
            f.write(source)
        p = self.sh((cxx or CXX) + list(extra) + [src, "-o", exe], timeout=600)
        if p.returncode != 0:
            # is it the code under test or the harness that does not compile?
            raise Violation("the container does not compile for %s:\n%s" % (name, p.stderr[:3000]),
                            {"compile.cpp": source, "compile.log": p.stderr[:20000]})
        return exe

    def build(self, cfgs):
        """Compile harness programs for the configurations, in parallel."""
        todo = {c.name: c for c in cfgs if c.name not in self.bins}
        futs = {n: self.pool.submit(self.compile, n, c.source(), None, getattr(c, "extra", ())) for n, c in todo.items()}
        for n, f in futs.items():
            try:
                self.bins[n] = f.result()
            except Violation:
                # pointers of class type are beyond what the properties promise
                if not todo[n].traits & 64:
                    raise
                self.bins[n] = None
                self.notes["not_compiled"] = self.notes.get("not_compiled", []) + [n]
        return self.bins

    # ------------------------------------------------------------ executing
    def harness(self, cfg, script, tag, opts):
        sp = os.path.join(self.dir, tag + ".scr")
        op = os.path.join(self.dir, tag + ".ndjson")
        with open(sp, "w") as f:
            f.write(script)
        p = self.sh([self.bins[cfg.name], sp, op] + list(opts), timeout=800)
        if p.returncode != 0:
            raise CheckError("harness %s failed with %d: %s" % (cfg.name, p.returncode, p.stderr[:500]))
        os.unlink(sp)
        return op

    def tlc(self, module, cfgtext, tag, trace=None, workers=1, heap="3g", timeout=800, extra=(), keep=False):
        """Run TLC; returns (ok, output, states generated, distinct)."""
        cp = os.path.join(self.dir, tag + ".cfg")
        with open(cp, "w") as f:
            f.write(cfgtext)
        env = dict(os.environ)
        if trace:
            env["TRACE"] = trace
        meta = os.path.join(self.dir, tag + ".meta")
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xss16m", "-Xmx" + heap, "-Djava.io.tmpdir=" + self.dir, "-cp", TLA_CP, "tlc2.TLC", "-noTE", "-config", cp, "-metadir", meta,
               "-workers", str(workers), *extra, os.path.join(SPEC, module + ".tla")]
        try:
            p = self.sh(cmd, timeout=timeout, env=env, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % tag)
        out = p.stdout + p.stderr
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dis = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        return p.returncode, out, gen, dis

    def trace_cfg(self, cfg, groups, extra=None, module="SeqTrace"):
        if module == "BigTrace":
            return ("SPECIFICATION Spec\nVIEW View\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Checks = {%s}\n SegMax = %d\n BaseMax = %d\n"
                    % (",".join('"%s"' % g for g in sorted(groups)), cfg.S, min(cfg.B, 65535)))
        spec = "TraceSpecCost" if module == "CostTrace" else "TraceSpec"
        c = {
            "KeyDiv": cfg.keydiv, "NSlots": 4, "NHeld": 6, "Traits": cfg.traits,
            "Checks": "{" + ",".join('"%s"' % g for g in sorted(groups)) + "}",
            "SegMax": cfg.S, "BaseMax": cfg.B if cfg.judge_base else 0,
            "Tracked": "TRUE" if cfg.tracked else "FALSE", "SegBudget": 0, "NodeBudget": 0,
        }
        c.update(extra or {})
        return ("SPECIFICATION %s\nVIEW View\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" % spec
                + "".join(" %s = %s\n" % kv for kv in c.items()))

    def judge(self, cfg, trace, groups, tag, module="SeqTrace", extra=None):
        """TLC verdict on one trace: None if accepted, else the reject message."""
        rc, out, gen, dis = self.tlc(module, self.trace_cfg(cfg, groups, extra, module), tag, trace=trace)
        rej = re.findall(r'"?(REJECT [^"\n]*)"?', out)
        if rej:
            return rej[0], gen, dis
        if rc == 0 and "No error has been found" in out:
            return None, gen, dis
        if "Parsing or semantic analysis failed" in out or "OutOfMemoryError" in out:
            raise CheckError(out[-800:])
        # the trace cannot be explained for a reason that is not a named group
        m = re.search(r"Error: (.*?)\n(?:Finished|The number|\d+ states)", out, re.S)
        return "REJECT unexplained history ? event ? op ? : " + (m.group(1) if m else out[-1500:])[:800].replace("\n", " "), gen, dis

    def shard(self, cfg, histories, groups, tag, opts=("tree",), module="SeqTrace", extra=None):
        """histories: list of lists of script lines (without H)."""
        script = "".join("H %d\n%s\n" % (i + 1, "\n".join(h)) for i, h in enumerate(histories))
        trace = self.harness(cfg, script, tag, opts)
        n, sample = 0, None
        ops = {}
        with open(trace) as f:
            for line in f:
                n += 1
                m = re.search(r'"op":"(\w+)"', line)
                if m:
                    ops[m.group(1)] = ops.get(m.group(1), 0) + 1
                if n == 3:
                    sample = line.strip()[:400]
        if n == 0:
            raise CheckError("empty trace for %s" % tag)
        msg, gen, dis = self.judge(cfg, trace, groups, tag, module, extra)
        res = dict(cfg=cfg, tag=tag, events=n, hist=len(histories), gen=gen, dis=dis, ops=ops, sample=sample, msg=msg)
        if msg:
            res["confirm"] = self.confirm(cfg, histories, groups, tag, opts, msg, module, extra)
        os.unlink(trace)
        return res

    def confirm(self, cfg, histories, groups, tag, opts, msg, module, extra):
        """Re-run the offending history alone; return replay files when it fails again."""
        m = re.search(r"history (\d+)", msg)
        if m:
            h = histories[int(m.group(1)) - 1]
        elif len(histories) == 1:
            h = histories[0]
        else:
            # unexplained: find the history by running them one by one
            for k, h in enumerate(histories[:400]):
                t = self.harness(cfg, "H 1\n" + "\n".join(h) + "\n", tag + "_b", opts)
                ms, _, _ = self.judge(cfg, t, groups, tag + "_b", module, extra)
                if ms:
                    break
        script = "H 1\n" + "\n".join(h) + "\n"
        for attempt in range(3):
            t = self.harness(cfg, script, tag + "_c%d" % attempt, opts)
            ms, _, _ = self.judge(cfg, t, groups, tag + "_c%d" % attempt, module, extra)
            if ms:
                ev = self.pick_event(t, ms)
                return dict(script=script, message=ms, event=ev, cfg=cfg, opts=list(opts), groups=sorted(groups), module=module, extra=extra)
        # history in isolation is fine: the whole shard again
        script = "".join("H %d\n%s\n" % (i + 1, "\n".join(x)) for i, x in enumerate(histories))
        t = self.harness(cfg, script, tag + "_d", opts)
        ms, _, _ = self.judge(cfg, t, groups, tag + "_d", module, extra)
        if ms:
            return dict(script=script, message=ms, event=self.pick_event(t, ms), cfg=cfg, opts=list(opts), groups=sorted(groups), module=module, extra=extra)
        return None

    @staticmethod
    def pick_event(trace, msg):
        m = re.search(r"history (\d+) event (\d+)", msg)
        if not m:
            return ""
        with open(trace) as f:
            for line in f:
                if '"hi":%s,"ev":%s,' % (m.group(1), m.group(2)) in line:
                    return line.strip()
        with open(trace) as f:
            return (f.read().split("\n") + [""] * (int(m.group(2)) + 1))[int(m.group(2)) - 1]

    def validate(self, jobs):
        """jobs: list of dict(cfg, histories, groups, opts, module).  Runs all in
        parallel; raises Violation on a confirmed rejection."""
        self.build([j["cfg"] for j in jobs])
        futs = []
        for k, j in enumerate(jobs):
            if self.bins[j["cfg"].name] is None:
                continue
            futs.append(self.pool.submit(self.shard, j["cfg"], j["histories"], j["groups"], "s%d_%s" % (k + len(self.models) * 1000, j["cfg"].name),
                                         j.get("opts", ("tree",)), j.get("module", "SeqTrace"), j.get("extra")))
        bad = None
        unstable = []
        for f in cf.as_completed(futs):
            r = f.result()
            self.events += r["events"]
            self.histories += r["hist"]
            self.transitions += max(0, r["gen"] - 1)
            self.states += r["dis"]
            if not r["msg"]:
                self.traces += r["hist"]
            for o, c in r["ops"].items():
                self.ops[o] = self.ops.get(o, 0) + c
            if r["sample"] and len(self.samples) < 4:
                self.samples.append(r["sample"])
            if r["sample"] and len(self.samples) < 4:
                self.samples.append(r["sample"])
            if r["msg"]:
                if r["confirm"]:
                    # enough is known: leave the rest
                    bad = r["confirm"]
                    for x in futs + self.pending:
                        x.cancel()
                    break
                else:
                    unstable.append(r["msg"])
        if not bad:
            for f in self.pending:
                f.result()
            self.pending = []
        if bad:
            raise Violation(bad["message"], {
                "script.txt": bad["script"],
                "program.cpp": bad["cfg"].source(),
                "event.json": bad["event"],
                "spec.cfg": self.trace_cfg(bad["cfg"], bad["groups"], bad.get("extra"), bad["module"]),
                "options": " ".join(bad["opts"]) + "\n" + bad["module"] + "\n",
            })
        if unstable:
            raise CheckError("rejection not reproducible: " + unstable[0])

    def model(self, module, cfgtext, tag, workers=None, heap="8g", timeout=800, extra=()):
        """Exhaustive model checking of a specification module."""
        rc, out, gen, dis = self.tlc(module, cfgtext, tag, workers=workers or CORES, heap=heap, timeout=timeout, extra=extra)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model %s fails: %s" % (module, out[-3000:]))
        self.states += dis
        self.transitions += gen
        self.models.append(dict(module=module, config=tag, states=dis, transitions=gen))
        return out

    def later(self, *a, **k):
        """Model checking alongside the conformance runs; validate() collects it."""
        self.pending.append(self.pool.submit(self.model, *a, **k))

    def heap(self, *specs):
        """The algorithm over a heap of blocks, exhaustively for (S, B, MaxN)."""
        for S, B, N in specs:
            self.later("SegHeap", "SPECIFICATION Spec\nINVARIANTS RetOK NeverBad AllocBound NoOrphans Iterators StepBound Costs\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n"
                       "CONSTANTS\n S = %d\n B = %d\n MaxN = %d\n Fail = TRUE\n" % (S, B, N), "heap_S%d_B%d_MaxN%d" % (S, B, N), workers=1, heap="3g", timeout=3000)

    # ------------------------------------------------------------- reporting
    def finish(self, level="model_checking", violation=None):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, events_by_operation=dict(sorted(self.ops.items())),
                   models=self.models, samples=self.samples[:4] or ["(no trace)"])
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=1 if violation else 0)
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    def report(self, v):
        d = os.path.join(VERIF, "build", "replay", self.prop)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n, t in v.files.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t if t.endswith("\n") else t + "\n")
        with open(os.path.join(d, "README"), "w") as f:
            f.write("%s\n\nReplay: %s/bin/replay.sh %s\n" % (v, VERIF, d))
        print(str(v)[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, d))

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        for _ in range(50):
            for p in list(self.procs):
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
            if not self.procs:
                break
            time.sleep(0.05)
        self.pool.shutdown(wait=True)
        shutil.rmtree(self.dir, ignore_errors=True)
