"""Runs the scenarios of one property: exploration in forked workers, replay of every
candidate on the real code, evidence."""
import fnmatch
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


# ------------------------------------------------------------------ replay on the real code
class Server:
    def __init__(self):
        env = dict(os.environ)
        env.pop("PYTHONHOME", None)
        env["PYTHONPATH"] = "/opt/vp/py2"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.p = subprocess.Popen(["/opt/venv/bin/python", HERE + "/engine/replay_server.py"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=HERE)
        self.buf = b""
        self.ready = None
        self.busy = None
        self.t0 = time.time()

    def send(self, req):
        self.busy = req
        self.t0 = time.time()
        self.p.stdin.write((json.dumps(req) + "\n").encode())
        self.p.stdin.flush()

    def read(self):
        """Complete messages available now; None at end of stream."""
        d = os.read(self.p.stdout.fileno(), 1 << 20)
        if not d:
            return None
        self.buf += d
        out = []
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            out.append(json.loads(line))
        return out

    def stop(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass


# ------------------------------------------------------------------ worker side
class Monitor:
    """Functions of the code under test that were executed."""
    def __init__(self):
        self.seen = set()
        mon = sys.monitoring
        self.id = 3
        try:
            mon.use_tool_id(self.id, "clfv")
        except ValueError:
            return
        mon.register_callback(self.id, mon.events.PY_START, self.start)
        mon.set_events(self.id, mon.events.PY_START)

    def start(self, code, off):
        f = code.co_filename
        if f.startswith("/repo/python/"):
            self.seen.add("%s:%s" % (f[len("/repo/python/"):], code.co_qualname))
        return sys.monitoring.DISABLE


def explore(module, name, tier, mods, deadline, send, rng):
    import z3
    from engine import api, concrete, sym
    sc = module.SCENARIOS[name]
    conf = {"branch_ms": 3000, "assert_ms": 10000 if tier == "quick" else 60000, "max_paths": 6000 if tier == "quick" else 60000}
    conf.update(sc.conf)
    budget = sc.conf.get(tier + "_s", 60 if tier == "quick" else 400)
    conf["deadline"] = min(deadline, time.time() + budget)
    conf["hard_deadline"] = deadline
    stats = sym.Stats()
    res = {"scenario": name, "undecided": {}, "limits": {}, "labels": {}, "exceptions": {}}
    sent = {}
    wits = []
    seenw = [0]
    nwit = 3 if tier == "quick" else 8

    def bump(d, k):
        d[k] = d.get(k, 0) + 1

    def concretely(inputs):
        save = sym.CUR
        sym.CUR = sym.Path((), sym.Stats(), {"branch_ms": 1000})
        cwd = os.getcwd()
        try:
            return concrete.run(sc.fn, inputs, mods, sc.params)
        finally:
            os.chdir(cwd)
            sym.CUR = save

    def confirm(inputs, label):
        key = label.split("[")[0]
        n = sent.setdefault(key, [0, 0])
        try:
            st, fl, _, soft = concretely(inputs)
        except Exception as e:
            st, fl, soft = "limit", [("engine", repr(e))], []
        small = [s for s in soft if s[1].split("[")[0] == key] if st == "pass" else []
        if small and n[1] < 6:
            # the deviation is below the tolerance for single precision: the real code has to show the same one
            n[1] += 1
            send({"kind": "cex", "scenario": name, "label": label, "inputs": inputs, "strong": False, "why": small[:3], "soft": small})
            return False
        ok = st == "fail" and any(f[0].split("[")[0] == key or f[0] == "exception" for f in fl)
        if ok and n[0] < 3:
            n[0] += 1
            send({"kind": "cex", "scenario": name, "label": label, "inputs": inputs, "strong": True, "why": fl[:3]})
        elif not ok and n[1] < 3:
            n[1] += 1
            send({"kind": "cex", "scenario": name, "label": label, "inputs": inputs, "strong": False, "why": []})
        return ok

    conf["confirm"] = confirm
    conf["unconfirmed"] = lambda label: bump(res["undecided"], "candidate not confirmed: " + label.split("[")[0])

    def make(path):
        return api.SymS(path, mods)

    def on_path(path, S, exc):
        for u in path.undecided:
            bump(res["undecided"], "solver gave no answer: " + u.split("[")[0])
        if isinstance(exc, tuple):
            stats.limited += 1
            bump(res["limits"], exc[1][:160])
            probe(path)
        elif isinstance(exc, Exception):
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exception(exc, file=open("/tmp/trace.txt", "a"))
            tb = traceback.extract_tb(exc.__traceback__)
            where = "; ".join("%s:%s" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
            bump(res["exceptions"], "%s: %s (%s)" % (type(exc).__name__, str(exc)[:120], where))
            stats.asserts += 1
            conf["deadline"] = conf["hard_deadline"]
            try:
                # some model of this path
                path.deadline = None
                r = path.check(timeout=8000)
                if r == z3.sat:
                    inputs = api.model_inputs(path, path.solver.model())
                    if not confirm(inputs, "exception"):
                        conf["unconfirmed"]("exception")
                        probe(path)
                elif r == z3.unknown:
                    conf["unconfirmed"]("exception")
            except sym.Stop:
                pass
            conf["deadline"] = min(deadline, t_end)
        elif exc is None:
            bump(res["labels"], "paths")
        if exc is None or isinstance(exc, tuple):
            seenw[0] += 1
            if len(wits) < nwit or rng.random() < nwit / seenw[0]:
                w = witness(path, isinstance(exc, tuple))
                if w:
                    if len(wits) < nwit:
                        wits.append(w)
                    else:
                        wits[rng.randrange(nwit)] = w
        return False

    probes = []

    def probe(path):
        """A path the engine could not follow to its end: solver-chosen inputs for the real code, spread out."""
        for _ in range(3):
            if len(probes) < 24 and time.time() < conf["hard_deadline"]:
                w = witness(path, True, 80)
                if w:
                    probes.append(w)

    def witness(path, limited, most=8):
        try:
            path.deadline = None
            m = path.model
            if path.check(timeout=2000) != z3.sat:
                return None
            m = path.solver.model()
            fixed = []
            n = 0
            for nm, (k, t) in path.inputs.items():
                if k != "real" or n > most:
                    continue
                n += 1
                v = api.frac(m.eval(t, model_completion=True))
                from fractions import Fraction
                # move off the boundary where the path allows it
                for w in ([Fraction(rng.randrange(-2048, 2049), 1024)] + [v + Fraction(1, 64), v - Fraction(1, 64)] if v.denominator == 1 or most > 8
                          else [Fraction(round(v * 1024), 1024)]):
                    c = t == z3.RealVal(str(w))
                    if path.check(*(fixed + [c]), timeout=300) == z3.sat:
                        m = path.solver.model()
                        fixed.append(c)
                        break
            return {"inputs": api.model_inputs(path, m), "obs": [] if limited or path.apps else api.model_obs(path, m),
                    "limited": limited, "conditions": len(path.trace)}
        except (sym.Stop, z3.Z3Exception, AttributeError, OverflowError):
            return None

    t_end = conf["deadline"]
    t0 = time.time()
    try:
        res["complete"] = sym.run_paths(lambda S: sc.fn(S, **sc.params), make, conf, stats, on_path)
    except Exception:
        res["complete"] = False
        bump(res["limits"], "engine: " + traceback.format_exc()[-300:])
    res["wall"] = time.time() - t0
    res["stats"] = dict(stats.__dict__)
    res["witnesses"] = wits + probes
    res["kind"] = "done"
    return res


def worker(module, names, tier, mods, deadline, rfd, wfd, seed):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    mon = Monitor()
    w = os.fdopen(wfd, "w")
    r = os.fdopen(rfd, "r")

    def send(o):
        w.write(json.dumps(o) + "\n")
        w.flush()
    send({"kind": "ask"})
    for line in r:
        name = json.loads(line)
        if name is None:
            break
        try:
            out = explore(module, name, tier, mods, deadline, send, random.Random("%s/%s" % (seed, name)))
        except BaseException:
            out = {"kind": "done", "scenario": name, "complete": False, "limits": {"engine: " + traceback.format_exc()[-300:]: 1},
                   "undecided": {}, "labels": {}, "exceptions": {}, "witnesses": [], "stats": {}, "wall": 0}
        out["functions"] = sorted(mon.seen)
        send(out)
        send({"kind": "ask"})
    os._exit(0)


# ------------------------------------------------------------------ parent
def load_known(prop):
    known = []
    path = HERE + "/known-findings.txt"
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                d = {"text": line.split(" -- ", 1)[1].strip() if " -- " in line else line.strip()}
                for w in line.split(" -- ")[0].split()[2:]:
                    k, _, v = w.partition("=")
                    d[k] = v
                known.append(d)
    return known


def perturbed(inputs, f):
    return {k: (v * f if isinstance(v, float) and not isinstance(v, bool) else v) for k, v in inputs.items()}


class Check:
    def __init__(self, prop, tier, only=None):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.only = only

    def run(self):
        prop, tier = self.prop, self.tier
        self.servers = [Server(), Server()] if tier == "thorough" else [Server()]
        try:
            return self._run()
        finally:
            for s in self.servers:
                s.stop()
            for pid in getattr(self, "pids", []):
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            for pid in getattr(self, "pids", []):
                try:
                    os.waitpid(pid, 0)
                except OSError:
                    pass
            self._sweep()

    def _sweep(self):
        import glob
        import shutil
        for pid in getattr(self, "pids", []) + [s.p.pid for s in self.servers]:
            for d in glob.glob("/tmp/clfv-%d-*" % pid):
                shutil.rmtree(d, ignore_errors=True)

    def _run(self):
        prop, tier = self.prop, self.tier
        sys.path.insert(0, HERE + "/stubs")
        from engine import concrete, loader, npshim, post
        try:
            loader.load()
        except Exception as e:
            print("ERROR: the code under test cannot be loaded: %s" % e)
            traceback.print_exc()
            return 2
        mods = concrete.Mods(post.post, np=lambda: npshim.numpy)
        mods.get("aces.clf")
        modname = prop.lower()
        module = importlib.import_module("props." + modname)
        for m in getattr(module, "MODULES", []):
            mods.get(m)
        names = [n for n, s in module.SCENARIOS.items() if tier == "thorough" or s.tier == "quick"]
        if self.only:
            names = [n for n in names if fnmatch.fnmatch(n, self.only)]
        names.sort(key=lambda n: -module.SCENARIOS[n].conf.get("weight", 1))
        self.total = {"quick": getattr(module, "QUICK_S", 540), "thorough": getattr(module, "THOROUGH_S", 800)}[tier]
        deadline = self.t0 + self.total
        # the engine's translation of the code is exercised before any fork
        self.pids = []
        pipes = {}
        nw = min(WORKERS, max(1, len(names)))
        for i in range(nw):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w1)
                    os.close(r2)
                    worker(module, names, tier, mods, deadline, r1, w2, self.seed)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(1)
            os.close(r1)
            os.close(w2)
            self.pids.append(pid)
            pipes[r2] = [os.fdopen(w1, "w"), b"", None]
        todo = list(names)
        results = {}
        jobs = []            # replay requests not yet sent
        self.known = load_known(prop)
        self.known_hit = set()
        self.candidates = {"reproduced": 0, "not_reproduced": 0}
        self.wit = {"run": 0, "agree": 0, "diverge": 0, "failed": 0, "values": 0}
        self.samples = []
        self.notrepro = []
        self.rejobs = {}
        jid = 0
        violation = None
        serverdead = 0
        while True:
            fds = list(pipes) + [s.p.stdout.fileno() for s in self.servers if s.ready is not False]
            if not pipes and not jobs and not any(s.busy for s in self.servers):
                break
            if not pipes and all(s.ready is False for s in self.servers):
                break
            if time.time() > deadline + 60:
                break
            rd, _, _ = select.select(fds, [], [], 1.0)
            for fd in rd:
                if fd in pipes:
                    d = os.read(fd, 1 << 20)
                    if not d:
                        if pipes[fd][2]:
                            results.setdefault(pipes[fd][2], {"scenario": pipes[fd][2], "complete": False, "limits": {"worker ended": 1},
                                                             "undecided": {}, "exceptions": {}, "stats": {}, "functions": [], "wall": 0})
                        os.close(fd)
                        del pipes[fd]
                        continue
                    pipes[fd][1] += d
                    while b"\n" in pipes[fd][1]:
                        line, pipes[fd][1] = pipes[fd][1].split(b"\n", 1)
                        o = json.loads(line)
                        if o["kind"] == "ask":
                            n = todo.pop(0) if todo and time.time() < deadline else None
                            pipes[fd][2] = n
                            try:
                                pipes[fd][0].write(json.dumps(n) + "\n")
                                pipes[fd][0].flush()
                            except OSError:
                                pass
                        elif o["kind"] == "cex":
                            jid += 1
                            o["id"] = jid
                            jobs.insert(0, o)
                        else:
                            results[o["scenario"]] = o
                            pipes[fd][2] = None
                            for w in o.pop("witnesses", []):
                                jid += 1
                                jobs.append({"id": jid, "kind": "wit", "scenario": o["scenario"], "inputs": w["inputs"],
                                             "obs": w["obs"], "limited": w["limited"]})
                            if os.environ.get("VERIF_DEBUG"):
                                print(o["scenario"], "%.1fs" % o["wall"], "complete" if o["complete"] else "INCOMPLETE",
                                      {k: round(v, 1) for k, v in o["stats"].items()}, o["limits"], o["undecided"], o["exceptions"])
                else:
                    s = [x for x in self.servers if x.p.stdout.fileno() == fd and x.ready is not False][0]
                    msgs = s.read()
                    if msgs is None:
                        s.ready = False
                        if s.busy:
                            serverdead += 1
                            if serverdead < 4:
                                self.servers.remove(s)
                                s.stop()
                                self.servers.append(Server())
                        continue
                    for m in msgs:
                        if "ready" in m:
                            if not m["ready"]:
                                print("ERROR: the real code cannot be imported: %s" % m["error"])
                                return 2
                            s.ready = True
                            continue
                        req, s.busy = s.busy, None
                        v = self.answer(req, m, jobs)
                        if v and os.environ.get("VERIF_ALL"):
                            print("ALL", v["scenario"], v["label"], v["failures"][:2], json.dumps(v["inputs"])[:300])
                        if v and not violation:
                            violation = v
            for s in list(self.servers):
                if s.ready and not s.busy and jobs:
                    j = jobs.pop(0)
                    s.send({"id": j["id"], "module": modname, "scenario": j["scenario"], "inputs": j["inputs"]})
                    s.busy = j
                elif s.busy and time.time() - s.t0 > 90:
                    s.stop()
                    s.ready = False
                    self.servers.remove(s)
                    self.servers.append(Server())
                    self.notrepro.append({"scenario": s.busy["scenario"], "reason": "replay timed out"})
            if violation and not os.environ.get("VERIF_ALL"):
                break
        for n in names:
            results.setdefault(n, {"scenario": n, "complete": False, "limits": {"not started before the time budget ran out": 1},
                                   "undecided": {}, "exceptions": {}, "stats": {}, "functions": [], "wall": 0})
        rc = self.evidence(module, names, results, violation)
        return rc

    def is_known(self, scenario, labels):
        for i, k in enumerate(self.known):
            if fnmatch.fnmatchcase(scenario, k.get("scenario", "*")) and labels and \
                    all(fnmatch.fnmatchcase(x, k.get("label", "*")) for x in labels):
                self.known_hit.add(i)
                return True
        return False

    def answer(self, req, m, jobs):
        labels = sorted(set(f[0].split("[")[0] for f in m["failures"]))
        if req["kind"] == "cex":
            if m["status"] == "fail":
                if self.is_known(req["scenario"], labels):
                    return None
                self.candidates["reproduced"] += 1
                return {"scenario": req["scenario"], "label": req["label"], "inputs": req["inputs"], "failures": m["failures"]}
            real = dict((s[0], s) for s in m.get("soft", []))
            for k, lab, dev, _ in req.get("soft", []) if m["status"] == "pass" else []:
                if k in real and abs(real[k][2] - dev) < 0.2 * abs(dev):
                    if self.is_known(req["scenario"], [lab.split("[")[0]]):
                        return None
                    self.candidates["reproduced"] += 1
                    return {"scenario": req["scenario"], "label": lab, "inputs": req["inputs"], "soft": [k, lab, dev],
                            "failures": [[lab, "%s, a deviation of %g where the encoded code deviates by %g" % (real[k][3], real[k][2], dev)]]}
            self.candidates["not_reproduced"] += 1
            self.notrepro.append({"scenario": req["scenario"], "label": req["label"], "inputs": req["inputs"], "strong": req["strong"],
                                  "real_code": [m["status"], m["failures"][:2]], "engine": req["why"]})
            return None
        if req["kind"] == "re":
            base = req["base"]
            if m["status"] == "fail" and set(labels) & set(base["labels"]):
                if not base.get("hit"):
                    base["hit"] = True
                    return {"scenario": req["scenario"], "label": ",".join(labels), "inputs": base["inputs"], "failures": base["failures"],
                            "found": "replay of a path witness"}
            return None
        self.wit["run"] += 1
        if len(self.samples) < 12:
            self.samples.append({"scenario": req["scenario"], "inputs": req["inputs"], "real_code": m["status"]})
        if m["status"] == "fail":
            if self.is_known(req["scenario"], labels):
                return None
            self.wit["failed"] += 1
            self.notrepro.append({"scenario": req["scenario"], "witness": True, "inputs": req["inputs"], "real_code": m["failures"][:2]})
            base = {"labels": labels, "inputs": req["inputs"], "failures": m["failures"]}
            nreal = sum(isinstance(v, float) for v in req["inputs"].values())
            if not nreal:
                return {"scenario": req["scenario"], "label": ",".join(labels), "inputs": req["inputs"], "failures": m["failures"],
                        "found": "replay of a path witness"}
            for f in (1.00048828125, 0.99951171875):
                jobs.insert(0, {"id": 0, "kind": "re", "scenario": req["scenario"], "inputs": perturbed(req["inputs"], f), "base": base})
            return None
        if m["status"] == "pass":
            bad = 0
            big = max([1.0] + [abs(b) for _, b in m["obs"] if not isinstance(b, str)])
            if m.get("count", len(m["obs"])) == len(req["obs"]):
                for (l1, a), (l2, b) in zip(req["obs"], m["obs"]):
                    if a is None or isinstance(b, str) and b not in ("nan", "inf", "-inf"):
                        continue
                    self.wit["values"] += 1
                    a, b = float(a), float(b)
                    if not (a == b or (a != a and b != b) or abs(a - b) <= 1e-4 * max(big, abs(a), abs(b))):
                        bad += 1
            elif req["obs"]:
                bad += 1
            self.wit["diverge" if bad else "agree"] += 1
            if bad:
                self.notrepro.append({"scenario": req["scenario"], "witness_values_differ": True, "inputs": req["inputs"],
                                      "model": req["obs"][:6], "real": m["obs"][:6]})
        elif m["status"] == "error":
            self.notrepro.append({"scenario": req["scenario"], "replay_error": m["failures"]})
        return None

    def evidence(self, module, names, results, violation):
        tot = {}
        funcs = set()
        undecided = []
        incomplete = []
        for n in names:
            r = results[n]
            for k, v in r["stats"].items():
                tot[k] = tot.get(k, 0) + v
            funcs |= set(r.get("functions", []))
            why = dict(r["limits"])
            why.update(r["undecided"])
            why.update({"exception on a path: " + k: v for k, v in r["exceptions"].items()})
            if not r["complete"]:
                incomplete.append(n)
            if why or not r["complete"]:
                undecided.append({"scenario": n, "complete": r["complete"], "why": why})
        g = lambda k: int(tot.get(k, 0))       # noqa: E731
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "explanation": "states: feasible paths of the scenarios over the symbolically executed code; transitions: "
                               "branch alternatives the solver found feasible; every assertion on a path is one or more solver queries",
                "states": g("paths"), "transitions": g("branches"),
                "traces_validated_against_impl": self.wit["agree"],
                "witness_replays": self.wit,
                "assertions": g("asserts"), "assertions_discharged": g("discharged"),
                "solver_queries": g("queries"), "solver_seconds": round(tot.get("solver_s", 0.0), 2),
                "solver_unknown": g("unknown"), "paths_not_encodable": g("limited"),
                "scenarios": len(names), "scenarios_explored_to_the_end": len(names) - len(incomplete),
                "scenario_list": [{"name": n, "paths": results[n]["stats"].get("paths", 0), "assertions": results[n]["stats"].get("asserts", 0),
                                   "complete": results[n]["complete"], "wall_s": round(results[n]["wall"], 1)} for n in names],
                "functions_encoded": sorted(funcs),
                "bounds": getattr(module, "BOUNDS", ""),
                "outside_bounds": getattr(module, "OUTSIDE", ""),
                "undecided": undecided, "candidates": self.candidates, "not_reproduced": self.notrepro[:20],
                "samples": self.samples or [{"scenario": n} for n in names[:3]],
            },
            "assumptions": ["single/double rounding is outside the claim unless the scenario says bit-exact: numbers are exact reals",
                            "numpy, math, struct and binascii are replaced by models of the operations the code uses; "
                            "every reported violation is reproduced with the real libraries first"] + list(getattr(module, "ASSUMPTIONS", [])),
            "wall_s": round(time.time() - self.t0, 2), "violations": 1 if violation else 0,
        }
        os.makedirs(HERE + "/evidence", exist_ok=True)
        with open(HERE + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for i, k in enumerate(self.known):
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, k["text"], "" if i in self.known_hit else " (not reached in this run)"))
        print("%s %s: %d scenarios (%d complete), %d paths, %d assertions, %d discharged, %d queries, solver %.1f s, wall %.1f s; "
              "witnesses %s" % (self.prop, self.tier, len(names), len(names) - len(incomplete), g("paths"), g("asserts"), g("discharged"),
                                g("queries"), tot.get("solver_s", 0.0), time.time() - self.t0, self.wit))
        for u in undecided if not violation or os.environ.get("VERIF_ALL") else []:
            print("UNDECIDED property=%s scenario=%s complete=%s %s" % (self.prop, u["scenario"], u["complete"], u["why"]))
        if os.environ.get("VERIF_DEBUG"):
            for x in self.notrepro[:8]:
                print("NOTE", json.dumps(x)[:1500])
        if violation:
            os.makedirs(HERE + "/replays", exist_ok=True)
            path = HERE + "/replays/%s-%s.json" % (self.prop, violation["scenario"].replace("/", "_"))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "module": self.prop.lower(), **violation,
                           "how": "python3 %s/replay.py %s" % (HERE, path)}, f, indent=1)
            print("  scenario %s, inputs %s" % (violation["scenario"], json.dumps(violation["inputs"])[:600]))
            for fl in violation["failures"][:4]:
                print("  real code: %s: %s" % (fl[0], fl[1]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if g("discharged") == 0:
            print("ERROR: nothing could be decided")
            return 2
        return 0
