"""Runner: cases -> worker processes -> monitors -> verdict, evidence, replay."""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()


class CaseAbort(Exception):
    pass


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Mon:
    """Observes one case; collects events, signatures and failures."""

    def __init__(self, stratum, index, seed):
        self.stratum, self.index, self.seed = stratum, index, seed
        self.events = collections.Counter()
        self.fails, self.known = [], []
        self.desc = {}
        self.sig = set()
        self.evals = 0

    def ev(self, name, n=1):
        self.events[name] += n

    def case(self, sig=None, **desc):
        """Announce a (sub)case: description for samples, signature for distinct counting."""
        self.evals += 1
        self.desc = desc
        self.sig.add(hashlib.md5((self.stratum + repr(sig if sig is not None else sorted(desc.items(), key=str))).encode()).hexdigest()[:12])

    def fail(self, kind, msg, **detail):
        self.fails.append(dict(kind=kind, msg=str(msg)[:1500], desc={k: str(v)[:300] for k, v in self.desc.items()},
                               detail={k: str(v)[:600] for k, v in detail.items()},
                               stratum=self.stratum, index=self.index, seed=self.seed))

    def known_finding(self, key, msg):
        self.known.append((key, str(msg)[:300]))

    def call(self, fn, *a, **k):
        """Call the code under test on valid input: an exception is a violation."""
        try:
            return fn(*a, **k)
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            self.fail("exception", f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-600:])
            raise CaseAbort()


def _rng(check, stratum, seed, index):
    return random.Random(f"{check}|{stratum}|{seed}|{index}")


def run_case(mod, stratum, index, seed):
    import torch

    mon = Mon(stratum, index, seed)
    rng = _rng(mod.ID, stratum, seed, index)
    torch.manual_seed(rng.getrandbits(60))
    try:
        mod.STRATA[stratum][0](rng, mon)
    except CaseAbort:
        pass
    except Skip:
        mon.ev("skipped")
    return mon


def _worker(mod, cases, counter, cur, wid, outpath, seed, deadline, nfail):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    import torch

    torch.set_num_threads(1)
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    R = dict(events=collections.Counter(), evals=collections.Counter(), ran=collections.Counter(), sigs=set(), fails=[],
             known=[], samples=[], errors=[])
    while True:
        with counter.get_lock():
            i = counter.value
            if i >= len(cases):
                break
            counter.value = i + 1
        if time.time() > deadline or nfail.value >= int(os.environ.get("VMON_MAXFAIL", "12")):
            break
        s, k = cases[i]
        cur[2 * wid] = i + 1
        cur[2 * wid + 1] = int(time.time())
        try:
            mon = run_case(mod, s, k, seed)
        except (MemoryError, KeyboardInterrupt, OSError) as e:
            R["errors"].append(f"{s}[{k}]: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
            if len(R["errors"]) > 5:
                break
            continue
        except BaseException as e:
            # the oracle could not even interpret what the code returned
            R["fails"].append(dict(kind="uninterpretable", msg=f"{type(e).__name__}: {e}", desc={}, stratum=s, index=k, seed=seed,
                                   detail=dict(tb=traceback.format_exc()[-1200:])))
            with nfail.get_lock():
                nfail.value += 1
            continue
        finally:
            cur[2 * wid] = 0
        R["events"].update({f"{s}:{n}" if n == "skipped" else n: c for n, c in mon.events.items()})
        R["evals"][s] += mon.evals
        R["ran"][s] += 1
        R["sigs"] |= mon.sig
        if len(R["samples"]) < 40 and mon.desc and not any(x["stratum"] == s for x in R["samples"]):
            R["samples"].append(dict(stratum=s, index=k, **{a: str(b)[:200] for a, b in mon.desc.items()}))
        R["known"] += mon.known
        if mon.fails:
            R["fails"] += mon.fails[:2]
            with nfail.get_lock():
                nfail.value += 1
    with open(outpath + ".tmp", "wb") as f:
        pickle.dump(R, f)
    os.rename(outpath + ".tmp", outpath)
    os._exit(0)


def _cpu(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def run_pool(mod, tier, seed, nproc, budget):
    strata = mod.STRATA
    col = 1 if tier == "quick" else 2
    mult = getattr(mod, "QUICK", 5) if tier == "quick" else 1
    todo = {s: int(v[col] * mult) for s, v in strata.items()}
    # interleave the strata proportionally so that a cut run still covers all of them
    cases = sorted(((k + 0.5) / n, s, k) for s, n in todo.items() for k in range(n))
    cases = [(s, k) for _, s, k in cases]
    ctx = mp.get_context("fork")
    counter, nfail = ctx.Value("l", 0), ctx.Value("i", 0)
    cur = ctx.Array("l", 2 * nproc, lock=False)
    tmp = tempfile.mkdtemp(prefix="vmon-")
    deadline = time.time() + budget
    total = dict(events=collections.Counter(), evals=collections.Counter(), ran=collections.Counter(), sigs=set(), fails=[],
                 known=[], samples=[], errors=[], inconclusive=[])
    procs, base, n = {}, {}, 0

    def spawn(w):
        nonlocal n
        n += 1
        p = ctx.Process(target=_worker, args=(mod, cases, counter, cur, w, os.path.join(tmp, str(n)), seed, deadline, nfail))
        p.start()
        procs[w] = p
        base[w] = None

    for w in range(min(nproc, len(cases))):
        spawn(w)
    while procs:
        time.sleep(0.05)
        for w, p in list(procs.items()):
            if p.is_alive():
                i, st = cur[2 * w], cur[2 * w + 1]
                if i == 0:
                    base[w] = None
                    continue
                if base[w] is None or base[w][0] != i:
                    base[w] = (i, _cpu(p.pid))
                used, wall = _cpu(p.pid) - base[w][1], time.time() - st
                if used > getattr(mod, "CASE_CPU", 200) or wall > 500:
                    s, k = cases[i - 1]
                    if used > getattr(mod, "CASE_CPU", 200):
                        total["fails"].append(dict(kind="no-result", msg=f"no result after {used:.0f} s of CPU time (a case takes well below a second normally)",
                                                   desc={}, detail={}, stratum=s, index=k, seed=seed))
                        nfail.value += 1
                    else:
                        total["inconclusive"].append(f"case {s}[{k}] exceeded the wall-clock watchdog")
                    p.kill()
                    p.join()
                    del procs[w]
                    if nfail.value < 3:
                        spawn(w)
                continue
            p.join()
            del procs[w]
            if p.exitcode != 0:
                i = cur[2 * w]
                s, k = cases[i - 1] if i else ("?", -1)
                if p.exitcode == -signal.SIGKILL:
                    total["inconclusive"].append(f"worker killed in case {s}[{k}] (out of memory?)")
                else:
                    total["fails"].append(dict(kind="crash", msg=f"the process died with exit code {p.exitcode}",
                                               desc={}, detail={}, stratum=s, index=k, seed=seed))
                    nfail.value += 1
                cur[2 * w] = 0
                if counter.value < len(cases) and nfail.value < int(os.environ.get("VMON_MAXFAIL", "6")):
                    spawn(w)
    for f in os.listdir(tmp):
        if not f.endswith(".tmp"):
            R = pickle.load(open(os.path.join(tmp, f), "rb"))
            for k in ("events", "evals", "ran"):
                total[k].update(R[k])
            total["sigs"] |= R["sigs"]
            for k in ("fails", "known", "samples", "errors"):
                total[k] += R[k]
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    total["planned"] = len(cases)
    return total


def known_keys(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {e["key"]: e["what"] for e in json.load(open(p))["findings"] if e["property"] == pid}


def finish(mod, tier, seed, total, extra_cov=None):
    """Turn what was observed into evidence and an exit code."""
    pid = mod.ID
    listed = known_keys(pid)
    seen_known = collections.Counter(k for k, _ in total["known"])
    for k in seen_known:
        if k not in listed:
            msg = next(m for kk, m in total["known"] if kk == k)
            total["fails"].append(dict(kind=f"unlisted:{k}", msg=msg, desc={}, detail={}, stratum="known", index=-1, seed=seed))
    samples, seen = [], set()
    for s in total["samples"]:
        if s["stratum"] not in seen and len(samples) < 12:
            seen.add(s["stratum"])
            samples.append(s)
    cov = dict(evaluations=sum(total["evals"].values()), distinct_nontrivial=len(total["sigs"]), rule=mod.RULE, samples=samples,
               events=dict(sorted(total["events"].items())), cases_per_stratum=dict(total["ran"]),
               planned_cases=total.get("planned", 0), known_findings_seen=dict(seen_known))
    cov.update(extra_cov or {})
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - T0, 2), violations=len(total["fails"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in listed:
        print(f"KNOWN-FINDING: property={pid} {listed[k]}" + ("" if k in seen_known else " (not met in this run)"))
    print(f"{pid}: {cov['evaluations']} evaluations, {cov['distinct_nontrivial']} distinct, events {dict(total['events'].most_common(12))}, {ev['wall_s']} s")
    if total["fails"]:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        kinds = {}
        for f in total["fails"]:
            kinds.setdefault((f["kind"], f["stratum"]), f)
        for n, f in enumerate(list(kinds.values())[:int(os.environ.get("VMON_MAXFAIL", "8"))]):
            path = os.path.join(rd, f"{pid}-{n}.json")
            json.dump(dict(check=pid, tier=tier, **f), open(path, "w"), indent=1)
            print(f"  [{f['stratum']}#{f['index']}] {f['kind']}: {f['msg']} | {f['desc']} {f['detail']}"[:1800])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    bad = list(total.get("inconclusive", []))
    if total["errors"]:
        bad += ["harness error: " + e for e in total["errors"][:3]]
    for name, least in getattr(mod, "REQUIRED", {}).items():
        if total["events"].get(name, 0) < least:
            bad.append(f"monitor event '{name}' observed {total['events'].get(name, 0)} times, at least {least} needed")
    for s in mod.STRATA:
        if total["ran"].get(s, 0) == 0:
            bad.append(f"stratum {s} never ran")
    if bad:
        for b in bad:
            print("INCONCLUSIVE:", b)
        return 3
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--case", help="stratum:index")
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    sys.setrecursionlimit(2000)
    os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
    mod = importlib.import_module(f"vmon.checks.{a.check.lower()}")
    budget = a.budget or getattr(mod, "BUDGET", {"quick": 400, "thorough": 780})[a.tier]
    if hasattr(mod, "custom"):
        return mod.custom(a.tier, a.seed, a)
    mod.setup()
    if a.replay or a.case:
        if a.replay:
            r = json.load(open(a.replay))
            s, k, sd = r["stratum"], r["index"], r["seed"]
            if s.startswith("native:"):
                fails, bad = mod.replay(r)
                for f in fails:
                    print(json.dumps(f, indent=1))
                if fails:
                    print(f"VIOLATION property={mod.ID} replay={a.replay}")
                return 1 if fails else 3 if bad else 0
        else:
            s, k = a.case.rsplit(":", 1)
            k, sd = int(k), a.seed
        import torch

        torch.set_num_threads(1)
        if hasattr(mod, "worker_init"):
            mod.worker_init()
        mon = run_case(mod, s, int(k), sd)
        print("desc:", mon.desc)
        for f in mon.fails:
            print(json.dumps(f, indent=1))
        print("known:", mon.known)
        if mon.fails:
            print(f"VIOLATION property={mod.ID} replay={a.replay or a.case}")
        return 1 if mon.fails else 0
    total = run_pool(mod, a.tier, a.seed, a.procs, budget)
    if hasattr(mod, "post"):
        mod.post(a.tier, a.seed, total)
    return finish(mod, a.tier, a.seed, total)
