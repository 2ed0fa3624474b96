"""Sanitizer builds of the repository's csrc and the driver processes that exercise them."""
import collections
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

from . import load

HERE = os.path.join(load.VERIF, "native")
DRIVER = os.path.join(HERE, "driver.cpp")
PYL = ("-ltorch_python", "-lpython3.12")


def asan():
    return load.build("asan", [DRIVER], cflags=("-O1", "-g", "-fno-omit-frame-pointer", "-fstrict-overflow", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                                               "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS"),
                      ldflags=("-fsanitize=address,undefined", *PYL), out_name="driver", shared=False)


def tsan():
    return load.build("tsan", [DRIVER, os.path.join(HERE, "gompshim.cpp")], cflags=("-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"),
                      ldflags=("-fsanitize=thread", "-rdynamic", *PYL), out_name="driver", shared=False)


def emu():
    """The .cu files on the host (Thrust replaced by native/cuda_shim), under ASan + UBSan."""
    shim = os.path.join(HERE, "cuda_shim")
    d = os.path.join(load.VERIF, ".build", f"cusrc-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    try:
        srcs = [DRIVER]
        for f in sorted(glob.glob(os.path.join(load.CSRC, "*.cu"))):
            w = os.path.join(d, os.path.basename(f) + ".cpp")
            open(w, "w").write('#include "emu.hpp"\n#include "%s"\n' % f)
            srcs.append(w)
        key = hashlib.sha256(open(os.path.join(shim, "emu.hpp"), "rb").read()).hexdigest()[:12]
        return load.build("emu", srcs, cflags=("-O1", "-g", "-fno-omit-frame-pointer", "-DEMU", f"-DEMU_KEY=_{key}", f"-I{shim}", "-fsanitize=address,undefined",
                                               "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS"),
                          ldflags=("-fsanitize=address,undefined", *PYL), out_name="driver", shared=False, repo_src=False)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def classify(txt, rc):
    """What the instrumentation observed: list of (kind, message, case index or None)."""
    out = []
    for m in re.finditer(r"^MONITOR case=(\d+) (.*)$", txt, re.M):
        out.append(("monitor", m.group(2)[:600], int(m.group(1))))
    for m in re.finditer(r"^(.*runtime error: .*)$", txt, re.M):
        out.append(("undefined-behaviour", m.group(1)[:400], None))
        break
    m = re.search(r"==\d+==ERROR: AddressSanitizer: (.*)", txt)
    if m:
        frame = re.search(r"#\d+ .*?/csrc/\S+", txt)
        out.append(("address", m.group(1)[:200] + " | " + (frame.group(0)[:300] if frame else txt[m.start():m.start() + 600]), None))
    unattributed = 0
    for rep in re.split(r"={18,}\n", txt):
        if "WARNING: ThreadSanitizer" in rep:
            if "/csrc/" in rep:
                if not any(k == "data-race" for k, _, _ in out):
                    fr = re.findall(r"#\d+ .*?/csrc/\S+", rep)
                    out.append(("data-race", rep.split("\n")[0][:200] + " | " + " <-> ".join(fr[:4])[:800], None))
            else:
                unattributed += 1
    if not out and rc not in (0, 66):
        if rc < 0 and rc != -9:
            out.append(("crash", f"the process died with signal {-rc}: {txt[-400:]}", None))
        elif re.search(r"terminate called", txt):
            out.append(("crash", "uncaught exception: " + txt[-600:], None))
    return out, unattributed


def run(exe, mode, seed, jobs, seconds, envs, name):
    """jobs: list of (first, count); returns events, fails, inconclusive, samples."""
    ev, fails, bad, samples = collections.Counter(), [], [], []
    tmp = tempfile.mkdtemp(prefix="vmon-native-")
    ps = []
    for k, (first, count) in enumerate(jobs):
        env = {**os.environ, **envs[k % len(envs)]}
        cur, log = os.path.join(tmp, f"cur{k}"), open(os.path.join(tmp, f"log{k}"), "w+")
        ps.append((k, first, cur, log, subprocess.Popen([exe, mode, str(seed), str(first), str(count), str(seconds), cur], env=env, stdout=log, stderr=subprocess.STDOUT)))
    end = time.time() + seconds + 240
    for k, first, cur, log, p in ps:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            bad.append(f"{name} driver {k} did not finish")
            continue
        log.seek(0)
        txt = log.read()
        last = open(cur).read().strip() if os.path.exists(cur) else ""
        m = re.search(r"^SUMMARY (\{.*\})$", txt, re.M)
        if m:
            ev.update(json.loads(m.group(1)))
        found, un = classify(txt, p.returncode)
        ev["unattributed_reports"] += un
        for kind, msg, idx in found:
            if idx is None:
                idx = int(last.split()[0]) if last and kind != "data-race" else first
            fails.append(dict(kind=kind, msg=msg, desc=dict(last_case=last[:300]), detail=dict(env=str(envs[k % len(envs)])), stratum="native:" + mode, index=idx, seed=seed))
        if not found and (p.returncode not in (0, 66) or not m):
            bad.append(f"{name} driver {k} ended with {p.returncode}: {txt[-500:]}")
        if last and len(samples) < 3:
            samples.append(dict(stratum="native:" + mode, index=int(last.split()[0]), case=last.split(" ", 1)[1].strip()[:250]))
        log.close()
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    return ev, fails, bad, samples


def merge(total, ev, fails, bad, samples, mode, pre):
    total["events"].update({pre + k: n for k, n in ev.items() if k not in ("cases", "distinct")})
    total["evals"]["native:" + mode] += ev["cases"]
    total["ran"]["native:" + mode] += ev["cases"]
    total["planned"] += ev["cases"]
    total["sigs"] |= {f"native-{mode}-{i}" for i in range(ev["distinct"])}
    total["fails"] += fails
    total["inconclusive"] += bad
    total["samples"] = samples[:2] + total["samples"]
