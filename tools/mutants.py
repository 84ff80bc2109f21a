#!/usr/bin/env python3
"""Samples small changes of the code (tools/mutate) and says which checks notice them.
usage: mutants.py REPO OUT.jsonl [-n FACTOR] [-seed S] [-j JOBS] [-f FILE-REGEX] [-only DESC-REGEX]"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time, argparse
root = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ap = argparse.ArgumentParser()
ap.add_argument("repo"); ap.add_argument("out")
ap.add_argument("-n", type=float, default=1); ap.add_argument("-seed", type=int, default=1)
ap.add_argument("-j", type=int, default=2); ap.add_argument("-f", default=""); ap.add_argument("-only", default="")
a = ap.parse_args()
Q = "internal/queue/"
PLAN = {
 Q + "cache/memory_cache.go": (25, "P04 P02 P06 P12 P13 P03 P05 P07 P14 P08 P11 P18"),
 Q + "cache/redis_cache.go": (40, "P04 P02 P06 P20 P05 P07 P08"),
 Q + "storage/memory_storage.go": (25, "P26 P15 P16 P27 P12 P07 P09 P10 P23 P18"),
 Q + "storage/mongo_storage.go": (35, "P21 P08"),
 Q + "queue.go": (25, "P13 P12 P26 P22 P06 P07 P15 P14 P19 P28 P30 P32"),
 Q + "queue_housekeeper.go": (30, "P28 P11 P23 P04 P10 P24 P19 P09 P30"),
 Q + "queue_configuration_service.go": (8, "P16 P32"),
 Q + "score/score.go": (8, "P01 P14 P26"),
 Q + "message/message.go": (3, "P22"),
 Q + "utils/primitive_conversion.go": (2, "P26 P25"),
 Q + "utils/math_helper.go": (2, "P26 P10 P01"),
 "internal/service/deckard_service.go": (30, "P01 P16 P26 P12 P14 P15 P07 P19 P13 P09 P31 P32 P34"),
 "internal/audit/audit.go": (15, "P19"),
 "internal/cmd/deckard/main.go": (15, "P24 P33 P29 P32 P17"),
 "internal/config/config.go": (6, "P17"), "internal/config/viper_config.go": (8, "P17"),
 "internal/dtime/deckard_time.go": (5, "P25 P09 P04"),
 "internal/metrics/metrics.go": (10, "P36 P35 P23 P28 P30"), "internal/metrics/registry.go": (4, "P35"), "internal/metrics/metrics_map.go": (5, "P23"),
 "internal/shutdown/shutdown.go": (8, "P24 P19"), "internal/trace/trace.go": (3, "P24"),
}
rnd = random.Random(a.seed)
jobs = []
for f, (n, props) in PLAN.items():
    if a.f and not re.search(a.f, f): continue
    ms = [json.loads(l) for l in subprocess.check_output(["/tmp/mutate", os.path.join(a.repo, f)], text=True).splitlines()]
    if a.only: ms = [m for m in ms if re.search(a.only, m["func"] + ": " + m["desc"])]
    rnd.shuffle(ms)
    for m in ms[:max(1, int(n * a.n))]:
        m["file"] = f
        jobs.append((m, props.split()))
rnd.shuffle(jobs)
print(len(jobs), "mutants", flush=True)
q = queue.Queue()
for j in jobs: q.put(j)
lock = threading.Lock()
def work(k):
    d = "/tmp/mutants.%d.%d" % (os.getpid(), k)
    subprocess.check_call(["cp", "-a", a.repo, d])
    while True:
        try: m, props = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(d, m["file"])
        src = open(p, "rb").read()
        end = m["end"]
        if m["desc"].startswith("drop field") and src[end:end+1] == b",": end += 1
        open(p, "wb").write(src[:m["off"]] + m["new"].encode() + src[end:])
        t, hit, why, codes = time.time(), "", "", {}
        for c in props:
            r = subprocess.run(["./run.sh", "check", c, "-noevidence", "-workers", str(8 // a.j), "-repo", d], cwd=root, capture_output=True, text=True)
            codes[c] = r.returncode
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                hit = c
                why = " ".join(r.stdout.splitlines()[-3:])[:300]
                break
            if r.returncode not in (0, 1):
                why = (r.stdout + r.stderr)[-300:]
                if re.search(r"syntax error|expected|undefined|declared and not used|imported and not used|type-check|cannot use|mismatched|missing return|invalid|unreachable|too many|not enough", why) and len(codes) == 1:
                    hit = "nocompile"
                    break
        open(p, "wb").write(src)
        m["hit"], m["why"], m["codes"], m["s"] = hit, why, codes, round(time.time() - t)
        with lock:
            open(a.out, "a").write(json.dumps(m) + "\n")
            print("%-9s %4ds %s:%d %s: %s" % (hit or "SURVIVED", m["s"], m["file"].split("/")[-1], m["line"], m["func"], m["desc"][:150].replace("\n", " ")), "" if hit else codes, flush=True)
    shutil.rmtree(d)
ts = [threading.Thread(target=work, args=(k,)) for k in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
