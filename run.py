#!/usr/bin/env python3
"""Build the harness of one check against /repo's working tree and run it.

  run.py C07                 run the check (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py C07 --replay FILE   run only the block recorded in a violation file
  run.py --setup             build everything once
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GROUPS = json.load(open(os.path.join(VERIF, "groups.json")))  # harness dir -> checks
MODES = {"sched": ["sched", "sched-closures", "sched-sync", None], "sched-all": ["sched-all", "sched-all-closures", "sched-sync", None]}


def go_env(scratch):
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    env.setdefault("GOPATH", "/root/go")
    cache = env.get("GOCACHE") or "/root/.cache/go-build"
    try:
        os.makedirs(cache, exist_ok=True)
        ok = os.access(cache, os.W_OK)
    except OSError:
        ok = False
    env["GOCACHE"] = cache if ok else os.path.join(scratch, "gocache")
    return env


def write_mod(scratch, sched=False):
    text = open(os.path.join(REPO, "go.mod")).read()
    if sched:
        text += "\nrequire verif.local/vsched v1.0.0\nreplace verif.local/vsched => %s\n" % os.path.join(VERIF, "standins", "vsched")
    for m in ("byteio", "memio", "parser"):
        text += "\nreplace vimagination.zapto.org/%s => %s\n" % (m, os.path.join(VERIF, "standins", m))
    mod = os.path.join(scratch, "go.mod")
    open(mod, "w").write(text)
    open(os.path.join(scratch, "go.sum"), "w").close()
    return mod


def build(group, scratch):
    env = go_env(scratch)
    mod = write_mod(scratch, GROUPS[group].get("instrument", "").startswith("sched"))
    replace = {}
    names = ["vh"] + GROUPS[group].get("uses", []) + [group]
    for n in names:
        d = os.path.join(VERIF, "harness", n)
        for root, _, files in os.walk(d):
            for f in files:
                if f.endswith(".go"):
                    p = os.path.join(root, f)
                    replace[os.path.join(REPO, "zzverif", os.path.relpath(p, os.path.join(VERIF, "harness")))] = p
    if GROUPS[group].get("instrument"):
        inst = os.path.join(scratch, "inst")
        os.makedirs(inst)
        tool = os.path.join(scratch, "insttool")
        r = subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(VERIF, "harness", "insttool"), env=dict(env, GOFLAGS="-mod=mod"), capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr
    first = ""
    # Code that does not build when it is rewritten is rewritten less.
    for mode in MODES.get(GROUPS[group].get("instrument"), [GROUPS[group].get("instrument")]):
        files = dict(replace)
        if mode:
            d = os.path.join(inst, mode)
            os.makedirs(d)
            r = subprocess.run([tool, REPO, d, mode], env=env, capture_output=True, text=True)
            if r.returncode:
                first = first or r.stderr
                continue
            files.update(json.load(open(os.path.join(d, "overlay.json"))))
        ov = os.path.join(scratch, "overlay.json")
        json.dump({"Replace": files}, open(ov, "w"))
        exe = os.path.join(scratch, "check")
        cmd = ["go", "build", "-overlay", ov, "-modfile", mod, "-o", exe] + GROUPS[group].get("flags", []) + ["./zzverif/" + group]
        r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
        if not r.returncode and GROUPS[group].get("races"):
            # Once more with the race detector, which does not see the scheduler.
            hidden = ["-gcflags=%s=-race=false -l" % p for p in ("verif.local/vsched", "verif.local/vsched/vlock")]
            race = [exe + "-race" if c == exe else c for c in cmd[:2] + ["-race"] + hidden + cmd[2:]]
            # Pools order whatever uses them; here they never give anything back.
            goroot = subprocess.run(["go", "env", "GOROOT"], cwd=REPO, env=env, capture_output=True, text=True).stdout.strip()
            pool = os.path.join(goroot, "src", "sync", "pool.go")
            try:
                text = open(pool).read()
            except OSError:
                text = ""
            if text.count("if runtime_randn(4) == 0 {") == 1:
                own = os.path.join(scratch, "pool.go")
                open(own, "w").write(text.replace("if runtime_randn(4) == 0 {", "if runtime_randn(4) < 4 {"))
                rov = os.path.join(scratch, "overlay-race.json")
                json.dump({"Replace": dict(files, **{pool: own})}, open(rov, "w"))
                race = [rov if c == ov else c for c in race]
            # Allocations of what it does not see have to be told to it all the same.
            q = subprocess.run(race, cwd=REPO, env=dict(env, GOEXPERIMENT="nosizespecializedmalloc"), capture_output=True, text=True)
            if q.returncode:
                q = subprocess.run(race, cwd=REPO, env=env, capture_output=True, text=True)
            if q.returncode:
                sys.stderr.write("does not build with the race detector: %s\n" % q.stderr[-2000:])
        if not r.returncode:
            if first:
                sys.stderr.write("rewritten by %s only, since there was: %s\n" % (mode, first))
            return exe, ""
        first = first or r.stdout + r.stderr
    return None, first


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        if args[0] == "--setup":
            for g in GROUPS:
                s = os.path.join(scratch, g)
                os.makedirs(s)
                exe, err = build(g, s)
                print(g, "ok" if exe else "does not build:\n" + err)
                if not exe:
                    return 1
            return 0
        check = args[0]
        group = next((g for g in GROUPS if check in GROUPS[g]["checks"]), None)
        if group is None:
            print("no such check", check)
            return 2
        exe, err = build(group, scratch)
        if exe is None:
            sys.stderr.write("the harness does not build against the tree:\n" + err)
            return 3
        cmd = [exe, "-check", check, "-verif", VERIF, "-scratch", scratch,
               "-tier", os.environ.get("VERIF_TIER", "quick"), "-seed", os.environ.get("VERIF_SEED", "1")]
        if os.environ.get("VERIF_BUDGET"):
            cmd += ["-budget", os.environ["VERIF_BUDGET"]]
        if len(args) > 2 and args[1] == "--replay":
            cmd += ["-replay", args[2]]
        return subprocess.run(cmd, cwd=scratch).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
