#!/usr/bin/env python3
"""Builds what one check needs from /repo's working tree, runs it, and reports.

  run.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X] [--part NAME]
  run.py --setup

Exit 0: the property held on everything explored. Exit 1: a VIOLATION line was printed.
Any other exit: the check has no answer (does not build, harness trouble, time limit)."""

import argparse
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import threading
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SCOPE = ["async_waiter", "gc", "runtime", "security", "v8_helpers"]
RUNTIME = ["crypto", "stream_manager", "streams", "text_encoding"]
CORE_SOURCE = re.compile(r'(name = "openworkers-core"\nversion = "[^"]*"\n)source = "[^"]*"\n')


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


def repo_files():
    for top in ("src", "gc-derive"):
        for base, dirs, names in os.walk(os.path.join(REPO, top)):
            dirs[:] = [d for d in dirs if d != "target"]
            for n in names:
                yield os.path.relpath(os.path.join(base, n), REPO)


def write_tree(out, files):
    """Writes only what changed, so that cargo rebuilds only what changed."""
    for base, dirs, names in os.walk(out):
        dirs[:] = [d for d in dirs if d != "target"]
        for n in names:
            p = os.path.join(base, n)
            if os.path.relpath(p, out) not in files:
                os.remove(p)
    for rel, data in files.items():
        p = os.path.join(out, rel)
        data = data if isinstance(data, bytes) else data.encode()
        try:
            with open(p, "rb") as f:
                if f.read() == data:
                    continue
        except FileNotFoundError:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)


def whole_crate():
    """The whole crate; only the dependency that cannot be fetched here is replaced."""
    files = {}
    for rel in repo_files():
        with open(os.path.join(REPO, rel), "rb") as f:
            files[rel] = f.read()
    files.setdefault("src/icudtl.dat", bytes(1024))  # node's V8 has ICU built in
    files["build.rs"] = read(REPO + "/build.rs")
    files["Cargo.toml"] = re.sub(
        r"^openworkers-core *=.*$",
        'openworkers-core = { path = "%s/core-stub" }' % VERIF,
        read(REPO + "/Cargo.toml"), flags=re.M)
    return files


def v8_modules(web):
    """The modules that need nothing but V8 (what /opt/vp/build.sh compiles), so that these
    checks do not depend on the rest of the crate; with `web`, also the web APIs written in JS."""
    def modules(text):
        return re.findall(r"^(?:pub(?:\([a-z]+\))? )?mod (\w+);", text, re.M)
    text = read(REPO + "/src/lib.rs")
    out = set(modules(text)) - set(SCOPE)
    cfg = r"(?:^#\[cfg\([^\n]*\)\]\n)?"
    text = re.sub(cfg + r"^pub use (?:crate::)?(\w+)::[^;]*;\n",
                  lambda m: "" if m[1] in out or m[1] in ("openworkers_core", "runtime") else m[0],
                  text, flags=re.M)
    text = re.sub(cfg + r"^(?:pub(?:\([a-z]+\))? )?mod (\w+);\n",
                  lambda m: "" if m[1] in out else m[0], text, flags=re.M)
    inner = " ".join("pub mod %s;" % m for m in RUNTIME + (["bindings"] if web else []))
    text = text.replace("pub mod runtime;", "pub mod runtime { %s }" % inner)
    files = {}
    for rel in repo_files():
        if not rel.endswith((".rs", ".toml")):
            continue
        if rel.startswith("src/"):
            parts = rel[4:].removesuffix(".rs").split("/")
            if parts[0] not in SCOPE or (parts[0] == "runtime" and parts[1] not in RUNTIME):
                continue
        files[rel] = read(os.path.join(REPO, rel))
    files["src/lib.rs"] = text
    files["build.rs"] = read(REPO + "/build.rs")
    files["Cargo.toml"] = re.sub(r"^openworkers-core *=.*\n", "", read(REPO + "/Cargo.toml"), flags=re.M)
    if web:
        dir = "src/runtime/bindings/"
        text = read(REPO + "/" + dir + "state.rs")
        state = re.search(r"(?:#\[[^\n]*\]\n)*pub(?:\([a-z]+\))? struct PerformanceState \{.*?\n\}\n", text, re.S)
        files[dir + "state.rs"] = state[0] if state else ""
        text = read(REPO + "/" + dir + "mod.rs")
        uses = re.search(r"^pub use web_api::[^;]*;\n", text, re.M)
        files[dir + "mod.rs"] = ("#[macro_use]\nmod macros;\nmod state;\nmod web_api;\n"
                                 + (uses[0] if uses else "pub use web_api::*;\n"))
        for n in ("macros.rs", "web_api.rs"):
            files[dir + n] = read(REPO + "/" + dir + n)
    return files


def cargo_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    home = os.environ.get("HOME") or "/root"
    env.update(
        HOME=home, PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=BUILD + "/target", DOCS_RS="1",
        RUNTIME_SNAPSHOT_PATH="snapshot.bin")  # looked for where the process runs
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


def build(harness):
    """harness: 'a', 'w', 'b', or 's' ('b' with the simple pool, to be built after it). Returns the path of the library."""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        shim = subprocess.Popen([VERIF + "/shim/build.sh", BUILD + "/shim"])
        mirror = BUILD + "/mirror-" + harness.replace("s", "b")
        whole = harness in "bs"
        try:
            write_tree(mirror, whole_crate() if whole else v8_modules(harness == "w"))
        except (FileNotFoundError, KeyError, TypeError):
            whole = True
            write_tree(mirror, whole_crate())
        # The harness crates name their mirror by a path relative to theirs.
        work = BUILD + "/harness-" + harness
        files = {}
        for base, dirs, names in os.walk(VERIF + "/harness-" + harness):
            dirs[:] = [d for d in dirs if d != "target"]
            for n in names:
                p = os.path.join(base, n)
                with open(p, "rb") as f:
                    files[os.path.relpath(p, VERIF + "/harness-" + harness)] = f.read()
        files["Cargo.toml"] = files["Cargo.toml"].decode().replace("@VERIF@", VERIF)
        write_tree(work, files)
        def cargo():
            return subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=work, env=cargo_env(),
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = cargo()
        if r.returncode != 0 and not whole:
            # These modules may need others by now.
            write_tree(mirror, whole_crate())
            again = cargo()
            r = again if again.returncode == 0 else r
        if shim.wait() != 0:
            sys.exit("the V8 shim does not build")
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print("NO ANSWER: the harness does not build against this tree")
            sys.exit(3)
    return BUILD + "/target/debug/libharness_%s.so" % harness


def known_findings(prop):
    out, path = [], VERIF + "/known_findings.txt"
    if os.path.exists(path):
        for line in read(path).splitlines():
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line)
            if m and m[1] == prop:
                out.append((m[2], m[3]))
    return out


def run_once(prop, spec, lib, env, out, limit):
    if os.path.exists(out):
        os.remove(out)
    if spec.get("js"):
        cmd = ["node", VERIF + "/js/main.js", spec["js"]]
    else:
        cmd = ["node", VERIF + "/shim/host.js"]
    # What the runtime logs and V8 reports is not of interest.
    p = subprocess.Popen(cmd, env=env, cwd=env["VERIF_SCRATCH"], start_new_session=True,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    def relay():
        for line in p.stdout:
            if not line.startswith((b"[openworkers", b"<unknown>:")):
                sys.stdout.buffer.write(line)
                sys.stdout.flush()
    t = threading.Thread(target=relay, daemon=True)
    t.start()
    rc, end, cur = None, time.time() + limit, env.get("VERIF_CUR")
    while rc is None and time.time() < end:
        try:
            rc = p.wait(5)
        except subprocess.TimeoutExpired:
            # The case in progress is noted there; none takes minutes.
            if cur and os.path.exists(cur) and os.path.getsize(cur) and time.time() - os.path.getmtime(cur) > 150:
                break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    t.join(5)
    res = None
    if os.path.exists(out):
        res = json.loads(read(out))
    return rc, res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale")
    ap.add_argument("--part")
    a = ap.parse_args()
    if a.setup:
        for h in "awbs":
            if os.path.exists(VERIF + "/harness-%s/Cargo.toml" % h):
                build(h)
        return 0
    t0 = time.time()
    specs = json.loads(read(VERIF + "/checks.json"))
    prop, spec = a.id, specs[a.id]
    tier = "thorough" if a.tier == "thorough" else "quick"
    lib = build(spec["harness"])
    simple = build("s") if spec.get("simple") else ""
    t_build = time.time() - t0
    scratch = "%s/run/%s-%d" % (BUILD, prop, os.getpid())
    os.makedirs(scratch, exist_ok=True)
    out, cur = scratch + "/out.json", scratch + "/current.json"
    known = known_findings(prop)
    env = dict(os.environ, VERIF_LIB=lib, VERIF_LIB_SIMPLE=simple, VERIF_SHIM=BUILD + "/shim/shim.node", VERIF_PROP=prop,
               VERIF_TIER=tier, VERIF_SEED=str(a.seed), VERIF_OUT=out, VERIF_CUR=cur,
               VERIF_KNOWN=json.dumps(known), VERIF_SCRATCH=scratch, RUST_BACKTRACE="0")
    for k in ("VERIF_REPLAY", "VERIF_ONLY"):
        env.pop(k, None)
    if a.scale:
        env["VERIF_SCALE"] = a.scale
    if a.part:
        env["VERIF_ONLY"] = a.part
    if a.replay:
        env["VERIF_REPLAY"] = os.path.abspath(a.replay)
    limit = 480 if tier == "quick" else 3 * 3600
    rc, res = run_once(prop, spec, lib, env, out, limit)
    code = 0
    if rc is None:
        # A violation, if the case in progress does not end by itself either.
        stuck = read(cur) if os.path.exists(cur) else ""
        print("time limit; the case in progress was %s" % stuck[:2000])
        code = 4
        if stuck and not a.replay:
            with open(scratch + "/stuck.json", "w") as f:
                f.write(stuck)
            again, _ = run_once(prop, spec, lib, dict(env, VERIF_REPLAY=scratch + "/stuck.json", VERIF_CUR=""), out + ".2", 90)
            if again is None:
                d = json.loads(stuck)
                res = {"evaluations": 1, "distinct_nontrivial": 1, "samples": [], "parts": [], "labels": {}, "known_hits": {},
                       "violations": [{"part": d["part"], "case": d["case"], "sig": "hang:" + d["part"], "msg": "this case does not end"}]}
        elif a.replay:
            res = {"evaluations": 1, "distinct_nontrivial": 1, "samples": [], "parts": [], "labels": {}, "known_hits": {},
                   "violations": [dict(json.loads(read(a.replay)), sig="hang", msg="this case does not end")]}
    elif rc != 0 and not (res and res["violations"]):
        # The process died. That is a violation if the case in progress does it again by itself.
        died = read(cur) if os.path.exists(cur) else ""
        print("the harness process ended with %s at case %s" % (rc, died[:2000]))
        code = 5
        if rc not in (70, 71, 72) and died and not a.replay:
            dead = scratch + "/died.json"
            with open(dead, "w") as f:
                f.write(died)
            env2 = dict(env, VERIF_REPLAY=dead, VERIF_CUR="")
            again, res2 = run_once(prop, spec, lib, env2, out + ".2", 120)
            d = json.loads(died)
            sig = "crash:" + d["part"]
            if again is not None and again != 0 and again not in (70, 71, 72):
                if not any(k[0] == sig for k in known):
                    res = res or {"evaluations": 1, "distinct_nontrivial": 1, "samples": [], "parts": [],
                                  "labels": {}, "known_hits": {}, "violations": []}
                    res["violations"].append({"part": d["part"], "case": d["case"], "sig": sig,
                                              "msg": "the process is ended by this case (status %s)" % rc})
        elif rc not in (70, 71, 72) and a.replay:
            res = {"evaluations": 1, "distinct_nontrivial": 1, "samples": [], "parts": [], "labels": {}, "known_hits": {},
                   "violations": [dict(json.loads(read(a.replay)), sig="crash", msg="the process is ended by this case (status %s)" % rc)]}
    if res:
        if res["violations"]:
            code = 1
            os.makedirs(VERIF + "/replays", exist_ok=True)
        for v in res["violations"]:
            text = json.dumps({"property": prop, "part": v["part"], "case": v["case"], "sig": v["sig"], "msg": v["msg"]}, indent=1)
            path = a.replay or "%s/replays/%s-%s-%s.json" % (VERIF, prop, v["part"], hashlib.sha256(text.encode()).hexdigest()[:8])
            if not a.replay:
                with open(path, "w") as f:
                    f.write(text + "\n")
            print("part %s: %s: %s" % (v["part"], v["sig"], v["msg"][:3000]))
            print("  case: %s" % json.dumps(v["case"])[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        for sig, what in known:
            print("KNOWN-FINDING: property=%s %s [%s; met %d times in this run]"
                  % (prop, what, sig, res["known_hits"].get(sig, 0)))
        if not a.replay:
            os.makedirs(VERIF + "/evidence", exist_ok=True)
            ev = {"property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
                  "coverage": {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"],
                               "rule": spec["rule"], "samples": res["samples"][:12] or ["none"],
                               "parts": res["parts"], "classes": res["labels"], "known_finding_hits": res["known_hits"]},
                  "assumptions": spec.get("assumptions", []),
                  "wall_s": round(time.time() - t0, 2), "violations": len(res["violations"])}
            with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
                json.dump(ev, f, indent=1)
                f.write("\n")
        print("%s %s: %d cases, %d distinct non-trivial, %d violations, build %.1fs, total %.1fs"
              % (prop, tier, res["evaluations"], res["distinct_nontrivial"], len(res["violations"]), t_build, time.time() - t0))
    elif code == 0:
        print("NO ANSWER: no result")
        code = 5
    shutil.rmtree(scratch, ignore_errors=True)
    return code


if __name__ == "__main__":
    sys.exit(main())
