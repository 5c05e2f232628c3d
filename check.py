#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's working tree.

1. builds the harness against /repo,
2. explores the bounded models of the property with TLC (spec/MC_*.tla), collecting the scenarios they generate,
3. drives the real code over these scenarios and over seeded random ones, recording observations,
4. has TLC decide every observation against the specification (spec/Trace.tla).
Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: the check itself failed."""
import glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(V, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()

# bounded models of each property: (module, config for quick, config for thorough)
MODELS = {}
try:
    MODELS = json.load(open(os.path.join(V, "models.json")))
except FileNotFoundError:
    pass


class CheckError(Exception):
    pass


def build(tools=False):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    env.pop("RUSTFLAGS", None)
    bd = os.path.join(V, ".build")
    # cargo compares time stamps; a copied tree may carry old ones, so decide by content
    h = hashlib.sha256()
    for d, ds, fs in os.walk("/repo"):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock", ".json")) or "swizzle" in f:
                q = os.path.join(d, f)
                h.update(q.encode() + b"\0" + open(q, "rb").read())
    stamp = os.path.join(bd, "repo.sha256")
    if not (os.path.exists(stamp) and open(stamp).read() == h.hexdigest()):
        for q in glob.glob(os.path.join(bd, "debug", ".fingerprint", "*")):
            if os.path.basename(q).startswith(("ssbh", "harness")):
                shutil.rmtree(q, ignore_errors=True)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--target-dir", bd],
                       cwd=os.path.join(V, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("harness build failed:\n" + "\n".join(re.findall(r"(?m)^error.*(?:\n(?!warning).+)*", p.stdout))[:6000])
    open(stamp, "w").write(h.hexdigest())
    if tools:
        # the command line tools, from /repo's sources
        bd2 = os.path.join(bd, "cli")
        stamp = os.path.join(bd, "cli.sha256")
        if not (os.path.exists(stamp) and open(stamp).read() == h.hexdigest()):
            for q in glob.glob(os.path.join(bd2, "debug", ".fingerprint", "*")):
                if os.path.basename(q).startswith(("ssbh", "cli")):
                    shutil.rmtree(q, ignore_errors=True)
        for d in ("lib_json", "data_json", "test"):
            p = subprocess.run(["cargo", "build", "--offline", "--locked", "--target-dir", bd2],
                               cwd=os.path.join(V, "cli", d), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise CheckError("build of the tools failed:\n" + p.stdout[-3000:])
        open(stamp, "w").write(h.hexdigest())
        os.environ["VERIF_CLI"] = os.path.join(bd2, "debug")
    return os.path.join(bd, "debug", "harness")


def tlc(module, cfg, work, env=None, timeout=800):
    meta = os.path.join(work, "meta-" + module)
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx12g", "-cp", CP, "tlc2.TLC", "-workers", "8", "-fpmem", "0.1",
           "-config", cfg, "-metadir", meta, "-noGenerateSpecTE", module + ".tla"]
    out = os.path.join(work, "tlc-" + module + ".out")
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC on {module} took over {timeout} s")
    shutil.rmtree(meta, ignore_errors=True)
    txt = open(out, errors="replace").read()
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", txt)
    return p.returncode, txt, (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = os.path.join(V, "work", f"{pid}-{tier}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    harness = build(pid in ("L09", "L10", "L12"))
    states = trans = 0
    models = []
    gen_files = []
    for module, q, t in MODELS.get(pid, []):
        cfg = q if tier == "quick" else t
        rc, txt, (tr, st) = tlc(module, cfg, work)
        if rc != 0 or "No error has been found" not in txt:
            raise CheckError(f"the model {module} ({cfg}) does not satisfy its own invariants:\n" + txt[-4000:])
        gen = os.path.join(work, module + ".gen")
        n = 0
        with open(gen, "w") as g:
            for line in txt.splitlines():
                if line.startswith('<<"GEN", "'):
                    g.write(json.loads(line[9:-2]) + "\n")
                    n += 1
        if n != txt.count('"GEN"'):
            raise CheckError("cannot parse TLC's output")
        gen_files.append(gen)
        models.append({"model": module, "config": cfg, "distinct_states": st, "transitions": tr, "scenarios": n})
        states += st
        trans += tr
    trace = os.path.join(work, "trace.ndjson")
    cur = trace + ".cur"

    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    crashed = None
    scratch = os.path.join(work, "scratch")
    os.makedirs(scratch)
    try:
        p = subprocess.run([harness, pid, tier, str(seed), trace] + gen_files, preexec_fn=limits, cwd=scratch,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240 if tier == "quick" else 3000)
        if p.returncode != 0:
            crashed = f"the process ended with status {p.returncode}: " + p.stdout[-300:].decode(errors="replace").replace("\n", " ")
    except subprocess.TimeoutExpired:
        crashed = "the call did not return"
    shutil.rmtree(scratch, ignore_errors=True)
    if crashed and not os.path.exists(cur):
        huge = re.search(r"memory allocation of (\d{10,}) bytes failed", crashed)
        if "overflowed its stack" in crashed or huge:
            with open(cur, "w") as f:
                json.dump({"op": "crash", "kind": "the stack overflows" if not huge else f"an allocation of {huge.group(1)} bytes"}, f)
    if crashed and not os.path.exists(cur):
        raise CheckError("harness failed: " + crashed)

    found = []  # (event, reason)
    events = []
    if crashed:
        c = json.load(open(cur))
        found.append((c, crashed))
    else:
        with open(trace) as f:
            events = f.readlines()
        if not events:
            raise CheckError("no observations")
        # validate; an observation that the specification cannot evaluate is outside of it
        skip = set()
        for _ in range(20):
            tf = trace
            if skip:
                tf = trace + ".rest"
                with open(tf, "w") as f:
                    f.writelines('{"op":"skip"}\n' if k in skip else l for k, l in enumerate(events))
            rc, txt, (tr, st) = tlc("Trace", "Trace.cfg", work, {"TRACE": tf}, 800 if tier == "quick" else 3400)
            verdicts = [(int(a) - 1, b) for a, b in re.findall(r'(?m)^"VERDICT (\d+) (.*)"$', txt)]
            if len(verdicts) != txt.count("VERDICT "):
                raise CheckError("cannot parse TLC's output")
            if rc == 0 and "No error has been found" in txt:
                break
            if "StackOverflow" in txt or "OutOfMemory" in txt:
                raise CheckError("TLC ran out of memory:\n" + txt[-3000:])
            m = re.search(r"/\\ i = (\d+)\n", txt[txt.rfind("The behavior up to this point"):]) if "The behavior up to this point" in txt else None
            ms = re.findall(r"/\\ i = (\d+)", txt[txt.rfind("The behavior up to this point"):]) if m else []
            if not ms:
                raise CheckError("TLC failed on the trace:\n" + txt[-4000:])
            k = int(ms[-1]) - 1
            skip.add(k)
            why = re.search(r"(?s)Error: (.*?)The behavior up to", txt)
            found.append((json.loads(events[k]), "not an observation the specification can explain: " + (why.group(1).strip().replace("\n", " ")[:600] if why else "")))
        else:
            raise CheckError("TLC failed on too many observations:\n" + txt[-3000:])
        want = 16 + len(events)
        if st != want:
            raise CheckError(f"TLC visited {st} states for {len(events)} observations")
        states += st
        trans += tr - 16
        found += [(json.loads(events[k]), why) for k, why in verdicts]

    known = [k for k in json.load(open(os.path.join(V, "known-findings.json"))) if k.get("status") == "finding" and k["property"] == pid] \
        if os.path.exists(os.path.join(V, "known-findings.json")) else []
    rep = os.path.join(V, "work", "replay")
    os.makedirs(rep, exist_ok=True)
    new = []
    hit = {}
    for e, why in found:
        ks = [k for k in known if k["case"] == e.get("case") and re.search(k["reason"], why)]
        if ks:
            hit[ks[0]["case"]] = ks[0]
        else:
            new.append((e, why))
    for k in known:
        if k["case"] in hit:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    kinds = {}
    for e in events:
        m = re.search(r'"kind":"([^"]*)"', e)
        o = json.loads(e)["op"] if m is None else m.group(1)
        kinds[o] = kinds.get(o, 0) + 1
    samples = [shrink(json.loads(e)) for e in events[:: max(1, len(events) // 3)][:3]]
    if crashed:
        samples = [shrink(found[0][0])]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": len(events),
                       "models": models, "observations_by_kind": kinds, "samples": samples},
          "assumptions": ["TLC evaluates the specification correctly", "the harness records the calls it makes faithfully"],
          "wall_s": round(time.time() - T0, 1), "violations": len(new)}
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for n, (e, why) in enumerate(new[:5]):
        path = os.path.join(rep, f"{pid}-{n}.json")
        json.dump({"property": pid, "why": why, "tier": tier, "seed": seed, "event": e}, open(path, "w"))
        print(f"VIOLATION property={pid} replay={path}")
        print("  " + why[:500])
    if len(new) > 5:
        print(f"  and {len(new) - 5} more")
    print(f"{pid}: {len(events)} observations, {states} states, {len(new)} violations, {time.time() - T0:.1f} s")
    if os.environ.get("VERIF_KEEP") is None and not new:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if new else 0


def shrink(x, n=24):
    if isinstance(x, list):
        y = [shrink(i, 8) for i in x[:n]]
        return y + [f"... {len(x)} in total"] if len(x) > n else y
    if isinstance(x, dict):
        return {k: shrink(v, n) for k, v in x.items()}
    return x


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR", e)
        sys.exit(2)
