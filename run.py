#!/usr/bin/env python3
"""Builds and runs the bounded model checker of one property.

    run.py build                  build everything (used as setup_cmd)
    run.py C01 [--tier T]         run one check
    run.py C01 --replay FILE      run again only the case of a replay file

Exit code 0: held on everything explored (apart from listed known findings);
1: a VIOLATION line was printed; anything else: the check itself failed.
"""
import argparse, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MSAT_REPO", "/repo")
BUILD = os.environ.get("MSAT_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
from checks.registry import CHECKS  # noqa: E402


def pkg(*names):
    def q(kind):
        out = subprocess.run(["pkg-config", kind, *names], capture_output=True, text=True)
        if out.returncode:
            raise SystemExit("pkg-config failed: " + out.stderr)
        return out.stdout.strip()
    return q("--cflags"), q("--libs")


def meson_sources(path, exclude):
    """Source files named in a meson.build file, so that a file that is added
    there is compiled too."""
    base = os.path.dirname(path)
    res = []
    for m in re.finditer(r"'([^'\s]+\.(?:cpp|cc|c))'", re.sub(r"#.*", "", open(path).read())):
        f = m.group(1)
        if any(f.startswith(e) for e in exclude) or f in res:
            continue
        if os.path.exists(os.path.join(base, f)):
            res.append(f)
    return [os.path.join(base, f) for f in res]


def generate():
    """Write build.ninja"""
    os.makedirs(BUILD, exist_ok=True)
    gdal_c, gdal_l = pkg("gdal", "eccodes", "netcdf")
    mag_c, mag_l = pkg("Magick++")
    san = "-fsanitize=address,bounds -fno-sanitize-recover=all -fno-omit-frame-pointer"
    inc = f"-I{HERE}/lib/config -I{HERE}/lib/stubs -I{HERE}/lib -I{REPO} -I{REPO}/msat -I{REPO}/tools -I{REPO}/gdal"
    common = f"-O1 -g1 -w -fPIC -D_GLIBCXX_ASSERTIONS -D_FILE_OFFSET_BITS=64 {san} {inc} {gdal_c}"
    out = ["ninja_required_version = 1.3",
           "builddir = " + BUILD,
           "rule cxx", f"  command = g++ -std=c++17 {common} $extra -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
           "rule cc", f"  command = gcc -std=gnu11 {common} $extra -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
           "rule ar", "  command = rm -f $out && ar rcs $out $in",
           "rule link", f"  command = g++ {san} -Wl,--wrap=glob,--wrap=glob64,--wrap=fopen,--wrap=fopen64 $in -o $out $libs {gdal_l} {mag_l} -lpthread"]

    def obj(src, group, extra=""):
        rel = os.path.relpath(src, REPO if src.startswith(REPO + "/") else HERE)
        o = f"{BUILD}/obj/{group}/{rel.replace('/', '_')}.o"
        out.append(f"build {o}: {'cc' if src.endswith('.c') else 'cxx'} {src}")
        if extra:
            out.append(f"  extra = {extra}")
        return o

    libs = {}
    srcs = meson_sources(f"{REPO}/msat/meson.build", ())
    libs["msat"] = [obj(s, "msat") for s in srcs]
    libs["gdal"] = [obj(s, "gdal") for s in meson_sources(f"{REPO}/gdal/meson.build", ("netcdf/", "msatgdalplugin"))]
    libs["tool"] = [obj(f"{REPO}/tools/{f}", "tool", "-Dmain=msat_tool_main " + mag_c) for f in ("msat.cpp", "image.cpp")]
    # The other command line tools, each with its own name for main
    tools = {"xritdump": "hrit/xritdump.cpp", "XRIT2Image": "hrit/XRIT2Image.cpp", "nativedump": "msg-native/nativedump.cpp",
             "native2Image": "msg-native/native2Image.cpp", "ids_debug": "omtp-ids/OpenMTP-IDS_debug.cc",
             "ids_sector": "omtp-ids/OpenMTP-IDS_sector.cc", "ids_to_pgm": "omtp-ids/OpenMTP-IDS_to_pgm.cc",
             "ids_write": "omtp-ids/OpenMTP-IDS_write.cc", "OpenMTP_info": "openmtp/OpenMTP_info.cc",
             "db1_to_image": "thornsds_db1/db1_to_image.cpp"}
    libs["tools"] = [obj(f"{REPO}/tools/{f}", "tools", f"-Dmain=tool_{n} " + mag_c) for n, f in tools.items()]
    libs["mc"] = [obj(f"{HERE}/lib/{f}", "mc") for f in sorted(os.listdir(f"{HERE}/lib")) if f.endswith(".cpp")]
    for name, objs in libs.items():
        out.append(f"build {BUILD}/lib{name}.a: ar {' '.join(objs)}")
    for cid, c in CHECKS.items():
        objs = [obj(f"{HERE}/checks/{s}", "chk_" + cid, c.get("cflags", "").replace("$MAGICK", mag_c)) for s in c["sources"]]
        use = [f"{BUILD}/lib{n}.a" for n in c.get("libs", [])] + [f"{BUILD}/libmc.a"]
        out.append(f"build {BUILD}/bin/{cid}: link {' '.join(objs)} | {' '.join(use)}")
        out.append(f"  libs = -Wl,--start-group {' '.join(use)} -Wl,--end-group")
    text = "\n".join(out) + "\n"
    path = f"{BUILD}/build.ninja"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    return path


def build(targets):
    path = generate()
    r = subprocess.run(["ninja", "-C", BUILD, "-f", path] + [f"{BUILD}/bin/{t}" for t in targets],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        i = r.stdout.find("FAILED:")
        print(r.stdout[max(i, 0):][:4000])
        print("the build failed", file=sys.stderr)
        sys.exit(2)


def known_findings(cid):
    res = []
    path = f"{HERE}/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == cid:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--group")
    a = ap.parse_args()
    if a.id == "build":
        build(CHECKS.keys())
        return 0
    c = CHECKS[a.id]
    tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    build([a.id])
    t_build = time.time() - t0
    exe = f"{BUILD}/bin/{a.id}"
    work = f"{BUILD}/work/{a.id}.{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    env = dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", GDAL_DRIVER_PATH="disable", CPL_DEBUG="OFF", OMP_NUM_THREADS="1",
               MAGICK_THREAD_LIMIT="1", VERIF_LIB=f"{HERE}/lib", MSAT_REPO=REPO)
    groups = subprocess.run([exe, "--list"], capture_output=True, text=True, env=env).stdout.split()
    extra = []
    if a.replay:
        rp = json.load(open(a.replay))
        groups = [rp["group"]]
        tier = rp.get("tier", tier)
        if rp.get("case") and rp.get("filter_case", False):
            extra += ["--case", rp["case"]]
    if a.group:
        groups = [a.group]
    if tier == "thorough":
        extra.append("--thorough")

    def run(g):
        wd = f"{work}/{g}"
        os.makedirs(wd)
        r = subprocess.run([exe, "--out", f"{wd}.json", "--work", wd, "--group", g, "--seed", str(seed)] + extra,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=work)
        ev = []
        if os.path.exists(f"{wd}.json"):
            ev = [json.loads(l) for l in open(f"{wd}.json")]
        return g, r.returncode, r.stdout, ev

    with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 1)) as ex:
        results = list(ex.map(run, groups))
    shutil.rmtree(work, ignore_errors=True)

    tot = dict.fromkeys(("evaluations", "nontrivial", "states", "transitions", "traces"), 0)
    viol, samples, per_group, err = [], [], {}, False
    for g, rc, text, ev in results:
        if rc != 0 or not any(e["ev"] == "group" for e in ev):
            print(f"check error: group {g} exit {rc}\n{text[-3000:]}", file=sys.stderr)
            err = True
        for e in ev:
            if e["ev"] == "violation":
                viol.append(e)
            elif e["ev"] == "sample":
                samples.append(f"{e['group']}: {e['text']}")
            else:
                for k in tot:
                    tot[k] += e[k]
                per_group[e["group"]] = {k: e[k] for k in ("evaluations", "states", "transitions", "traces", "wall") if e[k]}
    known = known_findings(a.id)
    new, hit = [], set()
    for v in viol:
        for key, what in known:
            if v["key"] == key:
                hit.add((key, what))
                break
        else:
            new.append(v)
    for key, what in sorted(hit):
        print(f"KNOWN-FINDING: property={a.id} {key}: {what}")
    if new:
        os.makedirs(f"{HERE}/replays", exist_ok=True)
        for i, v in enumerate(new[:int(os.environ.get('VERIF_MAX_REPORTS', '5'))]):
            p = f"{HERE}/replays/{a.id}-{i}.json"
            json.dump({"property": a.id, "group": v["group"], "key": v["key"], "case": v["case"], "detail": v["detail"], "tier": tier,
                       "command": f"cd /verif && python3 run.py {a.id} --replay {p}"}, open(p, "w"), indent=1)
            print(f"VIOLATION property={a.id} replay={p}")
            print(f"  {v['key']}: case [{v['case']}] {v['detail'][:400]}")
        if len(new) > i + 1:
            print(f"  ... and {len(new) - i - 1} more")
    wall = time.time() - t0
    if not a.replay and not a.group:
        cov = {"samples": samples or ["none"], "per_group": per_group, "rule": c["rule"], "exhaustive": True,
               "evaluations": tot["evaluations"], "distinct_nontrivial": tot["nontrivial"]}
        if c["level"] == "model_checking":
            cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"])
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        json.dump({"property": a.id, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov,
                   "assumptions": c.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(new)},
                  open(f"{HERE}/evidence/{a.id}.json", "w"), indent=1)
    print(f"{a.id} {tier}: {len(groups)} groups, {tot['evaluations']} executions, {tot['states']} states, {tot['transitions']} transitions, "
          f"{tot['traces']} traces; {len(new)} violations; build {t_build:.0f}s, total {wall:.0f}s")
    if new:
        return 1
    return 2 if err else 0


if __name__ == "__main__":
    sys.exit(main())
