#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the entries of spec/*.py
and the harnesses that exist under /verif/props."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from entries import P, NOT_APPLICABLE

COMMON = ("Random search, not a proof: a violation that needs an input the generator did not draw in this run is "
          "missed. Trusts the compilers and sanitizers, the reference model in the harness and engine/, and that the "
          "public headers describe the entry points.")
BUILDS = {
    "asan dbg rel": "clang -O1 with AddressSanitizer and UBSan, gcc -O0, and gcc -O3 -DNDEBUG builds of the library",
}


def conf(pid):
    c = {"variants": "asan dbg rel", "level": "exploration"}
    for line in open(os.path.join(ROOT, "props", pid + ".cpp")):
        m = re.match(r"// @(\w+): *(.*)", line)
        if m:
            c[m.group(1)] = m.group(2).strip()
    return c


props, checks = [], []
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    if not os.path.exists(os.path.join(ROOT, "props", p["id"] + ".cpp")):
        continue
    q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["text"]},
         "why_tests_cant": p["why"],
         "anchors": {"files": p["files"],
                     "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                     "observe_at": p["observe"], "hook_needed": None}}
    props.append(json.dumps(q, ensure_ascii=False))
    c = conf(p["id"])
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": p["technique"],
        "level": c["level"],
        "level_note": p["note"] + " Every case runs in " +
        BUILDS.get(c["variants"], "these builds: " + c["variants"]) + ". " + COMMON,
    })
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    f.write("\n".join(props) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks,
     "not_applicable": NOT_APPLICABLE,
     "notes": "Each check compiles the library's sources from /repo/src itself (three builds), so no hook in /repo is "
              "needed. The library's allocator hooks, part of its public interface, are what the checks observe "
              "memory through. KNOWN_FINDINGS.txt lists repaired defects and known findings."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(props), "properties")

# ------------------------------------------------------------- DESIGN.md
def src(pid):
    return open(os.path.join(ROOT, "props", pid + ".cpp")).read()


def rule(pid):
    m = re.search(r"kRule\s*=\s*(.*?);\n", src(pid), re.S)
    return "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m[1]))


def counts(pid):
    t = src(pid)[src(pid).rindex("pbt::targets()"):]
    return ", ".join("%s %s" % (n, format(int(q), ",")) for n, q in re.findall(r'\{"(\w+)", \w+, (\d+),', t))


out = [open(os.path.join(HERE, "design_head.md")).read()]
for p in P:
    c = conf(p["id"])
    out.append("### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"]))
    out.append("* Decided by %s. %s\n" % (p["technique"], p["note"]))
    out.append("* Generated: %s.\n" % rule(p["id"]).rstrip("."))
    out.append("* Cases in the quick tier, per variant (%s): %s.\n" % (c["variants"], counts(p["id"])))
    out.append("* Anchored in %s. Observed at: %s.\n" % ("; ".join("%s (%s)" % x for x in p["mech"]), ", ".join(p["observe"])))
    out.append("* Beyond the tests: %s\n\n" % p["why"])
out.append(open(os.path.join(HERE, "design_tail.md")).read())
out.append("| change | property | needs | breaks |\n|---|---|---|---|\n")
sd = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    x = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append("| %s | %s | %s | %s |\n" % (d, x["property"], x["needs"].replace("|", "/"), x["what_it_breaks"].replace("|", "/")))
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("".join(out))

