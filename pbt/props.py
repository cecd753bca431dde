"""Single source of properties.jsonl and MANIFEST.json:  python3 -m pbt.props"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []      # properties
NA = []     # (id, reason)


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(),
         technique="", note="", claimed=True):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, state=state, observe=observe,
                  technique=technique, note=note, claimed=claimed))


def isa(id, cpu, sim, files, args, statement=None, extra="", cov=""):
    prop(id, "Every %s instruction computes what the CPU manual defines" % cpu,
         statement or (
             "Executing one documented %s instruction (simulator %s) from any register, flag and memory state leaves "
             "every register, every flag the manual defines, the program counter and all of "
             "memory exactly as the manual of the CPU says, and changes nothing else. %s" % (cpu, args, extra)).strip(),
         ["inputs", "programs"],
         "all documented opcodes and addressing modes x all register, flag, operand, address and memory values",
         "No stable test executes %s code and compares results: the few vcd tests only run fixed STM8 port programs; "
         "opcodes x operand values x addressing modes are not enumerable by examples." % cpu,
         files, [dict(name="instruction decode and execution", where=files[0])],
         observe=["CPU register variables, memory spaces and PC read back on the console after `step`"],
         technique="property-based testing: random single instructions against a reference model of the CPU",
         note="Random exploration: every documented opcode and addressing mode is generated many times on edge-biased "
              "operands and compared field by field, then the whole memory is compared; values the manual leaves open "
              "are ignored. Trusts the reference model in pbt/isa and the console's variable access. %s" % cov)


def load():
    from . import proplist  # noqa: fills P


def main():
    load()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": list(p["state"]),
                            "mechanism": list(p["mechanism"]),
                            "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
    checks = []
    for p in P:
        have = os.path.exists(os.path.join(ROOT, "pbt/checks/%s.py" % p["id"].lower()))
        if not (p["claimed"] and have):
            continue
        cmd = "python3 -m pbt %s" % p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd + " --tier quick",
                       "thorough_cmd": cmd + " --tier thorough",
                       "technique": p["technique"], "level": "exploration",
                       "level_note": p["note"]})
    claimed = {c["property"] for c in checks}
    na = [{"property": i, "reason": r} for i, r in NA]
    for p in P:
        if p["id"] not in claimed and p["id"] not in [x["property"] for x in na]:
            na.append({"property": p["id"], "reason": "not yet covered: no check has been built for it"})
    m = {"version": 1, "setup_cmd": "python3 pbt/build.py",
         "checks": checks, "not_applicable": na,
         "notes": "All checks drive the simulators built from /repo's working tree as black boxes "
                  "through their console; see DESIGN.md.  No hooks in /repo are needed."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    from pbt import props
    props.main()
