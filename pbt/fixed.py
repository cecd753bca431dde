"""python3 -m pbt.fixed: rewrites the `fixed:` lines of known_findings.txt from /repo's history"""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [(r"^simif|hardware simif", "C16"), (r"^core: value of a variable", "C06"), (r"^core: vcd", "C18"), (r"^core: serial|uart receives", "C17"), (r"^s51: (timers? |change of port)", "C24"), (r": reset masks", "C23"), (r": reset ", "C11"), (r"^(?!m68hc08).*(RTI finishes|interrupts? |NMI is edge|B flag is set on|FIRQ|IPH takes|request of highest|masks interrupts)", "C23"), (r"length of|isassembl|target of|relative jumps stay|jumps stay|^tlcs: JP HL|^pdk: (setting PC|PC of)|setting PC sets|HL\+A", "C14"), (r"^gb80", "I17"), (r"^huc6280", "C14"), (r"^z80:", "I01"), (r"^i8085:|^8080|^8085|^i8080", "I02"), (r"^mcs51:|^s51:", "I03"), (r"^6502|^mos6502|^mos65c02", "I04"),
         (r"^6800|^m6800|^6801|^m6801", "I05"), (r"^6809|^m6809", "I06"), (r"^hc11|^m68hc11", "I07"), (r"^hc08|^m68hc08", "I08"),
         (r"^hc12|^m68hc12", "C09"), (r"^stm8", "I10"), (r"^st7", "I11"), (r"^avr: the whole", "C05"), (r"^avr", "I12"),
         (r"^i8041|^i8048|^8048", "I13"), (r"^f8", "I09"), (r"^pblaze", "I15"), (r"^pdk", "I16"), (r"^p1516|^p2223", "I14"),
         (r"^oisc", "I18"), (r"^rabbit|^rxk", "I19"), (r"^tlcs", "I20"), (r"^xa", "I21"),
         (r"^expressions", "C05"), (r"^dump|^set memory: .*print", "C02"), (r"^fill|^where|^hole|^set mem", "C03"),
         (r"^memory |^memory:|^banker|^bander|^decoder", "C04"), (r"^var|^rmvar|^cdb|^map|^info var", "C06"),
         (r"^breakpoint|^tbreak|^break", "C07"), (r"^event", "C08"), (r"^step|^next|^run", "C09"),
         (r"^reset", "C11"), (r"^timer|^state|^clock", "C12"), (r"^history", "C13"), (r"^disass|^dis", "C14"),
         (r"^serial", "C17"), (r"^vcd", "C18"), (r"^console", "C20"), (r"^conf", "C09"), (r"^error", "C21"),
         (r"^hw|^lists|: disassembling does not read|^state: (objects|memory chips)", "C10"), (r"^loading|^download|^hex|^S-rec|^OMF|^reading a|^asc|^byte 0xff", "C01")]


def main():
    log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "aada48b..HEAD"]).decode()
    p = os.path.join(ROOT, "known_findings.txt")
    have = {json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()}
    keep = [l for l in open(p).read().split("\n") if l.startswith("known:")]
    out = []
    for l in log.split("\n"):
        m = re.match(r"(\w+) fix: (.*)", l)
        if not m:
            continue
        for rx, i in RULES:
            if re.search(rx, m.group(2)):
                # (CPU defects are found by the checks that run every CPU until its own check exists)
                i = i if i in have else "C09"
                out.append("fixed: property=%s %s %s" % (i, m.group(1), m.group(2)))
                break
        else:
            print("no rule for", l)
    with open(p, "w") as f:
        f.write("\n".join(keep + out) + "\n")
    print(len(keep), "known,", len(out), "fixed")


main()
