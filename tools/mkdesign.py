"""Rewrite the generated sections of DESIGN.md (between <!-- gen:NAME --> and
<!-- /gen -->) from the checks and the planted bugs."""
import glob, importlib.util, json, os, re, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + "/lib", ROOT + "/checks"]


def load(f):
    sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def props():
    titles = {}
    for line in open(ROOT + "/properties.jsonl"):
        p = json.loads(line)
        titles[p["id"]] = p["title"]
    extra = json.load(open(ROOT + "/tools/design_notes.json"))
    out = []
    for f in sorted(glob.glob(ROOT + "/checks/C*.py")):
        pid = os.path.basename(f)[:-3]
        m = load(f)
        out.append("### %s. %s\n" % (pid, titles[pid]))
        out.append("Decided by %s.\n" % m.TECHNIQUE.replace("property-based testing: ", "property-based testing, ", 1))
        for p in m.PARTS:
            if p.quick:
                out.append("* **%s** (%d cases quick, %d thorough): %s." % (p.name, p.quick, p.thorough, p.rule.rstrip(".")))
        if pid in extra:
            out.append("\n" + extra[pid])
        out.append("")
    return "\n".join(out)


def seeds():
    out = ["| planted bug | property (and catching check) | what it breaks | needs |", "|---|---|---|---|"]
    for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
        j = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        c = lambda s: re.sub(r"\s+", " ", str(s)).replace("|", "\\|")
        out.append("| %s | %s | %s | %s |" % (n, j["property"], c(j["what_it_breaks"]), c(j["needs"])))
    return "\n".join(out)


t = open(ROOT + "/DESIGN.md").read()
for name, fn in (("props", props), ("seeds", seeds)):
    t = re.sub(r"(<!-- gen:%s -->\n).*?(<!-- /gen -->)" % name, lambda m: m.group(1) + fn() + "\n" + m.group(2), t, flags=re.S)
open(ROOT + "/DESIGN.md", "w").write(t)
