"""regenerates the tables at the end of DESIGN.md from seeded/ and known_findings.json"""
import json, os, glob, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
src = open("DESIGN.md").read()
head = src.split("<!-- tables -->")[0].rstrip() + "\n\n<!-- tables -->\n\n"
out = ["## 5. Planted bugs and the checks that catch them\n", "Each is caught by the quick check of its property (`tools/runseeds.sh`).\n", "| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (d.split("/")[1], m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
out += ["", "## 6. Genuine defects found and repaired\n", "| property | commit in /repo | what failed |", "|---|---|---|"]
for f in json.load(open("known_findings.json"))["findings"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f["key"])
    out.append("| %s | %s | %s |" % (m[1], m[2], m[3].replace("|", "/")))
open("DESIGN.md", "w").write(head + "\n".join(out) + "\n")
