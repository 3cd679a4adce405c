"""development helper: commit to /repo the hunks of the working tree diff that match a regex.

python tools/fixcommit.py 'subject after fix: ' PROP REGEX   (REGEX '' = every hunk); also records the property of the fix in fixprops.json
"""
import json, pathlib, re, subprocess, sys
subj, prop, rx = sys.argv[1:4]
H = pathlib.Path(__file__).resolve().parent
d = subprocess.run(["git", "-C", "/repo", "diff", "-U1"], capture_output=True, text=True).stdout
out = ""
for f in re.split(r"(?m)^(?=diff --git)", d):
    if not f:
        continue
    parts = re.split(r"(?m)^(?=@@ )", f)
    hs = [h for h in parts[1:] if re.search(rx, f.splitlines()[0] + "\n" + h)]
    if hs:
        out += parts[0] + "".join(hs)
n = out.count("\n@@ ")
if not n:
    sys.exit("no hunk")
subprocess.run(["git", "-C", "/repo", "apply", "--cached", "--unidiff-zero", "-"], input=out, text=True, check=True)
subprocess.run(["git", "-C", "/repo", "commit", "-q", "-m", "fix: " + subj], check=True)
p = H / "fixprops.json"
m = json.loads(p.read_text()); m[subj] = prop
p.write_text(json.dumps(m, indent=1) + "\n")
print("committed", n, "hunks")
