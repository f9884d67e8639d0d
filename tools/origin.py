"""Names the planted bugs whose patch changes no line of the original repository."""
import pathlib, subprocess
for d in sorted(pathlib.Path("/verif/seeded").iterdir()):
    lines = (d / "patch.diff").read_text().splitlines()
    gone = [l[1:].strip() for l in lines if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
    name = [l[6:].strip() for l in lines if l.startswith("+++ b/")][0]
    old = {l.strip() for l in subprocess.run(["git", "-C", "/repo", "show", "2caeac7:" + name], capture_output=True, text=True).stdout.splitlines()}
    hits = [g for g in gone if g in old]
    if not hits: print(d.name, "no original line removed:", gone[:2])
