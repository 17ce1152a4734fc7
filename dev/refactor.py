"""Behaviour-preserving edits: every check named has to stay quiet (exit 0, nothing newly undecided).
usage: refactor.py [substring]      (scratch copies of /repo/include; /repo itself is not touched)"""
import sys, os, subprocess, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
from refactors import EDITS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(e):
    name, f, pids, pairs = e
    d = tempfile.mkdtemp(prefix="refac.")
    out = []
    try:
        shutil.copytree("/repo/include", d + "/include")
        p = d + "/include/ffcl/" + f
        s = open(p).read()
        for a, b in pairs:
            n = s.count(a)
            if n != 1:
                return [(name, "-", "BAD EDIT: %d matches of %r" % (n, a[:60]))]
            s = s.replace(a, b)
        open(p, "w").write(s)
        for pid in pids:
            r = subprocess.run([sys.executable, ROOT + "/check.py", pid], cwd=ROOT, env=dict(os.environ, FFSA_REPO=d, FFSA_EVIDENCE=d), capture_output=True, text=True)
            m = re.search(r"(\d+) obligations, (\d+) held, (\d+) undecided", r.stdout)
            tag = "quiet" if r.returncode == 0 else "ALARM %d" % r.returncode
            if r.returncode == 0 and m and m.group(3) != ("1" if pid in ("A01", "R01") else "0"):
                tag = "undecided " + m.group(3) + "/" + m.group(1)
            out.append((name, pid, tag + ("" if tag == "quiet" else "\n      " + "\n      ".join(x[:400] for x in r.stdout.splitlines()[-6:]) + r.stderr[-500:])))
    finally:
        shutil.rmtree(d)
    return out


if __name__ == "__main__":
    sel = [e for e in EDITS if len(sys.argv) < 2 or sys.argv[1] in e[0] or sys.argv[1] in e[1]]
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
        for o in ex.map(run, sel):
            for x in o:
                print("%-34s %-4s %s" % x, flush=True)
