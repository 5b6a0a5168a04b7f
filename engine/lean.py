"""Facts of mathematics used by the verifier, checked by Lean's kernel (lean/*.lean) while a check runs."""
import os
import re
import subprocess
import time

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lean")
STANDARD = {"propext", "Classical.choice", "Quot.sound"}


def theorems(path):
    """[(full name)] in the order of the file"""
    out, spaces = [], []
    for line in open(path, encoding="utf-8"):
        m = re.match(r"(namespace|end|theorem)\s+([\w.']+)", line)
        if not m:
            continue
        if m[1] == "namespace":
            spaces.append(m[2])
        elif m[1] == "end":
            if spaces and spaces[-1] == m[2]:
                spaces.pop()
        else:
            out.append(".".join(spaces + [m[2]]))
    return out


class Run:
    """lean on one file, in the background"""

    def __init__(self, name, tmp):
        self.name, self.t0 = name, time.time()
        src = os.path.join(HERE, name)
        self.names = theorems(src)
        path = os.path.join(tmp, name)
        with open(path, "w", encoding="utf-8") as f:
            f.write(open(src, encoding="utf-8").read())
            f.writelines(f"\n#print axioms {n}" for n in self.names)
            f.write("\n")
        self.out = open(path + ".out", "w+", encoding="utf-8")
        try:
            self.proc = subprocess.Popen(["lean", path], stdout=self.out, stderr=self.out, stdin=subprocess.DEVNULL)
        except OSError as ex:
            self.proc, self.why = None, str(ex)

    def result(self, timeout):
        """{theorem: its axioms} for the theorems the kernel accepted without gaps, and what went wrong"""
        if self.proc is None:
            return {}, self.why
        try:
            rc = self.proc.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            return {}, "time limit"
        self.out.seek(0)
        text = self.out.read()
        if rc != 0:
            return {}, text[-800:]
        ok = {}
        for m in re.finditer(r"'([\w.']+)' (?:depends on axioms: \[([^\]]*)\]|does not depend on any axioms)", text):
            ax = {x.strip() for x in (m[2] or "").replace("\n", " ").split(",") if x.strip()}
            if ax <= STANDARD:
                ok[m[1]] = sorted(ax)
        return ok, None if set(self.names) <= set(ok) else "not accepted: " + ", ".join(sorted(set(self.names) - set(ok)))
