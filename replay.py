#!/usr/bin/env python3
"""Re-run a counterexample against a native build of /repo's current tree: replay.py evidence/replay/Cxx/N.job.txt"""
import os, re, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import run
def main(path):
    if path.endswith(".json"):
        import subprocess
        return subprocess.call([run.TOOLPY, os.path.join(V, "py", "run_labels.py"), "--replay", path, os.path.join(run.REPO, "tools/generate_tracepoint_labels.py")])
    m = re.search(r"# property (\w+), job (\S+),", open(path).readline())
    return run.replay(m.group(1), m.group(2), os.path.abspath(path))
if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
