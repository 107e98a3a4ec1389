"""Writes tools/words.txt: the integer literals of /repo's sources at the commit the harness was written for."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check

check.REPO = sys.argv[1] if len(sys.argv) > 1 else check.REPO

with open(os.path.join(check.VERIF, "tools", "words.txt"), "w") as f:
    for v, n in sorted(check.words().items()):
        f.write("%x %d\n" % (v, n))
