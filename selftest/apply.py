#!/usr/bin/env python3
"""apply.py LIST NAME DIR: applies the edit NAME of LIST (refactor, mutant) to the tree DIR."""
import sys, importlib.util, os
def load(lst):
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), lst + ".py")
    s = importlib.util.spec_from_file_location(lst, p)
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    return m.E_ALL
def apply(subs, d):
    for f, old, new in subs:
        p = os.path.join(d, f)
        s = open(p).read()
        if old.startswith("FN:"):
            # the whole function
            i = s.index("\n" + old[3:]) + 1
            j = s.index("\n}\n", i) + 3
            old = s[i:j]
        if old.startswith("RE:"):
            # a pattern, everywhere
            import re
            t = re.sub(old[3:], new, s)
            if t == s:
                raise SystemExit("not found in %s: %s" % (f, old[:80]))
            open(p, "w").write(t)
            continue
        if old not in s:
            raise SystemExit("not found in %s: %s" % (f, old[:80]))
        s = s.replace(old, new) if s.count(old) < 3 or len(old) < 30 else s.replace(old, new, 1)
        open(p, "w").write(s)
if __name__ == "__main__":
    es = load(sys.argv[1])
    if len(sys.argv) == 2:
        for n, _ in es: print(n)
    else:
        apply(dict(es)[sys.argv[2]], sys.argv[3])
