#!/usr/bin/env python3
"""Write a go overlay that adds /verif/harness to /repo's module as virtual packages."""
import json, os, re, sys
repo, out = sys.argv[1], sys.argv[2]
here = os.path.dirname(os.path.abspath(__file__))
m = {}
for sub, pkg in (("kit", "verifkit"), ("mon", "verifmon"), ("exp", "verifexp")):
    d = os.path.join(here, "harness", sub)
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".go"):
                m[os.path.join(repo, pkg, f)] = os.path.join(d, f)

# The indexers' caches start a goroutine each that never ends and keeps 40 MB alive: in a
# process that makes thousands of chains it is left out ("--caches" keeps it).
if "--caches" not in sys.argv:
    try:
        v = re.search(r"github.com/allegro/bigcache/v3 (v\S+)", open(os.path.join(repo, "go.mod")).read()).group(1)
        src = os.path.join(os.environ.get("GOMODCACHE", "/root/go/pkg/mod"), "github.com/allegro/bigcache/v3@" + v, "bigcache.go")
        t = open(src).read()
        n = t.replace("if config.CleanWindow > 0 {", "if false {")
        if n != t:
            dst = out + ".bigcache.go"
            open(dst, "w").write(n)
            m[src] = dst
    except (OSError, AttributeError):
        pass
json.dump({"Replace": m}, open(out, "w"), indent=1)
