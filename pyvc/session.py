"""Other interpreter sessions: the same program under other hash seeds.

`python session.py PROP FUNC CHOICES` calls props.PROP.FUNC(H) in a concrete
run on the untransformed code and prints what it returns as JSON.  The order
in which sets of texts are enumerated differs from session to session."""
import json
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SEEDS = ("0", "1", "2", "3", "5")


def run(prop, func, choices, seeds=SEEDS, limit=120):
    """What the sessions return, one result per hash seed."""
    ps = []
    for s in seeds:
        env = dict(os.environ, PYTHONHASHSEED=s)
        ps.append(subprocess.Popen(
            [PY, os.path.abspath(__file__), prop, func,
             json.dumps(choices)], env=env, cwd=HERE,
            stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    out = []
    for s, p in zip(seeds, ps):
        try:
            o, e = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            out.append(dict(crash="timeout"))
            continue
        i = o.rfind(b"\nRESULT ")
        if i < 0:
            out.append(dict(crash=e[-1500:].decode("utf-8", "replace")))
        else:
            out.append(json.loads(o[i + 8:]))
    return out


def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import importlib
    from pyvc import api
    prop, func, choices = sys.argv[1:4]
    f = getattr(importlib.import_module("props." + prop), func)
    box = []

    def fn(H):
        box.append(f(H))
    fn.__name__ = func
    spec = api.Spec(fn, prop, "", ("signature", "env"), True, True)
    ctx, status = api.run_concrete(spec, random.Random(0), {},
                                   json.loads(choices))
    if ctx.fails or not box:
        r = dict(failed=repr(ctx.fails[:1])[:1500] + status)
    else:
        r = dict(result=box[0])
    sys.stdout.write("\nRESULT " + json.dumps(r))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
