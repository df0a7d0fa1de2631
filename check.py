#!/usr/bin/env python3-vt
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def go():
    from vf import driver, build
    from vf.registry import PROPS
    if sys.argv[1] == '--setup':
        build.irdump()
        from concurrent.futures import ThreadPoolExecutor
        for p in sorted(PROPS):
            build.build(PROPS[p]['files'], asan=PROPS[p].get('asan', False))
        return 0
    if sys.argv[1] == '--replay':
        prop, path = sys.argv[2:4]
        _, exe = build.build(PROPS[prop]['files'], need_ir=False, asan=PROPS[prop].get('asan', False))
        name = [l.split()[4] for l in open(path) if l.startswith('# property')]
        name = name[0] if name else [l.split()[2] for l in open(path) if l.startswith('# harness')][0]
        rc, txt = driver.replay(exe, name.rstrip(':'), path)
        print(txt)
        return rc
    return driver.main(sys.argv[1])


rc = go()
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
