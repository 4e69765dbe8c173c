#!/usr/bin/env python3-vt
"""Re-run one reported counterexample on the real code: replay.py <property> <build tag> <case> <env file>"""
import os
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
from specs import PROPS  # noqa: E402


def main():
    pid, tag, case, env = sys.argv[1:5]
    for h in PROPS[pid]['harness']:
        for cx in h.get('modes', (0,)):
            nm = os.path.splitext(h['file'])[0] + h.get('suffix', '') + ('_c' if cx else '')
            if nm != tag:
                continue
            steer = any(l.startswith('schedule.loop') for l in open(env))
            v = (nm + ('_s' if steer else '_r'), os.path.join(build.VERIF, 'harness', h['file']), steer, bool(cx), list(h.get('defs', [])))
            exe = build.build_many([v])[v[0]]
            os.environ['VH_CONCRETE'] = '1'
            out = tempfile.mktemp()
            subprocess.run([exe, 'run', case, out, '1', env], check=False)
            bad = 0
            for line in open(out, errors='replace'):
                if line[0] in 'VTS':
                    print({'V': 'got/expected', 'T': 'truth', 'S': 'ended'}[line[0]], line[2:].rstrip())
                    if line[0] == 'V':
                        a, b = line.split()[1:3]
                        bad += not abs(float(a) - float(b)) <= 1e-6 * max(1.0, abs(float(a)), abs(float(b)))
                    bad += line.startswith('T 0')
            os.unlink(out)
            print('reproduced' if bad else 'not reproduced')
            return 1 if bad else 0
    print('unknown build tag', tag)
    return 2


if __name__ == '__main__':
    sys.exit(main())
