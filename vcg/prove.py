"""python3 -m vcg.prove PID WORKDIR OUT.json : obligations of the contracts PID rests on."""
import importlib
import json
import os
import sys
import time
import traceback


def main():
    pid, work, outf = sys.argv[1:4]
    sys.setrecursionlimit(40000)
    from . import registry
    res = {'obligations': [], 'functions': [], 'backends': {}, 'solver_s': 0, 'assumptions': [], 'trusted': [], 'uses': {}, 'models': []}
    registry.prove(pid, work, res, lambda: dump(res, outf))
    dump(res, outf)


def dump(res, outf):
    tmp = outf + '.tmp'
    json.dump(res, open(tmp, 'w'))
    os.replace(tmp, outf)


if __name__ == '__main__':
    main()
