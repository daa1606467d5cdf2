"""python drive.py PROPERTY MODULE TIER SEED CASES OUT: executes the library and records what it does.

Exit 0: done. Exit 4: an exception that the driver did not expect (none on a correct tree); it is recorded as an
observation (operation "crash"), that every trace specification rejects. Exit 3: out of memory or of disk space."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from common import Rec, silence


def main():
    prop, module, tier, seed, cases, out = sys.argv[1:7]
    items = []
    if cases != '-':
        with open(cases) as f:
            items = [json.loads(l) for l in f if l.strip()]
    rec = Rec(out)
    code = 0
    with silence():
        try:
            f = getattr(importlib.import_module(module), prop.lower())
            f(rec, tier, int(seed), items)
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            if isinstance(e, (KeyboardInterrupt, MemoryError)) or isinstance(e, OSError) and e.errno in (12, 28):
                code = 3
            else:
                rec(op='crash', what='%s: %s' % (type(e).__name__, str(e)[:200].encode('ascii', 'replace').decode()),
                    at=['%s:%s' % (os.path.basename(t.filename), t.name) for t in tb[-5:]])
                code = 4
            text = ''.join(traceback.format_exception(e))
    rec.close()
    if code:
        print(text)
    sys.stdout.flush()
    os._exit(code)


main()
