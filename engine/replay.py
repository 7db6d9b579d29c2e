"""Replay a recorded violation against the real code:  python3-vt -m engine.replay FILE.json
Builds the harness and the units of /repo natively (g++, AddressSanitizer) and runs the recorded input."""
import json
import os
import shutil
import sys
import tempfile
from . import run


def main():
    d = json.load(open(sys.argv[1]))
    c = d.get('concrete')
    if not c:
        print('no failing input recorded; failed obligations:')
        for o in d['failed_obligations']:
            print('  %s/%s (%s by %s) %s' % (o['entry'], o['obligation'], o['status'], o['backend'], o.get('detail') or ''))
        return 1
    h = os.path.join(run.VERIF, 'contracts', d['harness'])
    units, _ = run.harness_meta(h)
    tmp = tempfile.mkdtemp(prefix='vc_replay_')
    try:
        exe, err = run.build_native(h, tmp, units)
        if exe is None:
            print('build failed: ' + err)
            return 2
        fe = 'division' in c['fail'] or 'square' in c['fail']
        x = run.native_run(exe, c['entry'], {k: v for k, v in c['inputs'].items()}, 1, 1, fe=fe, tmp=tmp)
        print(json.dumps(x, indent=1))
        return 1 if x and 'fail' in x else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
