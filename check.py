#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   or   check.py replay <file>"""
import importlib, json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import vlib

def main():
    if sys.argv[1] == 'replay':
        r = json.load(open(sys.argv[2]))['replay']
        if 'exe' not in r:
            print(json.dumps(r, indent=1)); return 0
        e = dict(os.environ); e.update(r.get('env', {})); e['H_SHARD'] = r['shard']; e['H_CPU'] = str(r.get('cpu', 60))
        if r.get('scenario', -1) >= 0:
            e['H_ONLY'] = str(r['scenario'])
        return subprocess.call([r['exe']] + r['args'], env=e)
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import specs
    c = vlib.Check(prop, tier)
    fn = getattr(specs, prop)
    try:
        fn(c)
        return c.finish()
    except vlib.BuildError as ex:
        print('ERROR ' + str(ex), file=sys.stderr); return 2
if __name__ == '__main__':
    rc = main(); sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
