#!/opt/venv/bin/python
"""replay.py FILE: run the input of a replay file on the real code; exit 1 if it still fails"""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(p):
    d = json.load(open(p))
    r = d.get('replay')
    print('property %s, obligation: %s' % (d['property'], d['obligation']))
    if not r:
        print('no input was found; the goals the verifier could not discharge:')
        for g in d.get('goals', []):
            print('  ', g)
        print(d.get('verifier_output', ''))
        return 1
    from engine import native_env, replays
    native_env.setup()
    t = replays.run(r)
    print(t or 'holds')
    return 1 if t else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
