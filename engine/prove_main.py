import sys, json, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from engine import env, spec


def main():
    prop, name, budget, out = sys.argv[1:5]
    env.DEBUG = os.environ.get('VDEBUG') == '1'
    cs = [c for c in spec.load(prop) if c.name == name]
    r = env.verify(cs[0], float(budget), os.environ.get('VERIF_TIER') == 'thorough')
    with open(out, 'w') as f: json.dump(r, f)


if __name__ == '__main__':
    main()
