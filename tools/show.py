"""python3 tools/show.py PATTERN: print the dumped MIR of matching functions"""
import sys, re
sys.path.insert(0, '/verif/sa')
from load import Program


def pl(p):
    s = "_%d" % p[0]
    for e in p[1]:
        s += ".*" if e[0] == "*" else ".%d" % e[1] if e[0] == "f" else "[_%s]" % e[1] if e[0] == "i" else str(e)
    return s


def op(o):
    return ("move " if o[0] == "m" else "") + pl(o[1]) if o[0] in "cm" else str(o[1].get("v") if isinstance(o[1], dict) else o)


def main():
    p = Program(sys.argv[2] if len(sys.argv) > 2 else 'lib')
    for f in p.fns:
        if re.search(sys.argv[1], f['path']) and f.get('body'):
            print("fn", f['id'], f['name'], f['kind'], f['file'], f['line'])
            b = f['body']
            print("  argc", b['argc'], "spread", b.get('spread'))
            for i, t in enumerate(b['locals']):
                x = p.types[t]
                print("   _%d: %s %s" % (i, t, x.get('path') or x))
            for n, blk in enumerate(b['blocks']):
                print(" bb%d:" % n)
                for l, s in blk[0]:
                    if s[0] == '=':
                        rv = s[2]
                        print("   ", l, pl(s[1]), "=", [pl(x) if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) else op(x) if isinstance(x, list) and x and x[0] in ("c", "m", "k") and len(x) == 2 else [op(y) for y in x] if isinstance(x, list) and x and isinstance(x[0], list) else x for x in rv])
                    else:
                        print("   ", l, s)
                t = blk[2]
                if t[0] == 'call':
                    c = t[1]
                    print("   ", blk[1], "call", p.fns[c['inst']]['name'] if 'inst' in c else c, [op(o) for o in t[2]], '->', pl(t[3]), t[4])
                else:
                    print("   ", blk[1], t)


main()
