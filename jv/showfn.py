import sys
from . import facts
from .engine import *
def main():
    groups=sys.argv[1].split(','); qn=sys.argv[2]; depth=int(sys.argv[3]) if len(sys.argv)>3 else 8
    F=facts.load(groups)
    for f in F.by_qn.get(qn,[]):
        print('==',f['qn'],f.get('targs'),f['file'],f['line'])
        I=Interp(F,max_depth=depth, opaque=set(sys.argv[4].split(',')) if len(sys.argv)>4 else None)
        I.run(f)
        for e in I.events: print('  ',e)
        print('  result',show(I.result) if I.result else None)
main()
