"""Printed names of the enumerated kinds and types."""
from .common import *

RULE = ('Each function that turns an enumerated value into text is evaluated for every enumerator and for values on both sides of the '
        'range: an enumerator yields its own qualified name, anything else empty text, and no name table is read out of range; the '
        'stream output operators are evaluated the same way and must print that name.')

ENUMS = {
    'Jali::Entity_kind': ('Jali::Entity_kind_string', ('ALL_KIND', 'ANY_KIND', 'UNKNOWN_KIND')),
    'Jali::Entity_type': ('Jali::Entity_type_string', ()),
    'Jali::Cell_type': ('Jali::Cell_type_string', ()),
    'Jali::Partitioner_type': ('Jali::Partitioner_type_string', ()),
}


def check():
    c = Check('C04', RULE)
    c.bounds()
    F = c.load('mesh', 'factory')
    for en, (fq, catch) in ENUMS.items():
        vals = F.enum(en)
        f = F.fn(fq)
        names = {v: n for n, v in vals.items()}
        lo, hi = min(vals.values()) - 2, max(vals.values()) + 3
        for v in range(lo, hi):
            I = run(F, f, params={0: C(v)})
            r = I.result
            n = names.get(v)
            want = C(en.split('::')[-1] + '::' + n) if n and n not in catch else C('')
            what = '%s of %s' % (en, n or v)
            if r is not None and r[0] == 'c': ok = r == want or (n in catch and isinstance(r[1], str) and r[1].endswith('::' + n))
            elif r is not None and contains(r, lambda t: t[0] in ('idx', 'uninit')): ok = False
            else: ok = None
            c.ob('name of ' + what, ok, at(f), 'yields %s' % (short(r) if r else 'nothing'), 'name:%s:%s' % (en, v))
        ops = [g for g in F.by_qn.get('Jali::operator<<', []) if len(g['params']) == 2 and g['params'][1]['t'].replace('const ', '').strip(' &') == en]
        for g in ops:
            for v, n in sorted(names.items()):
                I = run(F, g, params={1: C(v)})
                out = [e.d['val'] for e in I.events if e.kind == 'stream' and e.d['to'] == ('pref', g['params'][0]['n'] or 'arg0')]
                txt = ''.join(str(x[1]) for x in out if x[0] == 'c')
                want = en.split('::')[-1] + '::' + n if n not in catch else ''
                ok = None if any(x[0] != 'c' and not contains(x, lambda t: t[0] in ('idx', 'uninit')) for x in out) else \
                    (txt.strip() == want or (n in catch and txt.strip().endswith('::' + n)))
                c.ob('output of %s::%s' % (en, n), ok, at(g), 'prints "%s"' % txt, 'stream:%s:%s' % (en, n))
        c.need(len(ops), 1, 'stream output operators of ' + en)
    # frameworks
    f = F.fn('Jali::framework_name')
    vals = F.enum('Jali::MeshFramework_t')
    seen = {}
    for n, v in sorted(vals.items(), key=lambda x: x[1]):
        I = run(F, f, params={0: C(v)})
        r = I.result
        ok = r is not None and r[0] == 'c' and isinstance(r[1], str) and bool(r[1]) and r[1] not in seen if (r is None or r[0] == 'c') else None
        c.ob('framework %s has a name of its own' % n, ok, at(f), 'yields %s' % (short(r) if r else 'nothing'), 'framework:' + n)
        if ok:
            key = ''.join(ch for ch in n.lower() if ch.isalpha())
            got = ''.join(ch for ch in r[1].lower() if ch.isalpha())
            c.ob('the name of framework %s names it' % n, key == got, at(f), 'yields %s' % r[1], 'frameworkname:' + n)
            seen[r[1]] = n
    for v in (min(vals.values()) - 1, max(vals.values()) + 1):
        I = run(F, f, params={0: C(v)})
        c.ob('no name for the non-framework %d' % v, I.result is None or not (I.result[0] == 'c' and I.result[1] in seen), at(f), 'yields %s' % (I.result,), 'framework:%d' % v)
    c.count('enumerations', len(ENUMS) + 1)
    return c.finish()
