"""Failure reporting: raise or abort, process wide; message text."""
import re
from .common import *
from .objs import *

RULE = ('The functions selecting what happens on a failure write one object of the program, which must be a single object however many files '
        'include the header; the query returns it; every instantiation of the reporting function throws the very exception it was given exactly when '
        'that object says raise and ends the program otherwise, never returning; message functions append what they are given.')


def number_format(fmt, t):
    """are all digits kept, and how many characters (with the end) can the text have"""
    m = re.fullmatch(r'%[-+ #0]*(\d*)(?:\.(\d+))?l*([a-zA-Z])', fmt.strip())
    if not m: return None, None
    w, p, c = int(m.group(1) or 0), m.group(2), m.group(3)
    if c in 'di': return True, max(w, 11) + 1
    if c in 'gGeE':
        d = int(p) if p is not None else 6
        return d + (c in 'eE') >= 6, max(w, d + 8) + 1
    return True, None


def joined(t):
    if t is None or t == EMPTY: return '' if t is not None else None
    if t[0] == 'strcat':
        a, b = joined(t[1]), joined(t[2])
        return a + b if a is not None and b is not None else None
    return t[1] if t[0] == 'c' and isinstance(t[1], str) else None


def histories(c, F):
    """messages of known texts, built and added to in every way"""
    ctors = [f for f in F.by_qn['Errors::Message::Message'] if f['kind'] == 'ctor']
    adds = F.by_qn['Errors::Message::add_data'] + [f for f in F.by_qn.get('Errors::operator<<', []) if 'char' in f['params'][1]['t'] or 'string' in f['params'][1]['t']]
    what = F.fn('Errors::Message::what')
    o = mk(('new', 1, 'Errors::Message'))
    for f in adds:
        bad, und = None, False
        for start in ('', 'a', 'text ', 'x' * 5000):
            for more in (['b'], ['', 'c d'], ['p', 'q', 'r' * 300], ['y' * 4100, 'z']):
                for ct in ctors:
                    h = Heap(F)
                    h.call(ct, o, {p['n']: C(start) for p in ct['params']})
                    for m in more:
                        if f['qn'].endswith('add_data'): h.call(f, o, {f['params'][0]['n']: C(m)})
                        else: h.call(f, None, {f['params'][0]['n']: ('REF', ('deref', o)), f['params'][1]['n']: C(m)})
                    r = h.see(what, o)
                    want = (start if ct['params'] else '') + ''.join(more)
                    t = joined(r)
                    if t is None: und = True; continue
                    if t != want: bad = bad or 'a text of %d characters with %d more becomes one of %d' % (len(want) - sum(map(len, more)), sum(map(len, more)), len(t))
                    c.count('messages')
        c.ob('what is added is all there, in order, however long (%s)' % f['params'][-1]['t'][:14], False if bad else None if und else True, at(f), bad or '', 'all:%d' % f['line'])


def check():
    c = Check('C11', RULE)
    c.bounds()
    F = c.load('error', 'mesh', 'simple', 'factory', 'geometry', 'state')
    act = F.enum('Exceptions::Exception_action')
    q = F.fn('Exceptions::exception_behavior')
    r = run(F, q).result
    loc = r[1] if r is not None and r[0] == 'load' else None
    c.ob('the query returns the current choice', loc is not None if r is None or r[0] in ('load', 'c') else None, at(q), 'returns %s' % short(r or C('nothing')), 'query')
    if loc is None: return c.finish()
    for n, want in (('set_exception_behavior_raise', C(act['RAISE'])), ('set_exception_behavior_abort', C(act['ABORT'])), ('set_exception_behavior', None)):
        for f in F.by_qn.get('Exceptions::' + n, []):
            I = run(F, f)
            got = I.final.m.get(loc, r)
            w = want or ('sym', f['params'][0]['n'])
            c.ob('%s selects what it names' % n, same(got, w), at(f), 'the choice becomes %s' % short(got), n)
    # one object
    gs = [g for k, g in F.globals.items() if g['qn'] == loc[1]]
    for g in gs:
        hdr = g['file'].endswith(('.hh', '.h', '.hpp'))
        c.ob('the choice is one object for the whole program', not (hdr and g.get('internal')), '%s:%d' % (g['file'], g['line']),
             '%s is a separate object in every file that includes this header' % g['qn'], 'single')
        if g.get('init') is not None and g.get('def'):
            v = g['init'].get('v')
            c.ob('failures are raised unless chosen otherwise', v == act['RAISE'] if isinstance(v, int) else None, '%s:%d' % (g['file'], g['line']), 'initially %s' % v, 'initial')
    c.need(len(gs), 1, 'objects holding the choice')
    n = 0
    for f in F.by_qn.get('Exceptions::Jali_throw', []):
        n += 1
        who = (f.get('targs') or ['?'])[0]
        for val, name in ((act['RAISE'], 'RAISE'), (act['ABORT'], 'ABORT')):
            I = run(F, f, assume={loc: C(val)})
            th = [e for e in I.events if e.kind == 'throw']
            ab = [e for e in I.events if e.kind == 'abort']
            ends = I.final.pc == FALSE
            if name == 'RAISE':
                ok = ends and len(th) >= 1 and not ab and all(e.d.get('val') in (('sym', f['params'][0]['n']), ('load', ('pref', f['params'][0]['n']))) for e in th)
            else: ok = ends and not th and len(ab) >= 1
            c.ob('reporting a %s under %s' % (who, name), ok, at(f),
                 'throws %s, aborts %d times, %s' % ([short(e.d.get('val') or C('?')) for e in th], len(ab), 'never returns' if ends else 'can return'), 'report:%s:%s' % (who, name))
    c.need(n, 1, 'instantiations of the reporting function')
    c.count('reporting_instantiations', n)
    # messages
    histories(c, F)
    M = ('fld', THIS, 'Errors::Message::message_')
    w = run(F, F.fn('Errors::Message::what')).result
    text = w[1] if w is not None and w[0] == 'load' else None
    c.ob('what() is the text of the message', text is not None if w is None or w[0] in ('load', 'c') else None, at(F.fn('Errors::Message::what')), 'returns %s' % short(w or C('nothing')), 'what')
    if text is not None:
        for f in F.by_qn['Errors::Message::Message']:
            if f['kind'] != 'ctor': continue
            got = run(F, f).final.m.get(text)
            want = ('sym', f['params'][0]['n']) if f['params'] else C('')
            c.ob('a message starts with the text given (%s)' % (f['params'][0]['t'][:12] if f['params'] else 'none'),
                 got is not None and (got == want or (not f['params'] and got == EMPTY)), at(f), 'starts with %s' % (short(got) if got else 'nothing'), 'start:%d' % f['line'])
        for f in F.by_qn['Errors::Message::add_data']:
            got = run(F, f).final.m.get(text)
            c.ob('add_data appends (%s)' % f['params'][0]['t'][:12], got == ('strcat', ('load', text), ('sym', f['params'][0]['n'])) if got is None or got[0] in ('strcat', 'sym', 'load') else None,
                 at(f), 'leaves %s' % (short(got) if got else 'the text alone'), 'add:%d' % f['line'])
        k = 0
        for f in F.by_qn.get('Errors::operator<<', []):
            k += 1
            p, d = [x['n'] for x in f['params']]
            I = run(F, f)
            sub = lambda t: subst(t, {})
            got = next((v for l, v in I.final.m.items() if l[0] == 'fld' and l[2] == text[2]), None)
            isnum = 'char' not in f['params'][1]['t'] and 'string' not in f['params'][1]['t']
            okret = I.result == ('addr', ('pref', p))
            if got is None: ok = False
            elif got[0] != 'strcat': ok = None
            elif contains(got[2], lambda t: t == ('sym', d)): ok = True
            elif isnum:
                fm = [e for e in I.events if e.kind == 'call' and any(contains(a, lambda t: t == ('sym', d)) for a in e.d['args'] if isinstance(a, tuple))]
                ok = any(e.d['args'] and e.d['args'][0] == got[2] for e in fm) if fm else False
                for e in fm:
                    if e.d['name'] in ('snprintf', 'sprintf'):
                        fmt = [a[1] for a in e.d['args'] if a[0] == 'c' and isinstance(a[1], str)]
                        conv = fmt[0].rstrip()[-1:] if fmt else ''
                        want = 'd i'.split() if f['params'][1]['t'] == 'int' else 'g f e G'.split()
                        full, room = number_format(fmt[0] if fmt else '', f['params'][1]['t'])
                        c.ob('%s is added in full' % f['params'][1]['t'], full, at(f), 'conversion %s keeps fewer than six digits' % fmt, 'digits:' + f['params'][1]['t'])
                        if e.d['name'] == 'snprintf' and room:
                            n = e.d['args'][1]
                            c.ob('the text of a %s fits' % f['params'][1]['t'], n[1] >= room if n[0] == 'c' else None, at(f), '%s of up to %d characters' % (short(n), room), 'fits:' + f['params'][1]['t'])
                        c.ob('%s is formatted as what it is' % f['params'][1]['t'], conv in want, e.where if isinstance(e.where, str) else at(f), 'conversion %s' % fmt, 'fmt:' + f['params'][1]['t'])
            else: ok = False
            c.ob('<< adds a %s to the message and returns it' % f['params'][1]['t'][:14], None if ok is None else ok and okret, at(f),
                 'text becomes %s' % (short(got) if got else 'unchanged'), 'op:%d' % f['line'])
        c.need(k, 3, 'message output operators')
    return c.finish()
