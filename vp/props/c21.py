"""C21: runtime assertions."""
from .common import *
from .c19 import text_is

SEV = (b'ALERT: ', b'WARNING: ', b'ERROR: ')
MSG = (b'', b'x', b'the message', b'line one\nline two')


def text(obs):
    if isinstance(obs, tuple) and obs[0] == 'S':
        if isinstance(obs[1], bytes):
            return obs[1]
        if all(k == 'c' and not isinstance(v, E) for k, v in obs[1]):
            return bytes(v & 255 for k, v in obs[1])
    return None


def oracle(inp, oc):
    c = done(oc, 'nothing but the error code is thrown')
    if c:
        return c
    cond, sev, m = inp
    how, code, out, err = oc.take(), oc.take(), oc.take(), oc.take()
    out, err = text(out), text(err)
    holds = c_not(c_eq(cond, 0))
    quiet = c_and(c_eq(how, 0), out == b'' and err == b'')
    hit, other = (out, err) if sev == 0 else (err, out)
    said = hit is not None and hit.count(MSG[m]) == 1 and hit.startswith(SEV[sev]) and other == b'' if m else \
        hit is not None and hit.startswith(SEV[sev]) and other == b''
    fail = c_and(c_eq(how, 1 if sev == 2 else 0), c_eq(code, 2 if sev == 2 else 0), said)
    return [('a condition that holds does nothing', c_implies(holds, quiet)),
            ('a failed one reports once and throws only for an error', c_or(holds, fail))]


def macros(inp, oc):
    c = done(oc, 'nothing but the error code is thrown')
    if c:
        return c
    which, v = inp
    sev = (2, 1, 0)[which]
    how, code, out, err = oc.take(), oc.take(), oc.take(), oc.take()
    out, err = text(out), text(err)
    quiet = c_and(c_eq(how, 0), out == b'' and err == b'')
    hit, other = (out, err) if sev == 0 else (err, out)
    said = hit is not None and hit.startswith(SEV[sev]) and hit.count(b'v > 2') == 1 and other == b''
    fail = c_and(c_eq(how, 1 if sev == 2 else 0), c_eq(code, 2 if sev == 2 else 0), said)
    return [('a condition that holds does nothing', c_implies(c_gt(v, 2), quiet)),
            ('a failed one reports once and throws only for an error', c_or(c_gt(v, 2), fail))]


def chars(inp, oc):
    """any characters"""
    c = done(oc, 'nothing but the error code is thrown')
    if c:
        return c
    cond, sev, n = inp[:3]
    msg = inp[3:3 + n]
    how, code, out, err = oc.take(), oc.take(), oc.take(), oc.take()
    holds = c_not(c_eq(cond, 0))
    quiet = c_and(c_eq(how, 0), text(out) == b'' and text(err) == b'')
    hit, other = (out, err) if sev == 0 else (err, out)
    if text(other) != b'' or not isinstance(hit, tuple):
        said = False
    else:
        got = list(hit[1]) if isinstance(hit[1], bytes) else [v if k == 'c' else None for k, v in hit[1]]
        want = list(SEV[sev]) + list(msg)
        said = len(got) >= len(want) and None not in got and all(isinstance(g, E) or g & 255 in (10, 13, 32) for g in got[len(want):]) and \
            c_and(*[c_eq(g if isinstance(g, E) else g & 255, w) for g, w in zip(got, want)])
        if said is not False and any(isinstance(g, E) for g in got[len(want):]):
            said = False
    fail = c_and(c_eq(how, 1 if sev == 2 else 0), c_eq(code, 2 if sev == 2 else 0), said)
    return [('a condition that holds does nothing', c_implies(holds, quiet)),
            ('a failed one reports the message once and throws only for an error', c_or(holds, fail))]


def scenarios(tier):
    out = []
    top = 255
    for sev in range(3):
        for n in (1, 2, 3, 5, 8) + (() if tier == 'quick' else (13, 21, 40)):
            out.append(Scenario('severity %d, %d characters' % (sev, n), 'out.cpp', 'vp_assertion_text',
                                [V('cond', 64, (1 << 64) - 1), sev, n] + [V('m%d' % i, 8, top, 1) for i in range(n)], chars, fuel=400000))
        for n in (64, 130, 300, 1030):
            k = n // 2
            m = [b"Assertion failed: 100%d of %s \\\\n /a.b\\t{0}'\"("[i * 7 % 46] for i in range(n)]
            for i in (0, k, k + 1, n - 1):
                m[i] = V('m%d' % i, 8, top, 1)
            out.append(Scenario('severity %d, %d characters' % (sev, n), 'out.cpp', 'vp_assertion_text',
                                [V('cond', 64, (1 << 64) - 1), sev, n] + m, chars, fuel=4000000))
    for sev in range(3):
        for m in range(4):
            out.append(Scenario('severity %d message %d' % (sev, m), 'out.cpp', 'vp_assertion', [V('cond', 64, (1 << 64) - 1), sev, m],
                                oracle))
    for w in range(3):
        out.append(Scenario('macro %s' % ('BN_ASSERT', 'BN_WARN', 'BN_ALERT')[w], 'out.cpp', 'vp_macros',
                            [w, V('v', 64, (1 << 64) - 1)], macros))
    return out


META = {
    'title': 'runtime assertions',
    'bounds': 'every condition value, the three severities, four messages (empty, one character, a sentence, two lines), all '
              'messages of 1, 2, 3, 5 and 8 characters (thorough 40), messages of 64 to 1030 characters with four of any value; the '
              'macros BN_ASSERT, BN_WARN and BN_ALERT on a condition over every 64-bit value',
    'outside': 'other long messages; streams in a failed state; severities that are no enumerator',
    'assumptions': TRUST,
}
