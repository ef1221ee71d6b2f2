"""Exhaustive exploration of the decoder machine (spec/DecoderMC.tla): its texts are given to the real decoder."""
import json
from . import env, gen, codec
from .codec import D

CHUNKS = [b'{', b'}', b'[', b']', b':', b',', b'"', b'"i"', b'"s"', b'"a"', b'"o"', b'"b"', b'"y"', b'"l"', b'"t"', b'"f"', b'"x"', b'"?"', b'0', b'1', b'-', b'.5', b'e1', b'true', b'null', b'fals', b'e', b' ', b'\n',
          b'""', b'"AA=="', b'\\', b'n', b'u', b'00', b'41', b'\\ud83d', b'\\ude00', b'd83d', b'2147483647', b'8', b'\x00', b'\xc3\xa9', b'/', b'true']


def explore(run, schema, root, frames, buf, maxlen, chunks=None, cfg=None):
    chunks = chunks or CHUNKS
    # conversions of every number the chunks can make up to the bound
    nums = [b'']
    parts = [c for c in chunks if gen.RUN.fullmatch(c)]
    seen = set()
    todo = [b'']
    while todo:
        t = todo.pop()
        for c in parts:
            u = t + c
            if len(u) <= buf + 10 and u not in seen and (not t or len(t) <= buf):
                seen.add(u)
                todo.append(u)
    ft = gen.float_table(*[s for s in seen if gen.NUM.match(s)])
    p = run.path('mc.json')
    env.write_json(p, {'schema': schema.tla(), 'root': root, 'chunks': [list(c) for c in chunks], 'frames': frames, 'buf': buf, 'len': maxlen, 'ft': ft})
    r = run.tlc('DecoderMC', cfg, env={'MC': p})
    run.cov['states'] += r.distinct
    run.cov['transitions'] += r.generated
    out = [json.loads(x) for x in r.printed('CASE ')]
    if len(out) < r.distinct - 1:
        raise env.CheckError('DecoderMC printed %d texts for %d states' % (len(out), r.distinct))
    run.progress('DecoderMC: %d states, %d transitions' % (r.distinct, r.generated))
    run.cov['model_states_explored'] = run.cov.get('model_states_explored', 0) + r.distinct
    return sorted(out)


def replay(run, prog, root, behaviours, facets, chans=(0,)):
    """Every behaviour of the machine in the real decoder."""
    cs = []
    for t, ok, code, line, col, res in behaviours:
        c = D(prog, root, t, facets, chans, None, 'explored')
        c['want'] = (ok, code, line, col, res)
        cs.append(c)
    good = codec.execute(run, cs, chunk=3000)
    for c in good:
        ok, code, line, col, res = c['want']
        for r in c['res']:
            bad = None
            if 'pos' in facets and ok and not r['ok']:
                bad = 'valid text rejected'
            elif 'neg' in facets and not ok and r['ok']:
                bad = 'invalid text accepted'
            elif 'val' in facets and ok and r['ok'] and r['out'] != res:
                bad = 'value'
            elif 'err' in facets and r['code'] != -1 and not ok and not r['ok'] and (r['code'], r['line'], r['col']) != (code, line, col):
                bad = 'code or position: %s' % str((code, line, col))
            elif 'err' in facets and r['code'] != -1 and (r['code'] != 0 or r['msg'] != 0) != (not r['ok']):
                bad = 'error does not tell the outcome'
            if bad:
                run.violation(codec.key_of(c), 'explored behaviour, %s: %s' % (bad, codec.describe(c)), codec.replay(c))
    run.cov['traces_validated_against_impl'] += len(good)
    run.progress('replayed %d behaviours' % len(good))


def check(run, progs, facets, chans=(0,)):
    """Exploration and replay for the small schema and for an array."""
    t = next((p for p in progs if p.schema.name == 't'), None)
    if t is None:
        return
    root = {'k': 'msg', 'r': 0, 'm': 2}
    frames, buf, ln = (3, 4, 70) if env.THOROUGH else (2, 3, 60)
    b = explore(run, t.schema, root, frames, buf, ln)
    replay(run, t, root, b, facets, chans)
    run.sample({'explored text': bytes(b[len(b) // 2][0]).decode('latin-1'), 'specified': b[len(b) // 2][1:]})
