"""C12: invalid schemas are rejected at the right place."""
import random
from .. import env, proto


def check(run):
    rng = random.Random(env.SEED)
    exe = proto.build(run)
    o = proto.explore(run, 'grammar', proto.GRAMMAR, maxlen=100, msgs=1 if env.THOROUGH else 0, fields=1)
    proto.replay_explored(run, exe, o, ['neg'], every=250)
    run.sample({'explored': o[len(o) // 3][0].decode('latin-1'), 'specified': {k: o[len(o) // 3][1][k] for k in ('v', 'why', 'el', 'ec')}})
    o = proto.explore(run, 'declarations', proto.DECLS, maxlen=200, msgs=1, fields=2 if env.THOROUGH else 1, deep=1)
    proto.replay_explored(run, exe, o, ['neg'], every=100)
    o = proto.explore(run, 'options', proto.OPTS, maxlen=160, msgs=0, fields=1, deep=1)
    proto.replay_explored(run, exe, o, ['neg'], every=100)
    cs = [proto.case(t, ['neg'], 'rule', cli=i % 5 == 0) for i, t in enumerate(proto.semantic(rng))]
    n = 20000 if env.THOROUGH else 1700
    for i, (t, s) in enumerate(proto.valid_texts(rng, n)):
        toks = s.tokens()
        cs.append(proto.case(proto.encode(proto.Layout(rng).text(proto.damage(rng, toks))), ['neg'], 'damaged tokens', cli=i % 6 == 0))
        if i % 2:
            cs.append(proto.case(proto.damage_bytes(rng, t), ['neg'], 'damaged bytes', cli=i % 14 == 1))
        if i % 3 == 0 and t:
            cs.append(proto.case(t[:rng.randrange(len(t))], ['neg'], 'truncated', cli=i % 15 == 0))
    # every prefix of some schemas
    full = sorted((t for t, s in proto.valid_texts(random.Random(env.SEED + 1), 60)), key=len)
    for t in full[20:22] if not env.THOROUGH else full[20:30]:
        cs += [proto.case(t[:i], ['neg'], 'every prefix') for i in range(len(t))]
    good = proto.run_and_judge(run, cs)
    for c in rng.sample(good, 3):
        run.sample({'schema': c['text'].decode('latin-1')[:700], 'why': c['note'], 'outcome': c['lib']['st']})
