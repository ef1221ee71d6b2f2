"""C11: a valid schema is understood exactly as written."""
import random
from .. import env, proto


def check(run):
    rng = random.Random(env.SEED)
    exe = proto.build(run)
    # every reachable state of the schema machine
    o = proto.explore(run, 'grammar', proto.GRAMMAR, maxlen=100, msgs=1 if env.THOROUGH else 0, fields=1, valid=1)
    proto.replay_explored(run, exe, o, ['pos'], every=15)
    run.sample({'explored': o[len(o) // 2][0].decode('latin-1'), 'specified': o[len(o) // 2][1]['v']})
    o = proto.explore(run, 'declarations', proto.DECLS, maxlen=200, msgs=2 if env.THOROUGH else 1, fields=2 if env.THOROUGH else 1, deep=1, valid=1)
    proto.replay_explored(run, exe, o, ['pos'], every=10)
    o = proto.explore(run, 'options', proto.OPTS, maxlen=160, msgs=0, fields=1, deep=1, valid=1)
    proto.replay_explored(run, exe, o, ['pos'], every=20)
    # random schemas in random layouts
    cs = [proto.case(t, ['pos'], 'rule', cli=i % 7 == 0) for i, t in enumerate(proto.semantic(rng))]
    cs += [proto.case(t, ['pos'], 'repository', cli=True) for t in proto.texts_of_repo()]
    for i, (t, s) in enumerate(proto.valid_texts(rng, 30000 if env.THOROUGH else 3000)):
        cs.append(proto.case(t, ['pos'], 'random', cli=i % 12 == 0))
        if i % 3 == 0:
            cs.append(proto.case(proto.Layout(rng).text(s.tokens()).encode('utf-8', 'surrogateescape'), ['pos'], 'same schema, other layout'))
    good = proto.run_and_judge(run, cs)
    for c in rng.sample(good, 3):
        run.sample({'schema': c['text'].decode('latin-1')[:700], 'why': c['note']})
