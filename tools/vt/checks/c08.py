"""C08: all input and output channels agree."""
import random
from .. import env, gen, schema, codec, cases


def check(run):
    rng = random.Random(env.SEED)
    progs = codec.build_programs(run, cases.family(run, 2))
    fr = ['chan', 'par', 'pos', 'neg', 'val']
    fw = ['chan', 'par']
    cs = []
    for p in progs:
        n = 900 if env.THOROUGH else 70
        for root, v, t in cases.random_docs(rng, p, n):
            cs.append(codec.D(p, root, t, fr, codec.ALL_READ, None, 'document'))
            cs.append(codec.S(p, root, v, rng.randint(0, 1), rng.randint(0, 1), fw, codec.ALL_WRITE, 'value'))
        for root, v, t in cases.damaged_docs(rng, p, n):
            cs.append(codec.D(p, root, t, fr, codec.ALL_READ, None, 'damaged'))
        for root, v in cases.random_values(rng, p, n // 4, 0.15):
            cs.append(codec.S(p, root, v, 1, rng.randint(0, 1), fw, codec.ALL_WRITE, 'unwritable'))
        for root, v, t in cases.random_docs(rng, p, 15 if env.THOROUGH else 2):
            t = t[:300]
            for i in range(len(t) + 1):
                cs.append(codec.D(p, root, t[:i], ['chan', 'par'], codec.ALL_READ, None, 'cut'))
    t = next((p for p in progs if p.schema.name == 't'), None)
    if t is not None:
        root = {'k': 'msg', 'r': 0, 'm': 2}
        # any bytes, at the start, in strings and in skipped values; trailing bytes
        for b in range(256):
            for pre, post in ((b'', b'{}'), (b'{', b'}'), (b'{"s":"', b'"}'), (b'{"s":"a"', b'}'), (b'{"?":', b'}'), (b'{"i":1', b'}'), (b'{}', b''), (b'{"i":', b''), (b'{"s":"\\', b'"}'), (b'{"s"', b':""}')):
                cs.append(codec.D(t, root, pre + bytes([b]) + post, ['chan', 'par', 'pos', 'neg', 'val'] if b else ['chan', 'par'], codec.ALL_READ, None, 'byte'))
        # texts around the usual buffer sizes
        for n in (510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8190, 8191, 8192, 8193):
            for w in (b'{"s":"' + b'x' * (n - 8) + b'"}', b'{' + b' ' * (n - 2) + b'}', b'{"i":' + b'0' * 0 + b' ' * (n - 7) + b'7}', b'{"s":"' + b'x' * (n - 13) + b'\\u00e9' + b'"'):
                cs.append(codec.D(t, root, w, ['chan', 'par'], codec.ALL_READ, None, 'size'))
            v = gen.default(t.tla, 2)
            v[1] = [list(b'y' * n)]
            cs.append(codec.S(t, root, v, 0, 0, fw, codec.ALL_WRITE, 'size'))
        for what, n, w in cases.big_docs(rng):
            cs.append(codec.D(t, root, w, ['chan', 'par'], codec.ALL_READ, None, 'large: ' + what))
            if n > 8000 or env.THOROUGH:
                cs.append(codec.D(t, root, cases.spoiled(rng, w), ['chan', 'par', 'neg'], codec.ALL_READ, None, 'large: ' + what))
        for v in cases.big_values(rng):
            cs.append(codec.S(t, root, v, rng.randint(0, 1), rng.randint(0, 1), fw, codec.ALL_WRITE, 'large'))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    codec.run_and_judge(run, cs)
