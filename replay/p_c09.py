from p_c03 import *
from sudachipy.plugin.oov import MeCabOovPlugin, SimpleOovPlugin
from sudachipy import config

POS = [['P', str(i), '*', '*', '*', '*'] for i in range(4)]


class Gr:
    def get_part_of_speech_id(self, p):
        return POS.index(p) if p in POS else -1


class Harness:
    rule = 'random texts, category tables, OOV rules and positions, with and without competing words; non-trivial: at least one word is offered'

    def gen(self, rng, n):
        c = gen_case(rng, 9)
        names = sorted({x for v in c['cats'].values() for x in v} | {'DEFAULT'})
        c['mcats'] = {x: [rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 4)] for x in names if rng.random() < .8}
        c['rules'] = [[x, rng.randint(0, 9), rng.randint(0, 9), rng.randint(-5, 999), rng.randrange(4)] for x in c['mcats'] for _ in range(rng.choice([0, 1, 1, 2]))]
        c['simple'] = [rng.randint(0, 9), rng.randint(0, 9), rng.randint(-5, 99), rng.randrange(4)]
        return c

    def key(self, c):
        return json.dumps(c) if c['rules'] and c['text'] else None

    def shrinks(self, c):
        for i in range(len(c['rules'])):
            yield dict(c, rules=c['rules'][:i] + c['rules'][i + 1:])

    def run(self, c):
        inp, rt = setup(c)
        d = tempfile.mkdtemp(prefix='verif-c09-')
        try:
            with open(os.path.join(d, 'c.def'), 'w') as f:
                f.write('# x\n0x0030 NUMERIC\n\n')
                for k, v in c['mcats'].items():
                    f.write('%s %d %d %d\n' % (k, v[0], v[1], v[2]))
            with open(os.path.join(d, 'u.def'), 'w') as f:
                for r in c['rules']:
                    f.write('%s,%d,%d,%d,%s\n' % (r[0], r[1], r[2], r[3], ','.join(POS[r[4]])))
            config.settings.resource_dir = d
            m = MeCabOovPlugin({'charDef': 'c.def', 'unkDef': 'u.def'})
            m.set_up(Gr())
        finally:
            shutil.rmtree(d)
        l, r, co, pi = c['simple']
        s = SimpleOovPlugin({'leftId': l, 'rightId': r, 'cost': co, 'oovPOS': POS[pi]})
        s.set_up(Gr())
        for ci in range(len(rt.t)):
            p = rt.start[ci]
            for has in (False, True):
                for pl, exp in ((m, ref_mecab(rt, p, has, c['mcats'], c['rules'])), (s, [] if has else [(p, rt.next_bow(p), l, r, co, pi)])):
                    got = pl.get_oov(inp, p, has)
                    gs = set()
                    for n in got:
                        wi = n.get_word_info()
                        b, e = n.get_begin(), n.get_end()
                        if not n.is_oov() or n.get_dictionary_id() != -1:
                            return 'a word is not marked OOV'
                        if not 0 <= b < e <= len(rt.b) or rt.start[rt.ch[b]] != b or rt.start[rt.ch[e]] != e:
                            return 'a word with bad bounds %d, %d' % (b, e)
                        t = rt.b[b:e].decode('utf-8')
                        if (wi.surface, wi.normalized_form, wi.dictionary_form) != (t, t, t) or wi.head_word_length != e - b:
                            return 'the word at %d..%d does not carry the text covered: %r' % (b, e, (wi.surface, wi.normalized_form, wi.dictionary_form, wi.head_word_length))
                        if wi.a_unit_split or wi.b_unit_split or wi.word_structure or wi.synonym_group_ids or wi.dictionary_form_word_id != -1:
                            return 'the word at %d..%d has units' % (b, e)
                        gs.add((b, e, n.get_left_id(), n.get_right_id(), n.get_path_cost(), wi.pos_id))
                    if gs != set(exp):
                        return '%s at byte %d (competing words: %r) offers %r, expected %r' % (type(pl).__name__, p, has, sorted(gs), sorted(set(exp)))
