from worldh import *
from sudachipy.latticenode import LatticeNode
from sudachipy.dictionarylib.wordinfo import WordInfo
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder


class Rec:
    """an OOV provider of the case: offers one word of `n` characters where `at` says so"""

    def __init__(self, spec, rt, log, name):
        self.s, self.rt, self.log, self.name = spec, rt, log, name

    def get_oov(self, inp, p, has):
        self.log.append([self.name, p, bool(has)])
        c = self.rt.ch[p]
        out = []
        if (not self.s['other'] or not has) and self.rt.t[c] in self.s['chars']:
            e = self.rt.start[min(c + self.s['n'], len(self.rt.t))]
            n = LatticeNode()
            n.set_oov()
            n.set_parameter(0, 0, self.s['cost'])
            t = self.rt.b[p:e].decode('utf-8')
            n.set_word_info(WordInfo(t, e - p, 0, t, -1, t, '', [], [], [], []))
            n.set_range(p, e)
            out.append(n)
        return out


class Harness(WorldHarness):
    rule = 'random dictionaries (with user dictionaries), OOV providers and texts; the nodes of the real lattice are compared with the definition; non-trivial: every case'
    texts = 4

    def gen(self, rng, n):
        c = WorldHarness.gen(self, rng, n)
        c['prov'] = None
        if rng.random() < .5:
            c['prov'] = [{'chars': ''.join(x for x in WALPH + ['ー', '〜', '3'] if rng.random() < .6), 'n': rng.randint(1, 2), 'cost': rng.choice([0, 10]), 'other': rng.random() < .5}
                         for _ in range(rng.randint(1, 3))]
        self.prov = c['prov']
        return c

    def run(self, c):
        self.prov = c.get('prov')
        return WorldHarness.run(self, c)

    def check(self, W, w, text):
        rt = rt_of(w, text)
        t = W.dict.create()
        log, elog = [], []
        if self.prov:
            t._oov_provider_plugins = [Rec(s, rt, log, i) for i, s in enumerate(self.prov)]
            t.default_oov_provider = t._oov_provider_plugins[-1]
        b = UTF8InputTextBuilder(text, W.dict.grammar)
        for p in W.dict.input_text_plugins:
            p.rewrite(b)
        inp = b.build()
        exp, err = {0: None}, None
        for p in range(len(rt.b)):
            if not rt.can_bow(p) or p not in exp:
                continue
            cs = self.cands(w, rt, p, elog)
            if not cs:
                err = p
                break
            for x in cs:
                exp.setdefault(x[1], []).append(x)
        for again in range(2):
            del log[:]
            try:
                t._build_lattice(inp)
            except RuntimeError as e:
                if err is None:
                    return 'error %s although every reachable position has a candidate' % e
                continue
            if err is not None:
                return 'no error although position %d has no candidate' % err
            for p in range(1, len(rt.b) + 1):
                g = [node_tuple(n) for n in t._lattice.get_nodes_with_end(p)]
                e = exp.get(p) or []
                gw, ew = sorted(x for x in g if x[5] is not None), sorted(x for x in e if x[5] is not None)
                if gw != ew:
                    return 'dictionary words ending at byte %d are %r, expected %r' % (p, gw, ew)
                if set(x for x in g if x[5] is None) != set(x for x in e if x[5] is None):
                    return 'OOV words ending at byte %d are %r, expected %r' % (p, [x for x in g if x[5] is None], [x for x in e if x[5] is None])
            if self.prov and log != elog:
                return 'the providers were asked %r, expected %r' % (log, elog)
            t._lattice.clear()

    def cands(self, w, rt, p, elog):
        if not self.prov:
            return ref_candidates(w, rt, p)
        out = [x for x in ref_candidates(w, rt, p) if x[5] is not None]
        has = bool(out)

        def ask(i, has):
            s = self.prov[i]
            elog.append([i, p, has])
            c = rt.ch[p]
            if (not s['other'] or not has) and rt.t[c] in s['chars']:
                e = rt.start[min(c + s['n'], len(rt.t))]
                return [(p, e, 0, 0, s['cost'], None, rt.b[p:e].decode('utf-8'))]
            return []
        if 'NOOOVBOW' not in rt.cats[rt.ch[p]]:
            for i in range(len(self.prov)):
                x = ask(i, has)
                out += x
                has = has or bool(x)
        if not has:
            out += ask(len(self.prov) - 1, False)
        return out
