from worldh import *
import sys
from sudachipy import command_line


class Harness(WorldHarness):
    rule = 'the tokenize command run with random worlds, lines, modes and options, from files and from standard input, to the standard output and to a file, compared with an analysis through the API; non-trivial: every distinct case'
    users = (0, 1)

    def gen(self, rng, n):
        c = super().gen(rng, n)
        ls = [''.join(ch for ch in t if ch not in '\r\n') for t in c['texts'][:rng.randint(0, 5)]]
        for i in range(len(ls)):
            if rng.random() < .15:
                ls[i] = ''
            elif rng.random() < .15:
                ls[i] = rng.choice([' ', ' a ', '\ta', 'a\t']) 
        return dict(c, texts=ls, mode=rng.choice(['A', 'B', 'C', None]), a=rng.random() < .5, o=rng.random() < .5, stdin=rng.random() < .4, nl=rng.random() < .7, named=rng.random() < .5)

    def key(self, c):
        return json.dumps([c['texts'], c['mode'], c['a'], c['o'], c['stdin'], c['nl']])

    def run(self, c):
        W = self.world(c['world'])
        tk = W.dict.create()
        exp = []
        for l in c['texts']:
            ms = tok(W, l, MODES[c['mode'] or 'C'], tk)
            if ms is None:
                return None
            for m in ms:
                f = [m.surface(), ','.join(m.part_of_speech()), m.normalized_form()]
                if c['a']:
                    f += [m.dictionary_form(), m.reading_form(), str(m.dictionary_id()), '[' + ','.join(str(x) for x in m.synonym_group_ids()) + ']'] + (['(OOV)'] if m.is_oov() else [])
                exp.append('\t'.join(f))
            exp.append('EOS')
        exp = ''.join(x + '\n' for x in exp)
        data = '\n'.join(c['texts']) + ('\n' if c['nl'] and c['texts'] else '')
        if not c['nl'] and c['texts'] and c['texts'][-1] == '':
            exp = exp[:-4]
        inp, outp = os.path.join(W.dir, 'in.txt'), os.path.join(W.dir, 'out.txt')
        with open(inp, 'w', encoding='utf-8', newline='') as f:
            f.write(data)
        argv = ['sudachipy'] + (['tokenize'] if c['named'] else []) + ['-r', W.settings] + (['-m', c['mode']] if c['mode'] else []) + (['-a'] if c['a'] else []) + \
            (['-o', outp] if c['o'] else []) + ([] if c['stdin'] else [inp])
        if os.path.exists(outp):
            os.unlink(outp)
        old = sys.argv, sys.stdin, sys.stdout
        lg = logging.getLogger('sudachipy.command_line')
        lg.handlers[:] = []
        logging.disable(logging.NOTSET)
        so = io.StringIO()
        try:
            with open(inp, encoding='utf-8') as fi:
                sys.argv, sys.stdin, sys.stdout = argv, fi, so
                try:
                    command_line.main()
                finally:
                    sys.argv, sys.stdin, sys.stdout = old
        except SystemExit as e:
            return '%r exits with %r' % (argv, e.code)
        finally:
            logging.disable(logging.CRITICAL)
            lg.handlers[:] = []
        got = so.getvalue()
        if c['o']:
            if got:
                return 'standard output has %r although -o is given' % got
            with open(outp, encoding='utf-8', newline='') as f:
                got = f.read()
        if got != exp:
            return 'output %r, expected %r' % (got, exp)
