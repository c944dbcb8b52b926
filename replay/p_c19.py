from world import *
import struct
from sudachipy.dictionarylib import dictionaryversion as V
from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader

SYS = {0x7366d3f18bd111e7: (True, False), 0xce9f011a92394434: (True, True)}
USR = {0xa50f31188bd211e7: (False, False), 0x9fdeb5a90168d868: (True, False), 0xca9811756ff64fb0: (True, True)}
POS = ['P', 'x', '*', '*', '*', '*']


class Harness:
    rule = 'random headers (versions, times, descriptions around the size limit) and files of every version with and without grammar and synonym section; non-trivial: every case'

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-c19-')
        rows = [row('a', 0, 0, 5, POS, syn='3/4'), row('東', 0, 0, 6, POS, reading='xy')]
        f = io.StringIO(csv_text(rows))
        f.name = 'x'
        b = DictionaryBuilder(logger=Log())
        b.build_lexicon(f)
        self.parts = {}
        # grammar and lexicon written one after the other by the real builder, with and without a grammar section
        for g in (True, False):
            out = io.BytesIO()
            out.write(b'\0' * 272)
            if g:
                b.write_grammar(io.StringIO('1 1\n0 0 0\n'), out)
            b.write_lexicon(out)
            self.parts[g] = out.getvalue()[272:]

    def gen(self, rng, n):
        if n % 2:
            d = ''.join(rng.choice(['a', 'é', 'あ', '😀', '\n', '\x7f']) for _ in range(rng.choice([0, 1, 10, 60, 63, 64, 65, 80, 85, 86, 127, 128, 129, 200, 254, 255, 256, 257, 300])))
            return {'header': [rng.choice(list(SYS) + list(USR) + [0, 1, 2 ** 64 - 1, 2 ** 63]), rng.choice([0, 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, rng.getrandbits(62)]), d]}
        v = rng.choice(list(SYS) + list(USR) + [0, 1, 2 ** 64 - 1, 0x7366d3f18bd111e6, 0xce9f011a92394435, rng.getrandbits(64)])
        return {'version': v}

    def shrinks(self, c):
        if 'header' in c:
            v, t, d = c['header']
            for i in range(len(d)):
                yield {'header': [v, t, d[:i] + d[i + 1:]]}

    def run(self, c):
        if 'header' in c:
            v, t, d = c['header']
            h = DictionaryHeader(v, t, d)
            if h.storage_size() != 272:
                return 'storage size %d' % h.storage_size()
            try:
                b = h.to_bytes()
            except ValueError:
                return None if len(d.encode('utf-8')) > 256 else 'a description of %d bytes is refused' % len(d.encode('utf-8'))
            if len(d.encode('utf-8')) > 256:
                return 'a description of %d bytes is accepted' % len(d.encode('utf-8'))
            if len(b) != 272:
                return 'header of %d bytes' % len(b)
            for off in (0, 7):
                g = DictionaryHeader.from_bytes(b'\1' * off + b + b'\2\2', off)
                if (g.version, g.create_time, g.description) != (v, t, d):
                    return 'reads back as %r' % ((g.version, g.create_time, g.description),)
                if g.is_system_dictionary() != (v in SYS) or g.is_user_dictionary() != (v in USR):
                    return 'kind of version %x' % v
            return
        v = c['version']
        known = SYS.get(v) or USR.get(v)
        if V.is_dictionary(v) != bool(known) or V.has_grammar(v) != bool(known and known[0]) or V.has_synonym_group_ids(v) != bool(known and known[1]) \
                or V.is_system_dictionary(v) != (v in SYS) or V.is_user_dictionary(v) != (v in USR):
            return 'classification of version %x' % v
        p = os.path.join(self.dir, 'x.dic')
        with open(p, 'wb') as f:
            f.write(DictionaryHeader(v, 5, 'd').to_bytes())
            body = self.parts[known[0] if known else True]
            # offsets in the lexicon are absolute, and were written for a 272-byte header in either case
            f.write(body)
        for user in (False, True):
            try:
                d = (BinaryDictionary.from_user_dictionary if user else BinaryDictionary.from_system_dictionary)(p)
            except Exception as e:
                if v in (USR if user else SYS):
                    return 'version %x is refused as %s dictionary: %r' % (v, 'user' if user else 'system', e)
                continue
            if v not in (USR if user else SYS):
                return 'version %x is accepted as %s dictionary' % (v, 'user' if user else 'system')
            if d.header.version != v or d.header.description != 'd' or d.header.create_time != 5:
                return 'header of the loaded dictionary'
            if (d.grammar is not None) != known[0]:
                return 'grammar section for version %x' % v
            if known[0] and [list(x) for x in d.grammar.pos_list] != [POS]:
                return 'grammar for version %x' % v
            for i, (s, rd, sy) in enumerate([('a', 'a', [3, 4]), ('東', 'xy', [])]):
                wi = d.lexicon.get_word_info(i)
                if (wi.surface, wi.reading_form, list(wi.synonym_group_ids)) != (s, rd, sy if known[1] else []):
                    return 'word %d of a version %x dictionary: %r' % (i, v, (wi.surface, wi.reading_form, wi.synonym_group_ids))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
