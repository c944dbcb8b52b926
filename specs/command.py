"""The tokenize command: one line per morpheme and one EOS per line of input (C22)."""
from pyvc.api import *
from specs.analysis import *

extern('str_of_int', ['int'], 'str', py=str, note='str of a number')
extern('str.rstrip', ['str', 'str'], 'str', py=lambda s, c: s.rstrip(c), note='str.rstrip(characters)')


@spec(rec=True)
def join_to(sep: 'str', q: 'seq[str]', n: 'int') -> 'str':
    """the first n strings with sep in between"""
    return '' if n <= 0 else q[0] if n == 1 else join_to(sep, q, n - 1) + sep + q[n - 1]


@spec
def join_seq(sep: 'str', q: 'seq[str]') -> 'str':
    return join_to(sep, q, len(q))


@spec(rec=True)
def nums(q: 'seq[int]', n: 'int') -> 'str':
    """the first n numbers with commas in between"""
    return '' if n <= 0 else str(q[0]) if n == 1 else nums(q, n - 1) + ',' + str(q[n - 1])


@lemma(requires=['0 <= n', 'n <= len(q)', 'n <= len(a)', 'all(q[i] == str(a[i]) for i in range(0, len(q)))'], ensures=["join_to(',', q, n) == nums(a, n)"], dec='n', pats=["(join_to(',', q, n), nums(a, n))"])
def nums_join(q: 'seq[str]', a: 'seq[int]', n: 'int'):
    if n > 0:
        nums_join(q, a, n - 1)


@spec
def tab(a: 'str', b: 'str') -> 'str':
    return a + '\t' + b


@spec
def msurf(m: 'Morpheme') -> 'str':
    """the part of the original text under the morpheme"""
    return m.list.input_text.original_text[m.list.input_text.offsets[m.list.path[m.index].begin]:m.list.input_text.offsets[m.list.path[m.index].end]]


@spec
def mpos(m: 'Morpheme') -> 'list[str]':
    return m.list.grammar.pos_list[m.word_info.pos_id if m.word_info.pos_id >= 0 else m.word_info.pos_id + len(m.list.grammar.pos_list)]


@spec
def mdic(n: 'LatticeNode') -> 'int':
    return dic(n.word_id) if n._is_defined and n.extra_word_info is None else 0 - 1


@spec
def brief(m: 'Morpheme') -> 'str':
    return tab(tab(msurf(m), join_seq(',', seqof(mpos(m)))), m.word_info.normalized_form)


@spec
def longer(m: 'Morpheme') -> 'str':
    return tab(tab(tab(tab(brief(m), m.word_info.dictionary_form), m.word_info.reading_form), str(mdic(m.list.path[m.index]))),
               '[' + nums(seqof(m.word_info.synonym_group_ids), len(m.word_info.synonym_group_ids)) + ']')


@spec
def mline(m: 'Morpheme', a: 'bool') -> 'str':
    """the line printed for a morpheme; its word information is that of its word"""
    return brief(m) if not a else tab(longer(m), '(OOV)') if m.list.path[m.index]._is_oov else longer(m)


@spec
def shows(m: 'Morpheme', l: 'MorphemeList', i: 'int'):
    """m is morpheme i of l, with the word information of its word"""
    return m.list is l and m.index == i and m.word_info is not None and node_info(m.word_info, l.path[i])


RUN = 'sudachipy.command_line.run'


@spec
def outlines(t: 'Tokenizer', c: 'Console', x: 'seq[str]', t0: 'int', mode: 'SplitMode', a: 'bool', n: 'int'):
    """the analyses t0 to t0 + n of t are those of the first n lines of x, and their morphemes and an EOS for each are printed from g_at on"""
    return (len(t.g_out) == t0 + n and len(t.g_texts) == t0 + n and len(t.g_modes) == t0 + n and len(c.g_at) == n + 1 and len(c.lines) == c.g_at[n] and len(c.g_ms) == len(c.lines)
            and all(t.g_texts[t0 + j] == x[j].rstrip('\n') and t.g_modes[t0 + j] == mode and c.g_at[j + 1] == c.g_at[j] + len(t.g_out[t0 + j].path) + 1 and c.lines[c.g_at[j + 1] - 1] == 'EOS' for j in range(0, n))
            and all(printed(c, c.g_at[j], t.g_out[t0 + j], i, a) for j in range(0, n) for i in range(0, len(t.g_out[t0 + j].path))))


@spec
def printed(c: 'Console', b: 'int', l: 'MorphemeList', i: 'int', a: 'bool'):
    """line b + i is that of morpheme i of l"""
    return c.g_ms[b + i] is not None and shows(c.g_ms[b + i], l, i) and c.lines[b + i] == mline(c.g_ms[b + i], a)


contract(RUN, args={'tokenizer': 'Tokenizer', 'mode': 'SplitMode', 'input_': 'list[str]', 'print_all': 'bool', 'stdot_logger': 'Console', 'enable_dump': 'bool'}, uses=['nums_join'],
         requires=['len(stdot_logger.lines) == len(stdot_logger.g_ms)', 'len(tokenizer.g_texts) == len(tokenizer.g_modes)', 'len(tokenizer.g_texts) == len(tokenizer.g_out)'],
         modifies=['stdot_logger.lines', 'stdot_logger.g_ms', 'stdot_logger.g_at', 'tokenizer.g_texts', 'tokenizer.g_modes', 'tokenizer.g_out'], raises={'RuntimeError': None, 'IndexError': None},
         lets={'_l0': 'stdot_logger.lines', '_t0': 'len(tokenizer.g_texts)', '_x': 'seqof(input_)'},
         hints={'entry': ['stdot_logger.g_at = [len(_l0)]'],
                'loop1.before': ['_j = _k', '_ml = tokenizer.g_out[_t0 + _j]', '_b = len(stdot_logger.lines)'],
                'loop1.body': ['assert node_ok(_ml.path[_k]) and in_list(_ml, _k)'],
                'loop1.end': ['assert shows(m, _ml, _k)', 'assert stdot_logger.lines[_b + _k] == mline(m, print_all)', 'stdot_logger.g_ms = stdot_logger.g_ms + [m]'],
                'loop0.end': ['stdot_logger.g_ms = stdot_logger.g_ms + [None]', 'stdot_logger.g_at = stdot_logger.g_at + [len(stdot_logger.lines)]']},
         inv={0: ['outlines(tokenizer, stdot_logger, _x, _t0, mode, print_all, _k)', 'stdot_logger.lines[:len(_l0)] == _l0'],
              1: ['ml_ok(_ml)', 'all(at(_s[i], _ml, i) for i in range(_k, len(_s)))', 'all(stdot_logger.g_ms[_b + i] is _s[i] for i in range(0, _k))', 'stdot_logger.lines[:len(_l0)] == _l0', 'len(stdot_logger.lines) == _b + _k', 'len(stdot_logger.g_ms) == _b + _k', 'all(printed(stdot_logger, _b, _ml, i, print_all) for i in range(0, _k))']},
         ensures=['outlines(tokenizer, stdot_logger, _x, _t0, mode, print_all, len(_x))', 'stdot_logger.g_at[0] == len(_l0)', 'stdot_logger.lines[:len(_l0)] == _l0'])
prop('C22', ['nums_join', RUN])
