"""The prolonged sound mark plugin: runs of two or more marks become the symbol (C05)."""
from pyvc.api import *
from specs.input_text import *

cls('Prolonged', 'sudachipy.plugin.input_text.prolongedsoundmark.ProlongedSoundMarkInputTextPlugin', {'_psm_set': 'set[int]', '_replace_symbol': 'str'})
PSM = 'sudachipy.plugin.input_text.prolongedsoundmark.ProlongedSoundMarkInputTextPlugin.'
PR = ['Prolonged._psm_set', 'set[int]', 'Prolonged._replace_symbol']


@spec
def mark(p: 'Prolonged', t: 'str', i: 'int'):
    """character i is a mark"""
    return ord(t[i]) in p._psm_set


@spec(rec=True, reads=PR)
def marks(p: 'Prolonged', t: 'str', n: 'int') -> 'int':
    """number of marks just before character n"""
    return 0 if n <= 0 else marks(p, t, n - 1) + 1 if mark(p, t, n - 1) else 0


@spec
def squeezed(p: 'Prolonged', t: 'str', a: 'int', b: 'int') -> 'str':
    """what becomes of the run of marks from a to b"""
    return p._replace_symbol if b - a >= 2 else t[a:b]


@spec(rec=True, reads=PR)
def psm_text(p: 'Prolonged', t: 'str', n: 'int') -> 'str':
    """what becomes of the first n characters, without the marks at their end"""
    return '' if n <= 0 else psm_text(p, t, n - 1) if mark(p, t, n - 1) else psm_text(p, t, n - 1) + squeezed(p, t, n - 1 - marks(p, t, n - 1), n - 1) + t[n - 1:n]


@spec
def squeezed_map(p: 'Prolonged', m: 'seq[int]', a: 'int', b: 'int') -> 'seq[int]':
    """the symbol starts where the run starts, its other characters where the run ends"""
    return [m[a]] + again(m[b], len(p._replace_symbol) - 1) if b - a >= 2 else m[a:b]


@spec(rec=True, reads=PR)
def psm_map(p: 'Prolonged', t: 'str', m: 'seq[int]', n: 'int') -> 'seq[int]':
    """the original positions of psm_text"""
    return [] if n <= 0 else psm_map(p, t, m, n - 1) if mark(p, t, n - 1) else psm_map(p, t, m, n - 1) + squeezed_map(p, m, n - 1 - marks(p, t, n - 1), n - 1) + [m[n - 1]]


@lemma(requires=['0 <= n'], ensures=['0 <= marks(p, t, n)', 'marks(p, t, n) <= n'], dec='n', pats=['marks(p, t, n)'])
def marks_range(p: 'Prolonged', t: 'str', n: 'int'):
    if n > 0:
        marks_range(p, t, n - 1)


@lemma(requires=['0 <= n', 'n <= len(t)', 'len(m) == len(t) + 1', 'len(p._replace_symbol) > 0'], ensures=['len(psm_map(p, t, m, n)) == len(psm_text(p, t, n))'], dec='n', uses=['again_len', 'marks_range'])
def psm_lens(p: 'Prolonged', t: 'str', m: 'seq[int]', n: 'int'):
    if n > 0:
        psm_lens(p, t, m, n - 1)


@lemma(requires=['0 <= a', 'a < b', 'b < len(m)', 'n >= 1'], ensures=['(q + m[a:])[:len(q) + 1] + again((q + m[a:])[len(q) + b - a], n - 1) + (q + m[a:])[len(q) + b - a:] == q + ([m[a]] + again(m[b], n - 1)) + [m[b]] + m[b + 1:]'], uses=['again_len', 'again_at'])
def psm_step(q: 'seq[int]', m: 'seq[int]', a: 'int', b: 'int', n: 'int'):
    assert (q + m[a:])[:len(q) + 1] == q + [m[a]]
    assert (q + m[a:])[len(q) + b - a:] == m[b:]
    assert m[b:] == [m[b]] + m[b + 1:]


@lemma(requires=['0 <= a', 'a < b', 'b < len(t)'], ensures=['(q + t[a:])[:len(q)] + y + (q + t[a:])[len(q) + b - a:] == q + y + t[b:b + 1] + t[b + 1:]'])
def psm_step_text(q: 'str', t: 'str', a: 'int', b: 'int', y: 'str'):
    assert (q + t[a:])[:len(q)] == q
    assert (q + t[a:])[len(q) + b - a:] == t[b:]
    assert t[b:] == t[b:b + 1] + t[b + 1:]


@lemma(requires=['0 <= k', 'k < len(t)', 'len(m) == len(t) + 1', 'not mark(p, t, k)', 'marks(p, t, k) >= 2', 'len(p._replace_symbol) > 0', 'c == psm_map(p, t, m, k) + m[k - marks(p, t, k):]', 'd == psm_text(p, t, k) + t[k - marks(p, t, k):]',
                 'b == len(psm_text(p, t, k))', 'e == b + marks(p, t, k)'],
       ensures=['c[:b + 1] + again(c[e], len(p._replace_symbol) - 1) + c[e:] == psm_map(p, t, m, k + 1) + m[k + 1:]', 'd[:b] + p._replace_symbol + d[e:] == psm_text(p, t, k + 1) + t[k + 1:]'], uses=['marks_range'])
def psm_run(p: 'Prolonged', t: 'str', m: 'seq[int]', k: 'int', c: 'seq[int]', d: 'str', b: 'int', e: 'int'):
    psm_lens(p, t, m, k)
    psm_step(psm_map(p, t, m, k), m, k - marks(p, t, k), k, len(p._replace_symbol))
    psm_step_text(psm_text(p, t, k), t, k - marks(p, t, k), k, p._replace_symbol)


DONE = ['builder.modified_text == psm_text(self, _t, _k) + _t[_k - marks(self, _t, _k):]', 'len(psm_text(self, _t, _k)) == _k - marks(self, _t, _k) - offset',
        'seqof(builder.modified_to_original) == psm_map(self, _t, _m, _k) + _m[_k - marks(self, _t, _k):]', 'is_psm == (marks(self, _t, _k) > 0)', 'implies(is_psm, m_start_idx == _k - marks(self, _t, _k))',
        'b_wf(builder)', 'builder.modified_to_original is _l0 or fresh(builder.modified_to_original)']
contract(PSM + 'rewrite', args={'builder': 'Builder'}, requires=['b_wf(builder)', 'len(self._replace_symbol) > 0'], modifies=['builder.modified_text', 'builder.modified_to_original', 'builder.modified_to_original[]'],
         lets={'_l0': 'builder.modified_to_original', '_t': 'builder.modified_text', '_m': 'seqof(builder.modified_to_original)', '_n': 'len(builder.modified_text)'}, uses=['marks_range', 'again_len', 'again_at'],
         inv={0: DONE}, hints={'loop0.head': ['psm_lens(self, _t, _m, _k)'], 'loop0.body': ['_r = marks(self, _t, _k)', '_c = seqof(builder.modified_to_original)', '_d = builder.modified_text', '_b = _k - _r - offset', '_e = min(_k - offset, len(builder.modified_text))'],
               'loop0.end': ['if not mark(self, _t, _k) and _r >= 2:\n  psm_run(self, _t, _m, _k, _c, _d, _b, _e)'], 'loop0.exit': ['psm_lens(self, _t, _m, len(_t))']},
         ensures=['builder.modified_text == psm_text(self, _t, len(_t)) + squeezed(self, _t, len(_t) - marks(self, _t, len(_t)), len(_t))',
                  'seqof(builder.modified_to_original) == psm_map(self, _t, _m, len(_t)) + squeezed_map(self, _m, len(_t) - marks(self, _t, len(_t)), len(_t)) + [_m[len(_t)]]', 'b_wf(builder)'])
prop('C05', ['psm_run', 'psm_step_text', 'psm_step', 'again_len', 'again_at', 'marks_range', 'psm_lens', PSM + 'rewrite', B + 'replace', B + 'get_text'])
