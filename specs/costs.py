"""Automatic word costs of user dictionaries, loading user dictionaries (C24, C18)."""
from pyvc.api import *
from specs.frames import *
from specs.analysis import *

contract(ML + 'get_internal_cost', returns='int', requires=['len(self.path) > 0'], ensures=['result == self.path[len(self.path) - 1].cost - self.path[0].cost'])


@spec
def clamp(v: 'int') -> 'int':
    return 0 - 32768 if v < 0 - 32768 else 32767 if v > 32767 else v


@spec
def surf(l: 'Lex', w: 'int') -> 'str':
    """surface of entry w"""
    return strv(l.word_infos.bytes.data, e_p(l.word_infos.bytes.data, l.word_infos.offset, w))


@spec(opaque=True)
def autocost(t: 'Tokenizer', s: 'str') -> 'int':
    return clamp(anac(t, s) - 20 * anan(t, s))


@spec
def lex_wf(l: 'Lex'):
    """parameters and entries of the lexicon lie in the same map, the parameters below the entries"""
    return (prm_wf(l.word_params) and l.word_params._array_view.src is l.word_infos.bytes and 0 <= l.word_infos.bytes.pos and l.word_infos.bytes.pos <= len(l.word_infos.bytes.data)
            and all(good(l.word_infos.bytes.data, l.word_infos.offset, w, l.word_infos.has_synonym_gid, l.word_params._array_view.base + 6 * l.word_params.size) for w in range(0, l.word_params.size)))


@spec(opaque=True)
def good(d: 'bytes', o: 'int', w: 'int', syn: 'bool', lo: 'int'):
    """entry w and that of its dictionary form can be read and lie at lo or above"""
    return wok(d, o, w, syn) and above(d, o, w, lo)


contract(L + 'calculate_cost', args={'tokenizer': 'Tokenizer'}, requires=['lex_wf(self)', 'all(implies(prm(_d, _b, w, 2) == -32768, len(surf(self, w)) > 0) for w in range(0, self.word_params.size))'],
         modifies=['self.word_infos.bytes.data', 'tokenizer.g_texts', 'tokenizer.g_modes', 'tokenizer.g_out'], raises={'RuntimeError': None},
         lets={'_d': 'self.word_infos.bytes.data', '_b': 'self.word_params._array_view.base', '_n': 'self.word_params.size', '_o': 'self.word_infos.offset', '_y': 'self.word_infos.has_synonym_gid',
               '_e': 'self.word_params._array_view.base + 6 * self.word_params.size'},
         inv={0: ['len(self.word_infos.bytes.data) == len(_d)', 'agr(_d, self.word_infos.bytes.data, _e, len(_d), 0)',
                  'all(implies(p < _b or p >= _e, self.word_infos.bytes.data[p] == _d[p]) for p in range(0, len(_d)))',
                  'all(prm(self.word_infos.bytes.data, _b, w, k) == prm(_d, _b, w, k) for w in range(0, _n) for k in range(0, 2))',
                  'all(prm(self.word_infos.bytes.data, _b, w, 2) == prm(_d, _b, w, 2) for w in range(_k, _n))',
                  'all(prm(self.word_infos.bytes.data, _b, w, 2) == (autocost(tokenizer, surf0(_d, _o, w)) if prm(_d, _b, w, 2) == -32768 else prm(_d, _b, w, 2)) for w in range(0, _k))']},
         hints={'loop0.body': ['assert good(_d, _o, _k, _y, _e)', 'word_keep(_d, self.word_infos.bytes.data, _o, _k, _y, _e)']},
         ensures=['all(prm(self.word_infos.bytes.data, _b, w, k) == prm(_d, _b, w, k) for w in range(0, _n) for k in range(0, 2))',
                  'all(prm(self.word_infos.bytes.data, _b, w, 2) == (autocost(tokenizer, surf0(_d, _o, w)) if prm(_d, _b, w, 2) == -32768 else prm(_d, _b, w, 2)) for w in range(0, _n))',
                  'len(self.word_infos.bytes.data) == len(_d)', 'agr(_d, self.word_infos.bytes.data, _e, len(_d), 0)',
                  'all(implies(p < _b or p >= _e, self.word_infos.bytes.data[p] == _d[p]) for p in range(0, len(_d)))'])


@spec
def surf0(d: 'bytes', o: 'int', w: 'int') -> 'str':
    return strv(d, e_p(d, o, w))
