"""The analysis of a text as its callers see it (C10, C22, C24)."""
from pyvc.api import *
from specs.split import *

ghost_module('ghost.cli', 'ghost/cli.py')
# g_ms: what each printed line stands for (a morpheme, or none for EOS); g_at: where the output of each input line starts
cls('Console', 'ghost.cli.Console', {'lines': 'seq[str]', 'g_ms': 'seq[Morpheme?]', 'g_at': 'seq[int]'})
extern('anac', ['Tokenizer', 'str'], 'int', note='internal cost (last minus first word cost) of the analysis of a text with a tokenizer')
extern('anan', ['Tokenizer', 'str'], 'int', note='number of morphemes of that analysis')


@spec
def ml_ok(l: 'MorphemeList'):
    """every morpheme of the list can be read"""
    return all(node_ok(l.path[i]) and in_list(l, i) for i in range(0, len(l.path)))


# the tokenizer logs (g_texts, g_modes, g_out) the texts and modes it is asked for and the lists it answers with
contract(TK + 'tokenize', args={'text': 'str', 'mode': 'SplitMode?', 'logger': 'Console?'}, returns='MorphemeList', trusted=True,
         raises={'RuntimeError': None}, modifies=['self.g_texts', 'self.g_modes', 'self.g_out'],
         ensures=['fresh(result)', 'ml_ok(result)', 'self.g_texts == old(self.g_texts) + [text]', 'self.g_modes == old(self.g_modes) + [mode]', 'self.g_out == old(self.g_out) + [result]',
                  'len(result.path) == anan(self, text)', 'implies(len(text) > 0, len(result.path) > 0)', 'implies(len(text) > 0, result.path[len(result.path) - 1].cost - result.path[0].cost == anac(self, text))'],
         note='the analysis of a text is a function of tokenizer and text while the dictionaries loaded so far do not change (C10); its morphemes can be read and lie within the text (C01, C20), and there are some if the text is not empty (C01)')
