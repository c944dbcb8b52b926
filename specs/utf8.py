"""UTF-8: byte offsets of the characters of a text, the character a byte belongs to, and the trusted facts about str.encode."""
from pyvc.api import *


@spec
def clen(cp: 'int') -> 'int':
    """bytes of a code point in UTF-8"""
    return 1 if cp <= 0x7F else 2 if cp <= 0x7FF else 3 if cp <= 0xFFFF else 4


@spec(rec=True)
def off(t: 'str', i: 'int') -> 'int':
    """byte offset of character i"""
    return 0 if i <= 0 else off(t, i - 1) + clen(ord(t[i - 1]))


@spec(rec=True)
def chs(t: 'str', p: 'int', i: 'int') -> 'int':
    return 0 if i <= 0 else i if off(t, i) <= p else chs(t, p, i - 1)


@spec(opaque=True)
def chof(t: 'str', p: 'int') -> 'int':
    """the character that byte p belongs to (the number of characters for the end position)"""
    return chs(t, p, len(t))


@spec
def blen(t: 'str') -> 'int':
    return off(t, len(t))


@lemma(requires=['0 <= i', 'i <= j'], ensures=['off(t, j) - off(t, i) >= j - i', 'off(t, j) - off(t, i) <= 4 * (j - i)'], dec='j', pats=['(off(t, i), off(t, j))'])
def off_mono(t: 'str', i: 'int', j: 'int'):
    if i < j:
        off_mono(t, i, j - 1)


@lemma(ensures=['off(t, i) >= 0', 'off(t, i) >= i'], dec='max(i, 0)', pats=['off(t, i)'])
def off_pos(t: 'str', i: 'int'):
    if i > 0:
        off_pos(t, i - 1)


@lemma(requires=['0 <= p', '0 <= i'], ensures=['0 <= chs(t, p, i)', 'chs(t, p, i) <= i', 'off(t, chs(t, p, i)) <= p', 'chs(t, p, i) == i or p < off(t, chs(t, p, i) + 1)'], dec='i')
def chs_char(t: 'str', p: 'int', i: 'int'):
    if i > 0 and off(t, i) > p:
        chs_char(t, p, i - 1)


@lemma(requires=['0 <= p'], ensures=['0 <= chof(t, p)', 'chof(t, p) <= len(t)', 'off(t, chof(t, p)) <= p', 'chof(t, p) == len(t) or p < off(t, chof(t, p) + 1)'], uses=['off_mono'], pats=['chof(t, p)'])
def chof_char(t: 'str', p: 'int'):
    chs_char(t, p, len(t))


@lemma(requires=['0 <= i', 'i < len(t)', 'off(t, i) <= p', 'p < off(t, i + 1)'], ensures=['chof(t, p) == i'], uses=['off_mono', 'off_pos', 'chof_char'])
def chof_unique(t: 'str', i: 'int', p: 'int'):
    pass


@lemma(requires=['0 <= i', 'i <= len(t)'], ensures=['chof(t, off(t, i)) == i'], uses=['off_mono', 'off_pos', 'chof_char'], pats=['chof(t, off(t, i))'])
def chof_off(t: 'str', i: 'int'):
    pass


@lemma(requires=['0 <= p', 'p <= q'], ensures=['chof(t, p) <= chof(t, q)'], uses=['off_mono', 'off_pos', 'chof_char'], pats=['(chof(t, p), chof(t, q))'])
def chof_mono(t: 'str', p: 'int', q: 'int'):
    pass


extern('utf8', ['str'], 'bytes', py=lambda t: t.encode('utf-8'), note='str.encode("utf-8") of a text without lone surrogates')
extern('utf8ok', ['bytes'], 'bool')
extern('utf8dec', ['bytes'], 'str', py=lambda b: b.decode('utf-8'), note='bytes.decode("utf-8")')
axiom('utf8_len', [('t', 'str')], 'len(utf8(t)) == off(t, len(t))', pats=['utf8(t)'], note='length of the UTF-8 encoding')
axiom('utf8_lead', [('t', 'str'), ('p', 'int')], 'implies(0 <= p and p < len(utf8(t)), (utf8(t)[p] & 0xC0 != 0x80) == (off(t, chof(t, p)) == p))', pats=['utf8(t)[p]'],
      note='exactly the first byte of a character is no continuation byte')
TEXT = ['off_mono', 'off_pos', 'chof_char', 'chof_unique', 'chof_off', 'chof_mono']
