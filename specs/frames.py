"""Entries keep their meaning where the bytes they consist of are the same (C14, C24)."""
from pyvc.api import *
from specs.entries import *


@spec
def agr(c: 'bytes', d: 'bytes', lo: 'int', hi: 'int', m: 'int'):
    """the bytes lo to hi of c are at lo + m to hi + m of d"""
    return 0 <= lo and lo <= hi and hi <= len(c) and 0 <= lo + m and hi + m <= len(d) and all(d[i + m] == c[i] for i in range(lo, hi))


@lemma(requires=['agr(c, d, lo, hi, m)', 'lo <= i', 'i <= j', 'j <= hi'], ensures=['d[i + m:j + m] == c[i:j]'])
def agr_slice(c: 'bytes', d: 'bytes', lo: 'int', hi: 'int', m: 'int', i: 'int', j: 'int'):
    assert len(d[i + m:j + m]) == len(c[i:j])
    assert all(d[i + m:j + m][k] == c[i:j][k] for k in range(0, j - i))


@lemma(requires=['agr(c, d, lo, hi, m)', 'lo <= p', 'lenok(c, p)', 'strb(c, p) <= hi'], ensures=['lenok(d, p + m)', 'strn(d, p + m) == strn(c, p)', 'strb(d, p + m) == strb(c, p) + m'])
def agr_len(c: 'bytes', d: 'bytes', lo: 'int', hi: 'int', m: 'int', p: 'int'):
    assert d[p + m] == c[p]
    if c[p] >= 128:
        assert d[(p + 1) + m] == c[p + 1]


@lemma(requires=['agr(c, d, lo, hi, m)', 'lo <= p', 'strok(c, p)', 'stre(c, p) <= hi'], ensures=['strok(d, p + m)', 'strn(d, p + m) == strn(c, p)', 'stre(d, p + m) == stre(c, p) + m', 'strv(d, p + m) == strv(c, p)'])
def agr_str(c: 'bytes', d: 'bytes', lo: 'int', hi: 'int', m: 'int', p: 'int'):
    assert strn(c, p) >= 0
    agr_len(c, d, lo, hi, m, p)
    agr_slice(c, d, lo, hi, m, strb(c, p), strb(c, p) + 2 * strn(c, p))


@lemma(requires=['agr(c, d, lo, hi, m)', 'lo <= p', '0 <= n', 'p + 4 * n <= hi'], ensures=['ints(d, p + m, n) == ints(c, p, n)'], dec='n')
def agr_ints(c: 'bytes', d: 'bytes', lo: 'int', hi: 'int', m: 'int', p: 'int', n: 'int'):
    if n > 0:
        agr_ints(c, d, lo, hi, m, p, n - 1)
        agr_slice(c, d, lo, hi, m, p + 4 * (n - 1), p + 4 * n)


@lemma(requires=['agr(c, d, lo, hi, m)', 'lo <= p', 'arrok(c, p)', 'arre(c, p) <= hi'], ensures=['arrok(d, p + m)', 'arre(d, p + m) == arre(c, p) + m', 'arrv(d, p + m) == arrv(c, p)'])
def agr_arr(c: 'bytes', d: 'bytes', lo: 'int', hi: 'int', m: 'int', p: 'int'):
    assert d[p + m] == c[p]
    agr_ints(c, d, lo, hi, m, p + 1, c[p])


@spec
def e_end(d: 'bytes', p: 'int', syn: 'bool') -> 'int':
    """end of the entry at p"""
    return arre(d, e_s(d, p)) if syn else e_s(d, p)


@spec
def same_entry(c: 'bytes', p: 'int', d: 'bytes', q: 'int', syn: 'bool'):
    """the entry at q of d has the fields of the entry at p of c"""
    return (entry_ok(d, q, syn) and strv(d, q) == strv(c, p) and strn(d, e_h(d, q)) == strn(c, e_h(c, p)) and frombytes(d[e_pos(d, q):e_pos(d, q) + 2], False) == frombytes(c[e_pos(c, p):e_pos(c, p) + 2], False)
            and strn(d, e_n(d, q)) == strn(c, e_n(c, p)) and strv(d, e_n(d, q)) == strv(c, e_n(c, p)) and dfid(d, q) == dfid(c, p) and strn(d, e_r(d, q)) == strn(c, e_r(c, p)) and strv(d, e_r(d, q)) == strv(c, e_r(c, p))
            and arrv(d, e_a(d, q)) == arrv(c, e_a(c, p)) and arrv(d, e_b(d, q)) == arrv(c, e_b(c, p)) and arrv(d, e_w(d, q)) == arrv(c, e_w(c, p)) and implies(syn, arrv(d, e_s(d, q)) == arrv(c, e_s(c, p))))


@lemma(requires=['agr(c, d, lo, hi, m)', 'lo <= p', 'entry_ok(c, p, syn)', 'e_end(c, p, syn) <= hi'], ensures=['same_entry(c, p, d, p + m, syn)', 'e_end(d, p + m, syn) == e_end(c, p, syn) + m'])
def agr_entry(c: 'bytes', d: 'bytes', lo: 'int', hi: 'int', m: 'int', p: 'int', syn: 'bool'):
    assert p <= e_h(c, p) and e_h(c, p) <= e_pos(c, p) and e_pos(c, p) + 2 == e_n(c, p)
    assert e_n(c, p) <= e_df(c, p) and e_df(c, p) + 4 == e_r(c, p) and e_r(c, p) <= e_a(c, p)
    assert e_a(c, p) <= e_b(c, p) and e_b(c, p) <= e_w(c, p) and e_w(c, p) <= e_s(c, p) and e_s(c, p) <= e_end(c, p, syn)
    agr_str(c, d, lo, hi, m, p)
    assert e_h(d, p + m) == e_h(c, p) + m
    agr_len(c, d, lo, hi, m, e_h(c, p))
    assert e_pos(d, p + m) == e_pos(c, p) + m
    agr_slice(c, d, lo, hi, m, e_pos(c, p), e_pos(c, p) + 2)
    assert e_n(d, p + m) == e_n(c, p) + m
    agr_str(c, d, lo, hi, m, e_n(c, p))
    assert e_df(d, p + m) == e_df(c, p) + m
    agr_slice(c, d, lo, hi, m, e_df(c, p), e_df(c, p) + 4)
    assert e_r(d, p + m) == e_r(c, p) + m
    agr_str(c, d, lo, hi, m, e_r(c, p))
    assert e_a(d, p + m) == e_a(c, p) + m
    agr_arr(c, d, lo, hi, m, e_a(c, p))
    assert e_b(d, p + m) == e_b(c, p) + m
    agr_arr(c, d, lo, hi, m, e_b(c, p))
    assert e_w(d, p + m) == e_w(c, p) + m
    agr_arr(c, d, lo, hi, m, e_w(c, p))
    assert e_s(d, p + m) == e_s(c, p) + m
    if syn:
        agr_arr(c, d, lo, hi, m, e_s(c, p))


@spec
def above(d: 'bytes', o: 'int', w: 'int', lo: 'int'):
    """entry w of the table at o, and that of its dictionary form, lie at lo or above"""
    return lo <= o and lo <= e_p(d, o, w) and implies(dfid(d, e_p(d, o, w)) >= 0, lo <= e_p(d, o, dfid(d, e_p(d, o, w))))


@lemma(requires=['wok(c, o, w, syn)', 'above(c, o, w, lo)', 'agr(c, d, lo, len(c), 0)', 'len(d) == len(c)'],
       ensures=['wok(d, o, w, syn)', 'above(d, o, w, lo)', 'e_p(d, o, w) == e_p(c, o, w)', 'same_entry(c, e_p(c, o, w), d, e_p(d, o, w), syn)'])
def word_keep(c: 'bytes', d: 'bytes', o: 'int', w: 'int', syn: 'bool', lo: 'int'):
    agr_slice(c, d, lo, len(c), 0, o + 4 * w, o + 4 * w + 4)
    agr_entry(c, d, lo, len(c), 0, e_p(c, o, w), syn)
    if dfid(c, e_p(c, o, w)) >= 0:
        agr_slice(c, d, lo, len(c), 0, o + 4 * dfid(c, e_p(c, o, w)), o + 4 * dfid(c, e_p(c, o, w)) + 4)
        agr_str(c, d, lo, len(c), 0, e_p(c, o, dfid(c, e_p(c, o, w))))


FRAMES = ['agr_slice', 'agr_len', 'agr_str', 'agr_ints', 'agr_arr', 'agr_entry', 'word_keep']
