"""The value of a numeral, from its digits and units (Arabic or Kanji digits, small and large units, commas, decimal point)."""
import re
from fractions import Fraction

DIG = {c: i for i, c in enumerate('0123456789')}
DIG.update({c: i for i, c in enumerate('〇一二三四五六七八九')})
SMALL = {'十': 1, '百': 2, '千': 3}
LARGE = {'万': 4, '億': 8, '兆': 12}


def number(s):
    """(digits, exponent) of a run of digits, commas and points, or None if it is ill-formed"""
    d = ''.join(str(DIG[c]) if c in DIG else c for c in s)
    if not re.fullmatch(r'(\d+|\d{1,3}(,\d{3})+)(\.\d+)?', d):
        return None
    w = d.split('.')
    if ',' in w[0] and not w[0].split(',')[0].strip('0'):
        return None
    w[0] = w[0].replace(',', '')
    return (w[0] + (w[1] if len(w) > 1 else ''), -(len(w[1]) if len(w) > 1 else 0))


def add(a, b):
    """a followed by b, if b fits into the positions below a's last digit"""
    if not b[0]:
        return a
    if not a[0]:
        return b
    n = len(b[0]) + b[1]
    if a[1] < n:
        return None
    return (a[0] + '0' * (a[1] - n) + b[0], b[1])


def value(s):
    """Fraction, or None if the sequence is refused"""
    total, sub = ('', 0), ('', 0)
    for m in re.finditer(r'([%s,.]*)(.?)' % ''.join(DIG), s, re.S):
        num, unit = m.groups()
        if not num and not unit:
            continue
        cur = ('', 0)
        if num:
            cur = number(num)
            if cur is None:
                return None
        if not unit:
            sub = add(sub, cur)
            if sub is None:
                return None
        elif unit in SMALL:
            cur = (cur[0] or '1', cur[1] + SMALL[unit])
            sub = add(sub, cur)
            if sub is None:
                return None
        elif unit in LARGE:
            sub = add(sub, cur)
            if sub is None or not sub[0]:
                return None
            sub = (sub[0], sub[1] + LARGE[unit])
            total = add(total, sub)
            if total is None:
                return None
            sub = ('', 0)
        else:
            return None
    total = add(total, sub)
    if total is None:
        return None
    return Fraction(int(total[0] or '0')) * Fraction(10) ** total[1]


def plain(s, v):
    """does the string denote v, plainly?"""
    return re.fullmatch(r'[0-9]+(\.[0-9]*[1-9])?', s) is not None and Fraction(s) == v
