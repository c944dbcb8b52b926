"""Generators shared by the harnesses."""
import json
import os
import random
import tempfile
import unicodedata

ALPH = ['a', 'b', 'Z', '1', '0', ' ', '.', ',', 'é', 'α', 'Д', 'あ', 'い', 'ア', 'イ', 'ー', '〜', '漢', '東', '京', '都', '一', '二', '千', '万', '㍿', 'Ⅲ', 'ｶ', 'ﾞ',
        'Ａ', '％', '𠮷', '𩸽', '😀', '\u3099', 'İ', 'ß', '\x00', '\u2028', '\U0010ffff', '\uffff', '\u07ff', '\u0800', '\x7f', '\x80']
JA = ['あ', 'い', 'う', 'ア', 'イ', 'ウ', '東', '京', '都', '一', '1', 'a', 'b', 'é', '𠮷']


def rchar(rng, alph=None):
    if alph is None:
        r = rng.random()
        if r < .9:
            return rng.choice(ALPH)
        while True:
            c = chr(rng.randrange(0x110000))
            if not 0xD800 <= ord(c) < 0xE000:
                return c
    return rng.choice(alph)


def rtext(rng, lo, hi, alph=None):
    n = rng.randint(lo, hi)
    out = []
    for _ in range(n):
        if out and rng.random() < .3:
            out.append(out[-1])
        else:
            out.append(rchar(rng, alph))
    return ''.join(out)
