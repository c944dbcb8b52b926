"""Bytes, numbers in bytes, byte buffers, memory maps and views of them."""
from pyvc.api import *
from specs.utf8 import *

ghost_module('ghost.io_', 'ghost/io_.py')
model('io.BytesIO', 'ghost.io_.BytesIO')
cls('BytesIO', 'ghost.io_.BytesIO', {'data': 'bytes', 'pos': 'int'})
cls('Buf', 'sudachipy.dictionarylib.jtypedbytebuffer.JTypedByteBuffer', {}, bases=('BytesIO',))
cls('Mmap', 'ghost.io_.Mmap', {'data': 'bytes', 'pos': 'int'})
extern('fdof', ['str'], 'int', note='the descriptor of the opened file of this name')
extern('fdata', ['int'], 'bytes', note='the content of the file of this descriptor')
cls('File', 'ghost.io_.File', {'fd': 'int'})
model('builtins.open', 'ghost.io_.File')
model('mmap.mmap', 'ghost.io_.Mmap')
R.consts.update({'mmap.ACCESS_READ': 1, 'mmap.ACCESS_COPY': 3})
cls('View', 'ghost.io_.View', {'src': 'Mmap', 'base': 'int', 'n': 'int', 'item': 'int', 'rows': 'int', 'cols': 'int'})


@spec
def fits(v: 'int', k: 'int', signed: 'bool'):
    """number v can be stored in k bytes"""
    return ((0 - 128 <= v and v <= 127 if signed else 0 <= v and v <= 255) if k == 1 else
            (0 - 32768 <= v and v <= 32767 if signed else 0 <= v and v <= 65535) if k == 2 else
            (0 - 2147483648 <= v and v <= 2147483647 if signed else 0 <= v and v <= 4294967295) if k == 4 else
            (0 - 9223372036854775808 <= v and v <= 9223372036854775807 if signed else 0 <= v and v <= 18446744073709551615) if k == 8 else False)


extern('tobytes', ['int', 'int'], 'bytes', py=lambda v, k: (v % (1 << 8 * k)).to_bytes(k, 'little'), note='int.to_bytes(k, little), v reduced to k bytes')
extern('frombytes', ['bytes', 'bool'], 'int', py=lambda b, s: int.from_bytes(b, 'little', signed=s), note='int.from_bytes(b, little, signed)')
axiom('tobytes_len', [('v', 'int'), ('k', 'int')], 'implies(k >= 0, len(tobytes(v, k)) == k)', pats=['tobytes(v, k)'], note='int.to_bytes gives k bytes')
axiom('tobytes_back', [('v', 'int'), ('k', 'int'), ('s', 'bool')], 'implies(fits(v, k, s), frombytes(tobytes(v, k), s) == v)', pats=['frombytes(tobytes(v, k), s)'], note='from_bytes inverts to_bytes')
axiom('tobytes_byte', [('v', 'int')], 'implies(0 <= v and v <= 255, tobytes(v, 1)[0] == v)', pats=['tobytes(v, 1)'], note='a number below 256 is its single byte')
axiom('frombytes_range', [('b', 'bytes'), ('s', 'bool')], 'implies(len(b) == 1 or len(b) == 2 or len(b) == 4 or len(b) == 8, fits(frombytes(b, s), len(b), s))', pats=['frombytes(b, s)'], note='range of from_bytes')


@spec(opaque=True)
def patch(d: 'bytes', p: 'int', b: 'bytes') -> 'bytes':
    """d with b written from position p on (a gap is filled with zeros)"""
    return d if len(b) == 0 else (d + rep(b'\x00', p - len(d)))[:p] + b + d[min(p + len(b), len(d)):]


@lemma(requires=['p >= 0', 'len(b) > 0'], ensures=['len(patch(d, p, b)) == max(len(d), p + len(b))'], pats=['patch(d, p, b)'])
def patch_len(d: 'bytes', p: 'int', b: 'bytes'):
    pass


@lemma(requires=['p >= 0', 'len(b) > 0', '0 <= i', 'i < max(len(d), p + len(b))'],
       ensures=['patch(d, p, b)[i] == (b[i - p] if p <= i and i < p + len(b) else d[i] if i < len(d) else 0)'], pats=['patch(d, p, b)[i]'])
def patch_at(d: 'bytes', p: 'int', b: 'bytes', i: 'int'):
    pass


@lemma(requires=['p == len(d)'], ensures=['patch(d, p, b) == d + b'], pats=['patch(d, p, b)'])
def patch_end(d: 'bytes', p: 'int', b: 'bytes'):
    pass


@lemma(requires=['p >= 0', '0 <= i', 'i <= j', 'j <= len(d)', 'j <= p or p + len(b) <= i'], ensures=['patch(d, p, b)[i:j] == d[i:j]'], pats=['patch(d, p, b)[i:j]'], uses=['patch_len', 'patch_at'])
def patch_frame(d: 'bytes', p: 'int', b: 'bytes', i: 'int', j: 'int'):
    if len(b) == 0:
        assert patch(d, p, b) == d


@lemma(requires=['p >= 0', 'j == p + len(b)', 'p <= len(d) or len(b) > 0'], ensures=['patch(d, p, b)[p:j] == b'], pats=['patch(d, p, b)[p:j]'], uses=['patch_len', 'patch_at'])
def patch_in(d: 'bytes', p: 'int', b: 'bytes', j: 'int'):
    if len(b) > 0:
        assert len(patch(d, p, b)[p:j]) == len(b)
        assert all(patch(d, p, b)[p:j][i] == b[i] for i in range(0, len(b)))


PATCH = ['patch_len', 'patch_at', 'patch_end', 'patch_frame', 'patch_in']
