"""Ghost models of io.BytesIO, mmap.mmap and memoryview: the assumed contracts of these library classes, written as executable
code (the harnesses compare them with the real classes on random operations)."""


class BytesIO:
    def __init__(self, initial_bytes=b''):
        self.data = initial_bytes
        self.pos = 0

    def tell(self):
        return self.pos

    def seek(self, pos):
        if pos < 0:
            raise ValueError(pos)
        self.pos = pos
        return pos

    def write(self, b):
        self.data = patch(self.data, self.pos, b)
        self.pos = self.pos + len(b)
        return len(b)

    def read(self, size=-1):
        if size < 0:
            r = self.data[self.pos:]
        else:
            r = self.data[self.pos:self.pos + size]
        self.pos = self.pos + len(r)
        return r

    def getvalue(self):
        return self.data

    def truncate(self, size):
        self.data = self.data[:size]
        return size


class File:
    def __init__(self, name, mode='r', encoding=None):
        if mode != 'rb' and mode != 'r':
            raise NotImplementedError
        self.fd = fdof(name)

    def fileno(self):
        return self.fd


class Mmap:
    def __init__(self, fileno, length, access=1):
        if length != 0:
            raise NotImplementedError
        if len(fdata(fileno)) == 0:
            raise ValueError('cannot mmap an empty file')
        self.data = fdata(fileno)
        self.pos = 0

    def tell(self):
        return self.pos

    def seek(self, pos):
        if pos < 0 or pos > len(self.data):
            raise ValueError(pos)
        self.pos = pos

    def read(self, n):
        r = self.data[self.pos:self.pos + n]
        self.pos = self.pos + len(r)
        return r

    def read_byte(self):
        if self.pos >= len(self.data):
            raise ValueError('read byte out of range')
        r = self.data[self.pos]
        self.pos = self.pos + 1
        return r

    def __getitem__(self, i):
        return self.data[i]

    def getslice(self, lo, hi):
        return self.data[lo:hi]

    def close(self):
        pass


class View:
    """a memoryview of n bytes from base on, as bytes (item 1) or as signed 16-bit numbers (item 2), flat (cols -1) or as a matrix"""
    def __init__(self, src, base, n, item, rows, cols):
        self.src = src
        self.base = base
        self.n = n
        self.item = item
        self.rows = rows
        self.cols = cols

    def getslice(self, lo, hi):
        if self.item == 2:
            if self.cols >= 0:
                raise NotImplementedError
            lo = min(max(lo, 0), self.n // 2)
            hi = min(max(hi, lo), self.n // 2)
            return View(self.src, self.base + 2 * lo, 2 * (hi - lo), 2, 0, -1)
        lo = min(max(lo, 0), self.n)
        hi = min(max(hi, lo), self.n)
        return View(self.src, self.base + lo, hi - lo, 1, 0, -1)

    def cast(self, fmt, shape=None):
        if fmt != 'h' or self.item != 1:
            raise NotImplementedError
        if self.n % 2 != 0:
            raise TypeError
        if shape is None:
            return View(self.src, self.base, self.n, 2, 0, -1)
        if shape[0] <= 0 or shape[1] <= 0:
            raise ValueError
        if 2 * shape[0] * shape[1] != self.n:
            raise TypeError
        return View(self.src, self.base, self.n, 2, shape[0], shape[1])

    def __getitem__(self, i):
        if self.cols >= 0:
            raise NotImplementedError
        if self.item == 1:
            if i < -self.n or i >= self.n:
                raise IndexError
            return self.src.data[self.base + (i if i >= 0 else i + self.n)]
        if i < -(self.n // 2) or i >= self.n // 2:
            raise IndexError
        p = self.base + 2 * (i if i >= 0 else i + self.n // 2)
        return frombytes(self.src.data[p:p + 2], True)

    def __setitem__(self, i, v):
        if self.cols >= 0 or self.item != 2:
            raise NotImplementedError
        if i < -(self.n // 2) or i >= self.n // 2:
            raise IndexError
        if v < -32768 or v > 32767:
            raise ValueError
        self.src.data = patch(self.src.data, self.base + 2 * (i if i >= 0 else i + self.n // 2), tobytes(v, 2))

    def getitem2(self, i, j):
        if self.cols < 0:
            raise NotImplementedError
        if i < -self.rows or i >= self.rows or j < -self.cols or j >= self.cols:
            raise IndexError
        p = self.base + 2 * ((i if i >= 0 else i + self.rows) * self.cols + (j if j >= 0 else j + self.cols))
        return frombytes(self.src.data[p:p + 2], True)

    def setitem2(self, i, j, v):
        if self.cols < 0:
            raise NotImplementedError
        if i < -self.rows or i >= self.rows or j < -self.cols or j >= self.cols:
            raise IndexError
        if v < -32768 or v > 32767:
            raise ValueError
        self.src.data = patch(self.src.data, self.base + 2 * ((i if i >= 0 else i + self.rows) * self.cols + (j if j >= 0 else j + self.cols)), tobytes(v, 2))

    def release(self):
        pass


class DoubleArray:
    def __init__(self):
        self.cells = b''
        self.n = 0

    def set_array(self, array, size):
        self.cells = array.src.data[array.base:array.base + array.n]
        self.n = size

    def total_size(self):
        return 4 * self.n

    def common_prefix_search(self, key, length):
        if length != len(key):
            raise NotImplementedError
        return trie_search(self.cells, key)
