"""Writer for SESAM Interface files, independent of freesif.

Works for symbolic and concrete values alike.  A record is written as

type 1 ('input' records):   header name(8)+4 values, continuation lines
                            8 blanks + up to 4 values
type 2 ('nfield' records):  header name(8)+4 values, remaining values as a
                            stream: formatted like type 1, unformatted in
                            blocks of at most 32 values without blanks
text lines:                 plain strings after the header
"""
import struct

from . import tok
from .core import Sym


def _num(v):
    if hasattr(v, 'item') and not isinstance(v, Sym):
        return v.item()
    return v


def fmt_text(v):
    v = _num(v)
    if isinstance(v, Sym):
        return '  ' + tok.text_token(v)
    return '{:16.8E}'.format(float(v))


def fmt_f32(v):
    v = _num(v)
    if isinstance(v, Sym):
        return tok.f32_token(v)
    return struct.pack('<f', float(v))


class SifFile(object):
    """collects the records of one file; fmt is 'F' or 'U'"""

    def __init__(self, fmt, chunk=32, pad=True, wide_len=True):
        self.fmt = fmt
        self.chunk = chunk      # unformatted type 2 block size (values), or list
        self.pad = pad          # fill the last line of a type 1 record with 0.
        self.wide_len = wide_len
        self.out = []

    # raw pieces ------------------------------------------------------------
    def _emit(self, prefix, vals, more=False):
        if self.fmt == 'F':
            s = prefix + ''.join(fmt_text(v) for v in vals)
            self.out.append((s + '\n').encode('ascii'))
        else:
            self._block(prefix.encode('ascii') + b''.join(fmt_f32(v) for v in vals), more)

    def _block(self, data, more=False):
        n = len(data)
        assert n <= 128, n
        b = 129 if (n == 128 and more and self.wide_len) else n
        self.out.append(bytes([b]) + data + bytes([b]))

    def header(self, name, vals):
        self._emit('{:<8}'.format(name), vals)

    def cont(self, vals, blanks=True, more=False):
        self._emit(' ' * 8 if (blanks or self.fmt == 'F') else '', vals, more)

    def text(self, s):
        """text line"""
        if self.fmt == 'F':
            self.out.append((s + '\n').encode('latin-1'))
        else:
            self._block(s.encode('latin-1'))

    # records ---------------------------------------------------------------
    def t1(self, name, vals, pad=None):
        pad = self.pad if pad is None else pad
        vals = list(vals)
        if pad or (self.fmt == 'U'):
            vals += [0.] * (-len(vals) % 4)
        self.header(name, vals[:4])
        for i in range(4, len(vals), 4):
            self.cont(vals[i:i + 4])

    def t2(self, name, vals):
        vals = list(vals)
        head, rest = vals[:4], vals[4:]
        if self.pad or self.fmt == 'U':
            head = head + [0.] * (4 - len(head))
        self.header(name, head)
        self.stream(rest)

    def stream(self, rest):
        if self.fmt == 'F':
            for i in range(0, len(rest), 4):
                line = rest[i:i + 4]
                if self.pad:
                    line = line + [0.] * (4 - len(line))
                self.cont(line)
            return
        i = k = 0
        while i < len(rest):
            c = self.chunk[k % len(self.chunk)] if isinstance(self.chunk, (list, tuple)) \
                else self.chunk
            k += 1
            blk = rest[i:i + c]
            i += len(blk)
            self.cont(blk, blanks=False, more=i < len(rest))

    def text_rec(self, name, typ, sub, lines, width=80):
        """TEXT / DATE"""
        self.header(name, [typ, sub, len(lines), width])
        for ln in lines:
            self.text(ln)

    def td(self, name, idno, nam, txt=()):
        """TDxxxxxx: name (one line of up to 64 characters, or several in a tuple) and text lines"""
        nam = (nam,) if isinstance(nam, str) else nam
        codnam = 100 * len(nam) + max(len(n) for n in nam) if nam is not None else 0
        codtxt = 100 * len(txt) + (max(len(t) for t in txt) if txt else 0)
        self.header(name, [4, idno, codnam, codtxt])
        for t in tuple(nam or ()) + tuple(txt):
            self.text(' ' * 8 + t)

    def ident(self, seltyp, slevel=1, selmod=3):
        self.header('IDENT', [slevel, seltyp, selmod, 0.])

    def date(self):
        self.text_rec('DATE', 1, 0, [' ' * 8 + 'DATE:     01-JAN-2020'])

    def end(self):
        self.header('IEND', [0., 0., 0., 0.])

    def write(self, path):
        with open(path, 'wb') as f:
            if self.fmt == 'U':
                f.write(b'K')
            f.write(b''.join(self.out))
