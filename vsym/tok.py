"""Tokens: how symbolic numbers travel through files and byte strings.

formatted (text) files:  the 14 characters '@S00000000012@', right-justified in
                         a 16 column field (real numbers also leave a blank).
unformatted files/bytes: a quiet float32 NaN whose 22 bit payload is the index.

Index n refers to ``core.CUR.tokens[n-1]``.
"""
import re
import struct as _struct

import numpy as _np

from . import core

_TXT = re.compile(r'^@S(\d{11})@$')
_TXTB = re.compile(rb'@S(\d{11})@')


def new_token(sym):
    toks = core.CUR.tokens
    toks.append(sym)
    if len(toks) >= 0x3FFFFF:
        raise core.Inconclusive('too many tokens')
    return len(toks)


def text_token(sym):
    return '@S%011d@' % new_token(sym)


def f32_token(sym):
    return _struct.pack('<I', 0x7FC00000 | new_token(sym))


def from_text(s):
    """string -> Sym or None"""
    m = _TXT.match(s.strip())
    if not m:
        return None
    return core.CUR.tokens[int(m.group(1)) - 1]


def lift_nan(v):
    """float (python or numpy scalar) carrying a token payload -> Sym"""
    if core.CUR is None or not core.CUR.symbolic:
        return v
    if isinstance(v, float) and v != v:
        bits = _struct.unpack('<Q', _struct.pack('<d', v))[0]
        idx = (bits >> 29) & 0x3FFFFF
        if idx and idx <= len(core.CUR.tokens):
            return core.CUR.tokens[idx - 1]
    return v


def decode_f32(b):
    """4 bytes little endian -> float or Sym"""
    u = _struct.unpack('<I', b)[0]
    if core.CUR is not None and core.CUR.symbolic and (u & 0xFFC00000) == 0x7FC00000:
        idx = u & 0x3FFFFF
        if idx and idx <= len(core.CUR.tokens):
            return core.CUR.tokens[idx - 1]
    return _struct.unpack('<f', b)[0]


# -- typed arrays -------------------------------------------------------------

_INTTOK = 0x5A000000            # 4 and 8 byte integers: this plus the index


def encode(v, dt):
    """bytes of one array element (little endian)"""
    if isinstance(v, core.Sym):
        if dt.kind == 'f' and dt.itemsize == 4:
            return f32_token(v)
        if dt.kind == 'f' and dt.itemsize == 8:
            return _struct.pack('<Q', 0x7FF8000000000000 | (new_token(v) << 29))
        if dt.kind in 'iu' and dt.itemsize in (4, 8):
            return _struct.pack('<I' if dt.itemsize == 4 else '<Q', _INTTOK | new_token(v))
        raise core.Unsupported('bytes of a symbolic %s' % dt)
    return _np.array(v, dtype=dt.newbyteorder('<')).tobytes()


def decode(b, dt):
    """list of the elements in the bytes of an array"""
    a = _np.frombuffer(b, dtype=dt.newbyteorder('<'))
    if core.CUR is None or not core.CUR.symbolic:
        return a.tolist()
    if dt.kind == 'f':
        return [lift_nan(float(x)) if x != x else float(x) for x in a]
    out = []
    for x in a.tolist():
        if dt.itemsize >= 4 and 0 < x - _INTTOK <= len(core.CUR.tokens):
            x = core.CUR.tokens[x - _INTTOK - 1]
        out.append(x)
    return out
