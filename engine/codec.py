"""Account and argument bytes <-> the engine's values, from the declarations in the source."""
import re, struct
from val import *
from mir import short, Unsupported
from types_ import EXTERN
from native import accdisc


def k2b(k):
    return k.to_bytes(32, 'big')


def b2k(b):
    return int.from_bytes(b, 'big')


class Codec:
    """enc/dec for borsh and packed layouts; keymap turns a model's address into a real one"""

    def __init__(s, types):
        s.t = types

    def enc(s, ty, v):
        ty = short(ty)
        if ty in ('u64', 'usize', 'i64'):
            return struct.pack('<Q', v)
        if ty == 'u32':
            return struct.pack('<I', v)
        if ty == 'u8':
            return struct.pack('<B', v)
        if ty == 'u128':
            return v.to_bytes(16, 'little')
        if ty == 'bool':
            return b'\1' if v else b'\0'
        if ty == 'Pubkey':
            return k2b(v)
        m = re.match(r'(COption|Option)<(.*)>$', ty)
        if m:
            if m.group(1) == 'COption':
                return struct.pack('<I', v.d) + (s.enc(m.group(2), v.p[1][0]) if v.d else s.zero(m.group(2)))
            return bytes([v.d]) + (s.enc(m.group(2), v.p[1][0]) if v.d else b'')
        m = re.match(r'Vec<(.*)>$', ty)
        if m:
            xs = [x for g, x in v.i]
            return struct.pack('<I', len(xs)) + b''.join(s.enc(m.group(1), x) for x in xs)
        m = re.match(r'\[(.*); (.*)\]$', ty)
        if m:
            if isinstance(v, VLimbs):
                return v.raw.to_bytes(24, 'little')
            if isinstance(v, VBigC):
                n = s.t.lens(m.group(2))
                z = s.enc(m.group(1), v.default)
                if len(v.m) == 0:
                    return z * n
                return b''.join(s.enc(m.group(1), v.m[i]) if i in v.m else z for i in range(n))
            if len(v.e) > 100:
                w = s.words(m.group(1))
                if w:
                    out = []
                    for x in v.e:
                        leaves(x, out)
                    return struct.pack('<%dQ' % len(out), *out)
            return b''.join(s.enc(m.group(1), x) for x in v.e)
        if ty == 'AccountState':
            return bytes([v.d])
        if ty == 'Decimal':
            return s.enc('[u64; 3]', v.f[0].f[0])
        if ty in ('TokenAccount', 'Mint') and ty not in s.t.structs:
            return b''.join(s.enc(t, x) for (f, t), x in zip(EXTERN[ty][1], v.f[0].f))
        if ty in EXTERN:
            return b''.join(s.enc(t, x) for (f, t), x in zip(EXTERN[ty][1], v.f))
        if ty in s.t.structs:
            return b''.join(s.enc(t, x) for (f, t), x in zip(s.t.structs[ty], v.f))
        if ty in s.t.enums:
            return bytes([v.d]) + b''.join(s.enc(t, x) for (f, t), x in zip(s.t.epay[ty][v.d], v.p.get(v.d, [])))
        raise Unsupported('encode ' + ty)

    def words(s, ty):
        """(number of 64 bit words, builder) of a type made of u64 fields only"""
        ty = short(ty)
        if ty in ('u64', 'usize'):
            return 1, lambda xs, o: xs[o]
        if ty not in s.t.structs:
            return None
        parts, n = [], 0
        for f, t in s.t.structs[ty]:
            w = s.words(t)
            if w is None:
                return None
            parts.append((n, w[1]))
            n += w[0]
        return n, lambda xs, o: VS(ty, [b(xs, o + k) for k, b in parts])

    def zero(s, ty):
        return b'\0' * {'u64': 8, 'Pubkey': 32}[ty]

    def dec(s, ty, b, o=0):
        ty = short(ty)
        if ty in ('u64', 'usize'):
            return struct.unpack_from('<Q', b, o)[0], o + 8
        if ty == 'u8':
            return b[o], o + 1
        if ty == 'u128':
            return int.from_bytes(b[o:o + 16], 'little'), o + 16
        if ty == 'bool':
            return b[o] != 0, o + 1
        if ty == 'Pubkey':
            return b2k(b[o:o + 32]), o + 32
        m = re.match(r'(COption|Option)<(.*)>$', ty)
        if m:
            if m.group(1) == 'COption':
                d = struct.unpack_from('<I', b, o)[0]
                v, e = s.dec(m.group(2), b, o + 4)
                return VE('COption', d, {1: [v], 0: []}), e
            d = b[o]
            if d:
                v, e = s.dec(m.group(2), b, o + 1)
                return VE('Option', 1, {1: [v], 0: []}), e
            return VE('Option', 0, {0: []}), o + 1
        m = re.match(r'\[(.*); (.*)\]$', ty)
        if m:
            n = s.t.lens(m.group(2))
            if m.group(1) == 'u64' and n == 3:
                return VLimbs(int.from_bytes(b[o:o + 24], 'little')), o + 24
            w = s.words(m.group(1)) if n > 100 else None
            if w:
                k = w[0]
                xs = struct.unpack_from('<%dQ' % (k * n), b, o)
                return VA([w[1](xs, i * k) for i in range(n)]), o + 8 * k * n
            out = []
            for _ in range(n):
                v, o = s.dec(m.group(1), b, o)
                out.append(v)
            return VA(out), o
        if ty == 'AccountState':
            return VE(ty, b[o], {0: [], 1: [], 2: []}), o + 1
        if ty == 'Decimal':
            v, o = s.dec('[u64; 3]', b, o)
            return VS('Decimal', [VS('U192', [v])]), o
        fl = None
        if ty in s.t.structs:
            fl = s.t.structs[ty]
        elif ty in EXTERN:
            fl = EXTERN[ty][1]
        if fl is not None:
            out = []
            for f, t in fl:
                v, o = s.dec(t, b, o)
                out.append(v)
            if ty not in s.t.structs and ty in ('TokenAccount', 'Mint'):
                return VS(ty, [VS('Spl' + EXTERN[ty][0], out)]), o
            return VS(ty, out), o
        if ty in s.t.enums:
            d = b[o]
            o += 1
            out = []
            for f, t in s.t.epay[ty][d]:
                v, o = s.dec(t, b, o)
                out.append(v)
            return VE(ty, d, {d: out}), o
        raise Unsupported('decode ' + ty)

    def account(s, ty, v):
        b = s.enc(ty, v)
        return b if ty in ('TokenAccount', 'Mint') else accdisc(ty) + b

    def from_account(s, ty, data):
        if ty in ('TokenAccount', 'Mint'):
            if len(data) != (165 if ty == 'TokenAccount' else 82):
                return None
            return s.dec(ty, data)[0]
        if data[:8] != accdisc(ty):
            return None
        return s.dec(ty, data, 8)[0]


def leaves(x, out):
    if isinstance(x, VS):
        for y in x.f:
            leaves(y, out)
    else:
        out.append(x)


class VBigC:
    """long array read from a model: a default and exceptions"""

    def __init__(s, default, m):
        s.default, s.m = default, m
