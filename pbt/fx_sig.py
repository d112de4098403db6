"""Keys, signatures and signature checkers from plain recipes; everything is computed by the references."""
import functools

from hypothesis import strategies as st

from . import ref_btc as R, ref_ec as E, ref_script as S

SECRETS = [1, 2, 3, 0xdeadbeef, E.N - 1, 2**255, 0x1234567890abcdef * 2**130 + 7, E.N // 2 + 1]
GOOD_TYPES = [1, 1, 2, 3, 0x81, 0x82, 0x83, 0, 4, 0x41, 0xff, 0x80]


@functools.lru_cache(None)
def pub(k, form='c'):
    """Public key bytes: c(ompressed), u(ncompressed), h(ybrid) or broken in some way"""
    d = SECRETS[k]
    if form in 'cu':
        return E.pubkey(d, form == 'c')
    c, u = E.pubkey(d, True), E.pubkey(d, False)
    if form == 'h':
        return bytes([6 + (u[-1] & 1)]) + u[1:]
    return {'x': bytes([6 + (1 - u[-1] & 1)]) + u[1:],             # hybrid with the wrong parity
            'n': bytes([c[0] ^ 1]) + c[1:],                         # the negated point
            's': c[:-1], 'l': c + b'\0', 'e': b'',                  # too short, too long, empty
            'z': b'\4' + u[1:33] + bytes(31) + b'\1',               # not on the curve
            'o': b'\5' + c[1:], '0': b'\0'}[form]                   # unknown prefix, infinity


@functools.lru_cache(20000)
def raw_sign(k, h, nonce):
    return E.sign(SECRETS[k], h, 1000003 + nonce)


def raw_sign_any(d, h):
    """DER signature with any secret"""
    return E.der(*E.sign(d, h, 1000003))


@functools.lru_cache(20000)
def check_raw(pubkey, h, der):
    rs = E.un_der(der)
    pt = E.decode(pubkey)
    return rs is not None and pt is not None and E.verify(pt, h, *rs)


def sign(k, h, hashtype, nonce=0, how='good'):
    """Signature with its hash type byte, possibly spoiled"""
    r, s = raw_sign(k, h, nonce)
    if how == 'high':
        return E.der(r, E.N - s) + bytes([hashtype])
    if how == 'r+1':
        return E.der(r + 1, s) + bytes([hashtype])
    if how == 's+1':
        return E.der(r, s + 1) + bytes([hashtype])
    if how == 'zero':
        return E.der(0, s) + bytes([hashtype])
    if how == 'big':
        return E.der(r + E.N, s) + bytes([hashtype])
    if how == 'swap':
        return E.der(s, r) + bytes([hashtype])
    d = E.der(r, s)
    if how == 'type':
        return d + bytes([hashtype ^ 1])
    if how == 'notype':
        return d
    if how == 'cut':
        return d[:-1] + bytes([hashtype])
    if how == 'pad':
        return d + b'\0' + bytes([hashtype])
    if how == 'empty':
        return b''
    if how == 'onlytype':
        return bytes([hashtype])
    if how == 'flip':
        return d[:10] + bytes([d[10] ^ 1]) + d[11:] + bytes([hashtype])
    return d + bytes([hashtype])


SPOILS = ['high', 'r+1', 's+1', 'zero', 'big', 'swap', 'type', 'notype', 'cut', 'pad', 'empty', 'onlytype', 'flip']


def checker(tx, i):
    """Reference signature check for an input of a plain transaction"""
    def check(sig, key, code):
        if not sig:
            return False
        h, _ = R.sighash(code, tx, i, sig[-1])
        return check_raw(key, h, sig[:-1])
    return check


def how():
    return st.one_of(st.just('good'), st.just('good'), st.sampled_from(['good', 'good', 'high'] + SPOILS))


def keyform():
    return st.one_of(st.just('c'), st.sampled_from('cu'), st.sampled_from('ccuuhxnslezo0'))


def hashtype():
    return st.sampled_from(GOOD_TYPES)
