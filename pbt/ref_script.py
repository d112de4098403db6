"""Reference script interpreter: the rules of the reference client around version 0.9, P2SH included.

Independent of the code under test.  `checker(sig, pubkey, code)` decides signatures.
"""
import hashlib

from . import ref_btc as R

DISABLED = {0x7e, 0x7f, 0x80, 0x81, 0x83, 0x84, 0x85, 0x86, 0x8d, 0x8e, 0x95, 0x96, 0x97, 0x98, 0x99, 0x65, 0x66}
FALSE, TRUE = b'', b'\1'


class Failed(Exception):
    """at: (opcode, data, offset) of the failing operation, or None"""
    def __init__(self, why, at=None):
        super().__init__(why)
        self.why, self.at = why, at


def truth(b):
    return any(b[:-1]) or (len(b) > 0 and b[-1] not in (0, 0x80))


def boolean(v):
    return TRUE if v else FALSE


def find_and_delete(script, sig):
    """Remove every operation that is exactly the push of sig (whole operations only in script)"""
    pat = R.push(sig)
    got, bad = R.ops(script)
    if bad is not None:
        raise Failed('invalid push')
    ends = [at for _, _, at in got[1:]] + [len(script)]
    return b''.join(script[a:e] for (_, _, a), e in zip(got, ends) if script[a:e] != pat)


class Machine:
    def __init__(self, stack, script, checker):
        self.st, self.script, self.checker = stack, script, checker
        self.alt, self.cond, self.count, self.code = [], [], 0, 0

    def need(self, n):
        if len(self.st) < n:
            raise Failed('missing arguments')

    def pop(self, n=1):
        self.need(n)
        out = self.st[len(self.st) - n:]
        del self.st[len(self.st) - n:]
        return out

    def number(self, b):
        if len(b) > 4:
            raise Failed('number too long')
        return R.unnum(b)

    def numbers(self, n):
        return [self.number(b) for b in self.pop(n)]

    def run(self):
        if len(self.script) > 10000:
            raise Failed('script size')
        got, bad = R.ops(self.script)
        for o in got:
            try:
                self.step(*o)
                if len(self.st) + len(self.alt) > 1000:
                    raise Failed('stack items')
            except Failed as e:
                e.at = o
                raise
        if bad is not None:
            raise Failed('invalid push')
        if self.cond:
            raise Failed('unbalanced')
        return self.st

    def step(self, op, data, at):
        st = self.st
        live = all(self.cond)
        if op > 0x60:
            self.count += 1
            if self.count > 201:
                raise Failed('op count')
        if data is not None and len(data) > 520:
            raise Failed('element size')
        if op in DISABLED:
            raise Failed('disabled')
        if 0x63 <= op <= 0x68:
            return self.flow(op, live)
        if not live:
            return
        if data is not None:
            st.append(data)
        elif op == 0x4f:
            st.append(b'\x81')
        elif 0x51 <= op <= 0x60:
            st.append(bytes([op - 0x50]))
        elif op == 0x61 or 0xb0 <= op <= 0xb9:
            pass
        elif op == 0x69:
            if not truth(self.pop()[0]):
                raise Failed('verify')
        elif op == 0x6b:
            self.alt += self.pop()
        elif op == 0x6c:
            if not self.alt:
                raise Failed('missing arguments')
            st.append(self.alt.pop())
        elif op in SHUFFLES:
            n, order = SHUFFLES[op]
            args = self.pop(n)
            st += [args[i] for i in order]
        elif op == 0x73:
            self.need(1)
            if truth(st[-1]):
                st.append(st[-1])
        elif op == 0x74:
            st.append(R.num(len(st)))
        elif op in (0x79, 0x7a):
            self.need(2)
            n = self.numbers(1)[0]
            if not 0 <= n < len(st):
                raise Failed('range')
            i = len(st) - 1 - n
            st.append(st.pop(i) if op == 0x7a else st[i])
        elif op == 0x82:
            self.need(1)
            st.append(R.num(len(st[-1])))
        elif op in (0x87, 0x88):
            a, b = self.pop(2)
            if op == 0x87:
                st.append(boolean(a == b))
            elif a != b:
                raise Failed('verify')
        elif op in UNARY:
            st.append(R.num(int(UNARY[op](self.numbers(1)[0]))))
        elif op in BINARY:
            st.append(R.num(int(BINARY[op](*self.numbers(2)))))
        elif op == 0x9d:
            a, b = self.numbers(2)
            if a != b:
                raise Failed('verify')
        elif op == 0xa5:
            v, lo, hi = self.numbers(3)
            st.append(boolean(lo <= v < hi))
        elif op in HASHES:
            st.append(HASHES[op](self.pop()[0]))
        elif op == 0xab:
            self.code = at + 1
        elif op in (0xac, 0xad):
            sig, key = self.pop(2)
            good = self.checker(sig, key, find_and_delete(self.script[self.code:], sig))
            if op == 0xac:
                st.append(boolean(good))
            elif not good:
                raise Failed('verify')
        elif op in (0xae, 0xaf):
            self.multisig(op)
        else:
            raise Failed('bad opcode')

    def flow(self, op, live):
        if op in (0x63, 0x64):
            v = False
            if live:
                v = truth(self.pop()[0]) == (op == 0x63)
            self.cond.append(v)
        elif op in (0x67, 0x68):
            if not self.cond:
                raise Failed('unbalanced')
            v = self.cond.pop()
            if op == 0x67:
                self.cond.append(not v)

    def multisig(self, op):
        nk = self.numbers(1)[0]
        if not 0 <= nk <= 20:
            raise Failed('key count')
        self.count += nk
        if self.count > 201:
            raise Failed('op count')
        keys = self.pop(nk)
        ns = self.numbers(1)[0]
        if not 0 <= ns <= nk:
            raise Failed('signature count')
        sigs = self.pop(ns)
        self.pop()
        code = self.script[self.code:]
        for s in sigs:
            code = find_and_delete(code, s)
        # last signature and key first
        while sigs and len(sigs) <= len(keys):
            if self.checker(sigs[-1], keys.pop(), code):
                sigs.pop()
        good = not sigs
        if op == 0xae:
            self.st.append(boolean(good))
        elif not good:
            raise Failed('verify')


SHUFFLES = {
    0x6d: (2, ()), 0x6e: (2, (0, 1, 0, 1)), 0x6f: (3, (0, 1, 2, 0, 1, 2)), 0x70: (4, (0, 1, 2, 3, 0, 1)), 0x71: (6, (2, 3, 4, 5, 0, 1)),
    0x72: (4, (2, 3, 0, 1)), 0x75: (1, ()), 0x76: (1, (0, 0)), 0x77: (2, (1,)), 0x78: (2, (0, 1, 0)), 0x7b: (3, (1, 2, 0)),
    0x7c: (2, (1, 0)), 0x7d: (2, (1, 0, 1)),
}
UNARY = {
    0x8b: lambda a: a + 1, 0x8c: lambda a: a - 1, 0x8f: lambda a: -a, 0x90: abs, 0x91: lambda a: a == 0, 0x92: lambda a: a != 0,
}
BINARY = {
    0x93: lambda a, b: a + b, 0x94: lambda a, b: a - b, 0x9a: lambda a, b: a != 0 and b != 0, 0x9b: lambda a, b: a != 0 or b != 0,
    0x9c: lambda a, b: a == b, 0x9e: lambda a, b: a != b, 0x9f: lambda a, b: a < b, 0xa0: lambda a, b: a > b,
    0xa1: lambda a, b: a <= b, 0xa2: lambda a, b: a >= b, 0xa3: min, 0xa4: max,
}
HASHES = {
    0xa6: R.ripemd160, 0xa7: lambda b: hashlib.sha1(b).digest(), 0xa8: R.sha256, 0xa9: R.hash160, 0xaa: R.sha256d,
}
ARGS = dict([(k, v[0]) for k, v in SHUFFLES.items()] + [(k, 1) for k in UNARY] + [(k, 2) for k in BINARY] + [(k, 1) for k in HASHES] +
            [(0x69, 1), (0x6b, 1), (0x73, 1), (0x79, 2), (0x7a, 2), (0x82, 1), (0x87, 2), (0x88, 2), (0x9d, 2), (0xa5, 3), (0xac, 2), (0xad, 2)])


def evaluate(stack, script, checker):
    """Returns the final stack; raises Failed"""
    return Machine(list(stack), script, checker).run()


def push_only(s):
    got, bad = R.ops(s)
    return bad is None and all(op <= 0x60 for op, _, _ in got)


def verify(sig, pub, checker, p2sh):
    """Raises Failed unless the input script satisfies the output script"""
    stack = evaluate([], sig, checker)
    after = list(stack)
    stack = evaluate(stack, pub, checker)
    if not stack or not truth(stack[-1]):
        raise Failed('false')
    if p2sh and R.is_p2sh(pub):
        if not push_only(sig):
            raise Failed('not push only')
        redeem = after.pop()
        stack = evaluate(after, redeem, checker)
        if not stack or not truth(stack[-1]):
            raise Failed('p2sh false')
