"""C08 (built-in matchers) and C20 (strings): the framework's parts driven directly."""
import os, re, struct, subprocess
from . import build, pbt
from .pbt import Violation, Inconclusive

FWS = os.path.join(build.REPO, "src/easyMockFramework/src")
H = os.path.join(build.VERIF, "harness")
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0:exitcode=77")


def drive(exe, script, timeout=120):
    try:
        p = subprocess.run([exe], input=script, capture_output=True, timeout=timeout, env=ENV)
        return p.stdout.decode("latin1").split("\n")[:-1], p.returncode, p.stderr.decode("latin1")
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode("latin1").split("\n")[:-1], "timeout", ""


def hx(b):
    return b.hex() if b else "-"


# ---------------------------------------------------------------------------------------------- C20
STACK_SIZES = [256, 16, 1, 64]


def shared_c20():
    r = {}
    for n in STACK_SIZES:
        fl = ["-DCSTRING_MAX_STACK_SIZE=%d" % n] if n != 256 else []
        r[n] = build.harness("strings%d" % n, [os.path.join(H, "strings.c")], [os.path.join(FWS, "cstring.c")], flags=fl)
    return r


def text(src, size):
    """A string whose length likes the edges of the inline buffer."""
    k = src.weighted([(4, "small"), (4, "edge"), (2, "mid"), (1, "big"), (1, "huge")])
    if k == "small":
        n = src.int(0, 6)
    elif k == "edge":
        n = max(0, size - 1 + src.int(-3, 3))
    elif k == "mid":
        n = src.int(0, 2 * size)
    elif k == "big":
        n = src.int(0, 2000)
    else:
        n = src.int(2000, 20000)
    if n > 64:
        return pattern(src.draw(1 << 16), n)
    return bytes(1 + (src.draw(255) + 96) % 255 for _ in range(n))


def pattern(seed, n):
    out = bytearray()
    x = seed + 1
    while len(out) < n:
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append(1 + (x >> 8) % 255)
    return bytes(out)


def sgn(a, b):
    return (a > b) - (a < b)


def c20_seq(src, size):
    """Operations and, for each, the line they must print (or None)."""
    ops, live = [], {}
    for _ in range(src.int(1, 25)):
        kinds = [(2, "N"), (3, "I"), (1, "X")]
        if live:
            kinds += [(8, "A"), (3, "C"), (4, "G"), (1, "F"), (1, "M")]
        if len(live) > 1:
            kinds += [(2, "B"), (3, "D")]
        k = src.weighted(kinds)
        if k in "NI":
            free = [i for i in range(8) if i not in live]
            if not free:
                continue
            i = src.choice(free)
            t = text(src, size) if k == "I" else b""
            live[i] = t
            ops.append(("N %d" % i if k == "N" else "I %d %s" % (i, hx(t)), None))
        elif k == "X":
            a, b = text(src, size), text(src, size)
            ops.append(("X %s %s" % (hx(a), hx(b)), "x %d %s" % (len(a + b), hx(a + b))))
        elif k == "A":
            i = src.choice(sorted(live))
            if src.bool(1, 3) and len(live[i]) < size:
                # fill up to the edge
                t = pattern(src.draw(1000), max(0, size - len(live[i]) - 1 + src.int(-2, 2)))
            else:
                t = text(src, size)
            live[i] += t
            ops.append(("A %d %s" % (i, hx(t)), None))
        elif k == "B":
            i, j = src.sample(sorted(live), 2)
            live[i] += live[j]
            if len(live[i]) > 200000:
                live[i] = live[i][:-len(live[j])] if live[j] else live[i]
                continue
            ops.append(("B %d %d" % (i, j), None))
        elif k == "C":
            i = src.choice(sorted(live))
            t = live[i]
            m = src.int(0, 5)
            if m == 0:
                t = text(src, size)
            elif m == 1 and t:
                p = src.draw(len(t))
                t = t[:p] + bytes([1 + src.draw(255)]) + t[p + 1:]
            elif m == 2:
                t = t[:src.draw(len(t) + 1)]
            elif m == 3:
                t = t + text(src, size)
            elif m == 4 and t:
                t = t[:-1] + bytes([1 + src.draw(255)])
            ops.append(("C %d %s" % (i, hx(t)), "c %d" % sgn(live[i], t)))
        elif k == "D":
            i, j = src.sample(sorted(live), 2)
            ops.append(("D %d %d" % (i, j), "d %d" % sgn(live[i], live[j])))
        elif k == "G":
            i = src.choice(sorted(live))
            ops.append(("G %d" % i, "g %d %s" % (len(live[i]), hx(live[i]))))
        elif k == "F":
            i = src.choice(sorted(live))
            ops.append(("F %d" % i, None))
            if src.bool():
                ops.append(("F %d" % i, None))     # freeing twice is harmless
            del live[i]
        elif k == "M":
            free = [i for i in range(8) if i not in live]
            if not free:
                continue
            i, j = src.choice(free), src.choice(sorted(live))
            live[i] = live.pop(j)
            ops.append(("M %d %d" % (i, j), None))
    for i in sorted(live):
        ops.append(("G %d" % i, "g %d %s" % (len(live[i]), hx(live[i]))))
    ops.append(("Z", "z 0"))
    return ops


def short(s):
    return s if len(s) < 300 else s[:140] + "...(%d)..." % len(s) + s[-100:]


def c20(src, ctx):
    size = src.choice(STACK_SIZES)
    seqs = [c20_seq(src, size) for _ in range(src.int(1, 60))]
    script = "\n".join(o for s in seqs for o, _ in s) + "\n"
    lines, rc, err = drive(ctx.shared[size], script.encode())
    pos = 0
    for s in seqs:
        for i, (o, want) in enumerate(s):
            if want is None:
                continue
            got = lines[pos] if pos < len(lines) else None
            pos += 1
            if got != want:
                hist = "\n".join(short(x) for x, _ in s[:i + 1])
                if got is None:
                    raise Violation("crash", "the program died (%s) in this sequence: %s ... %s" % (rc, short(hist), err[:1500]), {"ops.txt": "\n".join(x for x, _ in s)})
                raise Violation({"z": "leak", "c": "compare", "d": "compare"}.get(want[0], "content"),
                                "inline capacity %d, after:\n%s\nexpected %s\nobserved %s" % (size, hist, short(want), short(got)), {"ops.txt": "\n".join(x for x, _ in s)})
        ctx.count()
        ctx.label("ops", len(s))
        ctx.label("capacity_%d" % size)
        grown = sum(1 for o, _ in s if o[0] in "AB")
        if grown and len(s) > 4:
            ctx.hit((size, repr([o for o, _ in s])))
    ctx.sample = {"capacity": size, "sequence": [short(o)[:80] for o, _ in seqs[-1][:25]]}
    if rc != 0:
        raise Violation("crash", "the program ended with %s: %s" % (rc, err[:1500]), {})


# ---------------------------------------------------------------------------------------------- C08
def shared_c08():
    return build.harness("matchers", [os.path.join(H, "matchers.cpp")], [os.path.join(FWS, "easyMock_matcher.cpp")])


INTS = {"char": (1, True), "u_char": (1, False), "short": (2, True), "u_short": (2, False), "int": (4, True), "u_int": (4, False),
        "long": (8, True), "u_long": (8, False), "long_long": (8, True), "u_long_long": (8, False), "pointer": (8, False),
        "int128": (16, True), "uint128": (16, False)}
NAMES = list(INTS) + ["float", "double", "long_double", "str"]


def int_pair(src, size, signed):
    bits = size * 8
    a = interesting(src, bits)
    k = src.weighted([(2, "same"), (4, "bit"), (3, "any"), (2, "half"), (1, "near")])
    if k == "same":
        b = a
    elif k == "bit":
        b = a ^ (1 << src.draw(bits))
    elif k == "any":
        b = interesting(src, bits)
    elif k == "half":
        h = bits // 2
        b = a ^ ((1 + src.draw((1 << h) - 1)) << (h if src.bool() else 0))
    else:
        b = (a + src.choice([1, -1, 256, -256, 65536])) % (1 << bits)
    return a.to_bytes(size, "little"), b.to_bytes(size, "little")


def interesting(src, bits):
    m = (1 << bits) - 1
    k = src.int(0, 5)
    if k == 0:
        return src.draw(4)
    if k == 1:
        return (m - src.draw(4)) & m
    if k == 2:
        return ((1 << (bits - 1)) + src.int(-2, 2)) & m
    if k == 3:
        return (1 << src.draw(bits))
    if k == 4:
        v = 0
        for _ in range(bits // 8):
            v = (v << 8) | src.draw(256)
        return v
    return src.draw(min(m, 1 << 16))


F_SPECIAL = [0.0, -0.0, 1.0, -1.0, float("inf"), float("-inf"), float("nan"), 1.5, 1e-30, 5e-324, 1e30, 0.1]


def x87(bs):
    """(is_nan, sign, significand, exponent) -> comparable value of an 80-bit float, exactly."""
    sig = int.from_bytes(bs[:8], "little")
    se = int.from_bytes(bs[8:10], "little")
    s, e = se >> 15, se & 0x7fff
    if e == 0x7fff:
        if sig & ((1 << 63) - 1):
            return None
        return (float("-inf") if s else float("inf"))
    from fractions import Fraction
    v = Fraction(sig) * (Fraction(2) ** ((e or 1) - 16383 - 63))
    return -v if s else v


def enc_x87(src):
    k = src.int(0, 4)
    s = src.draw(2)
    if k == 0:                                     # zero or denormal
        sig, e = src.choice([0, 0, 1, (1 << 63) - 1]), 0
    elif k == 1:                                   # infinity, NaN
        sig, e = (1 << 63) | src.choice([0, 1 << 62]), 0x7fff
    else:
        low = 0
        if k >= 3:
            for _ in range(8):
                low = (low << 8) | src.draw(256)
        sig = (1 << 63) | (low & ((1 << 63) - 1))
        e = 16383 + (src.int(-8, 40) if k < 4 else src.int(-16000, 16000))
    return sig.to_bytes(8, "little") + ((s << 15) | e).to_bytes(2, "little")


def float_pair(src, name):
    if name == "long_double":
        a = enc_x87(src)
        k = src.int(0, 3)
        if k == 0:
            b = a
        elif k == 1:
            b = a[:9] + bytes([a[9] ^ 0x80])
        elif k == 2 and a[7] & 0x80 and (a[8:10] != b"\xff\x7f" and a[8:10] != b"\xff\xff"):
            i = src.draw(63)
            sig = int.from_bytes(a[:8], "little") ^ (1 << i)
            b = sig.to_bytes(8, "little") + a[8:]
        else:
            b = enc_x87(src)
        pads = [bytes(src.draw(256) for _ in range(6)) for _ in range(2)]     # padding must not matter
        return a + pads[0], b + pads[1]
    f, n = ("<f", 4) if name == "float" else ("<d", 8)

    def one():
        k = src.int(0, 2)
        if k == 0:
            v = src.choice(F_SPECIAL)
            return struct.pack(f, v if n == 8 or abs(v) < 3e38 or v != v or v in (float("inf"), float("-inf")) else 1e30)
        if k == 1:
            return struct.pack(f, src.int(-1000, 1000) / src.choice([1, 2, 8, 64]))
        return bytes(src.draw(256) for _ in range(n))
    a = one()
    k = src.int(0, 3)
    if k == 0:
        b = a
    elif k == 1:
        b = a[:-1] + bytes([a[-1] ^ 0x80])
    elif k == 2:
        i = src.draw(8 * n)
        v = int.from_bytes(a, "little") ^ (1 << i)
        b = v.to_bytes(n, "little")
    else:
        b = one()
    return a, b


def str_pair(src):
    def one():
        k = src.weighted([(4, "s"), (1, "l"), (1, "e")])
        n = src.int(0, 8) if k == "s" else src.int(9, 600) if k == "l" else src.int(200, 260)
        if n > 20:
            t = bytes(32 + c % 95 if src.rng is None or True else c for c in pattern(src.draw(1 << 16), n))
        else:
            t = bytes(1 + (src.draw(255) + 96) % 255 for _ in range(n))
        return t
    a = one()
    k = src.int(0, 5)
    if k == 0:
        b = a
    elif k == 1 and a:
        i = src.draw(len(a))
        b = a[:i] + bytes([1 + src.draw(255)]) + a[i + 1:]
    elif k == 2:
        b = a[:src.draw(len(a) + 1)]
    elif k == 3:
        b = a + one()
    elif k == 4 and a:
        b = a[:-1] + bytes([1 + src.draw(255)])
    else:
        b = one()
    return a, b


def shows(name, raw, mode):
    """Predicate on the text in quotes that must give this value; None: not judged."""
    if name in ("char", "u_char"):
        c = raw[0]
        return (lambda t: t == chr(c)) if 32 <= c < 127 else None
    if name in INTS:
        size, sg = INTS[name]
        v = int.from_bytes(raw, "little", signed=sg)
        u = int.from_bytes(raw, "little")
        if name == "pointer":
            return lambda t: (v == 0 and t in ("(nil)", "0", "0x0")) or num(t, 16) == v
        if "128" in name:
            return lambda t: num(t, 16) == u or num(t, 10) == v
        return lambda t: num(t, 10) == v
    if name == "str":
        return (lambda t: t == raw.decode("latin1")) if all(32 <= c < 127 for c in raw) else None
    v = x87(raw) if name == "long_double" else struct.unpack("<f" if name == "float" else "<d", raw)[0]

    def ok(t):
        try:
            got = float(t)
        except ValueError:
            return False
        if v is None or v != v:
            return got != got
        try:
            fv = float(v)
        except OverflowError:
            return got == (float("inf") if v > 0 else float("-inf")) or len(t) > 300
        if fv in (float("inf"), float("-inf")):
            return got == fv
        return abs(got - fv) <= 1e-5 * max(1.0, abs(fv))
    return ok


def num(t, base):
    try:
        return int(t, base)
    except ValueError:
        return None


def c08(src, ctx):
    cases = []
    for _ in range(src.int(1, 120)):
        name = src.choice(NAMES)
        if name in INTS:
            a, b = int_pair(src, *INTS[name])
        elif name == "str":
            a, b = str_pair(src)
        else:
            a, b = float_pair(src, name)
        mode = 0
        if name not in ("str", "int128", "uint128"):
            mode = src.weighted([(5, 0), (4, 1), (1, 2)])
        pl = src.weighted([(6, "s"), (1, "l"), (1, "e")])
        n = src.int(1, 12) if pl == "s" else src.int(100, 400) if pl == "l" else src.int(0, 3)
        pn = bytes(97 + (i * 7 + n) % 26 for i in range(n))
        if src.bool(1, 6):
            pn = pn[:n // 2] + src.choice([b"%s", b"%n", b"%d%%", b"'"]) + pn[n // 2:]
        cases.append((name, mode, a, b, pn))
    script = "\n".join("%s %d %s %s %s" % (n, m, hx(a), hx(b), hx(p)) for n, m, a, b, p in cases) + "\n"
    lines, rc, err = drive(ctx.shared, script.encode())
    for i, (name, mode, a, b, pn) in enumerate(cases):
        what = "%s(%s, %s) name %r" % (("cmp_", "cmp_deref_ptr_", "EasyMock::cmp ")[mode] + name, a.hex(), b.hex(), pn.decode())
        if i >= len(lines):
            raise Violation("crash", "%s: the program died (%s): %s" % (what, rc, err[:1500]), {})
        w = lines[i].split(" ")
        r, msg, same = int(w[0]), w[1], w[2]
        if name in INTS or name == "str":
            equal = a == b
        elif name == "long_double":
            x, y = x87(a), x87(b)
            equal = x is not None and y is not None and x == y
        else:
            f = "<f" if name == "float" else "<d"
            equal = struct.unpack(f, a)[0] == struct.unpack(f, b)[0]
        if (r == 0) != equal:
            raise Violation("verdict", "%s returned %d but the values are %s" % (what, r, "equal" if equal else "different"), {})
        if same != "1":
            raise Violation("operands", "%s changed its operands" % what, {})
        ctx.count()
        ctx.label("equal" if equal else "different")
        if equal:
            if mode != 2 and msg != "untouched" or mode == 2 and msg != "-":
                raise Violation("message", "%s: equal, but the message buffer was written: %s" % (what, msg), {})
            continue
        if msg in ("untouched", "unterminated"):
            raise Violation("message", "%s: different, but the message is %s" % (what, msg), {})
        t = bytes.fromhex(msg).decode("latin1") if msg != "-" else ""
        if mode != 2 and len(t) > 255:
            raise Violation("message", "%s: message of %d characters" % (what, len(t)), {})
        ctx.hit((name, mode, a, b, pn))
        full = mode == 2 or len(t) < 255
        p = pn.decode()
        if full or len(p) < 200:
            if p not in t:
                raise Violation("message", "%s: the message does not give the name: %r" % (what, t), {})
        if not full:
            ctx.label("truncated")
            continue
        va, vb = shows(name, a, mode), shows(name, b, mode)
        if va is None or vb is None:
            ctx.label("unprintable")
            continue
        # remove the name, then the two values are the quoted pieces, in order
        rest = t[t.index(p) + len(p):]
        rest = rest[1:] if rest.startswith("'") else rest
        if not two_values(rest, va, vb):
            raise Violation("message", "%s: the message does not show the current and the expected value in this order: %r" % (what, t), {})
    ctx.sample = {"first": [(n, m, a.hex(), b.hex(), p.decode()) for n, m, a, b, p in cases[:4]]}
    if rc != 0:
        raise Violation("crash", "the program ended with %s: %s" % (rc, err[:1500]), {})


def two_values(rest, va, vb):
    """Some piece between quotes satisfies va, and a later one vb."""
    q = [i for i, c in enumerate(rest) if c == "'"]
    for x in range(len(q)):
        for y in range(x + 1, len(q)):
            if va(rest[q[x] + 1:q[y]]):
                for u in range(y + 1, len(q)):
                    for v in range(u + 1, len(q)):
                        if vb(rest[q[u] + 1:q[v]]):
                            return True
                return False if len(q) <= 4 else any(
                    vb(rest[q[u] + 1:q[v]]) and va(rest[q[s] + 1:q[t]])
                    for s in range(len(q)) for t in range(s + 1, len(q)) for u in range(t + 1, len(q)) for v in range(u + 1, len(q)))
    return False


CHECKS = {
    "C08": dict(fn=c08, shared=shared_c08, quick=(2400, 40), thorough=(10 ** 6, 600),
                rule="case = up to 120 calls of a built-in matcher (plain, dereferencing, or the C++ one) under ASan/UBSan on exact-size operands: equal pairs, pairs differing in one bit / one half / one character, special values; compared with equality computed independently from the operand bytes (exact for 80-bit floats), message and buffer inspected; non-trivial = the values differ; distinct by matcher, operands and name"),
    "C20": dict(fn=c20, shared=shared_c20, quick=(2400, 40), thorough=(10 ** 6, 600),
                rule="case = up to 60 sequences of new/init/append/compare/move/free/auto-clean operations over 8 strings, lengths around the inline capacity (256, 64, 16, 1) and far above, compared with Python byte strings under ASan/UBSan, and allocated bytes at the end of each sequence; non-trivial = at least one append and 5 operations; distinct by sequence"),
}
