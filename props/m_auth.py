"""Authentication: OPEN password, HMAC coding, mutual authentication, handshake."""
import hashlib

from pyown.auth import AuthAlgorithm, own_calc_pass
from pyown.auth.hmac import client_hmac, compare_hmac, digits_to_hex, hex_to_digits, server_hmac
from pyown.client import Client, SessionType
from pyown.exceptions import InvalidAuthentication

from props.common import ACK, NACK, DIGITS, gateway, outcome, start, well_formed

M32 = 0xFFFFFFFF
A_ID, B_ID = "736F70653E", "636F70653E"
HEX = "0123456789abcdef"


# ------------------------------------------------------------------ P08
def rol(x, k):
    return ((x << k) | (x >> (32 - k))) & M32


def open_step(x, d):
    """one digit of the nonce, as the protocol defines it, on a 32 bit word"""
    if d == "1":
        return rol(x, 25)
    if d == "2":
        return rol(x, 28)
    if d == "3":
        return rol(x, 29)
    if d == "4":
        return rol(x, 1)
    if d == "5":
        return rol(x, 5)
    if d == "6":
        return rol(x, 12)
    b0, b1, b2, b3 = x & 255, (x >> 8) & 255, (x >> 16) & 255, (x >> 24) & 255
    if d == "7":       # bytes, high to low: b0 b3 b1 b2
        return (b0 << 24) | (b3 << 16) | (b1 << 8) | b2
    if d == "8":       # b1 b0 b2 b3
        return (b1 << 24) | (b0 << 16) | (b2 << 8) | b3
    if d == "9":
        return x ^ M32
    return x


def open_reference(pwd, nonce):
    x = pwd
    for d in nonce:
        x = open_step(x, d)
    return x


def open_password(ctx, n, last):
    """the answer to every nonce of n digits, for every 32 bit password"""
    nonce = ctx.digits("nonce", n - len(last)) + last
    ctx.assume(ctx.any_of([c != "0" for c in nonce]))
    pwd = ctx.int("pwd", 0, M32)
    got = own_calc_pass(pwd, nonce)
    want = open_reference(pwd, nonce)
    ctx.observe("answer", got)
    ctx.check(got == str(want), "the answer is the one the OPEN algorithm defines")
    ctx.reach("open")


def open_long(ctx, n, seed):
    """long nonces with a repeated symbolic digit and a symbolic password"""
    a, b = ctx.digits("a", 1), ctx.digits("b", 1)
    nonce = "".join(a if k == "a" else b if k == "b" else k for k in seed)
    ctx.assume(ctx.any_of([a != "0", b != "0"]))
    pwd = ctx.int("pwd", 0, M32)
    got = own_calc_pass(pwd, nonce)
    ctx.check(got == str(open_reference(pwd, nonce)), "the answer is the one the OPEN algorithm defines")
    ctx.reach("open long")


def open_forms(ctx, n, pn):
    """numbers and digit strings are the same password and nonce"""
    nonce = ctx.digits("nonce", n, first="123456789")
    pwd = ctx.digits("pwd", pn)
    want = own_calc_pass(int(pwd), nonce)
    ctx.check(own_calc_pass(pwd, nonce) == want, "a password string is its number")
    ctx.check(own_calc_pass(int(pwd), int(nonce)) == want, "a nonce number is its digits")
    ctx.check(own_calc_pass("00" + pwd, nonce) == want, "leading zeros of the password do not matter")
    ctx.check(own_calc_pass(pwd, "00" + nonce) == want, "leading zeros of the nonce do not matter")
    ctx.reach("open forms")


def open_wide(ctx):
    """passwords of nine and ten digits, and with many leading zeros"""
    head = ctx.choice("head", ["42949671", "10000000", "1234567", "000000000000012", "00000004294967"])
    pwd = head + ctx.digits("pwd", 2)
    nonce = ctx.digits("nonce", 1, first="123456789")
    want = str(open_reference(int(pwd) & M32, nonce))
    ctx.check(own_calc_pass(pwd, nonce) == want, "the answer is the one the OPEN algorithm defines")
    ctx.check(own_calc_pass(int(pwd), nonce) == want, "also for the number")
    ctx.reach("open wide")


def p08(tier):
    q = tier == "quick"
    for n in (1, 2, 3):
        yield "open_password", {"n": n, "last": ""}
    if not q:
        for d in DIGITS:
            yield "open_password", {"n": 4, "last": d}
    for seed in ("ab0ba0ab9a",) + (() if q else ("00a0b00a0b", "7a8b7a8b79", "123a456b78", "a9a9b9b900", "0a1b2a3b4a")):
        yield "open_long", {"n": len(seed), "seed": seed}
    yield "open_forms", {"n": 1, "pn": 3}
    yield "open_wide", {}
    for seed in ("a" + "0" * 18 + "b", "1" * 16 + "ab" + "0" * 20):
        yield "open_long", {"n": len(seed), "seed": seed}
    yield "open_forms", {"n": 1, "pn": 5}
    if not q:
        yield "open_forms", {"n": 2, "pn": 5}


# ------------------------------------------------------------------ P09
def coding_round(ctx, n):
    h = ctx.text("h", n, HEX)
    d = hex_to_digits(h)
    ctx.check(len(d) == 2 * n, "two digits per hex digit")
    ctx.check(ctx.all_of([ctx.any_of([c == x for x in DIGITS]) for c in d]), "only decimal digits")
    ctx.check(ctx.all_of([int(d[2 * i:2 * i + 2]) == int(h[i], 16) for i in range(n)]), "each pair is the hex digit's value")
    ctx.check(digits_to_hex(d) == h, "decoding gives the hex string back")
    ctx.reach("coded")


def decoding(ctx, n):
    d = ctx.digits("d", n)
    good = ctx.all_of([n % 2 == 0] + [ctx.any_of([d[i] == "0", ctx.all_of([d[i] == "1", d[i + 1] <= "5"])])
                                      for i in range(0, n - 1, 2)])
    try:
        h = digits_to_hex(d)
    except ValueError:
        ctx.reach("not decodable")
        ctx.check(not good, "a valid digit string is decoded")
        return
    ctx.reach("decodable")
    ctx.check(good, "a digit string that encodes nothing is rejected")
    ctx.check(len(h) * 2 == n, "one hex digit per pair")
    ctx.check(hex_to_digits(h) == d, "encoding gives the digits back")


def not_digits(ctx, n):
    """any other character: ValueError, whatever surrounds it"""
    d = ctx.text("d", n)
    if ctx.all_of([ctx.any_of([c == x for x in DIGITS]) for c in d]):
        return
    ctx.reach("not digits")
    try:
        digits_to_hex(d)
    except ValueError:
        return
    ctx.check(False, "a string with anything but digits is rejected")


def upper_case(ctx, n):
    h = ctx.text("h", n, "0123456789ABCDEF")
    ctx.check(hex_to_digits(h) == hex_to_digits(h.lower()), "the case of the hex string does not matter")


def p09(tier):
    for n in (0, 1, 2, 4, 8, 40, 64) if tier == "quick" else (0, 1, 2, 4, 8, 16, 40, 64, 128):
        yield "coding_round", {"n": n}
    for n in range(0, 7 if tier == "quick" else 11):
        yield "decoding", {"n": n}
    for n in (1, 2, 3, 4) if tier == "quick" else range(1, 9):
        yield "not_digits", {"n": n}
    yield "upper_case", {"n": 4}


# ------------------------------------------------------------------ P10
SESSIONS = {"9": SessionType.CommandSession, "1": SessionType.EventSession, "0": SessionType.OldCommandSession}
ALGS = {"1": ("sha1", 20), "2": ("sha256", 32)}


def sha(alg, data):
    return (hashlib.sha1 if alg == "1" else hashlib.sha256)(data)


def undigits(d):
    return digits_to_hex(d)


def digest_functions(ctx, alg, n, pn):
    ra, rb = ctx.text("ra", n, HEX), ctx.text("rb", n, HEX)
    pwd = ctx.text("pwd", pn, "".join(map(chr, range(32, 127))))
    a = AuthAlgorithm.from_string(alg)
    kab = sha(alg, pwd.encode()).hexdigest()
    ctx.check(client_hmac(ra, rb, pwd, hash_algorithm=a) == sha(alg, (ra + rb + A_ID + B_ID + kab).encode()).digest(),
              "the client's proof covers both nonces, both identities and the password")
    ctx.check(server_hmac(ra, rb, pwd, hash_algorithm=a) == sha(alg, (ra + rb + kab).encode()).digest(),
              "the server's proof covers both nonces and the password")
    ctx.reach("digests")


def compare(ctx, n):
    a, b = ctx.bytes("a", n), ctx.bytes("b", n)
    ctx.check(ctx.iff(compare_hmac(a, b), a == b), "digests compare equal exactly when they are")
    ctx.reach("compared")


def hmac_session(ctx, alg, n, pn, reply, session="9"):
    """the whole exchange, the gateway's reply chosen by the solver"""
    ra = ctx.text("ra", n, HEX)
    pwd = ctx.text("pwd", pn, "".join(map(chr, range(33, 127))))
    ctx.set_random("rnd")
    lp = ctx.loop()
    c = Client("127.0.0.1", 20000, pwd, SESSIONS[session], loop=lp)
    log = {"n": 0}

    def on_connect(tr):
        def on_write(data):
            log["n"] += 1
            if log["n"] == 1:
                tr.feed_later(f"*98*{alg}##".encode())
            elif log["n"] == 2:
                tr.feed_later(("*#" + hex_to_digits(ra) + "##").encode())
            elif log["n"] == 3:
                log["proof"] = data
                r = answer(data)
                if r is not None:
                    tr.feed_later(r)
        tr.on_write = on_write
        tr.feed_later(ACK)

    def answer(data):
        size = 2 * ALGS[alg][1]
        text = data.decode()
        ctx.check(len(text) == 2 + 2 * size + 1 + 2 * size + 2, "the client sends its nonce and its proof")
        ctx.check(text[:2] == "*#" and text[2 + 2 * size] == "*" and text[-2:] == "##", "as one message")
        rb = undigits(text[2:2 + 2 * size])
        kab = sha(alg, pwd.encode()).hexdigest()
        proof = sha(alg, (ra + rb + A_ID + B_ID + kab).encode()).hexdigest()
        ctx.check(text[3 + 2 * size:-2] == hex_to_digits(proof), "the client's proof is the specified digest")
        right = sha(alg, (ra + rb + kab).encode()).hexdigest()
        if reply == "right":
            return ("*#" + hex_to_digits(right) + "##").encode()
        if reply == "nack":
            return NACK
        if reply == "ack":
            return ACK
        if reply == "silent":
            return None
        if reply == "own proof":
            return ("*#" + hex_to_digits(proof) + "##").encode()
        if reply == "short":
            k = ctx.choice("cut", [0, 1, size // 2, size - 1])
            return ("*#" + hex_to_digits(right[:k]) + "##").encode()
        if reply == "long":
            return ("*#" + hex_to_digits(right + "0") + "##").encode()
        if reply == "more":
            return ("*#" + hex_to_digits(right) + ctx.choice("tail", ["*", "*" + ctx.digits("t", 1), "#" + ctx.digits("u", 2), "*1*" + ctx.digits("y", 1)]) + "##").encode()
        if reply == "bare":
            return ("*" + ctx.choice("head", ["", "*", "##", "#*", "1#"]) + hex_to_digits(right) + "##").encode()
        if reply == "one digit wrong":
            k = ctx.choice("at", [0, size // 2, size - 1])
            x = ctx.text("x", 1, HEX)
            ctx.assume(x != right[k])
            return ("*#" + hex_to_digits(right[:k] + x + right[k + 1:]) + "##").encode()
        g = ctx.text("guess", size, HEX)
        ctx.assume(g != right)
        return ("*#" + hex_to_digits(g) + "##").encode()

    lp.on_connect = on_connect
    k, v = outcome(lp.drive(c.start()))
    tr = lp.transports[0]
    ctx.check(ctx.same(tr.sent[:2], [f"*99*{session}##".encode(), ACK]), "the algorithm is accepted")
    if reply == "right":
        ctx.check(k == "value", "the right proof authenticates the gateway")
        ctx.check(len(tr.sent) == 4 and tr.sent[3] == ACK, "and is acknowledged")
    else:
        ctx.check(k == "error", "a gateway that does not prove the password is refused")
        ctx.check(isinstance(v, TimeoutError if reply == "silent" else InvalidAuthentication), "with the documented error")
        ctx.check(not any(ctx.same(s, ACK) for s in tr.sent[3:]), "and never acknowledged")
    ctx.reach("hmac " + reply)


def fresh_nonce(ctx, alg, n):
    """two sessions: the client's nonce is new and random in each of them"""
    ra = ctx.text("ra", n, HEX)
    r = ctx.set_random("rnd")
    nonces = []
    for i in range(2):
        lp = ctx.loop()
        c = Client("127.0.0.1", 20000, "12345", SessionType.CommandSession, loop=lp)
        gateway(lp, [ACK, f"*98*{alg}##".encode(), ("*#" + hex_to_digits(ra) + "##").encode()])
        lp.drive(c.start())
        sent = lp.transports[0].sent
        ctx.check(len(sent) == 3, "the client sends its nonce and proof")
        nonces.append(sent[2].decode()[2:2 + 4 * ALGS[alg][1]])
    if len(r) >= 2:
        ctx.check(len(r[0]) >= 16 and len(r[1]) >= 16, "a nonce takes at least sixteen random bytes")
        ctx.assume(r[0] != r[1])
    ctx.check(nonces[0] != nonces[1], "different sessions use different nonces")
    ctx.reach("nonce fresh")


def bad_server_key(ctx, n):
    """the server's nonce is not a digit coded string"""
    d = ctx.digits("d", n)
    good = ctx.all_of([n % 2 == 0] + [ctx.any_of([d[i] == "0", ctx.all_of([d[i] == "1", d[i + 1] <= "5"])])
                                      for i in range(0, n - 1, 2)])
    ctx.assume(not good)
    ctx.set_random("rnd")
    lp = ctx.loop()
    c = Client("127.0.0.1", 20000, "12345", SessionType.CommandSession, loop=lp)
    gateway(lp, [ACK, b"*98*2##", ("*#" + d + "##").encode(), ACK, ACK])
    k, v = outcome(lp.drive(c.start()))
    ctx.check(k == "error" and isinstance(v, InvalidAuthentication), "a malformed server nonce is refused")
    ctx.check(len(lp.transports[0].sent) == 2, "and not answered with a proof")
    ctx.reach("bad nonce")


def server_key_any(ctx, n):
    """any frame in place of the server's nonce"""
    r = well_formed(ctx, n, "r")
    ctx.assume(not ctx.matches(r"\*#(?:0[0-9]|1[0-5])+##", r))
    ctx.set_random("rnd")
    lp = ctx.loop()
    c = Client("127.0.0.1", 20000, "12345", SessionType.CommandSession, loop=lp)
    gateway(lp, [ACK, b"*98*2##", r.encode(), ACK, ACK])
    k, v = outcome(lp.drive(c.start()))
    ctx.check(k == "error" and isinstance(v, InvalidAuthentication), "anything but a coded nonce is refused")
    ctx.check(len(lp.transports[0].sent) == 2, "and not answered with a proof")
    ctx.reach("no nonce")


def p10(tier):
    q = tier == "quick"
    for n in (4, 6, 7) if q else range(3, 10):
        yield "server_key_any", {"n": n}
    for alg in "12":
        yield "digest_functions", {"alg": alg, "n": 8 if q else 40, "pn": 5}
        for reply in ("right", "nack", "ack", "silent", "own proof", "short", "long", "more", "bare", "one digit wrong", "guess"):
            yield "hmac_session", {"alg": alg, "n": 4 if q else 2 * ALGS[alg][1], "pn": 5, "reply": reply}
        for reply, s in (("right", "1"), ("ack", "1"), ("nack", "1"), ("silent", "1"), ("short", "1"), ("guess", "1"), ("right", "0"), ("ack", "0")):
            if not q or alg == "2":
                yield "hmac_session", {"alg": alg, "n": 4, "pn": 5, "reply": reply, "session": s}
        yield "digest_functions", {"alg": alg, "n": 4, "pn": 40}
        for n in (2, 100):
            yield "hmac_session", {"alg": alg, "n": n, "pn": 5, "reply": "right"}
        yield "fresh_nonce", {"alg": alg, "n": 4}
    yield "compare", {"n": 8}
    yield "compare", {"n": 32}
    for n in (1, 2, 3, 4) if q else range(1, 7):
        yield "bad_server_key", {"n": n}


# ------------------------------------------------------------------ P11


def new_client(ctx, session="9", password="12345"):
    lp = ctx.loop()
    return lp, Client("127.0.0.1", 20000, password, SESSIONS[session], loop=lp)


def greeting(ctx, n):
    """any first frame"""
    g = well_formed(ctx, n, "g")
    lp, c = new_client(ctx)
    gateway(lp, [g.encode(), ACK])
    k, v = outcome(lp.drive(c.start()))
    tr = lp.transports[0]
    if g == "*#*1##":
        ctx.check(k == "value", "the handshake goes on after an ACK")
        ctx.check(tr.sent == [b"*99*9##"], "with the session request")
        ctx.reach("greeted")
    else:
        ctx.check(k == "error" and isinstance(v, InvalidAuthentication), "anything but an ACK ends the handshake")
        ctx.check(len(tr.sent) == 0, "before anything is sent")
        ctx.reach("not greeted")


def reply_any(ctx, n, session):
    """any answer to the session request"""
    r = well_formed(ctx, n, "r")
    if n > 6:       # longer nonces are P08's matter
        ctx.assume(not ctx.matches(r"\*#[0-9]*##", r))
    lp, c = new_client(ctx, session)
    gateway(lp, [ACK, r.encode()])
    k, v = outcome(lp.drive(c.start()))
    tr = lp.transports[0]
    ctx.check(tr.sent[0] == f"*99*{session}##".encode(), "the session request names the session")
    if r == "*#*1##":
        ctx.check(k == "value", "an ACK opens the session without a password")
        ctx.check(len(tr.sent) == 1, "nothing else is sent")
        ctx.reach("open session")
    elif ctx.matches(r"\*#[0-9]+##", r):
        ctx.check(k == "error" and isinstance(v, TimeoutError), "without a reply to the password start() times out")
        ctx.check(len(tr.sent) == 2, "the password is sent once")
        if ctx.matches(r"\*#[0-9]*[1-9][0-9]*##", r):
            ctx.check(tr.sent[1] == ("*#" + str(open_reference(12345, r[2:-2])) + "##").encode(),
                      "the password is coded with the nonce of the gateway")
        ctx.reach("nonce")
    elif ctx.matches(r"\*98\*[12]##", r):
        ctx.check(len(tr.sent) == 2 and tr.sent[1] == ACK, "a known algorithm is accepted")
        ctx.check(k == "error" and isinstance(v, TimeoutError), "without a reply start() times out")
        ctx.reach("hmac")
    elif ctx.matches(r"\*98\*[0-9#]*##", r):
        ctx.check(len(tr.sent) == 2 and tr.sent[1] == NACK, "an unknown algorithm is refused")
        ctx.check(k == "error" and isinstance(v, InvalidAuthentication), "with an authentication error")
        ctx.reach("unknown algorithm")
    else:
        ctx.check(k == "error" and isinstance(v, InvalidAuthentication), "any other answer is an authentication error")
        ctx.check(len(tr.sent) == 1, "and nothing else is sent")
        ctx.reach("refused")


def open_reply(ctx, n, pn):
    """any answer to the OPEN password"""
    r = well_formed(ctx, n, "r")
    nonce = ctx.digits("nonce", pn, first="123456789")
    pwd = ctx.digits("pwd", 5)
    lp, c = new_client(ctx, password=pwd)
    gateway(lp, [ACK, ("*#" + nonce + "##").encode(), r.encode()])
    k, v = outcome(lp.drive(c.start()))
    tr = lp.transports[0]
    ctx.check(len(tr.sent) == 2, "the password is sent once")
    ctx.check(tr.sent[1] == ("*#" + str(open_reference(int(pwd), nonce)) + "##").encode(), "coded with the nonce")
    if r == "*#*1##":
        ctx.check(k == "value", "an ACK opens the session")
        ctx.reach("password accepted")
    else:
        ctx.check(k == "error" and isinstance(v, InvalidAuthentication), "anything else refuses it")
        ctx.reach("password refused")


STEPS = {"open": [ACK, b"*#603356072##", ACK], "plain": [ACK, ACK], "hmac": [ACK, b"*98*2##", b"*#0102030405##", ACK]}


def interrupted(ctx, script, session):
    """the gateway falls silent or drops the connection at any step"""
    steps = list(STEPS[script])
    at = ctx.choice("at", range(len(steps)))
    drop = ctx.flag("drop")
    ctx.set_random("rnd")
    lp, c = new_client(ctx, session)
    gateway(lp, steps[:at])
    if drop:
        orig = lp.on_connect

        def on_connect(tr):
            orig(tr)
            lp.call_at(2.5, tr.lose)
        lp.on_connect = on_connect
    k, v = outcome(lp.drive(c.start()))
    ctx.check(k != "pending", "start() does not hang when the gateway stops answering")
    ctx.check(k == "error" and isinstance(v, TimeoutError), "it raises TimeoutError")
    ctx.reach("dropped" if drop else "silent")


def unreachable(ctx):
    lp, c = new_client(ctx)
    lp.connect_error = ctx.choice("err", [ConnectionRefusedError("x"), OSError("y"), TimeoutError("z")])
    k, v = outcome(lp.drive(c.start()))
    ctx.check(k == "error" and isinstance(v, TimeoutError), "an unreachable gateway raises TimeoutError")
    ctx.reach("unreachable")


def p11(tier):
    q = tier == "quick"
    for n in (4, 5, 6) if q else range(3, 9):
        yield "greeting", {"n": n}
    for n in range(3, 9 if q else 11):
        yield "reply_any", {"n": n, "session": "9"}
    for n in (4, 6):
        for s in "10":
            yield "reply_any", {"n": n, "session": s}
    for n in (4, 6) if q else range(3, 9):
        yield "open_reply", {"n": n, "pn": 1}
    if not q:
        yield "open_reply", {"n": 6, "pn": 2}
    for s in STEPS:
        for w in "91":
            yield "interrupted", {"script": s, "session": w}
    yield "unreachable", {}


SPEC = {
    "P08": {"cases": p08, "bounds": "every nonce of 1..3 (thorough 4) digits for every 32 bit password; 10 digit nonces built "
            "from two symbolic digits, of 20 and 38 digits with two free ones; password strings of 3, 5 and up to 17 digits (the last two free) with nonces of 1 (thorough 2) digits",
            "outside": "the all-zero nonce, longer nonces with more free digits, passwords over 32 bits",
            "reach": ["open", "open long", "open forms", "open wide"]},
    "P09": {"cases": p09, "bounds": "every hex string of 0..8, 40 and 64 (thorough 128) digits, every digit string of 0..6 (thorough 10), every ASCII string of 1..4 "
            "(thorough 8) characters that is not all digits",
            "outside": "longer strings", "reach": ["coded", "decodable", "not decodable", "not digits"]},
    "P10": {"cases": p10, "bounds": "symbolic nonces (server nonce 2, 4 or 100, thorough 40/64 hex digits), symbolic 5 (digests also 40) character "
            "password, symbolic random bytes, both algorithms, every kind of session; gateway replies: the right proof, ACK, NACK, silence, the "
            "client's own proof, a prefix or extension of the right one, one wrong digit, another tag or parameter after it, no # or another prefix before it, any other full-length string; any frame of 4, 6 or 7 (thorough 3..9) characters as the server nonce",
            "outside": "other reply shapes", "assumptions": ["SHA-1 and SHA-256 are ideal: equal outputs only for equal "
                                                             "inputs (the hash cores are not encoded)"],
            "reach": ["digests", "hmac right", "hmac guess", "hmac nack", "hmac more", "hmac bare", "no nonce", "bad nonce", "nonce fresh"]},
    "P11": {"cases": p11, "bounds": "any well-formed greeting of 4..6 (thorough 8) characters, any answer of 3..8 (thorough 10) "
            "characters to the session request, any answer of 4 or 6 (thorough 3..8) characters to the OPEN password; silence or loss at "
            "every step of the three handshakes; three session kinds",
            "outside": "longer answers",
            "reach": ["greeted", "not greeted", "open session", "nonce", "hmac", "unknown algorithm", "refused",
                      "password accepted", "password refused", "dropped", "silent", "unreachable"]},
}
