#!/usr/bin/env python3
"""C10, C26, C27, C30, C31: the Python module and scripts, driven by Hypothesis against a reference in Python.

check.py run ID tier | worker ID tier seed w out | replay FILE | probe FILE
"""
import base64, contextlib, copy, json, os, pickle, resource, shutil, signal, subprocess, sys, tempfile, time, unicodedata
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get("TGX_VERIF") or os.path.dirname(HERE)
sys.path.insert(0, HERE)
WORKERS = 8
CASE_S = 40

from hypothesis import HealthCheck, Phase, given, seed as hseed, settings, strategies as st


class Violation(Exception):
    pass


def ensure(c, *msg):
    if not c:
        raise Violation(" ".join(str(m() if callable(m) else m) for m in msg)[:1500])


class Ctx:
    def __init__(self, scratch, listed):
        self.labels, self.known, self.listed, self.scratch, self.nontrivial = Counter(), {}, listed, scratch, False

    def label(self, s, c=True):
        if c:
            self.labels[s] += 1

    def finding(self, key, detail):
        if key not in self.listed:
            raise Violation(f"[{key}] {detail}")
        n, d = self.known.get(key, (0, detail))
        self.known[key] = (n + 1, d)

    def path(self, name):
        return os.path.join(self.scratch, name)


def sut(what, f, *a, raises=()):
    """Calls the module; an exception that is not expected, a panic above all, is a violation."""
    try:
        return f(*a)
    except raises:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, Timeout)):
            raise
        raise Violation(f"{what}{a!r} raised {type(e).__name__}: {e}") from None


class Timeout(BaseException):
    pass


# ------------------------------------------------------------------ reference

NAMES = ["crlf", "nfc", "nfd", "nfkc", "nfkd"]
FORMS = {n: n.upper() for n in NAMES[1:]}


def process(procs, s):
    for p in procs:
        n = NAMES[p]
        s = s.replace("\r\n", "\n") if n == "crlf" else unicodedata.normalize(FORMS[n], s)
    return s


def proc_doc(p):
    return {"type": "crlf"} if p == 0 else {"type": "unicode", "form": NAMES[p]}


def tok_doc(b, score, keep):
    try:
        return {"value": b.decode(), "score": score, "keep": keep}
    except UnicodeDecodeError:
        return {"value": base64.b64encode(b).decode().rstrip("="), "score": score, "keep": keep, "encoded": True}


def document(vocab, procs, specials):
    return json.dumps({"version": "2.0", "special_tokens": specials, "processors": [proc_doc(p) for p in procs], "vocab": [tok_doc(*t) for t in vocab]}, ensure_ascii=False)


class Ref:
    """What the documentation promises, as plainly as possible."""

    def __init__(self, vocab, procs, specials):
        self.vocab, self.procs = vocab, procs
        self.ids = {t[0]: i for i, t in enumerate(vocab)}
        self.max = max((len(t[0]) for t in vocab), default=0)
        self.specials = []
        self.add(specials)

    def add(self, tokens):
        for t in tokens:
            if t not in self.specials:
                self.specials.append(t)

    def size(self):
        return len(self.vocab) + len(self.specials)

    def best(self, b):
        best = [None] * (len(b) + 1)
        best[0] = 0.0
        for e in range(1, len(b) + 1):
            for s in range(max(0, e - self.max), e):
                if best[s] is not None:
                    i = self.ids.get(b[s:e])
                    if i is not None and (best[e] is None or best[s] + self.vocab[i][1] > best[e]):
                        best[e] = best[s] + self.vocab[i][1]
        return best[-1]

    def split(self, text):
        out, plain, at = [], 0, 0
        while at < len(text):
            hit = next((i for i, s in enumerate(self.specials) if s and text.startswith(s, at)), None)
            if hit is None:
                at += 1
            else:
                if plain < at:
                    out.append((text[plain:at], None))
                out.append((self.specials[hit], hit))
                at += len(self.specials[hit])
                plain = at
        if plain < len(text):
            out.append((text[plain:], None))
        return out

    def token(self, i):
        if i < len(self.vocab):
            return self.vocab[i][0]
        i -= len(self.vocab)
        return self.specials[i].encode() if i < len(self.specials) else None

    def decode(self, ids, special):
        out, run = "", b""
        for i in ids:
            if i < len(self.vocab):
                run += self.vocab[i][0]
            elif self.token(i) is None:
                return None
            elif special:
                out += run.decode(errors="replace") + self.specials[i - len(self.vocab)]
                run = b""
            else:
                # An excluded special token still separates.
                out += run.decode(errors="replace")
                run = b""
        return out + run.decode(errors="replace")

    def check_ids(self, what, text, ids, special, dropout):
        """ids encode text: ordinary stretches optimally, special tokens by their own ID."""
        at = 0
        for seg, hit in self.split(text) if special else ([(text, None)] if text else []):
            if hit is not None:
                ensure(at < len(ids) and ids[at] == len(self.vocab) + hit, what, lambda: f"{text!r} gives {ids}: expected the special token {seg!r} in place {at}")
                at += 1
                continue
            b = process(self.procs, seg).encode()
            start, got = at, b""
            while len(got) < len(b):
                ensure(at < len(ids) and ids[at] < len(self.vocab), what, lambda: f"{text!r} gives {ids}, which do not spell {b!r} from place {start}")
                got += self.vocab[ids[at]][0]
                at += 1
            ensure(got == b, what, lambda: f"{text!r} gives {ids}, which spell {got!r} instead of {b!r}")
            if dropout <= 0:
                s = 0.0
                for i in ids[start:at]:
                    s += self.vocab[i][1]
                ensure(abs(s - self.best(b)) <= 1e-9 * max(1.0, abs(s)), what, lambda: f"{text!r} gives {ids} with score {s}, the best is {self.best(b)}")
            if dropout >= 1:
                ensure(all(len(self.vocab[i][0]) == 1 for i in ids[start:at]), what, lambda: f"{text!r} at dropout {dropout} gives {ids}, with longer tokens")
        ensure(at == len(ids), what, lambda: f"{text!r} gives {ids}: {len(ids) - at} too many")

    def encodable(self, text, special, dropout):
        """True, False, or None when it depends on chance."""
        parts = self.split(text) if special else [(text, None)]
        parts = [process(self.procs, s).encode() for s, h in parts if h is None]
        singles = all(bytes([c]) in self.ids for p in parts for c in p)
        if dropout >= 1 or singles:
            return singles
        if all(self.best(p) is not None for p in parts):
            return True if dropout <= 0 else None
        return False


# ------------------------------------------------------------------ generators

PIECES = ["a", "b", "ab", "aa", " ", "\n", "\r", "\r\n", "é", "e\u0301", "好", "\u1100", "\u1161", "가", "ﬁ", "😀", "\0", '"', "\\", "<", ">", "s", "Å", "\u212b", "\ufffd", "\t", "{", "\u0323\u0307"]
piece = st.sampled_from(PIECES)
char = st.characters(exclude_categories=("Cs", "Cn"))
ab = st.text(alphabet="ab", min_size=1, max_size=6)
text_s = st.lists(st.one_of(piece, ab, char, st.sampled_from(["<s>", "</s>", "<eos>", "abab", "aab"])), max_size=10).map("".join)
special_s = st.one_of(st.sampled_from(["<s>", "</s>", "<", "<s", "s>", "<eos>", "a", "ab", "aba", "好", "\n", "\r\n", '"q"', "\\", "\x01", "é", ""]), ab, st.lists(piece, min_size=1, max_size=3).map("".join))
raw = st.lists(st.sampled_from([0x61, 0x62, 0xC3, 0xA9, 0xE5, 0xA5, 0xBD, 0xFF, 0, 0xF0, 0x9F, 0x20]), min_size=1, max_size=4).map(bytes)
tok_s = st.one_of(ab.map(str.encode), st.lists(piece, min_size=1, max_size=3).map(lambda v: "".join(v).encode()), raw, st.binary(min_size=1, max_size=4), st.tuples(piece, st.integers(2, 30)).map(lambda x: (x[0] * x[1]).encode()))
# Short decimals, which every JSON reader gets exactly.
score_s = st.one_of(st.integers(-30_000, 30_000).map(lambda n: n / 1000), st.integers(-640, 0).map(lambda n: n / 64), st.integers(-64, 256).map(lambda n: n / 64), st.integers(-4, 2).map(float))
procs_s = st.one_of(st.just([]), st.lists(st.integers(0, 4), max_size=3))
drop_s = st.one_of(st.just(0.0), st.just(0.0), st.sampled_from([-1.0, 1.0, 2.0, 0.5]), st.floats(0.01, 0.99))


# Names a file may have.
FILES = ["t.json", " t.json", "t.json ", "t", "t.json.gz", "-t", "~t", "$HOME", "%20t.json", "t\n.json", "t.json\n", "\u00e9e\u0301\u597d\U0001f600.json", "*", "#t?x=1", ".t", "t\\.json", "file:t.json", "\ufefft", "T.JSON", "n" * 200, "a/../t.json", ".//t.json"]


@st.composite
def vocabs(draw, complete=None):
    full = draw(st.integers(0, 3)) > 0 if complete is None else complete
    toks = draw(st.lists(st.tuples(tok_s, score_s, st.booleans()), max_size=14))
    out, seen = [], set()
    first = draw(st.booleans())
    base = draw(score_s)
    singles = [(bytes([b]), base, True) for b in range(256)] if full else []
    for t in (singles + toks) if first else (toks + singles):
        if t[0] not in seen:
            seen.add(t[0])
            out.append([t[0].hex(), t[1], t[2]])
    return out


# Cases are JSON: token bytes as hex, and 256 single bytes in a row as {"bytes": score}.
def pack(v):
    out, i = [], 0
    allb = [bytes([b]).hex() for b in range(256)]
    while i < len(v):
        if [t[0] for t in v[i:i + 256]] == allb and all(t[1:] == v[i][1:] for t in v[i:i + 256]):
            out.append({"bytes": v[i][1], "keep": v[i][2]})
            i += 256
        else:
            out.append(v[i])
            i += 1
    return out


def unpack(v):
    out = []
    for t in v:
        if isinstance(t, dict):
            out += [(bytes([b]), t["bytes"], t["keep"]) for b in range(256)]
        else:
            out.append((bytes.fromhex(t[0]), t[1], t[2]))
    return out


# ------------------------------------------------------------------ C10

BYTES = [(bytes([b]), -1.0, True) for b in range(256)]
EXTRA = [("ab".encode(), -0.5, False), ("\r\n".encode(), -0.5, False), ("é".encode(), -0.5, False), ("e\u0301".encode(), -0.5, False), ("ﬁ".encode(), -0.5, False), ("가".encode(), -0.5, False)]
_cache = {}


def module():
    import tokengeex
    return tokengeex


def with_procs(procs):
    k = tuple(procs)
    if k not in _cache:
        _cache[k] = sut("from_str", module().Tokenizer.from_str, document(BYTES + EXTRA, procs, ["<s>"]))
    return _cache[k]


COMPAT = "ﬁﬃ²½①㎏ﾊﾞｶﾞ\u00a0\u2126\u212b\u212aǆﬀſẛẛ\u0323\uf900\ufa10\U0002f800\U0002f868\U0002f9bf\u3300\ufdfa\uff21\u2460"
MARKS = "\u0300\u0301\u0302\u0307\u0323\u0327\u031b\u0345\u0338\u3099\u309a\u05b0\u05bc\u064b\u0651\u093c\u09bc\u0f71\u0f72\u0f74\u1dce\u20d0\U0001d165\U0001d16e\U000110ba\u1a60"
BASES = "aeouAEOUsdSDqvVLlकडയ가각가\u1100\u1161\u11a8\u1112\u1175\u11c2\u11a7\u1160\u115f\uac00\ud7a3\ud788ḍ\u1e0b\u0344\u0958\u0fb9\u2adc\U0001d15f\U0001d1bc\u09c7\u09be\u0dd9\u0dca\u0dcf\u1b05\u1b35\U00011131\U00011127<>=≠≮が゛かﾞ"
uni = st.lists(st.one_of(
    st.sampled_from(BASES), st.sampled_from(MARKS), st.sampled_from(MARKS), st.sampled_from(COMPAT), piece, char,
    st.integers(0xAC00, 0xD7A3).map(chr), st.integers(0x1100, 0x1112).map(chr), st.integers(0x1161, 0x1175).map(chr), st.integers(0x11A7, 0x11C2).map(chr),
    st.integers(0x300, 0x34E).map(chr), st.integers(0xA0, 0x233).map(chr), st.integers(0x1E00, 0x1EFF).map(chr), st.integers(0xF900, 0xFAD9).map(chr), st.integers(0x2F800, 0x2FA1D).map(chr), st.integers(0xFB00, 0xFFDC).map(chr), st.integers(0x1D400, 0x1D7FF).map(chr),
    st.tuples(st.sampled_from(MARKS), st.integers(2, 40)).map(lambda x: x[0] * x[1]),
    st.lists(st.sampled_from(MARKS), min_size=2, max_size=24).map("".join),
    st.sampled_from(["\r\n", "\r\r\n", "\n\r", "\r", "\n", "\r\n\r\n", "\u2028", "\u0085", "\x0b", "\x0c"]),
), max_size=14).map(lambda v: "".join(c for c in "".join(v) if unicodedata.category(c) not in ("Cn", "Cs")))


@st.composite
def c10_cases(draw):
    procs = draw(st.one_of(st.lists(st.integers(0, 4), min_size=1, max_size=1), st.lists(st.integers(0, 4), max_size=4)))
    parts = draw(st.lists(uni, min_size=1, max_size=4))
    form = draw(st.sampled_from([None, None, "NFC", "NFD", "NFKD"]))
    if form:
        parts = [unicodedata.normalize(form, p) for p in parts]
    if draw(st.integers(0, 11)) == 0:
        # One part many times over, so that joins fall on every offset.
        k = draw(st.integers(0, len(parts) - 1))
        parts[k] = {"unit": parts[k], "pre": draw(st.integers(0, 9)), "times": min(draw(st.sampled_from([10, 100, 1000])) + draw(st.integers(0, 30)), 1 + 16000 // (1 + len(parts[k])))}
        if draw(st.integers(0, 23)) == 7:
            if draw(st.booleans()):
                parts[k]["unit"] = draw(st.sampled_from(["\r\n", "e\u0301", "\u1100\u1161\u11a8", "a\u0316\u0301", "\u00e9", "x\r\n"])) * draw(st.integers(1, 3))
                if parts[k]["unit"][-1] == "\n" and draw(st.booleans()):
                    procs = [0] + procs[:1]
            parts[k]["times"] = draw(st.integers(100_000, 240_000)) // (1 + len(parts[k]["unit"]))
    return {"procs": procs, "parts": parts}


def c10(case, ctx):
    t, procs = with_procs(case["procs"]), case["procs"]
    parts = [p if isinstance(p, str) else "x" * p["pre"] + p["unit"] * p["times"] for p in case["parts"]]
    ctx.label("long text", sum(map(len, parts)) > 2000)
    plain = "".join(parts)
    want = process(procs, plain)
    ids = sut("encode_ordinary", t.encode_ordinary, plain, 0.0)
    got = sut("decode", t.decode, ids, True)
    ensure(got == want, f"processors {[NAMES[p] for p in procs]} turn {plain!a} into {got!a}, expected {want!a}")
    # Stretches between special tokens are processed on their own.
    text = "<s>".join(parts)
    want2 = "".join(x if hit is not None else process(procs, x) for x, hit in Ref([], procs, ["<s>"]).split(text))
    ids2 = sut("encode", t.encode, text, 0.0)
    got2 = sut("decode", t.decode, ids2, True)
    ensure(got2 == want2, f"processors {[NAMES[p] for p in procs]} turn {text!a} into {got2!a}, expected {want2!a}")
    # Batches do the same, and decoding never processes.
    b = sut("encode_ordinary_batch", t.encode_ordinary_batch, [plain, text], 0.0)
    ensure(b[0] == ids, f"encode_ordinary_batch of {plain!a} gives {b[0]}, alone {ids}")
    direct = list(plain.encode())
    back = sut("decode", t.decode, direct, True)
    ensure(back == plain, f"decoding the bytes of {plain!a} gives {back!a}")
    # The unprocessed tokenizer leaves the text alone.
    zero = with_procs([])
    back = sut("decode", zero.decode, sut("encode_ordinary", zero.encode_ordinary, plain, 0.0), True)
    ensure(back == plain, f"without processors {plain!a} comes back as {back!a}")
    ctx.nontrivial = want != plain
    ctx.label("several processors", len(procs) > 1)
    ctx.label("processed text differs per stretch", want2.replace("<s>", "") != want)
    for p in procs[:1]:
        ctx.label("first " + NAMES[p])


def c10_table(case, ctx):
    """One block of 256 characters, every form, alone, after a letter and before marks."""
    base = case["block"] * 256
    chars = [chr(c) for c in range(base, min(base + 256, 0x110000)) if unicodedata.category(chr(c)) not in ("Cn", "Cs")]
    for p in range(5):
        t = with_procs([p])
        texts = chars + ["e" + c for c in chars] + [c + "\u0301\u0323" for c in chars] + [c + c for c in chars] + ["\u1100" + c for c in chars] + ["\r" + c for c in chars]
        ids = sut("encode_ordinary_batch", t.encode_ordinary_batch, texts, 0.0)
        got = sut("decode_batch", t.decode_batch, ids, True)
        for x, y in zip(texts, got):
            w = process([p], x)
            ensure(y == w, f"processor {NAMES[p]} turns {x!a} into {y!a}, expected {w!a}")
            if w != x:
                ctx.nontrivial = True


# ------------------------------------------------------------------ C26

idx = st.integers(0, 400)
id_s = st.one_of(idx, idx, st.integers(0, 2**32 - 1))
op_s = st.one_of(
    st.tuples(st.just("encode"), text_s, drop_s),
    st.tuples(st.just("encode_ordinary"), text_s, drop_s),
    st.tuples(st.just("encode_batch"), st.lists(text_s, max_size=5), drop_s),
    st.tuples(st.just("encode_ordinary_batch"), st.lists(text_s, max_size=5), drop_s),
    st.tuples(st.just("decode"), st.lists(id_s, max_size=8), st.booleans()),
    st.tuples(st.just("decode"), st.lists(st.tuples(st.just("mod"), idx), max_size=8), st.booleans()),
    st.tuples(st.just("decode_batch"), st.lists(st.lists(st.one_of(st.tuples(st.just("mod"), idx), st.tuples(st.just("mod"), idx), id_s), max_size=5), max_size=4), st.booleans()),
    st.tuples(st.just("long"), st.lists(st.one_of(piece, ab), min_size=1, max_size=3).map("".join), st.integers(1, 700), st.sampled_from([0.0, 1.0, 2.0]), st.integers(0, 3)),
    st.tuples(st.just("long_decode"), st.lists(st.tuples(st.just("mod"), idx), min_size=1, max_size=4), st.integers(1, 5_000), st.booleans(), st.integers(0, 2)),
    st.tuples(st.just("ids"), st.lists(st.one_of(id_s, st.tuples(st.just("mod"), idx)), max_size=6)),
    st.tuples(st.just("tokens"), st.lists(st.one_of(tok_s, special_s.map(str.encode)), max_size=6).map(lambda v: [b.hex() for b in v])),
    st.tuples(st.just("add"), st.lists(special_s, max_size=3)),
    st.tuples(st.just("prefix"), st.one_of(text_s, st.tuples(st.sampled_from(["\ufeff", " ", "\n", "\0", "\u200b", "\u2028", "\r\n", "e\u0301"]), text_s).map("".join), st.tuples(text_s, st.integers(2, 60)).map(lambda x: x[0] * x[1]))),
    st.tuples(st.just("str")),
    st.tuples(st.just("file"), st.integers(0, len(FILES) - 1)),
    st.tuples(st.just("bad"), st.integers(0, 11), idx),
)


@st.composite
def c26_cases(draw):
    return {"vocab": pack(draw(vocabs())), "procs": draw(procs_s), "specials": draw(st.lists(special_s, max_size=5)), "ops": draw(st.lists(op_s, min_size=1, max_size=8)), "named": draw(st.integers(0, 3)) == 0}


PARAMS = {
    "encode": ["text", "dropout"], "encode_ordinary": ["text", "dropout"], "encode_batch": ["texts", "dropout"], "encode_ordinary_batch": ["texts", "dropout"],
    "decode": ["ids", "include_special_tokens"], "decode_batch": ["ids", "include_special_tokens"],
    "token_to_id": ["token"], "base_token_to_id": ["token"], "special_token_to_id": ["token"],
    "id_to_token": ["id"], "id_to_base_token": ["id"], "id_to_special_token": ["id"], "is_special": ["id"],
    "add_special_tokens": ["tokens"], "save": ["filepath"], "common_prefix_search": ["text"], "from_file": ["filepath"], "from_str": ["s"],
}


class Named:
    """Calls everything with the documented parameter names."""

    def __init__(self, x):
        self._x = x

    def __getattr__(self, name):
        f = getattr(self._x, name)

        def call(*a):
            r = f(**dict(zip(PARAMS[name], a))) if name in PARAMS else f(*a)
            return Named(r) if name.startswith("from_") else r
        return call


def queries(t, r):
    ensure(sut("vocab_size", t.vocab_size) == r.size(), f"vocab_size() is {t.vocab_size()}, expected {r.size()}")
    ensure(sut("base_vocab_size", t.base_vocab_size) == len(r.vocab), f"base_vocab_size() is {t.base_vocab_size()}, expected {len(r.vocab)}")
    ensure(sut("special_vocab_size", t.special_vocab_size) == len(r.specials), f"special_vocab_size() is {t.special_vocab_size()}, expected {len(r.specials)}")
    ensure(sut("special_tokens", t.special_tokens) == r.specials, f"special_tokens() is {t.special_tokens()}, expected {r.specials}")


def one_id(t, r, i):
    n = len(r.vocab)
    base, spec = i < n, n <= i < r.size()
    for what, got, want in [
        ("is_special", sut("is_special", t.is_special, i), spec), ("is_base", sut("is_base", t.is_base, i), base),
        ("id_to_token", sut("id_to_token", t.id_to_token, i), r.token(i)),
        ("id_to_base_token", sut("id_to_base_token", t.id_to_base_token, i), (r.vocab[i][0], r.vocab[i][1]) if base else None),
        ("id_to_special_token", sut("id_to_special_token", t.id_to_special_token, i), r.specials[i - n] if spec else None),
    ]:
        ensure(got == want and type(got) is type(want), f"{what}({i}) is {got!r}, expected {want!r} ({n} base and {len(r.specials)} special tokens)")


def one_token(t, r, b):
    n = len(r.vocab)
    s = None
    with contextlib.suppress(UnicodeDecodeError):
        s = b.decode()
    sid = n + r.specials.index(s) if s in r.specials else None
    bid = r.ids.get(b)
    got = sut("base_token_to_id", t.base_token_to_id, b)
    ensure(got == bid, f"base_token_to_id({b!r}) is {got}, expected {bid}")
    if s is not None:
        got = sut("special_token_to_id", t.special_token_to_id, s)
        ensure(got == sid, f"special_token_to_id({s!r}) is {got}, expected {sid}")
    got = sut("token_to_id", t.token_to_id, b)
    ok = {x for x in (bid, sid) if x is not None} or {None}
    ensure(got in ok, f"token_to_id({b!r}) is {got}, expected {ok}")


def same(a, r, what):
    queries(a, r)
    for i in list(range(min(len(r.vocab), 40))) + list(range(len(r.vocab), r.size() + 2)):
        one_id(a, r, i)


def expect_error(what, f, *a):
    err = module().TokenGeeXError
    try:
        x = f(*a)
    except err:
        return
    except BaseException as e:
        if isinstance(e, Timeout):
            raise
        raise Violation(f"{what} raised {type(e).__name__} instead of TokenGeeXError: {e}") from None
    raise Violation(f"{what} returned {x!r} instead of raising TokenGeeXError")


def encode_one(what, f, r, text, special, dropout, ctx):
    can = r.encodable(text, special, dropout)
    err = module().TokenGeeXError
    if can is False:
        expect_error(f"{what}({text!r}, {dropout})", f, text, dropout)
        ctx.label("no segmentation")
        return None
    try:
        ids = sut(what, f, text, dropout, raises=err if can is None else ())
    except err:
        return None
    r.check_ids(what, text, ids, special, dropout)
    return ids


def bad_document(kind, n, r):
    d = json.loads(document(r.vocab[:300], r.procs, r.specials))
    if kind == 0:
        d.pop("version")
    elif kind == 1:
        d["version"] = ["1.0", "2", "", 2.0, None, "2.0.0", "3.0"][n % 7]
    elif kind == 2:
        d["vocab"].append({"score": 1.0})
    elif kind == 3:
        d["vocab"].append({"value": "zz"})
    elif kind == 4:
        d["vocab"].append({"value": "not base64!!", "score": 1.0, "encoded": True})
    elif kind == 5:
        d["processors"].append([{"type": "nope"}, {}, {"type": "unicode"}, {"type": "unicode", "form": "nfx"}, {"form": "nfc"}, 1, "crlf"][n % 7])
    elif kind == 6:
        d["surprise"] = 1
    elif kind == 7:
        d["vocab"] = [1, None, "x", {"a": 1}][n % 4]
    elif kind == 8:
        d["special_tokens"] = [[1], "x", [None], {"a": "b"}][n % 4]
    elif kind == 9:
        s = json.dumps(d)
        return s[: n % max(1, len(s) - 1)]
    elif kind == 10:
        d["vocab"].append({"value": "zz", "score": ["1", None, [], True][n % 4]})
    else:
        return ["", "null", "[]", "{}", "nonsense", "2.0", '"', "\0"][n % 8]
    return json.dumps(d)


def c26(case, ctx):
    T = module().Tokenizer
    if case.get("named"):
        T = Named(T)
        ctx.label("parameters by name")
    vocab = unpack(case["vocab"])
    r = Ref(vocab, case["procs"], case["specials"])
    t = sut("from_str", T.from_str, document(vocab, case["procs"], r.specials))
    queries(t, r)
    for i in range(len(vocab), r.size() + 1):
        one_id(t, r, i)
    pick = lambda i: i if isinstance(i, int) else (i[1] % r.size() if r.size() else 0)
    done = 0
    for op in case["ops"]:
        op, a = op[0], list(op[1:])
        if op == "long":
            ctx.label("long")
            op = ["encode", "encode_ordinary", "encode_batch", "encode_ordinary_batch"][a[3]]
            x = a[0] * a[1]
            a = [x if a[3] < 2 else ["b", x, "", x], a[2]]
        elif op == "long_decode":
            ctx.label("long")
            op = "decode" if a[3] == 0 else "decode_batch"
            x = a[0] * a[1]
            a = [x if a[3] == 0 else [a[0], x] * a[3], a[2]]
        if op in ("encode", "encode_ordinary"):
            ids = encode_one(op, getattr(t, op), r, a[0], op == "encode", a[1], ctx)
            if ids is not None:
                back = sut("decode", t.decode, ids, True)
                want = "".join(s if h is not None else process(r.procs, s) for s, h in r.split(a[0])) if op == "encode" else process(r.procs, a[0])
                ensure(back == want, f"{op} and decode turn {a[0]!r} into {back!r}, expected {want!r}")
                done += len(ids) > 1
        elif op in ("encode_batch", "encode_ordinary_batch"):
            special, drop = op == "encode_batch", a[1]
            cans = [r.encodable(x, special, drop) for x in a[0]]
            if False in cans:
                expect_error(f"{op}({a[0]!r}, {drop})", getattr(t, op), a[0], drop)
            elif None not in cans:
                out = sut(op, getattr(t, op), a[0], drop)
                ensure(len(out) == len(a[0]), f"{op} of {len(a[0])} texts gives {len(out)} results")
                for x, ids in zip(a[0], out):
                    r.check_ids(op, x, ids, special, drop)
                    if drop <= 0:
                        single = sut("single", getattr(t, op.replace("_batch", "")), x, drop)
                        ensure(single == ids, f"{op} gives {ids} for {x!r}, alone it gives {single}")
                done += len(a[0]) > 1
        elif op == "decode":
            ids = [pick(i) for i in a[0]]
            want = r.decode(ids, a[1])
            if want is None:
                expect_error(f"decode({ids}, {a[1]})", t.decode, ids, a[1])
                ctx.label("decode out of bounds")
            else:
                got = sut("decode", t.decode, ids, a[1])
                ensure(got == want, f"decode({ids}, {a[1]}) is {got!r}, expected {want!r}")
                done += len(ids) > 1
        elif op == "decode_batch":
            rows = [[pick(i) for i in row] for row in a[0]]
            want = [r.decode(x, a[1]) for x in rows]
            if None in want:
                expect_error(f"decode_batch({rows}, {a[1]})", t.decode_batch, rows, a[1])
            else:
                got = sut("decode_batch", t.decode_batch, rows, a[1])
                ensure(got == want, f"decode_batch({rows}, {a[1]}) is {got!r}, expected {want!r}")
        elif op == "ids":
            for i in a[0]:
                one_id(t, r, pick(i))
        elif op == "tokens":
            for h in a[0]:
                one_token(t, r, bytes.fromhex(h))
            for tk in vocab[:3] + vocab[-3:]:
                one_token(t, r, tk[0])
            for s in r.specials:
                one_token(t, r, s.encode())
        elif op == "add":
            sut("add_special_tokens", t.add_special_tokens, a[0])
            r.add(a[0])
            queries(t, r)
        elif op == "prefix":
            b = a[0].encode()
            want = [r.ids[b[:n]] for n in range(1, min(len(b), r.max) + 1) if b[:n] in r.ids]
            got = list(sut("common_prefix_search", t.common_prefix_search, a[0]))
            ensure(got == want, f"common_prefix_search({a[0]!r}) is {got}, expected {want}")
            done += len(want) > 1
        elif op == "str":
            s = sut("to_string", t.to_string)
            t = sut("from_str", T.from_str, s)
            same(t, r, "after a round trip through a string")
        elif op == "file":
            base = ctx.path("files")
            shutil.rmtree(base, ignore_errors=True)
            os.makedirs(base + "/a")
            p = os.path.join(base, FILES[a[0] if a else 0])
            sut("save", t.save, p)
            ensure(os.path.isfile(p), f"save to {p!r} reported success, and there is no such file")
            t = sut("from_file", T.from_file, p)
            os.remove(p)
            ensure([x for _, _, v in os.walk(base) for x in v] == [], f"save to {p!r} and loading it left other files: {list(os.walk(base))}")
            same(t, r, "after a round trip through a file")
        elif op == "bad":
            doc = bad_document(a[0], a[1], r)
            expect_error(f"from_str of a bad document (kind {a[0]}.{a[1]})", T.from_str, doc)
            p = ctx.path("bad.json")
            with open(p, "w") as f:
                f.write(doc)
            expect_error(f"from_file of a bad document (kind {a[0]}.{a[1]})", T.from_file, p)
            os.remove(p)
            expect_error("from_file of a missing file", T.from_file, ctx.path("missing"))
            expect_error("from_file of a folder", T.from_file, ctx.scratch)
        ctx.label(op)
    ctx.nontrivial = done > 0


@st.composite
def c26_edge_cases(draw):
    return {"kind": draw(st.integers(0, 3)), "id": draw(st.one_of(st.integers(-(2**70), -1), st.integers(2**32, 2**70))), "text": draw(text_s), "at": draw(st.integers(0, 20)), "sur": draw(st.integers(0xD800, 0xDFFF)), "n": draw(st.integers(0, 3))}


def c26_edge(case, ctx):
    """Integers that are no 32-bit IDs, and strings that are no Unicode text."""
    t = with_procs([])
    ctx.nontrivial = True
    i = case["id"]
    s = case["text"][: case["at"]] + chr(case["sur"]) + case["text"][case["at"]:]

    def attempt(key, exc, want, f, *a):
        try:
            x = f(*a)
        except module().TokenGeeXError:
            ensure(want is Exception, f"{key}: {a!a} raised TokenGeeXError")
            return
        except exc as e:
            ctx.finding(key, f"{type(e).__name__} for {a!a}")
            return
        except BaseException as e:
            if isinstance(e, Timeout):
                raise
            raise Violation(f"{key}: {a!a} raised {type(e).__name__}: {e}") from None
        ensure(want is not Exception and x == want, f"{key}: {a!a} returned {x!a}")

    if case["kind"] == 0:
        attempt("id-beyond-32-bits", OverflowError, Exception, t.decode, [97] * case["n"] + [i], True)
        attempt("id-beyond-32-bits", OverflowError, Exception, t.decode_batch, [[97]] * case["n"] + [[i]], True)
    elif case["kind"] == 1:
        attempt("id-beyond-32-bits", OverflowError, None, t.id_to_token, i)
        attempt("id-beyond-32-bits", OverflowError, None, t.id_to_base_token, i)
        attempt("id-beyond-32-bits", OverflowError, None, t.id_to_special_token, i)
        attempt("id-beyond-32-bits", OverflowError, False, t.is_special, i)
    elif case["kind"] == 2:
        for f in (t.encode, t.encode_ordinary):
            attempt("lone-surrogate", UnicodeEncodeError, Exception, f, s, 0.0)
        for f in (t.encode_batch, t.encode_ordinary_batch):
            attempt("lone-surrogate", UnicodeEncodeError, Exception, f, ["a"] * case["n"] + [s], 0.0)
    else:
        attempt("lone-surrogate", UnicodeEncodeError, Exception, module().Tokenizer.from_str, s)
        attempt("lone-surrogate", UnicodeEncodeError, None, t.special_token_to_id, s)


# ------------------------------------------------------------------ C27

@st.composite
def c27_cases(draw):
    step = st.one_of(
        st.tuples(st.just("pickle"), st.integers(0, 5)), st.tuples(st.just("copy")), st.tuples(st.just("deepcopy")),
        st.tuples(st.just("add"), st.lists(special_s, min_size=1, max_size=3)),
        st.tuples(st.just("save"), st.integers(0, 8), st.integers(0, 5000)),
        st.tuples(st.just("many"), st.integers(0, 5)),
    )
    return {"vocab": pack(draw(vocabs())), "procs": draw(procs_s), "specials": draw(st.lists(special_s, max_size=4)), "steps": draw(st.lists(step, min_size=1, max_size=7)), "texts": draw(st.lists(text_s, min_size=1, max_size=3))}


def equivalent(t, r, texts, what):
    try:
        same(t, r, what)
        for tk in r.vocab[-4:]:
            one_token(t, r, tk[0])
        for s in r.specials:
            one_token(t, r, s.encode())
        for x in texts:
            for name in ("encode", "encode_ordinary"):
                encode_one(name, getattr(t, name), r, x, name == "encode", 0.0, Ctx("", set()))
    except Violation as e:
        raise Violation(f"{what}: {e}") from None


def c27(case, ctx):
    T = module().Tokenizer
    vocab = unpack(case["vocab"])
    r = Ref(vocab, case["procs"], case["specials"])
    t = sut("from_str", T.from_str, document(vocab, case["procs"], r.specials))
    text0 = sut("to_string", t.to_string)
    others = []  # (tokenizer, specials at the time)
    copied = 0

    def keep(old):
        others.append((old, list(r.specials)))

    def dup(what, f, *a):
        x = sut(what, f, *a)
        ensure(type(x) is T, f"{what} gives a {type(x).__name__}")
        ensure(sut("to_string", x.to_string) == sut("to_string", t.to_string), f"{what}: the documents differ")
        equivalent(x, r, case["texts"], what)
        return x

    for s in case["steps"]:
        op, a = s[0], list(s[1:])
        ctx.label(op)
        if op == "pickle":
            p = a[0]
            x = dup(f"pickling at protocol {p}", lambda: pickle.loads(pickle.dumps(t, p)))
            keep(t)
            t = x
            copied += 1
        elif op == "many":
            x = sut("pickle", lambda: pickle.loads(pickle.dumps({"a": [t, t], "b": (t,)}, a[0])))
            ensure(x["a"][0] is x["a"][1] is x["b"][0], "shared references are pickled apart")
            equivalent(x["a"][0], r, case["texts"], f"pickling in a container at protocol {a[0]}")
        elif op in ("copy", "deepcopy"):
            x = dup(op, getattr(copy, op), t)
            ensure(x is not t, f"{op} gives the same object")
            keep(t)
            t = x
            copied += 1
        elif op == "add":
            sut("add_special_tokens", t.add_special_tokens, a[0])
            r.add(a[0])
        elif op == "save":
            save(t, r, a[0], a[1], case["texts"], ctx)
    # All copies are as they were when they were left.
    for old, specials in others:
        r2 = Ref(vocab, case["procs"], specials)
        equivalent(old, r2, case["texts"], "a tokenizer that was copied, after changing the copy")
    equivalent(t, r, case["texts"], "the last copy")
    ctx.nontrivial = copied > 0 and any(s[0] == "add" for s in case["steps"]) or any(s[0] == "save" for s in case["steps"])
    del text0


def save(t, r, kind, limit, texts, ctx):
    base = ctx.path("save")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    p = {
        0: base + "/a.json", 1: base + "/missing/a.json", 2: base, 3: "", 4: base + "/x\0y", 5: base + "/full", 6: base + "/a.json", 7: base + "/" + "n" * 300, 8: base + "/file/a.json",
    }[kind]
    if kind == 5:
        os.symlink("/dev/full", p)  # Nothing can happen to the device itself.
    if kind == 8:
        open(base + "/file", "w").close()
    if kind == 0 and limit % 3 == 0:
        os.makedirs(base + "/a")
        p = os.path.join(base, FILES[limit // 3 % len(FILES)])
    if kind == 0 and limit % 2:
        with open(p, "w") as f:
            f.write("x" * (limit * 20))  # Something longer to overwrite.
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    failed = None
    try:
        if kind == 6:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        t.save(p)
    except Exception as e:
        failed = e
    except BaseException as e:
        if isinstance(e, Timeout):
            raise
        raise Violation(f"save to {p!r} raised {type(e).__name__}: {e}") from None
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    if failed is not None:
        ensure(kind not in (0,), f"save to {p!r} failed: {failed}")
        ctx.label("save failed")
        return
    ensure(kind in (0, 6) or kind == 5 and not os.path.islink(p), f"save to {p!r} reported success")
    x = sut("from_file after a save that reported success", module().Tokenizer.from_file, p)
    ensure(sut("to_string", x.to_string) == sut("to_string", t.to_string), "the saved document differs")
    equivalent(x, r, texts, "after saving and loading")
    ctx.label("saved")


# ------------------------------------------------------------------ C30

import scripts


def c30_datagen(case, ctx):
    scripts.datagen(case, ctx, ensure)


def c30_evaluate(case, ctx):
    scripts.evaluate(case, ctx, ensure, module(), document, process)


def c31_baseline(case, ctx):
    scripts.baseline(case, ctx, ensure)


def c31_convert(case, ctx):
    scripts.convert(case, ctx, ensure)


# ------------------------------------------------------------------ runner

CHECKS = {
    "C10": [("forms", c10_cases, c10, 16_000, 800_000), ("table", None, c10_table, 0x32, 0x1100)],
    "C26": [("calls", c26_cases, c26, 5_000, 250_000), ("edge", c26_edge_cases, c26_edge, 240, 5_000)],
    "C27": [("copies", c27_cases, c27, 2_400, 120_000)],
    "C30": [("datagen", scripts.datagen_cases, c30_datagen, 2_400, 80_000), ("evaluate", scripts.evaluate_cases, c30_evaluate, 1_600, 60_000)],
    "C31": [("baseline", scripts.baseline_cases, c31_baseline, 2_400, 80_000), ("convert", scripts.convert_cases, c31_convert, 2_400, 80_000)],
}
RULES = {
    "C10": "texts of combining sequences, Hangul, compatibility characters, line breaks and any assigned characters; non-trivial: processing changes the text (table: one of the block's characters changes)",
    "C26": "generated tokenizer documents and call histories; non-trivial: some call handles more than one ID, text or prefix",
    "C30": "generated sources, quotas, sample files and tokenizers; non-trivial: some samples are rejected and some written (evaluate: tokens in more than one file)",
    "C31": "generated sample files, proportions and vocabularies; non-trivial: several samples are trained on (convert: some occurring token is kept and another dropped, or tokens besides the bytes are written)",
    "C27": "generated tokenizers and histories; non-trivial: a copy and an added special token, or a save",
}
ASSUME = {
    "C10": ["only characters assigned in Python's unicodedata " + unicodedata.unidata_version + " (normalisation is stable for them)"],
    "C26": ["scores are multiples of 1/64, so that sums are exact", "the module is compiled from /repo/bindings/python/src without its own build settings"],
    "C30": ["what datasets.load_dataset downloads is replaced by generated samples", "257 to 512 lines in data languages, over 4096 lines elsewhere and infilling data are left open (comment and code disagree, or chance decides)"],
    "C31": ["tiktoken, sentencepiece, tokenizers and tqdm are not installed: stand-ins record what they are given, and tiktoken's encodes by byte pair merging over whole texts", "vocabulary sizes below 256, truncating without files and the unimplemented output formats are left open"],
    "C27": ["scores are multiples of 1/64", "save faults: missing folder, folder, empty and overlong names, NUL, full device, file size limit"],
}


def listed(pid):
    out = {}
    with contextlib.suppress(FileNotFoundError):
        for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
            if l.startswith(f"finding: property={pid} key="):
                k, _, d = l.split(" key=", 1)[1].strip().partition(" ")
                out[k] = d
    return out


def run_case(f, case, ctx):
    def alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(CASE_S)
    try:
        f(case, ctx)
    except Timeout:
        raise Violation(f"does not terminate within {CASE_S} s") from None
    finally:
        signal.alarm(0)


def worker(pid, tier, seed, w, out):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    os.environ.setdefault("RAYON_NUM_THREADS", str([1, 2, 4, 8][w % 4]))
    scratch = tempfile.mkdtemp(prefix=f"tgxpy-{pid}-")
    sys.stderr.flush()
    if not os.environ.get("TGX_NOISY"):
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)  # Panic messages.
    ctx = Ctx(scratch, set(listed(pid)))
    res = {"per": {}, "samples": [], "failure": None, "hashes": []}
    hashes = set()
    try:
        for name, strat, f, quick, thorough in CHECKS[pid]:
            total = thorough if tier == "thorough" else quick
            stat = {"evaluations": 0, "nontrivial": 0}
            res["per"][name] = stat
            last = {}

            def one(case):
                text = json.dumps(case)
                with open(out + ".case", "w") as g:
                    g.write(json.dumps({"check": name, "case": case}))
                ctx.nontrivial = False
                stat["evaluations"] += 1
                try:
                    run_case(f, case, ctx)
                except Violation as e:
                    last["case"], last["msg"] = case, str(e)
                    raise
                if ctx.nontrivial:
                    stat["nontrivial"] += 1
                    hashes.add(hash(text))
                    if len(res["samples"]) < 2 and len(text) < 1500:
                        res["samples"].append({"check": name, "case": case})

            try:
                if strat is None:
                    for i in range(w, total, WORKERS):
                        one({"block": i})
                else:
                    n = max(1, total // WORKERS)

                    @hseed(seed * 1000 + w)
                    @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False, report_multiple_bugs=False)
                    @given(strat())
                    def go(case):
                        one(json.loads(json.dumps(case)))

                    go()
            except Exception:
                if not last:
                    raise
                res["failure"] = {"check": name, **last}
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res.update(labels=dict(ctx.labels), known=ctx.known, hashes=sorted(hashes))
    with open(out, "w") as g:
        json.dump(res, g)


def run(pid, tier):
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    base = tempfile.mkdtemp(prefix=f"tgxpy-{pid}-run-")
    env = dict(os.environ, PYTHONHASHSEED="0", TGX_VERIF=ROOT, TMPDIR=base)
    try:
        return run_in(pid, tier, seed, base, env, start)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run_in(pid, tier, seed, base, env, start):
    ps = []
    for w in range(WORKERS):
        o = os.path.join(base, f"r{w}")
        ps.append((subprocess.Popen([sys.executable, "-B", __file__, "worker", pid, tier, str(seed), str(w), o], env=env, stdin=subprocess.DEVNULL), o))
    failures, errors = [], []
    per, labels, known, samples, hashes = {}, Counter(), {}, [], set()
    live = {id(p): None for p, _ in ps}
    while any(p.poll() is None for p, _ in ps):
        time.sleep(0.05)
        for p, o in ps:
            # A call that never returns to the interpreter.
            with contextlib.suppress(OSError):
                m = os.stat(o + ".case").st_mtime
                if p.poll() is None and time.time() - m > CASE_S + 60:
                    p.kill()
    for p, o in ps:
        if p.returncode != 0 or not os.path.exists(o):
            try:
                c = json.load(open(o + ".case"))
            except Exception:
                errors.append(f"worker ended with {p.returncode}")
                continue
            if p.returncode < 0:
                c["msg"] = f"the interpreter was killed by signal {-p.returncode} (crash, or no result in time)"
                failures.append(c)
            else:
                errors.append(f"worker ended with {p.returncode} in {json.dumps(c)[:500]}")
            continue
        d = json.load(open(o))
        for k, v in d["per"].items():
            e = per.setdefault(k, {"evaluations": 0, "nontrivial": 0})
            for x in v:
                e[x] += v[x]
        labels.update(d["labels"])
        for k, (n, x) in d["known"].items():
            a = known.get(k, (0, x))
            known[k] = (a[0] + n, a[1])
        samples += d["samples"]
        hashes.update(d["hashes"])
        if d["failure"]:
            failures.append(d["failure"])
    del live
    code = violations = 0
    order = [c[0] for c in CHECKS[pid]]
    failures.sort(key=lambda f: (order.index(f["check"]), len(json.dumps(f["case"]))))
    confirmed, notes = None, []
    for f in failures:
        rep = {"property": pid, "check": f["check"], "message": f["msg"], "seed": seed, "tier": tier, "case": f["case"]}
        q = os.path.join(base, "probe.json")
        with open(q, "w") as g:
            json.dump(rep, g)
        ok, msg = probe(q, env)
        if not ok:
            rep["message"] = msg
            confirmed = rep
            break
        # Chance decides: believe what was seen, unless the machine may have caused it.
        if "signal 9" in f["msg"] or "does not terminate" in f["msg"]:
            notes.append(f"note: {f['check']} did not finish once and passed when repeated: {f['msg']}: {json.dumps(f['case'])[:500]}")
            continue
        confirmed = rep
        break
    if confirmed:
        errors = []
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        h = 0xCBF29CE484222325
        for b in json.dumps(confirmed["case"]).encode():
            h = (h ^ b) * 0x100000001B3 % 2**64
        path = os.path.join(ROOT, "replays", f"{pid}-{confirmed['check']}-{h % 2**32:08x}.json")
        with open(path, "w") as g:
            json.dump(confirmed, g, indent=1)
        print(f"check {confirmed['check']} failed (seed {seed}), shrunk to:\n{json.dumps(confirmed['case'])[:1500]}\n{confirmed['message'][:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        code = violations = 1
    for e in notes:
        print(e)
    for e in errors:
        print(f"ERROR property={pid}: {e}")
        code = code or 2
    for k, d in listed(pid).items():
        if k in known:
            print(f"KNOWN-FINDING: property={pid} key={k} {d} ({known[k][0]} cases this run, e.g. {known[k][1][:200]})")
    n = sum(v["evaluations"] for v in per.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": n, "distinct_nontrivial": len(hashes), "rule": RULES[pid], "samples": samples[:8] or ["none non-trivial before the run stopped"], "checks": per, "classes": dict(labels), "unconfirmed": len(notes), "known_findings_seen": {k: {"cases": v[0], "example": v[1]} for k, v in known.items()}},
        "assumptions": ASSUME[pid], "wall_s": round(time.time() - start, 2), "violations": violations,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as g:
        json.dump(ev, g, indent=1)
    print(f"{pid}: {n} cases, {len(hashes)} distinct non-trivial, {time.time() - start:.1f} s, exit {code}")
    return code


def probe(path, env):
    """(passes, message), in a fresh interpreter."""
    p = subprocess.Popen([sys.executable, "-B", __file__, "probe", path], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    try:
        out = p.communicate(timeout=CASE_S + 60)[0].decode(errors="replace").strip()
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return False, "does not terminate"
    if p.returncode == 0:
        return True, ""
    return False, out if p.returncode == 1 else f"the interpreter ended with {p.returncode}: {out}"


def do_probe(path):
    d = json.load(open(path))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    f = next(c[2] for c in CHECKS[d["property"]] if c[0] == d["check"])
    scratch = tempfile.mkdtemp(prefix="tgxpy-probe-")
    try:
        for _ in range(20 if '"encode' in json.dumps(d["case"]) else 2):  # Dropout is random.
            run_case(f, d["case"], Ctx(scratch, set(listed(d["property"]))))
    except Violation as e:
        print(e)
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["run"] and a[1] in CHECKS:
        return run(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if a[:1] == ["worker"]:
        worker(a[1], a[2], int(a[3]), int(a[4]), a[5])
        return 0
    if a[:1] == ["probe"]:
        return do_probe(a[1])
    if a[:1] == ["replay"]:
        ok, msg = probe(a[1], dict(os.environ, TGX_VERIF=ROOT))
        d = json.load(open(a[1]))
        print(f"replay passes: {d['property']} {d['check']}" if ok else f"{msg}\nVIOLATION property={d['property']} replay={a[1]}")
        return 0 if ok else 1
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
