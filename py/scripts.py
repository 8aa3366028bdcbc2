"""C30, C31: the scripts, run in this process with stand-ins for what they would download."""
import base64, contextlib, importlib, io, json, os, re, runpy, shutil, sys, threading, types

from hypothesis import strategies as st

REPO = os.environ.get("TGX_REPO", "/repo")
MB = 1024 * 1024


def run_script(name, argv, modules, cwd, ensure, what):
    """Runs a script as __main__; returns what it prints."""
    path = os.path.join(REPO, "scripts", name)
    out, failed = io.StringIO(), []
    saved = {k: sys.modules.get(k) for k in modules}
    argv0, cwd0, hook0 = sys.argv, os.getcwd(), threading.excepthook
    try:
        sys.modules.update(modules)
        sys.argv = [path] + argv
        threading.excepthook = lambda a: failed.append(f"{a.exc_type.__name__}: {a.exc_value}")
        os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(path, run_name="__main__")
    except SystemExit as e:
        if e.code not in (None, 0):
            failed.append(f"exit {e.code}")
    except Exception as e:
        failed.append(f"{type(e).__name__}: {e}")
    finally:
        os.chdir(cwd0)
        sys.argv, threading.excepthook = argv0, hook0
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    ensure(not failed, f"{name} fails on {what}: {'; '.join(failed)}")
    return out.getvalue()


def fresh(ctx, name):
    p = ctx.path(name)
    shutil.rmtree(p, ignore_errors=True)
    os.makedirs(p)
    return p


# ------------------------------------------------------------------ datagen

BLOBS = [
    re.compile(r"[a-zA-Z0-9+/\n=]{64,}"),
    re.compile(r"(?:\b(?:0x|\\x)?[0-9a-fA-F]{2}(?:,|\b\s*)){8,}"),
    re.compile(r"(?:\\u[0-9a-fA-F]{4}){8,}"),
]
DATA = ["json", "yaml", "toml", "sql", "r", "hcl"]


def content_of(parts):
    """Parts are [kind, number]."""
    out = []
    for kind, n in parts:
        out.append({
            "words": lambda: "let x = foo(bar, baz); " * n,
            "line": lambda: "if a < b: return the value\n" * n,
            "crlf": lambda: "some text, here\r\n" * n,
            "long": lambda: "word and, " * (n * 4) + "\n",
            "base64": lambda: "QUJD+/9=" * (n * 2),
            "hex": lambda: "0x1f, " * n,
            "bytes": lambda: "\\x1f" * n,
            "pairs": lambda: "de ad " * n,
            "escape": lambda: "\\u00e9" * n,
            "digits": lambda: "12 34.5 " * n,
            "arabic": lambda: "٣٤ " * n,
            "chinese": lambda: "中文字符" * n,
            "extension": lambda: "㐀㑁豈" * n,
            "accents": lambda: "éàüñ" * n,
            "kana": lambda: "かなカナ。" * n,
            "emoji": lambda: "😀" * n,
            "controls": lambda: "\x7f\x01\t " * n,
            "symbols": lambda: "{} () [] ;; -> " * n,
        }[kind]())
    return "".join(out)


KINDS = ["words", "line", "line", "line", "crlf", "long", "base64", "hex", "bytes", "pairs", "escape", "digits", "arabic", "chinese", "extension", "accents", "kana", "emoji", "controls", "symbols"]


@st.composite
def datagen_cases(draw):
    plain = st.tuples(st.sampled_from(["line", "words", "crlf", "symbols", "chinese"]), st.integers(1, 6)).map(list)
    part = st.one_of(plain, plain, st.tuples(st.sampled_from(KINDS), st.integers(1, 12)).map(list), st.tuples(st.sampled_from(KINDS), st.integers(12, 45)).map(list))
    meta = st.one_of(st.none(), st.none(), st.none(), st.sampled_from([
        ["size", 15], ["size", 16], ["size", 262144], ["size", 262145], ["avg_line_length", 9.99], ["avg_line_length", 10.0], ["avg_line_length", 100.0], ["avg_line_length", 100.01],
        ["max_line_length", 1000], ["max_line_length", 1001], ["alphanum_fraction", 0.25], ["alphanum_fraction", 0.2499], ["alphanum_fraction", 0.9], ["avg_line_length", 50.0]]))
    sample = st.tuples(st.lists(part, min_size=1, max_size=4), meta, st.booleans()).map(list)
    langs = draw(st.lists(st.sampled_from(["python", "rust", "go", "c-sharp"] + DATA), min_size=1, max_size=3, unique=True))
    quota = st.one_of(st.integers(0, 60), st.integers(60, 4000), st.just(10**6))
    return {
        "stack": [[l, draw(st.lists(sample, max_size=14)), [draw(quota), draw(quota)]] for l in langs],
        "lines": draw(st.sampled_from([0, 0, 0, 200, 700])),
        "chinese": draw(st.one_of(st.none(), st.tuples(st.lists(st.lists(part, max_size=3), max_size=10), st.tuples(quota, quota).map(list)).map(list))),
    }


def sample_of(parts, meta, natural):
    c = content_of(parts)
    lines = c.splitlines() or [""]
    n = len(c)
    s = {
        "content": c,
        "size": len(c.encode()),
        "avg_line_length": sum(map(len, lines)) / len(lines),
        "max_line_length": max(map(len, lines)),
        "alphanum_fraction": sum(x.isalnum() for x in c) / n if n else 0.0,
    }
    if not natural:
        # As if measured elsewhere: nothing but the contents decides.
        s.update(size=max(20, min(s["size"], 250000)), avg_line_length=40.0, max_line_length=120, alphanum_fraction=0.6)
    if meta:
        s[meta[0]] = meta[1]
    return s


def foreign(c):
    return not (ord(c) <= 0x7F or 0x4E00 <= ord(c) <= 0x9FFF or 0x3400 <= ord(c) <= 0x4DBF or 0xF900 <= ord(c) <= 0xFAFF)


def accepted(lang, s):
    c = s["content"]
    n = len(c)
    if not 16 <= s["size"] <= MB / 4:
        return False
    if lang in DATA and c.count("\n") > 512:
        return False
    if s["avg_line_length"] > 100 or s["avg_line_length"] < 10 or s["max_line_length"] > 1000 or s["alphanum_fraction"] < 0.25:
        return False
    if sum(x.isdigit() for x in c) > 0.3 * n:
        return False
    for r in BLOBS:
        m = [x.group(0) for x in r.finditer(c)]
        if any(len(x) > 256 for x in m) or sum(map(len, m)) / n > 0.5:
            return False
    return not sum(map(foreign, c)) / n > 0.2


def expected(contents, train, test):
    out, written = {"train": b"", "test": b""}, 0
    for c in contents:
        split = "test" if written < test else "train" if written < test + train else None
        if split is None:
            break
        b = c.encode() + b"\0"
        out[split] += b
        written += len(b)
    return out


def datagen(case, ctx, ensure):
    base = fresh(ctx, "hub")
    sources, want = {}, {}
    argv, quotas = ["--output", base], []
    drops = 0
    for lang, samples, (train, test) in case["stack"]:
        xs = [sample_of(*s) for s in samples]
        if case["lines"]:
            xs.append(sample_of([["line", case["lines"]]], None, True))
            # Between 257 and 512 lines comment and code disagree.
            xs = [x for x in xs if not 256 < x["content"].count("\n") <= 512]
        sources[("bigcode/the-stack-dedup", f"data/{lang}")] = xs
        ok = [x["content"] for x in xs if accepted(lang, x)]
        drops += len(xs) - len(ok)
        quotas.append(f"{lang}:{train / MB!r},{test / MB!r}")
        for split, b in expected(ok, int(train / MB * MB), int(test / MB * MB)).items():
            want[f"{split}/{lang}.bin"] = b
    argv += ["--the-stack-quotas"] + quotas
    if case["chinese"]:
        texts, (train, test) = case["chinese"]
        texts = [content_of(t) for t in texts]
        sources[("rojas-diego/chinese-markdown", None)] = [{"code": t} for t in texts]
        argv += ["--chinese-markdown-quota", f"{train / MB!r},{test / MB!r}"]
        for split, b in expected(texts, int(train / MB * MB), int(test / MB * MB)).items():
            want[f"{split}/chinese-markdown.bin"] = b

    def load_dataset(name, data_dir=None, split=None, streaming=False):
        ensure(split == "train", f"reads the split {split!r}")
        return iter([dict(x) for x in sources[(name, data_dir)]])

    stub = types.ModuleType("datasets")
    stub.load_dataset = load_dataset
    run_script("datagen.py", argv, {"datasets": stub}, base, ensure, "a dataset")
    got = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            got[os.path.relpath(p, base)] = open(p, "rb").read()
    ensure(sorted(got) == sorted(want), f"datagen.py writes {sorted(got)}, expected {sorted(want)}")
    for f in want:
        ensure(got[f] == want[f], f"datagen.py writes {got[f][:300]!r} ({len(got[f])} bytes) to {f}, expected {want[f][:300]!r} ({len(want[f])} bytes)")
    ctx.nontrivial = drops > 0 and any(want.values())
    ctx.label("some samples are rejected", drops > 0)
    ctx.label("both splits are written", any(want[f] for f in want if f[:2] == "tr") and any(want[f] for f in want if f[:2] == "te"))


# ------------------------------------------------------------------ evaluate, find

PIECES = ["a", "b", "ab", "aba", " ", "\n", "\r\n", "\r", "é", "e\u0301", "好", "中文", "😀", "<s>", "\x7f", "\u2028", "\ufeff", "0", "foo bar", "aaaa", ".", "a.", "(", "[", "*", "\\", "$", "|", "+"]
text_s = st.lists(st.sampled_from(PIECES), max_size=14).map("".join)


@st.composite
def evaluate_cases(draw):
    tokens = draw(st.lists(st.one_of(st.text(alphabet="ab", min_size=2, max_size=4), st.sampled_from(["好", "中文", "é", "foo", "\r\n", " a", "foo bar"])), max_size=60, unique=True))
    return {
        "tokens": [[t, draw(st.integers(-400, 64)) / 64] for t in tokens],
        "specials": draw(st.lists(st.sampled_from(["<s>", "</s>", "a"]), max_size=2, unique=True)),
        "procs": draw(st.lists(st.integers(0, 4), max_size=2)),
        "files": draw(st.lists(st.lists(text_s, min_size=0, max_size=8), min_size=1, max_size=4)),
        "trailing": draw(st.booleans()),
        "lib": draw(st.sampled_from(["tokengeex"] * 4 + ["tiktoken", "tiktoken file", "sentencepiece", "transformers", "tokenizers"])),
        "needle": draw(st.one_of(st.sampled_from(PIECES), st.text(alphabet="ab", min_size=1, max_size=3))),
    }


def evaluate(case, ctx, ensure, module, document, process):
    base = fresh(ctx, "ev")
    os.makedirs(base + "/hub/data/test")
    vocab = [[bytes([i]), -6.0, True] for i in range(256)] + [[t.encode(), s, False] for t, s in case["tokens"]]
    with open(base + "/v.tokens.json", "w", encoding="utf-8", newline="") as f:
        f.write(document(vocab, case["procs"], case["specials"]))
    names = ["rust", "c-sharp", "json", "chinese-markdown"]
    data = {}
    for n, samples in zip(names, case["files"]):
        b = "\0".join(samples).encode() + (b"\0" if case["trailing"] else b"")
        data[n] = b.decode().split("\0")
        with open(f"{base}/hub/data/test/{n}.bin", "wb") as f:
            f.write(b)
    with open(base + "/hub/data/test/notes.txt", "wb") as f:
        f.write(b"ab\0ab")
    lib = case.get("lib", "tokengeex")
    if lib == "tokengeex":
        modules, lang, name = {"tokengeex": module}, lib, base + "/v.tokens.json"
        t = module.Tokenizer.from_file(name)
        v = t.vocab_size()
        ensure(v == len(vocab) + len(case["specials"]), f"vocab_size {v}")
        encode = lambda s: t.encode(s, dropout=0.0)
    else:
        ranks = ranks_of(t.encode() for t, _ in case["tokens"])
        modules = stand_ins({"base": (ranks, case["specials"], 0)}, {base + "/v.model": ranks})
        lang, name, v = lib, base + "/v.model", len(ranks)
        if lib == "tiktoken":
            name, v = "base", len(ranks) + len(case["specials"])
        elif lib == "tiktoken file":
            lang, name = "tiktoken", base + "/v.model:base"
            dump_ranks(ranks, base + "/v.model")
        encode = lambda s: merge_pairs(ranks, s.encode())
    run_script("evaluate.py", ["-l", lang, "-f", name, "-i", base + "/hub/data/test/*.bin", "-o", base + "/out.json"], modules, base, ensure, f"a tokenizer ({lib})")
    got = json.load(open(base + "/out.json"))
    freq, comp, total = [0] * v, {}, 0
    for n, samples in data.items():
        k = c = 0
        for s in samples:
            ids = encode(s)
            k += len(ids)
            c += len(s)
            for i in ids:
                freq[i] += 1
        comp[n] = {"num_tokens": k, "num_chars": c, "chars_per_token": round(c / k, 2) if k else None}
        total += k
    freq.sort(reverse=True)
    size = v // 50
    want = [sum(freq[i * size:(i + 1) * size]) for i in range(50)]
    ensure(got.get("vocab_size") == v, f"evaluate.py reports a vocabulary of {got.get('vocab_size')}, it has {v}")
    g = got.get("compression")
    ensure(isinstance(g, dict) and sorted(g) == sorted(comp), f"evaluate.py reports on {sorted(g)}, expected {sorted(comp)}")
    for n in comp:
        for key, x in comp[n].items():
            if x is not None:
                ensure(g[n].get(key) == x, f"evaluate.py reports {key} {g[n].get(key)} for {n}, expected {x}: {data[n]!r}")
    ensure(got.get("frequency_buckets") == want, f"evaluate.py reports the buckets {got.get('frequency_buckets')}, expected {want}")
    # The search script, over the same files.
    needle = case["needle"]
    out = run_script("find.py", ["test", needle], {}, base, ensure, f"{needle!r}")
    rows = {}
    for line in out.splitlines()[1:]:
        x = [y.strip() for y in line.split("|")]
        if len(x) == 4:
            rows[os.path.basename(x[0])] = (int(x[1]), int(x[2]), x[3])
    occ = hits = count = 0
    exp = {}
    for n, samples in data.items():
        o, h = sum(s.count(needle) for s in samples), sum(needle in s for s in samples)
        occ, hits, count = occ + o, hits + h, count + len(samples)
        if o:
            exp[n + ".bin"] = (o, h, f"{h / len(samples) * 100:.2f}%")
    exp["total"] = (occ, hits, f"{hits / count * 100:.2f}%")
    ensure(rows == exp, f"find.py reports {rows} for {needle!r}, expected {exp}")
    ctx.nontrivial = total > 0 and len(data) > 1
    ctx.label("found", occ > 0)
    ctx.label(f"evaluates {lib}")
    ctx.label("line breaks with carriage returns", any("\r" in s for x in data.values() for s in x))


# ------------------------------------------------------------------ stand-ins for other tokenizer libraries

def ranks_of(tokens):
    """The single bytes, then the tokens."""
    ranks = {bytes([i]): i for i in range(256)}
    for t in tokens:
        ranks.setdefault(t, len(ranks))
    return ranks


def merge_pairs(ranks, b):
    """Byte pair encoding: the adjacent pair of lowest rank is merged first."""
    parts = [b[i:i + 1] for i in range(len(b))]
    while True:
        best = min(((ranks[x + y], i) for i, (x, y) in enumerate(zip(parts, parts[1:])) if x + y in ranks), default=None)
        if best is None:
            return [ranks[p] for p in parts]
        parts[best[1]:best[1] + 2] = [parts[best[1]] + parts[best[1] + 1]]


def dump_ranks(ranks, path):
    with open(path, "wb") as f:
        for t, r in sorted(ranks.items(), key=lambda x: x[1]):
            f.write(base64.b64encode(t) + b" " + str(r).encode() + b"\n")


def read_ranks(path):
    with open(path, "rb") as f:
        rows = [l.split() for l in f.read().splitlines() if l]
    return [(base64.b64decode(t), int(r)) for t, r in rows]


class Obj:
    def __init__(self, *args, **kwargs):
        self.args = args
        self.__dict__.update(kwargs)


class Encoding:
    """tiktoken's Encoding, over whole texts. `gap` unused IDs lie between the tokens and the special tokens."""

    def __init__(self, name, *, pat_str, mergeable_ranks, special_tokens, explicit_n_vocab=None):
        self.name, self._pat_str, self._mergeable_ranks, self._special_tokens = name, pat_str, mergeable_ranks, special_tokens
        self._by_id = {r: t for t, r in mergeable_ranks.items()}
        self._own = dict(mergeable_ranks)
        self.max_token_value = max([*mergeable_ranks.values(), *special_tokens.values()])
        if explicit_n_vocab is not None:
            assert len(mergeable_ranks) + len(special_tokens) == explicit_n_vocab
            assert self.max_token_value == explicit_n_vocab - 1

    n_vocab = property(lambda self: self.max_token_value + 1)
    eot_token = property(lambda self: next(iter(self._special_tokens.values())))
    special_tokens_set = property(lambda self: set(self._special_tokens))

    def encode_ordinary(self, text):
        return merge_pairs(self._own, text.encode())

    def encode_ordinary_batch(self, text, *, num_threads=8):
        return [self.encode_ordinary(t) for t in text]

    def encode(self, text, *, allowed_special=set(), disallowed_special="all"):
        allowed = self._special_tokens if allowed_special == "all" else allowed_special
        bad = set(self._special_tokens) - set(allowed) if disallowed_special == "all" else disallowed_special
        for s in bad:
            if s in text:
                raise ValueError(f"Encountered text corresponding to disallowed special token {s!r}.")
        assert not set(allowed) & {s for s in allowed if s in text}, "the stand-in does not encode special tokens"
        return self.encode_ordinary(text)

    def encode_batch(self, text, *, num_threads=8, allowed_special=set(), disallowed_special="all"):
        return [self.encode(t, allowed_special=allowed_special, disallowed_special=disallowed_special) for t in text]

    def encode_single_token(self, t):
        t = t.encode() if isinstance(t, str) else t
        return self._own[t] if t in self._own else self._special_tokens[t.decode()]

    def decode_single_token_bytes(self, token):
        token = int(token)
        for s, i in self._special_tokens.items():
            if i == token:
                return s.encode()
        return self._by_id[token]

    def decode_bytes(self, tokens):
        return b"".join(map(self.decode_single_token_bytes, tokens))

    def token_byte_values(self):
        return [self._by_id[i] for i in sorted(self._by_id)]

    def is_special_token(self, token):
        return token in self._special_tokens.values()


class Progress:
    def __init__(self, iterable=None, *args, **kwargs):
        self._it = iterable

    def __iter__(self):
        return iter(self._it)

    def __len__(self):
        return len(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def stand_ins(encodings, files, record=None):
    """tiktoken, sentencepiece, transformers, tokenizers and tqdm. `encodings`: what tiktoken knows by name (ranks,
    special tokens, unused IDs); `files`: model files; `record` receives what is trained."""
    m = {n: types.ModuleType(n) for n in ["tiktoken", "tiktoken.load", "sentencepiece", "transformers", "tokenizers", "tqdm"] + ["tokenizers." + x for x in ["models", "trainers", "decoders", "pre_tokenizers"]]}

    def by_name(name):
        if name not in encodings:
            raise KeyError(f"Could not automatically map {name} to a tokeniser.")
        ranks, specials, gap = encodings[name]
        n = max(ranks.values()) + 1 + gap
        return Encoding(name, pat_str="(?s:.+)", mergeable_ranks=dict(ranks), special_tokens={s: n + i for i, s in enumerate(specials)})

    tik = m["tiktoken"]
    tik.Encoding, tik.encoding_for_model, tik.get_encoding, tik.load = Encoding, by_name, by_name, m["tiktoken.load"]
    m["tiktoken.load"].dump_tiktoken_bpe = dump_ranks
    m["tiktoken.load"].load_tiktoken_bpe = lambda path, expected_hash=None: dict(read_ranks(path))

    class Model:
        """Stands for a loaded tokenizer of any of the libraries."""

        def __init__(self, ranks):
            self.ranks = ranks

        vocab_size = property(lambda self: len(self.ranks))

        def encode(self, text, add_special_tokens=True):
            return merge_pairs(self.ranks, text.encode()) + ([0] if add_special_tokens else [])

    class Piece(Model):
        def __init__(self, model_file=None, **kwargs):
            super().__init__(files[model_file])

        vocab_size = get_piece_size = GetPieceSize = __len__ = lambda self: len(self.ranks)

        def EncodeAsIds(self, text, **kwargs):
            return merge_pairs(self.ranks, text.encode())

        encode_as_ids = EncodeAsIds

        def encode(self, text, out_type=int, **kwargs):
            return self.EncodeAsIds(text)

    class Tok(Model):
        def __init__(self, model=None):
            super().__init__(getattr(model, "ranks", {}))
            self.trained = None

        from_file = staticmethod(lambda path: Tok(Obj(ranks=files[path])))

        def get_vocab_size(self, with_added_tokens=True):
            return len(self.ranks)

        def encode(self, text, add_special_tokens=True):
            return Obj(ids=merge_pairs(self.ranks, text.encode()))

        def encode_batch(self, texts, add_special_tokens=True):
            return [self.encode(t) for t in texts]

        def train_from_iterator(self, iterator, trainer=None, length=None):
            self.trained = (list(iterator), trainer.vocab_size)

        def save(self, path, pretty=True):
            record.append((*self.trained, path))

    def train(**kw):
        record.append((list(kw["sentence_iterator"]), kw["vocab_size"], kw["model_prefix"]))

    spm = m["sentencepiece"]
    spm.SentencePieceProcessor = Piece
    spm.SentencePieceTrainer = Obj(Train=train, train=train)
    m["transformers"].AutoTokenizer = Obj(from_pretrained=lambda name, **kw: Model(files[name]))
    tok = m["tokenizers"]
    tok.Tokenizer, tok.models, tok.trainers, tok.decoders, tok.pre_tokenizers = Tok, m["tokenizers.models"], m["tokenizers.trainers"], m["tokenizers.decoders"], m["tokenizers.pre_tokenizers"]
    m["tokenizers.models"].BPE = m["tokenizers.trainers"].BpeTrainer = m["tokenizers.decoders"].ByteLevel = m["tokenizers.pre_tokenizers"].ByteLevel = Obj
    m["tqdm"].tqdm = Progress
    m["tqdm"].trange = lambda *a, **k: Progress(range(*a))
    return m


# ------------------------------------------------------------------ trainbpe, convert

@st.composite
def baseline_cases(draw):
    return {
        "lib": draw(st.sampled_from(["huggingface", "sentencepiece"])),
        "files": draw(st.lists(st.lists(text_s, min_size=0, max_size=8), max_size=4)),
        "trailing": draw(st.booleans()),
        "other": draw(st.booleans()),
        "v": draw(st.integers(1, 70_000)),
        "p": draw(st.one_of(st.none(), st.sampled_from([0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0]), st.integers(0, 100).map(lambda x: x / 100))),
    }


def baseline(case, ctx, ensure):
    base = fresh(ctx, "bpe")
    os.makedirs(base + "/in")
    want = []
    for n, samples in enumerate(case["files"]):
        b = "\0".join(samples).encode() + (b"\0" if case["trailing"] else b"")
        with open(f"{base}/in/{n}.bin", "wb") as f:
            f.write(b)
        s = b.decode().split("\0")
        want.append(s[:int(len(s) * (1.0 if case["p"] is None else case["p"]))])
    if case["other"]:
        with open(base + "/in/notes.txt", "wb") as f:
            f.write(b"not a sample")
    record = []
    argv = ["-l", case["lib"], "-i", base + "/in", "-o", base + "/out", "-v", str(case["v"])]
    if case["p"] is not None:
        argv += ["-p", repr(case["p"])]
    run_script("trainbpe.py", argv, stand_ins({}, {}, record), base, ensure, "sample files")
    ensure(len(record) == 1, f"trainbpe.py saves {len(record)} models")
    got, v, out = record[0]
    ensure(sorted(got) == sorted(x for s in want for x in s), f"trainbpe.py trains on {got!r}, expected {want!r} in some order of the files")
    ensure(v == case["v"] and out == base + "/out", f"trainbpe.py trains {v} tokens into {out}, asked for {case['v']} into {base}/out")
    ctx.nontrivial = sum(map(len, want)) > 1
    ctx.label("only part of the samples", any(len(w) <= len(s) - 1 for w, s in zip(want, case["files"])))


@st.composite
def convert_cases(draw):
    word = st.one_of(st.text(alphabet="ab", min_size=2, max_size=4), st.sampled_from(["好", "中文", "é", "foo", "\r\n", " a", "foo bar", "aaaa", "中"]))
    return {
        "tokens": draw(st.lists(word, max_size=40, unique=True)),
        "shuffle": draw(st.integers(0, 10**6)),
        "specials": draw(st.lists(st.sampled_from(["<|endoftext|>", "<s>", "a"]), max_size=2, unique=True)),
        "gap": draw(st.sampled_from([0, 0, 0, 1, 3])),
        "files": draw(st.lists(st.lists(text_s, min_size=0, max_size=8), min_size=1, max_size=3)),
        # Samples without tokens up to places where batches and chunks may end.
        "long": draw(st.one_of(st.none(), st.none(), st.tuples(st.lists(st.tuples(st.sampled_from([0, 1, 63, 64, 99, 100, 127, 128, 255, 256, 257, 511, 512, 513, 999, 1000, 1023, 1024, 1025]), text_s).map(list), min_size=1, max_size=3), st.integers(0, 2)))),
        "v": draw(st.one_of(st.none(), st.integers(256, 300), st.integers(256, 300))),
    }


def convert(case, ctx, ensure):
    import random
    base = fresh(ctx, "conv")
    os.makedirs(base + "/in")
    # Real vocabularies do not number the single bytes in order.
    order = list(range(256))
    random.Random(case["shuffle"]).shuffle(order)
    ranks = {bytes([b]): i for i, b in enumerate(order)}
    for t in case["tokens"]:
        ranks.setdefault(t.encode(), len(ranks))
    texts = []
    for n, samples in enumerate(case["files"]):
        if case["long"] and n == 0:
            placed, more = dict(case["long"][0]), case["long"][1]
            samples = samples[:2] + [placed.get(i, "~") for i in range(len(samples[:2]), max(placed) + 1 + more)]
        with open(f"{base}/in/{n}.bin", "wb") as f:
            f.write("\0".join(samples).encode())
        texts += samples
    with open(base + "/in/notes.txt", "wb") as f:
        f.write(b"abababab")
    argv = ["-i", "base", "--tiktoken", base + "/out.tiktoken"]
    v = case["v"]
    if v is not None:
        argv += ["-v", str(v), "-f", base + "/in/*.bin"]
    run_script("convert.py", argv, stand_ins({"base": (ranks, case["specials"], case["gap"])}, {}), base, ensure, "a vocabulary")
    rows = read_ranks(base + "/out.tiktoken")
    got = dict(rows)
    ensure(len(got) == len(rows), f"convert.py writes a token twice: {sorted(rows)[:400]}")
    if v is None:
        ensure(got == ranks, f"convert.py changes the vocabulary: {sorted(got.items() ^ ranks.items())[:20]}")
        ctx.nontrivial = len(ranks) > 256
        return
    freq = dict.fromkeys(ranks, 0)
    by_id = {r: t for t, r in ranks.items()}
    for s in texts:
        for i in merge_pairs(ranks, s.encode()):
            freq[by_id[i]] += 1
    size = min(v, len(ranks))
    ensure(sorted(got.values()) == list(range(size)), f"convert.py numbers its tokens {sorted(got.values())}, expected 0 to {size - 1}")
    ensure(set(got) <= set(ranks), f"convert.py writes tokens the vocabulary does not have: {sorted(set(got) - set(ranks))[:20]}")
    for b in range(256):
        ensure(got.get(bytes([b])) == b, f"convert.py gives the byte {b} the rank {got.get(bytes([b]))}")
    kept = [t for t in sorted(got, key=got.get) if len(t) > 1]
    left = [t for t in ranks if t not in got]
    if kept and left:
        k, l = min(kept, key=freq.get), max(left, key=freq.get)
        ensure(freq[k] >= freq[l], f"convert.py keeps {k!r} ({freq[k]} times) and drops {l!r} ({freq[l]} times)")
    for a, b in zip(kept, kept[1:]):
        ensure(freq[a] >= freq[b], f"convert.py ranks {a!r} ({freq[a]} times) before {b!r} ({freq[b]} times)")
    ctx.nontrivial = bool(kept and left and max(map(freq.get, kept)) > 0)
    ctx.label("tokens kept and dropped", bool(kept and left))
    ctx.label("many samples", bool(case["long"]))
    ctx.label("special tokens or unused IDs", bool(case["specials"] or case["gap"]))
