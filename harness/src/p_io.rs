//! C08, C09: saving and loading.
use crate::fw::*;
use crate::gen::*;
use crate::p_core::{ensure, errs};
use crate::refm::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use tokengeex::{Model, ScoredToken, Tokenizer};

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Save {
    vocab: VocabSpec,
    extra: Vec<Tok>,
    specials: Vec<String>,
    procs: Vec<u8>,
    text: Vec<Frag>,
    pretty: bool,
    /// Length of an older file at the same path.
    #[serde(default)]
    older: u32,
}

fn anyscore() -> BoxedStrategy<F> {
    prop_oneof![
        3 => anyfloat(),
        1 => any::<f64>().prop_map(|x| F(if x.is_finite() { x } else { 0.5 })),
        1 => prop::sample::select(vec![0.0, -0.0, 5e-324, -5e-324, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 1e22, -1e-7, 1.0, 123456789012345680.0]).prop_map(F),
    ]
    .boxed()
}

fn odd_special() -> BoxedStrategy<String> {
    prop_oneof![3 => special(), 1 => "\\PC{1,5}", 1 => vec(any::<char>(), 1..4).prop_map(|v| v.into_iter().collect::<String>()), 1 => prop::sample::select(vec!["\"", "\\", "\n", "\u{0}", "\u{1f}", "\u{2028}", "\\u0041", "/", "\u{feff}", "😀"]).prop_map(str::to_string)].boxed()
}

fn save(v: fn() -> BoxedStrategy<VocabSpec>, s: fn() -> BoxedStrategy<F>) -> BoxedStrategy<Save> {
    let raw = (vec(any::<u8>(), 0..8), s(), any::<bool>()).prop_map(|(b, s, k)| Tok { b: B(b), s, k });
    (v(), vec(raw, 0..8), vec(odd_special(), 0..6), procs(), text(), any::<bool>(), prop_oneof![2 => Just(0u32), 1 => 1u32..200_000])
        .prop_map(|(vocab, extra, specials, procs, text, pretty, older)| Save { vocab, extra, specials, procs, text, pretty, older })
        .boxed()
}

fn check_document(doc: &str, v: &[ScoredToken], sp: &[String], procs: &[u8]) -> R {
    let d: Value = serde_json::from_str(doc).map_err(|e| format!("the saved document is not JSON: {e}"))?;
    let o = d.as_object().ok_or("the document is not an object")?;
    ensure!(o.keys().all(|k| ["version", "special_tokens", "processors", "vocab"].contains(&k.as_str())), "unexpected fields in the document: {:?}", o.keys());
    ensure!(d["version"] == "2.0", "version is {}", d["version"]);
    let want: Vec<Value> = sp.iter().map(|s| Value::from(s.as_str())).collect();
    ensure!(d["special_tokens"] == Value::from(want), "special_tokens are {}, expected {sp:?}", d["special_tokens"]);
    let want: Vec<Value> = procs.iter().map(|p| if *p == 0 { serde_json::json!({"type": "crlf"}) } else { serde_json::json!({"type": "unicode", "form": PROC_NAMES[*p as usize]}) }).collect();
    ensure!(d["processors"] == Value::from(want.clone()), "processors are {}, expected {want:?}", d["processors"]);
    let toks = d["vocab"].as_array().ok_or("vocab is not an array")?;
    ensure!(toks.len() == v.len(), "{} tokens in the document, {} in the tokenizer", toks.len(), v.len());
    for (i, (t, w)) in toks.iter().zip(v).enumerate() {
        let o = t.as_object().ok_or("token is not an object")?;
        ensure!(o.keys().all(|k| ["value", "score", "encoded", "keep"].contains(&k.as_str())), "unexpected fields in token {i}: {t}");
        let (value, encoded) = match std::str::from_utf8(&w.value) {
            Ok(s) => (s.to_string(), false),
            Err(_) => (base64_nopad(&w.value), true),
        };
        ensure!(t["value"] == value.as_str(), "token {i} ({:?}) is written as {}, expected {value:?}", show(&w.value), t["value"]);
        ensure!(o.get("encoded").map_or(false, |x| x == true) == encoded, "token {i} ({:?}) is marked encoded={:?}", show(&w.value), o.get("encoded"));
        ensure!(o.get("keep").map_or(false, |x| x == true) == w.keep, "token {i} is marked keep={:?}, it is {}", o.get("keep"), w.keep);
        let s = t["score"].as_f64().ok_or("score is not a number")?;
        ensure!((s - w.score).abs() <= 1e-14 * w.score.abs(), "token {i} has score {s} in the document, {} in the tokenizer", w.score);
    }
    Ok(())
}

fn check_loaded(t: &Tokenizer, v: &[ScoredToken], sp: &[String], procs: &[u8], ctx: &mut Ctx) -> Result<bool, String> {
    let got = t.model().vocab();
    ensure!(got.len() == v.len(), "{} tokens after loading, {} before", got.len(), v.len());
    let mut exact = true;
    for (i, (a, b)) in got.iter().zip(v).enumerate() {
        ensure!(a.value == b.value && a.keep == b.keep, "token {i} is {a:?} after loading, {b:?} before");
        if a.score.to_bits() != b.score.to_bits() {
            exact = false;
            let parsed: f64 = serde_json::from_str(&serde_json::to_string(&b.score).unwrap()).unwrap();
            let detail = || format!("token {:?} saved with score {:?}, loaded with {:?}", show(&b.value), b.score, a.score);
            if parsed.to_bits() == a.score.to_bits() && (a.score.to_bits() as i64).abs_diff(b.score.to_bits() as i64) <= 2 {
                ctx.known_finding("json-float-ulp", detail)?;
            } else {
                return Err(detail());
            }
        }
    }
    ensure!(t.special_tokens() == sp, "special tokens {:?} after loading, {sp:?} before", t.special_tokens());
    let p = serde_json::to_value(t.processors()).unwrap();
    let want = serde_json::to_value(wrap(procs)).unwrap();
    ensure!(p == want, "processors {p} after loading, {want} before");
    Ok(exact)
}

fn c08(c: &Save, ctx: &mut Ctx) -> R {
    let mut v = c.vocab.build_dup();
    v.extend(c.extra.iter().map(Tok::scored));
    let sp = registered(&c.specials);
    let t = sut("Tokenizer::new", || Tokenizer::new(Model::from(v.clone()), wrap(&c.procs), c.specials.iter()))?;
    ctx.label_if(v.iter().any(|t| std::str::from_utf8(&t.value).is_err()), "token that is not UTF-8");
    ctx.label_if(sp.iter().any(|s| s.contains(|c: char| c == '"' || c == '\\' || c < ' ')), "special token needing escapes");
    ctx.nontrivial_if(!v.is_empty() && (!sp.is_empty() || !c.procs.is_empty()));
    let doc = if c.pretty {
        let f = ctx.scratch.join("save.json");
        let f = f.to_str().unwrap();
        let _ = std::fs::remove_file(f);
        if c.older > 0 {
            std::fs::write(f, "{".repeat(c.older as usize)).unwrap();
            ctx.label("saved over an older file");
        }
        sut("save", || t.save(f).map_err(|e| e.to_string()))?.map_err(|e| format!("save failed: {e}"))?;
        std::fs::read_to_string(f).map_err(|e| format!("the saved file cannot be read as text: {e}"))?
    } else {
        sut("to_string", || t.to_string())?
    };
    check_document(&doc, &v, &sp, &c.procs)?;
    let f = ctx.scratch.join("load.json");
    std::fs::write(&f, &doc).unwrap();
    let a = sut("from_str", || doc.parse::<Tokenizer>())?.map_err(|e| format!("from_str rejects a saved document: {}", errs(&e)))?;
    let b = sut("from_file", || Tokenizer::from_file(f.to_str().unwrap()))?.map_err(|e| format!("from_file rejects a saved document: {}", errs(&e)))?;
    let exact = check_loaded(&a, &v, &sp, &c.procs, ctx)?;
    check_loaded(&b, &v, &sp, &c.procs, ctx)?;
    // A document written from a loaded tokenizer is the same one.
    let again = sut("to_string", || a.to_string())?;
    if exact {
        let first = sut("to_string", || t.to_string())?;
        ensure!(again == first, "saving the loaded tokenizer gives another document");
        let text = resolve(&c.text, &c.vocab.toks, &sp);
        for p in [0.0, 1.0] {
            let x = sut("encode", || t.encode(&text, p))?;
            for u in [&a, &b] {
                let y = sut("encode", || u.encode(&text, p))?;
                ensure!(x.as_ref().map_err(errs) == y.as_ref().map_err(errs), "{text:?} encodes to {x:?} before saving and {y:?} after");
            }
            if let Ok(ids) = x {
                let (d, e) = (t.decode(&ids, true), a.decode(&ids, true));
                ensure!(d.as_ref().ok() == e.as_ref().ok(), "{ids:?} decodes to {d:?} before saving and {e:?} after");
            }
        }
    }
    Ok(())
}

fn c08_big(c: &(u64, Vec<String>), ctx: &mut Ctx) -> R {
    let mut v = big_vocab(66_000, c.0);
    let mut m = Mix(c.0);
    for _ in 0..200 {
        let n = 1 + m.below(400) as usize;
        v.push(ScoredToken::new((0..n).map(|_| m.below(256) as u8).collect(), -(m.below(640) as f64) / 64.0, m.below(2) == 0));
    }
    v.push(ScoredToken::new(vec![b'x'; 40_000], -1.0, true));
    let t = Tokenizer::new(Model::from(v.clone()), wrap(&[0, 3]), c.1.iter());
    let doc = sut("to_string", || t.to_string())?;
    check_document(&doc, &v, &registered(&c.1), &[0, 3])?;
    let a = sut("from_str", || doc.parse::<Tokenizer>())?.map_err(|e| format!("from_str rejects a saved document: {}", errs(&e)))?;
    check_loaded(&a, &v, &registered(&c.1), &[0, 3], ctx)?;
    ctx.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mutation {
    Nothing,
    Version(Option<String>),
    VersionNumber,
    UnknownField,
    UnknownTokenField(u8),
    NoValue(u8),
    NoScore(u8),
    NullScore(u8),
    ScoreText(u8),
    ValueNumber(u8),
    BadBase64(u8, u8),
    ProcType(u8, String),
    ProcForm(u8, String),
    ProcNoForm(u8),
    ProcNoType(u8),
    ProcNotObject(u8),
    SpecialNumber,
    VocabObject,
    TopArray,
    Truncate(u16),
    Trailing(u8),
    Bytes(Vec<(u16, u8)>),
    Nest(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Load {
    vocab: VocabSpec,
    specials: Vec<String>,
    procs: Vec<u8>,
    order: u64,
    escape: bool,
    spaces: bool,
    long: u32,
    mutation: Mutation,
}

fn load() -> BoxedStrategy<Load> {
    let i = || any::<u8>();
    let name = prop_oneof![
        3 => prop::sample::select(vec!["", "CRLF", "lf", "nfx", "nfkx", "NFC", "lowercase", "strip", "crlf ", "unicode ", "Unicode", "null", "nf", "nfcc"]).prop_map(str::to_string),
        1 => "[a-z]{1,6}",
    ];
    let m = prop_oneof![
        6 => Just(Mutation::Nothing),
        2 => prop_oneof![2 => prop::sample::select(vec!["1.0", "2", "2.00", "3.0", "", "2.1", " 2.0", "2.0 ", "v2.0", "20", "02.0"]).prop_map(|s| Mutation::Version(Some(s.to_string()))), 1 => Just(Mutation::Version(None)), 1 => Just(Mutation::VersionNumber)],
        1 => Just(Mutation::UnknownField),
        1 => i().prop_map(Mutation::UnknownTokenField),
        1 => i().prop_map(Mutation::NoValue),
        1 => i().prop_map(Mutation::NoScore),
        1 => i().prop_map(Mutation::NullScore),
        1 => i().prop_map(Mutation::ScoreText),
        1 => i().prop_map(Mutation::ValueNumber),
        2 => (i(), i()).prop_map(|(a, b)| Mutation::BadBase64(a, b)),
        1 => (i(), name.clone()).prop_map(|(a, b)| Mutation::ProcType(a, b)),
        1 => (i(), name).prop_map(|(a, b)| Mutation::ProcForm(a, b)),
        1 => i().prop_map(Mutation::ProcNoForm),
        1 => i().prop_map(Mutation::ProcNoType),
        1 => i().prop_map(Mutation::ProcNotObject),
        1 => Just(Mutation::SpecialNumber),
        1 => Just(Mutation::VocabObject),
        1 => Just(Mutation::TopArray),
        3 => any::<u16>().prop_map(Mutation::Truncate),
        1 => i().prop_map(Mutation::Trailing),
        6 => vec((any::<u16>(), any::<u8>()), 1..6).prop_map(Mutation::Bytes),
        1 => any::<u16>().prop_map(Mutation::Nest),
    ];
    let small = (prop_oneof![Just(0u8), Just(1)], dyadic(), any::<bool>(), vec(tok(dyadic()), 0..6)).prop_map(|(b, s, k, t)| VocabSpec { bytes: b, byte_score: s, byte_keep: k, over: vec![], toks: t, big: None });
    (small, vec(odd_special(), 0..4), procs(), any::<u64>(), any::<bool>(), any::<bool>(), prop_oneof![30 => Just(0u32), 1 => 1000u32..200_000], m)
        .prop_map(|(vocab, specials, procs, order, escape, spaces, long, mutation)| Load { vocab, specials, procs, order, escape, spaces, long, mutation })
        .boxed()
}

/// Names that are no field of a document, nor of a token.
const OTHER_FIELDS: &[&str] = &[
    "id", "scores", "Value", "", "tok", "Version", "model", "special", "vocabs", "_", "_comment", "comment", "$schema", "name", "token", "bytes", "type", "added_tokens", "merges", "special_token", "processor", "normalizer",
    "pre_tokenizer", "freq", "frequency", "logprob", "prob", "rank", "force", "keeps", "Keep", "encoding", "base64", "raw", "metadata", "meta", "description", "created", "date", "format", "x", "__proto__", "unk", "unk_id", "size", "vocab_size",
    "dropout", "VERSION", "value ", " score", "special-tokens", "specialTokens",
];

/// Our own writer: JSON text with fields in any order, optional spaces and escapes in strings.
struct W {
    m: Mix,
    escape: bool,
    spaces: bool,
}
impl W {
    fn gap(&mut self) -> &'static str {
        if self.spaces {
            ["", " ", "\n", "\t  ", "\r\n"][self.m.below(5) as usize]
        } else {
            ""
        }
    }
    fn string(&mut self, s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            let must = c == '"' || c == '\\' || c < ' ';
            if must || (self.escape && self.m.below(3) == 0) {
                let mut b = [0u16; 2];
                match c {
                    '"' if self.m.below(2) == 0 => o.push_str("\\\""),
                    '\\' if self.m.below(2) == 0 => o.push_str("\\\\"),
                    '\n' if self.m.below(2) == 0 => o.push_str("\\n"),
                    '/' => o.push_str("\\/"),
                    _ => {
                        for u in c.encode_utf16(&mut b) {
                            o.push_str(&format!("\\u{u:04x}"));
                        }
                    }
                }
            } else {
                o.push(c);
            }
        }
        o.push('"');
        o
    }
    fn key(&mut self, s: &str) -> String {
        format!("\"{s}\"")
    }
    fn object(&mut self, mut fields: Vec<(String, String)>) -> String {
        for i in (1..fields.len()).rev() {
            let j = self.m.below(i as u64 + 1) as usize;
            fields.swap(i, j);
        }
        let items: Vec<String> = fields
            .iter()
            .map(|(k, v)| {
                let (a, b, c, d) = (self.gap(), self.gap(), self.gap(), self.gap());
                format!("{a}{}{b}:{c}{v}{d}", self.key(k))
            })
            .collect();
        format!("{{{}}}", items.join(","))
    }
    fn array(&mut self, items: Vec<String>) -> String {
        let items: Vec<String> = items.iter().map(|v| format!("{}{v}{}", self.gap(), self.gap())).collect();
        format!("[{}]", items.join(","))
    }
}

enum Verdict {
    Accept,
    Reject(&'static str),
    Either,
}

fn build(c: &Load) -> (Vec<u8>, Verdict, Vec<ScoredToken>) {
    use Mutation::*;
    let mut w = W { m: Mix(c.order), escape: c.escape, spaces: c.spaces };
    let mut v = c.vocab.build_dup();
    if c.long > 0 {
        v.push(ScoredToken::new(vec![b'x'; c.long as usize], -1.0, false));
    }
    let verdict = std::cell::RefCell::new(Verdict::Accept);
    let reject = |why: &'static str| *verdict.borrow_mut() = Verdict::Reject(why);
    let pick = |i: &u8, n: usize| if n == 0 { None } else { Some(*i as usize % n) };
    let target = |i: &u8| pick(i, v.len());
    let mut toks = vec![];
    for (i, t) in v.iter().enumerate() {
        let utf8 = std::str::from_utf8(&t.value).ok();
        let mut f: Vec<(String, String)> = vec![];
        // Encoding a valid string is allowed by the format as well.
        let bad64 = matches!(&c.mutation, BadBase64(x, _) if target(x) == Some(i));
        match utf8 {
            Some(s) if !bad64 && !(w.m.below(9) == 0) => {
                let s = w.string(s);
                f.push(("value".into(), s));
                if w.m.below(6) == 0 {
                    f.push(("encoded".into(), "false".into()));
                }
            }
            _ => {
                let mut e = base64_nopad(&t.value);
                if bad64 {
                    if let BadBase64(_, k) = &c.mutation {
                        let junk = ["!", "*", "-", "_", " ", "é", "\n", "~"][*k as usize % 8];
                        let at = *k as usize % (e.len() + 1);
                        e.insert_str(at, junk);
                        reject("invalid base64");
                    }
                }
                let e = w.string(&e);
                f.push(("value".into(), e));
                f.push(("encoded".into(), "true".into()));
            }
        }
        f.push(("score".into(), serde_json::to_string(&t.score).unwrap()));
        if t.keep {
            f.push(("keep".into(), "true".into()));
        } else if w.m.below(6) == 0 {
            f.push(("keep".into(), "false".into()));
        }
        match &c.mutation {
            UnknownTokenField(x) if target(x) == Some(i) => {
                f.push((OTHER_FIELDS[*x as usize % OTHER_FIELDS.len()].into(), "1".into()));
                reject("unknown token field");
            }
            NoValue(x) if target(x) == Some(i) => {
                f.retain(|(k, _)| k != "value");
                reject("token without value");
            }
            NoScore(x) if target(x) == Some(i) => {
                f.retain(|(k, _)| k != "score");
                reject("token without score");
            }
            NullScore(x) if target(x) == Some(i) => {
                f.retain(|(k, _)| k != "score");
                f.push(("score".into(), "null".into()));
                reject("token with null score");
            }
            ScoreText(x) if target(x) == Some(i) => {
                f.retain(|(k, _)| k != "score");
                f.push(("score".into(), "\"-1.0\"".into()));
                reject("score is text");
            }
            ValueNumber(x) if target(x) == Some(i) => {
                f.retain(|(k, _)| k != "value");
                f.push(("value".into(), "7".into()));
                reject("value is a number");
            }
            _ => {}
        }
        toks.push(w.object(f));
    }
    let mut procs = vec![];
    for (i, p) in c.procs.iter().enumerate() {
        let mut f: Vec<(String, String)> = vec![];
        if *p == 0 {
            f.push(("type".into(), "\"crlf\"".into()));
        } else {
            f.push(("type".into(), "\"unicode\"".into()));
            f.push(("form".into(), format!("\"{}\"", PROC_NAMES[*p as usize])));
        }
        let hit = |x: &u8| pick(x, c.procs.len()) == Some(i);
        let mut whole = None;
        match &c.mutation {
            ProcType(x, s) if hit(x) => {
                f[0].1 = w.string(s);
                if s != "crlf" && s != "unicode" {
                    reject("unknown processor type");
                } else {
                    *verdict.borrow_mut() = Verdict::Either;
                }
            }
            ProcForm(x, s) if hit(x) && *p > 0 => {
                f[1].1 = w.string(s);
                if ["nfc", "nfd", "nfkc", "nfkd"].contains(&s.as_str()) {
                    *verdict.borrow_mut() = Verdict::Either;
                } else {
                    reject("unknown normal form");
                }
            }
            ProcNoForm(x) if hit(x) && *p > 0 => {
                f.remove(1);
                reject("unicode processor without form");
            }
            ProcNoType(x) if hit(x) => {
                f.remove(0);
                reject("processor without type");
            }
            ProcNotObject(x) if hit(x) => {
                whole = Some(["\"crlf\"", "1", "null", "[]"][*x as usize % 4].to_string());
                reject("processor is not an object");
            }
            _ => {}
        }
        procs.push(whole.unwrap_or_else(|| w.object(f)));
    }
    let mut sp: Vec<String> = c.specials.iter().map(|s| w.string(s)).collect();
    if let SpecialNumber = c.mutation {
        sp.push("1".into());
        reject("special token is a number");
    }
    let mut fields = vec![];
    match &c.mutation {
        Version(None) => reject("no version"),
        Version(Some(s)) => {
            let s = w.string(s);
            fields.push(("version".into(), s));
            reject("wrong version");
        }
        VersionNumber => {
            fields.push(("version".into(), "2.0".into()));
            reject("version is a number");
        }
        _ => fields.push(("version".into(), "\"2.0\"".to_string())),
    }
    let s = w.array(sp);
    fields.push(("special_tokens".into(), s));
    let s = w.array(procs);
    fields.push(("processors".into(), s));
    if let VocabObject = c.mutation {
        fields.push(("vocab".into(), "{\"a\":-1.0}".into()));
        reject("vocab is an object");
    } else {
        let s = w.array(toks);
        fields.push(("vocab".into(), s));
    }
    if let UnknownField = c.mutation {
        let name = OTHER_FIELDS[w.m.below(OTHER_FIELDS.len() as u64) as usize];
        fields.push((name.into(), "null".into()));
        reject("unknown field");
    }
    let mut doc = w.object(fields).into_bytes();
    match &c.mutation {
        TopArray => {
            doc = [b"[", &doc[..], b"]"].concat();
            reject("document is an array");
        }
        Truncate(n) => {
            doc.truncate(*n as usize * doc.len() / 65536);
            reject("truncated document");
        }
        Trailing(k) => {
            doc.extend_from_slice([&b"}"[..], b"x", b",", b"{}", b"\0", b"]"][*k as usize % 6]);
            reject("trailing text");
        }
        Bytes(edits) => {
            for (at, b) in edits {
                let n = doc.len();
                let at = *at as usize * n / 65536;
                match b % 4 {
                    0 => doc[at] = *b,
                    1 => doc.insert(at, *b),
                    2 if n > 1 => {
                        doc.remove(at);
                    }
                    _ => doc[at] ^= 1 << (b >> 5),
                }
            }
            *verdict.borrow_mut() = Verdict::Either;
        }
        Nest(n) => {
            let k = *n as usize;
            doc = [vec![b"[{\"a\":"[*n as usize % 6]; k], doc, vec![b']'; k]].concat();
            *verdict.borrow_mut() = Verdict::Either;
        }
        _ => {}
    }
    (doc, verdict.into_inner(), v)
}

fn c09(c: &Load, ctx: &mut Ctx) -> R {
    let (doc, verdict, v) = build(c);
    let f = ctx.scratch.join("doc.json");
    std::fs::write(&f, &doc).unwrap();
    let file = sut("from_file", || Tokenizer::from_file(f.to_str().unwrap()))?;
    let text = std::str::from_utf8(&doc);
    let parsed = match text {
        Ok(t) => Some(sut("from_str", || t.parse::<Tokenizer>())?),
        Err(_) => None,
    };
    let shown = || String::from_utf8_lossy(&doc).chars().take(300).collect::<String>();
    if let Some(p) = &parsed {
        ensure!(p.is_ok() == file.is_ok(), "from_str and from_file disagree on {:?}", shown());
    } else {
        ensure!(file.is_err(), "a file that is not UTF-8 was accepted: {:?}", shown());
        ctx.label("not UTF-8");
    }
    match (&verdict, &file) {
        (Verdict::Accept, Err(e)) => return Err(format!("a valid document is rejected: {}: {:?}", errs(e), shown())),
        (Verdict::Reject(why), Ok(_)) => return Err(format!("accepted although {why}: {:?}", shown())),
        _ => {}
    }
    match &verdict {
        Verdict::Accept => {
            let sp = registered(&c.specials);
            for t in [file.as_ref().ok(), parsed.as_ref().and_then(|p| p.as_ref().ok())].into_iter().flatten() {
                check_loaded(t, &v, &sp, &c.procs, ctx)?;
            }
            ctx.label("accepted");
            ctx.nontrivial_if(!v.is_empty());
        }
        Verdict::Reject(w) => {
            ctx.label(w);
            ctx.nontrivial();
        }
        Verdict::Either => {
            ctx.label(if file.is_ok() { "mutated bytes, accepted" } else { "mutated bytes, rejected" });
            ctx.nontrivial();
        }
    }
    // Whatever was accepted is usable.
    if let Ok(t) = &file {
        let s = sut("to_string", || t.to_string())?;
        let _ = sut("from_str", || s.parse::<Tokenizer>())?;
        let _ = sut("encode", || t.encode("ab é <s>\r\n好", 0.0))?;
        let _ = sut("decode", || t.decode(&[0, 1, 2], true))?;
    }
    Ok(())
}

/// Arbitrary bytes and JSON-like noise.
fn c09_noise(c: &(Vec<String>, Vec<u8>), ctx: &mut Ctx) -> R {
    let mut doc = c.0.concat().into_bytes();
    doc.extend_from_slice(&c.1);
    let f = ctx.scratch.join("noise.json");
    std::fs::write(&f, &doc).unwrap();
    let file = sut("from_file", || Tokenizer::from_file(f.to_str().unwrap()))?;
    ctx.nontrivial_if(doc.len() > 3);
    if let Ok(t) = std::str::from_utf8(&doc) {
        let s = sut("from_str", || t.parse::<Tokenizer>())?;
        ensure!(s.is_ok() == file.is_ok(), "from_str and from_file disagree on {t:?}");
        if s.is_ok() {
            let d: Value = serde_json::from_str(t).map_err(|_| format!("accepted although it is not JSON: {t:?}"))?;
            ensure!(d["version"] == "2.0", "accepted without version 2.0: {t:?}");
        }
    } else {
        ensure!(file.is_err(), "a file that is not UTF-8 was accepted");
    }
    let gone = ctx.scratch.join("missing").join("x.json");
    let r = sut("from_file", || Tokenizer::from_file(gone.to_str().unwrap()))?;
    ensure!(r.is_err(), "loading a missing file succeeds");
    let r = sut("from_file", || Tokenizer::from_file(ctx.scratch.to_str().unwrap()))?;
    ensure!(r.is_err(), "loading a directory succeeds");
    Ok(())
}

fn noise() -> BoxedStrategy<(Vec<String>, Vec<u8>)> {
    let bits = vec![
        "{", "}", "[", "]", ":", ",", "\"version\"", "\"2.0\"", "\"vocab\"", "\"special_tokens\"", "\"processors\"", "\"value\"", "\"score\"", "\"encoded\"", "\"keep\"", "true", "false", "null", "-1.0", "1e999", "\"type\"", "\"crlf\"", "\"unicode\"", "\"form\"", "\"nfc\"",
        "\"a\"", "{\"version\":\"2.0\"", "\"vocab\":[", "{\"value\":\"a\",\"score\":0.5}", "\"\\ud800\"", "\"\\u00", "\u{feff}", " ",
    ];
    (vec(prop::sample::select(bits).prop_map(str::to_string), 0..16), prop_oneof![3 => Just(vec![]), 1 => vec(any::<u8>(), 0..20)]).boxed()
}

pub fn props() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "C08",
            rule: "the vocabulary is not empty and there is a special token or a processor",
            assumptions: &["scores are finite; scores in the exact part are multiples of 1/64", "base64 and the document layout are re-implemented independently; JSON syntax itself is read with serde_json"],
            subs: vec![sub("roundtrip", 16_000, 300_000, || save(any_vocab, dyadic), c08), sub("roundtrip-float", 8_000, 150_000, || save(float_vocab, anyscore), c08), sub("roundtrip-big", 8, 80, || (any::<u64>(), vec(odd_special(), 0..5)).boxed(), c08_big)],
        },
        PropDef {
            id: "C09",
            rule: "a valid document with tokens, or any mutated one (noise: more than three bytes)",
            assumptions: &["no verdict is required for documents the format leaves open: repeated or missing optional fields, padded base64, escaped field names, extra fields inside processors"],
            subs: vec![sub("documents", 48_000, 1_000_000, load, c09), sub("noise", 32_000, 600_000, noise, c09_noise)],
        },
    ]
}
