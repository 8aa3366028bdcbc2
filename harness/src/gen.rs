//! Generated inputs shared by all properties.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::HashSet;
use tokengeex::{CrlfProcessor, Processor, ProcessorWrapper, ScoredToken, UnicodeProcessor};

/// Bytes, written as text when that is unambiguous and as 0x.. otherwise.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct B(pub Vec<u8>);

impl std::fmt::Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", show(&self.0))
    }
}

pub fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) if !s.starts_with("0x") => s.to_string(),
        _ => format!("0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
    }
}

impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&show(&self.0))
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<B, D::Error> {
        let s = String::deserialize(d)?;
        Ok(B(match s.strip_prefix("0x") {
            Some(h) => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect(),
            None => s.into_bytes(),
        }))
    }
}

/// A score, written as text so that replay files hold it exactly.
#[derive(Clone, Copy, PartialEq)]
pub struct F(pub f64);
impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(F).map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tok {
    pub b: B,
    pub s: F,
    #[serde(default)]
    pub k: bool,
}

impl Tok {
    pub fn scored(&self) -> ScoredToken {
        ScoredToken::new(self.b.0.clone(), self.s.0, self.k)
    }
}

/// A vocabulary: single bytes (none, in front, or behind) plus listed tokens.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VocabSpec {
    pub bytes: u8,
    pub byte_score: F,
    pub byte_keep: bool,
    /// Scores of particular bytes.
    pub over: Vec<(u8, F)>,
    pub toks: Vec<Tok>,
    /// More than 65,536 further tokens, derived from this seed.
    #[serde(default)]
    pub big: Option<u64>,
}

impl VocabSpec {
    pub fn complete(&self) -> bool {
        self.bytes != 0
    }
    pub fn build_dup(&self) -> Vec<ScoredToken> {
        let mut singles = vec![];
        if self.bytes != 0 {
            for b in 0..=255u8 {
                let s = self.over.iter().rev().find(|(x, _)| *x == b).map_or(self.byte_score.0, |(_, s)| s.0);
                singles.push(ScoredToken::new(vec![b], s, self.byte_keep));
            }
        }
        let listed = self.toks.iter().map(Tok::scored);
        if self.bytes == 2 {
            listed.chain(singles).collect()
        } else {
            singles.into_iter().chain(listed).collect()
        }
    }
    /// No duplicates and no empty tokens.
    pub fn build(&self) -> Vec<ScoredToken> {
        let mut seen = HashSet::new();
        let big = self.big.map_or(vec![], |seed| {
            let mut v = big_vocab(66_000, seed);
            let mut m = Mix(seed);
            v.iter_mut().for_each(|t| {
                t.score -= m.below(1 << 20) as f64 / (1u64 << 30) as f64;
                t.keep &= seed & 1 == 1;
            });
            v
        });
        self.build_dup().into_iter().chain(big).filter(|t| !t.value.is_empty() && seen.insert(t.value.clone())).collect()
    }
}

pub fn dyadic() -> BoxedStrategy<F> {
    prop_oneof![
        5 => (-640i32..=0).prop_map(|n| F(n as f64 / 64.0)),
        2 => (-64i32..=256).prop_map(|n| F(n as f64 / 64.0)),
        2 => (-4i32..=2).prop_map(|n| F(n as f64)),
        1 => Just(F(0.0)),
    ]
    .boxed()
}

/// The dyadic score `s` in another unit, in which sums of tens of thousands of scores are still exact.
pub fn unit_score(unit: u8, s: F) -> F {
    F(match unit {
        1 => s.0 * 2f64.powi(-40),
        2 => s.0 * 2f64.powi(-300),
        3 => s.0 * 2f64.powi(40),
        4 => s.0 * 2f64.powi(300),
        // Few coarse values, and differences in the eleventh digit.
        5 => {
            let n = (s.0 * 64.0).round();
            -n.rem_euclid(3.0) + n * 2f64.powi(-36)
        }
        _ => s.0,
    })
}
pub fn unit() -> BoxedStrategy<u8> {
    prop_oneof![4 => Just(0u8), 1 => 1u8..5, 2 => Just(5u8)].boxed()
}
/// A vocabulary all of whose (dyadic) scores are in one unit.
pub fn in_units(v: BoxedStrategy<VocabSpec>) -> BoxedStrategy<VocabSpec> {
    (v, unit())
        .prop_map(|(mut v, u)| {
            v.byte_score = unit_score(u, v.byte_score);
            v.over.iter_mut().for_each(|x| x.1 = unit_score(u, x.1));
            v.toks.iter_mut().for_each(|t| t.s = unit_score(u, t.s));
            v
        })
        .boxed()
}

pub fn anyfloat() -> BoxedStrategy<F> {
    prop_oneof![
        4 => (-20.0f64..0.0).prop_map(F),
        2 => (-3.0f64..3.0).prop_map(F),
        1 => (-1e6f64..1e6).prop_map(F),
    ]
    .boxed()
}

/// Rarely treated like other letters or blanks.
pub const ODD: &[&str] = &[
    "\u{85}", "\u{a0}", "\u{3000}", "\u{2028}", "\u{2029}", "\u{200b}", "\u{200c}", "\u{200d}", "\u{feff}", "\u{ad}", "\u{1680}", "\u{2009}", "\u{202f}", "\u{b}", "\u{c}", "\u{1c}", "\u{1f}", "\u{7f}", "\u{80}", "\u{301}", "\u{fe0f}", "\u{1f1e6}\u{1f1fa}", "\u{e000}",
    "\u{10ffff}", "\u{ffff}", "\u{130}", "\u{131}", "\u{df}", "\u{1e9e}", "\u{17f}", "\u{212a}", "\u{660}", "\u{ff11}", "\u{203f}", "\u{2160}", "\u{5d0}", "\u{202e}",
];

const MIXED: &[&str] = &[
    "a", "b", "c", " ", "\n", "\r", "\r\n", "é", "e\u{301}", "好", "大", "\u{1100}", "\u{1161}", "가", "ﬁ", "😀", "\u{0}", "\"", "\\", "<", ">", "s", "Å",
    "\u{212b}", "\u{fffd}", "0", "\t", "\u{7f}", "{", "}", "\u{feff}", "\u{a0}", "\u{2028}", "\u{200d}", "\u{85}",
];
const RAW: &[u8] = &[0x61, 0x62, 0xc3, 0xa9, 0xe5, 0xa5, 0xbd, 0xff, 0x00, 0xf0, 0x9f, 0x98, 0x80, 0x20, 0x0a];

pub fn piece() -> BoxedStrategy<String> {
    prop_oneof![12 => (0..MIXED.len()).prop_map(|i| MIXED[i].to_string()), 1 => odd()].boxed()
}
pub fn odd() -> BoxedStrategy<String> {
    (0..ODD.len()).prop_map(|i| ODD[i].to_string()).boxed()
}

fn ab(n: std::ops::Range<usize>) -> BoxedStrategy<Vec<u8>> {
    vec(prop_oneof![2 => Just(b'a'), 1 => Just(b'b')], n).boxed()
}

/// Bytes of one token, never empty.
pub fn token_bytes() -> BoxedStrategy<B> {
    prop_oneof![
        12 => ab(1..6),
        8 => vec(piece(), 1..4).prop_map(|v| v.concat().into_bytes()),
        8 => vec((0..RAW.len()).prop_map(|i| RAW[i]), 1..5),
        2 => vec(any::<u8>(), 1..6),
        2 => "\\PC{1,5}".prop_map(String::into_bytes),
        2 => (piece(), 2usize..40).prop_map(|(p, n)| p.repeat(n).into_bytes()),
        1 => (piece(), 40usize..700).prop_map(|(p, n)| p.repeat(n).into_bytes()),
    ]
    .prop_map(B)
    .boxed()
}

pub fn tok(score: BoxedStrategy<F>) -> BoxedStrategy<Tok> {
    (token_bytes(), score, prop::bool::weighted(0.2)).prop_map(|(b, s, k)| Tok { b, s, k }).boxed()
}

fn spec(bytes: BoxedStrategy<u8>, score: BoxedStrategy<F>) -> BoxedStrategy<VocabSpec> {
    (bytes, score.clone(), any::<bool>(), vec((prop_oneof![3 => (0..RAW.len()).prop_map(|i| RAW[i]), 1 => any::<u8>()], score.clone()), 0..5), vec(tok(score), 0..24))
        .prop_map(|(bytes, byte_score, byte_keep, over, toks)| VocabSpec { bytes, byte_score, byte_keep, over, toks, big: None })
        .boxed()
}

pub fn complete_vocab() -> BoxedStrategy<VocabSpec> {
    spec(prop_oneof![3 => Just(1u8), 1 => Just(2u8)].boxed(), dyadic())
}
pub fn any_vocab() -> BoxedStrategy<VocabSpec> {
    spec(prop_oneof![2 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)].boxed(), dyadic())
}
pub fn unit_vocab() -> BoxedStrategy<VocabSpec> {
    in_units(any_vocab())
}
pub fn float_vocab() -> BoxedStrategy<VocabSpec> {
    spec(prop_oneof![1 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)].boxed(), anyfloat())
}

/// Texts are lists of fragments, some of them pointing at tokens of the case at hand.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Frag {
    /// The i-th listed token (modulo their number).
    T(u16),
    /// The i-th special token.
    Sp(u16),
    S(String),
    /// A proper prefix of the i-th special token.
    Cut(u16, u8),
    R(String, u16),
    /// The i-th listed token, so many times.
    TR(u16, u16),
}

pub fn frag() -> BoxedStrategy<Frag> {
    prop_oneof![
        4 => (0u16..24).prop_map(Frag::T),
        2 => prop_oneof![6 => 0u16..8, 1 => any::<u16>()].prop_map(Frag::Sp),
        1 => (prop_oneof![6 => 0u16..8, 1 => any::<u16>()], prop_oneof![3 => 0u8..6, 1 => any::<u8>()]).prop_map(|(a, b)| Frag::Cut(a, b)),
        4 => piece().prop_map(Frag::S),
        3 => ab(1..8).prop_map(|v| Frag::S(String::from_utf8(v).unwrap())),
        1 => "\\PC{0,6}".prop_map(Frag::S),
        1 => any::<char>().prop_map(|c| Frag::S(c.to_string())),
        1 => (piece(), prop_oneof![12 => 1u16..30, 1 => 100u16..600]).prop_map(|(s, n)| Frag::R(s, n)),
    ]
    .boxed()
}

pub fn text() -> BoxedStrategy<Vec<Frag>> {
    prop_oneof![1 => vec(frag(), 0..3), 6 => vec(frag(), 0..14)].boxed()
}

pub fn resolve(frags: &[Frag], toks: &[Tok], specials: &[String]) -> String {
    let mut out = vec![];
    for f in frags {
        match f {
            Frag::T(i) if !toks.is_empty() => out.extend_from_slice(&toks[*i as usize % toks.len()].b.0),
            Frag::Sp(i) if !specials.is_empty() => out.extend_from_slice(specials[*i as usize % specials.len()].as_bytes()),
            Frag::Cut(i, n) if !specials.is_empty() => {
                let s = &specials[*i as usize % specials.len()];
                let mut n = (*n as usize).min(s.len());
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                out.extend_from_slice(s[..n].as_bytes())
            }
            Frag::S(s) => out.extend_from_slice(s.as_bytes()),
            Frag::TR(i, n) if !toks.is_empty() => {
                for _ in 0..*n {
                    out.extend_from_slice(&toks[*i as usize % toks.len()].b.0)
                }
            }
            Frag::R(s, n) => out.extend_from_slice(s.repeat(*n as usize).as_bytes()),
            _ => {}
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}

pub fn special() -> BoxedStrategy<String> {
    prop_oneof![
        3 => prop::sample::select(vec!["<s>", "</s>", "<", "<s", "s>", "<eos>", "<<s>>", "a", "ab", "aba", "好", "\n", "\r\n", "é", "\"q\"", "\\", "\u{1}", "<pad>"]).prop_map(str::to_string),
        2 => ab(1..4).prop_map(|v| String::from_utf8(v).unwrap()),
        1 => vec(piece(), 1..3).prop_map(|v| v.concat()),
        1 => "\\PC{1,4}",
        1 => Just(String::new()),
    ]
    .boxed()
}

pub fn specials() -> BoxedStrategy<Vec<String>> {
    prop_oneof![3 => Just(vec![]), 12 => vec(special(), 0..7), 1 => long_specials()].boxed()
}
/// Long special tokens that agree on long stretches at both ends or in the middle.
pub fn long_specials() -> BoxedStrategy<Vec<String>> {
    let mid = vec(prop::sample::select(vec!["a", "b", "é", "<", "_"]), 0..3).prop_map(|v| v.concat());
    (prop::sample::select(vec!["<|x", "ab", "好", "<<", "é-"]), 4usize..90, 0usize..60, vec((mid, 0usize..2, 0usize..2), 2..7))
        .prop_map(|(unit, n, m, mids)| mids.into_iter().map(|(mid, a, b)| format!("{}{mid}{}", unit.repeat(n - a), unit.repeat((m + 1 - b).max(1) - 1))).collect())
        .boxed()
}
/// Hundreds of special tokens, many of them prefixes of others.
pub fn many_specials() -> BoxedStrategy<Vec<String>> {
    (vec(special(), 0..3), 60usize..900, 0u8..3)
        .prop_map(|(front, n, kind)| {
            let mut v = front;
            v.extend((0..n).map(|i| match kind {
                0 => format!("<extra_{i}>"),
                1 => format!("<{i}"),
                _ => format!("{i}|"),
            }));
            v
        })
        .boxed()
}

/// First occurrences only: what a tokenizer is expected to register.
pub fn registered(sp: &[String]) -> Vec<String> {
    let mut seen = HashSet::new();
    sp.iter().filter(|s| seen.insert(s.as_str())).cloned().collect()
}

pub fn procs() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![3 => Just(vec![]), 4 => vec(0u8..5, 0..4)].boxed()
}

pub fn proc_of(i: u8) -> ProcessorWrapper {
    match i {
        0 => CrlfProcessor.into(),
        1 => UnicodeProcessor::Nfc.into(),
        2 => UnicodeProcessor::Nfd.into(),
        3 => UnicodeProcessor::Nfkc.into(),
        _ => UnicodeProcessor::Nfkd.into(),
    }
}
pub const PROC_NAMES: &[&str] = &["crlf", "nfc", "nfd", "nfkc", "nfkd"];

pub fn wrap(p: &[u8]) -> Vec<ProcessorWrapper> {
    p.iter().map(|i| proc_of(*i)).collect()
}

/// The processed form of an ordinary stretch (C10 decides whether each processor is right).
pub fn process(p: &[u8], s: &str) -> String {
    p.iter().fold(s.to_string(), |s, i| if *i == 0 { s.replace("\r\n", "\n") } else { proc_of(*i).preprocess(&s) })
}

pub fn dropout() -> BoxedStrategy<F> {
    prop_oneof![
        3 => Just(0.0),
        1 => Just(-0.5),
        1 => Just(1.0),
        1 => Just(2.0),
        3 => 0.0f64..1.0,
    ]
    .prop_map(F)
    .boxed()
}

/// splitmix64, for content derived from a seed inside a case.
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
}

/// A vocabulary of `n` distinct tokens (the 256 bytes first), for sizes beyond 16 bits.
pub fn big_vocab(n: usize, seed: u64) -> Vec<ScoredToken> {
    let mut m = Mix(seed);
    let mut v: Vec<ScoredToken> = (0..=255u8).map(|b| ScoredToken::new(vec![b], -8.0 - m.below(64) as f64 / 64.0, false)).collect();
    let mut seen: HashSet<Vec<u8>> = v.iter().map(|t| t.value.clone()).collect();
    while v.len() < n {
        let len = 2 + m.below(5) as usize;
        let t: Vec<u8> = (0..len).map(|_| b"abcdefghijklmnop"[m.below(16) as usize]).collect();
        if seen.insert(t.clone()) {
            v.push(ScoredToken::new(t, -6.0 - m.below(640) as f64 / 64.0, m.below(5) == 0));
        }
    }
    v
}
pub fn big_text(len: usize, seed: u64) -> String {
    let mut m = Mix(seed ^ 0x5555);
    (0..len).map(|_| b"abcdefghijklmnop"[m.below(16) as usize] as char).collect()
}
