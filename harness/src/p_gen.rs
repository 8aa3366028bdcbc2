//! C14, C15: generated vocabularies. C24: training data.
use crate::cli::*;
use crate::fw::*;
use crate::gen::*;
use crate::p_core::ensure;
use crate::refm::*;
use fancy_regex::Regex as Fancy;
use proptest::collection::vec;
use proptest::prelude::*;
use regex::Regex;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use tokengeex::Tokenizer;

const SPLITS: &[&str] = &[r"\w+", r"[^\n]+", r"[ ]?\w+", r"a|b+", r"\s+|\S+", r"(?s).+", r"(?!x)\S+", r"(?<=a)b+|.", r"[ ]?[A-Za-z]+|.", "(?:ab)+"];
const ALLOWS: &[&str] = &[
    r"^ ?[a-z]+$", r"^(?:[a-z]+)$|^(?:\s+)$", r"^.$", "a", r"^\p{L}+$", r"^(?s:..)$", r"[^ab]", "^(?:.)$|^(?:[a-z]+)$|^(?:(?:[ ]+)|[\t]+)$|^(?: ?[[:punct:]] ?)$", "  ^[ab]+$\n", "^(?:a|\nb|ab)\r\n$",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gen {
    corpus: Corpus,
    procs: Vec<u8>,
    specials: Vec<String>,
    /// Files of added and of suggested tokens.
    added: Vec<Vec<Vec<Frag>>>,
    suggested: Vec<Vec<Vec<Frag>>>,
    split: Option<u8>,
    allow: Option<u8>,
    size: u32,
    max_len: Option<u8>,
    p: Option<F>,
    threads: u8,
}

fn listed() -> BoxedStrategy<Vec<Vec<Vec<Frag>>>> {
    let t = prop_oneof![
        3 => vec(prop_oneof![Just("a"), Just("b"), Just("ab"), Just("foo"), Just(" "), Just("好"), Just("é"), Just("\n"), Just("=="), Just("ﬁ"), Just("\"")], 1..4).prop_map(|v| vec![Frag::S(v.concat())]),
        2 => vec(Just(Frag::S("aab ".into())), 0..1).prop_flat_map(|_| sample()).prop_map(|mut v| { v.truncate(3); v }),
        1 => (prop::sample::select(vec!["ab", "foo", " "]), 1u16..20).prop_map(|(s, n)| vec![Frag::R(s.into(), n)]),
    ];
    prop_oneof![2 => Just(vec![]), 3 => vec(vec(t, 0..7), 0..3)].boxed()
}

fn gen(p: BoxedStrategy<Option<F>>) -> BoxedStrategy<Gen> {
    let size = prop_oneof![1 => 0u32..260, 5 => 256u32..330, 3 => 256u32..900, 2 => Just(200_000u32), 1 => Just(u32::MAX)];
    (
        (corpus(true), procs(), specials(), listed(), listed()),
        (proptest::option::weighted(0.4, 0..SPLITS.len() as u8), proptest::option::weighted(0.4, 0..ALLOWS.len() as u8), size, proptest::option::weighted(0.6, prop_oneof![4 => 1u8..9, 2 => 0u8..40, 1 => 40u8..=255, 1 => Just(255u8)]), p, threads()),
    )
        .prop_map(|((corpus, procs, specials, added, suggested), (split, allow, size, max_len, p, threads))| Gen {
            corpus, procs, specials: specials.into_iter().map(|s| s.replace('\0', "0")).collect(), added, suggested, split, allow, size, max_len, p, threads,
        })
        .boxed()
}

/// Counts beyond 16 bits, or more candidates than that.
fn large_gen() -> BoxedStrategy<Gen> {
    let wide = (vec((vec("[a-p]{300,500}".prop_map(|s| vec![Frag::S(s)]), 30..60), Just(None)), 1..3), 0u8..8).prop_map(|(files, style)| Corpus { files, style, times: 1, giant: 0 });
    (gen(Just(Some(F(1.0))).boxed()), bulk(), wide, longs(), 66_000u32..170_000, 0u8..3)
        .prop_map(|(mut c, bulk, wide, longs, size, kind)| {
            if kind == 0 {
                c.corpus = bulk;
            } else if kind == 1 {
                c.corpus = longs;
                c.max_len = c.max_len.map(|n| n.min(20));
            } else {
                c.corpus = wide;
                c.size = size;
                c.max_len = Some(10);
                c.allow = None;
                c.split = None;
            }
            c
        })
        .boxed()
}

fn huge_gen() -> BoxedStrategy<Gen> {
    (gen(Just(Some(F(1.0))).boxed()), huge())
        .prop_map(|(mut c, corpus)| {
            c.max_len = Some(c.max_len.map_or(3, |n| n % 4));
            if corpus.giant > 0 {
                c.allow = None;
                c.split = None;
            }
            c.corpus = corpus;
            c
        })
        .boxed()
}

struct Built {
    args: Vec<String>,
    out: String,
    used: Vec<String>,
    added: Vec<String>,
    suggested: Vec<String>,
}

fn tokens_of(files: &[Vec<Vec<Frag>>]) -> Vec<Vec<String>> {
    files.iter().map(|f| f.iter().map(|t| resolve(t, &[], &[])).filter(|t| !t.is_empty()).collect()).collect()
}

fn prepare(c: &Gen, dir: &Dir) -> Built {
    let (train, used) = c.corpus.write(dir, &[], &c.specials, &c.procs);
    let out = dir.path("out.json");
    let mut a = args(&["generate", "-v", &most(c.size as u64, u32::MAX as u64).to_string(), "-o", &out]);
    for p in &c.procs {
        a.extend(args(&["--processor", PROC_NAMES[*p as usize]]));
    }
    for s in &c.specials {
        a.extend(args(&["--special", s]));
    }
    let (added, suggested) = (tokens_of(&c.added), tokens_of(&c.suggested));
    for (what, files) in [("added", &added), ("suggested", &suggested)] {
        for (i, f) in files.iter().enumerate() {
            let p = dir.write(&format!("{what}{i}.json"), serde_json::to_string_pretty(f).unwrap().as_bytes());
            a.extend(args(&[&format!("--{what}"), &p]));
        }
    }
    if let Some(i) = c.split {
        let p = dir.write("split.regex", SPLITS[i as usize].as_bytes());
        a.extend(args(&["--split", &p]));
    }
    if let Some(i) = c.allow {
        let p = dir.write("allow.regex", ALLOWS[i as usize].as_bytes());
        a.extend(args(&["--allow", &p]));
    }
    if let Some(n) = c.max_len {
        a.extend(args(&["--max-token-length", &most(n as u64, 255).to_string()]));
    }
    if let Some(p) = c.p {
        a.extend(args(&["--insert-probability", &p.0.to_string()]));
    }
    a.extend(train);
    Built { args: a, out, used, added: added.concat(), suggested: suggested.concat() }
}

/// The candidate tokens of one processed sample.
fn candidates(c: &Gen, split: &Option<Fancy>, allow: &Option<Regex>, sample: &str) -> HashSet<String> {
    let max = c.max_len.map_or(24, |n| most(n as u64, 255));
    let parts: Vec<&str> = match split {
        None => vec![sample],
        Some(r) => r.find_iter(sample).map(|m| m.unwrap().as_str()).collect(),
    };
    let mut out = HashSet::new();
    for p in parts {
        let mut cuts: Vec<usize> = p.char_indices().map(|(i, _)| i).collect();
        cuts.push(p.len());
        for (k, &i) in cuts.iter().enumerate() {
            for &j in cuts[k + 1..].iter().take_while(|&&j| j - i <= max) {
                let t = &p[i..j];
                if !out.contains(t) && allow.as_ref().map_or(true, |r| r.is_match(t)) {
                    out.insert(t.to_string());
                }
            }
        }
    }
    out
}

fn regexes(c: &Gen) -> (Option<Fancy>, Option<Regex>) {
    // Line breaks in a regex file are dropped and its ends trimmed.
    let clean = |s: &str| s.replace(['\n', '\r'], "").trim().to_string();
    (c.split.map(|i| Fancy::new(&clean(SPLITS[i as usize])).unwrap()), c.allow.map(|i| Regex::new(&clean(ALLOWS[i as usize])).unwrap()))
}

fn well_formed(t: &Tokenizer, size: usize) -> R {
    let v = t.model().vocab();
    ensure!(v.len() <= size.max(256), "{} tokens, {} requested", v.len(), size);
    let mut seen = HashSet::new();
    for x in v {
        ensure!(seen.insert(&x.value), "token {:?} twice", show(&x.value));
        ensure!(x.score.is_finite() && x.score < 0.0, "token {x:?} has no log-probability");
    }
    for b in 0..=255u8 {
        let x = v.iter().find(|t| t.value == [b]).ok_or_else(|| format!("byte {b:#x} is missing"))?;
        ensure!(x.keep, "byte {b:#x} is not marked keep");
    }
    let sum: f64 = v.iter().map(|t| t.score.exp()).sum();
    ensure!((sum - 1.0).abs() < 1e-9, "probabilities sum to {sum}");
    for w in v.windows(2) {
        ensure!(w[0].score >= w[1].score - 1e-12, "scores increase: {:?} before {:?}", w[0], w[1]);
    }
    Ok(())
}

fn c14(c: &Gen, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "g");
    let b = prepare(c, &dir);
    cli_ok(&b.args, c.threads)?;
    let t = load(&b.out)?;
    same_setup(&t, &c.procs, &registered(&c.specials))?;
    let size = most(c.size as u64, u32::MAX as u64);
    well_formed(&t, size)?;
    let v = t.model().vocab();
    // Added, then suggested tokens in the order given, as far as they fit.
    let mut first: Vec<(&str, bool)> = vec![];
    let mut seen = HashSet::new();
    for (s, keep) in b.added.iter().map(|s| (s, true)).chain(b.suggested.iter().map(|s| (s, false))) {
        if s.len() > 1 && 256 + first.len() < size && seen.insert(s.as_str()) {
            first.push((s, keep));
        }
    }
    for (s, keep) in &first {
        let x = v.iter().find(|t| t.value == s.as_bytes()).ok_or_else(|| format!("{} token {s:?} is missing although it fits", if *keep { "added" } else { "suggested" }))?;
        ensure!(x.keep == *keep, "token {s:?} ({}) has keep={}", if *keep { "added" } else { "suggested" }, x.keep);
    }
    let p = c.p.map_or(0.1, |p| p.0);
    let (split, allow) = regexes(c);
    let mut cands = HashSet::new();
    if p > 0.0 {
        for s in &b.used {
            cands.extend(candidates(c, &split, &allow, s));
        }
    }
    let mut rest = 0;
    for x in v.iter().filter(|x| x.value.len() > 1) {
        let s = std::str::from_utf8(&x.value).map_err(|_| format!("token {:?} is not valid UTF-8", show(&x.value)))?;
        if first.iter().any(|(f, _)| *f == s) {
            continue;
        }
        ensure!(!x.keep, "token {s:?} is marked keep but was not added");
        ensure!(cands.contains(s), "token {s:?} is not a candidate: not an allowed substring of at most {:?} bytes of a processed sample (or of a split part)", c.max_len);
        rest += 1;
    }
    ctx.label_if(rest > 0, "tokens from samples");
    ctx.label_if(!first.is_empty(), "added or suggested tokens");
    ctx.label_if(v.len() == size, "full vocabulary");
    ctx.nontrivial_if(rest > 0 || !first.is_empty());
    Ok(())
}

// ---------------------------------------------------------------- C15

struct Freq {
    freq: HashMap<String, usize>,
    first: Vec<String>,
}

fn reference(c: &Gen, b: &Built) -> Freq {
    let (split, allow) = regexes(c);
    let mut freq: HashMap<String, usize> = HashMap::new();
    for t in b.added.iter().chain(&b.suggested) {
        *freq.entry(t.clone()).or_insert(0) += 1;
    }
    if c.p.map_or(false, |p| p.0 > 0.0) {
        for s in &b.used {
            let mut set = candidates(c, &split, &allow, s);
            for t in b.added.iter().chain(&b.suggested) {
                if s.contains(t.as_str()) {
                    set.insert(t.clone());
                }
            }
            for t in set {
                *freq.entry(t).or_insert(0) += 1;
            }
        }
    }
    let mut first: Vec<String> = vec![];
    for s in b.added.iter().chain(&b.suggested) {
        if s.len() > 1 && 256 + first.len() < most(c.size as u64, u32::MAX as u64) && !first.contains(s) {
            first.push(s.clone());
        }
    }
    Freq { freq, first }
}

fn compare(t: &Tokenizer, f: &Freq, size: usize) -> Result<usize, String> {
    let v = t.model().vocab();
    let top = f.freq.values().copied().max().unwrap_or(1) as f64;
    let weight = |x: &[u8]| -> Result<f64, String> {
        if x.len() == 1 {
            return Ok(top);
        }
        let s = String::from_utf8_lossy(x).into_owned();
        let n = f.freq.get(&s).ok_or_else(|| format!("token {s:?} never occurs"))?;
        Ok((*n * x.len()) as f64)
    };
    let mut sum = 0.0;
    for x in v {
        sum += weight(&x.value)?;
    }
    for x in v {
        let w = weight(&x.value)?;
        let want = w.ln() - sum.ln();
        ensure!((x.score - want).abs() <= 1e-9 * (1.0 + want.abs()), "token {:?} has score {}, expected {want}: its frequency should be {} (estimated {:.3})", show(&x.value), x.score, w / if x.value.len() == 1 { 1.0 } else { x.value.len() as f64 }, (x.score.exp() * sum) / if x.value.len() == 1 { 1.0 } else { x.value.len() as f64 });
    }
    let inside: HashSet<&[u8]> = v.iter().map(|x| &x.value[..]).collect();
    let rest: Vec<(&String, usize)> = f.freq.iter().filter(|(t, _)| t.len() > 1 && !f.first.contains(t)).map(|(t, n)| (t, *n)).collect();
    let taken: Vec<&(&String, usize)> = rest.iter().filter(|(t, _)| inside.contains(t.as_bytes())).collect();
    let room = size.saturating_sub(256 + f.first.len());
    ensure!(taken.len() == room.min(rest.len()), "{} tokens were taken from {} candidates, {} fit", taken.len(), rest.len(), room);
    let least = taken.iter().map(|x| x.1).min().unwrap_or(usize::MAX);
    if let Some((t, n)) = rest.iter().filter(|(t, _)| !inside.contains(t.as_bytes())).max_by_key(|x| x.1) {
        ensure!(*n <= least, "candidate {t:?} with frequency {n} was left out, one with frequency {least} was taken");
    }
    Ok(taken.len())
}

fn c15(c: &Gen, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "g");
    let b = prepare(c, &dir);
    cli_ok(&b.args, c.threads)?;
    let f = reference(c, &b);
    let n = compare(&load(&b.out)?, &f, most(c.size as u64, u32::MAX as u64))?;
    ctx.nontrivial_if(n > 1);
    ctx.label_if(n > 0 && n < f.freq.len() / 2, "more candidates than room");
    ctx.label_if(f.freq.values().any(|n| *n > 3), "frequencies above three");
    if c.procs.is_empty() {
        // The same samples in other files, in another order, on other threads.
        let again = rearrange(&dir, &b.used, 1 + (c.size % 3) as usize, c.size as u64 + c.threads as u64);
        let at = b.args.iter().position(|a| a == "--train").unwrap_or(b.args.len());
        let mut a = b.args[..at].to_vec();
        a.extend(again);
        cli_ok(&a, 9 - c.threads)?;
        compare(&load(&b.out)?, &f, most(c.size as u64, u32::MAX as u64)).map_err(|e| format!("after rearranging the samples: {e}"))?;
    }
    Ok(())
}

/// Insert probability: distinct pseudo-words, each occurring a known number of times per sample.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prob {
    p: F,
    samples: u16,
    /// Occurrences per sample of candidate i.
    occ: Vec<u8>,
    /// Occurrences of added token i, which the allow pattern rejects.
    added: Vec<u8>,
    files: u8,
    threads: u8,
    split: bool,
}

fn prob() -> BoxedStrategy<Prob> {
    (0.02f64..0.98, 300u16..900, vec(0u8..4, 1..6), vec(0u8..4, 0..4), 1u8..4, threads(), any::<bool>())
        .prop_map(|(p, samples, occ, added, files, threads, split)| Prob { p: F(p), samples, occ, added, files, threads, split })
        .boxed()
}

fn c15_prob(c: &Prob, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "g");
    // Word i is <letter><letter+1>; separated by "." so that no other allowed candidate contains two.
    let word = |i: usize| format!("{}{}", (b'a' + 2 * i as u8) as char, (b'b' + 2 * i as u8) as char);
    let extra = |i: usize| format!("<{}{}>", (b'A' + 2 * i as u8) as char, (b'B' + 2 * i as u8) as char);
    let mut s = String::new();
    for (i, n) in c.occ.iter().enumerate() {
        s.push_str(&format!("{}. ", word(i)).repeat(*n as usize));
    }
    for (i, n) in c.added.iter().enumerate() {
        s.push_str(&format!("{}. ", extra(i)).repeat(*n as usize));
    }
    s.push('.');
    let n = c.samples as usize;
    let mut a = args(&["generate", "-v", "400", "-o", &dir.path("o.json"), "--insert-probability", &c.p.0.to_string()]);
    let files = c.files as usize;
    for k in 0..files {
        let m = n / files + if k == 0 { n % files } else { 0 };
        let f = dir.write(&format!("t{k}"), &join(&vec![s.clone(); m], 0));
        a.extend(args(&["--train", &format!("t:{f}")]));
    }
    let allow = dir.write("allow", b"^[a-z][a-z]$");
    a.extend(args(&["--allow", &allow]));
    if c.split {
        let f = dir.write("split", br"[a-z]+|\S");
        a.extend(args(&["--split", &f]));
    }
    // The anchor never occurs in a sample: its frequency is exactly one.
    let mut list = vec!["@@@@".to_string()];
    list.extend((0..c.added.len()).map(extra));
    let f = dir.write("added", serde_json::to_string(&list).unwrap().as_bytes());
    a.extend(args(&["--added", &f]));
    cli_ok(&a, c.threads)?;
    let t = load(&dir.path("o.json"))?;
    let v = t.model().vocab();
    let find = |s: &str| v.iter().find(|t| t.value == s.as_bytes());
    let anchor = find("@@@@").ok_or("added token missing")?.score;
    let freq = |s: &str| find(s).map(|t| (t.score - anchor).exp() * 4.0 / s.len() as f64);
    let check = |s: String, occ: u8, base: f64| -> R {
        let f = freq(&s).unwrap_or(0.0) - base;
        let k = f.round();
        ensure!((f - k).abs() < 1e-3 && k >= 0.0, "the frequency of {s:?} is {f}, not a whole number");
        let q = 1.0 - (1.0 - c.p.0).powi(occ as i32);
        ensure!(binomial_ok(k as u64, n as u64, q), "{s:?} occurs {occ} times in each of {n} samples and was counted in {k}; with insert probability {} about {:.1} are expected", c.p.0, q * n as f64);
        Ok(())
    };
    for (i, n) in c.occ.iter().enumerate() {
        check(word(i), *n, 0.0)?;
    }
    for (i, n) in c.added.iter().enumerate() {
        check(extra(i), *n, 1.0)?;
    }
    ctx.nontrivial_if(c.occ.iter().any(|n| *n > 0));
    Ok(())
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sources {
    /// Samples and the proportion: a text, and its value in hundredths.
    files: Vec<(Vec<String>, u8)>,
    /// The samples of a file are listed this many times.
    #[serde(default)]
    times: u32,
    style: u8,
    procs: Vec<u8>,
    cmd: u8,
    threads: u8,
}

const PROPORTIONS: &[(&str, u32)] = &[
    (":0.7777", 7777), (":0.9999", 9999), (":0.1237", 1237), (":0.0001", 1), (":0.4321", 4321), ("", 10000), (":1", 10000), (":1.0", 10000), (":0.5", 5000), (":.25", 2500), (":0.75", 7500), (":0", 0), (":0.0", 0), (":0.29", 2900), (":0.1", 1000), (":1e-1", 1000), (":0.999", 9990), (":0.0625", 625), (":2", 20000), (":1.5", 15000), (":0.3333", 3333), (":-0", 0),
];

fn whole_sample() -> BoxedStrategy<String> {
    prop_oneof![
        2 => "[ab]{1,3}",
        2 => vec(piece(), 1..6).prop_map(|v| v.concat()),
        1 => "\\PC{1,8}",
        1 => prop::sample::select(vec![" ", "\n", "  a  ", "\ta\n", "a\nb", "\r\n", "\u{feff}a", "a:b", "\u{85}", "a\r"]).prop_map(str::to_string),
        1 => (1usize..3000).prop_map(|n| format!("{n:x}")),
    ]
    .prop_map(|s| s.replace('\0', ""))
    .boxed()
}

fn sources() -> BoxedStrategy<Sources> {
    let s = prop_oneof![10 => whole_sample(), 1 => Just(String::new())];
    (vec((prop_oneof![4 => vec(s.clone(), 0..14), 1 => vec(s, 20..130)], prop_oneof![2 => Just(5u8), 3 => 0..PROPORTIONS.len() as u8]), 1..4), 0u8..8, prop_oneof![Just(vec![]), procs()], 0u8..2, threads())
        .prop_map(|(files, style, procs, cmd, threads)| Sources { files, times: 1, style, procs, cmd, threads })
        .boxed()
}

/// A sample of some megabytes, or many files.
fn huge_sources() -> BoxedStrategy<Sources> {
    (sources(), any::<bool>(), 1_060_000usize..1_200_000, vec((vec(whole_sample(), 1..3), prop_oneof![2 => Just(5u8), 1 => 0..PROPORTIONS.len() as u8]), 66..280))
        .prop_map(|(mut c, one, giant, files)| {
            if one {
                for (s, _) in c.files.iter_mut() {
                    if let Some(s) = s.iter_mut().find(|s| !s.is_empty()) {
                        *s = s.repeat(giant / s.len());
                        break;
                    }
                }
            } else {
                c.files = files;
            }
            c
        })
        .boxed()
}

fn c24(c: &Sources, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "s");
    let mut train = vec![];
    let mut counts: HashMap<String, usize> = HashMap::new();
    for (i, (samples, p)) in c.files.iter().enumerate() {
        let bytes = samples.iter().map(|s| s.len() + 1).sum::<usize>().max(1);
        let samples: Vec<String> = (0..c.times.min((2_000_000 / bytes) as u32).max(1)).flat_map(|_| samples.iter().cloned()).collect();
        ctx.label_if(samples.len() > 65_536, "more than 65536 samples");
        let (text, q) = PROPORTIONS[*p as usize];
        let mut samples = samples;
        if c.times > 1 {
            // As many samples that their share is just above or just below a whole number.
            samples.retain(|s| !s.is_empty());
            if let Some(n) = (1..=samples.len()).rev().take(10_000).find(|n| (*n as u64 * q as u64) % 10_000 == if c.style & 1 == 0 { 1 } else { 9_999 }) {
                ctx.label("a share just beside a whole number");
                samples.truncate(n);
            }
        }
        let f = dir.write(&format!("f{i}"), &join(&samples, c.style));
        let name = if c.style & 4 > 0 { 0 } else { i };
        let source = format!("name{name}:{f}{text}");
        // A source may be given again.
        let given = 1 + (c.style == 6 || c.style == 1) as usize;
        for _ in 0..given {
            train.extend(args(&["--train", &source]));
        }
        let used: Vec<&String> = samples.iter().filter(|s| !s.is_empty()).collect();
        let exact = used.len() as u64 * q as u64;
        // Where the product is a whole number only in exact arithmetic, rounding of the
        // proportion itself may cost the last sample: leave such cases out.
        if exact % 10000 == 0 && !["", ":1", ":1.0", ":0.5", ":.25", ":0.75", ":0", ":0.0", ":-0", ":0.0625", ":2", ":1.5"].contains(&text) {
            return Ok(());
        }
        let n = (exact / 10000) as usize;
        ctx.label_if(n > 0 && n < used.len(), "some samples of a file left out");
        for s in &used[..n.min(used.len())] {
            let s = if c.cmd == 1 { process(&c.procs, s) } else { s.to_string() };
            *counts.entry(s).or_insert(0) += given;
        }
    }
    ctx.nontrivial_if(counts.len() > 1);
    let out = dir.path("o.json");
    if c.cmd == 0 {
        // Every sample, as a whole, is one match.
        let mut a = args(&["mine", "-n", "100000", "-o", &out, "-p", "(?s)^.+$"]);
        a.extend(train);
        cli_ok(&a, c.threads)?;
        let got: Vec<String> = serde_json::from_slice(&std::fs::read(&out).map_err(|e| format!("no output: {e}"))?).map_err(|e| format!("the idioms are not a JSON list of strings: {e}"))?;
        let set: HashSet<&String> = got.iter().collect();
        for s in &got {
            ensure!(counts.contains_key(s), "{s:?} is not a sample that should have been read");
        }
        for s in counts.keys() {
            ensure!(set.contains(s), "sample {s:?} was not read");
        }
        for w in got.windows(2) {
            ensure!(counts[&w[0]] >= counts[&w[1]], "sample {:?} was read more often than {:?}: expected {} and {} times", w[0], w[1], counts[&w[0]], counts[&w[1]]);
        }
    } else {
        // Every sample, as a whole, is one candidate; frequencies give the exact counts. An added
        // token that never occurs has frequency one.
        let allow = dir.write("allow", b"(?s)^.+$");
        let split = dir.write("split", b"(?s)^.+$");
        let anchor = "@never@occurs@";
        let added = dir.write("added", format!("[\"{anchor}\"]").as_bytes());
        let mut a = args(&["generate", "-v", "1000000", "-o", &out, "--allow", &allow, "--split", &split, "--insert-probability", "1", "--max-token-length", "100", "--added", &added]);
        for p in &c.procs {
            a.extend(args(&["--processor", PROC_NAMES[*p as usize]]));
        }
        a.extend(train);
        cli_ok(&a, c.threads)?;
        let t = load(&out)?;
        let v: HashMap<&[u8], f64> = t.model().vocab().iter().map(|t| (&t.value[..], t.score)).collect();
        let base = *v.get(anchor.as_bytes()).ok_or("the added token is missing")?;
        for (s, _) in counts.iter().filter(|(s, _)| s.len() > 1 && s.len() <= 100) {
            let x = v.get(s.as_bytes()).ok_or_else(|| format!("sample {s:?} was not read"))?;
            let f = (x - base).exp() * anchor.len() as f64 / s.len() as f64;
            let want = counts.iter().filter(|(t, _)| t.contains(s.as_str())).map(|(_, n)| n).sum::<usize>() as f64;
            ensure!((f - want).abs() < 1e-6 * want, "{s:?} was counted in {f} samples, expected {want}");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Faulty {
    good: Vec<Vec<String>>,
    kind: u8,
    pick: u8,
    bytes: Vec<u8>,
    at: u8,
    cmd: u8,
    preexisting: bool,
    threads: u8,
}

fn faulty() -> BoxedStrategy<Faulty> {
    let bad = prop_oneof![
        4 => prop::sample::select(vec![vec![0xffu8], vec![0xc3], vec![0x80], vec![0xed, 0xa0, 0x80], vec![0xf5, 0x80, 0x80, 0x80], vec![0xc0, 0x80], vec![0xe5, 0xa5], b"caf\xe9".to_vec(), b"ok\xff ok".to_vec()]),
        1 => vec(any::<u8>(), 1..6),
    ];
    (vec(vec(whole_sample(), 0..6), 1..3), 0u8..7, any::<u8>(), bad, any::<u8>(), 0u8..4, any::<bool>(), threads())
        .prop_map(|(good, kind, pick, bytes, at, cmd, preexisting, threads)| Faulty { good, kind, pick, bytes, at, cmd, preexisting, threads })
        .boxed()
}

fn c24_faulty(c: &Faulty, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "f");
    let mut train: Vec<String> = vec![];
    for (i, s) in c.good.iter().enumerate() {
        let f = dir.write(&format!("g{i}"), &join(s, 0));
        train.push(format!("g{i}:{f}"));
    }
    let ok = dir.path("g0");
    let p = c.pick as usize;
    let what;
    let bad = match c.kind {
        0 => {
            what = "a source without a path";
            ["name", "", &ok][p % 3].to_string()
        }
        1 => {
            what = "a source of too many parts";
            [format!("a:{ok}:0.5:1"), format!("a:b:{ok}:1"), format!("a:{ok}:1:")][p % 3].clone()
        }
        2 => {
            what = "a proportion that is no number";
            format!("a:{ok}:{}", ["abc", "", "0,5", "0.5x", "50%", " 0.5", "half", "0x1", "1/2"][p % 9])
        }
        3 => {
            what = "a missing file";
            format!("a:{}", dir.path("missing"))
        }
        4 => {
            what = "a folder";
            format!("a:{}", dir.0.to_str().unwrap())
        }
        _ => {
            what = "a sample that is not valid UTF-8";
            if c.bytes.split(|b| *b == 0).all(|s| std::str::from_utf8(s).is_ok()) {
                return Ok(());
            }
            let mut parts: Vec<Vec<u8>> = c.good[0].iter().map(|s| s.clone().into_bytes()).collect();
            let at = c.at as usize % (parts.len() + 1);
            parts.insert(at, c.bytes.clone());
            let f = dir.write("bad", &parts.join(&0u8));
            format!("a:{f}{}", ["", ":1", ":0.5"][p % 3])
        }
    };
    let at = c.at as usize % (train.len() + 1);
    train.insert(at, bad);
    let out = dir.path("out.json");
    let input = write_tokenizer(&dir, "in.json", &big_vocab(300, 7), &[], &[]);
    let allow = dir.write("allow", b"^.*$");
    let mut a = match c.cmd {
        0 => args(&["generate", "-v", "300", "-o", &out]),
        1 => args(&["prune", "-i", &input, "-o", &out, "-v", "280"]),
        2 => args(&["merge", "-i", &input, "-o", &out, "--allow", &allow, "--num-merges", "2"]),
        _ => args(&["mine", "-n", "5", "-o", &out, "-p", "word"]),
    };
    for t in &train {
        a.extend(args(&["--train", t]));
    }
    if c.preexisting {
        std::fs::write(&out, b"before").unwrap();
    }
    let r = cli(&a, c.threads)?;
    ctx.label(what);
    ctx.nontrivial();
    ensure!(!r.ok, "succeeds with {what}: {}", r.how);
    if c.preexisting {
        ensure!(std::fs::read(&out).ok().as_deref() == Some(b"before"), "overwrites its output although it fails on {what}: {}", r.how);
    } else {
        ensure!(!exists(&out), "writes its output although it fails on {what}: {}", r.how);
    }
    Ok(())
}

pub fn props() -> Vec<PropDef> {
    let one = || gen(prop_oneof![6 => Just(Some(F(1.0))), 1 => Just(Some(F(0.0))), 1 => Just(Some(F(2.0)))].boxed());
    let any = || gen(prop_oneof![4 => Just(Some(F(1.0))), 2 => Just(None), 1 => Just(Some(F(0.0))), 1 => Just(Some(F(-1.0))), 2 => (0.05f64..0.9).prop_map(|p| Some(F(p)))].boxed());
    vec![
        PropDef {
            id: "C14",
            rule: "the vocabulary has tokens from samples, or added or suggested ones, beside the bytes",
            assumptions: &["split and allow patterns are run with the regex and fancy-regex crates", "special tokens and listed tokens hold no NUL; listed tokens are not empty"],
            subs: vec![sub("generate", 8_000, 200_000, any, c14), sub("large", 48, 800, large_gen, c14)],
        },
        PropDef {
            id: "C15",
            rule: "more than one token was taken from the samples (probability checks: some candidate occurs)",
            assumptions: &["frequencies are recovered from the written scores", "for 0<p<1 a count outside a Chernoff bound of probability e^-30 is a violation"],
            subs: vec![sub("counts", 2_400, 120_000, one, c15), sub("large", 48, 1_600, large_gen, c15), sub("huge", 10, 200, huge_gen, c15), sub("probability", 200, 8_000, prob, c15_prob)],
        },
        PropDef {
            id: "C24",
            rule: "more than one distinct sample is used, or the source is faulty",
            assumptions: &["proportions whose product with the number of samples is a whole number only in exact arithmetic are left out", "paths hold no colon"],
            subs: vec![sub("samples", 6_400, 150_000, sources, c24), sub("large", 96, 1_600, || (sources(), 5_000u32..40_000).prop_map(|(mut c, n)| { c.times = n; c }).boxed(), c24), sub("huge", 12, 200, huge_sources, c24), sub("faulty", 4_800, 80_000, faulty, c24_faulty)],
        },
    ]
}
