//! C16-C20: prune, filter, merge. C25: pipelines.
use crate::cli::*;
use crate::fw::*;
use crate::gen::*;
use crate::p_core::{ensure, errs};
use crate::refm::*;
use proptest::collection::vec;
use proptest::prelude::*;
use regex::Regex;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use tokengeex::{Model, ScoredToken, Tokenizer};

fn value_set(v: &[ScoredToken]) -> HashMap<&[u8], &ScoredToken> {
    v.iter().map(|t| (&t.value[..], t)).collect()
}

fn same_score(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-14 * a.abs().max(b.abs())
}

fn non_increasing(v: &[ScoredToken]) -> R {
    for w in v.windows(2) {
        ensure!(w[0].score >= w[1].score || same_score(w[0].score, w[1].score), "scores increase: {:?} before {:?}", w[0], w[1]);
    }
    Ok(())
}

fn distinct(v: &[ScoredToken]) -> R {
    let mut s = HashSet::new();
    for t in v {
        ensure!(s.insert(&t.value), "token {:?} twice", show(&t.value));
    }
    Ok(())
}

fn lossless(t: &Tokenizer, procs: &[u8], texts: &[String]) -> R {
    for s in texts {
        let ids = sut("encode", || t.encode_ordinary(s, 0.0))?.map_err(|e| format!("{s:?} no longer encodes: {}", errs(&e)))?;
        let d = sut("decode", || t.decode(&ids, true))?.map_err(|e| format!("{s:?} no longer decodes: {}", errs(&e)))?;
        let want = process(procs, s);
        ensure!(d == want, "{s:?} decodes to {d:?}, expected {want:?}");
    }
    Ok(())
}

/// Complete vocabularies whose bytes are marked keep.
fn keeper(score: fn() -> BoxedStrategy<F>) -> BoxedStrategy<VocabSpec> {
    (prop_oneof![2 => Just(1u8), 1 => Just(2u8)], score(), vec((any::<u8>(), score()), 0..4), prop_oneof![5 => vec(tok(score()), 0..30), 1 => vec(tok(score()), 30..70)])
        .prop_map(|(bytes, byte_score, over, mut toks)| {
            toks.iter_mut().filter(|t| t.b.0.len() == 1).for_each(|t| t.k = true);
            VocabSpec { bytes, byte_score, byte_keep: true, over, toks, big: None }
        })
        .boxed()
}

fn rough() -> BoxedStrategy<F> {
    prop_oneof![6 => (-16.0f64..-0.5).prop_map(F), 2 => (-2.0f64..2.0).prop_map(F), 1 => (-400.0f64..0.0).prop_map(F)].boxed()
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prune {
    vocab: VocabSpec,
    corpus: Corpus,
    procs: Vec<u8>,
    specials: Vec<String>,
    /// Target size: the input's less this many 64ths of the tokens not marked keep.
    less: i16,
    shrink: Option<F>,
    em: Option<u8>,
    dropout: F,
    threads: u8,
    long: u32,
}

fn prune(score: fn() -> BoxedStrategy<F>, free: bool) -> BoxedStrategy<Prune> {
    let shrink = if free {
        prop_oneof![2 => Just(None), 2 => (0.0f64..1.0).prop_map(|x| Some(F(x))), 3 => prop::sample::select(vec![0.0, 0.5, 0.75, 0.9, 0.999, 0.9999999, 1.0, 1.5, -1.0]).prop_map(|x| Some(F(x)))].boxed()
    } else {
        prop_oneof![1 => Just(None), 3 => prop::sample::select(vec![0.25, 0.5, 0.75, 0.9, 0.93, 0.95, 0.96, 0.97, 0.975, 0.98, 0.985, 0.99, 0.995, 1.0]).prop_map(|x| Some(F(x)))].boxed()
    };
    let drop = if free { prop_oneof![3 => Just(0.0), 1 => Just(0.01), 2 => 0.0f64..1.0, 1 => Just(1.0)].prop_map(F).boxed() } else { prop_oneof![5 => Just(0.0), 1 => Just(1.0), 1 => 0.0f64..1.0].prop_map(F).boxed() };
    let long = if free { prop_oneof![40 => Just(0u32), 1 => 80_000u32..170_000].boxed() } else { prop_oneof![60 => Just(0u32), 1 => 4_000u32..70_000].boxed() };
    ((keeper(score), prop_oneof![1 => corpus(true), 2 => busy()], procs(), specials()), (prop_oneof![1 => prop_oneof![-64i16..0, Just(-64i16)], 8 => 1i16..64, 2 => 64i16..100], shrink, proptest::option::weighted(0.8, prop_oneof![9 => 0u8..4, 1 => 4u8..12]), drop, threads(), long))
        .prop_map(move |((vocab, corpus, procs, specials), (less, shrink, em, dropout, threads, long))| {
            // Expected counts under a dropout between 0 and 1 are random.
            let em = if !free && dropout.0 > 0.0 && dropout.0 < 1.0 { Some(0) } else { em };
            // Many rounds of many iterations each take too long.
            let slow = shrink.map_or(false, |x| x.0 > 0.9);
            let em = em.map(|n| if slow { n % 3 } else { n });
            let shrink = if slow && long > 0 { None } else { shrink };
            let mut corpus = corpus;
            corpus.times = if slow { 1 } else { corpus.times };
            Prune { vocab, corpus, procs, specials, less, shrink, em, dropout, threads, long }
        })
        .boxed()
}

/// Counts or IDs beyond 16 bits.
fn large_prune(free: bool) -> BoxedStrategy<Prune> {
    (prune(rough, free), bulk(), letters(), longs(), any::<u64>(), 0u8..3)
        .prop_map(|(mut c, bulk, letters, longs, seed, kind)| {
            c.long = 0;
            c.shrink = c.shrink.map(|x| F(x.0.min(0.85)));
            c.em = c.em.map(|n| n % 3);
            if kind == 0 {
                c.corpus = bulk;
            } else if kind == 1 {
                c.corpus = longs;
            } else {
                c.corpus = letters;
                c.vocab.big = Some(seed);
            }
            c
        })
        .boxed()
}
fn large_merge() -> BoxedStrategy<Merge> {
    (merge(), bulk(), letters(), longs(), any::<u64>(), 0u8..4, (100u16..500, 50u16..400))
        .prop_map(|(mut c, bulk, letters, longs, seed, kind, (num, step))| {
            c.num = Some(c.num.map_or(40, |n| n.min(60)));
            if kind == 0 {
                c.corpus = bulk;
                // A few rounds at most.
                c.num = c.num.map(|n| n % 20);
                c.step = c.step.map(|n| if n == 0 { 0 } else { n.max(5) });
            } else if kind == 1 {
                c.corpus = longs;
                c.step = c.step.map(|n| n.max(2));
            } else {
                c.corpus = letters;
                if kind == 2 {
                    c.vocab.big = Some(seed);
                }
                if seed & 3 > 0 {
                    c.num = Some(num);
                    c.step = Some(step);
                }
            }
            c
        })
        .boxed()
}
fn huge_merge() -> BoxedStrategy<Merge> {
    (merge(), huge())
        .prop_map(|(mut c, corpus)| {
            c.num = Some(1 + c.num.map_or(2, |n| n % 6));
            c.step = c.step.map(|n| if n == 0 { 0 } else { n.max(2) });
            c.corpus = corpus;
            c
        })
        .boxed()
}
/// Without EM, which takes long samples apart.
fn huge_prune() -> BoxedStrategy<Prune> {
    (prune(rough, false), huge())
        .prop_map(|(mut c, corpus)| {
            c.long = 0;
            if corpus.giant > 0 {
                c.shrink = Some(F(0.25));
            }
            c.shrink = c.shrink.map(|x| F(x.0.min(0.75)));
            c.em = Some(if corpus.giant > 0 { 0 } else { c.em.map_or(1, |n| n % 3) });
            if c.em > Some(0) && c.dropout.0 < 1.0 {
                c.dropout = F(0.0);
            }
            if corpus.times > 1 {
                // Something to choose from.
                c.less = 8 + c.less.rem_euclid(48);
                for t in c.vocab.toks.iter_mut().skip(1).filter(|t| t.b.0.len() > 1) {
                    t.k = false;
                }
            }
            c.corpus = corpus;
            c
        })
        .boxed()
}
fn large_filter() -> BoxedStrategy<Filter> {
    (filter(any_vocab, dyadic), any::<u64>(), prop_oneof![2 => 0u32..66_500, 1 => 0u32..700], prop::bool::weighted(0.4))
        .prop_map(|(mut c, seed, size, all)| {
            if all {
                // Nearly every token has to go.
                c.min = c.min.map(|m| (m.0 | 0xffc0, m.1, m.2));
                c.force = Some(true);
            }
            c.vocab.big = Some(seed);
            c.size = c.size.map(|_| size);
            c
        })
        .boxed()
}

/// Training data in which most tokens of the vocabulary occur, often.
fn busy() -> BoxedStrategy<Corpus> {
    let w = prop_oneof![9 => (0u16..30).prop_map(Frag::T), 1 => piece().prop_map(Frag::S), 1 => sample().prop_map(|mut v| v.pop().unwrap_or(Frag::S("ab".into())))];
    (vec((vec(vec(w, 1..14), 1..24), Just(None)), 1..3), 0u8..8, prop_oneof![2 => Just(1u32), 1 => 2u32..4]).prop_map(|(files, style, times)| Corpus { files, style, times, giant: 0 }).boxed()
}

fn run_prune(c: &Prune, dir: &Dir) -> Result<(Tokenizer, Vec<ScoredToken>, Vec<String>, usize, Vec<String>), String> {
    let v = c.vocab.build();
    let sp = registered(&c.specials);
    let (mut train, mut used) = c.corpus.write(dir, &c.vocab.toks, &c.specials, &c.procs);
    if c.long > 0 {
        let mut s = String::new();
        let mut m = Mix(c.long as u64);
        let toks: Vec<&str> = c.vocab.toks.iter().filter_map(|t| std::str::from_utf8(&t.b.0).ok()).filter(|t| t.len() > 1 && !t.contains('\0')).collect();
        if c.long % 3 > 0 && c.long < 80_000 && !toks.is_empty() {
            // Tokens across the places where a buffer might end, and little else.
            while s.len() < c.long as usize {
                let t = toks[m.below(toks.len() as u64) as usize];
                let next = s.len() / 4096 * 4096 + 4096 - 1 - m.below(t.len() as u64 - 1) as usize;
                while s.len() < next {
                    s.push(if c.long % 3 == 1 { 'z' } else { ' ' });
                }
                s.push_str(t);
            }
        }
        while s.len() < c.long as usize {
            s.push_str(["ab", "é", "好", "a", " the", "😀"][m.below(6) as usize]);
        }
        let f = dir.write("long.bin", s.as_bytes());
        train.extend(args(&["--train", &format!("long:{f}")]));
        used.push(process(&c.procs, &s));
    }
    let free = v.iter().filter(|t| !t.keep).count() as i64;
    let target = if c.less == -64 { usize::MAX } else { 0 };
    let target = target.max((v.len() as i64 - (free * c.less as i64 + 63).div_euclid(64) - (c.less as i64) / 60).max(0) as usize);
    let input = write_tokenizer(dir, "in.json", &v, &c.procs, &sp);
    let out = dir.path("out.json");
    let mut a = args(&["prune", "-i", &input, "-o", &out, "-v", &target.to_string(), "--dropout", &c.dropout.0.to_string()]);
    if let Some(x) = c.shrink {
        a.extend(args(&["--shrink-factor", &x.0.to_string()]));
    }
    if let Some(n) = c.em {
        a.extend(args(&["--em-subiters", &n.to_string()]));
    }
    a.extend(train.clone());
    cli_ok(&a, c.threads)?;
    let t = load(&out)?;
    let v = load(&input)?.model().vocab().to_vec();
    Ok((t, v, used, target, a))
}

fn c16(c: &Prune, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "p");
    let (t, v, used, target, _) = run_prune(c, &dir)?;
    same_setup(&t, &c.procs, &registered(&c.specials))?;
    let got = t.model().vocab();
    if v.len() <= target {
        ensure!(got.len() == v.len() && got.iter().zip(&v).all(|(a, b)| a.value == b.value && a.keep == b.keep && same_score(a.score, b.score)), "a vocabulary of {} tokens was changed by pruning to {target}", v.len());
        ctx.label("already small enough");
        return Ok(());
    }
    distinct(got)?;
    let before = value_set(&v);
    let after = value_set(got);
    for x in got {
        let b = before.get(&x.value[..]).ok_or_else(|| format!("token {:?} was not in the input", show(&x.value)))?;
        ensure!(b.keep == x.keep, "token {:?} has keep={}, it was {}", show(&x.value), x.keep, b.keep);
        ensure!(x.score.is_finite(), "token {x:?} has no finite score");
    }
    let keep = v.iter().filter(|t| t.keep).count();
    for x in v.iter().filter(|t| t.keep) {
        ensure!(after.contains_key(&x.value[..]), "token {:?} is marked keep and was removed", show(&x.value));
    }
    ensure!(got.len() <= target.max(keep), "{} tokens remain, {target} were requested and {keep} are marked keep", got.len());
    non_increasing(got)?;
    lossless(&t, &c.procs, &used)?;
    ctx.nontrivial_if(!used.is_empty() && got.len() < v.len());
    ctx.label_if(target < keep, "target below the keep tokens");
    ctx.label_if(c.dropout.0 > 0.0, "dropout");
    ctx.label_if(got.len() > keep, "other tokens remain");
    Ok(())
}

// ---------------------------------------------------------------- C17

const NEAR: f64 = 1e-9;

fn digamma(mut x: f64) -> f64 {
    let mut r = 0.0;
    while x < 40.0 {
        r -= 1.0 / x;
        x += 1.0;
    }
    let i = 1.0 / (x * x);
    r + x.ln() - 0.5 / x - i * (1.0 / 12.0 - i * (1.0 / 120.0 - i * (1.0 / 252.0 - i / 240.0)))
}

fn expected(v: &[ScoredToken], samples: &[String], keep: &dyn Fn(usize, &(usize, usize, u32, f64)) -> bool) -> Vec<f64> {
    let r = RefVocab::new(v);
    let mut out = vec![0.0; v.len()];
    for s in samples {
        let mut at = 0;
        let mut occ = r.occurrences(s.as_bytes());
        occ.retain(|o| {
            at += 1;
            keep(at - 1, o)
        });
        let n = s.len();
        let mut f = vec![f64::NEG_INFINITY; n + 1];
        let mut b = vec![f64::NEG_INFINITY; n + 1];
        f[0] = 0.0;
        b[n] = 0.0;
        // Occurrences are listed by start; ends are later, so both sweeps see final values.
        for &(i, j, _, x) in &occ {
            f[j] = lse(f[j], f[i] + x);
        }
        for &(i, j, _, x) in occ.iter().rev() {
            b[i] = lse(b[i], b[j] + x);
        }
        for &(i, j, id, x) in &occ {
            out[id as usize] += (f[i] + x + b[j] - f[n]).exp();
        }
    }
    out
}

/// The best segmentation, or None when another one is about as good.
fn unique_best(r: &RefVocab, s: &[u8]) -> Option<Vec<u32>> {
    let occ = r.occurrences(s);
    let n = s.len();
    let mut f = vec![f64::NEG_INFINITY; n + 1];
    let mut b = vec![f64::NEG_INFINITY; n + 1];
    f[0] = 0.0;
    b[n] = 0.0;
    for &(i, j, _, x) in &occ {
        f[j] = f[j].max(f[i] + x);
    }
    for &(i, j, _, x) in occ.iter().rev() {
        b[i] = b[i].max(b[j] + x);
    }
    let eps = NEAR * (1.0 + f[n].abs());
    let mut at = 0;
    let mut out = vec![];
    while at < n {
        let mut next = None;
        for &(_, j, id, x) in occ[occ.partition_point(|o| o.0 < at)..].iter().take_while(|o| o.0 == at) {
            if f[at] + x + b[j] >= f[n] - eps {
                if next.is_some() {
                    return None;
                }
                next = Some((j, id));
            }
        }
        let (j, id) = next?;
        out.push(id);
        at = j;
    }
    Some(out)
}

/// The two best segmentations of a token; None when the order of the first three is in doubt.
fn two_best(r: &RefVocab, s: &[u8]) -> Option<Vec<Vec<u32>>> {
    let occ = r.occurrences(s);
    let mut best: Vec<Vec<(f64, Vec<u32>)>> = vec![vec![]; s.len() + 1];
    best[0].push((0.0, vec![]));
    for at in 0..s.len() {
        let here = best[at].clone();
        for &(_, j, id, x) in occ.iter().filter(|o| o.0 == at) {
            for (y, p) in &here {
                let mut q = p.clone();
                q.push(id);
                best[j].push((y + x, q));
            }
            best[j].sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
            best[j].truncate(3);
        }
    }
    let b = &best[s.len()];
    for w in b.windows(2) {
        if w[0].0 - w[1].0 < NEAR * (1.0 + w[0].0.abs()) {
            return None;
        }
    }
    Some(b.iter().take(2).map(|x| x.1.clone()).collect())
}

/// The pruned vocabulary, or the reason why rounding could decide differently.
fn reference_prune(c: &Prune, v: &[ScoredToken], samples: &[String], target: usize) -> Result<Vec<ScoredToken>, &'static str> {
    let mut v = v.to_vec();
    let shrink = c.shrink.map_or(0.8, |x| x.0);
    while v.len() > target {
        let round = v.len();
        for _ in 0..c.em.unwrap_or(1) {
            let e = expected(&v, samples, &|_, o| c.dropout.0 < 1.0 || o.1 - o.0 == 1);
            let mut next = vec![];
            for (f, t) in e.iter().zip(&v) {
                if !t.keep && (f - 0.5).abs() < 1e-7 {
                    return Err("an expected count near one half");
                }
                if t.keep || *f >= 0.5 {
                    next.push((t, f.max(0.5)));
                }
            }
            let total = digamma(next.iter().map(|x| x.1).sum());
            v = next.into_iter().map(|(t, f)| t.clone_with_score(digamma(f) - total)).collect();
        }
        let size = (((v.len() as f64) * shrink) as usize).min(v.len().saturating_sub(1)).max(target);
        let r = RefVocab::new(&v);
        let mut freq = vec![0usize; v.len()];
        for s in samples {
            for id in unique_best(&r, s.as_bytes()).ok_or("two best segmentations of a sample")? {
                freq[id as usize] += 1;
            }
        }
        let sum = freq.iter().sum::<usize>() as f64;
        let mut kept: Vec<ScoredToken> = v.iter().filter(|t| t.keep).cloned().collect();
        let mut cand: Vec<(f64, usize)> = vec![];
        for (id, t) in v.iter().enumerate().filter(|(_, t)| !t.keep) {
            if freq[id] == 0 {
                continue;
            }
            let b = two_best(&r, &t.value).ok_or("two segmentations of a token")?;
            if b.len() < 2 || b[0].len() > 1 {
                kept.push(t.clone());
                continue;
            }
            let f = freq[id] as f64;
            let alt_sum = (sum + f * (b[1].len() - 1) as f64).ln();
            let alt: f64 = b[1].iter().map(|a| (freq[*a as usize] as f64 + f).ln() - alt_sum).sum();
            cand.push((f / samples.len() as f64 * (f.ln() - sum.ln() - alt), id));
        }
        cand.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        let n = size.saturating_sub(kept.len()).min(cand.len());
        if n > 0 && n < cand.len() && cand[n - 1].0 - cand[n].0 < NEAR * (1.0 + cand[n].0.abs()) {
            return Err("two tokens of the same loss");
        }
        kept.extend(cand[..n].iter().map(|x| v[x.1].clone()));
        v = kept;
        if v.len() >= round {
            break;
        }
    }
    Ok(v)
}

fn c17(c: &Prune, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "p");
    let (t, v, used, target, a) = run_prune(c, &dir)?;
    let want = match reference_prune(c, &v, &used, target) {
        Ok(w) => w,
        Err(why) => {
            ctx.label(&format!("not compared: {why}"));
            return Ok(());
        }
    };
    let compare = |got: &[ScoredToken]| -> R {
        let (g, w) = (value_set(got), value_set(&want));
        for x in &want {
            let y = g.get(&x.value[..]).ok_or_else(|| format!("token {:?} was removed; the reference keeps it", show(&x.value)))?;
            ensure!((x.score - y.score).abs() <= 1e-6 * (1.0 + x.score.abs()), "token {:?} has score {}, the reference {}", show(&x.value), y.score, x.score);
        }
        for x in got {
            ensure!(w.contains_key(&x.value[..]), "token {:?} remains; the reference removes it", show(&x.value));
        }
        Ok(())
    };
    compare(t.model().vocab())?;
    ctx.label_if(want.iter().any(|t| !t.keep), "other tokens remain");
    ctx.label("compared");
    ctx.label_if(used.len() > 100_000 && v.len() > target, "compared, more than 100,000 samples");
    ctx.label_if(c.dropout.0 > 0.0 && v.len() > target, "compared with dropout");
    ctx.nontrivial_if(v.len() > target && !used.is_empty());
    if c.procs.is_empty() {
        let at = a.iter().position(|x| x == "--train").unwrap_or(a.len());
        let mut a = a[..at].to_vec();
        a.extend(rearrange(&dir, &used, 1 + c.less.unsigned_abs() as usize % 3, c.less as u64));
        cli_ok(&a, 9 - c.threads)?;
        compare(load(&dir.path("out.json"))?.model().vocab()).map_err(|e| format!("after rearranging the samples: {e}"))?;
    }
    Ok(())
}

/// One EM iteration with dropout: the average of many identical samples against the exact mean over
/// all sets of omitted tokens.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct EmDrop {
    text: String,
    toks: Vec<(String, F)>,
    byte: F,
    p: F,
    n: u16,
    threads: u8,
}

fn em_drop() -> BoxedStrategy<EmDrop> {
    let t = || prop_oneof![3 => "[ab]{2,3}", 1 => "[aé]{1,2}é"].boxed();
    ("[ab]{2,6}|[abé]{2,4}", vec((t(), (-6.0f64..-0.5).prop_map(F)), 1..5), (-6.0f64..-1.0).prop_map(F), prop_oneof![3 => 0.05f64..0.95, 1 => Just(0.5), 1 => 0.0f64..0.05].prop_map(F), 400u16..3000, threads())
        .prop_map(|(text, toks, byte, p, n, threads)| EmDrop { text, toks, byte, p, n, threads })
        .boxed()
}

fn c17_drop(c: &EmDrop, ctx: &mut Ctx) -> R {
    let mut v: Vec<ScoredToken> = (0..=255u8).map(|b| ScoredToken::new(vec![b], c.byte.0, true)).collect();
    for (t, s) in &c.toks {
        if !v.iter().any(|x| x.value == t.as_bytes()) {
            v.push(ScoredToken::new(t.as_bytes().to_vec(), s.0, true));
        }
    }
    v.push(ScoredToken::new(b"unused".to_vec(), -1.0, false));
    let n = c.n as usize;
    let occ = RefVocab::new(&v).occurrences(c.text.as_bytes());
    let multi: Vec<usize> = (0..occ.len()).filter(|i| occ[*i].1 - occ[*i].0 > 1).collect();
    if multi.len() > 12 {
        ctx.label("not compared: more than 12 occurrences");
        return Ok(());
    }
    // Mean and range of each token's expected count in one sample.
    let mut mean = vec![0.0; v.len()];
    let (mut low, mut high) = (vec![f64::MAX; v.len()], vec![0.0f64; v.len()]);
    for set in 0u32..1 << multi.len() {
        let omitted = set.count_ones() as i32;
        let w = c.p.0.powi(omitted) * (1.0 - c.p.0).powi(multi.len() as i32 - omitted);
        let e = expected(&v, &[c.text.clone()], &|at, _| multi.iter().position(|m| *m == at).map_or(true, |k| set >> k & 1 == 0));
        for i in 0..v.len() {
            mean[i] += w * e[i];
            low[i] = low[i].min(e[i]);
            high[i] = high[i].max(e[i]);
        }
    }
    let dir = Dir::new(ctx, "d");
    let input = write_tokenizer(&dir, "in.json", &v, &[], &[]);
    let src = dir.write("s.bin", vec![c.text.as_str(); n].join("\0").as_bytes());
    let out = dir.path("out.json");
    let target = (v.len() - 1).to_string();
    cli_ok(&args(&["prune", "-i", &input, "-o", &out, "-v", &target, "--dropout", &c.p.0.to_string(), "--em-subiters", "1", "--train", &format!("s:{src}")]), c.threads)?;
    let t = load(&out)?;
    let got = value_set(t.model().vocab());
    ensure!(got.len() == v.len() - 1, "{} tokens remain of {}, all but one marked keep", got.len(), v.len());
    // An unused byte stands at the floor of one half, which gives away the digamma of the sum.
    let floor = got.get(&[0u8][..]).ok_or("a byte was removed")?.score - digamma(0.5);
    for (i, x) in v.iter().enumerate().take(v.len() - 1) {
        let y = got.get(&x.value[..]).ok_or_else(|| format!("token {:?} is marked keep and was removed", show(&x.value)))?;
        let d = (high[i] - low[i]).max(0.0) * (15.0 * n as f64).sqrt() + 1e-6;
        let (a, b) = ((mean[i] * n as f64 - d).max(0.5), (mean[i] * n as f64 + d).max(0.5));
        let s = y.score - floor;
        ensure!(
            s >= digamma(a) - 1e-6 && s <= digamma(b) + 1e-6,
            "token {:?}: with dropout {} its expected count over {n} samples {:?} should lie within {a:.1} and {b:.1}, whose digammas are {:.4} and {:.4}; its score corresponds to {s:.4}",
            show(&x.value), c.p.0, c.text, digamma(a), digamma(b)
        );
    }
    ctx.nontrivial_if(!multi.is_empty());
    Ok(())
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Filter {
    vocab: VocabSpec,
    procs: Vec<u8>,
    specials: Vec<String>,
    /// The minimum: a score of the vocabulary by rank (and whether slightly above it), or any number.
    min: Option<(u16, u8, F)>,
    size: Option<u32>,
    force: Option<bool>,
}

fn filter(v: fn() -> BoxedStrategy<VocabSpec>, s: fn() -> BoxedStrategy<F>) -> BoxedStrategy<Filter> {
    (v(), procs(), specials(), proptest::option::weighted(0.85, (any::<u16>(), 0u8..8, s())), proptest::option::weighted(0.5, prop_oneof![8 => 0u32..300, 4 => 250u32..290, 1 => Just(u32::MAX)]), proptest::option::of(any::<bool>()))
        .prop_map(|(vocab, procs, specials, min, size, force)| Filter { vocab, procs, specials, min, size, force })
        .boxed()
}

fn c18(c: &Filter, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "f");
    let v = c.vocab.build();
    let sp = registered(&c.specials);
    let input = write_tokenizer(&dir, "in.json", &v, &c.procs, &sp);
    let v = load(&input)?.model().vocab().to_vec();
    let out = dir.path("out.json");
    let mut a = args(&["filter", "-i", &input, "-o", &out]);
    let min = c.min.map(|(rank, how, x)| {
        if how != 3 && !v.is_empty() {
            let mut s: Vec<f64> = v.iter().map(|t| t.score).collect();
            s.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let y = s[rank as usize * s.len() / 65536];
            // On either side of a score, near and not so near.
            [y, y, y + 0.015625, y, y.next_up(), y.next_down(), y + y.abs() * 1e-8, y - y.abs() * 1e-8][how as usize % 8]
        } else {
            x.0
        }
    });
    if let Some(m) = min {
        a.extend(args(&["--min-score", &format!("{m:?}")]));
    }
    if let Some(n) = c.size {
        a.extend(args(&["--vocab-size", &most(n as u64, u32::MAX as u64).to_string()]));
    }
    if let Some(f) = c.force {
        a.extend(args(&["--force", &f.to_string()]));
    }
    cli_ok(&a, 1)?;
    let t = load(&out)?;
    same_setup(&t, &c.procs, &sp)?;
    let got = t.model().vocab();
    let before = value_set(&v);
    let after = value_set(got);
    distinct(got)?;
    for x in got {
        let b = before.get(&x.value[..]).ok_or_else(|| format!("token {:?} was not in the input", show(&x.value)))?;
        ensure!(b.keep == x.keep && same_score(b.score, x.score), "{b:?} became {x:?}");
    }
    let size = most(c.size.unwrap_or(0) as u64, u32::MAX as u64);
    if v.len() > size {
        non_increasing(got)?;
    }
    let force = c.force.unwrap_or(false);
    let eligible: Vec<&ScoredToken> = match min {
        Some(m) => v.iter().filter(|t| (force || !t.keep) && t.score < m).collect(),
        None => vec![],
    };
    let removed: Vec<&&ScoredToken> = eligible.iter().filter(|t| !after.contains_key(&t.value[..])).collect();
    let may: HashSet<&[u8]> = eligible.iter().map(|t| &t.value[..]).collect();
    for x in &v {
        ensure!(after.contains_key(&x.value[..]) || may.contains(&x.value[..]), "{x:?} was removed; minimum {min:?}, force {force}");
    }
    let want = eligible.len().min(v.len().saturating_sub(size));
    ensure!(removed.len() == want, "{} of {} eligible tokens were removed, expected {want} (size {} to {size}, minimum {min:?}, force {force})", removed.len(), eligible.len(), v.len());
    let high = removed.iter().map(|t| t.score).fold(f64::NEG_INFINITY, f64::max);
    if let Some(x) = eligible.iter().find(|t| after.contains_key(&t.value[..]) && t.score < high) {
        return Err(format!("{x:?} remains although a token of score {high} was removed"));
    }
    ctx.label_if(!removed.is_empty(), "tokens removed");
    ctx.label_if(!removed.is_empty() && removed.len() < eligible.len(), "stopped at the size");
    ctx.label_if(eligible.iter().any(|t| t.keep), "keep tokens eligible by force");
    ctx.label_if(min.map_or(false, |m| v.iter().any(|t| t.score == m)), "a token scores exactly the minimum");
    ctx.nontrivial_if(!removed.is_empty());
    Ok(())
}

// ---------------------------------------------------------------- C19, C20

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Merge {
    vocab: VocabSpec,
    corpus: Corpus,
    procs: Vec<u8>,
    specials: Vec<String>,
    allow: u8,
    num: Option<u16>,
    step: Option<u16>,
    scale: Option<F>,
    max_len: Option<u8>,
    threads: u8,
}

const MERGE_ALLOW: &[&str] = &["(?s)^.*$", "", "^(?s:.*)$", r"^[ab]+$", r"^ ?[a-z]+$", r"^.{1,3}$", r"^(?:[a-z]+)$|^(?:\s+)$|^(?:.)$", r"\p{L}", "^(?:a|b\n)+$", "x^", "(?i)^[A-F ]+$"];

fn merge() -> BoxedStrategy<Merge> {
    (
        (keeper(|| prop_oneof![2 => dyadic(), 2 => rough()].boxed()), corpus(true), procs(), specials()),
        (
            0..MERGE_ALLOW.len() as u8,
            prop_oneof![1 => Just(None), 6 => (0u16..40).prop_map(Some), 1 => Just(Some(u16::MAX))],
            prop_oneof![2 => Just(None), 5 => (0u16..8).prop_map(Some), 1 => Just(Some(u16::MAX))],
            prop_oneof![3 => Just(None), 4 => prop::sample::select(vec![1.0, 0.5, 0.0, 2.0, -1.0, 0.7]).prop_map(|x| Some(F(x)))],
            prop_oneof![3 => Just(None), 4 => (0u8..12).prop_map(Some), 1 => Just(Some(200u8)), 1 => Just(Some(255u8))],
            threads(),
        ),
    )
        .prop_map(|((vocab, corpus, procs, specials), (allow, num, step, scale, max_len, threads))| Merge { vocab, corpus, procs, specials, allow, num, step, scale, max_len, threads })
        .boxed()
}

struct Merged {
    t: Tokenizer,
    v: Vec<ScoredToken>,
    used: Vec<String>,
    args: Vec<String>,
    allow: Regex,
}

fn run_merge(c: &Merge, dir: &Dir) -> Result<Merged, String> {
    let sp = registered(&c.specials);
    let (train, used) = c.corpus.write(dir, &c.vocab.toks, &c.specials, &c.procs);
    let input = write_tokenizer(dir, "in.json", &c.vocab.build(), &c.procs, &sp);
    let out = dir.path("out.json");
    let allow = MERGE_ALLOW[c.allow as usize];
    let f = dir.write("allow.regex", allow.as_bytes());
    let mut a = args(&["merge", "-i", &input, "-o", &out, "--allow", &f]);
    for (k, x) in [("--num-merges", c.num.map(|n| most(n as u64, 65_535).to_string())), ("--step", c.step.map(|n| most(n as u64, 65_535).to_string())), ("--scale-factor", c.scale.map(|n| n.0.to_string())), ("--max-token-length", c.max_len.map(|n| most(n as u64, 255).to_string()))] {
        if let Some(x) = x {
            a.extend(args(&[k, &x]));
        }
    }
    a.extend(train);
    cli_ok(&a, c.threads)?;
    Ok(Merged { t: load(&out)?, v: load(&input)?.model().vocab().to_vec(), used, args: a, allow: Regex::new(&allow.replace(['\n', '\r'], "")).unwrap() })
}

fn prefix_kept(got: &[ScoredToken], v: &[ScoredToken]) -> R {
    ensure!(got.len() >= v.len(), "{} tokens before merging, {} after", v.len(), got.len());
    for (i, (a, b)) in v.iter().zip(got).enumerate() {
        ensure!(a.value == b.value && a.keep == b.keep && same_score(a.score, b.score), "token {i} was {a:?} and is {b:?} after merging");
    }
    Ok(())
}

fn c19(c: &Merge, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "m");
    let m = run_merge(c, &dir)?;
    same_setup(&m.t, &c.procs, &registered(&c.specials))?;
    let got = m.t.model().vocab();
    prefix_kept(got, &m.v)?;
    distinct(got)?;
    let num = c.num.map_or(1000, |n| most(n as u64, 65_535));
    let new = &got[m.v.len()..];
    ensure!(new.len() <= num, "{} tokens were appended, {num} requested", new.len());
    let max = c.max_len.map_or(24, |n| most(n as u64, 255));
    let scale = c.scale.map_or(0.9, |s| s.0);
    for (k, x) in new.iter().enumerate() {
        ensure!(x.value.len() <= max, "appended token {x:?} has {} bytes, at most {max} allowed", x.value.len());
        ensure!(m.allow.is_match(&String::from_utf8_lossy(&x.value)), "appended token {x:?} does not match {}", m.allow);
        ensure!(!x.keep, "appended token {x:?} is marked keep");
        // Tokens of the same round are not yet available; any earlier token is an upper bound here,
        // the rounds themselves are followed in C20.
        let before = value_set(&got[..m.v.len() + k]);
        let ok = (1..x.value.len()).any(|i| match (before.get(&x.value[..i]), before.get(&x.value[i..])) {
            (Some(a), Some(b)) => ((a.score + b.score) * scale - x.score).abs() <= 1e-12 * (1.0 + x.score.abs()),
            _ => false,
        });
        ensure!(ok, "appended token {x:?} is not two earlier tokens with the sum of their scores times {scale}");
    }
    lossless(&m.t, &c.procs, &m.used)?;
    ctx.nontrivial_if(!new.is_empty());
    ctx.label_if(new.len() == num, "all requested merges");
    ctx.label_if(new.len() < num, "ran out of merges");
    ctx.label_if(new.iter().any(|t| std::str::from_utf8(&t.value).is_err()), "a merge that is not UTF-8");
    Ok(())
}

fn follow(c: &Merge, v: &[ScoredToken], used: &[String], allow: &Regex, got: &[ScoredToken], ctx: &mut Ctx) -> R {
    let num = c.num.map_or(1000, |n| most(n as u64, 65_535));
    let step = c.step.map_or(50, |n| most(n as u64, 65_535));
    let max = c.max_len.map_or(24, |n| most(n as u64, 255));
    let scale = c.scale.map_or(0.9, |s| s.0);
    let mut model = Model::from(v.to_vec());
    let new = &got[v.len()..];
    let mut at = 0;
    let mut round = 0;
    loop {
        let mut pairs: HashMap<(u32, u32), usize> = HashMap::new();
        for s in used {
            let ids = sut("encode", || model.encode(s, 0.0))?.map_err(|e| errs(&e))?;
            for w in ids.windows(2) {
                *pairs.entry((w[0], w[1])).or_insert(0) += 1;
            }
        }
        // For each new token: its highest count, and the scores of the pairs that have it.
        let mut best: HashMap<Vec<u8>, (usize, Vec<f64>)> = HashMap::new();
        for ((a, b), n) in pairs {
            let (a, b) = (&model.vocab()[a as usize], &model.vocab()[b as usize]);
            let x = [&a.value[..], &b.value[..]].concat();
            if x.len() > max || model.token_to_id(&x).is_some() || !allow.is_match(&String::from_utf8_lossy(&x)) {
                continue;
            }
            let s = (a.score + b.score) * scale;
            let e = best.entry(x).or_insert((0, vec![]));
            if n > e.0 {
                *e = (n, vec![s]);
            } else if n == e.0 {
                e.1.push(s);
            }
        }
        let k = step.min(num - at).min(best.len());
        ensure!(new.len() >= at + k, "merging stopped after {} tokens although round {round} has {} allowed pairs and {} of {num} merges are wanted", new.len(), best.len(), num - at);
        if k == 0 {
            break;
        }
        let mut counts: Vec<usize> = best.values().map(|x| x.0).collect();
        counts.sort_by(|a, b| b.cmp(a));
        for i in 0..k {
            let x = &new[at + i];
            let (n, scores) = best.get(&x.value).ok_or_else(|| format!("round {round} appends {x:?}, which is no allowed pair of adjacent tokens (or was already appended)"))?;
            ensure!(*n == counts[i], "round {round} merges {x:?} (count {n}) in place {i}, where a pair with count {} is due", counts[i]);
            let near: Vec<f64> = scores.iter().copied().filter(|s| same_score(*s, x.score)).collect();
            let s = *near.first().ok_or_else(|| format!("{x:?} should have a score of {scores:?}"))?;
            if near.iter().any(|y| y.to_bits() != s.to_bits()) {
                // Two pairs that differ by rounding: ties in later rounds could fall either way.
                ctx.label("followed in part: a score known only up to rounding");
                return Ok(());
            }
            model.add_tokens([ScoredToken::new(x.value.clone(), s, false)]);
            best.get_mut(&x.value).unwrap().0 = usize::MAX;
        }
        ctx.label_if(counts.len() > k && counts[k - 1] > counts[k], "a clear cut between counts");
        ctx.label_if(counts[0] > 2, "counts above two");
        at += k;
        round += 1;
    }
    ensure!(new.len() == at, "{} tokens were appended, {at} expected", new.len());
    ctx.label_if(round > 1, "several rounds");
    ctx.nontrivial_if(at > 1);
    Ok(())
}

fn c20(c: &Merge, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "m");
    let m = run_merge(c, &dir)?;
    prefix_kept(m.t.model().vocab(), &m.v)?;
    follow(c, &m.v, &m.used, &m.allow, m.t.model().vocab(), ctx)?;
    if c.procs.is_empty() {
        let at = m.args.iter().position(|x| x == "--train").unwrap_or(m.args.len());
        let mut a = m.args[..at].to_vec();
        a.extend(rearrange(&dir, &m.used, 1 + c.allow as usize % 3, c.allow as u64 + 77));
        cli_ok(&a, 9 - c.threads)?;
        let t = load(&dir.path("out.json"))?;
        prefix_kept(t.model().vocab(), &m.v)?;
        follow(c, &m.v, &m.used, &m.allow, t.model().vocab(), ctx).map_err(|e| format!("after rearranging the samples: {e}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Prune { part: u8, shrink: Option<F>, em: u8, dropout: F },
    Merge { num: u8, step: u8, scale: F, allow: u8, max_len: u8 },
    Filter { rank: u8, size: Option<u8> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pipe {
    corpus: Corpus,
    procs: Vec<u8>,
    specials: Vec<String>,
    added: Vec<String>,
    suggested: Vec<String>,
    size: u16,
    p: F,
    ops: Vec<Op>,
    texts: Vec<Vec<Frag>>,
    threads: u8,
    /// Which steps (bits) write over their input.
    #[serde(default)]
    over: u8,
}

fn pipe() -> BoxedStrategy<Pipe> {
    let op = prop_oneof![
        3 => (0u8..=100, proptest::option::of((0.0f64..1.0).prop_map(F)), 0u8..3, prop_oneof![2 => Just(0.0), 1 => 0.0f64..0.5].prop_map(F)).prop_map(|(part, shrink, em, dropout)| Op::Prune { part, shrink, em, dropout }),
        3 => (0u8..20, 1u8..6, prop::sample::select(vec![0.9, 1.0, 0.5]).prop_map(F), 0..MERGE_ALLOW.len() as u8, 2u8..20).prop_map(|(num, step, scale, allow, max_len)| Op::Merge { num, step, scale, allow, max_len }),
        2 => (any::<u8>(), proptest::option::of(any::<u8>())).prop_map(|(rank, size)| Op::Filter { rank, size }),
    ];
    let tok = || vec(prop::sample::select(vec!["ab", "abc", "foo ", "好好", "==", " the ", "\r\n", "é", "ﬁ", "x"]).prop_map(str::to_string), 0..4);
    ((corpus(false), procs(), specials(), tok(), tok()), (256u16..420, prop_oneof![2 => Just(1.0), 1 => 0.1f64..1.0].prop_map(F), vec(op, 1..5), vec(text(), 1..4), threads(), prop_oneof![Just(0u8), any::<u8>()]))
        .prop_map(|((corpus, procs, specials, added, suggested), (size, p, ops, texts, threads, over))| Pipe { corpus, procs, specials: specials.into_iter().map(|s| s.replace('\0', "0")).collect(), added, suggested, size, p, ops, texts, threads, over })
        .boxed()
}

fn c25(c: &Pipe, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "c");
    let (train, used) = c.corpus.write(&dir, &[], &c.specials, &c.procs);
    let sp = registered(&c.specials);
    let mut texts: Vec<String> = c.texts.iter().map(|t| resolve(t, &[], &c.specials)).collect();
    texts.extend(used.iter().cloned());
    let added = dir.write("added.json", serde_json::to_string(&c.added).unwrap().as_bytes());
    let suggested = dir.write("suggested.json", serde_json::to_string(&c.suggested).unwrap().as_bytes());
    let mut file = dir.path("t0.json");
    let mut a = args(&["generate", "-v", &c.size.to_string(), "-o", &file, "--insert-probability", &c.p.0.to_string(), "--max-token-length", "8", "--added", &added, "--suggested", &suggested]);
    for p in &c.procs {
        a.extend(args(&["--processor", PROC_NAMES[*p as usize]]));
    }
    for s in &c.specials {
        a.extend(args(&["--special", s]));
    }
    a.extend(train.clone());
    cli_ok(&a, c.threads)?;
    let mut cur = load(&file)?;
    let check = |t: &Tokenizer, keep: &HashSet<Vec<u8>>, what: &str| -> R {
        let f = || -> R {
            same_setup(t, &c.procs, &sp)?;
            let v = t.model().vocab();
            distinct(v)?;
            let have: HashMap<&[u8], &ScoredToken> = value_set(v);
            for b in 0..=255u8 {
                ensure!(have.get(&[b][..]).map_or(false, |t| t.keep), "byte {b:#x} is missing or no longer marked keep");
            }
            for k in keep {
                ensure!(have.get(&k[..]).map_or(false, |t| t.keep), "keep token {:?} is missing or no longer marked keep", show(k));
            }
            lossless(t, &c.procs, &texts)?;
            for s in &texts {
                let ids = sut("encode", || t.encode(s, 0.0))?.map_err(|e| format!("{s:?} no longer encodes: {}", errs(&e)))?;
                let d = sut("decode", || t.decode(&ids, true))?.map_err(|e| errs(&e))?;
                let want: String = split_specials(s, &sp).into_iter().map(|(x, i)| if i.is_some() { x.to_string() } else { process(&c.procs, x) }).collect();
                ensure!(d == want, "{s:?} decodes to {d:?}, expected {want:?}");
            }
            Ok(())
        };
        f().map_err(|e| format!("after {what}: {e}"))
    };
    let keep: HashSet<Vec<u8>> = cur.model().vocab().iter().filter(|t| t.keep).map(|t| t.value.clone()).collect();
    check(&cur, &keep, "generate")?;
    for (i, op) in c.ops.iter().enumerate() {
        let out = if c.over >> (i % 8) & 1 == 1 { file.clone() } else { dir.path(&format!("t{}.json", i + 1)) };
        ctx.label_if(out == file, "output over the input");
        let v = cur.model().vocab();
        let mut a;
        let name;
        match op {
            Op::Prune { part, shrink, em, dropout } => {
                name = "prune";
                a = args(&["prune", "-i", &file, "-o", &out, "-v", &(v.len() * *part as usize / 100).to_string(), "--em-subiters", &em.to_string(), "--dropout", &dropout.0.to_string()]);
                if let Some(s) = shrink {
                    a.extend(args(&["--shrink-factor", &s.0.to_string()]));
                }
                a.extend(train.clone());
            }
            Op::Merge { num, step, scale, allow, max_len } => {
                name = "merge";
                let f = dir.write("allow.regex", MERGE_ALLOW[*allow as usize].as_bytes());
                a = args(&["merge", "-i", &file, "-o", &out, "--allow", &f, "--num-merges", &num.to_string(), "--step", &step.to_string(), "--scale-factor", &scale.0.to_string(), "--max-token-length", &max_len.to_string()]);
                a.extend(train.clone());
            }
            Op::Filter { rank, size } => {
                name = "filter";
                let mut s: Vec<f64> = v.iter().map(|t| t.score).collect();
                s.sort_by(|a, b| a.partial_cmp(b).unwrap());
                a = args(&["filter", "-i", &file, "-o", &out, "--min-score", &format!("{:?}", s[*rank as usize * s.len() / 256])]);
                if let Some(n) = size {
                    a.extend(args(&["--vocab-size", &(v.len() * *n as usize / 256).to_string()]));
                }
            }
        }
        cli_ok(&a, c.threads)?;
        let next = load(&out)?;
        let (before, after) = (value_set(cur.model().vocab()), value_set(next.model().vocab()));
        if name == "merge" {
            ensure!(before.keys().all(|k| after.contains_key(k)), "merge removed a token");
            ctx.label_if(after.len() > before.len(), "merge appended tokens");
        } else {
            if let Some(k) = after.keys().find(|k| !before.contains_key(*k)) {
                return Err(format!("{name} added token {:?}", show(k)));
            }
            ctx.label_if(after.len() < before.len(), if name == "prune" { "prune removed tokens" } else { "filter removed tokens" });
        }
        ctx.nontrivial_if(after.len() != before.len());
        check(&next, &keep, name)?;
        cur = next;
        file = out;
    }
    Ok(())
}

pub fn props() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "C16",
            rule: "there are samples and tokens were removed",
            assumptions: &["single bytes are marked keep; scores are random floats, so that no two segmentations of a token tie exactly", "a run that uses more than 40 s of processor time does not terminate"],
            subs: vec![sub("prune", 3_000, 150_000, || prune(rough, true), c16), sub("large", 32, 1_200, || large_prune(true), c16)],
        },
        PropDef {
            id: "C17",
            rule: "there are samples and the vocabulary exceeds the target",
            assumptions: &["cases in which rounding could decide (ties of segmentations or losses, expected counts near one half) are not compared", "samples are shorter than 80 KiB", "with dropout between 0 and 1, expected counts are compared within a Hoeffding tail of e^-30 (some 5 to 20 per cent)"],
            subs: vec![sub("reference", 3_000, 150_000, || prune(rough, false), c17), sub("large", 64, 1_600, || large_prune(false), c17), sub("huge", 12, 200, huge_prune, c17), sub("em-dropout", 240, 8_000, em_drop, c17_drop)],
        },
        PropDef {
            id: "C18",
            rule: "tokens were removed",
            assumptions: &["the minimum score is a number"],
            subs: vec![sub("filter", 10_000, 250_000, || filter(any_vocab, dyadic), c18), sub("filter-float", 4_000, 100_000, || filter(float_vocab, anyfloat), c18), sub("large", 96, 1_600, large_filter, c18)],
        },
        PropDef {
            id: "C19",
            rule: "tokens were appended",
            assumptions: &["allow patterns are run with the regex crate, on the token with invalid UTF-8 replaced", "a run that uses more than 40 s of processor time does not terminate"],
            subs: vec![sub("merge", 3_000, 150_000, merge, c19), sub("large", 48, 1_600, large_merge, c19)],
        },
        PropDef {
            id: "C20",
            rule: "more than one token was appended",
            assumptions: &["rounds are replayed with the library's own encoder (C02 decides it), so that ties between segmentations fall alike"],
            subs: vec![sub("rounds", 2_400, 120_000, merge, c20), sub("large", 64, 1_600, large_merge, c20), sub("huge", 10, 200, huge_merge, c20)],
        },
        PropDef {
            id: "C25",
            rule: "some command changed the vocabulary",
            assumptions: &["filter runs without force"],
            subs: vec![sub("pipeline", 2_400, 60_000, pipe, c25)],
        },
    ]
}
