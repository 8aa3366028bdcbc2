//! C01-C07 and C11: encoding, decoding, special tokens, IDs, batches, prefix search.
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use tokengeex::{Error, Lattice, Model, ScoredToken, Tokenizer, Trie, VecPool};

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

pub fn toks_of(v: &[ScoredToken], ids: &[u32]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    for &id in ids {
        let t = v.get(id as usize).ok_or_else(|| format!("emitted ID {id} is not a base token (vocabulary size {})", v.len()))?;
        out.extend_from_slice(&t.value);
    }
    Ok(out)
}

pub fn errs(e: &Error) -> String {
    format!("{e:?}")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Full {
    vocab: VocabSpec,
    procs: Vec<u8>,
    specials: Vec<String>,
    text: Vec<Frag>,
    dropout: F,
}

fn full(v: BoxedStrategy<VocabSpec>, d: BoxedStrategy<F>) -> BoxedStrategy<Full> {
    (v, procs(), specials(), text(), d).prop_map(|(vocab, procs, specials, text, dropout)| Full { vocab, procs, specials, text, dropout }).boxed()
}

fn mk(vocab: Vec<ScoredToken>, procs: &[u8], specials: &[String]) -> Result<Tokenizer, String> {
    sut("Tokenizer::new", || Tokenizer::new(Model::from(vocab), wrap(procs), specials.iter()))
}

// ---------------------------------------------------------------- C01

fn expected_decode(text: &str, procs: &[u8], sp: &[String], include: bool) -> String {
    split_specials(text, sp)
        .into_iter()
        .map(|(s, i)| match i {
            Some(_) if include => s.to_string(),
            Some(_) => String::new(),
            None => process(procs, s),
        })
        .collect()
}

fn roundtrip(t: &Tokenizer, text: &str, procs: &[u8], sp: &[String], dropout: f64) -> R {
    let ids = sut("encode", || t.encode(text, dropout))?.map_err(|e| format!("encode failed: {}", errs(&e)))?;
    for include in [true, false] {
        let got = sut("decode", || t.decode(&ids, include))?.map_err(|e| format!("decode failed: {}", errs(&e)))?;
        let want = expected_decode(text, procs, sp, include);
        ensure!(got == want, "decode(encode(text), include_special={include}) = {got:?}, expected {want:?}, ids {ids:?}");
        if procs.is_empty() && include {
            ensure!(got == text, "not lossless: {got:?} from {text:?}");
        }
    }
    let ids = sut("encode_ordinary", || t.encode_ordinary(text, dropout))?.map_err(|e| format!("encode_ordinary failed: {}", errs(&e)))?;
    let got = sut("decode", || t.decode(&ids, true))?.map_err(|e| format!("decode failed: {}", errs(&e)))?;
    let want = process(procs, text);
    ensure!(got == want, "decode(encode_ordinary(text)) = {got:?}, expected {want:?}, ids {ids:?}");
    let got = sut("decode", || t.decode(&ids, false))?.map_err(|e| format!("decode failed: {}", errs(&e)))?;
    ensure!(got == want, "decode(encode_ordinary(text), false) = {got:?}, expected {want:?}, ids {ids:?}");
    Ok(())
}

fn c01(c: &Full, ctx: &mut Ctx) -> R {
    let sp = registered(&c.specials);
    let text = resolve(&c.text, &c.vocab.toks, &sp);
    let t = mk(c.vocab.build(), &c.procs, &c.specials)?;
    let segs = split_specials(&text, &sp);
    ctx.label_if(segs.iter().any(|s| s.1.is_some()) && segs.iter().any(|s| s.1.is_none()), "special tokens between ordinary stretches");
    ctx.label_if(!c.procs.is_empty() && process(&c.procs, &text) != text, "processors change the text");
    ctx.label_if(c.dropout.0 > 0.0 && c.dropout.0 < 1.0, "dropout strictly between 0 and 1");
    ctx.nontrivial_if(text.len() > 1 && !c.vocab.toks.is_empty() && c.vocab.toks.iter().any(|t| t.b.0.len() > 1 && text.as_bytes().windows(t.b.0.len()).any(|w| w == t.b.0)));
    roundtrip(&t, &text, &c.procs, &sp, c.dropout.0)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    vocab: VocabSpec,
    specials: Vec<String>,
    unit: Vec<Frag>,
    times: u32,
    dropout: F,
    big: Option<u64>,
}

fn long() -> BoxedStrategy<Long> {
    (complete_vocab(), specials(), vec(frag(), 1..12), prop_oneof![3 => 50u32..800, 1 => 800u32..6000], dropout(), prop::option::weighted(0.3, any::<u64>()))
        .prop_map(|(vocab, specials, unit, times, dropout, big)| Long { vocab, specials, unit, times, dropout, big })
        .boxed()
}

fn long_parts(c: &Long) -> (Vec<ScoredToken>, Vec<String>, String) {
    let sp = registered(&c.specials);
    match c.big {
        Some(seed) => (big_vocab(66_000 + (seed % 3000) as usize, seed), sp, big_text(c.times as usize * 4, seed)),
        None => {
            let unit = resolve(&c.unit, &c.vocab.toks, &sp);
            // From 100,000 times on: more than a megabyte.
            let most = if c.times < 100_000 { 120_000 } else { 1_050_000 + c.times as usize % 1_500_000 };
            let n = (most / unit.len().max(1)).min(if c.times < 100_000 { c.times as usize } else { most });
            (c.vocab.build(), sp, unit.repeat(n))
        }
    }
}

fn huge_text() -> BoxedStrategy<Long> {
    (long(), vec(tok(dyadic()), 1..6), any::<u32>())
        .prop_map(|(mut c, toks, n)| {
            c.vocab.toks = toks;
            c.unit.truncate(5);
            c.times = 100_000 + n % 1_500_000;
            c.big = None;
            c
        })
        .boxed()
}

fn c01_long(c: &Long, ctx: &mut Ctx) -> R {
    let (v, sp, text) = long_parts(c);
    ctx.label_if(text.len() > 20_000, "text over 20 kB");
    ctx.label_if(v.len() > 65_536, "vocabulary over 65536 tokens");
    ctx.nontrivial_if(text.len() > 1000);
    let t = mk(v, &[], &c.specials)?;
    roundtrip(&t, &text, &[], &sp, c.dropout.0)
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plain {
    vocab: VocabSpec,
    dup: bool,
    procs: Vec<u8>,
    text: Vec<Frag>,
}

fn check_best(v: &[ScoredToken], m: &Model, text: &str, exact: bool, ctx: &mut Ctx) -> R {
    let r = RefVocab::new(v);
    let want = r.best(text.as_bytes());
    let got = sut("Model::encode", || m.encode(text, 0.0))?;
    let again = sut("Model::encode", || m.encode(text, 0.0))?;
    let fresh = sut("Model::encode", || Model::from(v.to_vec()).encode(text, 0.0))?;
    match (&got, want) {
        (Err(Error::NoPath(..)), None) => {
            ctx.label("no segmentation exists");
            ctx.nontrivial();
            ensure!(matches!(again, Err(Error::NoPath(..))) && matches!(fresh, Err(Error::NoPath(..))), "repeated encoding of {text:?} differs");
            Ok(())
        }
        (Err(e), None) => Err(format!("expected the no-path error for {text:?}, got {}", errs(e))),
        (Err(e), Some(_)) => Err(format!("{} although {text:?} can be segmented", errs(e))),
        (Ok(ids), None) => Err(format!("ids {ids:?} although no segmentation of {text:?} exists")),
        (Ok(ids), Some(best)) => {
            let bytes = toks_of(v, ids)?;
            ensure!(bytes == text.as_bytes(), "tokens join to {:?}, not {text:?} (ids {ids:?})", show(&bytes));
            for &id in ids {
                ensure!(m.token_to_id(&v[id as usize].value) == Some(id), "emitted ID {id} is not the ID of its token {:?}", show(&v[id as usize].value));
            }
            let mut s = 0.0;
            for &id in ids {
                s += v[id as usize].score;
            }
            let ok = if exact { s == best } else { (s - best).abs() <= 1e-9 * (1.0 + best.abs() + ids.len() as f64) };
            ensure!(ok, "score {s} of {ids:?} for {text:?}, but {best} is possible");
            ensure!(again.as_ref().ok() == Some(ids) && fresh.as_ref().ok() == Some(ids), "encoding {text:?} again gives other IDs: {ids:?}, {again:?}, {fresh:?}");
            let occ = r.occurrences(text.as_bytes());
            ctx.label_if(occ.len() < 300 && occ.iter().any(|a| occ.iter().any(|b| a.0 < b.0 && b.0 < a.1 && a.1 < b.1)), "overlapping candidates");
            ctx.nontrivial_if(occ.iter().any(|a| a.1 - a.0 > 1) && text.len() > 2);
            Ok(())
        }
    }
}

fn c02(c: &Plain, ctx: &mut Ctx) -> R {
    c02_any(c, true, ctx)
}
fn c02_float(c: &Plain, ctx: &mut Ctx) -> R {
    c02_any(c, false, ctx)
}
fn c02_any(c: &Plain, exact: bool, ctx: &mut Ctx) -> R {
    let v: Vec<ScoredToken> = if c.dup { c.vocab.build_dup().into_iter().filter(|t| !t.value.is_empty()).collect() } else { c.vocab.build() };
    let text = resolve(&c.text, &c.vocab.toks, &[]);
    let m = sut("Model::from", || Model::from(v.clone()))?;
    check_best(&v, &m, &text, exact, ctx)?;
    let processed = process(&c.procs, &text);
    let t = mk(v.clone(), &c.procs, &[])?;
    let a = sut("encode_ordinary", || t.encode_ordinary(&text, 0.0))?;
    let b = sut("encode", || t.encode(&text, 0.0))?;
    let d = sut("Model::encode", || m.encode(&processed, 0.0))?;
    let f = |r: &Result<Vec<u32>, Error>| r.as_ref().map(|x| x.clone()).map_err(errs);
    ensure!(f(&a) == f(&d), "encode_ordinary({text:?}) = {a:?}, the model gives {d:?} for the processed text {processed:?}");
    ensure!(f(&a) == f(&b), "without special tokens encode gives {b:?} and encode_ordinary {a:?} for {text:?}");
    if processed != text {
        check_best(&v, &m, &processed, exact, ctx)?;
    }
    // A model of the same tokens with other scores, made when this one is gone (perhaps in the same memory).
    if text.len() % 4 == 0 && v.len() > 1 {
        let mut w = v.clone();
        for i in 0..w.len() {
            w[i].score = v[(i + 1 + text.len()) % v.len()].score;
        }
        sut("encode_ordinary", || t.encode_ordinary(&text, 0.0)).ok();
        drop(t);
        let x = sut("Model::from", || Model::from(w.clone()))?;
        check_best(&w, &x, &processed, exact, ctx).map_err(|e| format!("a model made after another one was dropped: {e}"))?;
        drop(x);
        sut("Model::encode", || m.encode(&text, 0.0)).ok();
        drop(m);
        let m = sut("Model::from", || Model::from(w.clone()))?;
        check_best(&w, &m, &text, exact, ctx).map_err(|e| format!("a model made after another one was dropped: {e}"))?;
    }
    Ok(())
}

fn plain(v: fn() -> BoxedStrategy<VocabSpec>) -> BoxedStrategy<Plain> {
    (v(), prop::bool::weighted(0.2), prop_oneof![3 => Just(vec![]), 1 => procs()], text()).prop_map(|(vocab, dup, procs, text)| Plain { vocab, dup, procs, text }).boxed()
}

fn c02_long(c: &Long, ctx: &mut Ctx) -> R {
    let (v, _, text) = long_parts(c);
    let m = sut("Model::from", || Model::from(v.clone()))?;
    ctx.label_if(v.len() > 65_536, "vocabulary over 65536 tokens");
    ctx.label_if(text.len() > 20_000, "text over 20 kB");
    let r = RefVocab::new(&v);
    let want = r.best(text.as_bytes());
    let ids = sut("Model::encode", || m.encode(&text, 0.0))?.map_err(|e| format!("complete vocabulary, but {}", errs(&e)))?;
    let bytes = toks_of(&v, &ids)?;
    ensure!(bytes == text.as_bytes(), "tokens do not join to the text");
    let mut s = 0.0;
    for &id in &ids {
        s += v[id as usize].score;
    }
    ensure!(Some(s) == want, "score {s}, but {want:?} is possible ({} bytes)", text.len());
    ctx.nontrivial_if(text.len() > 1000);
    Ok(())
}

// ---------------------------------------------------------------- C03

fn c03_edges(c: &Full, ctx: &mut Ctx) -> R {
    let sp = registered(&c.specials);
    let text = resolve(&c.text, &c.vocab.toks, &sp);
    let v = c.vocab.build();
    let t = mk(v.clone(), &[], &c.specials)?;
    let segs = split_specials(&text, &sp);
    let r = RefVocab::new(&v);
    let p = c.dropout.0;
    let special_ids: Vec<u32> = segs.iter().filter_map(|s| s.1.map(|i| (v.len() + i) as u32)).collect();
    let base = sut("encode", || t.encode(&text, 0.0))?;
    let possible = segs.iter().all(|(s, i)| i.is_some() || r.best(s.as_bytes()).is_some());
    let singles = segs.iter().all(|(s, i)| i.is_some() || s.bytes().all(|b| r.map.contains_key(&vec![b])));
    ctx.nontrivial_if(segs.iter().any(|(s, i)| i.is_none() && r.occurrences(s.as_bytes()).iter().any(|o| o.1 - o.0 > 1)));
    for _ in 0..3 {
        let got = sut("encode", || t.encode(&text, p))?;
        match &got {
            Ok(ids) => {
                let s: Vec<u32> = ids.iter().copied().filter(|&i| i as usize >= v.len()).collect();
                ensure!(s == special_ids, "special token IDs {s:?}, expected {special_ids:?}, in {text:?} at dropout {p}");
                // The stretches between special tokens are segmented exactly.
                let mut it = ids.iter().copied().peekable();
                for (seg, i) in &segs {
                    if i.is_some() {
                        it.next();
                        continue;
                    }
                    let mut bytes = vec![];
                    while bytes.len() < seg.len() {
                        match it.next() {
                            Some(id) if (id as usize) < v.len() => bytes.extend_from_slice(&v[id as usize].value),
                            x => return Err(format!("stretch {seg:?} of {text:?} is not covered: {ids:?} ({x:?})")),
                        }
                    }
                    ensure!(bytes == seg.as_bytes(), "stretch {seg:?} became {:?}", show(&bytes));
                }
                ensure!(it.next().is_none(), "extra tokens for {text:?}: {ids:?}");
                if p >= 1.0 {
                    for &id in ids {
                        ensure!(id as usize >= v.len() || v[id as usize].value.len() == 1, "multi-byte token {id} at dropout {p} in {text:?}");
                    }
                }
                if p <= 0.0 {
                    ensure!(base.as_ref().ok() == Some(ids), "dropout {p} changes the encoding of {text:?}: {ids:?} instead of {base:?}");
                }
            }
            Err(Error::NoPath(..)) => {
                if p <= 0.0 {
                    ensure!(base.is_err() && !possible, "dropout {p}: no path for {text:?} although one exists");
                }
                ensure!(!singles, "no path for {text:?} at dropout {p} although every single byte is a token");
                ctx.label("no path under dropout");
            }
            Err(e) => return Err(format!("unexpected error {}", errs(e))),
        }
        if p >= 1.0 && singles {
            ensure!(got.is_ok(), "no path at dropout {p}");
        }
    }
    let a = sut("encode_ordinary", || t.encode_ordinary(&text, p))?;
    if let Ok(ids) = &a {
        ensure!(toks_of(&v, ids)? == text.as_bytes(), "encode_ordinary at dropout {p} does not join to {text:?}");
        if p >= 1.0 {
            ensure!(ids.iter().all(|&i| v[i as usize].value.len() == 1), "multi-byte token at dropout {p} in {text:?}");
        }
    }
    // The lattice at the two extremes.
    let m = t.model();
    let occ = r.occurrences(text.as_bytes());
    let mut want: Vec<(usize, usize, u32)> = occ.iter().filter(|o| p < 1.0 || o.1 - o.0 == 1).map(|o| (o.0, o.1, o.2)).collect();
    let mut got = lattice_nodes(m, text.as_bytes(), p)?;
    got.sort();
    want.sort();
    if p <= 0.0 || p >= 1.0 {
        ensure!(got == want, "lattice candidates of {text:?} at dropout {p}: {got:?}, expected {want:?}");
    } else {
        ensure!(got.iter().all(|g| want.contains(g)), "lattice holds candidates that do not occur in {text:?}: {got:?} vs {want:?}");
        ensure!(want.iter().all(|w| w.1 - w.0 > 1 || got.contains(w)), "lattice dropped a single-byte token of {text:?}: {got:?} vs {want:?}");
        let mut d = got.clone();
        d.dedup();
        ensure!(d == got, "lattice holds a candidate twice: {got:?}");
    }
    Ok(())
}

fn lattice_nodes(m: &Model, s: &[u8], p: f64) -> Result<Vec<(usize, usize, u32)>, String> {
    sut("populate_nodes", || {
        let mut pool = VecPool::default();
        let mut l = Lattice::default();
        l.from(s, &mut pool);
        m.populate_nodes(&mut l, p);
        l.nodes.iter().filter(|n| n.token_id < u32::MAX - 1).map(|n| (n.pos, n.pos + n.token_len, n.token_id)).collect()
    })
}

/// A small text whose every multi-byte token occurrence can be enumerated.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dist {
    toks: Vec<(B, F)>,
    text: String,
    p: F,
    /// 0 Model::encode, 1 Tokenizer::encode, 2 Tokenizer::encode_ordinary, 3 encode_batch, 4 lattice
    via: u8,
    n: u32,
    /// Tokens that do not occur, in front of the others.
    #[serde(default)]
    filler: u16,
}

fn dist() -> BoxedStrategy<Dist> {
    let piece = prop_oneof![4 => Just("a"), 3 => Just("b"), 2 => Just("é"), 1 => Just("好")];
    (
        vec((vec(piece.clone(), 1..5), (-9.0f64..-0.5).prop_map(F)), 1..7),
        vec(piece, 2..7),
        prop_oneof![4 => 0.05f64..0.95, 1 => Just(0.5), 1 => Just(0.9)].prop_map(F),
        0u8..5,
        Just(4000u32),
        prop_oneof![2 => Just(0u16), 1 => 0u16..600, 1 => any::<u16>()],
    )
        .prop_map(|(t, x, p, via, n, filler)| Dist { filler, toks: t.into_iter().map(|(p, s)| (B(p.concat().into_bytes()), s)).collect(), text: x.concat(), p, via, n })
        .boxed()
}

fn c03_dist(c: &Dist, ctx: &mut Ctx) -> R {
    // Single bytes with scores no sum of which ties.
    let mut v: Vec<ScoredToken> = (0..=255u8).map(|b| ScoredToken::new(vec![b], -5.0 - (b as f64).sqrt() / 7.0, false)).collect();
    v.extend((0..c.filler).map(|i| ScoredToken::new(format!("zz{i}").into_bytes(), -1.0, false)));
    for (b, s) in &c.toks {
        if b.0.len() > 1 && !v.iter().any(|t| t.value == b.0) {
            v.push(ScoredToken::new(b.0.clone(), s.0, false));
        }
    }
    let r = RefVocab::new(&v);
    let occ = r.occurrences(c.text.as_bytes());
    let multi: Vec<_> = occ.iter().filter(|o| o.1 - o.0 > 1).copied().collect();
    if multi.is_empty() || multi.len() > 9 {
        return Ok(());
    }
    ctx.nontrivial();
    let p = c.p.0;
    let t = mk(v.clone(), &[], &[])?;
    let mut counts: HashMap<Vec<u32>, u64> = HashMap::new();
    if c.via == 4 {
        // Joint distribution of the kept candidates.
        for _ in 0..c.n {
            let got = lattice_nodes(t.model(), c.text.as_bytes(), p)?;
            let key: Vec<u32> = multi.iter().map(|o| got.contains(&(o.0, o.1, o.2)) as u32).collect();
            let singles = got.iter().filter(|g| g.1 - g.0 == 1).count();
            ensure!(singles == c.text.len(), "lattice has {singles} single-byte candidates for {} bytes", c.text.len());
            *counts.entry(key).or_default() += 1;
        }
        ctx.label("lattice distribution");
        for i in 0..multi.len() {
            let k: u64 = counts.iter().filter(|(x, _)| x[i] == 0).map(|(_, n)| n).sum();
            ensure!(binomial_ok(k, c.n as u64, p), "candidate {:?} omitted {k} times in {} draws at p={p}", multi[i], c.n);
            for j in 0..i {
                let k: u64 = counts.iter().filter(|(x, _)| x[i] == 0 && x[j] == 0).map(|(_, n)| n).sum();
                ensure!(binomial_ok(k, c.n as u64, p * p), "candidates {:?} and {:?} omitted together {k} times in {} draws at p={p}: not independent", multi[i], multi[j], c.n);
            }
        }
        return Ok(());
    }
    for i in 0..c.n {
        if c.via == 3 {
            if i % 100 == 0 {
                for ids in sut("encode_batch", || t.encode_batch(vec![c.text.as_str(); 100], p))?.map_err(|e| errs(&e))? {
                    *counts.entry(ids).or_default() += 1;
                }
            }
            continue;
        }
        let ids = sut("encode", || match c.via {
            0 => t.model().encode(&c.text, p),
            1 => t.encode(&c.text, p),
            _ => t.encode_ordinary(&c.text, p),
        })?
        .map_err(|e| errs(&e))?;
        *counts.entry(ids).or_default() += 1;
    }
    // Exact distribution of outcomes over all subsets of dropped occurrences.
    let n = c.text.len();
    let mut want: HashMap<Vec<u32>, f64> = HashMap::new();
    for mask in 0u32..1 << multi.len() {
        let mut best: Vec<Option<(f64, Vec<u32>)>> = vec![None; n + 1];
        best[0] = Some((0.0, vec![]));
        let mut gap = f64::INFINITY;
        for end in 1..=n {
            let mut cands: Vec<(f64, Vec<u32>)> = vec![];
            for o in occ.iter().filter(|o| o.1 == end) {
                if let Some(i) = multi.iter().position(|m| m == o) {
                    if mask >> i & 1 == 1 {
                        continue;
                    }
                }
                if let Some((s, path)) = &best[o.0] {
                    let mut path = path.clone();
                    path.push(o.2);
                    cands.push((s + o.3, path));
                }
            }
            cands.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
            if cands.len() > 1 {
                gap = gap.min(cands[0].0 - cands[1].0);
            }
            best[end] = cands.into_iter().next();
        }
        if gap < 1e-9 {
            return Ok(());
        }
        let dropped = mask.count_ones() as i32;
        let w = p.powi(dropped) * (1.0 - p).powi(multi.len() as i32 - dropped);
        *want.entry(best[n].clone().unwrap().1).or_default() += w;
    }
    ctx.label_if(want.len() > 2, "three or more possible outcomes");
    ctx.label("encoding distribution");
    for (ids, k) in &counts {
        ensure!(want.contains_key(ids), "encoding {:?} at p={p} gave {ids:?}, which no set of dropped tokens explains", c.text);
        let _ = k;
    }
    for (ids, w) in &want {
        let k = counts.get(ids).copied().unwrap_or(0);
        ensure!(binomial_ok(k, c.n as u64, w.min(1.0)), "encoding {:?} at p={p} gave {ids:?} {k} times in {}, expected a share of {w:.4}", c.text, c.n);
    }
    Ok(())
}

/// Frequencies over one long text: each occurrence draws anew.
fn c03_long(c: &(F, u16, u64), ctx: &mut Ctx) -> R {
    let (p, seed) = (c.0 .0, c.2);
    // Rare outcomes need many occurrences.
    let rare = p < 0.02 || p > 0.98;
    let n = if rare { 12_000 } else { 200 + c.1 as usize % 400 };
    let mut m = Mix(seed);
    let v = vec![
        ScoredToken::new(b"a".to_vec(), -3.0, false),
        ScoredToken::new(b"b".to_vec(), -3.0, false),
        ScoredToken::new(b"c".to_vec(), -3.0, false),
        ScoredToken::new(b"d".to_vec(), -3.0, false),
        ScoredToken::new(b"ab".to_vec(), -1.0, false),
        ScoredToken::new(b"cd".to_vec(), -2.0, false),
    ];
    let t = mk(v, &[], &[])?;
    let pairs: Vec<bool> = (0..n).map(|_| m.below(2) == 0).collect();
    let text: String = pairs.iter().map(|&x| if x { "ab" } else { "cd" }).collect();
    let nab = pairs.iter().filter(|x| **x).count() as u64;
    let (mut ab, mut cd, mut both, mut adj) = (0u64, 0u64, 0u64, 0u64);
    let rounds = 40;
    for _ in 0..rounds {
        let ids = sut("encode", || t.encode(&text, p))?.map_err(|e| errs(&e))?;
        ab += ids.iter().filter(|&&i| i == 4).count() as u64;
        cd += ids.iter().filter(|&&i| i == 5).count() as u64;
        // Which positions kept their token?
        let mut kept = vec![];
        let mut i = 0;
        while i < ids.len() {
            if ids[i] >= 4 {
                kept.push(true);
                i += 1;
            } else {
                kept.push(false);
                i += 2;
            }
        }
        ensure!(kept.len() == n, "unexpected segmentation");
        for w in kept.chunks_exact(2) {
            adj += 1;
            both += (!w[0] && !w[1]) as u64;
        }
    }
    ctx.nontrivial();
    let total = rounds as u64;
    ensure!(binomial_ok(ab, nab * total, 1.0 - p), "token ab kept {ab} of {} times at p={p}", nab * total);
    ensure!(binomial_ok(cd, (n as u64 - nab) * total, 1.0 - p), "token cd kept {cd} of {} times at p={p}", (n as u64 - nab) * total);
    ensure!(binomial_ok(both, adj, p * p), "neighbouring occurrences dropped together {both} of {adj} times at p={p}");
    Ok(())
}

// ---------------------------------------------------------------- C04

fn c04(c: &Full, ctx: &mut Ctx) -> R {
    let sp = registered(&c.specials);
    let text = resolve(&c.text, &c.vocab.toks, &sp);
    let v = c.vocab.build();
    let t = mk(v.clone(), &c.procs, &c.specials)?;
    let segs = split_specials(&text, &sp);
    let mut want: Result<Vec<u32>, ()> = Ok(vec![]);
    for (s, i) in &segs {
        match i {
            Some(i) => {
                if let Ok(w) = &mut want {
                    w.push((v.len() + i) as u32)
                }
            }
            None => match sut("encode_ordinary", || t.encode_ordinary(s, 0.0))? {
                Ok(ids) => {
                    ensure!(ids.iter().all(|&x| (x as usize) < v.len()), "encode_ordinary({s:?}) yields a special ID: {ids:?}");
                    let direct = sut("Model::encode", || t.model().encode(&process(&c.procs, s), 0.0))?.map_err(|e| errs(&e))?;
                    ensure!(direct == ids, "encode_ordinary({s:?}) = {ids:?}, the processed stretch encodes to {direct:?}");
                    if let Ok(w) = &mut want {
                        w.extend(ids)
                    }
                }
                Err(_) => want = Err(()),
            },
        }
    }
    ctx.label_if(segs.len() > 1, "mixed segments");
    ctx.label_if(c.specials.iter().any(|s| s.is_empty()), "empty special token registered");
    ctx.label_if(sp.iter().any(|a| sp.iter().any(|b| a != b && !b.is_empty() && a.starts_with(b.as_str()))), "special token that is a prefix of another");
    ctx.nontrivial_if(segs.iter().any(|s| s.1.is_some()) && segs.len() > 1);
    let got = sut("encode", || t.encode(&text, 0.0))?;
    match (&got, &want) {
        (Ok(g), Ok(w)) => ensure!(g == w, "encode({text:?}) = {g:?}, expected {w:?}; segments {segs:?}"),
        (Err(_), Err(())) => {}
        _ => return Err(format!("encode({text:?}) = {got:?}, expected {want:?}; segments {segs:?}")),
    }
    let whole = sut("encode_ordinary", || t.encode_ordinary(&text, 0.0))?;
    if let Ok(ids) = &whole {
        ensure!(ids.iter().all(|&x| (x as usize) < v.len()), "encode_ordinary({text:?}) yields a special ID: {ids:?}");
    }
    // The same special tokens registered one by one behave the same.
    let mut u = mk(v, &c.procs, &[])?;
    for s in &c.specials {
        sut("add_special_tokens", || u.add_special_tokens([s.as_str()]))?;
    }
    let other = sut("encode", || u.encode(&text, 0.0))?;
    ensure!(other.as_ref().ok() == got.as_ref().ok(), "special tokens added one by one give {other:?} instead of {got:?} for {text:?}");
    Ok(())
}

/// A special token after more than a megabyte of other text.
fn c04_huge(c: &Long, ctx: &mut Ctx) -> R {
    let (v, sp, text) = long_parts(c);
    let mut text: String = split_specials(&text, &sp).into_iter().filter(|s| s.1.is_none()).map(|s| s.0).collect();
    for s in &sp {
        text.push_str(s);
        text.push_str("ab");
    }
    let t = mk(v.clone(), &[], &c.specials)?;
    let segs = split_specials(&text, &sp);
    let mut want = vec![];
    for (s, i) in &segs {
        match i {
            Some(i) => want.push((v.len() + i) as u32),
            None => want.extend(sut("encode_ordinary", || t.encode_ordinary(s, 0.0))?.map_err(|e| errs(&e))?),
        }
    }
    let got = sut("encode", || t.encode(&text, 0.0))?.map_err(|e| errs(&e))?;
    ctx.nontrivial_if(segs.len() > 1 && text.len() > 1_000_000);
    ensure!(got == want, "a text of {} bytes in {} segments is encoded otherwise than segment by segment, from ID {:?} on", text.len(), segs.len(), got.iter().zip(&want).position(|x| x.0 != x.1));
    Ok(())
}

fn many() -> BoxedStrategy<Full> {
    (full(any_vocab(), Just(F(0.0)).boxed()), prop_oneof![1 => many_specials(), 1 => long_specials()], vec(prop_oneof![3 => any::<u16>().prop_map(Frag::Sp), 2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Frag::Cut(a, b)), 1 => frag()], 0..16))
        .prop_map(|(mut c, sp, text)| {
            c.specials = sp;
            c.text = text;
            c
        })
        .boxed()
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Base(u8, Vec<Tok>),
    Special(u8, Vec<String>),
    Clone(u8),
    Text(u8),
    File(u8),
    Encode(u8, Vec<Frag>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    vocab: VocabSpec,
    specials: Vec<String>,
    procs: Vec<u8>,
    ops: Vec<Op>,
    probes: Vec<u32>,
}

fn hist() -> BoxedStrategy<Hist> {
    let op = prop_oneof![
        3 => (0u8..4, vec(tok(dyadic()), 0..5)).prop_map(|(i, t)| Op::Base(i, t)),
        3 => (0u8..4, vec(special(), 0..5)).prop_map(|(i, t)| Op::Special(i, t)),
        2 => (0u8..4).prop_map(Op::Clone),
        1 => (0u8..4).prop_map(Op::Text),
        1 => (0u8..4).prop_map(Op::File),
        3 => (0u8..4, vec(frag(), 0..8)).prop_map(|(i, t)| Op::Encode(i, t)),
    ];
    (any_vocab(), prop_oneof![12 => specials(), 1 => many_specials()], procs(), vec(op, 0..9), vec(any::<u32>(), 0..4)).prop_map(|(vocab, specials, procs, ops, probes)| Hist { vocab, specials, procs, ops, probes }).boxed()
}

#[derive(Clone)]
struct Twin {
    t: Tokenizer,
    base: Vec<ScoredToken>,
    sp: Vec<String>,
}

fn check_ids(w: &Twin, probes: &[u32], others: &[Vec<u8>]) -> R {
    let (t, n, s) = (&w.t, w.base.len(), w.sp.len());
    ensure!(t.base_vocab_size() == n && t.special_vocab_size() == s && t.vocab_size() == n + s, "sizes {} / {} / {}, expected {n} / {s} / {}", t.base_vocab_size(), t.special_vocab_size(), t.vocab_size(), n + s);
    ensure!(t.special_tokens() == w.sp, "special_tokens() = {:?}, expected {:?}", t.special_tokens(), w.sp);
    ensure!(t.model().vocab() == &w.base[..], "base vocabulary differs");
    let mut last: HashMap<&[u8], u32> = HashMap::new();
    for (i, tok) in w.base.iter().enumerate() {
        last.insert(&tok.value, i as u32);
    }
    let ids = (0..(n + s + 3) as u32).chain(probes.iter().copied()).chain([u32::MAX, u32::MAX - 1, 1 << 31, 65536, 65535]);
    for id in ids {
        let i = id as usize;
        let want_base = w.base.get(i);
        let want_sp = if i >= n { w.sp.get(i - n) } else { None };
        ensure!(t.is_base(id) == want_base.is_some(), "is_base({id}) = {}, with {n} base tokens", t.is_base(id));
        ensure!(t.is_special(id) == want_sp.is_some(), "is_special({id}) = {}, with {n} base and {s} special tokens", t.is_special(id));
        let b = t.id_to_base_token(id);
        ensure!(b.as_ref() == want_base, "id_to_base_token({id}) = {b:?}, expected {want_base:?}");
        let p = t.id_to_special_token(id);
        ensure!(p.as_ref() == want_sp, "id_to_special_token({id}) = {p:?}, expected {want_sp:?}");
        let a = t.id_to_token(id);
        let want = want_base.map(|t| t.value.clone()).or(want_sp.map(|s| s.clone().into_bytes()));
        ensure!(a == want, "id_to_token({id}) = {:?}, expected {:?}", a.as_deref().map(show), want.as_deref().map(show));
    }
    let known = w.base.iter().map(|t| t.value.clone()).chain(w.sp.iter().map(|s| s.clone().into_bytes())).chain(others.iter().cloned());
    for tok in known {
        let want_base = last.get(&tok[..]).copied();
        let got = t.base_token_to_id(&tok);
        ensure!(got == want_base, "base_token_to_id({:?}) = {got:?}, expected {want_base:?}", show(&tok));
        let mut want_sp = None;
        if let Ok(st) = std::str::from_utf8(&tok) {
            want_sp = w.sp.iter().position(|x| x == st).map(|i| (n + i) as u32);
            let got = t.special_token_to_id(st);
            ensure!(got == want_sp, "special_token_to_id({st:?}) = {got:?}, expected {want_sp:?}");
        }
        let got = t.token_to_id(&tok);
        let ok = match got {
            None => want_base.is_none() && want_sp.is_none(),
            x => (x == want_base || x == want_sp) && x.is_some(),
        };
        ensure!(ok, "token_to_id({:?}) = {got:?}, expected {want_base:?} or {want_sp:?}", show(&tok));
    }
    Ok(())
}

fn c05(c: &Hist, ctx: &mut Ctx) -> R {
    let base = c.vocab.build_dup();
    let mut ws = vec![Twin { t: mk(base.clone(), &c.procs, &c.specials)?, base, sp: registered(&c.specials) }];
    let mut others: Vec<Vec<u8>> = vec![b"zz".to_vec(), vec![], vec![0xff, 0xfe], b"<".to_vec(), b"a".to_vec(), "好".as_bytes().to_vec()];
    for op in &c.ops {
        match op {
            Op::Base(_, t) => others.extend(t.iter().map(|t| t.b.0.clone())),
            Op::Special(_, s) => others.extend(s.iter().map(|s| s.clone().into_bytes())),
            _ => {}
        }
    }
    let mut kinds = std::collections::HashSet::new();
    check_ids(&ws[0], &c.probes, &others)?;
    for op in &c.ops {
        let n = ws.len();
        kinds.insert(std::mem::discriminant(op));
        let at = match op {
            Op::Base(i, toks) => {
                let w = &mut ws[*i as usize % n];
                let add: Vec<ScoredToken> = toks.iter().map(Tok::scored).collect();
                sut("add_base_tokens", || w.t.add_base_tokens(add.clone()))?;
                w.base.extend(add);
                *i
            }
            Op::Special(i, sp) => {
                let w = &mut ws[*i as usize % n];
                sut("add_special_tokens", || w.t.add_special_tokens(sp.iter()))?;
                w.sp.extend(sp.iter().cloned());
                w.sp = registered(&w.sp);
                *i
            }
            Op::Clone(i) => {
                let w = ws[*i as usize % n].clone();
                if ws.len() < 4 {
                    ws.push(w);
                }
                *i
            }
            Op::Text(i) => {
                let w = &mut ws[*i as usize % n];
                let s = sut("to_string", || w.t.to_string())?;
                w.t = sut("from_str", || s.parse::<Tokenizer>())?.map_err(|e| format!("cannot load what was saved: {e}"))?;
                *i
            }
            Op::File(i) => {
                let w = &mut ws[*i as usize % n];
                let f = ctx.scratch.join("t.json");
                let f = f.to_str().unwrap();
                sut("save", || w.t.save(f).map_err(|e| e.to_string()))?.map_err(|e| format!("save failed: {e}"))?;
                w.t = sut("from_file", || Tokenizer::from_file(f))?.map_err(|e| format!("cannot load what was saved: {e}"))?;
                *i
            }
            Op::Encode(i, text) => {
                let w = &ws[*i as usize % n];
                let all: Vec<Tok> = w.base.iter().filter(|t| t.value.len() > 1).map(|t| Tok { b: B(t.value.clone()), s: F(0.0), k: false }).collect();
                let text = resolve(text, &all, &w.sp);
                for ordinary in [false, true] {
                    let ids = sut("encode", || if ordinary { w.t.encode_ordinary(&text, 0.0) } else { w.t.encode(&text, 0.0) })?;
                    if ordinary {
                        // Tokens added later are tokens like the others.
                        let text = process(&c.procs, &text);
                        let best = RefVocab::new(&w.base).best(text.as_bytes());
                        match &ids {
                            Ok(ids) => {
                                let bytes = toks_of(&w.base, ids)?;
                                ensure!(bytes == text.as_bytes(), "tokens join to {:?}, not {text:?} (ids {ids:?})", show(&bytes));
                                let s: f64 = ids.iter().fold(0.0, |s, &i| s + w.base[i as usize].score);
                                ensure!(Some(s) == best, "score {s} of {ids:?} for {text:?}, but {best:?} is possible");
                            }
                            Err(_) => ensure!(best.is_none(), "no path for {text:?}, but score {best:?} is possible"),
                        }
                    }
                    if let Ok(ids) = ids {
                        for &id in &ids {
                            let (b, s) = (w.t.id_to_base_token(id), w.t.id_to_special_token(id));
                            let back = match (&b, &s) {
                                (Some(b), None) => w.t.base_token_to_id(&b.value),
                                (None, Some(s)) => w.t.special_token_to_id(s),
                                _ => None,
                            };
                            ensure!(back == Some(id), "encoding {text:?} emits ID {id}, whose token {b:?}/{s:?} maps to {back:?}");
                        }
                        ctx.label_if(ids.iter().any(|&i| w.t.is_special(i)), "special ID emitted");
                    }
                }
                *i
            }
        };
        let _ = at;
        for w in &ws {
            check_ids(w, &c.probes, &others)?;
        }
    }
    ctx.nontrivial_if(kinds.len() >= 3);
    ctx.label_if(ws.len() > 1, "several copies");
    Ok(())
}

fn c05_big(c: &(u64, Vec<String>), ctx: &mut Ctx) -> R {
    let base = big_vocab(if c.0 % 8 == 1 { 262_100 + (c.0 % 100) as usize } else { 65_530 + (c.0 % 40) as usize }, c.0);
    let mut specials = c.1.clone();
    if c.0 % 8 == 2 {
        specials.extend((0..66_000).map(|i| format!("<|{i}|>")));
    }
    let sp = registered(&specials);
    let mut w = Twin { t: mk(base.clone(), &[], &specials)?, base, sp };
    if c.0 % 8 == 2 {
        let i = w.sp.len() - 1 - (c.0 % 300) as usize;
        let want = vec![(w.base.len() + i) as u32];
        let got = sut("encode", || w.t.encode(&w.sp[i], 0.0))?.map_err(|e| errs(&e))?;
        ensure!(got == want || split_specials(&w.sp[i], &w.sp).len() > 1, "special token {i} is encoded as {got:?}, not {want:?}");
    }
    check_ids(&w, &[], &[])?;
    let add: Vec<ScoredToken> = (0..20).map(|i| ScoredToken::new(format!("new{i}").into_bytes(), -1.0, false)).collect();
    sut("add_base_tokens", || w.t.add_base_tokens(add.clone()))?;
    w.base.extend(add);
    ctx.nontrivial();
    check_ids(&w, &[], &[])?;
    let ids = sut("encode", || w.t.encode(&format!("new7new19{}", big_text(300, c.0)), 0.0))?.map_err(|e| errs(&e))?;
    for id in ids {
        let back = match (w.t.id_to_base_token(id), w.t.id_to_special_token(id)) {
            (Some(b), None) => w.t.base_token_to_id(&b.value),
            (None, Some(s)) => w.t.special_token_to_id(&s),
            _ => None,
        };
        ensure!(back == Some(id), "emitted ID {id} is not the ID of its token");
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
enum IdSpec {
    Base(u16),
    Byte(u8),
    Special(u16),
    Beyond(u32),
    Raw(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dec {
    vocab: VocabSpec,
    specials: Vec<String>,
    procs: Vec<u8>,
    ids: Vec<IdSpec>,
    /// The known ones among the IDs come this many times in front of them all.
    #[serde(default)]
    before: u32,
}

fn dec() -> BoxedStrategy<Dec> {
    let bad = prop_oneof![2 => (0u32..3).prop_map(IdSpec::Beyond), 1 => any::<u32>().prop_map(IdSpec::Raw), 1 => Just(IdSpec::Raw(u32::MAX)), 1 => Just(IdSpec::Raw(65536))];
    let good = prop_oneof![
        4 => (0u16..32).prop_map(IdSpec::Base),
        4 => (0..14usize).prop_map(|i| IdSpec::Byte([0x61, 0xc3, 0xa9, 0xe5, 0xa5, 0xbd, 0xff, 0x00, 0xf0, 0x9f, 0x98, 0x80, 0xed, 0x0d][i])),
        1 => any::<u8>().prop_map(IdSpec::Byte),
        3 => (0u16..8).prop_map(IdSpec::Special)
    ];
    let ids = prop_oneof![
        3 => vec(good.clone(), 0..20),
        1 => vec(prop_oneof![8 => good, 1 => bad], 0..12),
    ];
    (any_vocab(), specials(), procs(), ids).prop_map(|(vocab, specials, procs, ids)| Dec { vocab, specials, procs, ids, before: 0 }).boxed()
}

fn c06(c: &Dec, ctx: &mut Ctx) -> R {
    let base: Vec<ScoredToken> = c.vocab.build_dup();
    let sp = registered(&c.specials);
    let (n, s) = (base.len(), sp.len());
    let t = mk(base.clone(), &c.procs, &c.specials)?;
    let listed: Vec<u32> = base.iter().enumerate().filter(|(_, t)| t.value.len() != 1).map(|(i, _)| i as u32).collect();
    let mut ids: Vec<u32> = c
        .ids
        .iter()
        .filter_map(|x| match x {
            IdSpec::Base(i) if !listed.is_empty() => Some(listed[*i as usize % listed.len()]),
            IdSpec::Byte(b) => base.iter().position(|t| t.value == [*b]).map(|i| i as u32),
            IdSpec::Special(i) if s > 0 => Some((n + *i as usize % s) as u32),
            IdSpec::Beyond(k) => Some((n + s) as u32 + k),
            IdSpec::Raw(k) => Some(*k),
            _ => None,
        })
        .collect();
    if c.before > 0 {
        let known: Vec<u32> = ids.iter().copied().filter(|&i| (i as usize) < n + s).collect();
        let bytes: usize = known.iter().map(|&i| base.get(i as usize).map_or(8, |t| t.value.len())).sum();
        let times = (c.before as usize).min(400_000 / bytes.max(1));
        ids = known.iter().copied().cycle().take(known.len() * times).chain(ids).collect();
        ctx.label_if(ids.len() > 5000, "over 5000 IDs");
    }
    let bad: Vec<u32> = ids.iter().copied().filter(|&i| i as usize >= n + s).collect();
    ctx.label_if(!bad.is_empty(), "contains an unknown ID");
    let mut runs: Vec<Result<Vec<u8>, usize>> = vec![];
    for &i in ids.iter().filter(|&&i| (i as usize) < n + s) {
        if (i as usize) < n {
            match runs.last_mut() {
                Some(Ok(r)) => r.extend_from_slice(&base[i as usize].value),
                _ => runs.push(Ok(base[i as usize].value.clone())),
            }
        } else {
            runs.push(Err(i as usize - n));
        }
    }
    ctx.label_if(runs.iter().any(|r| matches!(r, Ok(b) if std::str::from_utf8(b).is_err())), "base run is not valid UTF-8");
    ctx.nontrivial_if(ids.len() > 1 && (!bad.is_empty() || runs.len() > 1 || runs.iter().any(|r| matches!(r, Ok(b) if !b.is_ascii()))));
    for include in [true, false] {
        let got = sut("decode", || t.decode(&ids, include))?;
        if !bad.is_empty() {
            match got {
                Err(Error::TokenIdOutOfBounds(x)) => ensure!(bad.contains(&x), "error names ID {x}, but {bad:?} are the unknown ones"),
                x => return Err(format!("decode of {ids:?} = {x:?}, but {bad:?} are unknown IDs ({n} base, {s} special)")),
            }
            continue;
        }
        let got = got.map_err(|e| format!("decode({ids:?}) failed: {}", errs(&e)))?;
        let lossy = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
        let want: String = runs
            .iter()
            .map(|r| match r {
                Ok(b) => lossy(b),
                Err(i) if include => sp[*i].clone(),
                Err(_) => String::new(),
            })
            .collect();
        let joined = lossy(&runs.iter().filter_map(|r| r.as_ref().ok()).flatten().copied().collect::<Vec<u8>>());
        // With special tokens cut out, neighbouring runs may or may not be joined before decoding.
        ensure!(got == want || (!include && got == joined), "decode({ids:?}, {include}) = {got:?}, expected {want:?}");
    }
    let m = sut("Model::decode", || t.model().decode(&ids))?;
    let badm: Vec<u32> = ids.iter().copied().filter(|&i| i as usize >= n).collect();
    match m {
        Err(Error::TokenIdOutOfBounds(x)) if badm.contains(&x) => {}
        Ok(s) if badm.is_empty() => {
            let want = String::from_utf8_lossy(&toks_of(&base, &ids)?).into_owned();
            ensure!(s == want, "Model::decode({ids:?}) = {s:?}, expected {want:?}");
        }
        x => return Err(format!("Model::decode({ids:?}) = {x:?} with {n} tokens")),
    }
    Ok(())
}

/// Megabytes of text, from tokens of a byte each and some longer ones.
fn c06_huge(c: &(String, u32, u64), ctx: &mut Ctx) -> R {
    let mut base: Vec<ScoredToken> = (0..=255u8).map(|b| ScoredToken::from_u8(b, -1.0, true)).collect();
    base.push(ScoredToken::new(vec![0xe5, 0xa5], -1.0, false));
    base.push(ScoredToken::new("é好".as_bytes().to_vec(), -1.0, false));
    let t = mk(base.clone(), &[], &["<s>".into()])?;
    let mut m = Mix(c.2);
    let unit: Vec<u32> = c.0.bytes().map(u32::from).chain([257, 0xc3]).collect();
    let mut ids = vec![];
    while ids.len() < c.1 as usize {
        ids.extend(&unit);
        match m.below(40) {
            0 => ids.push(0xf0),
            1 => ids.push(256),
            2 => ids.extend([0x9f, 0x98]),
            3 => ids.push(b'x'.into()),
            _ => {}
        }
    }
    let mut bytes = vec![];
    for i in &ids {
        bytes.extend(&base[*i as usize].value);
    }
    let want = String::from_utf8_lossy(&bytes).into_owned();
    let got = sut("decode", || t.decode(&ids, true))?.map_err(|e| errs(&e))?;
    let model = sut("Model::decode", || t.model().decode(&ids))?.map_err(|e| errs(&e))?;
    ctx.nontrivial_if(bytes.len() > 1 << 20);
    for (what, got) in [("decode", got), ("Model::decode", model)] {
        ensure!(got == want, "{what} of {} IDs gives {} bytes instead of {}, which differ from byte {:?} on", ids.len(), got.len(), want.len(), got.bytes().zip(want.bytes()).position(|x| x.0 != x.1));
    }
    Ok(())
}

fn c06_big(c: &(u64, Vec<u32>), ctx: &mut Ctx) -> R {
    let base = big_vocab(65_600 + (c.0 % 100) as usize, c.0);
    let n = base.len();
    let t = mk(base.clone(), &[], &["<s>".into()])?;
    let ids: Vec<u32> = c.1.iter().map(|i| i % (n as u32 + 1)).filter(|&i| (i as usize) == n || (i as usize) < 128 || (i as usize) >= 256).collect();
    let want: String = ids.iter().map(|&i| if i as usize == n { "<s>".to_string() } else { String::from_utf8(base[i as usize].value.clone()).unwrap() }).collect();
    let got = sut("decode", || t.decode(&ids, true))?.map_err(|e| errs(&e))?;
    ensure!(got == want, "decode({ids:?}) = {got:?}, expected {want:?}");
    ctx.nontrivial_if(ids.iter().any(|i| *i > 65535));
    let e = sut("decode", || t.decode(&[0, n as u32 + 1], true))?;
    ensure!(matches!(e, Err(Error::TokenIdOutOfBounds(x)) if x == n as u32 + 1), "unknown ID gives {e:?}");
    Ok(())
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Batch {
    vocab: VocabSpec,
    specials: Vec<String>,
    procs: Vec<u8>,
    texts: Vec<Vec<Frag>>,
    repeat: u32,
    bad_ids: Vec<(u16, u32)>,
    threads: u8,
    drop1: bool,
    /// Every other text is repeated up to this many bytes.
    #[serde(default)]
    stretch: u32,
}

fn batch() -> BoxedStrategy<Batch> {
    (any_vocab(), specials(), procs(), vec(vec(frag(), 0..6), 0..12), prop_oneof![4 => Just(1u32), 2 => 2u32..8, 1 => 30u32..60], vec((any::<u16>(), 0u32..5), 0..3), 1u8..9, prop::bool::weighted(0.1))
        .prop_map(|(vocab, specials, procs, texts, repeat, bad_ids, threads, drop1)| Batch { vocab, specials, procs, texts, repeat, bad_ids, threads, drop1, stretch: 0 })
        .boxed()
}

thread_local! { static POOLS: std::cell::RefCell<HashMap<u8, std::rc::Rc<rayon::ThreadPool>>> = Default::default(); }
fn pool(n: u8) -> std::rc::Rc<rayon::ThreadPool> {
    POOLS.with(|p| p.borrow_mut().entry(n).or_insert_with(|| std::rc::Rc::new(rayon::ThreadPoolBuilder::new().num_threads(n as usize).build().unwrap())).clone())
}

fn agree<T: PartialEq + std::fmt::Debug>(what: &str, got: Result<Vec<T>, Error>, single: Vec<Result<T, Error>>) -> R {
    let errors: Vec<String> = single.iter().filter_map(|r| r.as_ref().err().map(errs)).collect();
    match got {
        Err(e) => {
            ensure!(errors.contains(&errs(&e)), "{what} fails with {}, but the failures of its elements are {errors:?}", errs(&e));
        }
        Ok(v) => {
            ensure!(errors.is_empty(), "{what} succeeds although elements fail on their own: {errors:?}");
            ensure!(v.len() == single.len(), "{what} returns {} results for {} elements", v.len(), single.len());
            for (i, (a, b)) in v.iter().zip(&single).enumerate() {
                ensure!(Some(a) == b.as_ref().ok(), "{what}: element {i} is {a:?}, on its own {b:?}");
            }
        }
    }
    Ok(())
}

fn c07(c: &Batch, ctx: &mut Ctx) -> R {
    let sp = registered(&c.specials);
    let v = c.vocab.build();
    let t = mk(v.clone(), &c.procs, &c.specials)?;
    let mut one: Vec<String> = c.texts.iter().map(|f| resolve(f, &c.vocab.toks, &sp)).collect();
    if c.repeat > 1000 {
        for s in one.iter_mut() {
            let end = (0..=s.len().min(60)).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
            s.truncate(end);
        }
    }
    if c.stretch > 0 {
        one.iter_mut().step_by(2).filter(|s| !s.is_empty()).for_each(|s| *s = s.repeat(1 + c.stretch as usize / s.len()));
        ctx.label("items over 100 kB");
    }
    let texts: Vec<String> = (0..c.repeat).flat_map(|_| one.iter().cloned()).collect();
    let d = if c.drop1 { 1.0 } else { 0.0 };
    ctx.label_if(texts.is_empty(), "empty batch");
    ctx.label_if(texts.len() > 100, "over 100 items");
    ctx.nontrivial_if(texts.len() > 1);
    let p = pool(c.threads);
    let single: Vec<_> = texts.iter().map(|s| sut("encode", || t.encode(s, d))).collect::<Result<_, _>>()?;
    ctx.label_if(single.iter().any(|r| r.is_err()), "some element fails");
    let mut ids: Vec<Vec<u32>> = single.iter().map(|r| r.as_ref().map(|x| x.clone()).unwrap_or_default()).collect();
    let got = sut("encode_batch", || p.install(|| t.encode_batch(&texts, d)))?;
    agree("encode_batch", got, single)?;
    let refs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
    let single: Vec<_> = texts.iter().map(|s| sut("encode_ordinary", || t.encode_ordinary(s, d))).collect::<Result<_, _>>()?;
    let got = sut("encode_ordinary_batch", || p.install(|| t.encode_ordinary_batch(refs, d)))?;
    agree("encode_ordinary_batch", got, single)?;
    for (i, k) in &c.bad_ids {
        if !ids.is_empty() {
            let at = *i as usize % ids.len();
            ids[at].push((v.len() + sp.len()) as u32 + k);
        }
    }
    for include in [true, false] {
        let single: Vec<_> = ids.iter().map(|s| sut("decode", || t.decode(s, include))).collect::<Result<_, _>>()?;
        let got = sut("decode_batch", || p.install(|| t.decode_batch(&ids, include)))?;
        agree("decode_batch", got, single)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Search {
    vocab: VocabSpec,
    adds: Vec<Vec<Tok>>,
    queries: Vec<Vec<Frag>>,
    raw: Vec<B>,
    junk: B,
    /// Filler tokens in front of the others.
    #[serde(default)]
    pre: u16,
}

fn search() -> BoxedStrategy<Search> {
    let pre = prop_oneof![9 => Just(0u16), 1 => prop::sample::select(vec![1u16, 200, 700, 1000, 1100])];
    (any_vocab(), vec(vec(tok(dyadic()), 0..6), 0..4), vec(vec(frag(), 0..5), 1..5), vec(token_bytes(), 0..4), token_bytes(), pre)
        .prop_map(|(vocab, adds, queries, raw, junk, pre)| Search { vocab, adds, queries, raw, junk, pre })
        .boxed()
}

fn c11(c: &Search, ctx: &mut Ctx) -> R {
    let mut all: Vec<ScoredToken> = big_vocab(256 + c.pre as usize, 9).split_off(256);
    all.extend(c.vocab.build_dup());
    ctx.label_if(c.pre > 0, "prefilled vocabulary");
    let mut m = sut("Model::from", || Model::from(all.clone()))?;
    let mut trie: Trie<usize> = Trie::default();
    for (i, t) in all.iter().enumerate() {
        sut("Trie::push", || trie.push(&t.value, i))?;
    }
    let mut steps = vec![vec![]];
    steps.extend(c.adds.iter().cloned());
    if c.pre > 0 {
        // Some listed tokens once more.
        steps.push(c.vocab.toks.iter().take(3).cloned().collect());
    }
    for add in steps {
        for t in add.iter().map(Tok::scored) {
            sut("Trie::push", || trie.push(&t.value, all.len()))?;
            all.push(t);
        }
        sut("add_tokens", || m.add_tokens(add.iter().map(Tok::scored)))?;
        let mut last: HashMap<&[u8], u32> = HashMap::new();
        for (i, t) in all.iter().enumerate() {
            last.insert(&t.value, i as u32);
        }
        let copy = trie.clone();
        let queries = c.queries.iter().map(|q| resolve(q, &c.vocab.toks, &[]).into_bytes()).chain(c.raw.iter().map(|b| b.0.clone())).chain([vec![]]);
        for q in queries {
            let want: Vec<(u32, u32)> = (1..=q.len()).filter_map(|n| last.get(&q[..n]).map(|i| (*i, n as u32))).collect();
            ctx.nontrivial_if(want.len() > 1);
            ctx.label_if(want.len() > 2, "three or more prefixes");
            for junk in [vec![], c.junk.0.clone()] {
                let mut buf = junk;
                let got: Vec<(u32, u32)> = sut("common_prefix_search", || m.common_prefix_search(&q, &mut buf).collect())?;
                ensure!(got == want, "prefixes of {:?}: {got:?}, expected {want:?}", show(&q));
            }
            for t in [&trie, &copy] {
                let mut buf = vec![];
                let got: Vec<usize> = sut("Trie::common_prefix_search", || t.common_prefix_search(q.iter().copied(), &mut buf).collect())?;
                let want: Vec<usize> = want.iter().map(|w| w.0 as usize).collect();
                ensure!(got == want, "trie prefixes of {:?}: {got:?}, expected {want:?}", show(&q));
            }
        }
    }
    Ok(())
}

/// Tokens around powers of two in length, all prefixes of one another.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    lens: Vec<u32>,
    cuts: Vec<u32>,
    seed: u64,
}

fn giant() -> BoxedStrategy<Giant> {
    let len = || {
        (prop_oneof![4 => 6u32..13, 2 => 13u32..18], -2i32..3, 0u32..40, any::<bool>())
            .prop_map(|(e, d, x, far)| ((1i32 << e) + d) as u32 + if far { x } else { 0 })
            .boxed()
    };
    (vec(len(), 1..5), vec(len(), 0..4), vec((any::<u16>(), -1i32..3), 0..3), any::<u64>())
        .prop_map(|(lens, mut cuts, near, seed)| {
            cuts.extend(near.iter().map(|(i, d)| (lens[*i as usize % lens.len()] as i32 + d) as u32));
            Giant { lens, cuts, seed }
        })
        .boxed()
}

fn giant_vocab(c: &Giant) -> (Vec<ScoredToken>, Vec<u32>, String) {
    let mut lens = c.lens.clone();
    lens.sort();
    lens.dedup();
    let max = lens.iter().chain(&c.cuts).max().copied().unwrap_or(1);
    let base = big_text(max as usize, c.seed);
    let mut v: Vec<ScoredToken> = (0..=255u8).map(|b| ScoredToken::new(vec![b], -5.0, true)).collect();
    v.extend(lens.iter().map(|l| ScoredToken::new(base.as_bytes()[..*l as usize].to_vec(), -1.0, false)));
    (v, lens, base)
}

fn c02_giant(c: &Giant, ctx: &mut Ctx) -> R {
    let (v, lens, base) = giant_vocab(c);
    let m = sut("Model::from", || Model::from(v.clone()))?;
    let mut text = String::new();
    let mut want = vec![];
    for (i, cut) in c.cuts.iter().enumerate() {
        text.push('0');
        want.push(b'0' as u32);
        text.push_str(&base[..*cut as usize]);
        let used = match lens.iter().rposition(|l| l <= cut) {
            Some(k) => {
                want.push(256 + k as u32);
                lens[k]
            }
            None => 0,
        };
        want.extend(base.as_bytes()[used as usize..*cut as usize].iter().map(|b| *b as u32));
        ctx.nontrivial_if(used > 0 && i > 0);
    }
    let got = sut("Model::encode", || m.encode(&text, 0.0))?.map_err(|e| errs(&e))?;
    ensure!(got == want, "tokens of lengths {lens:?}, text cut at {:?}: {} IDs, expected {}: {:?}...", c.cuts, got.len(), want.len(), got.iter().filter(|i| **i > 255).collect::<Vec<_>>());
    Ok(())
}

fn c11_giant(c: &Giant, ctx: &mut Ctx) -> R {
    let (v, lens, base) = giant_vocab(c);
    let m = sut("Model::from", || Model::from(v.clone()))?;
    for cut in &c.cuts {
        let q = &base.as_bytes()[..*cut as usize];
        let mut want = vec![(q[0] as u32, 1u32)];
        want.extend(lens.iter().enumerate().filter(|(_, l)| *l <= cut).map(|(k, l)| (256 + k as u32, *l)));
        for cap in [0, 16, 256] {
            let mut buf = Vec::with_capacity(cap);
            let got: Vec<(u32, u32)> = sut("common_prefix_search", || m.common_prefix_search(q, &mut buf).collect())?;
            ensure!(got == want, "prefixes of a {cut}-byte string: {got:?}, expected {want:?}");
        }
        ctx.nontrivial_if(want.len() > 1);
    }
    Ok(())
}

pub fn props() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "C01",
            rule: "the text is longer than one byte and contains a multi-byte vocabulary token (long texts: over 1000 bytes)",
            assumptions: &["the reference for processed stretches uses the library's own normalisation forms, which C10 checks on their own", "generated texts are at most about 120 kB, vocabularies at most about 69000 tokens"],
            subs: vec![sub("huge", 8, 200, huge_text, c01_long), sub("lossless", 72_000, 800_000, || full(complete_vocab(), dropout()), c01), sub("lossless-float", 18_000, 200_000, || full(float_complete(), dropout()), c01), sub("lossless-long", 480, 4_000, long, c01_long)],
        },
        PropDef {
            id: "C02",
            rule: "a multi-byte token occurs in a text of more than two bytes, or no segmentation exists",
            assumptions: &["optimality is compared exactly for scores that are multiples of 1/64 and to a relative 1e-9 otherwise; which of several equally good segmentations is returned is left open"],
            subs: vec![sub("huge", 8, 200, huge_text, c02_long), sub("best", 72_000, 1_000_000, || plain(unit_vocab), c02), sub("best-float", 24_000, 300_000, || plain(float_vocab), c02_float), sub("best-long", 480, 4_000, long, c02_long), sub("best-giant", 1_200, 20_000, giant, c02_giant)],
        },
        PropDef {
            id: "C03",
            rule: "some multi-byte token occurs in the text (distribution cases: at most 9 occurrences, all subsets enumerated)",
            assumptions: &["observed frequencies are accepted within a Chernoff tail of about 1e-13 per comparison, so a deviation of a few per cent in one probability is noticed and a smaller one may not be"],
            subs: vec![sub("dropout-edges", 36_000, 400_000, || full(any_vocab(), dropout()), c03_edges), sub("dropout-distribution", 960, 12_000, dist, c03_dist), sub("dropout-long", 360, 3_000, || (prop_oneof![2 => 0.02f64..0.98, 1 => 0.0004f64..0.02, 1 => 0.98f64..0.9996].prop_map(F), any::<u16>(), any::<u64>()).boxed(), c03_long)],
        },
        PropDef {
            id: "C04",
            rule: "the text contains a special token and something else",
            assumptions: &["stretches between special tokens are compared with ordinary encoding of the same stretch, which C02 decides"],
            subs: vec![sub("huge", 8, 200, huge_text, c04_huge), sub("specials", 72_000, 1_000_000, || full(any_vocab(), Just(F(0.0)).boxed()), c04), sub("specials-many", 6_000, 80_000, many, c04)],
        },
        PropDef {
            id: "C05",
            rule: "the history has at least three different kinds of operation",
            assumptions: &["scores in histories are multiples of 1/64, so that saving and loading is exact (see the C08 finding)"],
            subs: vec![sub("histories", 16_000, 160_000, hist, c05), sub("big", 16, 160, || (any::<u64>(), specials()).boxed(), c05_big)],
        },
        PropDef {
            id: "C06",
            rule: "at least two IDs with an unknown ID, a special token next to something, or non-ASCII bytes",
            assumptions: &["when special tokens are excluded, an invalid UTF-8 run before and after one may be decoded separately or together; both are accepted"],
            subs: vec![sub("huge", 8, 200, || (text(), 1_100_000u32..3_000_000, any::<u64>()).prop_map(|(t, n, s)| (resolve(&t, &[], &[]), n, s)).boxed(), c06_huge), sub("decode", 96_000, 1_200_000, dec, c06), sub("decode-long", 960, 12_000, || (dec(), 20u32..4000).prop_map(|(mut c, n)| { c.before = n; c }).boxed(), c06), sub("decode-big", 16, 200, || (any::<u64>(), vec(any::<u32>(), 1..40)).boxed(), c06_big)],
        },
        PropDef {
            id: "C07",
            rule: "the batch has at least two items",
            assumptions: &["thread schedules are those the operating system produces with 1 to 8 workers; they are not enumerated"],
            subs: vec![sub("batches", 4_800, 80_000, batch, c07), sub("long-items", 48, 800, || (batch(), 100_000u32..300_000).prop_map(|(mut c, n)| { c.texts.truncate(4); c.repeat = 1; c.stretch = n; c }).boxed(), c07), sub("large", 16, 400, || (batch(), 66_000u32..140_000).prop_map(|(mut c, n)| { c.texts.truncate(6); c.repeat = n / c.texts.len().max(1) as u32; c }).boxed(), c07)],
        },
        PropDef {
            id: "C11",
            rule: "some query has at least two prefixes in the vocabulary",
            assumptions: &[],
            subs: vec![sub("prefixes", 24_000, 300_000, search, c11), sub("prefixes-giant", 900, 10_000, giant, c11_giant)],
        },
    ]
}

fn float_complete() -> BoxedStrategy<VocabSpec> {
    float_vocab().prop_map(|mut v| {
        v.bytes = v.bytes.max(1);
        v
    })
    .boxed()
}
