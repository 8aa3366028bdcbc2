//! C12, C13: best paths, n-best paths and marginals of a segmentation lattice.
use crate::fw::*;
use crate::gen::*;
use crate::p_core::ensure;
use crate::refm::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokengeex::{Lattice, Model, Node, VecPool};

/// Candidate tokens of one sentence: (pos, len, id, score).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sent {
    len: u8,
    /// Also add a candidate for every single position.
    unit: Option<F>,
    cands: Vec<(u8, u8, u8, F)>,
    n: u16,
}

type Cand = (usize, usize, u32, f64);

fn cands(s: &Sent) -> Vec<Cand> {
    let len = s.len as usize;
    let mut v: Vec<Cand> = vec![];
    if let Some(u) = s.unit {
        for i in 0..len {
            v.push((i, 1, 200 + i as u32 % 5, u.0));
        }
    }
    for (p, l, id, sc) in &s.cands {
        if len == 0 {
            break;
        }
        let p = *p as usize % len;
        let l = 1 + *l as usize % (len - p).min(6);
        let id = *id as u32 % 200;
        if !v.iter().any(|c| c.0 == p && c.1 == l && c.2 == id) {
            v.push((p, l, id, sc.0));
        }
    }
    v
}

/// The `k` best scores of paths covering 0..len, in decreasing order.
fn kbest(len: usize, cands: &[Cand], k: usize) -> Vec<f64> {
    let mut best: Vec<Vec<f64>> = vec![vec![]; len + 1];
    best[0] = vec![0.0];
    let mut ends: Vec<Vec<&Cand>> = vec![vec![]; len + 1];
    for c in cands {
        ends[c.0 + c.1].push(c);
    }
    for end in 1..=len {
        let mut all: Vec<f64> = vec![];
        for c in &ends[end] {
            all.extend(best[c.0].iter().map(|s| s + c.3));
        }
        all.sort_by(|a, b| b.partial_cmp(a).unwrap());
        all.truncate(k);
        best[end] = all;
    }
    std::mem::take(&mut best[len])
}

fn check_path(len: usize, cands: &[Cand], path: &[Node], what: &str) -> Result<f64, String> {
    let mut at = 0;
    let mut score = 0.0;
    for n in path {
        ensure!(n.pos == at, "{what}: node at {} where {at} is next: {:?}", n.pos, brief(path));
        ensure!(cands.iter().any(|c| *c == (n.pos, n.token_len, n.token_id, n.score)), "{what}: node {:?} is not a candidate", (n.pos, n.token_len, n.token_id, n.score));
        at += n.token_len;
        score += n.score;
    }
    ensure!(at == len, "{what}: path ends at {at} of {len}: {:?}", brief(path));
    Ok(score)
}

fn brief(p: &[Node]) -> Vec<(usize, usize, u32, f64)> {
    p.iter().map(|n| (n.pos, n.token_len, n.token_id, n.score)).collect()
}

fn close(a: f64, b: f64, exact: bool) -> bool {
    if exact {
        a == b
    } else {
        (a - b).abs() <= 1e-9 * (1.0 + a.abs() + b.abs())
    }
}

fn check_lattice(l: &mut Lattice<'_>, len: usize, cands: &[Cand], n: usize, exact: bool, order: bool) -> Result<usize, String> {
    let want = kbest(len, cands, n.max(2));
    let check_viterbi = |l: &mut Lattice<'_>| -> R {
        let got = sut("viterbi", || l.viterbi())?;
        if len == 0 {
            ensure!(got.is_empty(), "best path of an empty sentence: {:?}", brief(&got));
        } else if want.is_empty() {
            ensure!(got.is_empty(), "best path {:?} although no segmentation exists", brief(&got));
        } else {
            let s = check_path(len, cands, &got, "best path")?;
            ensure!(close(s, want[0], exact), "best path {:?} scores {s}, but {} is possible", brief(&got), want[0]);
        }
        Ok(())
    };
    if order {
        check_viterbi(l)?;
    }
    for k in [n, 1, 2, 0] {
        let got = sut("nbest", || l.nbest(k))?;
        let w = &want[..want.len().min(k)];
        ensure!(got.len() == w.len(), "nbest({k}) returns {} paths, {} exist (asked for {k})", got.len(), w.len());
        let mut seen = std::collections::HashSet::new();
        for (i, p) in got.iter().enumerate() {
            let s = check_path(len, cands, p, "n-best path")?;
            ensure!(close(s, w[i], exact), "nbest({k}): path {i} scores {s}, the {i}-th best segmentation scores {}", w[i]);
            let key: Vec<(usize, u32)> = p.iter().map(|n| (n.token_len, n.token_id)).collect();
            ensure!(seen.insert(key), "nbest({k}) returns the same segmentation twice");
        }
    }
    if !order {
        check_viterbi(l)?;
    }
    Ok(want.len())
}

fn sent(max_len: u8, max_c: usize, score: fn() -> BoxedStrategy<F>, max_n: u16) -> BoxedStrategy<Sent> {
    (0..=max_len, prop::option::weighted(0.5, score()), vec((any::<u8>(), any::<u8>(), any::<u8>(), score()), 0..max_c), prop_oneof![3 => 0..6u16, 1 => 0..max_n])
        .prop_map(|(len, unit, cands, n)| Sent { len, unit, cands, n })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seq {
    sents: Vec<Sent>,
    capacity: u8,
    order: bool,
}

fn seq(s: BoxedStrategy<Sent>, n: usize) -> BoxedStrategy<Seq> {
    (vec(s, 1..n), 0u8..20, any::<bool>()).prop_map(|(sents, capacity, order)| Seq { sents, capacity, order }).boxed()
}

/// All scores of the case in one unit.
fn seq_units(s: BoxedStrategy<Seq>) -> BoxedStrategy<Seq> {
    (s, unit())
        .prop_map(|(mut c, u)| {
            for s in c.sents.iter_mut() {
                s.unit = s.unit.map(|x| unit_score(u, x));
                s.cands.iter_mut().for_each(|x| x.3 = unit_score(u, x.3));
            }
            c
        })
        .boxed()
}

fn each<'a>(c: &Seq, bufs: &'a [Vec<u8>], f: &mut dyn FnMut(&mut Lattice<'a>, &Sent, &[Cand]) -> R) -> R {
    let mut pool = VecPool::with_capacity(c.capacity as usize, 4);
    let mut l: Lattice<'a> = Lattice::default();
    for (i, s) in c.sents.iter().enumerate() {
        let cs = cands(s);
        sut("Lattice::from", || l.from(&bufs[i], &mut pool))?;
        for x in &cs {
            sut("insert", || l.insert(x.0, x.2, x.1, x.3))?;
        }
        f(&mut l, s, &cs).map_err(|e| format!("sentence {i}: {e}"))?;
    }
    Ok(())
}

fn bufs(c: &Seq) -> Vec<Vec<u8>> {
    c.sents.iter().map(|s| vec![b'x'; s.len as usize]).collect()
}

fn c12(c: &Seq, ctx: &mut Ctx) -> R {
    c12_any(c, ctx, true)
}
fn c12_float(c: &Seq, ctx: &mut Ctx) -> R {
    c12_any(c, ctx, false)
}
fn c12_any(c: &Seq, ctx: &mut Ctx, exact: bool) -> R {
    let b = bufs(c);
    let mut paths = vec![];
    each(c, &b, &mut |l, s, cs| {
        paths.push(check_lattice(l, s.len as usize, cs, s.n as usize, exact, c.order)?);
        Ok(())
    })?;
    ctx.label_if(paths.contains(&0), "a sentence without segmentation");
    ctx.label_if(paths.len() > 1, "reused lattice");
    ctx.nontrivial_if(paths.iter().any(|n| *n > 1));
    Ok(())
}

/// Long sentences with many candidates, whose agenda outgrows its limit.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Agenda {
    len: u16,
    n: u16,
    /// Score of the candidates of length 1, 2, ...
    per: Vec<F>,
    /// Added to it: up to this much, depending on the position.
    noise: F,
    seed: u64,
}

fn agenda() -> BoxedStrategy<Agenda> {
    let small = (30u16..70, 1u16..900, vec((-2.0f64..0.0).prop_map(F), 2..5), Just(F(0.0)), any::<u64>());
    // Scores nearly proportional to the length: very many nearly equal paths.
    let flat = (30u16..300, prop_oneof![1u16..600, 500u16..3000], 4usize..60, prop_oneof![Just(0.0), 1e-6f64..1e-1], any::<u64>()).prop_map(|(len, n, k, noise, seed)| {
        (len, n, (1..=k).map(|i| F(-0.125 * i as f64)).collect(), F(noise), seed)
    });
    // All of thousands of paths.
    let all = (12u16..15, 3000u16..9000, vec((-2.0f64..0.0).prop_map(F), 12..15), any::<u64>()).prop_map(|(len, n, per, seed)| (len, n, per, F(0.5), seed));
    prop_oneof![2 => small.boxed(), 3 => flat.boxed(), 1 => all.boxed()].prop_map(|(len, n, per, noise, seed)| Agenda { len, n, per, noise, seed }).boxed()
}

fn c12_agenda(c: &Agenda, ctx: &mut Ctx) -> R {
    let len = c.len as usize;
    let n = c.n as usize;
    let buf = vec![b'x'; len];
    let mut mix = Mix(c.seed);
    let mut cs: Vec<Cand> = vec![];
    for p in 0..len {
        for l in 1..=c.per.len().min(len - p) {
            cs.push((p, l, l as u32, c.per[l - 1].0 - c.noise.0 * mix.below(1 << 20) as f64 / (1 << 20) as f64));
        }
    }
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(&buf, &mut pool);
    for x in &cs {
        l.insert(x.0, x.2, x.1, x.3);
    }
    let want = kbest(len, &cs, n);
    let got = sut("nbest", || l.nbest(n))?;
    ensure!(got.len() == want.len(), "nbest({n}) returns {} paths, {} wanted", got.len(), want.len());
    let mut seen = std::collections::HashSet::new();
    let by_pos: std::collections::HashMap<(usize, usize), f64> = cs.iter().map(|c| ((c.0, c.1), c.3)).collect();
    for (i, p) in got.iter().enumerate() {
        let (mut at, mut s) = (0, 0.0);
        for x in p {
            ensure!(x.pos == at && by_pos.get(&(x.pos, x.token_len)) == Some(&x.score) && x.token_id == x.token_len as u32, "nbest({n}): path {i} is no path of candidates: {:?}", brief(p));
            at += x.token_len;
            s += x.score;
        }
        ensure!(at == len, "nbest({n}): path {i} ends at {at} of {len}");
        ensure!(close(s, want[i], false), "nbest({n}): path {i} scores {s}, the {i}-th best segmentation scores {}", want[i]);
        ensure!(seen.insert(p.iter().map(|x| x.token_len).collect::<Vec<_>>()), "nbest({n}) returns the same segmentation twice");
    }
    ctx.nontrivial_if(want.len() > 1);
    Ok(())
}

/// Through a model: the lattice agrees with encode.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Via {
    vocab: VocabSpec,
    texts: Vec<Vec<Frag>>,
}

/// Sentences of many thousand bytes: single bytes, and longer candidates here and there.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    len: u32,
    n: u8,
    unit: F,
    /// Longer candidates: one for every so many bytes, of up to this length, with these scores.
    every: u16,
    longest: u8,
    scores: Vec<F>,
    seed: u64,
}

fn far() -> BoxedStrategy<Far> {
    let len = prop_oneof![2 => 1_000u32..20_000, 2 => 60_000u32..140_000, 1 => (-3i32..40).prop_map(|d| (65_536 + d) as u32)];
    (len, 0u8..6, dyadic(), 1u16..400, 2u8..=255, vec(dyadic(), 1..6), any::<u64>())
        .prop_map(|(len, n, unit, every, longest, scores, seed)| Far { len, n, unit, every, longest, scores, seed })
        .boxed()
}

fn far_cands(c: &Far) -> Vec<Cand> {
    let len = c.len as usize;
    let mut mix = Mix(c.seed);
    let mut cs: Vec<Cand> = (0..len).map(|i| (i, 1, (i % 7) as u32, c.unit.0)).collect();
    let mut seen = std::collections::HashSet::new();
    for i in 0..len / c.every as usize {
        let l = 2 + mix.below(c.longest as u64 - 1) as usize;
        if l > len {
            continue;
        }
        let p = mix.below((len - l + 1) as u64) as usize;
        let id = 7 + (i % 90) as u32;
        if seen.insert((p, l, id)) {
            cs.push((p, l, id, c.scores[i % c.scores.len()].0));
        }
    }
    cs.sort_by_key(|x| (x.0, x.1, x.2));
    cs
}

fn c12_far(c: &Far, ctx: &mut Ctx) -> R {
    let (len, n) = (c.len as usize, c.n as usize);
    let cs = far_cands(c);
    let buf = vec![b'x'; len];
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(&buf, &mut pool);
    for x in &cs {
        l.insert(x.0, x.2, x.1, x.3);
    }
    let known: std::collections::HashMap<(usize, usize, u32), f64> = cs.iter().map(|x| ((x.0, x.1, x.2), x.3)).collect();
    let score = |p: &[Node]| -> Result<f64, String> {
        let (mut at, mut sum) = (0, 0.0);
        for x in p {
            ensure!(x.pos == at && known.get(&(x.pos, x.token_len, x.token_id)) == Some(&x.score), "a path has the node {:?} at byte {at}", (x.pos, x.token_len, x.token_id));
            at += x.token_len;
            sum += x.score;
        }
        ensure!(at == len, "a path ends at byte {at} of {len}");
        Ok(sum)
    };
    let want = kbest(len, &cs, n.max(1));
    let p = sut("viterbi", || l.viterbi())?;
    let got = score(&p)?;
    ensure!(got == want[0], "the best path scores {got}, {} is possible", want[0]);
    // On a thread with less of a stack than Rust gives one: memory need not grow with the sentence there.
    let got = std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, || sut("nbest", || l.nbest(n))).unwrap().join().unwrap())?;
    ensure!(got.len() <= n, "nbest({n}) returns {} paths", got.len());
    for (i, p) in got.iter().enumerate() {
        let s = score(p)?;
        ensure!(s == want[i], "nbest({n}): path {i} scores {s}, the {i}-th best scores {}", want[i]);
    }
    ensure!(got.len() == n.min(want.len()), "nbest({n}) returns {} paths, {} wanted", got.len(), n.min(want.len()));
    ctx.label_if(len > 65_536, "more than 65,536 bytes");
    ctx.nontrivial_if(want.len() > 1 && cs.len() > len);
    Ok(())
}

fn via(v: BoxedStrategy<VocabSpec>) -> BoxedStrategy<Via> {
    (v, vec(text(), 1..4)).prop_map(|(vocab, texts)| Via { vocab, texts }).boxed()
}

fn model_cands(r: &RefVocab, text: &[u8]) -> Vec<Cand> {
    r.occurrences(text).into_iter().map(|o| (o.0, o.1 - o.0, o.2, o.3)).collect()
}

fn c12_model(c: &Via, ctx: &mut Ctx) -> R {
    let v = c.vocab.build();
    let m = Model::from(v.clone());
    let r = RefVocab::new(&v);
    let texts: Vec<String> = c.texts.iter().map(|t| resolve(t, &c.vocab.toks, &[])).collect();
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    for t in &texts {
        l.from(t.as_bytes(), &mut pool);
        sut("populate_nodes", || m.populate_nodes(&mut l, 0.0))?;
        let cs = model_cands(&r, t.as_bytes());
        let n = check_lattice(&mut l, t.len(), &cs, 3, true, false)?;
        ctx.nontrivial_if(n > 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

/// Forward and backward log weights per position, without cut-offs.
fn reference_marginals(len: usize, cs: &[Cand]) -> (f64, Vec<f64>) {
    let mut f = vec![f64::NEG_INFINITY; len + 1];
    let mut b = vec![f64::NEG_INFINITY; len + 1];
    f[0] = 0.0;
    b[len] = 0.0;
    for end in 1..=len {
        for c in cs.iter().filter(|c| c.0 + c.1 == end) {
            f[end] = lse(f[end], f[c.0] + c.3);
        }
    }
    for start in (0..len).rev() {
        for c in cs.iter().filter(|c| c.0 == start) {
            b[start] = lse(b[start], c.3 + b[start + c.1]);
        }
    }
    let z = f[len];
    let post = cs.iter().map(|c| if z == f64::NEG_INFINITY { 0.0 } else { (f[c.0] + c.3 + b[c.0 + c.1] - z).exp() }).collect();
    (z, post)
}

/// By listing every segmentation.
fn enumerate(len: usize, cs: &[Cand]) -> Option<(f64, Vec<f64>)> {
    fn go(at: usize, len: usize, cs: &[Cand], path: &mut Vec<usize>, out: &mut Vec<(f64, Vec<usize>)>) {
        if out.len() > 5000 {
            return;
        }
        if at == len {
            out.push((path.iter().map(|i| cs[*i].3).sum(), path.clone()));
            return;
        }
        for i in 0..cs.len() {
            if cs[i].0 == at {
                path.push(i);
                go(at + cs[i].1, len, cs, path, out);
                path.pop();
            }
        }
    }
    let mut out = vec![];
    go(0, len, cs, &mut vec![], &mut out);
    if out.len() > 5000 {
        return None;
    }
    let top = out.iter().map(|p| p.0).fold(f64::NEG_INFINITY, f64::max);
    let total: f64 = out.iter().map(|p| (p.0 - top).exp()).sum();
    let mut post = vec![0.0; cs.len()];
    for (s, p) in &out {
        for i in p {
            post[*i] += (s - top).exp() / total;
        }
    }
    Some((if out.is_empty() { f64::NEG_INFINITY } else { top + total.ln() }, post))
}

fn check_marginals(l: &Lattice<'_>, len: usize, cs: &[Cand], ids: usize, start: f64) -> R {
    let mut acc: Vec<f64> = (0..ids).map(|i| start * (i % 7) as f64).collect();
    let before = acc.clone();
    let z = sut("populate_marginal", || l.populate_marginal(&mut acc))?;
    let (wz, mut post) = reference_marginals(len, cs);
    let mut wz = wz;
    if cs.len() <= 14 {
        if let Some((ez, ep)) = enumerate(len, cs) {
            for (a, b) in post.iter().zip(&ep) {
                if (a - b).abs() > 1e-9 {
                    return Err(format!("HARNESS: the two references disagree: {a} {b}"));
                }
            }
            wz = ez;
            post = ep;
        }
    }
    if wz == f64::NEG_INFINITY {
        ensure!(z == f64::NEG_INFINITY, "normaliser {z} although no segmentation exists");
    } else {
        ensure!((z - wz).abs() <= 1e-9 * (1.0 + wz.abs()), "normaliser {z}, the total weight of all segmentations is exp({wz})");
    }
    let mut want = before.clone();
    for (c, p) in cs.iter().zip(&post) {
        want[c.2 as usize] += p;
    }
    for i in 0..ids {
        ensure!((acc[i] - want[i]).abs() <= 1e-8 * (1.0 + want[i].abs()), "expected count of token {i} grew from {} to {}, should be {}", before[i], acc[i], want[i]);
    }
    Ok(())
}

fn c13(c: &Seq, ctx: &mut Ctx) -> R {
    let b = bufs(c);
    let mut multi = false;
    let mut none = false;
    each(c, &b, &mut |l, s, cs| {
        if c.order {
            l.viterbi();
        }
        let k = kbest(s.len as usize, cs, 2).len();
        multi |= k > 1;
        none |= k == 0;
        check_marginals(l, s.len as usize, cs, 256, if c.capacity % 2 == 0 { 0.0 } else { 1.5 })
    })?;
    ctx.label_if(none, "a sentence without segmentation");
    ctx.nontrivial_if(multi);
    Ok(())
}

fn c13_model(c: &Via, ctx: &mut Ctx) -> R {
    let v = c.vocab.build();
    let m = Model::from(v.clone());
    let r = RefVocab::new(&v);
    let texts: Vec<String> = c.texts.iter().map(|t| resolve(t, &c.vocab.toks, &[]).repeat(1 + t.len() % 3)).collect();
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    let mut total = vec![0.0; v.len()];
    let mut bytes = 0.0;
    for t in &texts {
        l.from(t.as_bytes(), &mut pool);
        sut("populate_nodes", || m.populate_nodes(&mut l, 0.0))?;
        let cs = model_cands(&r, t.as_bytes());
        check_marginals(&l, t.len(), &cs, v.len(), 0.25)?;
        if kbest(t.len(), &cs, 1).is_empty() {
            continue;
        }
        bytes += t.len() as f64;
        sut("populate_marginal", || l.populate_marginal(&mut total))?;
        ctx.nontrivial_if(cs.len() > t.len());
    }
    // Expected counts weighted by length account for every byte.
    let sum: f64 = total.iter().zip(&v).map(|(f, t)| f * t.value.len() as f64).sum();
    ensure!((sum - bytes).abs() <= 1e-7 * (1.0 + bytes), "expected counts weighted by length sum to {sum}, the sentences have {bytes} bytes");
    Ok(())
}

/// Long sentences, as the pruner feeds them.
fn c13_long(c: &(VocabSpec, Vec<Frag>, u16), ctx: &mut Ctx) -> R {
    let v = c.0.build();
    let m = Model::from(v.clone());
    let unit = resolve(&c.1, &c.0.toks, &[]);
    let most = 20_000 / unit.len().max(1);
    let text = unit.repeat(if c.2 % 16 == 0 { most * 4 } else { most.min(c.2 as usize) });
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(text.as_bytes(), &mut pool);
    m.populate_nodes(&mut l, 0.0);
    let mut acc = vec![0.0; v.len()];
    let z = sut("populate_marginal", || l.populate_marginal(&mut acc))?;
    let r = RefVocab::new(&v);
    let n = text.len();
    let occ = r.occurrences(text.as_bytes());
    let mut f = vec![f64::NEG_INFINITY; n + 1];
    f[0] = 0.0;
    for o in &occ {
        f[o.1] = lse(f[o.1], f[o.0] + o.3);
    }
    ensure!((z - f[n]).abs() <= 1e-7 * (1.0 + f[n].abs()), "normaliser {z}, expected {}", f[n]);
    let sum: f64 = acc.iter().zip(&v).map(|(f, t)| f * t.value.len() as f64).sum();
    ensure!((sum - n as f64).abs() <= 1e-6 * (1.0 + n as f64), "expected counts weighted by length sum to {sum} for {n} bytes");
    ctx.label_if(n > 65_536, "more than 65,536 bytes");
    ctx.nontrivial_if(n > 1000 && occ.len() > n);
    Ok(())
}

fn mscore() -> BoxedStrategy<F> {
    prop_oneof![4 => (-8.0f64..1.0).prop_map(F), 2 => dyadic(), 1 => (-120.0f64..40.0).prop_map(F)].boxed()
}

/// Queries in between insertions: each sees exactly the candidates inserted so far.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grow {
    sents: Vec<Sent>,
    /// Per insertion: bit 0 best path, bit 1 n-best, bit 2 marginals, taken modulo the list.
    asks: Vec<u8>,
}

fn grow() -> BoxedStrategy<Grow> {
    (vec(sent(8, 14, dyadic, 12), 1..3), vec(prop_oneof![2 => Just(0u8), 3 => 0u8..8], 1..12)).prop_map(|(sents, asks)| Grow { sents, asks }).boxed()
}

fn c12_grow(c: &Grow, ctx: &mut Ctx) -> R {
    let bufs: Vec<Vec<u8>> = c.sents.iter().map(|s| vec![b'y'; s.len as usize]).collect();
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    let mut step = 0;
    for (s, buf) in c.sents.iter().zip(&bufs) {
        sut("Lattice::from", || l.from(buf, &mut pool))?;
        let len = s.len as usize;
        let cs = cands(s);
        for k in 0..cs.len() {
            let x = &cs[k];
            sut("insert", || l.insert(x.0, x.2, x.1, x.3))?;
            let ask = c.asks[step % c.asks.len()];
            step += 1;
            let now = &cs[..=k];
            let want = kbest(len, now, 12.max(s.n as usize));
            if ask & 4 != 0 {
                check_marginals(&l, len, now, 256, 0.0)?;
            }
            if ask & 1 != 0 {
                let p = sut("viterbi", || l.viterbi())?;
                if want.is_empty() {
                    ensure!(p.is_empty(), "best path {:?} although no segmentation exists", brief(&p));
                } else {
                    let sc = check_path(len, now, &p, "best path")?;
                    ensure!(sc == want[0], "after {} insertions the best path scores {sc}, {} is possible", k + 1, want[0]);
                }
            }
            if ask & 2 != 0 {
                let n = s.n as usize;
                let got = sut("nbest", || l.nbest(n))?;
                ensure!(got.len() == want.len().min(n), "after {} insertions nbest({n}) returns {} paths", k + 1, got.len());
                for (i, p) in got.iter().enumerate() {
                    let sc = check_path(len, now, p, "n-best path")?;
                    ensure!(sc == want[i], "after {} insertions nbest({n}): path {i} scores {sc}, the {i}-th best scores {}", k + 1, want[i]);
                }
            }
            ctx.nontrivial_if(ask & 3 != 0 && want.len() > 1 && k + 1 < cs.len());
        }
    }
    Ok(())
}

pub fn props() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "C12",
            rule: "at least two segmentations exist for a sentence of the case",
            assumptions: &["candidate sets hold one entry per (position, length, ID); which of several equally good paths comes first is left open", "many paths for sentences of up to 300 bytes (up to 3000 paths), up to 5 paths for sentences of up to 140,000"],
            subs: vec![
                sub("nbest", 48_000, 600_000, || seq_units(seq(sent(8, 16, dyadic, 40), 4)), c12),
                sub("nbest-float", 18_000, 200_000, || seq(sent(10, 20, anyfloat, 60), 3), c12_float),
                sub("nbest-medium", 4_500, 60_000, || seq_units(seq(sent(40, 120, dyadic, 120), 3)), c12),
                sub("nbest-model", 12_000, 150_000, || via(unit_vocab()), c12_model),
                sub("nbest-grow", 18_000, 200_000, grow, c12_grow),
                sub("nbest-far", 24, 400, far, c12_far),
                sub("nbest-agenda", 192, 3_000, agenda, c12_agenda),
            ],
        },
        PropDef {
            id: "C13",
            rule: "at least two segmentations exist for a sentence of the case (model cases: more candidates than bytes)",
            assumptions: &["compared to a relative 1e-8 with a reference that does not use the code's cut-off, itself cross-checked by listing all segmentations when there are at most 14 candidates"],
            subs: vec![
                sub("marginals", 64_000, 600_000, || seq(sent(8, 14, mscore, 3), 4), c13),
                sub("marginals-medium", 12_000, 100_000, || seq(sent(50, 100, mscore, 3), 3), c13),
                sub("marginals-model", 16_000, 150_000, || via(any_vocab()), c13_model),
                sub("marginals-long", 128, 2_000, || (complete_vocab(), vec(frag(), 1..10), 50u16..3000).boxed(), c13_long),
            ],
        },
    ]
}
