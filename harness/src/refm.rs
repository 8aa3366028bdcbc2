//! Reference models, written from the property statements.
use std::collections::HashMap;
use tokengeex::ScoredToken;

/// Best segmentation score of `text` (last entry of a duplicated token counts), or None.
pub struct RefVocab {
    pub map: HashMap<Vec<u8>, (u32, f64)>,
    /// The lengths that occur, ascending.
    pub lens: Vec<usize>,
}

impl RefVocab {
    pub fn new(v: &[ScoredToken]) -> RefVocab {
        let mut map = HashMap::new();
        for (i, t) in v.iter().enumerate() {
            if !t.value.is_empty() {
                map.insert(t.value.clone(), (i as u32, t.score));
            }
        }
        let lens: std::collections::BTreeSet<usize> = map.keys().map(Vec::len).collect();
        RefVocab { map, lens: lens.into_iter().collect() }
    }
    pub fn best(&self, text: &[u8]) -> Option<f64> {
        let n = text.len();
        let mut best: Vec<Option<f64>> = vec![None; n + 1];
        best[0] = Some(0.0);
        for end in 1..=n {
            for start in self.lens.iter().take_while(|l| **l <= end).map(|l| end - l) {
                if let (Some(b), Some((_, s))) = (best[start], self.map.get(&text[start..end])) {
                    let c = b + s;
                    if best[end].map_or(true, |x| c > x) {
                        best[end] = Some(c);
                    }
                }
            }
        }
        best[n]
    }
    /// (start, end, id, score) of every occurrence of a token.
    pub fn occurrences(&self, text: &[u8]) -> Vec<(usize, usize, u32, f64)> {
        let mut v = vec![];
        for start in 0..text.len() {
            for end in self.lens.iter().map(|l| start + l).take_while(|e| *e <= text.len()) {
                if let Some((id, s)) = self.map.get(&text[start..end]) {
                    v.push((start, end, *id, *s));
                }
            }
        }
        v
    }
}

/// The segments of `text`: (text, Some(index of the special token)) or (text, None).
pub fn split_specials<'a>(text: &'a str, specials: &[String]) -> Vec<(&'a str, Option<usize>)> {
    let mut out = vec![];
    let mut plain = 0;
    let mut at = 0;
    while at < text.len() {
        let hit = specials.iter().position(|s| !s.is_empty() && text.as_bytes()[at..].starts_with(s.as_bytes()));
        match hit {
            Some(i) if text.is_char_boundary(at) => {
                if plain < at {
                    out.push((&text[plain..at], None));
                }
                let end = at + specials[i].len();
                out.push((&text[at..end], Some(i)));
                at = end;
                plain = end;
            }
            _ => at += 1,
        }
    }
    if plain < text.len() {
        out.push((&text[plain..], None));
    }
    out
}

const A64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn base64_nopad(b: &[u8]) -> String {
    let mut out = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            out.push(A64[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    out
}

/// log(exp(x)+exp(y)) without a cut-off.
pub fn lse(x: f64, y: f64) -> f64 {
    if x == f64::NEG_INFINITY {
        return y;
    }
    if y == f64::NEG_INFINITY {
        return x;
    }
    let (a, b) = if x > y { (x, y) } else { (y, x) };
    a + (b - a).exp().ln_1p()
}

/// Two-sided check of `k` successes in `n` draws of probability `p`: false when the observation is
/// less likely than about 1e-12 (Chernoff bound on the tail, so never too strict).
pub fn binomial_ok(k: u64, n: u64, p: f64) -> bool {
    if n == 0 {
        return true;
    }
    let q = k as f64 / n as f64;
    if p <= 0.0 {
        return k == 0;
    }
    if p >= 1.0 {
        return k == n;
    }
    let t = |a: f64, b: f64| if a <= 0.0 { 0.0 } else { a * (a / b).ln() };
    let kl = t(q, p) + t(1.0 - q, 1.0 - p);
    (n as f64) * kl < 30.0
}
