//! Running the command line tool, and generated training data.
use crate::fw::*;
use crate::gen::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use tokengeex::Tokenizer;

pub const CPU_S: u64 = 40;
static SPENT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// A fresh folder for one case, removed when dropped.
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new(ctx: &Ctx, name: &str) -> Dir {
        let d = ctx.scratch.join(name);
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    pub fn path(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
    pub fn write(&self, n: &str, b: &[u8]) -> String {
        std::fs::write(self.0.join(n), b).unwrap();
        self.path(n)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Ran {
    pub ok: bool,
    pub out: String,
    pub err: String,
    pub how: String,
}

fn tool() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("tgxcli")
}

/// Runs `tokengeex ARGS`. Err: it did not end by itself.
pub fn cli(args: &[String], threads: u8) -> Result<Ran, String> {
    let mut c = Command::new(tool());
    c.args(args).env("RAYON_NUM_THREADS", threads.to_string()).env("RUST_BACKTRACE", "0").env_remove("RUST_LOG");
    // Logging must not matter. The choice depends on nothing but the arguments, less the scratch folder.
    let h = args.iter().flat_map(|a| a.rsplit('/').next().unwrap_or("").bytes()).fold(threads as u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32));
    let log = ["", "", "", "", "debug", "trace"][(h >> 3) as usize % 6];
    if !log.is_empty() {
        c.env("RUST_LOG", log);
    }
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            set_limit(libc::RLIMIT_AS, 8 << 30);
            for (r, v) in [(libc::RLIMIT_CPU, CPU_S), (libc::RLIMIT_CORE, 0)] {
                let l = libc::rlimit { rlim_cur: v, rlim_max: v + 1 };
                libc::setrlimit(r, &l);
            }
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut ch = c.spawn().map_err(|e| format!("HARNESS: cannot run {}: {e}", tool().display()))?;
    let mut eo = ch.stderr.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = eo.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let guard = watch(ch.id(), 130);
    let mut o = vec![];
    let _ = ch.stdout.take().unwrap().read_to_end(&mut o);
    let err = h.join().unwrap_or_default();
    let st = ch.wait().map_err(|e| format!("HARNESS: {e}"))?;
    drop(guard);
    if std::env::var_os("TGX_SLOW").is_some() {
        // For tuning: cases must stay far below the limit.
        let mut u: libc::rusage = unsafe { std::mem::zeroed() };
        unsafe { libc::getrusage(libc::RUSAGE_CHILDREN, &mut u) };
        let now = (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as u64;
        let before = SPENT.swap(now, std::sync::atomic::Ordering::Relaxed);
        if now - before > 3 {
            eprintln!("slow: {} s of processor time: {}", now - before, args.join(" "));
        }
    }
    let how = format!("tokengeex {} (RAYON_NUM_THREADS={threads}{}{log})", args.join(" "), if log.is_empty() { "" } else { " RUST_LOG=" });
    if let Some(s) = st.signal() {
        return Err(if s == libc::SIGXCPU || s == libc::SIGKILL {
            format!("does not terminate: no result after {CPU_S} s of processor time (or 130 s): {how}")
        } else {
            format!("killed by signal {s}: {how}: {}", err.chars().take(300).collect::<String>())
        });
    }
    Ok(Ran { ok: st.success(), out: String::from_utf8_lossy(&o).into_owned(), err, how })
}

/// Runs it and expects success.
pub fn cli_ok(args: &[String], threads: u8) -> Result<Ran, String> {
    let r = cli(args, threads)?;
    if !r.ok {
        return Err(format!("failed: {}: {}", r.how, r.err.chars().take(600).collect::<String>()));
    }
    Ok(r)
}

pub fn load(path: &str) -> Result<Tokenizer, String> {
    sut("from_file", || Tokenizer::from_file(path))?.map_err(|e| format!("the written tokenizer cannot be loaded: {e:?}"))
}

/// A number of a case; the greatest one of its type stands for the greatest there is.
pub fn most(n: u64, top: u64) -> usize {
    if n == top {
        usize::MAX
    } else {
        n as usize
    }
}

pub fn args(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

pub fn threads() -> BoxedStrategy<u8> {
    prop_oneof![2 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8), 1 => Just(8u8)].boxed()
}

/// Training data: files of samples, each with a proportion in 64ths (None: not given).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Corpus {
    pub files: Vec<(Vec<Vec<Frag>>, Option<u8>)>,
    /// How samples are laid out: bit 0 trailing NUL, bit 1 leading NUL, bit 2 doubled NULs.
    pub style: u8,
    /// Every sample is listed this many times.
    #[serde(default)]
    pub times: u32,
    /// The first sample is repeated up to about this many bytes.
    #[serde(default)]
    pub giant: u32,
}

const WORDS: &[&str] = &[
    "the ", "a", "ab", "abc", " if", " (", "x = 1;", "\n    ", "\r\n", "\t", "好", "你好", "é", "e\u{301}", "ﬁ", "Å", "😀", "foo", "bar", "foobar", "Foo", "12", "3", ".", "==", " == ", "\"", "\\", "std::", "aa", "ba", "\u{2028}", "\u{feff}",
];

pub fn sample() -> BoxedStrategy<Vec<Frag>> {
    let w = prop_oneof![
        5 => (0..WORDS.len()).prop_map(|i| Frag::S(WORDS[i].to_string())),
        4 => (0u16..24).prop_map(Frag::T),
        1 => (0u16..8).prop_map(Frag::Sp),
        3 => vec(prop_oneof![2 => Just('a'), 1 => Just('b')], 1..7).prop_map(|v| Frag::S(v.into_iter().collect())),
        1 => "\\PC{0,4}".prop_map(Frag::S),
        1 => odd().prop_map(Frag::S),
        1 => (0..WORDS.len(), 2u16..12).prop_map(|(i, n)| Frag::R(WORDS[i].to_string(), n)),
    ];
    vec(w, 0..9).boxed()
}

const BULK: usize = 1_000_000;

/// A few short samples, each of them so often that counts exceed 16 bits.
pub fn bulk() -> BoxedStrategy<Corpus> {
    let word = prop_oneof![3 => "[ab]{1,4}".prop_map(Frag::S), 2 => (0u16..24).prop_map(Frag::T), 1 => (0..WORDS.len()).prop_map(|i| Frag::S(WORDS[i].to_string()))];
    let s = vec(word, 1..4);
    (vec((vec(s, 1..4), prop_oneof![2 => Just(None), 1 => (30u8..64).prop_map(Some)]), 1..3), 0u8..8, 25_000u32..70_000).prop_map(|(files, style, times)| Corpus { files, style, times, giant: 0 }).boxed()
}

/// Few but long samples, up to `MAX_SAMPLE` bytes.
pub fn longs() -> BoxedStrategy<Corpus> {
    let n = || prop_oneof![2 => 100u16..2000, 1 => 2000u16..12_000];
    let part = prop_oneof![
        3 => (0u16..24, n()).prop_map(|(i, n)| Frag::TR(i, n)),
        3 => (0..WORDS.len(), n()).prop_map(|(i, n)| Frag::R(WORDS[i].to_string(), n)),
        1 => ("[ab ]{2,5}", n()).prop_map(|(s, n)| Frag::R(s, n)),
        2 => "[a-d ]{100,900}".prop_map(Frag::S),
        4 => sample().prop_map(|mut v| v.pop().unwrap_or(Frag::T(0))),
    ];
    let s = prop_oneof![3 => vec(part, 2..10), 1 => sample()];
    (vec((vec(s, 1..4), Just(None)), 1..3), 0u8..8).prop_map(|(files, style)| Corpus { files, style, times: 1, giant: 0 }).boxed()
}
pub const MAX_SAMPLE: usize = 78_000;

/// A sample of more than a megabyte, more than 100,000 samples, or many files.
pub fn huge() -> BoxedStrategy<Corpus> {
    let short = || prop_oneof![2 => "[ab]{1,3}".prop_map(Frag::S), 2 => (0u16..24).prop_map(Frag::T), 1 => Just(Frag::S(" ".into()))];
    let giant = (vec((vec(vec(prop_oneof![2 => short(), 1 => sample().prop_map(|mut v| v.pop().unwrap_or(Frag::T(0)))], 2..12), 1..4), Just(None)), 1..3), 0u8..6, 1_050_000u32..1_200_000)
        .prop_map(|(files, style, giant)| Corpus { files, style, times: 1, giant });
    let many = (vec((vec(vec(prop_oneof![4 => (0u16..24).prop_map(Frag::T), 1 => short()], 1..4), 1..8), Just(None)), 2..4), 0u8..4, 110_000u32..150_000)
        .prop_map(|(files, style, n)| Corpus { times: n / files.iter().map(|f| f.0.len() as u32).max().unwrap_or(1), files, style, giant: 0 });
    let files = (vec((vec(vec(short(), 1..5), 1..3), prop_oneof![3 => Just(None), 1 => Just(Some(32u8))]), 66..280), 0u8..8).prop_map(|(files, style)| Corpus { files, style, times: 1, giant: 0 });
    prop_oneof![2 => giant.boxed(), 2 => many.boxed(), 1 => files.boxed()].boxed()
}

/// Samples of the letters of `big_vocab`.
pub fn letters() -> BoxedStrategy<Corpus> {
    (vec((vec(prop_oneof![3 => "[a-p]{5,60}", 1 => "[a-p]{300,900}"].prop_map(|s| vec![Frag::S(s), Frag::T(0), Frag::T(1)]), 1..30), Just(None)), 1..3), 0u8..8, 1u32..3).prop_map(|(files, style, times)| Corpus { files, style, times, giant: 0 }).boxed()
}

pub fn corpus(proportions: bool) -> BoxedStrategy<Corpus> {
    let p = if proportions { prop_oneof![3 => Just(None), 1 => (0u8..=80).prop_map(Some)].boxed() } else { Just(None).boxed() };
    let file = prop_oneof![1 => vec(sample(), 0..3), 5 => vec(sample(), 0..12)];
    (vec((file, p), 1..4), 0u8..8, prop_oneof![3 => Just(1u32), 1 => 2u32..6])
        .prop_map(|(files, style, times)| Corpus { files, style, times, giant: 0 })
        .boxed()
}

pub fn join(samples: &[String], style: u8) -> Vec<u8> {
    let sep = if style & 4 != 0 { "\0\0" } else { "\0" };
    let mut s = samples.join(sep);
    if style & 2 != 0 {
        s.insert(0, '\0');
    }
    if style & 1 != 0 {
        s.push('\0');
    }
    s.into_bytes()
}

impl Corpus {
    /// Per file: its samples (empty ones included) as they are written.
    pub fn raw(&self, toks: &[Tok], specials: &[String]) -> Vec<Vec<String>> {
        let mut done = false;
        self.files
            .iter()
            .enumerate()
            .map(|(at, (s, _))| {
                let once: Vec<String> = s.iter().map(|f| resolve(f, toks, specials).replace('\0', ""))
                    .map(|mut s| {
                        let end = (0..=s.len().min(MAX_SAMPLE)).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
                        s.truncate(end);
                        s
                    })
                    .collect();
                // At most some megabytes.
                let mut once = once;
                if let Some(s) = once.iter_mut().find(|s| !s.is_empty()).filter(|_| self.giant > 0 && !std::mem::replace(&mut done, true)) {
                    *s = s.repeat(self.giant as usize / s.len() + 1);
                    return once;
                }
                let bytes = once.iter().map(|s| s.len() + 1).sum::<usize>();
                // Of very many samples, those of the last file are the most frequent.
                let share = if self.times > 10_000 { (self.files.len() - at) as u32 } else { 1 };
                let times = (self.times / share).min((BULK / bytes.max(1)) as u32);
                (0..times.max(1)).flat_map(|_| once.iter().cloned()).collect()
            })
            .collect()
    }
    /// Writes the files; returns the --train arguments and the samples that are to be used.
    pub fn write(&self, dir: &Dir, toks: &[Tok], specials: &[String], procs: &[u8]) -> (Vec<String>, Vec<String>) {
        let mut a = vec![];
        let mut used = vec![];
        for (i, (samples, (_, prop))) in self.raw(toks, specials).iter().zip(&self.files).enumerate() {
            // Names need not differ, and a source may be given twice.
            let name = if self.style & 4 > 0 { 0 } else { i };
            let p = dir.write(&format!("train{i}.bin"), &join(samples, self.style));
            a.push("--train".to_string());
            let full: Vec<&String> = samples.iter().filter(|s| !s.is_empty()).collect();
            let n = match prop {
                None => {
                    a.push(format!("src{name}:{p}"));
                    full.len()
                }
                Some(q) => {
                    a.push(format!("src{name}:{p}:{}", *q as f64 / 64.0));
                    (full.len() * *q as usize / 64).min(full.len())
                }
            };
            let again = self.style == 6 && self.times == 1 && i < 2;
            for _ in 0..1 + again as u8 {
                used.extend(full[..n].iter().map(|s| process(procs, s)));
            }
            if again {
                let same = a.last().unwrap().clone();
                a.extend(["--train".to_string(), same]);
            }
        }
        (a, used)
    }
}

/// Writes the same samples again, shuffled into other files and another order.
pub fn rearrange(dir: &Dir, samples: &[String], files: usize, seed: u64) -> Vec<String> {
    let mut m = Mix(seed);
    let mut s: Vec<&String> = samples.iter().collect();
    for i in (1..s.len()).rev() {
        let j = m.below(i as u64 + 1) as usize;
        s.swap(i, j);
    }
    let mut parts: Vec<Vec<String>> = vec![vec![]; files.max(1)];
    for x in s {
        let k = m.below(parts.len() as u64) as usize;
        parts[k].push(x.clone());
    }
    let mut a = vec![];
    for (i, p) in parts.iter().enumerate() {
        let f = dir.write(&format!("again{i}.bin"), &join(p, 0));
        a.push("--train".into());
        a.push(format!("r{i}:{f}"));
    }
    a
}

/// Writes a tokenizer as the tool's input, through our own JSON text (C08 decides the library's writer).
pub fn write_tokenizer(dir: &Dir, name: &str, v: &[tokengeex::ScoredToken], procs: &[u8], sp: &[String]) -> String {
    let toks: Vec<serde_json::Value> = v
        .iter()
        .map(|t| match std::str::from_utf8(&t.value) {
            Ok(s) => serde_json::json!({"value": s, "score": t.score, "keep": t.keep}),
            Err(_) => serde_json::json!({"value": crate::refm::base64_nopad(&t.value), "score": t.score, "encoded": true, "keep": t.keep}),
        })
        .collect();
    let ps: Vec<serde_json::Value> = procs.iter().map(|p| if *p == 0 { serde_json::json!({"type": "crlf"}) } else { serde_json::json!({"type": "unicode", "form": PROC_NAMES[*p as usize]}) }).collect();
    let doc = serde_json::json!({"version": "2.0", "special_tokens": sp, "processors": ps, "vocab": toks});
    dir.write(name, doc.to_string().as_bytes())
}

pub fn same_setup(t: &Tokenizer, procs: &[u8], sp: &[String]) -> R {
    if t.special_tokens() != sp {
        return Err(format!("special tokens are {:?}, expected {sp:?}", t.special_tokens()));
    }
    let (a, b) = (serde_json::to_value(t.processors()).unwrap(), serde_json::to_value(wrap(procs)).unwrap());
    if a != b {
        return Err(format!("processors are {a}, expected {b}"));
    }
    Ok(())
}

pub fn exists(p: &str) -> bool {
    Path::new(p).exists()
}
