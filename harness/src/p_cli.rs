//! C28: commands succeed completely or fail cleanly. C29: concurrent use.
use crate::cli::*;
use crate::fw::*;
use crate::gen::*;
use crate::p_core::{ensure, errs};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Barrier;
use tokengeex::{Model, Tokenizer};

// ---------------------------------------------------------------- C28

const COMMANDS: &[&str] = &["generate", "prune", "filter", "merge", "mine", "regex"];

const NAMES: &[&str] = &["out", " out.json", "out.json ", "out.json.gz", "oût e\u{301}\u{1f600}.json", "out\n.json", "out.json\n", "$out", "%20out", "out:2.json", "#out?x", "\\out.json", "*out", "OUT.json", "~out", "folder/../out.json", ".//out.json", "out.tmp", "out.regex", ".out"];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run {
    cmd: u8,
    /// 0: none.
    fault: u8,
    pick: u8,
    at: u8,
    preexisting: bool,
    /// The output replaces the input tokenizer.
    over: bool,
    vocab: VocabSpec,
    corpus: Corpus,
    procs: Vec<u8>,
    specials: Vec<String>,
    threads: u8,
}

fn run_case(cmds: std::ops::Range<u8>) -> BoxedStrategy<Run> {
    let vocab = (dyadic(), vec(tok(dyadic()), 0..8)).prop_map(|(byte_score, toks)| VocabSpec { bytes: 1, byte_score, byte_keep: true, over: vec![], toks, big: None });
    ((cmds, prop_oneof![1 => Just(0u8), 5 => 1u8..15], any::<u8>(), any::<u8>(), any::<bool>(), prop::bool::weighted(0.3)), (vocab, corpus(true), procs(), specials(), threads()))
        .prop_map(|((cmd, fault, pick, at, preexisting, over), (vocab, corpus, procs, specials, threads))| Run { cmd, fault, pick, at, preexisting, over, vocab, corpus, procs, specials: specials.into_iter().map(|s| s.replace('\0', "0")).collect(), threads })
        .boxed()
}

fn snapshot(d: &std::path::Path) -> BTreeMap<String, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        let link = std::fs::symlink_metadata(e.path()).map(|m| m.is_symlink()).unwrap_or(false);
        if link {
            m.insert(n, Some(std::fs::read_link(e.path()).unwrap_or_default().to_string_lossy().into_owned().into_bytes()));
        } else if e.path().is_dir() {
            for (k, v) in snapshot(&e.path()) {
                m.insert(format!("{n}/{k}"), v);
            }
            m.insert(n, None);
        } else {
            m.insert(n, Some(std::fs::read(e.path()).unwrap_or_default()));
        }
    }
    m
}

/// Replaces the value of the first flag named `f`.
fn set(a: &mut [String], f: &str, v: &str) -> bool {
    match a.iter().position(|x| x == f) {
        Some(i) if i + 1 < a.len() => {
            a[i + 1] = v.to_string();
            true
        }
        _ => false,
    }
}

fn drop_flag(a: &mut Vec<String>, f: &str) {
    while let Some(i) = a.iter().position(|x| x == f) {
        a.drain(i..(i + 2).min(a.len()));
    }
}

fn c28(c: &Run, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "r");
    let cmd = COMMANDS[c.cmd as usize % COMMANDS.len()];
    let p = c.pick as usize;
    let (train, _) = c.corpus.write(&dir, &c.vocab.toks, &c.specials, &c.procs);
    let sp = registered(&c.specials);
    let v = c.vocab.build();
    std::fs::create_dir(dir.path("folder")).unwrap();
    // Any name will do for the files.
    let (at, odd) = (c.at as usize, c.at % 2 == 1);
    let input = write_tokenizer(&dir, if odd { NAMES[at / 8 % NAMES.len()].replace("oût", "in").to_lowercase().replace("out", "in") } else { "in.json".into() }.as_str(), &v, &c.procs, &sp);
    let has_input = ["prune", "filter", "merge"].contains(&cmd);
    let plain = dir.path(if odd { NAMES[at / 2 % NAMES.len()] } else { "out.json" });
    let mut out = if c.over && has_input { input.clone() } else { plain.clone() };
    let good = dir.write("good.regex", b"^(?:[a-z ]+)$");
    let split = dir.write("split.regex", br"(?s)(?:\w+|.)(?!never)");
    let words = dir.write("words.json", br#"["ab", "foo"]"#);
    let mut a: Vec<String> = match cmd {
        "generate" => {
            let mut a = args(&["generate", "-v", "270", "-o", &out, "--allow", &good, "--split", &split, "--added", &words, "--suggested", &words, "--insert-probability", "0.5", "--max-token-length", "6"]);
            for q in c.procs.iter() {
                a.extend(args(&["--processor", PROC_NAMES[*q as usize]]));
            }
            for s in &sp {
                a.extend(args(&["--special", s]));
            }
            a
        }
        "prune" => args(&["prune", "-i", &input, "-o", &out, "-v", "258", "--dropout", "0.1", "--shrink-factor", "0.5", "--em-subiters", "1"]),
        "filter" => args(&["filter", "-i", &input, "-o", &out, "-v", "3", "--min-score", "-2.5"]),
        "merge" => args(&["merge", "-i", &input, "-o", &out, "--allow", &good, "--num-merges", "5", "--step", "2", "--scale-factor", "0.5", "--max-token-length", "9"]),
        "mine" => args(&["mine", "-n", "5", "-o", &out, "-p", "word", "-p", "[0-9]+"]),
        _ => args(&["regex", "-o", &out, "-p", "word", "-p", "a|b"]),
    };
    let trains = ["generate", "prune", "merge", "mine"].contains(&cmd);
    if trains {
        a.extend(train);
    }
    let broken: &[(&str, &[u8])] = &[
        ("not JSON", b"{\"version\": \"2.0\""),
        ("an empty file", b""),
        ("another version", br#"{"version": "1.0", "special_tokens": [], "processors": [], "vocab": []}"#),
        ("no version", br#"{"special_tokens": [], "processors": [], "vocab": []}"#),
        ("an unknown field", br#"{"version": "2.0", "special_tokens": [], "processors": [], "vocab": [], "x": 1}"#),
        ("a token without score", br#"{"version": "2.0", "special_tokens": [], "processors": [], "vocab": [{"value": "a"}]}"#),
        ("bytes that are not UTF-8", b"\xff\xfe"),
    ];
    let bad_regex = [&b"("[..], b"[a", b"*", b"a{2,1}", b"(?P<n>", b"\xff"][p % 6];
    let mut what = String::new();
    let mut device = false;
    match c.fault {
        0 => {}
        1 if has_input => {
            let (w, b) = broken[p % broken.len()];
            what = format!("an input with {w}");
            if c.over && c.at % 2 == 0 {
                std::fs::write(&input, b).unwrap();
            } else {
                let f = dir.write("broken.json", b);
                set(&mut a, "-i", &f);
            }
        }
        2 if has_input => {
            what = "a missing input".into();
            set(&mut a, "-i", &[dir.path("absent.json"), dir.path("folder"), dir.path("absent/in.json")][p % 3].clone());
        }
        3 if cmd == "generate" || cmd == "merge" => {
            let f = dir.write("bad.regex", bad_regex);
            let flag = if cmd == "generate" && c.at % 2 == 0 { "--split" } else { "--allow" };
            what = format!("an invalid {flag} expression");
            set(&mut a, flag, &f);
        }
        4 if cmd == "generate" || cmd == "merge" => {
            let flag = if cmd == "generate" { ["--split", "--allow", "--added", "--suggested"][c.at as usize % 4] } else { "--allow" };
            what = format!("a missing {flag} file");
            set(&mut a, flag, &[dir.path("absent"), dir.path("folder")][p % 2].clone());
        }
        5 if cmd == "generate" => {
            let b = [&b"{}"[..], b"[1]", b"\"a\"", b"[\"a\"", b"", b"a\nb\n", b"[\"\\ud800\"]", b"[null]", b"[[\"a\"]]"][p % 9];
            let f = dir.write("bad.json", b);
            let flag = ["--added", "--suggested"][c.at as usize % 2];
            what = format!("an {flag} file that is no list of strings");
            if c.at % 4 < 2 {
                set(&mut a, flag, &f);
            } else {
                a.extend(args(&[flag, &f]));
            }
        }
        6 if cmd == "generate" => {
            what = "an unknown processor".into();
            let name = ["", "lf", "NFC", "nfx", "crlf ", "unicode", "lowercase", "CRLF", "none"][p % 9];
            let mut x = args(&["--processor", name]);
            if c.at % 2 == 0 {
                x.extend(a.drain(1..));
                a.truncate(1);
                a.extend(x);
            } else {
                a.extend(x);
            }
        }
        7 if cmd == "mine" || cmd == "regex" => {
            what = "an invalid pattern".into();
            let bad = ["(", "[a", "*", "a{2,1}", "(?P<n>", "(?!a)", "a\\"][p % 7];
            if c.at % 2 == 0 {
                set(&mut a, "-p", bad);
            } else {
                a.extend(args(&["-p", bad]));
            }
        }
        8 if trains => {
            let bad = [format!("x:{}", dir.path("absent")), dir.path("absent"), format!("x:{}:much", dir.path("train0.bin")), format!("x:{}:1:1", dir.path("train0.bin")), format!("x:{}", dir.path("folder"))][p % 5].clone();
            what = "a faulty source".into();
            a.extend(args(&["--train", &bad]));
        }
        9 if cmd == "merge" || cmd == "mine" => {
            what = "no source".into();
            drop_flag(&mut a, "--train");
        }
        10 => {
            let required: &[&str] = match cmd {
                "generate" => &["-v", "-o"],
                "prune" => &["-i", "-v", "-o"],
                "filter" => &["-i", "-o"],
                "merge" => &["-i", "-o", "--allow"],
                "mine" => &["-n", "-o", "-p"],
                _ => &[],
            };
            if required.is_empty() {
                return Ok(());
            }
            let f = required[p % required.len()];
            what = format!("no {f}");
            drop_flag(&mut a, f);
        }
        11 => {
            let flags: &[&str] = match cmd {
                "generate" => &["-v", "--insert-probability", "--max-token-length"],
                "prune" => &["-v", "--dropout", "--shrink-factor", "--em-subiters"],
                "filter" => &["-v", "--min-score"],
                "merge" => &["--num-merges", "--step", "--scale-factor", "--max-token-length"],
                "mine" => &["-n"],
                _ => return Ok(()),
            };
            let f = flags[c.at as usize % flags.len()];
            let x = ["", "abc", "1x", "0x10", "1,5", "--", "ten", "1 "][p % 8];
            what = format!("{f} {x:?}");
            set(&mut a, f, x);
        }
        12 => {
            what = "an unknown option".into();
            a.extend(args(&[["--unknown", "-z", "--vocab_size", "stray", "--outputs"][p % 5], "1"]));
        }
        13 => {
            what = "an output that cannot be created".into();
            out = [dir.path("absent/out.json"), dir.path("folder"), format!("{}/out.json", dir.path("words.json")), String::new()][p % 4].clone();
            set(&mut a, "-o", &out.clone());
        }
        14 => {
            what = "an output device that is full".into();
            device = true;
            // A link, so that nothing can happen to the device itself.
            out = dir.path("full");
            std::os::unix::fs::symlink("/dev/full", &out).unwrap();
            set(&mut a, "-o", &out.clone());
        }
        _ => return Ok(()),
    }
    if c.preexisting && out == plain {
        std::fs::write(&out, "{".repeat(4000)).unwrap();
    }
    let before = snapshot(&dir.0);
    let r = cli(&a, c.threads)?;
    let mut after = snapshot(&dir.0);
    ctx.label(&format!("{cmd}: {}", if what.is_empty() { "no fault" } else if c.fault == 11 { "a bad number" } else if c.fault == 1 { "a broken input" } else { &what }));
    // A tool that replaces the link by a complete file did its work.
    let replaced = device && r.ok && std::fs::symlink_metadata(&out).map(|m| m.is_file()).unwrap_or(false);
    if what.is_empty() || replaced {
        ctx.nontrivial_if(device || c.over && has_input || c.preexisting);
        ensure!(r.ok, "fails: {}: {}", r.how, r.err.chars().take(400).collect::<String>());
        match cmd {
            "mine" => {
                let x: Vec<String> = serde_json::from_slice(&std::fs::read(&out).map_err(|e| format!("no output: {e}"))?).map_err(|e| format!("the output is no list of strings: {e}: {}", r.how))?;
                ensure!(x.len() <= 5, "{} idioms", x.len());
            }
            "regex" => {
                let x = std::fs::read_to_string(&out).map_err(|e| format!("no output: {e}"))?;
                regex::Regex::new(&x).map_err(|e| format!("the output is no regular expression: {e}"))?;
            }
            _ => {
                let t = load(&out)?;
                same_setup(&t, &c.procs, &sp)?;
            }
        }
        let name = std::path::Path::new(&out).file_name().unwrap().to_str().unwrap().to_string();
        after.remove(&name);
        let mut before = before;
        before.remove(&name);
        ensure!(before == after, "changes files besides its output: {}: {:?}", r.how, differing(&before, &after));
        return Ok(());
    }
    ctx.nontrivial();
    ensure!(!r.ok, "succeeds with {what}: {}", r.how);
    ensure!(before == after, "changes files although it fails on {what}: {}: {:?}", r.how, differing(&before, &after));
    Ok(())
}

fn differing(a: &BTreeMap<String, Option<Vec<u8>>>, b: &BTreeMap<String, Option<Vec<u8>>>) -> Vec<String> {
    a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).cloned().collect::<std::collections::BTreeSet<_>>().into_iter().collect()
}

// ---------------------------------------------------------------- C29

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    Encode(Vec<Frag>),
    Ordinary(Vec<Frag>),
    Dropout(Vec<Frag>, F),
    Batch(Vec<Vec<Frag>>),
    /// IDs, modulo one more than the vocabulary.
    Decode(Vec<u16>, bool),
    DecodeBatch(Vec<Vec<u16>>, bool),
    Token(u16),
    Prefix(Vec<Frag>),
    Save,
    /// A copy with other tokens, used and dropped.
    Copy(Vec<Tok>, Vec<String>, Vec<Frag>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shared {
    vocab: VocabSpec,
    procs: Vec<u8>,
    specials: Vec<String>,
    threads: Vec<Vec<Call>>,
    rounds: u8,
    pool: u8,
}

fn shared() -> BoxedStrategy<Shared> {
    let ids = || vec(any::<u16>(), 0..8);
    let call = prop_oneof![
        4 => text().prop_map(Call::Encode),
        3 => text().prop_map(Call::Ordinary),
        2 => (text(), (0.1f64..0.9).prop_map(F)).prop_map(|(t, p)| Call::Dropout(t, p)),
        2 => vec(vec(frag(), 0..6), 0..6).prop_map(Call::Batch),
        3 => (ids(), any::<bool>()).prop_map(|(i, b)| Call::Decode(i, b)),
        1 => (vec(ids(), 0..5), any::<bool>()).prop_map(|(i, b)| Call::DecodeBatch(i, b)),
        2 => any::<u16>().prop_map(Call::Token),
        2 => text().prop_map(Call::Prefix),
        1 => Just(Call::Save),
        2 => (vec(tok(dyadic()), 0..3), vec(special(), 0..3), text()).prop_map(|(a, b, t)| Call::Copy(a, b, t)),
    ];
    (any_vocab(), procs(), specials(), vec(vec(call, 1..6), 2..7), 1u8..12, 1u8..5)
        .prop_map(|(vocab, procs, specials, threads, rounds, pool)| Shared { vocab, procs, specials, threads, rounds, pool })
        .boxed()
}

/// What a call returns, as text.
fn perform(t: &Tokenizer, call: &Call, toks: &[Tok], sp: &[String], pool: &rayon::ThreadPool) -> Result<String, String> {
    let n = t.vocab_size() as u32 + 1;
    let ids = |v: &[u16]| v.iter().map(|i| *i as u32 % n).collect::<Vec<u32>>();
    Ok(match call {
        Call::Encode(f) => format!("{:?}", t.encode(&resolve(f, toks, sp), 0.0)),
        Call::Ordinary(f) => format!("{:?}", t.encode_ordinary(&resolve(f, toks, sp), 0.0)),
        Call::Dropout(f, p) => {
            // Chance decides; what it spells does not, where nothing can fail.
            match t.encode_ordinary(&resolve(f, toks, sp), p.0) {
                Ok(i) => format!("{:?}", t.decode(&i, true)),
                Err(_) => String::new(),
            }
        }
        Call::Batch(v) => {
            let v: Vec<String> = v.iter().map(|f| resolve(f, toks, sp)).collect();
            match pool.install(|| t.encode_batch(&v, 0.0)) {
                Ok(x) => format!("{x:?}"),
                Err(_) => "fails".into(),
            }
        }
        Call::Decode(i, b) => format!("{:?}", t.decode(&ids(i), *b)),
        Call::DecodeBatch(v, b) => {
            let v: Vec<Vec<u32>> = v.iter().map(|i| ids(i)).collect();
            match pool.install(|| t.decode_batch(&v, *b)) {
                Ok(x) => format!("{x:?}"),
                Err(_) => "fails".into(),
            }
        }
        Call::Token(i) => {
            let i = *i as u32 % n;
            let x = t.id_to_token(i);
            let back = x.as_ref().map(|x| t.token_to_id(x));
            format!("{x:?} {back:?} {} {} {:?}", t.is_special(i), t.is_base(i), t.id_to_special_token(i))
        }
        Call::Prefix(f) => {
            let s = resolve(f, toks, sp);
            let mut buf = vec![];
            format!("{:?}", t.model().common_prefix_search(s.as_bytes(), &mut buf).collect::<Vec<_>>())
        }
        Call::Save => t.to_string(),
        Call::Copy(a, b, f) => {
            let mut u = t.clone();
            u.add_base_tokens(a.iter().map(Tok::scored));
            u.add_special_tokens(b.iter());
            let s = resolve(f, toks, sp);
            let x = u.encode(&s, 0.0);
            format!("{x:?} {:?} {:?}", x.as_ref().ok().map(|i| u.decode(i, true)), u.special_tokens())
        }
    })
}

fn c29(c: &Shared, ctx: &mut Ctx) -> R {
    let sp = registered(&c.specials);
    let v = c.vocab.build();
    let toks = &c.vocab.toks;
    let make = || sut("Tokenizer::new", || Tokenizer::new(Model::from(v.clone()), wrap(&c.procs), c.specials.iter()));
    let pool = rayon::ThreadPoolBuilder::new().num_threads(c.pool as usize).build().map_err(|e| format!("HARNESS: {e}"))?;
    // Alone: every call on a tokenizer of its own.
    let mut want = vec![];
    for calls in &c.threads {
        let mut w = vec![];
        for call in calls {
            let t = make()?;
            w.push(sut("a call alone", || perform(&t, call, toks, &sp, &pool))??);
        }
        want.push(w);
    }
    let t = make()?;
    let complete = c.vocab.complete();
    let barrier = Barrier::new(c.threads.len());
    let wrong: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .zip(&want)
            .map(|(calls, want)| {
                let (t, sp, pool, barrier) = (&t, &sp, &pool, &barrier);
                s.spawn(move || -> Result<(), String> {
                    for round in 0..c.rounds {
                        barrier.wait();
                        for (call, w) in calls.iter().zip(want) {
                            let got = match sut("a concurrent call", || perform(t, call, toks, sp, pool)) {
                                Ok(Ok(x)) => x,
                                // The others still wait at the barrier.
                                Ok(Err(e)) | Err(e) => {
                                    for _ in round + 1..c.rounds {
                                        barrier.wait();
                                    }
                                    return Err(e);
                                }
                            };
                            let chance = matches!(call, Call::Dropout(..)) && !complete;
                            if got != *w && !chance {
                                for _ in round + 1..c.rounds {
                                    barrier.wait();
                                }
                                return Err(format!("{call:?} gives {} while other threads use the tokenizer, {} alone", cut(&got), cut(w)));
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Err("HARNESS: a thread panicked".into())).err()).collect()
    });
    if let Some(e) = wrong.into_iter().next() {
        return Err(e);
    }
    // Nothing is left behind.
    for (calls, want) in c.threads.iter().zip(&want) {
        for (call, w) in calls.iter().zip(want) {
            let got = sut("a call afterwards", || perform(&t, call, toks, &sp, &pool))??;
            ensure!(got == *w || (matches!(call, Call::Dropout(..)) && !complete), "{call:?} gives {} after concurrent use, {} before", cut(&got), cut(w));
        }
    }
    ctx.nontrivial_if(c.threads.iter().map(Vec::len).sum::<usize>() > 3);
    ctx.label_if(want.iter().flatten().any(|w| w.starts_with("Err")), "some call fails");
    Ok(())
}

fn cut(s: &str) -> String {
    s.chars().take(200).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nested {
    vocab: VocabSpec,
    specials: Vec<String>,
    procs: Vec<u8>,
    groups: Vec<Vec<Vec<Frag>>>,
    pool: u8,
}

fn nested() -> BoxedStrategy<Nested> {
    (any_vocab(), specials(), procs(), vec(vec(vec(frag(), 0..5), 0..12), 1..10), 1u8..9).prop_map(|(vocab, specials, procs, groups, pool)| Nested { vocab, specials, procs, groups, pool }).boxed()
}

/// Batches started from within parallel work.
fn c29_nested(c: &Nested, ctx: &mut Ctx) -> R {
    use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
    let sp = registered(&c.specials);
    let t = sut("Tokenizer::new", || Tokenizer::new(Model::from(c.vocab.build()), wrap(&c.procs), c.specials.iter()))?;
    let groups: Vec<Vec<String>> = c.groups.iter().map(|g| g.iter().map(|f| resolve(f, &c.vocab.toks, &sp)).collect()).collect();
    let pool = rayon::ThreadPoolBuilder::new().num_threads(c.pool as usize).build().map_err(|e| format!("HARNESS: {e}"))?;
    let got: Vec<Result<Vec<Vec<u32>>, String>> = sut("nested batches", || pool.install(|| groups.par_iter().map(|g| t.encode_batch(g, 0.0).map_err(|e| errs(&e))).collect()))?;
    ensure!(got.len() == groups.len(), "{} groups", got.len());
    for (g, r) in groups.iter().zip(got) {
        let single: Vec<Result<Vec<u32>, String>> = g.iter().map(|s| t.encode(s, 0.0).map_err(|e| errs(&e))).collect();
        match r {
            Ok(v) => {
                let w: Result<Vec<_>, _> = single.into_iter().collect();
                ensure!(w.as_ref() == Ok(&v), "a batch within parallel work gives {v:?}, its elements alone {w:?}");
                let back = sut("decode_batch", || pool.install(|| t.decode_batch(&v, true)))?.map_err(|e| errs(&e))?;
                let alone: Vec<String> = v.iter().map(|i| t.decode(i, true).unwrap_or_default()).collect();
                ensure!(back == alone, "decode_batch gives {back:?}, its elements alone {alone:?}");
            }
            Err(e) => ensure!(single.iter().any(|x| x.as_ref().err() == Some(&e)), "a batch within parallel work fails with {e}, its elements alone give {single:?}"),
        }
    }
    ctx.nontrivial_if(groups.len() > 1 && c.pool > 1);
    Ok(())
}

pub fn props() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "C28",
            rule: "there is a fault, or the output replaces an existing file",
            assumptions: &["faults are in the arguments and files given; interruption while the output is being written is not explored", "a command runs with the privileges of the checks, so permissions are not among the faults"],
            subs: vec![sub("commands", 16_000, 64_000, || run_case(0..6), c28)],
        },
        PropDef {
            id: "C29",
            rule: "at least four calls in at least two threads (nested: two groups or more and more than one worker)",
            assumptions: &["schedules are those of the operating system and rayon for generated loads, not all schedules"],
            subs: vec![sub("threads", 8_000, 200_000, shared, c29), sub("nested", 3_000, 60_000, nested, c29_nested)],
        },
    ]
}
