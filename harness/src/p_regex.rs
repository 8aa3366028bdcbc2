//! C21: mining. C22: compiled allow patterns. C23: named patterns.
use crate::cli::*;
use crate::fw::*;
use crate::gen::*;
use crate::p_core::ensure;
use proptest::collection::vec;
use proptest::prelude::*;
use regex::Regex;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};

// ---------------------------------------------------------------- generated patterns and their own matcher

const ALPHA: &[char] = &['a', 'b', 'A', 'B', 'é', 'É', '0', '1', ' ', '\n', '\t', '\r', '.', '-', '_', '\'', '[', ')', '|', '$', '好', '#', '^', '\\'];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Re {
    Lit(char),
    Any,
    Class(bool, Vec<(char, char)>),
    /// \d \w \s \D \W \S
    Perl(u8),
    /// ^ $ \A \z \b \B
    At(u8),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, u8, Option<u8>, bool),
    /// (?: ) ( )
    Group(Box<Re>, bool),
    /// Flags i, s, m as bits, scoped.
    Flags(u8, Box<Re>),
    /// Flags i, s, m from here to the end of the group.
    Set(u8),
    /// (?x) with blanks, in a scope of its own.
    Verbose(Box<Re>),
}

fn flag_text(f: u8) -> String {
    ["i", "s", "m"].iter().enumerate().filter(|(i, _)| f >> i & 1 == 1).map(|(_, s)| *s).collect()
}

impl Re {
    /// 0: inside a repetition, 1: inside a concatenation, 2: anywhere.
    fn show(&self, out: &mut String, level: u8) {
        let wrap = |out: &mut String, yes: bool, f: &mut dyn FnMut(&mut String)| {
            if yes {
                out.push_str("(?:");
            }
            f(out);
            if yes {
                out.push(')');
            }
        };
        match self {
            Re::Lit(c) => match c {
                '\n' => out.push_str("\\n"),
                '\r' => out.push_str("\\r"),
                '\t' => out.push('\t'),
                c => out.push_str(&regex::escape(&c.to_string())),
            },
            Re::Any => out.push('.'),
            Re::Class(neg, r) => {
                out.push('[');
                if *neg {
                    out.push('^');
                }
                for (a, b) in r {
                    let one = |c: &char| match c {
                        '\n' => "\\n".to_string(),
                        '\r' => "\\r".to_string(),
                        '\'' | ' ' | '\t' => c.to_string(),
                        c if c.is_ascii_punctuation() && *c != '_' => format!("\\{c}"),
                        c => c.to_string(),
                    };
                    out.push_str(&one(a));
                    if a != b {
                        out.push('-');
                        out.push_str(&one(b));
                    }
                }
                out.push(']');
            }
            Re::Perl(k) => out.push_str(["\\d", "\\w", "\\s", "\\D", "\\W", "\\S"][*k as usize % 6]),
            Re::At(k) => wrap(out, level == 0, &mut |o| o.push_str(["^", "$", "\\A", "\\z", "\\b", "\\B"][*k as usize % 6])),
            Re::Cat(v) => wrap(out, level == 0, &mut |o| v.iter().for_each(|x| x.show(o, 1))),
            Re::Alt(v) => wrap(out, level < 2, &mut |o| {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push('|');
                    }
                    x.show(o, 1);
                }
            }),
            Re::Rep(x, a, b, greedy) => wrap(out, level == 0, &mut |o| {
                x.show(o, 0);
                match (a, b) {
                    (0, None) => o.push('*'),
                    (1, None) => o.push('+'),
                    (0, Some(1)) => o.push('?'),
                    (a, None) => o.push_str(&format!("{{{a},}}")),
                    (a, Some(b)) if a == b => o.push_str(&format!("{{{a}}}")),
                    (a, Some(b)) => o.push_str(&format!("{{{a},{b}}}")),
                }
                if !greedy {
                    o.push('?');
                }
            }),
            Re::Group(x, capture) => {
                out.push_str(if *capture { "(" } else { "(?:" });
                x.show(out, 2);
                out.push(')');
            }
            Re::Flags(f, x) => {
                out.push_str(&format!("(?{}:", flag_text(*f)));
                x.show(out, 2);
                out.push(')');
            }
            Re::Set(f) => out.push_str(&format!("(?{})", flag_text(*f))),
            Re::Verbose(x) => {
                out.push_str("(?:(?x) ");
                let mut s = String::new();
                x.show(&mut s, 2);
                // Blanks of the pattern itself would be dropped: they are written as escapes.
                out.push_str(&s.replace(' ', "\\x20").replace('\t', "\\t"));
                out.push_str("  )");
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.show(&mut s, 2);
        s
    }
}

struct M<'a> {
    t: &'a [char],
    steps: u32,
}

fn fold(c: char) -> char {
    c.to_lowercase().next().unwrap()
}
fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

impl M<'_> {
    fn one(&self, at: usize, f: impl Fn(char) -> bool) -> bool {
        at < self.t.len() && f(self.t[at])
    }
    /// Calls k for every end of a match, preferred ones first, until it returns true.
    fn go(&mut self, r: &Re, at: usize, fl: u8, k: &mut dyn FnMut(&mut Self, usize) -> bool) -> bool {
        self.steps += 1;
        if self.steps > 200_000 {
            return false;
        }
        let i = fl & 1 == 1;
        match r {
            Re::Lit(c) => self.one(at, |x| x == *c || (i && fold(x) == fold(*c))) && k(self, at + 1),
            Re::Any => self.one(at, |x| fl & 2 != 0 || x != '\n') && k(self, at + 1),
            Re::Class(neg, v) => {
                let has = |x: char| v.iter().any(|(a, b)| *a <= x && x <= *b);
                let up = |x: char| x.to_uppercase().next().unwrap();
                self.one(at, |x| (has(x) || (i && (has(fold(x)) || has(up(x))))) != *neg) && k(self, at + 1)
            }
            Re::Perl(n) => {
                let n = *n % 6;
                let f = |x: char| match n % 3 {
                    0 => x.is_ascii_digit(),
                    1 => is_word(x),
                    _ => x.is_whitespace(),
                };
                self.one(at, |x| f(x) != (n >= 3)) && k(self, at + 1)
            }
            Re::At(n) => {
                let (start, end) = (at == 0, at == self.t.len());
                let m = fl & 4 != 0;
                let b = (at > 0 && is_word(self.t[at - 1])) != (!end && is_word(self.t[at]));
                (match *n % 6 {
                    0 => start || (m && self.t[at - 1] == '\n'),
                    1 => end || (m && self.t[at] == '\n'),
                    2 => start,
                    3 => end,
                    4 => b,
                    _ => !b,
                }) && k(self, at)
            }
            Re::Cat(v) => self.cat(v, at, fl, k),
            Re::Alt(v) => v.iter().any(|x| self.go(x, at, fl, k)),
            Re::Group(x, _) | Re::Verbose(x) => self.go(x, at, fl, k),
            Re::Flags(f, x) => self.go(x, at, fl | f, k),
            Re::Set(_) => k(self, at),
            Re::Rep(x, a, b, greedy) => self.rep(x, *a as usize, b.map(|n| n as usize), *greedy, at, fl, k),
        }
    }
    fn cat(&mut self, v: &[Re], at: usize, fl: u8, k: &mut dyn FnMut(&mut Self, usize) -> bool) -> bool {
        match v.split_first() {
            None => k(self, at),
            Some((Re::Set(f), rest)) => self.cat(rest, at, fl | f, k),
            Some((x, rest)) => self.go(x, at, fl, &mut |m, e| m.cat(rest, e, fl, k)),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn rep(&mut self, x: &Re, min: usize, max: Option<usize>, greedy: bool, at: usize, fl: u8, k: &mut dyn FnMut(&mut Self, usize) -> bool) -> bool {
        if min > 0 {
            return self.go(x, at, fl, &mut |m, e| m.rep(x, min - 1, max.map(|n| n - 1), greedy, e, fl, k));
        }
        if !greedy && k(self, at) {
            return true;
        }
        if max != Some(0) && self.go(x, at, fl, &mut |m, e| e > at && m.rep(x, 0, max.map(|n| n - 1), greedy, e, fl, k)) {
            return true;
        }
        greedy && k(self, at)
    }
}

/// Whether the pattern matches the whole text; None if that takes too long to find out.
pub fn full(r: &Re, text: &str) -> Option<bool> {
    let t: Vec<char> = text.chars().collect();
    let n = t.len();
    if !t.iter().all(|c| c.is_ascii() || ALPHA.contains(c)) {
        return None; // The matcher knows no more of Unicode than this.
    }
    let mut m = M { t: &t, steps: 0 };
    let y = m.go(r, 0, 0, &mut |_, e| e == n);
    if m.steps > 200_000 {
        None
    } else {
        Some(y)
    }
}

/// Flags set by (?i) reach to the end of the enclosing group, across alternatives; to keep the
/// matcher simple they only occur in front of a whole pattern or group.
fn re(depth: u32) -> BoxedStrategy<Re> {
    let c = || prop_oneof![3 => (0usize..6).prop_map(|i| ALPHA[i]), 2 => (0..ALPHA.len()).prop_map(|i| ALPHA[i])];
    let range = prop_oneof![
        2 => c().prop_map(|x| (x, x)),
        1 => Just(('a', 'b')), 1 => Just(('A', 'B')), 1 => Just(('0', '1')), 1 => Just(('0', 'é')), 1 => Just((' ', '.'))
    ];
    let leaf = prop_oneof![
        8 => c().prop_map(Re::Lit),
        1 => Just(Re::Any),
        2 => (prop::bool::weighted(0.3), vec(range, 1..3)).prop_map(|(n, v)| Re::Class(n, v)),
        1 => (0u8..6).prop_map(Re::Perl),
        1 => (0u8..6).prop_map(Re::At),
    ];
    leaf.prop_recursive(depth, 24, 4, |x| {
        prop_oneof![
            4 => vec(x.clone(), 1..4).prop_map(Re::Cat),
            3 => vec(x.clone(), 2..4).prop_map(Re::Alt),
            3 => (x.clone(), prop::sample::select(vec![(0, None), (1, None), (0, Some(1)), (2, None), (2, Some(2)), (1, Some(3)), (0, Some(2))]), any::<bool>()).prop_map(|(x, (a, b), g)| Re::Rep(Box::new(x), a, b, g)),
            2 => (x.clone(), any::<bool>()).prop_map(|(x, c)| Re::Group(Box::new(x), c)),
            1 => (1u8..8, x.clone()).prop_map(|(f, x)| Re::Flags(f, Box::new(x))),
        ]
    })
    .boxed()
}

fn pattern() -> BoxedStrategy<Re> {
    prop_oneof![
        6 => re(3),
        2 => vec(re(2), 2..4).prop_map(Re::Alt),
        2 => (1u8..8, re(2)).prop_map(|(f, x)| Re::Cat(vec![Re::Set(f), Re::Group(Box::new(x), false)])),
        1 => re(2).prop_map(|x| Re::Verbose(Box::new(x))),
    ]
    .boxed()
}

/// Writes some text that the pattern is likely to match.
fn member(r: &Re, m: &mut Mix, fl: u8, out: &mut Vec<char>) {
    match r {
        Re::Lit(c) => out.push(if fl & 1 == 1 && m.below(2) == 0 { if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { fold(*c) } } else { *c }),
        Re::Any => out.push(ALPHA[m.below(ALPHA.len() as u64) as usize]),
        Re::Class(neg, v) => {
            let has = |x: char| v.iter().any(|(a, b)| *a <= x && x <= *b) != *neg;
            let pick: Vec<char> = ALPHA.iter().copied().filter(|c| has(*c)).collect();
            if !pick.is_empty() {
                out.push(pick[m.below(pick.len() as u64) as usize]);
            }
        }
        Re::Perl(k) => out.push([['0', '1'], ['a', '_'], [' ', '\n'], ['a', '-'], [' ', '#'], ['b', '好']][*k as usize % 6][m.below(2) as usize]),
        Re::At(_) | Re::Set(_) => {}
        Re::Cat(v) => v.iter().for_each(|x| member(x, m, fl, out)),
        Re::Alt(v) => member(&v[m.below(v.len() as u64) as usize], m, fl, out),
        Re::Group(x, _) | Re::Verbose(x) => member(x, m, fl, out),
        Re::Flags(f, x) => member(x, m, fl | f, out),
        Re::Rep(x, a, b, _) => {
            let top = b.unwrap_or(a + 2);
            for _ in 0..*a as u64 + m.below((top - a) as u64 + 1) {
                if out.len() < 40 {
                    member(x, m, fl, out);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- named patterns

fn is_punct(c: char) -> bool {
    c.is_ascii_punctuation()
}
fn all(s: &[char], n: std::ops::RangeInclusive<usize>, f: impl Fn(char) -> bool) -> bool {
    n.contains(&s.len()) && s.iter().all(|c| f(*c))
}
const MANY: std::ops::RangeInclusive<usize> = 1..=usize::MAX;
fn lower(c: char) -> bool {
    c.is_ascii_lowercase()
}
fn upper(c: char) -> bool {
    c.is_ascii_uppercase()
}
fn letter(c: char) -> bool {
    c.is_ascii_alphabetic()
}
fn digit(c: char) -> bool {
    c.is_ascii_digit()
}
fn capitalized(s: &[char]) -> bool {
    s.len() >= 2 && upper(s[0]) && all(&s[1..], MANY, lower)
}
fn opt_space(s: &[char], f: impl Fn(&[char]) -> bool) -> bool {
    f(s) || (s.first() == Some(&' ') && f(&s[1..]))
}
fn space(s: &[char], f: impl Fn(&[char]) -> bool) -> bool {
    s.first() == Some(&' ') && f(&s[1..])
}
fn decimal(s: &[char]) -> bool {
    s.len() >= 3 && s[s.len() - 2] == '.' && digit(s[s.len() - 1]) && all(&s[..s.len() - 2], 1..=3, digit)
}
fn wrapped(s: &[char], open: &str, close: &str, f: impl Fn(&[char]) -> bool) -> bool {
    s.len() >= 3 && open.contains(s[0]) && close.contains(s[s.len() - 1]) && f(&s[1..s.len() - 1])
}

const OPERATORS: &str = "+ - * / % & | ^ ! ~ && || == != !== < > <= >= << >> >>> ++ -- += -= *= /= %= &= |= ^= => -> . ... ? = := [] ()";

pub const NAMES: &[&str] = &[
    "any-char", "lowercase-word", "space-lowercase-word", "uppercase-word", "space-uppercase-word", "capitalized-word", "space-capitalized-word", "word", "space-word", "space-english-word",
    "space-french-word", "chinese-word", "english-contraction", "space-digit", "short-number", "space-short-number", "short-decimal-number", "space-short-decimal-number",
    "word-wrapped-in-brackets", "short-number-wrapped-in-brackets", "word-wrapped-in-quotes", "word-wrapped-in-angle-brackets", "punct-word", "space-punct-word", "word-punct", "dot-short-number",
    "indent", "newline-indent", "whitespace", "space-punct-space", "repeated-punct", "few-repeated-punct", "repeated-punct-space", "few-repeated-punct-space", "punct-newline",
    "repeated-punct-newline-indent", "space-operator-space",
];

/// Whether the text belongs to the class; None where the name leaves it open.
fn belongs(name: &str, text: &str) -> Option<bool> {
    let t: Vec<char> = text.chars().collect();
    let s = &t[..];
    let word = |s: &[char]| all(s, MANY, letter);
    let short = |s: &[char]| all(s, 1..=3, digit);
    let spaces = |s: &[char]| all(s, MANY, |c| c == ' ') || all(s, MANY, |c| c == '\t');
    let ps = |c: char| c == ' ' || is_punct(c);
    Some(match name {
        "any-char" => {
            if text == "\n" {
                return None;
            }
            s.len() == 1
        }
        "lowercase-word" => all(s, MANY, lower),
        "space-lowercase-word" => opt_space(s, |s| all(s, MANY, lower)),
        "uppercase-word" => all(s, MANY, upper),
        "space-uppercase-word" => opt_space(s, |s| all(s, MANY, upper)),
        "capitalized-word" => capitalized(s),
        "space-capitalized-word" => opt_space(s, capitalized),
        "word" => word(s),
        "space-word" => opt_space(s, word),
        "space-english-word" => opt_space(s, |s| match s.iter().position(|c| *c == '\'') {
            Some(i) => word(&s[..i]) && all(&s[i + 1..], 1..=2, letter),
            None => false,
        }),
        "space-french-word" => {
            if text.contains(['×', '÷', 'œ', 'Œ', 'Ÿ']) {
                return None;
            }
            opt_space(s, |s| all(s, MANY, |c| letter(c) || ('À'..='ÿ').contains(&c)))
        }
        "chinese-word" => all(s, MANY, |c| ('\u{3400}'..='\u{4DBF}').contains(&c) || ('\u{4E00}'..='\u{9FFF}').contains(&c)),
        "english-contraction" => ["'re", "'ve", "'s", "'d", "'ll", "'t", "'m"].contains(&text),
        "space-digit" => space(s, |s| all(s, 1..=1, digit)),
        "short-number" => short(s),
        "space-short-number" => space(s, short),
        "short-decimal-number" => decimal(s),
        "space-short-decimal-number" => space(s, decimal),
        "word-wrapped-in-brackets" => wrapped(s, "[", "]", word),
        "short-number-wrapped-in-brackets" => wrapped(s, "[", "]", short),
        // Whether the two quotes have to be of one kind is left open.
        "word-wrapped-in-quotes" => {
            let y = wrapped(s, "'\"", "'\"", word);
            if y && s[0] != s[s.len() - 1] {
                return None;
            }
            y
        }
        "word-wrapped-in-angle-brackets" => wrapped(s, "<", ">", word),
        "punct-word" => s.len() >= 2 && is_punct(s[0]) && word(&s[1..]),
        "space-punct-word" => space(s, |s| s.len() >= 2 && is_punct(s[0]) && word(&s[1..])),
        "word-punct" => {
            if s.len() > 2 && is_punct(s[s.len() - 1]) && word(&s[..s.len() - 1]) {
                return None; // The name covers longer words, the examples do not.
            }
            s.len() == 2 && letter(s[0]) && is_punct(s[1])
        }
        "dot-short-number" => s.first() == Some(&'.') && short(&s[1..]),
        "indent" => spaces(s),
        "newline-indent" => s.first() == Some(&'\n') && spaces(&s[1..]),
        "whitespace" => all(s, MANY, char::is_whitespace),
        "space-punct-space" => opt_space(s, |s| matches!(s, [p] if is_punct(*p)) || matches!(s, [p, ' '] if is_punct(*p))),
        "repeated-punct" => all(s, MANY, is_punct),
        "few-repeated-punct" => all(s, 1..=4, is_punct),
        "repeated-punct-space" => all(s, MANY, ps),
        "few-repeated-punct-space" => all(s, 1..=4, ps),
        "punct-newline" => s.len() >= 2 && s[s.len() - 1] == '\n' && all(&s[..s.len() - 1], MANY, is_punct),
        "repeated-punct-newline-indent" => match s.iter().position(|c| *c == '\n') {
            Some(i) => all(&s[..i], MANY, is_punct) && all(&s[i + 1..], MANY, |c| c == ' ' || c == '\t'),
            None => false,
        },
        "space-operator-space" => {
            let a = text.strip_prefix(' ').unwrap_or(text);
            let b = a.strip_suffix(' ').unwrap_or(a);
            OPERATORS.split(' ').any(|o| o == b)
        }
        _ => return None,
    })
}

/// The documented examples and counterexamples.
const EXAMPLES: &[(&str, &[&str], &[&str])] = &[
    ("any-char", &["好", "A"], &["123"]),
    ("lowercase-word", &["hello"], &["Hello", "HELLO"]),
    ("space-lowercase-word", &[" hello", " world"], &["Hello", " WORLD"]),
    ("uppercase-word", &["HELLO"], &["Hello", " WORLD"]),
    ("space-uppercase-word", &[" HELLO", "WORLD"], &["Hello", " world"]),
    ("capitalized-word", &["Hello"], &["HeLlO"]),
    ("space-capitalized-word", &[" Hello", "Hello"], &["HeLlO"]),
    ("word", &["hello", "Hello", "HELLO"], &["123"]),
    ("space-word", &[" hello", " Hello", " HeLlO"], &["123"]),
    ("space-english-word", &["don't", " You'll", " He's"], &["ABC'DEF"]),
    ("space-french-word", &["Été", " compliqué"], &["مرحبا"]),
    ("chinese-word", &["你好", "大家好"], &["مرحبا"]),
    ("english-contraction", &["'re", "'ve", "'s", "'d", "'ll", "'t", "'m"], &[]),
    ("space-digit", &[" 1", " 2", " 3"], &[" 10"]),
    ("short-number", &["1", "123", "789"], &["1000"]),
    ("space-short-number", &[" 1", " 123", " 789"], &[]),
    ("short-decimal-number", &["1.1", "123.4", "789.9"], &["123.456", "1000.0"]),
    ("space-short-decimal-number", &[" 1.1", " 123.4", " 789.9"], &[" 123.456", " 1000.0"]),
    ("word-wrapped-in-brackets", &["[abc]", "[VALUE]"], &[]),
    ("short-number-wrapped-in-brackets", &["[1]", "[123]", "[789]"], &[]),
    ("word-wrapped-in-quotes", &["'abc'", "\"VALUE\""], &[]),
    ("word-wrapped-in-angle-brackets", &["<abc>", "<VALUE>"], &[]),
    ("punct-word", &["&abc", ":Abc", "+ABC"], &[]),
    ("space-punct-word", &[" &abc", " :Abc", " +ABC"], &[]),
    ("word-punct", &["a&", "B:", "C+"], &[]),
    ("dot-short-number", &[".1", ".123", ".789"], &[".1000"]),
    ("indent", &[" ", "  ", "    ", "\t", "\t\t", "\t\t\t"], &["\t "]),
    ("newline-indent", &["\n ", "\n  ", "\n    ", "\n\t\t", "\n\t\t", "\n\t\t\t"], &["\n\t "]),
    ("whitespace", &[" ", "  ", "    ", "\n", "\n\n", "\t\t", " \n\t"], &[]),
    ("space-punct-space", &[" # ", " ( ", " ) ", " { ", " } ", " != ", ", "], &[]),
    ("repeated-punct", &["####", "()[]{}"], &["\n#\n#\n#"]),
    ("few-repeated-punct", &["#", "##", "###", "()", "[]", "{}"], &["#####", "()[]{}"]),
    ("repeated-punct-space", &[" # ", " ( ", " ) ", " { ", " } ", " != ", ", "], &[]),
    ("few-repeated-punct-space", &[" # ", " ( ", " ) ", " { ", " } ", " != ", ", "], &[]),
    ("punct-newline", &[";\n", "]\n", "}\n"], &[";\n\n", "]\n\n", "}\n\n"]),
    ("repeated-punct-newline-indent", &[");\n\t\t", "]\n    "], &[]),
    ("space-operator-space", &[" + ", " !=="], &[]),
];

/// name -> (listed pattern, compiled file), once per process.
fn named() -> Result<&'static BTreeMap<String, (Regex, Regex)>, String> {
    static T: std::sync::OnceLock<Result<BTreeMap<String, (Regex, Regex)>, String>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let r = cli_ok(&args(&["regex"]), 1)?;
        let mut m = BTreeMap::new();
        let dir = std::env::temp_dir().join(format!("tgx-named-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let f = dir.join("one.regex");
        for l in r.out.lines() {
            let (n, p) = l.split_once(": ").ok_or_else(|| format!("listed line {l:?} has no name"))?;
            cli_ok(&args(&["regex", "-o", f.to_str().unwrap(), "-p", n]), 1)?;
            let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
            let own = Regex::new(&format!(r"\A(?:{p})\z")).map_err(|e| format!("pattern {n} does not compile: {e}"))?;
            let file = Regex::new(&text).map_err(|e| format!("the file for {n} does not compile: {e}"))?;
            if m.insert(n.to_string(), (own, file)).is_some() {
                return Err(format!("name {n} is listed twice"));
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        Ok(m)
    })
    .as_ref()
    .map_err(|e| e.clone())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Named {
    name: u8,
    texts: Vec<String>,
}

fn soup() -> BoxedStrategy<String> {
    let piece = prop_oneof![
        3 => Just(" ".to_string()),
        1 => prop::sample::select(vec!["\n", "\t", "\r", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{b}", "\u{200b}", "\0", "\u{1c}"]).prop_map(str::to_string),
        3 => "[a-z]{1,3}",
        2 => "[A-Z]{1,3}",
        3 => "[0-9]{1,4}",
        4 => "[!-/:-@\\[-`{-~]",
        2 => (0..OPERATORS.split(' ').count()).prop_map(|i| OPERATORS.split(' ').nth(i).unwrap().to_string()),
        2 => prop::sample::select(vec!["\u{33ff}", "\u{3400}", "\u{4dbf}", "\u{4dc0}", "\u{4dff}", "\u{4e00}", "\u{9fff}", "\u{a000}", "好", "\u{bf}", "À", "ÿ", "é", "Ö", "\u{100}", "ſ", "\u{212a}", "β", "٣", "٠", "\u{301}", "–", "’", "“", "、", "😀", "_", "@", "`", "~", "'", "\""]).prop_map(str::to_string),
        2 => prop::sample::select(vec!["'", "'s", "'re", "'ll", "[", "]", "<", ">", ".", "\"", "\n", "\t\t", "  ", "!=", "===", "A", "Z", "a", "z", "0", "9", "Hello"]).prop_map(str::to_string),
    ];
    vec(piece, 0..6).prop_map(|v| v.concat()).boxed()
}

/// A documented example of some pattern with up to two edits.
fn edited() -> BoxedStrategy<(u8, String)> {
    let all: Vec<(u8, &'static str)> = EXAMPLES.iter().enumerate().flat_map(|(i, e)| e.1.iter().chain(e.2).map(move |s| (i as u8, *s))).collect();
    (prop::sample::select(all), vec((any::<u8>(), 0u8..5, soup()), 0..3))
        .prop_map(|((i, s), edits)| {
            let mut t: Vec<char> = s.chars().collect();
            for (at, how, with) in edits {
                let p = at as usize % (t.len() + 1);
                let w: Vec<char> = with.chars().take(2).collect();
                match how {
                    0 => drop(t.splice(p..p, w)),
                    1 if p < t.len() => drop(t.remove(p)),
                    2 if p < t.len() => drop(t.splice(p..p + 1, w)),
                    3 if p < t.len() => {
                        let c = t[p];
                        t.insert(p, c)
                    }
                    4 if p < t.len() => {
                        let c = t[p];
                        t[p] = if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() };
                    }
                    _ => {}
                }
            }
            (i, t.into_iter().collect())
        })
        .boxed()
}

fn named_case() -> BoxedStrategy<Named> {
    prop_oneof![
        1 => (0..NAMES.len() as u8, vec(soup(), 1..6)).prop_map(|(name, texts)| Named { name, texts }),
        3 => vec(edited(), 1..6).prop_map(|v| {
            let name = NAMES.iter().position(|n| *n == EXAMPLES[v[0].0 as usize].0).unwrap() as u8;
            Named { name, texts: v.into_iter().map(|x| x.1).collect() }
        }),
    ]
    .boxed()
}

fn c23(c: &Named, ctx: &mut Ctx) -> R {
    let t = named()?;
    let name = NAMES[c.name as usize % NAMES.len()];
    let (own, file) = t.get(name).ok_or_else(|| format!("pattern {name} is not listed"))?;
    for s in &c.texts {
        let (a, b) = (own.is_match(s), file.is_match(s));
        ensure!(a == b, "pattern {name}: the listed pattern {} {s:?}, the compiled file {}", if a { "matches" } else { "rejects" }, if b { "matches it" } else { "rejects it" });
        match belongs(name, s) {
            None => ctx.label("left open by the name"),
            Some(w) => {
                if name == "space-punct-space" && s == " != " && !a {
                    continue; // Judged as a documented example.
                }
                ensure!(a == w, "pattern {name} {} {s:?}", if a { "matches" } else { "does not match" });
                ctx.label(if w { "members" } else { "others" });
                ctx.nontrivial_if(w || EXAMPLES.iter().any(|(n, _, _)| *n != name && belongs(n, s) == Some(true)));
            }
        }
    }
    Ok(())
}

/// The documented content of data/exact.regex.
const EXACT: &[&str] = &["any-char", "lowercase-word", "uppercase-word", "capitalized-word", "english-contraction", "chinese-word", "indent", "space-operator-space", "space-punct-space"];

fn exact_file() -> Result<Regex, String> {
    let text = std::fs::read_to_string(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/data/exact.regex")).map_err(|e| format!("data/exact.regex: {e}"))?;
    Regex::new(text.trim()).map_err(|e| format!("data/exact.regex: {e}"))
}

/// The whole table: names, documented examples, all single characters and pairs of ASCII characters.
fn c23_table(part: &u16, ctx: &mut Ctx) -> R {
    let t = named()?;
    if *part == 0 {
        let have: HashSet<&str> = t.keys().map(String::as_str).collect();
        let want: HashSet<&str> = NAMES.iter().copied().collect();
        ensure!(have == want, "listed names differ from the documented ones: missing {:?}, unknown {:?}", want.difference(&have).collect::<Vec<_>>(), have.difference(&want).collect::<Vec<_>>());
        for (name, yes, no) in EXAMPLES {
            for s in *yes {
                if !t[*name].1.is_match(s) {
                    if *name == "space-punct-space" && *s == " != " {
                        ctx.known_finding("space-punct-space-example", || "space-punct-space does not match its documented example \" != \"".into())?;
                        continue;
                    }
                    return Err(format!("pattern {name} does not match its documented example {s:?}"));
                }
            }
            if EXACT.contains(name) {
                for s in *yes {
                    ensure!(exact_file()?.is_match(s) || *s == " != ", "data/exact.regex rejects {s:?}");
                }
            }
            for s in *no {
                ensure!(!t[*name].1.is_match(s), "pattern {name} matches its documented counterexample {s:?}");
            }
        }
    } else {
        let exact = exact_file()?;
        // Characters of one block of the basic plane and beyond, alone and after a space; or ASCII pairs.
        let p = *part as u32 - 1;
        let texts: Vec<String> = if p < 128 {
            (0..128u8).flat_map(|b| { let a = p as u8 as char; [format!("{a}{}", b as char), format!(" {a}{}", b as char), format!("{a}{} ", b as char)] }).collect()
        } else {
            let base = (p - 128) * 256;
            (base..base + 256).filter_map(char::from_u32).flat_map(|c| [c.to_string(), format!(" {c}"), format!("{c}{c}"), format!("a{c}")]).collect()
        };
        for s in &texts {
            let want = EXACT.iter().try_fold(false, |y, n| belongs(n, s).map(|b| y || b));
            if let Some(w) = want {
                ensure!(exact.is_match(s) == w, "data/exact.regex {} {s:?}", if w { "rejects" } else { "accepts" });
            }
        }
        for name in NAMES {
            let (own, file) = t.get(*name).ok_or_else(|| format!("pattern {name} is not listed"))?;
            for s in &texts {
                let a = file.is_match(s);
                ensure!(a == own.is_match(s), "pattern {name}: listed pattern and compiled file differ on {s:?}");
                if let Some(w) = belongs(name, s) {
                    ensure!(a == w, "pattern {name} {} {s:?}", if a { "matches" } else { "does not match" });
                }
            }
        }
    }
    ctx.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Pat {
    Named(u8),
    /// Nearly a name, so a pattern of its own.
    Like(u8, u8),
    Own(Re),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Allow {
    pats: Vec<Pat>,
    seed: u64,
    texts: Vec<String>,
    /// Also use the file in generate (1) or merge (2).
    use_it: u8,
}

fn allow() -> BoxedStrategy<Allow> {
    let p = prop_oneof![4 => pattern().prop_map(Pat::Own), 1 => (0..NAMES.len() as u8).prop_map(Pat::Named)].boxed();
    let few = vec(prop_oneof![9 => p.clone(), 1 => any::<(u8, u8)>().prop_map(|(n, k)| Pat::Like(n, k))], 1..5);
    // Long lists, too.
    let pats = prop_oneof![40 => few, 1 => vec(p, 30..80)];
    let t = prop_oneof![2 => vec((0..ALPHA.len()).prop_map(|i| ALPHA[i]), 0..6).prop_map(|v| v.into_iter().collect::<String>()), 1 => edited().prop_map(|x| x.1)];
    (pats, any::<u64>(), vec(t, 0..8), prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)]).prop_map(|(pats, seed, texts, use_it)| Allow { pats, seed, texts, use_it }).boxed()
}

fn like(n: u8, k: u8) -> String {
    let n = NAMES[n as usize % NAMES.len()];
    match k % 8 {
        0 => n.to_uppercase(),
        1 => n[..1].to_uppercase() + &n[1..],
        2 => format!("{n} "),
        3 => format!(" {n}"),
        4 => n[..n.len() - 1].to_string(),
        5 => format!("{n}s"),
        6 => n.replace('-', "_"),
        _ => n.split('-').next().unwrap().to_string(),
    }
}

fn pat_text(p: &Pat) -> String {
    match p {
        Pat::Like(n, k) => like(*n, *k),
        Pat::Named(i) => NAMES[*i as usize % NAMES.len()].to_string(),
        Pat::Own(r) => r.text(),
    }
}

fn accepts(p: &Pat, s: &str) -> Result<Option<bool>, String> {
    Ok(match p {
        Pat::Like(n, k) => {
            let n = like(*n, *k);
            Some(named()?.get(&n).map_or(n == s, |x| x.0.is_match(s)))
        }
        Pat::Named(i) => {
            let n = NAMES[*i as usize % NAMES.len()];
            Some(named()?.get(n).ok_or_else(|| format!("pattern {n} is not listed"))?.0.is_match(s))
        }
        Pat::Own(r) => full(r, s),
    })
}

fn c22(c: &Allow, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "r");
    let out = dir.path("a.regex");
    let mut a = args(&["regex", "-o", &out]);
    for p in &c.pats {
        a.extend(args(&["-p", &pat_text(p)]));
        if let Pat::Own(r) = p {
            if Regex::new(&r.text()).is_err() {
                return Err(format!("HARNESS: generated pattern {:?} does not compile", r.text()));
            }
        }
    }
    cli_ok(&a, 1)?;
    let text = std::fs::read_to_string(&out).map_err(|e| format!("no regex file: {e}"))?;
    let file = Regex::new(&text).map_err(|e| format!("the written regex does not compile: {e}"))?;
    // Members, members with an edit, halves of members of two patterns.
    let mut m = Mix(c.seed);
    let mut texts = c.texts.clone();
    let mut members: Vec<Vec<char>> = vec![];
    for p in &c.pats {
        for _ in 0..4 {
            let s = match p {
                Pat::Own(r) => {
                    let mut o = vec![];
                    member(r, &mut m, 0, &mut o);
                    o
                }
                Pat::Like(n, k) => like(*n, *k).chars().collect(),
                Pat::Named(i) => {
                    let e = EXAMPLES.iter().find(|e| e.0 == NAMES[*i as usize % NAMES.len()]).unwrap().1;
                    e[m.below(e.len() as u64) as usize].chars().collect()
                }
            };
            members.push(s);
        }
    }
    for _ in 0..24 {
        let x = &members[m.below(members.len() as u64) as usize];
        let y = &members[m.below(members.len() as u64) as usize];
        let mut s = x.clone();
        let p = m.below(s.len() as u64 + 1) as usize;
        match m.below(6) {
            0 => {}
            1 => s.extend(y),
            2 => s = x[..p].iter().chain(&y[(m.below(y.len() as u64 + 1) as usize)..]).copied().collect(),
            3 => s.insert(p, ALPHA[m.below(ALPHA.len() as u64) as usize]),
            4 if p < s.len() => drop(s.remove(p)),
            _ => s = s.iter().map(|c| if m.below(3) == 0 { if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { fold(*c) } } else { *c }).collect(),
        }
        texts.push(s.into_iter().collect());
    }
    texts.extend(members.iter().map(|s| s.iter().collect::<String>()));
    let (mut yes, mut no) = (0, 0);
    let want_of = |s: &str| -> Result<Option<bool>, String> {
        let mut any = false;
        for p in &c.pats {
            match accepts(p, s)? {
                None => return Ok(None),
                Some(y) => any |= y,
            }
        }
        Ok(Some(any))
    };
    for s in &texts {
        let Some(want) = want_of(s)? else { continue };
        ensure!(file.is_match(s) == want, "the compiled regex {} {s:?}, {}: patterns {:?}, file {text:?}", if want { "rejects" } else { "accepts" }, if want { "a pattern accepts it" } else { "no pattern does" }, c.pats.iter().map(pat_text).collect::<Vec<_>>());
        if want {
            yes += 1
        } else {
            no += 1
        }
    }
    ctx.label_if(yes > 0, "some texts accepted");
    ctx.nontrivial_if(c.pats.len() > 1 && yes > 0 && no > 0);
    if c.use_it == 0 {
        return Ok(());
    }
    let samples: Vec<String> = texts.iter().map(|s| s.replace('\0', "")).filter(|s| !s.is_empty()).collect();
    let f = dir.write("train.bin", &join(&samples, 0));
    let o = dir.path("o.json");
    if c.use_it == 1 {
        // Every accepted substring becomes a token, nothing else does.
        cli_ok(&args(&["generate", "-v", "100000", "-o", &o, "--train", &format!("t:{f}"), "--allow", &out, "--insert-probability", "1", "--max-token-length", "12"]), 2)?;
        let t = load(&o)?;
        let have: HashSet<&[u8]> = t.model().vocab().iter().filter(|t| t.value.len() > 1).map(|t| &t.value[..]).collect();
        let mut subs: HashSet<&str> = HashSet::new();
        for s in &samples {
            let cuts: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
            for (k, &i) in cuts.iter().enumerate() {
                for &j in cuts[k + 1..].iter().take_while(|j| **j - i <= 12) {
                    if j - i > 1 {
                        subs.insert(&s[i..j]);
                    }
                }
            }
        }
        for s in &subs {
            let Some(want) = want_of(s)? else { continue };
            ensure!(have.contains(s.as_bytes()) == want, "generate {} {s:?}, which {}: patterns {:?}, file {text:?}", if want { "leaves out" } else { "takes" }, if want { "a pattern accepts" } else { "no pattern accepts" }, c.pats.iter().map(pat_text).collect::<Vec<_>>());
        }
        ctx.label("used in generate");
    } else {
        // All pairs of adjacent bytes or tokens are merged if and only if they are accepted.
        let v: Vec<_> = (0..=255u8).map(|b| tokengeex::ScoredToken::new(vec![b], -1.0, true)).collect();
        let input = write_tokenizer(&dir, "in.json", &v, &[], &[]);
        cli_ok(&args(&["merge", "-i", &input, "-o", &o, "--train", &format!("t:{f}"), "--allow", &out, "--num-merges", "100000", "--step", "100000", "--scale-factor", "1000"]), 2)?;
        let t = load(&o)?;
        let have: HashSet<&[u8]> = t.model().vocab().iter().map(|t| &t.value[..]).collect();
        let mut n = 0;
        for s in &samples {
            for w in s.as_bytes().windows(2) {
                let Ok(x) = std::str::from_utf8(w) else { continue };
                let Some(want) = want_of(x)? else { continue };
                ensure!(have.contains(w) == want, "merge {} {x:?}, which {}: patterns {:?}, file {text:?}", if want { "leaves out" } else { "takes" }, if want { "a pattern accepts" } else { "no pattern accepts" }, c.pats.iter().map(pat_text).collect::<Vec<_>>());
                n += want as u32;
            }
        }
        ctx.label("used in merge");
        ctx.label_if(n > 0, "merged");
    }
    Ok(())
}

/// Patterns whose text cannot stand inside another pattern: comments, named groups, raw line breaks.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Odd {
    kind: u8,
    x: Re,
    y: Re,
    seed: u64,
}

fn odd() -> BoxedStrategy<Odd> {
    (0u8..3, re(2), re(2), any::<u64>()).prop_map(|(kind, x, y, seed)| Odd { kind, x, y, seed }).boxed()
}

fn c22_odd(c: &Odd, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "r");
    let out = dir.path("a.regex");
    let (key, first, second) = match c.kind {
        0 => ("verbose-comment", format!("(?x) {} # comment", c.x.text().replace(' ', "\\x20").replace('\t', "\\t")), c.y.text()),
        1 => ("same-group-name", format!("(?P<n>{})", c.x.text()), format!("(?P<n>{})", c.y.text())),
        _ => ("raw-line-break", format!("\n(?:{})", c.x.text()), c.y.text()),
    };
    for p in [&first, &second] {
        if Regex::new(p).is_err() {
            return Err(format!("HARNESS: generated pattern {p:?} does not compile"));
        }
    }
    ctx.label(key);
    ctx.nontrivial();
    let r = cli(&args(&["regex", "-o", &out, "-p", &first, "-p", &second]), 1)?;
    if !r.ok {
        ensure!(c.kind < 2, "{}: {}", r.how, r.err);
        return ctx.known_finding(key, || format!("patterns {first:?} and {second:?} compile alone but not together"));
    }
    // What generate sees: run it.
    let mut m = Mix(c.seed);
    let mut samples: Vec<String> = vec![];
    for (i, x) in [&c.x, &c.y, &c.x, &c.y, &c.x].into_iter().enumerate() {
        let mut o = vec![];
        if i % 2 == 0 && c.kind == 2 {
            o.push('\n');
        }
        member(x, &mut m, 0, &mut o);
        samples.push(o.into_iter().filter(|c| *c != '\0').collect());
    }
    samples.retain(|s| !s.is_empty());
    let f = dir.write("train.bin", &join(&samples, 0));
    let o = dir.path("o.json");
    cli_ok(&args(&["generate", "-v", "100000", "-o", &o, "--train", &format!("t:{f}"), "--allow", &out, "--insert-probability", "1"]), 1)?;
    let t = load(&o)?;
    let alone = |p: &str| Regex::new(&if c.kind == 0 { format!("\\A(?:{p}\n)\\z") } else { format!("\\A(?:{p})\\z") }).unwrap();
    let (a, b) = (alone(&first), Regex::new(&format!("\\A(?:{second})\\z")).unwrap());
    for s in samples.iter().filter(|s| s.len() > 1 && s.len() <= 24) {
        let want = a.is_match(s) || b.is_match(s);
        let got = t.model().vocab().iter().any(|t| t.value == s.as_bytes());
        if got != want {
            return ctx.known_finding(key, || format!("patterns {first:?} and {second:?}: generate {} {s:?}", if got { "takes" } else { "leaves out" }));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mine {
    pats: Vec<Pat>,
    corpus: Corpus,
    seed: u64,
    extra: u8,
    n: Option<u16>,
    threads: u8,
}

fn mine() -> BoxedStrategy<Mine> {
    let p = prop_oneof![2 => pattern().prop_map(Pat::Own), 2 => (0..NAMES.len() as u8).prop_map(Pat::Named), 1 => prop::sample::select(vec!["ab", "a", "aba", "ba"]).prop_map(|s| Pat::Own(Re::Cat(s.chars().map(Re::Lit).collect())))];
    (vec(p, 1..4), corpus(true), any::<u64>(), 0u8..40, proptest::option::weighted(0.9, prop_oneof![4 => 1u16..12, 1 => Just(0u16), 1 => 10u16..2000, 1 => Just(u16::MAX)]), threads())
        .prop_map(|(pats, corpus, seed, extra, n, threads)| Mine { pats, corpus, seed, extra, n, threads })
        .boxed()
}

fn large_mine() -> BoxedStrategy<Mine> {
    (mine(), prop_oneof![bulk(), longs()], any::<bool>())
        .prop_map(|(mut c, b, wide)| {
            if wide {
                // Matches as long as they come, and all of them.
                let set = vec![vec![('a', 'z')], vec![('a', 'b'), (' ', ' ')], vec![(' ', 'Z'), ('b', 'z')]][c.seed as usize % 3].clone();
                c.pats = vec![Pat::Own(Re::Rep(Box::new(Re::Class(false, set)), 1, None, true))];
                c.n = None;
            }
            c.corpus = b;
            c
        })
        .boxed()
}

fn huge_mine() -> BoxedStrategy<Mine> {
    (mine(), huge())
        .prop_map(|(mut c, b)| {
            if b.giant > 0 {
                let set = vec![vec![('a', 'a')], vec![('a', 'b'), (' ', ' ')], vec![(' ', 'Z'), ('b', 'z')]][c.seed as usize % 3].clone();
                c.pats = vec![Pat::Own(Re::Rep(Box::new(Re::Class(false, set)), 1, Some(4), true))];
                c.extra = 0;
            }
            c.corpus = b;
            c
        })
        .boxed()
}

fn c21(c: &Mine, ctx: &mut Ctx) -> R {
    let dir = Dir::new(ctx, "m");
    let (mut train, mut used) = c.corpus.write(&dir, &[], &[], &[]);
    // Samples made of what the patterns look for.
    let mut m = Mix(c.seed);
    let mut more: Vec<String> = vec![];
    for _ in 0..c.extra {
        let mut o: Vec<char> = vec![];
        for _ in 0..1 + m.below(6) {
            match &c.pats[m.below(c.pats.len() as u64) as usize] {
                Pat::Own(r) => member(r, &mut m, 0, &mut o),
                Pat::Like(n, k) => o.extend(like(*n, *k).chars()),
                Pat::Named(i) => {
                    let e = EXAMPLES.iter().find(|e| e.0 == NAMES[*i as usize % NAMES.len()]).unwrap().1;
                    o.extend(e[m.below(e.len() as u64) as usize].chars());
                }
            }
            if m.below(2) == 0 {
                o.push(ALPHA[m.below(ALPHA.len() as u64) as usize]);
            }
        }
        let s: String = o.into_iter().filter(|c| *c != '\0').collect();
        if !s.is_empty() {
            more.push(s);
        }
    }
    let f = dir.write("more.bin", &join(&more, 0));
    train.extend(args(&["--train", &format!("more:{f}")]));
    used.extend(more);
    let mut each: Vec<Regex> = vec![];
    for p in &c.pats {
        each.push(match p {
            Pat::Own(r) => Regex::new(&r.text()).map_err(|e| format!("HARNESS: {e}"))?,
            Pat::Like(n, k) => Regex::new(&like(*n, *k)).map_err(|e| format!("HARNESS: {e}"))?,
            Pat::Named(i) => {
                let n = NAMES[*i as usize % NAMES.len()];
                let own = &named()?.get(n).ok_or_else(|| format!("pattern {n} is not listed"))?.0;
                let t = own.as_str();
                Regex::new(&t[5..t.len() - 3]).map_err(|e| format!("HARNESS: {e}"))?
            }
        });
    }
    let mut counts: HashMap<&str, usize> = HashMap::new();
    let mut total = 0;
    for s in &used {
        let mut at = 0;
        // The next match of each, as found last.
        let mut next: Vec<Option<Option<regex::Match>>> = vec![None; each.len()];
        while at <= s.len() {
            let mut best: Option<regex::Match> = None;
            for (r, next) in each.iter().zip(&mut next) {
                if next.map_or(true, |x| x.map_or(false, |x| x.start() < at)) {
                    *next = Some(r.find_at(s, at));
                }
                if let Some(x) = next.unwrap() {
                    if best.map_or(true, |b| x.start() < b.start()) {
                        best = Some(x);
                    }
                }
            }
            let Some(b) = best else { break };
            if b.is_empty() {
                ctx.label("not compared: a pattern matches nothing at all");
                return Ok(());
            }
            *counts.entry(b.as_str()).or_insert(0) += 1;
            total += 1;
            at = b.end();
        }
    }
    let n = c.n.map_or(1000, |n| most(n as u64, 65_535));
    let out = dir.path("out.json");
    let mut a = args(&["mine", "-o", &out, "-n", &n.to_string()]);
    for p in &c.pats {
        a.extend(args(&["-p", &pat_text(p)]));
    }
    let at = a.len();
    a.extend(train);
    let judge = |a: &[String], threads: u8| -> R {
        cli_ok(a, threads)?;
        let text = std::fs::read_to_string(&out).map_err(|e| format!("no output: {e}"))?;
        let got: Vec<String> = serde_json::from_str(&text).map_err(|e| format!("the output is no JSON list of strings: {e}"))?;
        let set: HashSet<&str> = got.iter().map(String::as_str).collect();
        ensure!(set.len() == got.len(), "an idiom is listed twice: {got:?}");
        ensure!(got.len() == n.min(counts.len()), "{} idioms written, {n} requested and {} found", got.len(), counts.len());
        let mut last = usize::MAX;
        for g in &got {
            let k = *counts.get(g.as_str()).ok_or_else(|| format!("{g:?} is no match of a pattern at its leftmost place"))?;
            ensure!(k <= last, "{g:?} with {k} occurrences follows one with {last}");
            last = k;
        }
        if let Some((s, k)) = counts.iter().filter(|(s, _)| !set.contains(**s)).max_by_key(|x| x.1) {
            ensure!(got.is_empty() || *k <= last, "{s:?} with {k} occurrences is missing, one with {last} is listed");
        }
        Ok(())
    };
    judge(&a, c.threads)?;
    ctx.nontrivial_if(counts.len() > 1 && total > counts.len());
    ctx.label_if(n < counts.len(), "more matches than requested");
    ctx.label_if(c.pats.len() > 1, "several patterns");
    a.truncate(at);
    a.extend(rearrange(&dir, &used, 1 + c.extra as usize % 3, c.seed));
    judge(&a, 9 - c.threads).map_err(|e| format!("after rearranging the samples: {e}"))
}

pub fn props() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "C21",
            rule: "more than one distinct match, some of them occurring repeatedly",
            assumptions: &["each pattern alone is searched with the regex crate", "patterns that match the empty string are not compared"],
            subs: vec![sub("mine", 8_000, 400_000, mine, c21), sub("large", 48, 2_000, large_mine, c21), sub("huge", 16, 400, huge_mine, c21)],
        },
        PropDef {
            id: "C22",
            rule: "more than one pattern, and some texts are accepted and some rejected",
            assumptions: &["custom patterns come from a subset of the syntax (literals, classes, groups, repetition, anchors, flags)", "named patterns are judged by the regex crate, one at a time"],
            subs: vec![sub("union", 16_000, 800_000, allow, c22), sub("odd", 300, 5_000, odd, c22_odd)],
        },
        PropDef {
            id: "C23",
            rule: "some text belongs to the class, or to the class of another name",
            assumptions: &["the classes are our reading of names, documentation and examples; strings they leave open are not judged"],
            subs: vec![sub("named", 400_000, 12_000_000, named_case, c23), sub("table", 1 + 128 + 0x110, 1 + 128 + 0x1100, || Just(()).prop_map(|_| case_index() as u16).boxed(), c23_table)],
        },
    ]
}
