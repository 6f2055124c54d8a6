//! C24: which texts are zserio. Lexer and grammar of the language as data, recognised by Earley's algorithm, so that
//! the verdict on every bounded edit of a schema is known without any parser generator.
use std::collections::{HashMap, HashSet};

const GRAMMAR: &str = include_str!("zserio.grammar");
const TOKENS: &str = include_str!("zserio.tokens");
const CLASSES: [&str; 13] = [
    "BOOL_LITERAL", "STRING_LITERAL", "BINARY_LITERAL", "OCTAL_LITERAL", "HEXADECIMAL_LITERAL", "DOUBLE_LITERAL", "FLOAT_LITERAL", "DECIMAL_LITERAL", "ID", "INVALID_STRING_LITERAL",
    "INVALID_TOKEN", "EOF", "UNKNOWN",
];

/// The words and operators of the language.
pub fn fixed() -> Vec<(&'static str, &'static str)> {
    TOKENS.lines().map(|x| x.split_once(' ').unwrap()).collect()
}

type Sym = usize;
pub struct Grammar {
    names: HashMap<String, Sym>,
    /// right-hand sides per rule; empty for tokens
    rules: Vec<Vec<Vec<Sym>>>,
    nullable: Vec<bool>,
    start: Sym,
}
impl Grammar {
    fn sym(&mut self, n: &str) -> Sym {
        if let Some(s) = self.names.get(n) {
            return *s;
        }
        self.rules.push(vec![]);
        self.nullable.push(false);
        self.names.insert(n.to_string(), self.rules.len() - 1);
        self.rules.len() - 1
    }
    pub fn zserio() -> Grammar {
        let mut g = Grammar { names: HashMap::new(), rules: vec![], nullable: vec![], start: 0 };
        g.start = g.sym("packageDeclaration");
        for line in GRAMMAR.lines() {
            let (name, rhs) = line.split_once(':').unwrap();
            let rhs = rhs.replace('(', " ( ").replace(')', " ) ").replace('?', " ? ").replace('*', " * ").replace('+', " + ").replace('|', " | ");
            let toks: Vec<&str> = rhs.split_whitespace().collect();
            let at = &mut 0;
            let alts = g.alts(&toks, at);
            assert_eq!(*at, toks.len(), "{line}");
            let s = g.sym(name.trim());
            g.rules[s] = alts;
        }
        let lexed: HashSet<&str> = fixed().iter().map(|x| x.0).chain(CLASSES).collect();
        for (n, s) in &g.names {
            assert!(!g.rules[*s].is_empty() || lexed.contains(n.as_str()), "neither rule nor token: {n}");
        }
        loop {
            let before = g.nullable.clone();
            for s in 0..g.rules.len() {
                g.nullable[s] |= g.rules[s].iter().any(|r| r.iter().all(|x| before[*x]));
            }
            if g.nullable == before {
                break;
            }
        }
        g
    }
    fn fresh(&mut self, alts: Vec<Vec<Sym>>) -> Sym {
        let n = format!("#{}", self.rules.len());
        let s = self.sym(&n);
        self.rules[s] = alts;
        s
    }
    fn alts(&mut self, t: &[&str], at: &mut usize) -> Vec<Vec<Sym>> {
        let mut out = vec![vec![]];
        while *at < t.len() && t[*at] != ")" {
            match t[*at] {
                "|" => {
                    out.push(vec![]);
                    *at += 1;
                    continue;
                }
                "(" => {
                    *at += 1;
                    let a = self.alts(t, at);
                    assert_eq!(t[*at], ")");
                    let s = self.fresh(a);
                    out.last_mut().unwrap().push(s);
                }
                n => {
                    let s = self.sym(n);
                    out.last_mut().unwrap().push(s);
                }
            }
            *at += 1;
            if *at < t.len() && ["?", "*", "+"].contains(&t[*at]) {
                let x = out.last_mut().unwrap().pop().unwrap();
                let s = match t[*at] {
                    "?" => self.fresh(vec![vec![], vec![x]]),
                    k => {
                        let s = self.fresh(vec![]);
                        self.rules[s] = vec![if k == "*" { vec![] } else { vec![x] }, vec![s, x]];
                        s
                    }
                };
                out.last_mut().unwrap().push(s);
                *at += 1;
            }
        }
        out
    }
    /// Whether the token kinds (without the end of file) form a schema. Also the number of Earley items.
    pub fn accepts(&self, toks: &[&'static str]) -> (bool, usize) {
        let mut input: Vec<Sym> = vec![];
        for t in toks.iter().chain(&["EOF"]) {
            match self.names.get(*t) {
                Some(s) => input.push(*s),
                None => return (false, 0),
            }
        }
        type Item = (Sym, usize, usize, usize);
        let mut sets: Vec<(Vec<Item>, HashSet<Item>)> = vec![Default::default(); input.len() + 1];
        fn add(s: &mut (Vec<Item>, HashSet<Item>), i: Item) {
            if s.1.insert(i) {
                s.0.push(i);
            }
        }
        for a in 0..self.rules[self.start].len() {
            add(&mut sets[0], (self.start, a, 0, 0));
        }
        let mut items = 0;
        for k in 0..sets.len() {
            let mut i = 0;
            while i < sets[k].0.len() {
                let (s, a, dot, from) = sets[k].0[i];
                i += 1;
                items += 1;
                match self.rules[s][a].get(dot) {
                    Some(&n) if self.rules[n].is_empty() => {
                        if k < input.len() && input[k] == n {
                            add(&mut sets[k + 1], (s, a, dot + 1, from));
                        }
                    }
                    Some(&n) => {
                        for b in 0..self.rules[n].len() {
                            add(&mut sets[k], (n, b, 0, k));
                        }
                        if self.nullable[n] {
                            add(&mut sets[k], (s, a, dot + 1, from));
                        }
                    }
                    None => {
                        let mut j = 0;
                        while j < sets[from].0.len() {
                            let (s2, a2, d2, f2) = sets[from].0[j];
                            j += 1;
                            if self.rules[s2][a2].get(d2) == Some(&s) {
                                add(&mut sets[k], (s2, a2, d2 + 1, f2));
                            }
                        }
                    }
                }
            }
            if sets[k].0.is_empty() {
                return (false, items);
            }
        }
        let ok = sets[input.len()].0.iter().any(|(s, a, d, f)| *s == self.start && *f == 0 && *d == self.rules[*s][*a].len());
        (ok, items)
    }
}

fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}
/// Length of the string literal at the start of `t`.
fn string_len(t: &[char]) -> Option<usize> {
    let mut i = 1;
    loop {
        match *t.get(i)? {
            '"' => return Some(i + 1),
            '\r' | '\n' | '\u{c}' => return None,
            '\\' => {
                let hex = |n: usize| (0..n).all(|k| t.get(i + 2 + k).is_some_and(|c| c.is_ascii_hexdigit()));
                match *t.get(i + 1)? {
                    '"' | '\\' | 'r' | 'n' | 'f' | 't' => i += 2,
                    'u' if hex(4) => i += 6,
                    'x' if hex(2) => i += 4,
                    // one or more octal digits follow; further ones are characters of their own
                    '0' if t.get(i + 2).is_some_and(|c| ('0'..='7').contains(c)) => i += 3,
                    _ => return None,
                }
            }
            _ => i += 1,
        }
    }
}
/// Length of the number of the given kind at the start of `t` (the longest one).
fn number_len(t: &[char]) -> Vec<(&'static str, usize)> {
    let run = |from: usize, f: &dyn Fn(char) -> bool| t[from.min(t.len())..].iter().take_while(|c| f(**c)).count();
    let mut v = vec![];
    let d = run(0, &|c| c.is_ascii_digit());
    let b = run(0, &|c| c == '0' || c == '1');
    if b > 0 && t.get(b).is_some_and(|c| *c == 'b' || *c == 'B') {
        v.push(("BINARY_LITERAL", b + 1));
    }
    let o = run(0, &|c| ('0'..='7').contains(&c));
    if o > 1 && t[0] == '0' {
        v.push(("OCTAL_LITERAL", o));
    }
    if t[0] == '0' && t.get(1).is_some_and(|c| *c == 'x' || *c == 'X') {
        let h = run(2, &|c| c.is_ascii_hexdigit());
        if h > 0 {
            v.push(("HEXADECIMAL_LITERAL", h + 2));
        }
    }
    let exponent = |at: usize| -> usize {
        if !t.get(at).is_some_and(|c| *c == 'e' || *c == 'E') {
            return 0;
        }
        let sign = t.get(at + 1).is_some_and(|c| *c == '+' || *c == '-') as usize;
        let n = run(at + 1 + sign, &|c| c.is_ascii_digit());
        if n == 0 { 0 } else { 1 + sign + n }
    };
    let mut dbl = 0;
    if d > 0 {
        let e = exponent(d);
        if e > 0 {
            dbl = d + e;
        }
        if t.get(d) == Some(&'.') {
            let f = d + 1 + run(d + 1, &|c| c.is_ascii_digit());
            dbl = dbl.max(f + exponent(f));
        }
    } else if t[0] == '.' {
        let f = run(1, &|c| c.is_ascii_digit());
        if f > 0 {
            dbl = 1 + f + exponent(1 + f);
        }
    }
    if dbl > 0 {
        v.push(("DOUBLE_LITERAL", dbl));
        if t.get(dbl).is_some_and(|c| *c == 'f' || *c == 'F') {
            v.push(("FLOAT_LITERAL", dbl + 1));
        }
    }
    if d > 0 {
        v.push(("DECIMAL_LITERAL", if t[0] == '0' { 1 } else { d }));
    }
    v
}
/// Kinds and texts of the tokens of a schema.
pub fn lex(text: &str) -> Vec<(&'static str, String)> {
    let t: Vec<char> = text.chars().collect();
    let fixed = fixed();
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let r = &t[i..];
        // (kind, length) in the order of the rules; the longest match wins, the first of equals
        let mut c: Vec<(&'static str, usize)> = vec![];
        for (k, w) in &fixed {
            if w.chars().count() <= r.len() && w.chars().zip(r).all(|(a, b)| a == *b) {
                c.push((k, w.chars().count()));
            }
        }
        if "\r\n\u{c}\t ".contains(r[0]) {
            c.push(("", 1));
        }
        if r[0] == '/' && r.get(1) == Some(&'*') {
            let end = |from: usize| (from..r.len().saturating_sub(1)).find(|k| r[*k] == '*' && r[*k + 1] == '/').map(|k| k + 2);
            if r.get(2) == Some(&'*') {
                c.extend(end(3).map(|n| ("", n)));
            }
            if r.get(2) == Some(&'!') {
                c.extend(end(3).map(|n| ("", n)));
            }
            c.extend(end(2).map(|n| ("", n)));
        }
        if r[0] == '/' && r.get(1) == Some(&'/') {
            c.push(("", r.iter().take_while(|x| !"\r\n\u{c}".contains(**x)).count()));
        }
        let w: String = r.iter().take_while(|x| word(**x)).collect();
        for b in ["true", "false"] {
            if w.starts_with(b) {
                c.push(("BOOL_LITERAL", b.len()));
            }
        }
        if r[0] == '"' {
            c.extend(string_len(r).map(|n| ("STRING_LITERAL", n)));
        }
        if r[0].is_ascii_digit() || r[0] == '.' {
            c.extend(number_len(r));
        }
        if !w.is_empty() && !r[0].is_ascii_digit() {
            c.push(("ID", w.len()));
        }
        if r[0] == '"' {
            let n = 1 + r[1..].iter().take_while(|x| **x != '"').count();
            c.push(("INVALID_STRING_LITERAL", (n + 1).min(r.len())));
        }
        if !w.is_empty() {
            c.push(("INVALID_TOKEN", w.len()));
        }
        let best = c.iter().map(|x| x.1).max().unwrap_or(0);
        let (k, n) = c.into_iter().find(|x| x.1 == best).filter(|x| x.1 > 0).unwrap_or(("UNKNOWN", 1));
        if !k.is_empty() {
            out.push((k, r[..n].iter().collect()));
        }
        i += n;
    }
    out
}
pub struct Judge {
    g: Grammar,
}
impl Judge {
    pub fn new() -> Judge {
        Judge { g: Grammar::zserio() }
    }
    /// Whether the text is zserio, and how many Earley items it took.
    pub fn is_schema(&self, text: &str) -> (bool, usize) {
        let k: Vec<&'static str> = lex(text).into_iter().map(|x| x.0).collect();
        self.g.accepts(&k)
    }
}

/// Schemas that use every rule of the grammar, written with single blanks between tokens where they matter.
pub const SEEDS: [(&str, &str); 9] = [
    ("plain", "package seed ; import seed.more.* ; import seed.more.Leaf ; struct Abc { uint8 a ; bit:3 b [ ] ; optional packed int16 c [ a ] ; string s = \"x\" ; }; "),
    ("exprs", "package seed ; const int32 K = - 1 + 2 * ( 3 << 1 ) ; struct Abc { uint8 a ; bool b if a > 3 && ! ( a != 0x1F ) ; bit < a + 1 > c : c >= 1 ; function uint8 fn ( ) { return a == 1 ? 2 : ~ a ; } } ;"),
    ("sel", "package seed ; choice Abc ( uint8 sel ) on sel { case 1 : case 010 : uint8 a ; case 11b : ; default : string b ; function bool f ( ) { return true ; } } ; union Bcd { Abc ( 1 ) x ; int64 y [ 3 ] : lengthof ( y ) < 4 ; } ;"),
    ("named", "package seed ; enum bit:4 En { A , B = 2 , @deprecated C , @removed D , } ; bitmask uint16 Ma { X , Y = 1 , } ; subtype seed.En Su ; const float64 F = 1.5e3 ;"),
    ("templ", "package seed ; struct Box < T , U > { T t ; U u ; } ; instantiate Box < uint8 , Box < bool , bytes > > Alias ; struct Abc ( Alias p , bool q ) { Box < extern , varint > x ; }; "),
    ("place", "package seed ; struct Abc { uint32 offs [ ] ; align ( 8 ) : offs [ @index ] : implicit float16 xs [ ] ; Sub ( @index , offs . len ( ) ) ys [ ] if isset ( m , M.A ) || numbits ( 3 ) == valueof ( e ) ; extend varsize z ; } ;"),
    ("storage", "package seed ; sql_table Tab < T > using fts { sql_virtual uint8 a sql \"PRIMARY KEY\" ; T b ; sql \"x\" ; sql_without_rowid ; } ; sql_database Db { Tab t ; } ; rule_group Ru { rule \"r\" ; } ;"),
    ("remote", "zserio_compatibility_version ( \"2.0\" ) ; package seed . sub ; service Se { Out method ( In ) ; } ; pubsub Pu { publish topic ( \"t\" ) Out o ; subscribe topic ( \"u\" ) In i ; topic ( \"v\" ) In j ; } ;"),
    ("small", "package p ; struct A { uint8 a ; } ;"),
];
/// What is inserted and put in place of others.
pub const WORDS: [&str; 40] = [
    ";", "{", "}", "(", ")", "[", "]", "<", ">", ":", ",", ".", "=", "==", "+", "!", "?", "&&", "x", "1", "1.5", "\"s\"", "true", "uint8", "bit", "struct", "choice", "case", "default", "on", "if", "optional", "packed", "align",
    "function", "return", "import", "package", "const", "@index",
];
const CHARS: [char; 12] = [';', '1', 'x', '"', '$', '/', ' ', '.', '\\', '\'', '}', 'é'];

/// Every text that one edit of a token or character makes out of a seed.
pub fn edits(seed: &str, all_words: bool) -> Vec<(String, String)> {
    let toks: Vec<String> = lex(seed).into_iter().map(|x| x.1).collect();
    let mut out = vec![];
    let mut seen = HashSet::new();
    let mut put = |what: String, t: String| {
        if seen.insert(t.clone()) {
            out.push((what, t));
        }
    };
    put("nothing".into(), seed.to_string());
    let mut words: Vec<&str> = WORDS.to_vec();
    if all_words {
        words.extend(fixed().iter().map(|x| x.1));
        words.extend(["08", "0x", "1x", "\"open", "@other", "#", "0b", "1e", "true1"]);
    }
    let join = |v: &[String]| v.join(" ");
    for i in 0..toks.len() {
        let mut v = toks.clone();
        v.remove(i);
        put(format!("without token {i}"), join(&v));
        let mut v = toks.clone();
        v.insert(i, toks[i].clone());
        put(format!("token {i} twice"), join(&v));
        for j in i + 1..toks.len() {
            if j > i + 1 && !all_words {
                break;
            }
            let mut v = toks.clone();
            v.swap(i, j);
            put(format!("tokens {i} and {j} exchanged"), join(&v));
        }
        put(format!("only {i} tokens"), join(&toks[..i]));
        for w in &words {
            let mut v = toks.clone();
            v[i] = w.to_string();
            put(format!("{w} for token {i}"), join(&v));
            let mut v = toks.clone();
            v.insert(i, w.to_string());
            put(format!("{w} before token {i}"), join(&v));
        }
    }
    let chars: Vec<char> = seed.chars().collect();
    for i in 0..chars.len() {
        let mut v = chars.clone();
        v.remove(i);
        put(format!("without character {i}"), v.iter().collect());
        for c in CHARS.iter().take(if all_words { CHARS.len() } else { 6 }) {
            let mut v = chars.clone();
            v.insert(i, *c);
            put(format!("{c} before character {i}"), v.iter().collect());
        }
    }
    out
}
