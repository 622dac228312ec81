// Makes the table of accessors that the frozen dictionaries call for, and collects the literals of the code under test.
#[path = "src/dict.rs"]
#[allow(dead_code)]
mod dict;

use std::collections::BTreeSet;
use std::path::Path;

fn main() {
    println!("cargo:rerun-if-changed=dicts");
    println!("cargo:rerun-if-changed=literals.txt");
    println!("cargo:rerun-if-changed=src/dict.rs");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=/repo/radius/src");
    println!("cargo:rerun-if-changed=/repo/code-generator/src");
    println!("cargo:rerun-if-env-changed=VH_SKIP");
    // entries that the code under test does not offer (found by run.py from the compiler's errors)
    let skip: Vec<String> = std::env::var("VH_SKIP").unwrap_or_default().split(',').map(str::to_owned).collect();
    let dicts = dict::read_dir(Path::new("dicts")).unwrap_or_else(|e| panic!("{e}"));
    let t = dict::emit_table(&dicts, "radius::core", &|k| skip.iter().any(|s| s == k));
    let out = std::env::var("OUT_DIR").unwrap();
    let out = Path::new(&out);
    std::fs::write(out.join("table.rs"), t).unwrap();

    let mut found = Literals::default();
    let mut gener = Literals::default();
    walk(Path::new("/repo/radius/src"), &mut found);
    walk(Path::new("/repo/code-generator/src"), &mut gener);
    let mut known = Literals::default();
    for l in std::fs::read_to_string("literals.txt").unwrap_or_default().lines() {
        if let Some(n) = l.strip_prefix("i ").and_then(|n| n.parse().ok()) {
            known.ints.insert(n);
        }
        if let Some(h) = l.strip_prefix("s ") {
            known.words.insert((0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect());
        }
    }
    let ints = |f: &dyn Fn(&u64) -> bool| found.ints.iter().filter(|n| f(n)).map(|n| format!("{n}, ")).collect::<String>();
    let words = |l: &Literals, f: &dyn Fn(&Vec<u8>) -> bool| l.words.iter().filter(|w| f(w)).map(|w| format!("&{w:?}, ")).collect::<String>();
    let mut all: String = found.ints.iter().map(|n| format!("i {n}\n")).collect();
    for w in found.words.iter().chain(&gener.words).collect::<BTreeSet<_>>() {
        all += &format!("s {}\n", w.iter().map(|b| format!("{b:02x}")).collect::<String>());
    }
    std::fs::write(out.join("literals.txt"), all).unwrap();
    std::fs::write(
        out.join("literals.rs"),
        format!(
            "pub static INTS: &[u64] = &[{}];\npub static NEW_INTS: &[u64] = &[{}];\npub static WORDS: &[&[u8]] = &[{}];\npub static NEW_WORDS: &[&[u8]] = &[{}];\npub static NEW_GENERATOR_WORDS: &[&[u8]] = &[{}];\n",
            ints(&|_| true),
            ints(&|n| !known.ints.contains(n)),
            words(&found, &|w| w.len() <= 16),
            words(&found, &|w| !known.words.contains(w)),
            words(&gener, &|w| !known.words.contains(w)),
        ),
    )
    .unwrap();
}

#[derive(Default)]
struct Literals {
    ints: BTreeSet<u64>,
    words: BTreeSet<Vec<u8>>,
}

fn walk(d: &Path, l: &mut Literals) {
    let Ok(dir) = std::fs::read_dir(d) else { return };
    for e in dir.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, l);
        } else if p.extension().is_some_and(|x| x == "rs") {
            if let Ok(s) = std::fs::read(&p) {
                // the numbers and values of the RFC modules are many, and the dictionaries' own
                let module = p.file_name().is_some_and(|n| n.to_string_lossy().starts_with("rfc"));
                let s: Vec<u8> = s.split(|b| *b == b'\n').filter(|x| !(module && x.starts_with(b"pub const"))).collect::<Vec<_>>().join(&b'\n');
                lex(&s, l);
            }
        }
    }
}

impl Literals {
    fn sequence(&mut self, run: &[u64]) {
        if !(2..=16).contains(&run.len()) {
            return;
        }
        if run.iter().all(|n| *n <= 255) {
            self.words.insert(run.iter().map(|n| *n as u8).collect());
            if run.len() == 2 || run.len() == 4 {
                self.ints.insert(run.iter().fold(0, |x, n| x << 8 | n));
            }
        }
        if run.len() == 8 && run.iter().all(|n| *n <= 0xffff) {
            self.words.insert(run.iter().flat_map(|n| (*n as u16).to_be_bytes()).collect());
        }
    }
}

/// A rough lexer: numbers, characters and strings outside comments.
fn lex(s: &[u8], l: &mut Literals) {
    let at = |i: usize| s.get(i).copied().unwrap_or(0);
    let mut i = 0;
    // numbers with commas between: the octets (or the words of an IPv6 address)
    let mut run: Vec<u64> = vec![];
    while i < s.len() {
        let c = s[i];
        if !(c == b',' || c.is_ascii_whitespace() || c.is_ascii_digit()) {
            l.sequence(&run);
            run.clear();
        }
        if s[i..].starts_with(b"#[cfg(test)]") {
            break;
        } else if c == b'/' && at(i + 1) == b'/' {
            while i < s.len() && s[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && at(i + 1) == b'*' {
            i += 2;
            while i < s.len() && !(s[i] == b'*' && at(i + 1) == b'/') {
                i += 1;
            }
            i += 2;
        } else if c == b'"' {
            i += 1;
            let mut w = vec![];
            while i < s.len() && s[i] != b'"' {
                if s[i] == b'\\' {
                    i += 1;
                    match at(i) {
                        b'n' => w.push(b'\n'),
                        b'r' => w.push(b'\r'),
                        b't' => w.push(b'\t'),
                        b'0' => w.push(0),
                        b'x' => {
                            let h = [at(i + 1), at(i + 2)];
                            w.push(std::str::from_utf8(&h).ok().and_then(|h| u8::from_str_radix(h, 16).ok()).unwrap_or(0));
                            i += 2;
                        }
                        x => w.push(x),
                    }
                } else {
                    w.push(s[i]);
                }
                i += 1;
            }
            i += 1;
            if let Some(a) = std::str::from_utf8(&w).ok().and_then(|w| w.parse::<std::net::IpAddr>().ok()) {
                match a {
                    std::net::IpAddr::V4(a) => l.sequence(&a.octets().map(|o| o as u64)),
                    std::net::IpAddr::V6(a) => l.sequence(&a.segments().map(|o| o as u64)),
                }
            }
            if !w.is_empty() && w.len() <= 253 {
                l.words.insert(w);
            }
        } else if c == b'\'' && (at(i + 2) == b'\'' || at(i + 1) == b'\\') {
            let x = if at(i + 1) == b'\\' {
                match at(i + 2) {
                    b'n' => b'\n',
                    b'r' => b'\r',
                    b't' => b'\t',
                    b'0' => 0,
                    x => x,
                }
            } else {
                at(i + 1)
            };
            l.ints.insert(x as u64);
            i += 3;
            while i < s.len() && s[i - 1] != b'\'' {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let from = i;
            while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_') {
                i += 1;
            }
            let t: String = String::from_utf8_lossy(&s[from..i]).replace('_', "");
            let (t, radix) = match t.get(..2) {
                Some("0x") => (t[2..].to_owned(), 16),
                Some("0b") => (t[2..].to_owned(), 2),
                Some("0o") => (t[2..].to_owned(), 8),
                _ => (t, 10),
            };
            let digits = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"].iter().find_map(|x| t.strip_suffix(x)).unwrap_or(&t);
            if let Ok(n) = u64::from_str_radix(digits, radix) {
                l.ints.insert(n);
                run.push(n);
            }
        } else if c.is_ascii_alphabetic() || c == b'_' {
            while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}
