//! C17, C18: the code generator, by compiling and running what it emits.

use crate::dict::{self, Dict};
use crate::engine::{guard, harness_error, Cx, Obs, B};
use crate::ensure;
use crate::gen;
use crate::net::Mix;
use crate::p_dict::{self, Added, Script, Seed};
use crate::refimpl as rf;
use crate::table::{Api, Attr, Table};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use radius::core::packet::Packet;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Mutex;

// ---------------------------------------------------------------- scratch crates

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = std::env::var("VH_TARGET").unwrap_or_else(|_| "/verif/target".to_owned());
        let p = Path::new(&base).join(format!("scratch-{tag}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap_or_else(|e| harness_error(&format!("{}: {e}", p.display())));
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn write(p: &Path, s: &str) {
    if let Some(d) = p.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(p, s).unwrap_or_else(|e| harness_error(&format!("{}: {e}", p.display())));
}

fn vbin(name: &str) -> PathBuf {
    Path::new(&std::env::var("VH_BIN").unwrap_or_else(|_| "/verif/target/vbin".to_owned())).join(name)
}

fn run_limited(cmd: &mut Command, secs: u64) -> (Option<i32>, String) {
    let mut child = cmd
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| harness_error(&format!("{cmd:?}: {e}")));
    let (mut o, mut e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let ho = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut o, &mut s);
        s
    });
    let he = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut e, &mut s);
        s
    });
    let t0 = std::time::Instant::now();
    let code = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s.code().unwrap_or(-1)),
            Ok(None) if t0.elapsed().as_secs() >= secs => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            Ok(None) => std::thread::sleep(std::time::Duration::from_millis(2)),
            Err(e) => harness_error(&format!("wait: {e}")),
        }
    };
    let out = [ho.join().unwrap_or_default(), he.join().unwrap_or_default()].concat();
    (code, String::from_utf8_lossy(&out).to_string())
}

/// Runs the generator under test over the files, in the order given. Ok(exit code).
fn generate(out: &Path, files: &[PathBuf]) -> Result<(i32, String), String> {
    let mut c = Command::new(vbin("codegen-under-test-md5"));
    c.arg("-o").arg(out).args(files);
    match run_limited(&mut c, 60) {
        (Some(code), text) => Ok((code, text)),
        (None, _) => Err("the generator did not end within 60 s".to_owned()),
    }
}

/// Compiles a crate root against the harness library; Err has the compiler's errors.
fn compile(dir: &Path, main: &str) -> Result<PathBuf, String> {
    let ext: BTreeMap<String, String> = std::fs::read_to_string(vbin("externs-md5.json"))
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or_else(|| harness_error("externs-md5.json"));
    write(&dir.join("main.rs"), main);
    let exe = dir.join("prog");
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--crate-type", "bin", "--crate-name", "prog", "-C", "opt-level=0", "-C", "debuginfo=0", "--cap-lints", "allow", "--error-format=short", "-C", "incremental="]);
    c.args(["-C", "overflow-checks=on"]);
    for n in ["vh", "radius", "chrono", "serde_json"] {
        let p = ext.get(n).unwrap_or_else(|| harness_error(&format!("no rlib of {n}")));
        c.arg("--extern").arg(format!("{n}={p}"));
    }
    let deps = Path::new(&ext["radius"]).parent().map(|p| p.to_path_buf()).unwrap_or_default();
    c.arg("-L").arg(format!("dependency={}", deps.display()));
    c.arg("-o").arg(&exe).arg(dir.join("main.rs"));
    c.current_dir(dir);
    match run_limited(&mut c, 600) {
        (Some(0), _) => Ok(exe),
        (Some(_), text) => {
            if text.contains("can't find crate") || text.contains("linking with") || text.contains("internal compiler error") {
                harness_error(&format!("rustc: {text}"));
            }
            Err(text)
        }
        (None, _) => harness_error("rustc did not end within 600 s"),
    }
}

fn clip(s: &str) -> String {
    s.chars().take(1200).collect()
}

// ---------------------------------------------------------------- dictionary sets

/// A set of dictionaries: the lines of each, and how they are written and passed.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Set {
    pub files: Vec<Vec<String>>,
    pub crlf: bool,
    pub reverse: bool,
    pub final_newline: bool,
}

impl Set {
    fn text(&self, i: usize) -> String {
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let mut s = self.files[i].join(nl);
        if self.final_newline {
            s += nl;
        }
        s
    }

    fn modules(&self, id: usize) -> Vec<String> {
        (0..self.files.len()).map(|i| format!("rfc{id:04}{i:02}")).collect()
    }

    /// Writes the dictionaries and returns their paths in the order to pass.
    fn lay(&self, dir: &Path, id: usize) -> Vec<PathBuf> {
        let mut l: Vec<PathBuf> = vec![];
        for (i, m) in self.modules(id).iter().enumerate() {
            let p = dir.join(format!("dictionary.{m}"));
            write(&p, &self.text(i));
            l.push(p);
        }
        if self.reverse {
            l.reverse();
        }
        l
    }

    fn dicts(&self, id: usize) -> Vec<Dict> {
        self.modules(id)
            .iter()
            .enumerate()
            .map(|(i, m)| dict::parse_dict(m, &self.text(i)).unwrap_or_else(|e| harness_error(&format!("generated a bad dictionary: {e}"))))
            .collect()
    }
}

// (some differ in their case only: such names are different ones, in different dictionaries)
const WORDS: [&str; 32] = [
    "nas", "Nas", "ID", "foo", "FOO", "bar",
    "Acct", "NAS", "Frame", "Port", "Id", "IPv6", "X25", "Foo", "Bar", "EAP", "Session", "Time", "Out", "Left", "Q", "Zone", "MIP6", "Auth", "Class", "Delegated", "A", "PKM", "Group", "Num", "Of", "UAM",
];
const VWORDS: [&str; 14] = ["Login", "User", "802", "11", "PPP", "X.25", "None", "Both", "V42bis", "Stop", "AS400", "G.3", "Yes", "tcp"];
const TYPES: [(&str, &str); 22] = [
    ("string", ""), ("string", "has_tag"), ("string", "encrypt=1"), ("string", "has_tag,encrypt=2"), ("string", "encrypt=2,has_tag"), ("octets", ""), ("octets", "concat"), ("octets[#]", ""), ("ipaddr", ""),
    ("ipv4prefix", ""), ("ipv6addr", ""), ("ipv6prefix", ""), ("ifid", ""), ("date", ""), ("integer", ""), ("integer", "has_tag"), ("short", ""),
    // integers are what named values belong to
    ("integer", ""), ("integer", ""), ("integer", "has_tag"), ("integer", ""), ("vsa", ""),
];

#[derive(Clone, Debug)]
struct RawAttr {
    /// (of those that the generator's code mentions, and the original does not)
    named: u64,
    words: Vec<usize>,
    typ: usize,
    num: u8,
    size: usize,
    ws: usize,
    comment: usize,
    values: Vec<(Vec<usize>, u32, usize, usize)>,
    later: Vec<(Vec<usize>, u32, usize, usize)>,
    noise: usize,
    mixed: bool,
}

fn raw_attr() -> BoxedStrategy<RawAttr> {
    let num = prop_oneof![3 => 0u32..=20, 2 => gen::word16().prop_map(|x| x as u32), 1 => gen::word32(), 1 => Just(u32::MAX), 1 => 65534u32..=65537];
    let val = (vec(0..VWORDS.len(), 1..=3), num, 0usize..4, 0usize..6);
    let vals = prop_oneof![2 => Just(vec![]), 3 => vec(val.clone(), 1..=6)];
    let later = prop_oneof![2 => Just(vec![]), 1 => vec(val, 1..=3)];
    ((prop_oneof![1 => vec(0..WORDS.len(), 1..=1), 6 => vec(0..WORDS.len(), 2..=4)], prop_oneof![3 => Just(0u64), 1 => any::<u64>()], 0..TYPES.len(), gen::octet(), prop_oneof![1usize..=20, 1usize..=253], 0usize..4, 0usize..6), (vals, later, 0usize..8, any::<bool>()))
        .prop_map(|((words, named, typ, num, size, ws, comment), (values, later, noise, mixed))| RawAttr { words, named, typ, num, size, ws, comment, values, later, noise, mixed })
        .boxed()
}

/// The name with a word that the generator's code mentions, and the original does not, if there is one.
fn with_literal(name: String, x: u64) -> String {
    let l: Vec<&str> = crate::lits::NEW_GENERATOR_WORDS
        .iter()
        .filter_map(|w| std::str::from_utf8(w).ok())
        .map(|w| w.trim_matches(['-', '_', ' ']))
        .filter(|w| w.len() <= 40 && w.starts_with(|c: char| c.is_ascii_alphabetic()) && w.chars().all(|c| c.is_ascii_alphanumeric() || c == '-'))
        .collect();
    if l.is_empty() || x == 0 {
        return name;
    }
    let w = l[(x >> 2) as usize % l.len()];
    match x & 3 {
        0 => w.to_owned(),
        1 => format!("{w}-{name}"),
        _ => format!("{name}-{w}"),
    }
}

/// Well-formed dictionary sets: unique names and numbers, values also in later dictionaries.
pub fn set() -> BoxedStrategy<Set> {
    let files = prop_oneof![
        40 => vec(vec(raw_attr(), 0..=8), 1..=4),
        4 => vec(vec(raw_attr(), 0..=3), 5..=9),
        1 => vec(vec(raw_attr(), 30..=60), 1..=3),
    ];
    (files, prop::bool::weighted(0.2), any::<bool>(), prop::bool::weighted(0.8))
        .prop_map(|(raw, crlf, reverse, final_newline)| {
            let ws = [" ", "\t", "\t\t", "    "];
            let n = raw.len();
            let mut files: Vec<Vec<String>> = vec![vec![]; n];
            let mut tails: Vec<Vec<String>> = vec![vec![]; n];
            let mut names = BTreeSet::new();
            let mut own: BTreeMap<(usize, String), String> = BTreeMap::new();
            // an identifier of a module belongs to one attribute
            let mut mine = |k: usize, name: &str| {
                let ids = [dict::snake(name), format!("pascal {}", dict::value_const(name, "")), dict::type_const(name)];
                let free = ids.iter().all(|i| own.get(&(k, i.clone())).is_none_or(|o| o == name));
                if free {
                    own.extend(ids.into_iter().map(|i| ((k, i), name.to_owned())));
                }
                free
            };
            let mut nums = BTreeSet::new();
            let mut consts = BTreeSet::new();
            let mut vsa = false;
            for (i, attrs) in raw.iter().enumerate() {
                for a in attrs {
                    let name = a.words.iter().map(|w| WORDS[*w]).collect::<Vec<_>>().join("-");
                    let name = with_literal(name, a.named);
                    let (typ, flags) = TYPES[a.typ];
                    // (type names and prefixes of value names are made from the pascal case)
                    if (typ == "vsa" && vsa) || names.contains(&name) || !mine(i, &name) || !consts.insert((i, dict::type_const(&name))) {
                        continue;
                    }
                    names.insert(name.clone());
                    let mut num = a.num.max(1);
                    while !nums.insert(num) {
                        num = num.wrapping_add(1).max(1);
                    }
                    vsa |= typ == "vsa";
                    match a.noise {
                        0 => files[i].push(String::new()),
                        1 => files[i].push("# ATTRIBUTE Not-There 1 string".to_owned()),
                        2 => files[i].push("#".to_owned()),
                        3 => files[i].push("# -*- text -*- ``` { } /* \" \\ ".to_owned()),
                        _ => {}
                    }
                    let w = ws[a.ws];
                    let tail = |c: usize| match c {
                        0 => format!("{w}# a comment, has_tag"),
                        1 => format!("{w}#x concat"),
                        2 => "#encrypt=1".to_owned(),
                        _ => String::new(),
                    };
                    let typ = typ.replace('#', &a.size.to_string());
                    let flags = if flags.is_empty() { String::new() } else { format!("{w}{flags}") };
                    files[i].push(format!("ATTRIBUTE{w}{name}{w}{num}{w}{typ}{flags}{}", tail(a.comment)));
                    if typ == "integer" {
                        for (k, l) in [(i, &a.values), (i + 1 + a.num as usize % 3, &a.later)] {
                            for (at, (words, num, ws_, c)) in l.iter().enumerate() {
                                // (those of later dictionaries are in one of them, or spread over them)
                                let k = if k > i && a.mixed { k + at } else { k };
                                if k >= n {
                                    continue;
                                }
                                let v = words.iter().map(|w| VWORDS[*w]).collect::<Vec<_>>().join("-");
                                if !mine(k, &name) || !consts.insert((k, dict::value_const(&name, &v))) {
                                    continue;
                                }
                                let w = ws[*ws_];
                                let line = format!("VALUE{w}{name}{w}{v}{w}{num}{}", match c {
                                    0 => format!("{w}# comment"),
                                    1 => "# comment".to_owned(),
                                    2 => "#comment".to_owned(),
                                    _ => String::new(),
                                });
                                if a.mixed || k != i { tails[k].push(line) } else { files[i].push(line) }
                            }
                        }
                    }
                }
            }
            for (f, t) in files.iter_mut().zip(tails) {
                f.extend(t);
            }
            Set { files, crlf, reverse, final_newline }
        })
        .boxed()
}

fn nontrivial(s: &Set, obs: &mut Obs) {
    let d = s.dicts(0);
    let attrs: Vec<&dict::DictAttr> = d.iter().flat_map(|d| &d.attrs).collect();
    let kinds: BTreeSet<String> = attrs.iter().map(|a| format!("{:?}", a.kind)).collect();
    let cross = d.iter().any(|d| d.values.iter().any(|v| !d.attrs.iter().any(|a| a.name == v.attr)));
    for k in &kinds {
        obs.label(k.split('(').next().unwrap_or_default());
    }
    if cross {
        obs.label("values of an earlier dictionary's attribute");
    }
    if kinds.len() >= 3 && d.iter().any(|d| !d.values.is_empty()) {
        obs.nontrivial();
    }
}

/// Generates, compiles and runs several sets in one crate. Per set: the error, or the number of inner cases.
fn evaluate(dir: &Path, sets: &[(usize, &Set)], seed: u64, cases: u32) -> Vec<Result<u64, String>> {
    let mut results: Vec<Option<Result<u64, String>>> = vec![None; sets.len()];
    let core = dir.join("core");
    let _ = std::fs::create_dir_all(&core);
    for (k, (id, s)) in sets.iter().enumerate() {
        let files = s.lay(dir, *id);
        match generate(&core, &files) {
            Ok((0, _)) => {}
            Ok((c, text)) => results[k] = Some(Err(format!("the generator refuses a well-formed dictionary set (exit {c}): {}", clip(&text)))),
            Err(e) => results[k] = Some(Err(e)),
        }
        for m in s.modules(*id) {
            if results[k].is_none() && !core.join(format!("{m}.rs")).is_file() {
                results[k] = Some(Err(format!("no module for dictionary {m}")));
            }
        }
    }
    let live: Vec<usize> = (0..sets.len()).filter(|k| results[*k].is_none()).collect();
    let source = |live: &[usize]| {
        let mut mods = String::new();
        let mut tabs = String::new();
        let mut list = String::new();
        for k in live {
            let (id, s) = sets[*k];
            for m in s.modules(id) {
                mods += &format!("    #[path = \"{}\"] pub mod {m};\n", core.join(format!("{m}.rs")).display());
            }
            tabs += &format!(
                "pub mod t{id} {{\n    use vh::table::*;\n{}\n    pub fn table() -> Table {{ Table {{ attrs: attrs(), values: values(), missing: missing() }} }}\n}}\n",
                dict::emit_table(&s.dicts(id), "crate::core", &|_| false)
            );
            list += &format!("({k}, t{id}::table as fn() -> vh::table::Table), ");
        }
        format!(
            "#![allow(warnings)]\npub mod core {{\n    pub use radius::core::*;\n{mods}}}\n{tabs}\nfn main() {{ vh::p_gen::generated_main(&[{list}], {seed}, {cases}) }}\n"
        )
    };
    if !live.is_empty() {
        match compile(dir, &source(&live)) {
            Err(text) if live.len() == 1 => results[live[0]] = Some(Err(format!("the emitted modules do not compile or lack something: {}", clip(&text)))),
            Err(_) => {
                // find out which
                for k in &live {
                    let d = dir.join(format!("one{k}"));
                    results[*k] = Some(evaluate(&d, &[sets[*k]], seed, cases).remove(0));
                    let _ = std::fs::remove_dir_all(&d);
                }
            }
            Ok(exe) => {
                let (code, text) = run_limited(Command::new(&exe).env("RUST_BACKTRACE", "0"), 300);
                if code == Some(3) {
                    harness_error(&text);
                }
                for line in text.lines() {
                    if let Some(v) = line.strip_prefix("RESULT ").and_then(|l| serde_json::from_str::<Value>(l).ok()) {
                        let k = v["set"].as_u64().unwrap_or(0) as usize;
                        results[k] = Some(match v["error"].as_str() {
                            Some(e) => Err(e.to_owned()),
                            None => Ok(v["cases"].as_u64().unwrap_or(0)),
                        });
                    }
                }
                for k in &live {
                    if results[*k].is_none() {
                        results[*k] = Some(Err(format!("the program using the modules ended early ({code:?}): {}", clip(&text))));
                    }
                }
            }
        }
    }
    results.into_iter().map(|r| r.unwrap_or_else(|| harness_error("no result"))).collect()
}

fn runner(parts: &str, seed: u64) -> TestRunner {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&rf::md5(parts.as_bytes())[..8]);
    TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &b))
}

/// The main function of the generated programs.
pub fn generated_main(sets: &[(usize, fn() -> Table)], seed: u64, cases: u32) {
    crate::engine::install_panic_hook();
    for (k, t) in sets {
        let t = t();
        let mut n = 0u64;
        let r = guard(|| {
            for a in &t.attrs {
                ensure!(a.konst == a.num, "{}: the number is {}, the dictionary says {}", a.id(), a.konst, a.num);
            }
            for v in &t.values {
                p_dict::check_val(&t, v, &mut Obs::default())?;
                n += 1;
            }
            if t.attrs.is_empty() {
                return Ok(());
            }
            let mut r = runner("generated", seed);
            let mut pick = |s: &BoxedStrategy<(Vec<Seed>, B)>| s.new_tree(&mut r).map(|t| t.current()).map_err(|e| e.to_string());
            let sweep = (vec(p_dict::seed(), 2..=2), gen::secret()).boxed();
            for _ in 0..cases {
                let (s, secret) = pick(&sweep)?;
                p_dict::run_sweep(&t, &s, &secret)?;
                n += 1;
            }
            let mut r = runner("scripts", seed);
            let scripts = p_dict::script(10);
            for _ in 0..cases * 4 {
                let c: Script = scripts.new_tree(&mut r).map_err(|e| e.to_string())?.current();
                p_dict::run_script(&t, &c, &mut Obs::default())?;
                n += 1;
            }
            let list: Vec<&Attr> = t.attrs.iter().filter(|a| matches!(a.api, Api::Concat { .. })).collect();
            if !list.is_empty() {
                let mut r = runner("long", seed);
                let long = p_dict::long();
                for _ in 0..cases * 2 {
                    let c = long.new_tree(&mut r).map_err(|e| e.to_string())?.current();
                    p_dict::run_long(&list, &c, &mut Obs::default())?;
                    n += 1;
                }
            }
            Ok(())
        });
        let e = match r {
            Ok(Ok(())) => Value::Null,
            Ok(Err(e)) | Err(e) => json!(e),
        };
        println!("RESULT {}", json!({"set": k, "cases": n, "error": e}));
    }
}

fn shrink(dir: &Path, s: &Set, first: String, seed: u64, cases: u32) -> (Set, String) {
    let mut best = s.clone();
    let mut why = first;
    let mut left = 60u32;
    let mut step = 0usize;
    let mut fails = |c: &Set, left: &mut u32| -> Option<String> {
        if *left == 0 {
            return None;
        }
        *left -= 1;
        step += 1;
        let d = dir.join(format!("shrink{step}"));
        let r = evaluate(&d, &[(0, c)], seed, cases).remove(0);
        let _ = std::fs::remove_dir_all(&d);
        r.err()
    };
    for f in [|c: &mut Set| c.crlf = false, |c: &mut Set| c.reverse = false, |c: &mut Set| c.final_newline = true] {
        let mut c = best.clone();
        f(&mut c);
        if let Some(e) = fails(&c, &mut left) {
            best = c;
            why = e;
        }
    }
    // remove chunks of lines, then single lines, over all files
    let mut size = best.files.iter().map(|f| f.len()).sum::<usize>().div_ceil(2).max(1);
    loop {
        let total: usize = best.files.iter().map(|f| f.len()).sum();
        let mut at = 0;
        let mut removed = false;
        while at < total && left > 0 {
            let mut c = best.clone();
            let mut pos = 0;
            for f in &mut c.files {
                f.retain(|_| {
                    pos += 1;
                    !(at < pos && pos <= at + size)
                });
            }
            if pos <= at {
                break;
            }
            match fails(&c, &mut left) {
                Some(e) => {
                    best = c;
                    why = e;
                    removed = true;
                }
                None => at += size,
            }
        }
        if left == 0 || (size == 1 && !removed) {
            break;
        }
        size = (size / 2).max(1);
    }
    // empty files at the end
    while best.files.len() > 1 && best.files.last().is_some_and(|f| f.is_empty()) && left > 0 {
        let mut c = best.clone();
        c.files.pop();
        match fails(&c, &mut left) {
            Some(e) => {
                best = c;
                why = e;
            }
            None => break,
        }
    }
    (best, why)
}

// ---------------------------------------------------------------- malformed dictionaries

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    set: Set,
    file: u8,
    line: u8,
    bad: String,
}

fn bad_line() -> BoxedStrategy<String> {
    let name = prop::sample::select(vec!["Foo-Bar", "Some-Name", "X"]);
    let typ = prop::sample::select(vec!["string", "octets", "integer", "ipaddr", "date", "short", "octets[4]", "vsa", "ifid", "ipv6prefix"]);
    let not_u8 = prop::sample::select(vec!["abc", "256", "-1", "1.5", "0x1f", "1x", "99999999999999999999", "1,2", "٣"]);
    let not_u32 = prop::sample::select(vec!["abc", "4294967296", "-1", "1.5", "0x1f", "1x", "99999999999999999999", "1,2", "٣"]);
    let kind = prop::sample::select(vec!["ATTR", "ATTRIBUTES", "attribute", "VALUES", "value", "VENDOR", "BEGIN-VENDOR", "$INCLUDE", "FOO"]);
    let badtyp = prop::sample::select(vec!["strin", "String", "strings", "octet", "octets[]", "octets[x]", "octets[-1]", "octets(4)", "xoctets[4]", "octets[4]x", "int", "ipaddr6", "tlv", "byte", "1"]);
    let n = 1u32..=255;
    prop_oneof![
        Just("ATTRIBUTE".to_owned()),
        name.clone().prop_map(|x| format!("ATTRIBUTE {x}")),
        (name.clone(), n.clone()).prop_map(|(x, n)| format!("ATTRIBUTE\t{x}\t{n}")),
        Just("VALUE".to_owned()),
        name.clone().prop_map(|x| format!("VALUE {x}")),
        name.clone().prop_map(|x| format!("VALUE {x} Bar")),
        (name.clone(), n.clone(), typ.clone(), kind).prop_map(|(x, n, t, k)| format!("{k} {x} {n} {t}")),
        (name.clone(), n.clone(), badtyp).prop_map(|(x, n, t)| format!("ATTRIBUTE {x} {n} {t}")),
        (name.clone(), not_u8, typ).prop_map(|(x, n, t)| format!("ATTRIBUTE {x} {n} {t}")),
        (name, not_u32).prop_map(|(x, n)| format!("VALUE {x} Bar {n}")),
    ]
    .boxed()
}

pub fn c17(cx: &Cx) {
    cx.rule("sets: random well-formed dictionary sets (1-4 files, all types and flags, comments, blank lines, CRLF, named values also in later files), run through the generator, compiled against the library and every accessor driven with generated values and scripts; non-trivial when at least three kinds of attribute and a named value occur; oracle: an independent dictionary reader and the attribute model of C13-C15");
    let scratch = Scratch::new("c17");
    let cases = if cx.thorough { 40 } else { 12 };
    if cx.wants("sets") {
        if let Some((_, v)) = &cx.replay {
            cx.mark_replayed();
            let s: Set = serde_json::from_value(v.clone()).unwrap_or_else(|e| harness_error(&format!("bad replay file: {e}")));
            let mut obs = Obs::default();
            nontrivial(&s, &mut obs);
            let _ = cx.record(&s, obs);
            if let Err(e) = evaluate(&scratch.0.join("replay"), &[(0, &s)], cx.seed, cases).remove(0) {
                cx.violate("sets", e, v.clone());
            }
        } else {
            let total = cx.n(240, 6000) as usize;
            let per = 12;
            let mut r = runner("sets", cx.seed);
            let st = set();
            let sets: Vec<Set> = (0..total)
                .map(|_| st.new_tree(&mut r).map(|t| t.current()).unwrap_or_else(|e| harness_error(&e.to_string())))
                .collect();
            let failed: Mutex<Option<(Set, String)>> = Mutex::new(None);
            let next = std::sync::atomic::AtomicUsize::new(0);
            std::thread::scope(|sc| {
                for w in 0..8 {
                    let (sets, failed, next, scratch) = (&sets, &failed, &next, &scratch);
                    sc.spawn(move || loop {
                        let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst) * per;
                        if k >= sets.len() || failed.lock().unwrap().is_some() {
                            return;
                        }
                        let chunk: Vec<(usize, &Set)> = sets[k..(k + per).min(sets.len())].iter().enumerate().collect();
                        let d = scratch.0.join(format!("w{w}-{k}"));
                        let res = evaluate(&d, &chunk, cx.seed.wrapping_add(k as u64), cases);
                        let _ = std::fs::remove_dir_all(&d);
                        for ((_, s), r) in chunk.iter().zip(res) {
                            match r {
                                Ok(n) => {
                                    let mut obs = Obs::default();
                                    nontrivial(s, &mut obs);
                                    let _ = cx.record(s, obs);
                                    for _ in 0..n {
                                        cx.count("accessor sweeps, scripts and values inside the sets");
                                    }
                                }
                                Err(e) => {
                                    let mut f = failed.lock().unwrap();
                                    if f.is_none() {
                                        *f = Some(((*s).clone(), e));
                                    }
                                }
                            }
                        }
                    });
                }
            });
            if let Some((s, e)) = failed.into_inner().unwrap() {
                let seed = cx.seed;
                let (s, e) = shrink(&scratch.0, &s, e, seed, cases);
                cx.violate("sets", e, serde_json::to_value(&s).unwrap_or(Value::Null));
            }
        }
    }
    cx.rule("malformed: a well-formed set with one malformed line (too few fields, unknown kind or type, unparsable number) or a missing file; oracle: failing exit");
    let counter = std::sync::atomic::AtomicUsize::new(0);
    cx.drive_opts(
        "malformed",
        cx.n(1200, 20_000),
        200,
        || (set(), gen::octet(), gen::octet(), bad_line()).prop_map(|(set, file, line, bad)| Bad { set, file, line, bad }),
        |c, obs| {
            let mut s = c.set.clone();
            if s.files.is_empty() {
                return Ok(());
            }
            let d = scratch.0.join(format!("m{}", counter.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
            let good = s.lay(&d.join("good"), 0);
            let _ = std::fs::create_dir_all(d.join("out"));
            let g = generate(&d.join("out"), &good);
            let f = c.file as usize % s.files.len();
            let at = c.line as usize % (s.files[f].len() + 1);
            s.files[f].insert(at, c.bad.clone());
            let bad = s.lay(&d.join("bad"), 0);
            let b = generate(&d.join("out"), &bad);
            let _ = std::fs::remove_dir_all(&d);
            let (g, b) = (g?, b?);
            ensure!(g.0 == 0, "the generator refuses a well-formed dictionary set: {}", clip(&g.1));
            ensure!(b.0 != 0, "the generator accepts the line {:?}", c.bad);
            obs.nontrivial();
            obs.label(format!("malformed {}", c.bad.split_whitespace().next().unwrap_or_default()));
            Ok(())
        },
    );
    drop(scratch);
}

// ---------------------------------------------------------------- C18

/// The public items of a source file: name to a normalised description. Second: macros were used at module level.
fn items(src: &str) -> Result<(BTreeMap<String, String>, bool), String> {
    use quote::ToTokens;
    let f = syn::parse_file(src).map_err(|e| e.to_string())?;
    let mut out = BTreeMap::new();
    let mut macros = false;
    // last path segments only, without lifetimes' and parameters' names
    fn norm(t: impl ToTokens, alias: &BTreeMap<String, String>) -> String {
        let s = t.to_token_stream().to_string();
        let toks: Vec<&str> = s.split_whitespace().collect();
        let mut o: Vec<String> = vec![];
        for t in toks {
            if o.last().is_some_and(|l| l == "::") && t.chars().next().is_some_and(|c| c.is_alphabetic()) {
                o.pop();
                o.pop();
            }
            o.push(alias.get(t).cloned().unwrap_or_else(|| t.to_owned()));
        }
        o.join(" ")
    }
    // a named value type is the integer it stands for; names come out the same whether the alias or u32 is used
    let mut alias = BTreeMap::new();
    for i in &f.items {
        if let syn::Item::Type(t) = i {
            alias.insert(t.ident.to_string(), norm(&*t.ty, &BTreeMap::new()));
        }
    }
    for i in &f.items {
        match i {
            syn::Item::Fn(x) if matches!(x.vis, syn::Visibility::Public(_)) => {
                let ins: Vec<String> = x
                    .sig
                    .inputs
                    .iter()
                    .map(|a| match a {
                        syn::FnArg::Typed(t) => norm(&*t.ty, &alias),
                        syn::FnArg::Receiver(_) => "self".to_owned(),
                    })
                    .collect();
                let outt = match &x.sig.output {
                    syn::ReturnType::Default => "( )".to_owned(),
                    syn::ReturnType::Type(_, t) => norm(&**t, &alias),
                };
                out.insert(format!("fn {}", x.sig.ident), format!("({}) -> {outt}", ins.join(", ")));
            }
            syn::Item::Const(x) if matches!(x.vis, syn::Visibility::Public(_)) => {
                out.insert(format!("const {}", x.ident), String::new());
            }
            syn::Item::Type(x) if matches!(x.vis, syn::Visibility::Public(_)) => {
                out.insert(format!("type {}", x.ident), norm(&*x.ty, &BTreeMap::new()));
            }
            syn::Item::Macro(_) => macros = true,
            _ => {}
        }
    }
    Ok((out, macros))
}

/// Same inputs to both: same results. `a` is the shipped attribute, `b` the regenerated one.
fn differ(a: &Attr, b: &Attr, s: &Seed, attrs: &[(u8, Vec<u8>)], secret: &[u8]) -> Result<(), String> {
    let wire = rf::build(1, 1, &[7; 16], &rf::attr_bytes(attrs));
    let mut p = Packet::decode(&wire, secret).map_err(|e| format!("does not decode: {e}"))?;
    let mut q = Packet::decode(&wire, secret).map_err(|e| format!("does not decode: {e}"))?;
    let same = |p: &Packet, q: &Packet, what: &str| -> Result<(), String> {
        let (x, y) = (a.get(p), b.get(q));
        ensure!(x == y, "{}: lookup {what}: shipped {x:?}, regenerated {y:?}", a.id());
        let (x, y) = (a.all(p), b.all(q));
        ensure!(x == y, "{}: lookup_all {what}: shipped {x:?}, regenerated {y:?}", a.id());
        Ok(())
    };
    same(&p, &q, "in a received packet")?;
    let (x, y) = (a.add(&mut p, s)?, b.add(&mut q, s)?);
    match (&x, &y) {
        (Added::Refused, Added::Refused) => {}
        (Added::Contents(x), Added::Contents(y)) => match a.api {
            // a random salt
            Api::TunPw { .. } => {}
            _ => ensure!(x == y, "{}: add: shipped {x:?}, regenerated {y:?}", a.id()),
        },
        _ => return Err(format!("{}: add succeeds in one and fails in the other", a.id())),
    }
    same(&p, &q, "after an add")?;
    if !matches!(a.api, Api::TunPw { .. }) {
        // the same once more
        a.add(&mut p, s)?;
        b.add(&mut q, s)?;
        same(&p, &q, "after an add of the same")?;
    }
    (a.delete)(&mut p);
    (b.delete)(&mut q);
    same(&p, &q, "after a delete")?;
    ensure!(p_dict::contents(&p) == p_dict::contents(&q), "{}: delete: different attributes left", a.id());
    Ok(())
}

/// The main function of the program that holds the regenerated modules.
pub fn regenerated_main(table: fn() -> Table, shipped: fn() -> Table, consts: &[(&str, u64, u64)], seed: u64, cases: u32) {
    crate::engine::install_panic_hook();
    let (t, u) = (table(), shipped());
    let mut n = 0u64;
    let r = guard(|| {
        for (name, a, b) in consts {
            ensure!(a == b, "{name}: shipped {a}, regenerated {b}");
            n += 1;
        }
        for a in &t.attrs {
            ensure!(a.konst == a.num, "{}: the regenerated number is {}, the dictionary says {}", a.id(), a.konst, a.num);
        }
        for v in &t.values {
            p_dict::check_val(&t, v, &mut Obs::default())?;
            n += 1;
        }
        let mut r = runner("diff", seed);
        let st = (p_dict::seed(), p_dict::seed(), vec(p_dict::hostile(), 0..=4), gen::secret_or_empty()).boxed();
        for _ in 0..cases {
            let (s1, s2, raw, secret) = st.new_tree(&mut r).map_err(|e| e.to_string())?.current();
            if !secret.is_empty() {
                p_dict::run_sweep(&t, &[s1.clone(), s2], &secret)?;
            }
            for b in &t.attrs {
                let a = u.attrs.iter().find(|a| a.module == b.module && a.name == b.name);
                let a = a.ok_or_else(|| format!("{} is not in the shipped modules", b.id()))?;
                // (the first of them comes twice)
                let attrs: Vec<(u8, Vec<u8>)> = raw.iter().chain(raw.first()).map(|x| (b.num, x.0.clone())).collect();
                differ(a, b, &s1, &attrs, &secret)?;
                n += 1;
            }
        }
        let mut r = runner("scripts", seed);
        let scripts = p_dict::script(10);
        for _ in 0..cases * 4 {
            let c: Script = scripts.new_tree(&mut r).map_err(|e| e.to_string())?.current();
            p_dict::run_script(&t, &c, &mut Obs::default())?;
            n += 1;
        }
        Ok(())
    });
    let e = match r {
        Ok(Ok(())) => Value::Null,
        Ok(Err(e)) | Err(e) => json!(e),
    };
    println!("RESULT {}", json!({"set": 0, "cases": n, "error": e}));
}

pub fn c18(cx: &Cx) {
    cx.rule("api: the generator run over the shipped dictionaries, its modules' public items compared with the shipped modules'; behaviour: both sets of modules compiled into one program and given the same generated values, received contents and deletions; every attribute pair of every case counts, non-trivial always; oracle: equality, and the model of C13");
    for sub in ["api", "behaviour"] {
        if cx.replay.is_some() && cx.wants(sub) {
            cx.mark_replayed();
        }
    }
    let scratch = Scratch::new("c18");
    let core = scratch.0.join("core");
    let _ = std::fs::create_dir_all(&core);
    let dicts = Path::new(&cx.repo).join("dicts");
    let mut files: Vec<PathBuf> = match std::fs::read_dir(&dicts) {
        Ok(l) => l.filter_map(|e| e.ok().map(|e| e.path())).filter(|p| p.file_name().is_some_and(|n| n.to_string_lossy().starts_with("dictionary."))).collect(),
        Err(e) => return cx.violate("api", format!("no dictionaries: {e}"), json!("")),
    };
    files.sort();
    match generate(&core, &files) {
        Ok((0, _)) => {}
        Ok((c, t)) => return cx.violate("api", format!("the generator fails on the shipped dictionaries (exit {c}): {}", clip(&t)), json!("")),
        Err(e) => return cx.violate("api", e, json!("")),
    }
    let list = |d: &Path| -> BTreeSet<String> {
        std::fs::read_dir(d)
            .map(|l| l.filter_map(|e| e.ok().map(|e| e.file_name().to_string_lossy().to_string())).filter(|n| n.starts_with("rfc") && n.ends_with(".rs")).collect())
            .unwrap_or_default()
    };
    let ship = Path::new(&cx.repo).join("radius/src/core");
    let (s, g) = (list(&ship), list(&core));
    if s != g {
        cx.violate("api", format!("modules differ: only shipped {:?}, only regenerated {:?}", s.difference(&g).collect::<Vec<_>>(), g.difference(&s).collect::<Vec<_>>()), json!("modules"));
    }
    let mut consts = String::new();
    for m in s.intersection(&g) {
        let read = |d: &Path| std::fs::read_to_string(d.join(m)).unwrap_or_default();
        let (a, b) = match (items(&read(&ship)), items(&read(&core))) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) => harness_error(&format!("{m}: {e}")),
            (_, Err(e)) => {
                cx.violate("api", format!("{m}: the regenerated module does not parse: {e}"), json!(m));
                continue;
            }
        };
        for (from, to, who, skip) in [(&a, &b, "the shipped module and not in the regenerated one", b.1), (&b, &a, "the regenerated module and not in the shipped one", a.1)] {
            for (k, sig) in &from.0 {
                let mut obs = Obs::default();
                obs.nontrivial();
                obs.label("item compared");
                let _ = cx.record(&(m, k, sig), obs);
                match to.0.get(k) {
                    None if skip => {}
                    None => cx.violate("api", format!("{m}: `{k}` is in {who}"), json!([m, k])),
                    Some(o) if o != sig => cx.violate("api", format!("{m}: `{k}` is {sig} in one and {o} in the other"), json!([m, k])),
                    Some(_) => {}
                }
            }
        }
        let module = m.trim_end_matches(".rs");
        for k in a.0.keys().filter(|k| k.starts_with("const ") && b.0.contains_key(*k)) {
            let c = &k[6..];
            consts += &format!("(\"{module}::{c}\", radius::core::{module}::{c} as u64, crate::core::{module}::{c} as u64), ");
        }
    }
    if cx.has_violations() {
        return;
    }
    let live = match dict::read_dir(&dicts) {
        Ok(l) => l,
        Err(e) => return cx.violate("behaviour", format!("the shipped dictionaries do not parse: {e}"), json!("")),
    };
    let table = |root: &str| format!("use vh::table::*;\n{}\npub fn table() -> Table {{ Table {{ attrs: attrs(), values: values(), missing: missing() }} }}\n", dict::emit_table(&live, root, &|_| false));
    let mods: String = g.iter().map(|m| format!("    #[path = \"{}\"] pub mod {};\n", core.join(m).display(), m.trim_end_matches(".rs"))).collect();
    let cases = cx.n(160, 4000);
    let main = format!(
        "#![allow(warnings)]\npub mod core {{\n    pub use radius::core::*;\n{mods}}}\npub mod regen {{\n{}}}\npub mod ship {{\n{}}}\nfn main() {{ vh::p_gen::regenerated_main(regen::table, ship::table, &[{consts}], {}, {cases}) }}\n",
        table("crate::core"),
        table("radius::core"),
        cx.seed
    );
    let exe = match compile(&scratch.0, &main) {
        Ok(e) => e,
        Err(t) => return cx.violate("behaviour", format!("the regenerated modules do not compile or lack something: {}", clip(&t)), json!("")),
    };
    let (code, text) = run_limited(Command::new(&exe).env("RUST_BACKTRACE", "0"), 3 * 3600);
    if code == Some(3) {
        harness_error(&text);
    }
    let v = text.lines().find_map(|l| l.strip_prefix("RESULT ").and_then(|l| serde_json::from_str::<Value>(l).ok()));
    match v {
        None => cx.violate("behaviour", format!("the program ended early ({code:?}): {}", clip(&text)), json!("")),
        Some(v) => {
            for _ in 0..v["cases"].as_u64().unwrap_or(0) {
                cx.count("attribute pairs, scripts and constants compared");
            }
            if let Some(e) = v["error"].as_str() {
                cx.violate("behaviour", e.to_owned(), json!(cx.seed));
            }
        }
    }
}

// ---------------------------------------------------------------- C30

/// A dictionary set, and a second way to write the same definitions down.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Relaid {
    set: Option<Set>,
    seed: u64,
    crlf: bool,
    final_newline: bool,
    /// how many of the dictionaries, in order of their names, are given alone
    prefix: u8,
}

const NOTES: [&str; 12] = [
    "# comment", "#", "#x,has_tag", "# has_tag", "#concat", "# , concat, encrypt=1", "#,encrypt=2,has_tag", "# octets[3]", "# ATTRIBUTE Not-There 250 string", "#VALUE Not There 3", "## \" { } \\ ```", "# \u{30c6}\u{30b9}\u{30c8}",
];

/// The same definitions with other white space, comments, blank lines and an order of the named values relative
/// to the rest that keeps the order of the attributes and of every attribute's values.
fn relay(lines: &[String], g: &mut Mix) -> Vec<String> {
    let mut streams: Vec<(String, Vec<String>)> = vec![];
    for l in lines {
        let l = l.split('#').next().unwrap_or_default();
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.is_empty() {
            continue;
        }
        let key = if f[0] == "VALUE" { format!("values of {}", f[1]) } else { String::new() };
        let ws = ["\t", " ", "  ", "\t\t \t", "        "];
        let mut s = f[0].to_owned();
        for x in &f[1..] {
            s += ws[g.below(ws.len())];
            s += x;
        }
        match g.below(8) {
            0 => s += " ",
            1 => s += "\t",
            2 => s += NOTES[g.below(NOTES.len())],
            3 | 4 => s += &format!("{}{}", ws[g.below(ws.len())], NOTES[g.below(NOTES.len())]),
            _ => {}
        }
        match streams.iter_mut().find(|(k, _)| *k == key) {
            Some((_, v)) => v.push(s),
            None => streams.push((key, vec![s])),
        }
    }
    let mix = g.below(3) > 0;
    let mut out = vec![];
    let mut streams: Vec<std::collections::VecDeque<String>> = if mix {
        streams.into_iter().map(|(_, v)| v.into()).collect()
    } else {
        vec![streams.into_iter().flat_map(|(_, v)| v).collect()]
    };
    loop {
        streams.retain(|s| !s.is_empty());
        if streams.is_empty() {
            break;
        }
        while g.below(4) == 0 {
            out.push(if g.below(2) == 0 { String::new() } else { NOTES[g.below(NOTES.len())].to_owned() });
        }
        let k = g.below(streams.len());
        out.extend(streams[k].pop_front());
    }
    if g.below(2) == 0 {
        out.push(NOTES[g.below(NOTES.len())].to_owned());
    }
    out
}

fn all_files(d: &Path) -> BTreeMap<String, Vec<u8>> {
    std::fs::read_dir(d)
        .map(|l| l.filter_map(|e| e.ok()).map(|e| (e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap_or_default())).collect())
        .unwrap_or_default()
}

/// What a module says apart from its comments.
fn code_of(b: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(b).lines().map(str::trim_end).filter(|l| !l.trim_start().starts_with("//") && !l.is_empty()).map(str::to_owned).collect()
}

fn relaid_check(cx: &Cx, d: &Path, c: &Relaid, obs: &mut Obs) -> Result<(), String> {
    let mut g = Mix(c.seed);
    let (names, files): (Vec<String>, Vec<String>) = match &c.set {
        Some(s) => (s.modules(0), (0..s.files.len()).map(|i| s.text(i)).collect()),
        None => {
            let l = all_files(&Path::new(&cx.repo).join("dicts"));
            l.iter().filter_map(|(n, b)| Some((n.strip_prefix("dictionary.")?.to_owned(), String::from_utf8_lossy(b).to_string()))).unzip()
        }
    };
    let lay = |dir: &Path, texts: &[String]| -> Vec<PathBuf> {
        names
            .iter()
            .zip(texts)
            .map(|(n, t)| {
                let p = dir.join(format!("dictionary.{n}"));
                write(&p, t);
                p
            })
            .collect()
    };
    let gen = |what: &str, out: &Path, files: &[PathBuf], cwd: Option<&Path>| -> Result<BTreeMap<String, Vec<u8>>, String> {
        let _ = std::fs::create_dir_all(out);
        let mut cmd = Command::new(vbin("codegen-under-test-md5"));
        if let Some(w) = cwd {
            cmd.current_dir(w);
        }
        cmd.arg("-o").arg(out).args(files);
        match run_limited(&mut cmd, 60) {
            (Some(0), _) => Ok(all_files(out)),
            (Some(e), t) => Err(format!("{what}: the generator fails (exit {e}): {}", clip(&t))),
            (None, _) => Err(format!("{what}: the generator did not end within 60 s")),
        }
    };
    let same = |what: &str, a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>| -> Result<(), String> {
        for (n, x) in a {
            match b.get(n) {
                None => return Err(format!("{what}: {n} is missing")),
                Some(y) => {
                    let (x, y) = (code_of(x), code_of(y));
                    if let Some(i) = (0..x.len().max(y.len())).find(|i| x.get(*i) != y.get(*i)) {
                        return Err(format!("{what}: {n} differs: {:?} or {:?}", x.get(i), y.get(i)));
                    }
                }
            }
        }
        Ok(())
    };
    let exactly = |what: &str, a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>| -> Result<(), String> {
        same(what, a, b)?;
        let only: Vec<&String> = b.keys().filter(|k| !a.contains_key(*k)).collect();
        ensure!(only.is_empty(), "{what}: also writes {only:?}");
        ensure!(a == b, "{what}: the modules' comments differ");
        Ok(())
    };
    // the reference
    let paths = lay(&d.join("a"), &files);
    let first = gen("first run", &d.join("out1"), &paths, None)?;
    let want: BTreeSet<String> = names.iter().map(|n| format!("{n}.rs")).collect();
    let have: BTreeSet<String> = first.keys().cloned().collect();
    ensure!(have == want, "the generator writes {have:?} instead of {want:?}");
    ensure!(all_files(&d.join("a")).values().map(|b| String::from_utf8_lossy(b).to_string()).collect::<Vec<_>>() == files, "the generator changes the dictionaries");
    // again: another order of arguments, relative names, another directory
    let mut shuffled: Vec<PathBuf> = names.iter().map(|n| PathBuf::from(format!("dictionary.{n}"))).collect();
    for i in (1..shuffled.len()).rev() {
        shuffled.swap(i, g.below(i + 1));
    }
    exactly("a second run over the same files", &first, &gen("second run", &d.join("out2"), &shuffled, Some(&d.join("a")))?)?;
    // over what other dictionaries have left, and what is not the generator's
    let stale = d.join("out3");
    write(&stale.join("mod.rs"), "// not the generator's\n");
    for n in &names {
        if g.below(2) == 0 {
            write(&stale.join(format!("{n}.rs")), &"pub fn stale() {}\n".repeat(1 + g.below(20_000)));
        }
    }
    let mut over = gen("run over older output", &stale, &paths, None)?;
    ensure!(over.remove("mod.rs").as_deref() == Some(b"// not the generator's\n"), "the generator touches a file that is not one of its modules");
    exactly("a run over older output", &first, &over)?;
    // the same definitions written down in another way
    let texts: Vec<String> = files
        .iter()
        .map(|t| {
            let lines: Vec<String> = t.lines().map(str::to_owned).collect();
            let nl = if c.crlf { "\r\n" } else { "\n" };
            let mut s = relay(&lines, &mut g).join(nl);
            if c.final_newline {
                s += nl;
            }
            s
        })
        .collect();
    let other = lay(&d.join("b"), &texts);
    let relaid = gen("the same definitions with other white space, comments and lines", &d.join("out4"), &other, None)?;
    same("the same definitions with other white space, comments and lines", &first, &relaid)?;
    // the modules of the first dictionaries do not depend on the later ones
    let mut order: Vec<usize> = (0..names.len()).collect();
    order.sort_by_key(|i| &names[*i]);
    let k = c.prefix as usize % names.len().max(1);
    let part: Vec<PathBuf> = order[..k].iter().map(|i| paths[*i].clone()).collect();
    let alone: BTreeMap<String, Vec<u8>> = order[..k].iter().filter_map(|i| first.get_key_value(&format!("{}.rs", names[*i]))).map(|(a, b)| (a.clone(), b.clone())).collect();
    exactly("without the later dictionaries", &alone, &gen("without the later dictionaries", &d.join("out5"), &part, None)?)?;
    if let Some(s) = &c.set {
        nontrivial(s, obs);
    } else {
        obs.nontrivial();
        obs.label("shipped dictionaries");
    }
    if texts != files {
        obs.label("relaid");
    }
    if k > 0 {
        obs.label("prefix");
    }
    Ok(())
}

pub fn c30(cx: &Cx) {
    cx.rule("relaid: random well-formed dictionary sets and the shipped one, generated repeatedly (arguments in another order and relative, over older and larger output, next to foreign files), with the same definitions written down differently (white space, comments that look like definitions or flags, blank lines, line ends, named values moved between the attributes), and without the later dictionaries; non-trivial when at least three kinds of attribute and a named value occur; oracle: the modules are the same (metamorphic), nothing else is written");
    let scratch = Scratch::new("c30");
    let counter = std::sync::atomic::AtomicUsize::new(0);
    let run = |c: &Relaid, obs: &mut Obs| {
        let d = scratch.0.join(format!("r{}", counter.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        let r = relaid_check(cx, &d, c, obs);
        let _ = std::fs::remove_dir_all(&d);
        r
    };
    let how = || (any::<u64>(), any::<bool>(), any::<bool>(), gen::octet());
    cx.drive_opts(
        "relaid",
        cx.n(1000, 20_000),
        300,
        || (set(), how()).prop_map(|(set, (seed, crlf, final_newline, prefix))| Relaid { set: Some(set), seed, crlf, final_newline, prefix }),
        run,
    );
    cx.drive_opts("shipped", cx.n(24, 600), 16, || how().prop_map(|(seed, crlf, final_newline, prefix)| Relaid { set: None, seed, crlf, final_newline, prefix }), run);
}
