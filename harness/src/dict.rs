// The dictionary format, read independently of the code generator, and the accessor table made from it.
// Also included by build.rs.

use inflector::Inflector;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Str,
    TagStr,
    UserPw,
    TunPw,
    Octets,
    Fixed(usize),
    Concat,
    Ip4,
    Ip6,
    Pfx4,
    Pfx6,
    Date,
    Int,
    TagInt,
    Short,
    Vsa,
}

#[derive(Clone, Debug, PartialEq)]
pub struct DictAttr {
    pub name: String,
    pub num: u8,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq)]
pub struct DictValue {
    pub attr: String,
    pub name: String,
    pub num: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dict {
    pub module: String,
    pub attrs: Vec<DictAttr>,
    pub values: Vec<DictValue>,
}

pub fn kind_of(typ: &str, flags: &str) -> Option<Kind> {
    let has = |f: &str| flags.split(',').any(|x| x == f);
    let tag = has("has_tag");
    Some(match typ {
        "string" if has("encrypt=1") && !tag => Kind::UserPw,
        "string" if has("encrypt=2") && tag => Kind::TunPw,
        "string" if has("encrypt=1") || has("encrypt=2") => return None,
        "string" if tag => Kind::TagStr,
        "integer" if tag => Kind::TagInt,
        "vsa" => Kind::Vsa,
        _ if tag => return None,
        "string" => Kind::Str,
        "octets" if has("concat") => Kind::Concat,
        "octets" => Kind::Octets,
        "ipaddr" => Kind::Ip4,
        "ipv4prefix" => Kind::Pfx4,
        "ipv6addr" => Kind::Ip6,
        "ipv6prefix" => Kind::Pfx6,
        "ifid" => Kind::Fixed(8),
        "date" => Kind::Date,
        "integer" => Kind::Int,
        "short" => Kind::Short,
        t => {
            let n = t.strip_prefix("octets[")?.strip_suffix(']')?;
            Kind::Fixed(n.parse().ok()?)
        }
    })
}

pub fn parse_dict(module: &str, text: &str) -> Result<Dict, String> {
    let mut d = Dict { module: module.to_owned(), attrs: vec![], values: vec![] };
    for line in text.lines() {
        let line = line.split('#').next().unwrap_or_default();
        let f: Vec<&str> = line.split_whitespace().collect();
        match f.as_slice() {
            [] => {}
            ["ATTRIBUTE", name, num, typ, rest @ ..] => d.attrs.push(DictAttr {
                name: name.to_string(),
                num: num.parse().map_err(|e| format!("{line}: {e}"))?,
                kind: kind_of(typ, rest.first().unwrap_or(&"")).ok_or_else(|| format!("{line}: type"))?,
            }),
            ["VALUE", attr, name, num, ..] => d.values.push(DictValue {
                attr: attr.to_string(),
                name: name.to_string(),
                num: num.parse().map_err(|e| format!("{line}: {e}"))?,
            }),
            _ => return Err(format!("{line}: not understood")),
        }
    }
    Ok(d)
}

/// Reads all dictionaries of a directory, in order of their names.
pub fn read_dir(dir: &std::path::Path) -> Result<Vec<Dict>, String> {
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .map_err(|e| format!("{}: {e}", dir.display()))?
        .filter_map(|e| e.ok().map(|e| e.path()))
        .filter(|p| p.file_name().is_some_and(|n| n.to_string_lossy().starts_with("dictionary.")))
        .collect();
    files.sort();
    files
        .iter()
        .map(|p| {
            let text = std::fs::read_to_string(p).map_err(|e| format!("{}: {e}", p.display()))?;
            let module = p.extension().map(|e| e.to_string_lossy().to_string()).unwrap_or_default();
            parse_dict(&module, &text)
        })
        .collect()
}

pub fn snake(name: &str) -> String {
    name.to_snake_case()
}

pub fn type_const(name: &str) -> String {
    format!("{}_TYPE", name.to_screaming_snake_case())
}

pub fn value_const(attr: &str, value: &str) -> String {
    format!("{}_{}", attr.to_pascal_case().to_screaming_snake_case(), value.to_screaming_snake_case())
}

/// Rust source of a function that returns the table; every entry is on a line of its own, which ends with a
/// comment naming what it needs. Entries whose name `skip` holds go to the list of missing ones.
pub fn emit_table(dicts: &[Dict], root: &str, skip: &dyn Fn(&str) -> bool) -> String {
    let mut attrs = String::new();
    let mut values = String::new();
    let mut missing = String::new();
    for d in dicts {
        let m = format!("{root}::{}", d.module);
        for a in &d.attrs {
            let key = format!("{}::{}", d.module, snake(&a.name));
            if skip(&key) {
                missing += &format!("    out.push({key:?});\n");
                continue;
            }
            let s = snake(&a.name);
            let three = format!("add: {m}::add_{s}, get: {m}::lookup_{s}, all: {m}::lookup_all_{s}");
            let api = match &a.kind {
                Kind::Str => format!("Str {{ {three} }}"),
                Kind::TagStr => format!("TagStr {{ {three} }}"),
                Kind::UserPw => format!("UserPw {{ {three} }}"),
                Kind::TunPw => format!("TunPw {{ {three} }}"),
                Kind::Octets => format!("Octets {{ {three} }}"),
                Kind::Fixed(n) => format!("Fixed {{ n: {n}, {three} }}"),
                Kind::Concat => format!("Concat {{ add: {m}::add_{s}, get: {m}::lookup_{s} }}"),
                Kind::Ip4 => format!("Ip4 {{ {three} }}"),
                Kind::Ip6 => format!("Ip6 {{ {three} }}"),
                Kind::Pfx4 => format!("Pfx4 {{ {three} }}"),
                Kind::Pfx6 => format!("Pfx6 {{ {three} }}"),
                Kind::Date => format!("Date {{ {three} }}"),
                Kind::Int => format!("Int {{ {three} }}"),
                Kind::TagInt => format!("TagInt {{ {three} }}"),
                Kind::Short => format!("Short {{ {three} }}"),
                Kind::Vsa => format!("Vsa {{ add: {m}::add_vsa_attribute }}"),
            };
            attrs += &format!(
                "    out.push(Attr {{ module: {:?}, name: {:?}, num: {}, konst: {m}::{}, delete: {m}::delete_{s}, api: Api::{api} }}); // ENTRY {key}\n",
                d.module, a.name, a.num, type_const(&a.name)
            );
        }
        for v in &d.values {
            let c = value_const(&v.attr, &v.name);
            let key = format!("{}::{c}", d.module);
            if skip(&key) {
                missing += &format!("    out.push({key:?});\n");
                continue;
            }
            values += &format!(
                "    out.push(Val {{ module: {:?}, attr: {:?}, name: {:?}, num: {}, konst: {m}::{c} }}); // ENTRY {key}\n",
                d.module, v.attr, v.name, v.num
            );
        }
    }
    format!(
        "pub fn attrs() -> Vec<Attr> {{\n    let mut out = Vec::new();\n{attrs}    out\n}}\n\
         pub fn values() -> Vec<Val> {{\n    let mut out: Vec<Val> = Vec::new();\n{values}    out\n}}\n\
         pub fn missing() -> Vec<&'static str> {{\n    let mut out: Vec<&'static str> = Vec::new();\n{missing}    out.sort();\n    out\n}}\n"
    )
}
