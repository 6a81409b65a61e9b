//! Collects the literals of the crate under test as a dictionary for the generators, as fuzzers do:
//! a text or number that the code singles out is tried as a name, a text, a length or a value.
//! Those that `literals.txt` does not list are tried more often.
use std::collections::{BTreeMap, BTreeSet};
use std::{env, fs, path::Path};

#[derive(Default)]
struct Found {
    words: BTreeSet<String>,
    nums: BTreeSet<u64>,
}

fn escape(c: &[char], i: &mut usize) -> Option<char> {
    // at the character after the backslash
    let x = *c.get(*i)?;
    *i += 1;
    Some(match x {
        'n' => '\n',
        't' => '\t',
        'r' => '\r',
        '0' => '\0',
        'x' => {
            let h: String = c.get(*i..*i + 2)?.iter().collect();
            *i += 2;
            char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
        }
        'u' => {
            let mut h = String::new();
            while let Some(x) = c.get(*i) {
                *i += 1;
                match x {
                    '{' | '_' => {}
                    '}' => break,
                    x => h.push(*x),
                }
            }
            char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
        }
        x => x,
    })
}

fn number(s: &str) -> Option<u64> {
    let s: String = s.chars().filter(|c| *c != '_').collect();
    let (base, s) = match s.get(..2) {
        Some("0x") => (16, &s[2..]),
        Some("0b") => (2, &s[2..]),
        Some("0o") => (8, &s[2..]),
        _ => (10, &s[..]),
    };
    let end = s.find(|c: char| !c.is_digit(base)).unwrap_or(s.len());
    u64::from_str_radix(&s[..end], base).ok()
}

fn scan(text: &str, f: &mut Found) {
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    // number before, operator after it
    let mut last: Option<u64> = None;
    let mut op = String::new();
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
        } else if x == '/' && at(i + 1) == '*' {
            let mut depth = 1;
            i += 2;
            while i < c.len() && depth > 0 {
                if at(i) == '/' && at(i + 1) == '*' {
                    depth += 1;
                    i += 1;
                } else if at(i) == '*' && at(i + 1) == '/' {
                    depth -= 1;
                    i += 1;
                }
                i += 1;
            }
        } else if x == 'r' && (at(i + 1) == '"' || at(i + 1) == '#') && !(i > 0 && (c[i - 1].is_alphanumeric() && c[i - 1] != 'b')) {
            let mut n = 0;
            let mut k = i + 1;
            while at(k) == '#' {
                n += 1;
                k += 1;
            }
            if at(k) != '"' {
                i += 1;
                continue;
            }
            k += 1;
            let mut s = String::new();
            while k < c.len() && !(c[k] == '"' && (0..n).all(|j| at(k + 1 + j) == '#')) {
                s.push(c[k]);
                k += 1;
            }
            f.words.insert(s);
            i = k + 1 + n;
            last = None;
        } else if x == '"' {
            i += 1;
            let mut s = String::new();
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    if at(i) == '\n' {
                        while at(i).is_whitespace() && i < c.len() {
                            i += 1
                        }
                        continue;
                    }
                    if let Some(x) = escape(&c, &mut i) {
                        s.push(x)
                    }
                } else {
                    s.push(c[i]);
                    i += 1;
                }
            }
            i += 1;
            f.words.insert(s);
            last = None;
        } else if x == '\'' {
            // a character or a lifetime
            if at(i + 1) == '\\' {
                i += 2;
                if let Some(x) = escape(&c, &mut i) {
                    f.words.insert(x.to_string());
                }
                while i < c.len() && c[i] != '\'' {
                    i += 1
                }
                i += 1;
            } else if at(i + 2) == '\'' {
                f.words.insert(at(i + 1).to_string());
                i += 3;
            } else {
                i += 1;
            }
            last = None;
        } else if x.is_alphabetic() || x == '_' {
            let from = i;
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1
            }
            let word: String = c[from..i].iter().collect();
            if at(i) != '"' && !matches!(word.as_str(), "as" | "usize" | "u64" | "u32" | "u128" | "u8" | "u16") {
                last = None;
            }
        } else if x.is_ascii_digit() {
            let from = i;
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1
            }
            if let Some(n) = number(&c[from..i].iter().collect::<String>()) {
                f.nums.insert(n);
                if let Some(a) = last {
                    let made = match op.as_str() {
                        "<<" if n < 64 => a.checked_shl(n as u32),
                        "*" => a.checked_mul(n),
                        "+" => a.checked_add(n),
                        "-" => a.checked_sub(n),
                        _ => None,
                    };
                    f.nums.extend(made);
                    last = made;
                } else {
                    last = Some(n);
                }
                op.clear();
            }
        } else {
            if !x.is_whitespace() {
                op.push(x);
                if matches!(x, ';' | '{' | '}' | ',') {
                    last = None;
                    op.clear();
                }
            }
            i += 1;
        }
    }
}

fn files(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let mut all: Vec<_> = fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    all.sort();
    for p in all {
        if p.is_dir() {
            files(&p, out)
        } else if p.extension().is_some_and(|e| e == "rs") && p.file_stem().is_some_and(|s| s != "tests") {
            out.push(p)
        }
    }
}

fn main() {
    let src = Path::new("/repo/src");
    println!("cargo:rerun-if-changed={}", src.display());
    println!("cargo:rerun-if-changed=literals.txt");
    let mut f = Found::default();
    let mut paths = vec![];
    files(src, &mut paths);
    for p in paths {
        println!("cargo:rerun-if-changed={}", p.display());
        if let Ok(text) = fs::read_to_string(&p) {
            scan(&text, &mut f);
        }
    }
    // texts of messages are no names
    f.words.retain(|w| !w.is_empty() && w.len() <= 48 && !(w.contains('{') && w.len() > 2) && w.matches(' ').count() <= 2);
    let known = fs::read_to_string("literals.txt").unwrap_or_default();
    let known: BTreeSet<&str> = known.lines().collect();
    let mut out: BTreeMap<&str, String> = BTreeMap::new();
    let mut list = String::new();
    for w in &f.words {
        let line = format!("{w:?}");
        list += &format!("{line}\n");
        let to = if known.contains(line.as_str()) { "WORDS" } else { "NEW_WORDS" };
        *out.entry(to).or_default() += &format!("{line}, ");
    }
    for n in &f.nums {
        let line = n.to_string();
        list += &format!("{line}\n");
        if !known.contains(line.as_str()) {
            *out.entry("NEW_NUMS").or_default() += &format!("{line}, ");
        }
    }
    let mut code = String::new();
    for (name, ty) in [("WORDS", "&str"), ("NEW_WORDS", "&str"), ("NEW_NUMS", "u64")] {
        code += &format!("pub static {name}: &[{ty}] = &[{}];\n", out.get(name).cloned().unwrap_or_default());
    }
    let dir = env::var("OUT_DIR").unwrap();
    fs::write(Path::new(&dir).join("dict.rs"), code).unwrap();
    fs::write(Path::new(&dir).join("literals.txt"), list).unwrap();
}
