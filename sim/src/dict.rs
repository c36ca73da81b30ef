//! Numbers worth trying: the integer literals of the code under test, as a
//! fuzzer's dictionary.  They only steer what is generated, never what is
//! expected.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

static NUMBERS: OnceLock<Vec<u64>> = OnceLock::new();

pub fn numbers() -> &'static [u64] {
    NUMBERS.get_or_init(|| {
        let root = std::env::var("RTPS_DST_SRC").unwrap_or_else(|_| "/repo/src".into());
        let mut set: BTreeSet<u64> = [1, 2, 4, 16, 64, 100, 256, 1000].into_iter().collect();
        walk(Path::new(&root), &mut set);
        set.into_iter().collect()
    })
}

fn walk(dir: &Path, set: &mut BTreeSet<u64>) {
    let Ok(entries) = std::fs::read_dir(dir) else {
        return;
    };
    for e in entries.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, set);
        } else if p.extension().is_some_and(|x| x == "rs") {
            if let Ok(text) = std::fs::read_to_string(&p) {
                literals(&text, set);
            }
        }
    }
}

fn literals(text: &str, set: &mut BTreeSet<u64>) {
    let mut lines = text.lines().peekable();
    let mut previous: Option<(u64, bool)>;
    while let Some(line) = lines.next() {
        if line.trim() == "#[cfg(test)]" && lines.peek().is_some_and(|l| l.contains("mod tests")) {
            return;
        }
        let code = line.split("//").next().unwrap_or("");
        let b = code.as_bytes();
        let mut i = 0;
        previous = None;
        while i < b.len() {
            let inside = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
            if !b[i].is_ascii_digit() || inside {
                if let Some((v, _)) = previous {
                    // A shift by the literal that follows.
                    if b[i..].starts_with(b"<<") {
                        previous = Some((v, true));
                        i += 2;
                        continue;
                    }
                }
                if b[i] != b' ' {
                    previous = None;
                }
                i += 1;
                continue;
            }
            let start = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            if let Some(v) = number(&code[start..i]) {
                set.insert(v);
                if let Some((base, true)) = previous {
                    if v < 64 {
                        set.insert(base << v);
                    }
                }
                previous = Some((v, false));
            }
        }
    }
}

fn number(token: &str) -> Option<u64> {
    let mut t: String = token.chars().filter(|c| *c != '_').collect();
    for suffix in [
        "usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8",
    ] {
        if let Some(s) = t.strip_suffix(suffix) {
            t = s.to_string();
            break;
        }
    }
    if let Some(h) = t.strip_prefix("0x") {
        u64::from_str_radix(h, 16).ok()
    } else if let Some(h) = t.strip_prefix("0b") {
        u64::from_str_radix(h, 2).ok()
    } else {
        t.parse().ok()
    }
}
