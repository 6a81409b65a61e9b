//! Dictionary of literals of the crate under test (see `build.rs`).
use crate::rng::Rng;

include!(concat!(env!("OUT_DIR"), "/dict.rs"));

/// Sometimes a text that the code mentions.
pub fn word(r: &mut Rng) -> Option<&'static str> {
    if !NEW_WORDS.is_empty() && r.chance(1, 7) {
        return Some(r.pick(NEW_WORDS));
    }
    if !WORDS.is_empty() && r.chance(1, 25) {
        return Some(r.pick(WORDS));
    }
    if r.chance(1, 25) {
        return Some(odd(r));
    }
    None
}

/// A text of any characters: of one to four bytes, first, last and in between, of any length up to 300 bytes.
pub fn odd(r: &mut Rng) -> &'static str {
    static ALL: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let all = ALL.get_or_init(|| {
        const CHARS: [&str; 34] = [
            "a", "Z", "0", " ", ":", ",", ".", "<", ">", "(", ")", "{", "}", "{}", "%", "\\", "\"", "'", "/", "_", "\u{e9}", "\u{df}", "\u{130}", "\u{301}",
            "\u{5d0}", "\u{200f}", "\u{2019}", "\u{20ac}", "\u{ff21}", "\u{feff}", "\u{1f600}", "\u{10ffff}", "::", "--",
        ];
        let mut r = Rng::new(77);
        let mut all: Vec<String> = CHARS.iter().map(|c| c.to_string()).collect();
        for i in 0..500 {
            let n = match i % 8 {
                0 => 1 + r.idx(3),
                1 => 1 + r.idx(70),
                _ => 1 + r.idx(14),
            };
            // plain or wide ones mostly, so that each place is met by each
            let wide = i % 3;
            all.push(
                (0..n)
                    .map(|k| match wide {
                        0 if k + 1 < n => r.pick(&CHARS[..20]),
                        0 => r.pick(&CHARS[20..32]),
                        1 if k > 0 => r.pick(&CHARS[..20]),
                        1 => r.pick(&CHARS[20..32]),
                        _ => r.pick(&CHARS),
                    })
                    .collect(),
            );
        }
        all
    });
    &all[r.idx(all.len())]
}

/// Sometimes a text around one that the code mentions.
pub fn about(r: &mut Rng) -> Option<String> {
    let w = word(r)?;
    Some(match r.below(6) {
        0 => format!("{w}T>"),
        1 => format!("x{w}"),
        2 => format!("{w} x"),
        _ => w.to_string(),
    })
}

/// Sometimes a number that the code newly mentions, or one next to it.
pub fn num(r: &mut Rng, lo: u64, hi: u64) -> Option<u64> {
    if NEW_NUMS.is_empty() || !r.chance(1, 7) {
        return None;
    }
    let n = r.pick(NEW_NUMS);
    let n = match r.below(6) {
        0 => n.saturating_sub(1),
        1..=2 => n.saturating_add(1),
        3 => n.saturating_mul(2),
        _ => n,
    };
    (lo..=hi).contains(&n).then_some(n)
}

/// Sometimes an identifier of a type, but not one with a meaning of its own.
pub fn ident(r: &mut Rng) -> Option<String> {
    let w = about(r)?;
    let own = [
        "AccountId32", "Call", "RuntimeCall", "Event", "RuntimeEvent", "Era", "H160", "AccountId20", "H256", "H512", "MultiSignature", "PerU16",
        "Percent", "Permill", "Perbill", "Perquintill", "Public", "Signature", "UncheckedExtrinsic", "Lsb0", "Msb0",
    ];
    (!own.contains(&w.as_str())).then_some(w)
}
