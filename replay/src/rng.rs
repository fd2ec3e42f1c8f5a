//! A small deterministic generator; every random choice of a search comes from here.

pub struct Rng(u64);

/// Literals of the source text that the pinned tree does not have.
#[derive(Default)]
struct Words {
    texts: Vec<String>,
    numbers: Vec<u64>,
}

fn words() -> &'static Words {
    static W: std::sync::OnceLock<Words> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let text = std::env::var("VX_WORDS").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
        Words {
            texts: v["texts"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(|s| s.to_string())).collect(),
            numbers: v["numbers"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).collect(),
        }
    })
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..8 {
            r.next();
        }
        r
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    /// 0 <= result < n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }

    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }

    /// Now and then a text that only the changed source mentions, or one made with it.
    pub fn word(&mut self) -> Option<String> {
        let w = words();
        if w.texts.is_empty() || !self.chance(25) {
            return None;
        }
        let a = self.pick(&w.texts).clone();
        let c = (b'a' + self.below(26) as u8) as char;
        Some(match self.below(8) {
            0..=2 => a,
            3 => format!("{a}{c}"),
            4 => format!("{c}{a}"),
            5 => format!("{c}{a}{c}"),
            6 => format!("{a}{}", self.pick(&w.texts)),
            _ => format!("{a}/{c}"),
        })
    }

    /// Now and then a number that only the changed source mentions, or one next to it.
    pub fn number(&mut self, max: usize) -> Option<usize> {
        let w = words();
        if w.numbers.is_empty() || !self.chance(25) {
            return None;
        }
        let a = *self.pick(&w.numbers) as usize;
        let b = match self.below(8) {
            0..=2 => a,
            3 => a.saturating_add(1),
            4 => a.saturating_sub(1),
            5 => a.saturating_sub(self.below(12)),
            6 => a.saturating_add(self.below(12)),
            _ => a.saturating_mul(self.range(2, 3)),
        };
        if b <= max { Some(b) } else { None }
    }

    pub fn u16(&mut self) -> u16 {
        if let Some(n) = self.number(65535) {
            return n as u16;
        }
        match self.below(6) {
            0 => *self.pick(&[0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535]),
            1 => self.below(300) as u16,
            _ => self.next() as u16,
        }
    }
}

/// A text that a careless comparison could take for the given one.
pub fn near(r: &mut Rng, s: &str) -> String {
    let last = s.chars().last();
    if let Some(w) = r.word() {
        return match r.below(3) {
            0 => w,
            1 => format!("{w}{s}"),
            _ => format!("{s}{w}"),
        };
    }
    match r.below(16) {
        0 => format!("{s} "),
        1 => format!(" {s}"),
        2 => s.to_uppercase(),
        3 => s.to_lowercase(),
        4 => format!("{s}{}", last.unwrap_or('x')),
        5 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
        6 => s.chars().skip(1).collect(),
        7 => s.chars().rev().collect(),
        8 => format!("{s}\t"),
        9 => format!("\u{feff}{s}"),
        10 => format!("{s}{}", "x".repeat(*r.pick(&[1, 60, 64, 128, 255, 300]))),
        11 => format!("{}{s}", "x".repeat(*r.pick(&[1, 23, 60, 64, 128, 255, 300]))),
        12 => s.replace('é', "e\u{301}").replace('u', "ü"),
        13 => format!("${s}"),
        14 => format!("{s}0"),
        _ => format!("0{s}"),
    }
}
