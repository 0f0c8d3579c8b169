//! Small deterministic random number generator (splitmix64) and string generators.

#[derive(Clone)]
///The state, and how rare strings of many thousands of bytes are (0: there are none)
pub struct Rng(pub u64, pub usize);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03) ^ 0xA5A5_5A5A_1234_5678, 0);
        r.next(); r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    ///0 <= result < n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    ///a <= result <= b
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    ///true with probability num/den
    pub fn p(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }

    pub fn word(&mut self) -> String {
        const W: &[&str] = &["huis", "de", "kat", "loopt", "snel", "N", "VNW", "bank", "zat", "op", "mat", "alpha", "beta", "x", "Été", "naïf", "漢字", "über", "😀", "e\u{301}", "мир", "a1", "foo_bar", "per:son", "q.r"];
        let w = self.pick(W).to_string();
        if self.1 > 0 && self.p(1, 2 * self.1) { self.long(w) } else { w }
    }
    ///Arbitrary text made of characters XML can represent, with a bias to troublesome ones
    pub fn text(&mut self) -> String {
        if self.1 > 0 && self.p(1, self.1) { let w = self.word(); return self.long(w); }
        let n = match self.below(10) { 0 => 1, 1..=6 => self.range(1, 4), 7..=8 => self.range(2, 9), _ => self.range(5, 30) };
        let mut s = String::new();
        for _ in 0..n {
            match self.below(14) {
                0..=5 => s.push_str(&self.word()),
                6 => s.push(' '),
                7 => s.push_str(*self.pick(&["  ", " \n ", "\t", "\n", "\r", "\r\n", "\u{a0}", "\u{2028}", "\u{85}", "\u{3000}", "\u{200b}"])),
                8 | 9 => s.push_str(*self.pick(&["<", ">", "&", "\"", "'", "]]>", "&amp;", "&lt;", "&#65;", "--", "<!--", "-->", "<![CDATA[", "</w>", "<?x?>", "%", ";", "=", "{}", "\\n", "\\"])),
                10 => { let c = self.next() as u32; s.push(xmlchar(c)); }
                11 => s.push(char::from(b'a' + self.below(26) as u8)),
                12 => s.push(char::from(b'0' + self.below(10) as u8)),
                _ => s.push(char::from(0x20 + self.below(0x5f) as u8)),
            }
        }
        s
    }
    ///A string as long as buffers and small counters are, or just longer or shorter (in bytes)
    fn long(&mut self, unit: String) -> String {
        let n = match self.below(4) {
            0 => *self.pick(&[255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65535, 65536]) + self.below(3),
            1 => 65530 + self.below(12),
            2 => self.range(200, 20000),
            _ => self.range(60000, 140000),
        };
        let mut s = unit.repeat(1 + n / unit.len());
        let mut end = n.min(s.len());
        while !s.is_char_boundary(end) { end -= 1; }
        s.truncate(end);
        while s.len() < n { s.push('z'); }
        s.push_str(*self.pick(&["x", "y", "é", "0"]));
        s
    }
    ///Text as attribute value, short
    pub fn attr(&mut self) -> String { if self.p(1, 12) { String::new() } else if self.p(1, 2) { self.word() } else { self.text() } }
    ///An identifier (NCName)
    pub fn ncname(&mut self, n: usize) -> String {
        const P: &[&str] = &["w", "s.", "p_", "doc.", "é", "X-", "_a", "漢"];
        format!("{}{}", self.pick(P), n)
    }
    ///A string that is easily confused with the given one, but is another
    pub fn near(&mut self, s: &str) -> String {
        let chars: Vec<char> = s.chars().collect();
        let out = match self.below(22) {
            20 => format!("{}{}{}", s, "abcdefghij".repeat(*self.pick(&[3, 7, 13, 26, 30])), self.pick(&["x", "y"])),
            21 => format!("{}{}", "abcdefghij".repeat(*self.pick(&[3, 7, 13, 26, 30])), s),
            0 => format!("{} ", s),
            1 => format!(" {}", s),
            2 => s.to_uppercase(),
            3 => s.to_lowercase(),
            4 => chars.iter().map(|c| if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() }).collect(),
            5 => chars.iter().take(chars.len().saturating_sub(1)).collect(),
            6 => chars.iter().skip(1).collect(),
            7 => format!("{}{}", s, self.pick(&["/", "/x", "/current", "#a", "?q", ":", ".", "-", "_", "0", ".1", "\u{301}", "\u{200b}", "\u{a0}"])),
            8 => format!("{}{}", self.pick(&["/", "#", "_", "0", "\u{feff}", "http://", "https://", "x:"]), s),
            9 => s.replace('\u{e9}', "e\u{301}").replace("e\u{301}", "\u{e9}"),
            10 => if s.contains("e\u{301}") { s.replace("e\u{301}", "\u{e9}") } else { s.replace('\u{e9}', "e\u{301}") },
            11 => s.replace("https:", "http:"),
            12 => format!("{}{}", s, s),
            13 => chars.iter().rev().collect(),
            14 => s.replace(' ', "_"),
            15 => format!("{}\n", s),
            16 => s.replace('/', "%2F"),
            17 => s.replace(|c: char| !c.is_alphanumeric(), ""),
            18 => format!("\t{}", s),
            _ => { let mut c = chars.clone(); if c.len() > 1 { let i = self.below(c.len() - 1); c.swap(i, i + 1); } c.into_iter().collect() }
        };
        if out == s { format!("{}{}", s, self.pick(&[" ", "x", "1"])) } else { out }
    }
    pub fn comment(&mut self) -> String {
        let mut s = if self.p(1, 8) { "  ".to_string() } else { self.text() };
        s = s.replace('\r', "\n");
        while s.contains("--") { s = s.replace("--", "-+"); }
        if s.ends_with('-') { s.push('x'); }
        if self.p(1, 3) { s = format!(" {} ", s); }
        s
    }
    pub fn datetime(&mut self) -> String {
        let leap = |y: usize| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let y = if self.p(1, 8) { *self.pick(&[1, 999, 1600, 1900, 2000, 2100, 9999]) } else { self.range(1970, 2050) };
        let m = self.range(1, 12);
        let dmax = match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 };
        let d = if self.p(1, 4) { dmax } else { self.range(1, dmax) };
        let (h, mi, s) = if self.p(1, 4) { *self.pick(&[(0, 0, 0), (23, 59, 59), (12, 0, 0), (0, 0, 59)]) } else { (self.range(0, 23), self.range(0, 59), self.range(0, 59)) };
        format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", y, m, d, h, mi, s)
    }
    pub fn confidence(&mut self) -> String {
        match self.below(6) {
            0 => "0".into(), 1 => "1".into(), 2 => "1.0".into(),
            3 => format!("{}", (self.next() >> 11) as f64 / (1u64 << 53) as f64),
            4 => format!("0.{}", self.below(100000)),
            _ => self.pick(&["0.5", "1e-3", "0.1", "0.30000000000000004", "1e-300", "0.9999999999999999", ".5", "5e-324"]).to_string(),
        }
    }
}

///Maps a number onto a character that XML 1.0 allows
pub fn xmlchar(c: u32) -> char {
    let c = match c % 8 { 0 => c % 0x110000, 1 => c % 0x10000, 2 | 3 => 0x80 + c % 0x780, _ => 0x20 + c % 0x5f };
    match char::from_u32(c) {
        Some(c) if is_xmlchar(c) => c,
        _ => 'z',
    }
}

pub fn is_xmlchar(c: char) -> bool {
    match c as u32 { 0x9 | 0xA | 0xD => true, 0..=0x1F => false, 0xFFFE | 0xFFFF => false, _ => true }
}

pub fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}
