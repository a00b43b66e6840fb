//! The environment of the samplers: a source of randomness whose every answer is decided by
//! the explorer. A script lists the words to be delivered; reads beyond it are answered from a
//! fixed benign stream, so that every execution runs to completion.
use probability::source::Source;

pub const CAP: usize = 4096;
pub const CAP_MSG: &str = "still reading after the horizon";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Benign {
    /// Words that every layer of a rejection sampler should accept at once: a small standard
    /// normal deviate when read as an integer, about one half when read as a float.
    Mild,
    /// A Weyl sequence, the words of which spread over all residues.
    Weyl(u64),
    /// Words that lead to rejections first, then mild ones.
    Reject,
    /// Mild words, except that the first two floats read after the script are this number (bits).
    Split(u64),
}

impl Benign {
    #[inline(always)]
    pub fn word(self, pos: usize) -> u64 {
        match self {
            Benign::Reject => {
                let k = pos as u64;
                match k % 5 {
                    0 => ((k.wrapping_mul(0x9E37_79B9) & 0xFFFF_FFFF) << 32) | (0xFFFF00 + k % 200) << 8 | (k * 37) % 256,
                    1 => u64::MAX - (k << 40),
                    _ => Benign::Mild.word(pos),
                }
            }
            Benign::Mild | Benign::Split(_) => {
                let k = pos as u64;
                // layer 10 + k % 16, alternating signs, j of about 2^21
                let low = (10 + (k * 7) % 16) | ((k & 1) << 7) | ((0x200000 + 0x3001 * (k % 64)) << 8);
                let high = 0x7000_0000u64 + 0x0123_4567 * (k % 8);
                (high << 32) | low
            }
            Benign::Weyl(seed) => {
                let mut z = (pos as u64 + 1 + seed).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z ^ (z >> 31)
            }
        }
    }
}

/// What one execution consumed.
pub struct Script<'a> {
    words: &'a [u64],
    benign: Benign,
    /// number of words read
    pub pos: usize,
    /// number of integers among them
    pub ints: u32,
    /// bit k: read k was a float (first 64 reads)
    pub kinds: u64,
    split: u32,
    /// the words of the script that are read as floats are representations of floats
    pub native: bool,
}

impl<'a> Script<'a> {
    #[inline(always)]
    pub fn new(words: &'a [u64], benign: Benign) -> Self {
        Script { words, benign, pos: 0, ints: 0, kinds: 0, split: 0, native: false }
    }
    /// The source that has already delivered the first `pos` words of a stream.
    pub fn at(benign: Benign, pos: usize) -> Script<'static> {
        Script { words: &[], benign, pos, ints: 0, kinds: 0, split: 0, native: false }
    }
    #[inline(always)]
    fn next(&mut self, float: bool) -> u64 {
        let k = self.pos;
        if k >= self.words.len() + CAP {
            panic!("{}", CAP_MSG);
        }
        self.pos = k + 1;
        if float {
            if k < 64 {
                self.kinds |= 1 << k;
            }
        } else {
            self.ints += 1;
        }
        if k < self.words.len() {
            self.words[k]
        } else {
            if let (Benign::Split(u), true) = (self.benign, float) {
                self.split += 1;
                if self.split <= 2 {
                    return of_unit(f64::from_bits(u));
                }
            }
            self.benign.word(k)
        }
    }
    pub fn is_float(&self, k: usize) -> bool {
        self.kinds >> k & 1 == 1
    }
}

impl<'a> Source for Script<'a> {
    #[inline(always)]
    fn read_u64(&mut self) -> u64 {
        self.next(false)
    }
    #[inline(always)]
    fn read_f64(&mut self) -> f64 {
        let scripted = self.pos < self.words.len();
        let word = self.next(true);
        if self.native && scripted {
            f64::from_bits(word)
        } else {
            to_unit(word)
        }
    }
}

/// The float a word is read as.
#[inline(always)]
pub fn to_unit(w: u64) -> f64 {
    w as f64 / u64::MAX as f64
}

/// A word that is read as the float closest to u in [0, 1].
pub fn of_unit(u: f64) -> u64 {
    if u >= 1.0 {
        u64::MAX
    } else {
        (u * 18446744073709551616.0) as u64
    }
}

pub fn show(words: &[u64]) -> String {
    let v: Vec<String> = words.iter().map(|w| format!("{:#x}", w)).collect();
    format!("[{}]", v.join(","))
}
