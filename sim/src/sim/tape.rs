//! The tape of choices.  Filled from a seed in search, read back in replay.
use super::mix;

pub const TAPE_CAP: usize = 1 << 19;

pub struct Tape {
    rng: Option<u64>,
    input: Vec<u32>,
    pos: usize,
    pub out: Vec<u32>,
    /// Mirror that survives the death of the process.
    mirror: Option<(*mut u32, *mut u32)>,
}

impl Tape {
    pub fn seeded(seed: u64) -> Tape {
        Tape { rng: Some(seed), input: Vec::new(), pos: 0, out: Vec::with_capacity(4096), mirror: None }
    }
    pub fn replay(input: Vec<u32>) -> Tape {
        Tape { rng: None, input, pos: 0, out: Vec::with_capacity(4096), mirror: None }
    }
    /// `len` and `data` live in shared memory.
    pub fn mirror(mut self, len: *mut u32, data: *mut u32) -> Tape {
        unsafe { *len = 0 };
        self.mirror = Some((len, data));
        self
    }
    fn push(&mut self, v: u32) {
        if let Some((len, data)) = self.mirror {
            unsafe {
                let n = *len as usize;
                if n < TAPE_CAP {
                    *data.add(n) = v;
                    *len = (n + 1) as u32;
                }
            }
        } else {
            self.out.push(v);
        }
    }
    /// Uniform in 0..n.
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match self.rng {
            Some(ref mut s) => {
                *s = s.wrapping_add(0x9e3779b97f4a7c15);
                ((mix(*s) >> 32) * n as u64 >> 32) as u32
            }
            None => {
                let v = self.input.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if v < n {
                    v
                } else {
                    v % n
                }
            }
        };
        self.push(v);
        v
    }
    pub fn draw_raw(&mut self) -> u32 {
        self.draw(u32::MAX)
    }
    /// True with probability num/den; 0 on the tape is false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.draw(den) >= den - num
    }
    /// Index by weight; 0 on the tape is the first.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in ws.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        ws.len() - 1
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1)
    }
}
