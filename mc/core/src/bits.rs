//! A growable bit list (most significant bit first).
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Bits {
    data: Vec<u8>,
    len: usize,
}

impl Bits {
    pub fn new() -> Bits {
        Bits::default()
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn push(&mut self, b: bool) {
        if self.len % 8 == 0 {
            self.data.push(0);
        }
        if b {
            *self.data.last_mut().unwrap() |= 0x80 >> (self.len % 8);
        }
        self.len += 1;
    }
    /// The n low bits of v, most significant first.
    pub fn push_bits(&mut self, v: u128, n: usize) {
        for i in (0..n).rev() {
            self.push((v >> i) & 1 == 1);
        }
    }
    pub fn push_bytes(&mut self, b: &[u8]) {
        if self.len % 8 == 0 {
            self.data.extend_from_slice(b);
            self.len += 8 * b.len();
        } else {
            for x in b {
                self.push_bits(*x as u128, 8);
            }
        }
    }
    pub fn append(&mut self, o: &Bits) {
        for i in 0..o.len {
            self.push(o.get(i));
        }
    }
    pub fn get(&self, i: usize) -> bool {
        assert!(i < self.len);
        self.data[i / 8] & (0x80 >> (i % 8)) != 0
    }
    pub fn set(&mut self, i: usize, b: bool) {
        assert!(i < self.len);
        if b {
            self.data[i / 8] |= 0x80 >> (i % 8);
        } else {
            self.data[i / 8] &= !(0x80 >> (i % 8));
        }
    }
    pub fn get_bits(&self, at: usize, n: usize) -> Option<u128> {
        if at + n > self.len {
            return None;
        }
        let mut v = 0u128;
        for i in at..at + n {
            v = v << 1 | self.get(i) as u128;
        }
        Some(v)
    }
    /// Zero-padded to a byte boundary.
    pub fn bytes(&self) -> &[u8] {
        &self.data
    }
    pub fn from_bytes(b: &[u8]) -> Bits {
        Bits { data: b.to_vec(), len: 8 * b.len() }
    }
    pub fn slice(&self, a: usize, b: usize) -> Bits {
        let mut r = Bits::new();
        for i in a..b {
            r.push(self.get(i));
        }
        r
    }
    pub fn align(&mut self, n: usize) {
        if n > 0 {
            while self.len % n != 0 {
                self.push(false);
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 48 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}
