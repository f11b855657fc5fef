//! Offline stand-in for the part of sha3 that evmrs uses.
pub trait Digest {
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn finalize_into(self, out: &mut [u8; 32]);
}

#[derive(Clone)]
pub struct Keccak256 {
    s: [u64; 25],
    n: usize,
}

const RATE: usize = 136;
const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b,
    0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088,
    0x0000000080008009, 0x000000008000000a, 0x000000008000808b, 0x800000000000008b, 0x8000000000008089,
    0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
    0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];

fn permute(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let (mut x, mut y, mut cur) = (1, 0, a[1]);
        for t in 0..24u32 {
            (x, y) = (y, (2 * x + 3 * y) % 5);
            let next = a[x + 5 * y];
            a[x + 5 * y] = cur.rotate_left((t + 1) * (t + 2) / 2 % 64);
            cur = next;
        }
        for y in 0..5 {
            let row = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[x + 5 * y] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}

impl Keccak256 {
    fn put(&mut self, i: usize, b: u8) {
        self.s[i / 8] ^= (b as u64) << (8 * (i % 8));
    }
}

impl Digest for Keccak256 {
    fn new() -> Self {
        Self { s: [0; 25], n: 0 }
    }
    fn update(&mut self, data: impl AsRef<[u8]>) {
        for &b in data.as_ref() {
            self.put(self.n, b);
            self.n += 1;
            if self.n == RATE {
                permute(&mut self.s);
                self.n = 0;
            }
        }
    }
    fn finalize_into(mut self, out: &mut [u8; 32]) {
        self.put(self.n, 0x01);
        self.put(RATE - 1, 0x80);
        permute(&mut self.s);
        for (i, o) in out.iter_mut().enumerate() {
            *o = (self.s[i / 8] >> (8 * (i % 8))) as u8;
        }
    }
}
