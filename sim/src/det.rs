//! Process-wide determinism: the only entropy source the standard library uses (hash-map keys)
//! is interposed and, on a simulated thread, answers from the run's seed.
use std::cell::RefCell;

thread_local! {
    static ENTROPY: RefCell<Option<(u64, u64)>> = const { RefCell::new(None) };
}

/// Splitmix64 finaliser.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.rotate_left(17))
}

pub fn mix3(a: u64, b: u64, c: u64) -> u64 {
    mix2(mix2(a, b), c)
}

pub fn seed_thread(seed: u64) {
    ENTROPY.with(|e| *e.borrow_mut() = Some((seed, 0)));
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(
    buf: *mut libc::c_void,
    len: libc::size_t,
    flags: libc::c_uint,
) -> libc::ssize_t {
    let seeded = ENTROPY
        .try_with(|e| {
            if let Ok(mut e) = e.try_borrow_mut() {
                if let Some((seed, ctr)) = e.as_mut() {
                    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
                    for chunk in out.chunks_mut(8) {
                        let v = mix2(*seed, *ctr).to_le_bytes();
                        *ctr += 1;
                        chunk.copy_from_slice(&v[..chunk.len()]);
                    }
                    return true;
                }
            }
            false
        })
        .unwrap_or(false);
    if seeded {
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
}

/// Small deterministic generator used for plans, schedules and fault decisions.
#[derive(Clone, Debug)]
pub struct Prng(u64, u64);

impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(mix(seed), 0)
    }
    pub fn u64(&mut self) -> u64 {
        self.1 += 1;
        mix2(self.0, self.1)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.usize(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for c in o.chunks_mut(8) {
            c.copy_from_slice(&self.u64().to_le_bytes());
        }
        o
    }
    /// Weighted choice: index into `ws`.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut x = self.below(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if x < *w as u64 {
                return i;
            }
            x -= *w as u64;
        }
        ws.len() - 1
    }
}
