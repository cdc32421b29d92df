pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = if h == 0 { 0xcbf29ce484222325 } else { h };
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    for x in it.remainder() {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (b.len() as u64).wrapping_mul(0xff51afd7ed558ccd)
}
