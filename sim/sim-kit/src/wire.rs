//! Sequences of bytes that identify themselves.

/// The byte at a position of the numbered stream.
pub fn byte_at(stream: u64, position: u64) -> u8 {
    let x = (stream.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ position.wrapping_mul(0xc2b2_ae3d_27d4_eb4f)).wrapping_mul(0x1656_67b1_9e37_79f9);
    (x >> 56) as u8
}

pub fn bytes(stream: u64, from: u64, n: usize) -> Vec<u8> {
    (0..n as u64).map(|i| byte_at(stream, from + i)).collect()
}
