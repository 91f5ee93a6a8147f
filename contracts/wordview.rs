// 32-bit words over an array of bytes (little-endian machine), addition modulo 2^32
#[verifier::opaque]
pub open spec fn add32(a: u32, b: u32) -> u32 { if a + b < 4294967296 { (a + b) as u32 } else { (a + b - 4294967296) as u32 } }
#[verifier::opaque]
pub open spec fn rotl(x: u32, s: u32) -> u32 { (x << s) | (x >> ((32 - s) as u32)) }
pub fn uadd_u32(a: u32, b: u32) -> (r: u32) ensures r == add32(a, b) { proof { reveal(add32); } a.wrapping_add(b) }
#[verifier::opaque]
pub open spec fn le32(b: Seq<u8>, i: int) -> u32 { (b[4 * i] as u32) | ((b[4 * i + 1] as u32) << 8) | ((b[4 * i + 2] as u32) << 16) | ((b[4 * i + 3] as u32) << 24) }
pub fn le32_get(b: &Vec<u8>, i: usize) -> (r: u32) requires 4 * i + 3 < b.len() ensures r == le32(b@, i as int)
{ proof { reveal(le32); } (b[4 * i] as u32) | ((b[4 * i + 1] as u32) << 8u32) | ((b[4 * i + 2] as u32) << 16u32) | ((b[4 * i + 3] as u32) << 24u32) }
pub open spec fn le_bytes(x: u32) -> Seq<u8> { seq![((x >> 0u32) & 0xff) as u8, ((x >> 8u32) & 0xff) as u8, ((x >> 16u32) & 0xff) as u8, ((x >> 24u32) & 0xff) as u8] }
pub fn le32_set(b: &mut Vec<u8>, i: usize, x: u32) requires 4 * i + 3 < old(b).len()
    ensures final(b).len() == old(b).len(), forall|k: int| 0 <= k < old(b).len() ==> #[trigger] final(b)@[k] == (if 4 * i <= k < 4 * i + 4 { le_bytes(x)[k - 4 * i] } else { old(b)@[k] }),
        le32(final(b)@, i as int) == x, forall|j: int| 0 <= j && j != i && 4 * j + 3 < old(b).len() ==> #[trigger] le32(final(b)@, j) == le32(old(b)@, j)
{
    b.set(4 * i, ((x >> 0u32) & 0xff) as u8); b.set(4 * i + 1, ((x >> 8u32) & 0xff) as u8);
    b.set(4 * i + 2, ((x >> 16u32) & 0xff) as u8); b.set(4 * i + 3, ((x >> 24u32) & 0xff) as u8);
    proof {
        reveal(le32);
        assert(((((x >> 0u32) & 0xff) as u8) as u32) | (((((x >> 8u32) & 0xff) as u8) as u32) << 8) | (((((x >> 16u32) & 0xff) as u8) as u32) << 16) | (((((x >> 24u32) & 0xff) as u8) as u32) << 24) == x) by(bit_vector);
    }
}
