pub fn keccak_f(a: &mut [u64; 25]) {
    const RC: [u64; 24] = [
        0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001, 0x8000000080008081,
        0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a, 0x000000008000808b, 0x800000000000008b,
        0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a, 0x8000000080008081,
        0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
    ];
    const ROTC: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
    const PIL: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
    for rc in RC {
        let mut bc = [0u64; 5];
        for i in 0..5 {
            bc[i] = a[i] ^ a[i + 5] ^ a[i + 10] ^ a[i + 15] ^ a[i + 20];
        }
        for i in 0..5 {
            let t = bc[(i + 4) % 5] ^ bc[(i + 1) % 5].rotate_left(1);
            for j in 0..5 {
                a[j * 5 + i] ^= t;
            }
        }
        let mut t = a[1];
        for i in 0..24 {
            let j = PIL[i];
            let b = a[j];
            a[j] = t.rotate_left(ROTC[i]);
            t = b;
        }
        for j in 0..5 {
            let r = [a[j * 5], a[j * 5 + 1], a[j * 5 + 2], a[j * 5 + 3], a[j * 5 + 4]];
            for i in 0..5 {
                a[j * 5 + i] = r[i] ^ (!r[(i + 1) % 5] & r[(i + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}
