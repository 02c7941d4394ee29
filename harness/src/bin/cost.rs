//! Work done by operations on large operands, for the instruction counter (C31). Run under callgrind with
//! --collect-atstart=no: only the operation itself is counted, one dump per operation.
//!   cost WORDS SEED
use ibig::ops::*;
use ibig::{IBig, UBig};
use mon::Rng;
use std::hint::black_box;

#[cfg(all(target_arch = "x86_64", not(miri)))]
unsafe fn request(code: usize, arg: usize) {
    let args = [code, arg, 0, 0, 0, 0];
    std::arch::asm!(
        "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
        in("rax") args.as_ptr(), inout("rdx") 0usize => _, options(nostack)
    );
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
unsafe fn request(_: usize, _: usize) {}

const BASE: usize = (b'C' as usize) << 24 | (b'T' as usize) << 16;
const TOGGLE: usize = BASE + 2;
const DUMP_AT: usize = BASE + 3;

fn measure<T>(name: &str, f: impl FnOnce() -> T) {
    let label = std::ffi::CString::new(name).unwrap();
    unsafe { request(TOGGLE, 0) };
    let x = f();
    unsafe {
        request(TOGGLE, 0);
        request(DUMP_AT, label.as_ptr() as usize);
    }
    black_box(&x);
    eprintln!("op {name}");
}

fn bytes(r: &mut Rng, words: usize, style: usize) -> Vec<u8> {
    let n = words * 8;
    let mut b: Vec<u8> = match style {
        0 => (0..n).map(|_| r.u32() as u8).collect(),
        1 => vec![255; n],
        _ => vec![0; n],
    };
    b[n - 1] |= 128;
    b[0] |= 1;
    b
}
fn u(r: &mut Rng, words: usize, style: usize) -> UBig {
    UBig::from_le_bytes(&bytes(r, words, style))
}

fn main() {
    mon::runner::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let n: usize = args[1].parse().unwrap();
    let seed: u64 = args[2].parse().unwrap();
    let style: usize = args[3].parse().unwrap();
    let part: usize = args[4].parse().unwrap();
    let r = &mut Rng::new(refmodel::rng::mix(&[seed, 31]));
    let st = ["random", "ones", "sparse"][style];
    let a = u(r, n, style);
    let b = u(r, n, style);
    // S: less than quadratic; L: linear
    macro_rules! m {
        ($k:literal $name:literal, $e:expr) => {
            measure(concat!($k, " ", $name), || $e)
        };
    }
    eprintln!("operands {st} of {n} words");
    if part == 0 {
        let half = u(r, n / 2 + 1, style);
        let third = u(r, n / 3 + 1, style);
        let nine = u(r, n / 9 + 1, style);
        m!("S" "n*n", &a * &b);
        m!("S" "square", &a * &a);
        m!("S" "n*n/2", &a * &half);
        m!("S" "n/3*n", &third * &a);
        m!("S" "n*n/9", &a * &nine);
        let few = u(r, n / 40 + 1, style);
        m!("S" "n/40*n", &few * &a);
        let mut c = a.clone();
        m!("S" "n*=n", c *= &b);
        let (ia, ib) = (-IBig::from(&a), IBig::from(&b));
        m!("S" "signed n*n", ia * ib);
        let k = u(r, n / 8 + 1, style);
        m!("S" "(n/8)^8", k.pow(8));
    } else if part == 1 {
        let two = &u(r, 2 * n, style) + &a;
        let three = u(r, 3 * n, 0);
        let more = u(r, n + n / 2, 0);
        m!("S" "2n/n", &two / &b);
        m!("S" "2n%n", &two % &b);
        m!("S" "2n div_rem n", (&two).div_rem(&a));
        m!("S" "3n/n", &three / &a);
        m!("S" "1.5n/n", &more / &a);
        let mut c = two.clone();
        m!("S" "2n/=n", c /= &a);
        let (i, j) = (-IBig::from(&two), IBig::from(&b));
        m!("S" "signed euclidean 2n/n", (&i).div_rem_euclid(&j));
    } else if part == 2 {
        m!("S" "decimal text", a.to_string());
        m!("S" "debug text", format!("{:?}", &b));
        m!("S" "text radix 36", b.in_radix(36).to_string());
    } else if part == 3 {
        let s = if style == 0 { a.to_string() } else { "9".repeat(n * 19) };
        m!("S" "parse decimal", s.parse::<UBig>());
        let z = if style == 2 { format!("-1{}", "0".repeat(n * 12)) } else { format!("-1{}", "2y".repeat(n * 6)) };
        m!("S" "parse radix 35", IBig::from_str_radix(&z, 35));
    } else {
        m!("L" "+", &a + &b);
        m!("L" "owned +", a.clone() + b.clone());
        let d = &a + &b;
        m!("L" "-", &d - &b);
        let mut c = a.clone();
        m!("L" "+=", c += &b);
        m!("L" "-=", c -= &b);
        m!("L" "+ 1", &a + 1u8);
        m!("L" "cmp", (a.cmp(&a.clone()), a == b));
        m!("L" "clone", a.clone());
        m!("L" "clone_from", c.clone_from(&b));
        m!("L" "&", &a & &b);
        m!("L" "|", &a | &b);
        m!("L" "^", &a ^ &b);
        m!("L" "and_not", (&a).and_not(&b));
        m!("L" "<<", &a << 77usize);
        m!("L" ">>", &a >> 77usize);
        m!("L" "<<=", c <<= 1usize);
        m!("L" ">>=", c >>= 65usize);
        // amounts as long as the operand
        m!("L" "<< n words", &a << (64 * n));
        m!("L" "owned << n words and a bit", b.clone() << (64 * n + 1));
        let w = &a << (64 * n + 5);
        m!("L" ">> n words", &w >> (64 * n));
        m!("L" "owned >> n words and a bit", w.clone() >> (64 * n + 6));
        m!("L" "signed << n words", (-IBig::from(&a)) << (64 * n));
        m!("L" "signed >> n words", (-IBig::from(&w)) >> (64 * n - 3));
        m!("L" "trailing zeros of a long tail", (w.trailing_zeros(), w.is_power_of_two()));
        m!("L" "power of two", UBig::from(2u8).pow(64 * n));
        m!("L" "1 << n words", UBig::from(1u8) << (64 * n));
        // amounts for which the result fits into the memory of the operand
        for k in [3usize, 16, 20] {
            let mut c = a.clone();
            measure(&format!("L <<= n/{k} words"), || c <<= 64 * (n / k));
            measure(&format!("L >>= n/{k} words"), || c >>= 64 * (n / k) + 9);
            measure(&format!("L owned >> n/{k} words"), || c >> (64 * (n / k)));
            measure(&format!("L owned << n/{k} words"), || b.clone() << (64 * (n / k) + 3));
            let mut c = -IBig::from(&b);
            measure(&format!("L signed <<= n/{k} words"), || c <<= 64 * (n / k) + 3);
        }
        // operands of different lengths, and each owner
        m!("L" "2n + n", &w + &a);
        m!("L" "n + 2n", a.clone() + &w);
        m!("L" "&2n - n", &w - a.clone());
        m!("L" "2n - &n", w.clone() - &a);
        m!("L" "signed n - 2n", IBig::from(&a) - IBig::from(&w));
        m!("L" "signed &n - 2n", &IBig::from(&a) - IBig::from(w.clone()));
        m!("L" "signed n - &2n", IBig::from(&a) - &IBig::from(&w));
        m!("L" "2n & n", &w & a.clone());
        m!("L" "2n | n", &a | w.clone());
        m!("L" "2n ^ n", a.clone() ^ &w);
        m!("L" "n and_not 2n", a.clone().and_not(&w));
        m!("L" "signed 2n & n", -IBig::from(&w) & IBig::from(&a));
        m!("L" "signed 2n | n", -IBig::from(&w) | -IBig::from(&a));
        m!("L" "signed n and_not 2n", (-IBig::from(&a)).and_not(-IBig::from(&w)));
        m!("L" "power of two minus 1", (UBig::from(1u8) << (64 * n)) - 1u8);
        m!("L" "ones + 1", ((UBig::from(1u8) << (64 * n)) - 1u8) + 1u8);
        m!("L" "-, nearly all cancels", (&a + 1u8) - &a);
        m!("L" "n mod word", &a % 1000003u32);
        m!("L" "word * n", 77u8 * b.clone());
        m!("L" "2n / n-1", (&w).div_rem(&w >> 40usize));
        m!("L" "n / 2n", (&a).div_rem(&w));
        m!("L" "n word division in place", { let mut q = a.clone(); q /= 10u8; q });
        m!("L" "signs", ((-IBig::from(&a)).abs(), (-IBig::from(&a)).unsigned_abs(), UBig::try_from(IBig::from(&a))));
        m!("L" "hash", { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); a.hash(&mut h); h.finish() });
        let by = [bytes(r, n, style), vec![0; 8 * n]].concat();
        m!("L" "from_le_bytes, padded", UBig::from_le_bytes(&by));
        let by = [vec![0; 8 * n], bytes(r, n, style)].concat();
        m!("L" "from_be_bytes, padded", UBig::from_be_bytes(&by));
        m!("L" "text radix 4", b.in_radix(4).to_string());
        let t = format!("+{}{:b}", "0".repeat(64 * n), b);
        m!("L" "parse binary with leading zeros", UBig::from_str_radix(&t, 2));
        let t = format!("-0x{:X}", b);
        m!("L" "parse with prefix", IBig::from_str_with_radix_prefix(&t));
        m!("L" "parse decimal zeros", "0".repeat(20 * n).parse::<UBig>());
        let t = serde_json::to_string(&b).unwrap();
        m!("L" "json", serde_json::to_string(&b).unwrap());
        m!("L" "from json", serde_json::from_str::<UBig>(&t).unwrap());
        m!("L" "clear_bit", c.clear_bit(n * 32));
        m!("L" "set_bit", c.set_bit(n * 70));
        m!("L" "bit queries", (a.bit(n * 20), a.bit_len(), a.trailing_zeros(), a.is_power_of_two()));
        m!("L" "next_power_of_two", a.clone().next_power_of_two());
        let (i, j) = (-IBig::from(&a), -IBig::from(&b));
        m!("L" "signed +", &i + IBig::from(&b));
        m!("L" "signed -", &i - &j);
        m!("L" "signed &", &i & &j);
        m!("L" "signed |", &i | IBig::from(&b));
        m!("L" "signed ^", &i ^ &j);
        m!("L" "not", !i.clone());
        m!("L" "signed >>", &i >> 1000usize);
        m!("L" "to_le_bytes", a.to_le_bytes());
        m!("L" "to_be_bytes", a.to_be_bytes());
        let by = bytes(r, n, style);
        m!("L" "from_le_bytes", UBig::from_le_bytes(&by));
        m!("L" "from_be_bytes", UBig::from_be_bytes(&by));
        m!("L" "hexadecimal text", format!("{:x}", a));
        m!("L" "padded binary text", format!("{:>#10b}", i));
        m!("L" "octal text", format!("{:o}", a));
        m!("L" "text radix 32", a.in_radix(32).to_string());
        let t = format!("{:x}", b);
        m!("L" "parse hexadecimal", UBig::from_str_radix(&t, 16));
        let t = format!("-{:o}", b);
        m!("L" "parse octal", IBig::from_str_radix(&t, 8));
        let t = b.in_radix(32).to_string();
        m!("L" "parse radix 32", UBig::from_str_radix(&t, 32));
        m!("L" "to_f64", (a.to_f64(), i.to_f32()));
        m!("L" "n * word", &a * 1234567890123u64);
        m!("L" "n / word", (&a).div_rem(1234567890123u64));
        m!("L" "* fixed length", &a * &(UBig::from(3u8) << 5000 | UBig::from(987654321u32)));
        m!("L" "/ fixed length", &a / &(UBig::from(3u8) << 5000 | UBig::from(987654321u32)));
        m!("L" "bincode", bincode::serialize(&a).unwrap());
        let t = bincode::serialize(&a).unwrap();
        m!("L" "from bincode", bincode::deserialize::<UBig>(&t).unwrap());
        // histories: many small steps on one growing or changing number
        let mut g = UBig::from(1u8);
        m!("L" "growing by set_bit", {
            for k in 0..64 {
                g.set_bit(n * k);
            }
        });
        let mut g = UBig::from(1u8);
        m!("L" "growing word by word", {
            for k in 0..n {
                g.set_bit(k * 64 + 3);
            }
        });
        let mut g2 = a.clone();
        m!("L" "shrinking bit by bit", {
            for k in (0..100).rev() {
                g2.clear_bit(n * 64 - 100 + k);
            }
        });
        m!("L" "a hundred += small", {
            for k in 0..100u32 {
                g += k;
            }
        });
        let mut v: Vec<UBig> = (0..4).map(|_| b.clone()).collect();
        v.push(a.clone());
        m!("L" "sum", v.into_iter().fold(UBig::from(0u8), |x, y| x + y));
    }
}
