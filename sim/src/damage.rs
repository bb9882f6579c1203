//! What a bad network or disk does to bytes. `f` are field positions, when known, to aim at.
use crate::core::Ctx;
use crate::gen::word;
use crate::model::F;

pub fn damage(c: &mut Ctx, b: &mut Vec<u8>, f: &[F]) -> &'static str {
    let n = b.len();
    if n == 0 {
        let k = c.below(64);
        b.resize(k, 0);
        c.fill(b);
        c.count("fault.garbage");
        return "garbage";
    }
    let aimed = if f.is_empty() { None } else { Some(*c.pick(f)) };
    let lens: Vec<F> = f.iter().filter(|x| x.k.starts_with("len.") || x.k.ends_with("tag")).copied().collect();
    match c.below(12) {
        0 => {
            let i = c.below(n);
            b[i] ^= 1 << c.below(8);
            c.count("fault.bit_flip");
            "bit flip"
        }
        1 => {
            let i = c.below(n);
            b[i] = c.draw(256) as u8;
            c.count("fault.byte_set");
            "byte set"
        }
        2 => {
            let off = match aimed {
                Some(x) if x.off + 8 <= n => x.off,
                _ => (c.below(n / 8 + 1)) * 8,
            };
            if off + 8 <= n {
                let w = word(c);
                b[off..off + 8].copy_from_slice(&w.to_be_bytes());
            }
            c.count("fault.word_overwrite");
            "word overwrite"
        }
        3..=6 => {
            // a length, count or tag word
            let off = if !lens.is_empty() {
                c.pick(&lens).off
            } else {
                (c.below(n / 8 + 1)) * 8
            };
            if off + 8 <= n {
                let old = u64::from_be_bytes(b[off..off + 8].try_into().unwrap());
                let w = match c.below(10) {
                    0 => old.wrapping_add(1),
                    1 => old.wrapping_sub(1),
                    2 => 0,
                    3 => u64::MAX - c.draw(10),
                    4 => 1 << c.draw(64),
                    5 => old ^ (1 << c.draw(64)),
                    6 => ((n - off) as u64).wrapping_add(c.draw(17)).wrapping_sub(8),
                    7 => old.wrapping_add(8),
                    8 => c.draw(12),
                    _ => word(c),
                };
                b[off..off + 8].copy_from_slice(&w.to_be_bytes());
            }
            c.count("fault.length_or_tag_stomp");
            "length or tag stomp"
        }
        7 => {
            let k = match aimed {
                Some(x) if c.chance(1, 2) => x.off,
                _ => c.below(n),
            };
            b.truncate(k);
            c.count("fault.truncate");
            "truncate"
        }
        8 => {
            let (s, l) = match aimed {
                Some(x) if x.len > 0 => (x.off, x.len),
                _ => {
                    let s = c.below(n);
                    (s, 1 + c.below(n - s))
                }
            };
            if s + l <= n && l < 4096 {
                let span = b[s..s + l].to_vec();
                b.splice(s..s, span);
            }
            c.count("fault.span_duplicated");
            "span duplicated"
        }
        9 => {
            let (s, l) = match aimed {
                Some(x) if x.len > 0 => (x.off, x.len),
                _ => {
                    let s = c.below(n);
                    (s, 1 + c.below(n - s))
                }
            };
            if s + l <= n {
                b.drain(s..s + l);
            }
            c.count("fault.span_lost");
            "span lost"
        }
        10 => {
            let s = c.below(n);
            let l = 1 + c.below((n - s).min(64));
            let v = if c.chance(1, 2) { 0 } else { 0xff };
            b[s..s + l].iter_mut().for_each(|x| *x = v);
            c.count("fault.zeroed_sector");
            "zeroed sector"
        }
        _ => {
            let k = 1 + c.below(40);
            let mut t = vec![0; k];
            c.fill(&mut t);
            b.extend(t);
            c.count("fault.stale_tail");
            "stale tail"
        }
    }
}
