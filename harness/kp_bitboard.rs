// Harnesses on src/bitboard.rs and its backends (child module of `bitboard`).
use super::*;
use crate::kharness::spec::*;
use crate::kharness::stubs;
use crate::kharness::sym::*;
use shogi_core::{Color, PieceKind, Square};

fn bit(w: [u64; 2], s: u8) -> bool {
    if s < 63 {
        w[0] >> s & 1 == 1
    } else {
        w[1] >> (s - 63) & 1 == 1
    }
}
const FULL: [u64; 2] = [(1 << 63) - 1, (1 << 18) - 1];
fn inside(b: Bitboard) -> bool {
    let w = words(b);
    w[0] & !FULL[0] == 0 && w[1] & !FULL[1] == 0
}

crate::kproof! {
    fn bb_member() {
        let a = any_bb();
        let (s, t) = (any_sq(), any_sq());
        assert!(a.contains(to_sq(t)) == bit(words(a), t), "contains reads the bit of the square");
        assert!(Bitboard::single(to_sq(s)).contains(to_sq(t)) == (s == t), "single holds exactly its square");
        assert!(inside(Bitboard::single(to_sq(s))));
        assert!(words(Bitboard::empty()) == [0, 0], "empty holds nothing");
        assert!(a.is_empty() == (words(a) == [0, 0]), "is_empty");
    }
}
crate::kproof! {
    fn bb_algebra() {
        let (a, b) = (any_bb(), any_bb());
        let t = any_sq();
        let q = to_sq(t);
        let (x, y) = (a.contains(q), b.contains(q));
        assert!((a & b).contains(q) == (x && y), "intersection");
        assert!((a & &b).contains(q) == (x && y), "intersection by reference");
        assert!((a | b).contains(q) == (x || y), "union");
        assert!((a ^ b).contains(q) == (x != y), "difference");
        assert!((!a).contains(q) != x, "complement");
        let mut c = a;
        c &= b;
        assert!(c.contains(q) == (x && y), "intersection in place");
        let mut c = a;
        c |= b;
        assert!(c.contains(q) == (x || y), "union in place");
        let mut c = a;
        c ^= b;
        assert!(c.contains(q) == (x != y), "difference in place");
        // no bit outside the board ever appears
        assert!(inside(a & b) && inside(a | b) && inside(a ^ b) && inside(!a));
        kani::cover!(x && !y);
    }
}
crate::kproof! {
    fn bb_count() {
        let a = any_bb();
        let w = words(a);
        assert!(a.count() as u32 == w[0].count_ones() + w[1].count_ones(), "count is the number of members");
    }
}
/// One step of the iterator: lowest member first, the rest unchanged.
#[kani::proof]
fn bb_iter() {
    let a = any_bb();
    let w = words(a);
    let mut it = a.into_iter();
    let r = it.next();
    let rest: [u64; 2] = unsafe { ::core::mem::transmute(it) };
    match r {
        None => assert!(w == [0, 0] && rest == [0, 0], "the iterator ends only when nothing is left"),
        Some(s) => {
            let s = s.index() - 1;
            assert!(s < 81 && bit(w, s), "the iterator yields members");
            let t = any_sq();
            assert!(t >= s || !bit(w, t), "lowest member first");
            assert!(bit(rest, t) == (bit(w, t) && t != s), "the rest is everything else");
            assert!(rest[0] & !FULL[0] == 0 && rest[1] & !FULL[1] == 0);
        }
    }
    kani::cover!(r.is_some());
}
crate::kproof! {
    fn bb_shift() {
        let a = any_bb();
        let t = any_sq();
        // no member on the far rank of the direction, as for pawns
        let mut i = 0;
        let (mut up, mut down) = (true, true);
        while i < 9 {
            if bit(words(a), i * 9) {
                up = false;
            }
            if bit(words(a), i * 9 + 8) {
                down = false;
            }
            i += 1;
        }
        if up {
            assert!(inside(a.shr()));
            assert!(a.shr().contains(to_sq(t)) == (t % 9 != 8 && bit(words(a), t + 1)), "shr moves every member one rank up");
        }
        if down {
            assert!(inside(a.shl()));
            assert!(a.shl().contains(to_sq(t)) == (t % 9 != 0 && bit(words(a), t - 1)), "shl moves every member one rank down");
        }
        kani::cover!(up && !a.is_empty());
        kani::cover!(down && !a.is_empty());
    }
}
crate::kproof! {
    fn bb_vacant() {
        let a = any_bb();
        let t = any_sq();
        // at most one member per file
        let mut n = 0;
        let mut f = 0;
        while f < 9 {
            let m = if f < 7 { words(a)[0] >> (9 * f) & 511 } else { words(a)[1] >> (9 * (f - 7)) & 511 };
            kani::assume(m & m.wrapping_sub(1) == 0);
            if f == (t / 9) as u32 {
                n = m;
            }
            f += 1;
        }
        assert!(inside(a.vacant_files()));
        assert!(a.vacant_files().contains(to_sq(t)) == (n == 0), "exactly the squares of the files without a member");
        kani::cover!(n == 0 && !a.is_empty());
    }
}
/// The stand-ins used by the other harnesses equal what they replace.
#[kani::proof]
fn stubs_equal() {
    let s = to_sq(any_sq());
    assert!(s.array_index() == stubs::sq_ai(s), "Square::array_index");
    let c = to_color(any_color());
    assert!(c.array_index() == stubs::color_ai(c), "Color::array_index");
    let k: PieceKind = unsafe { ::core::mem::transmute(any_kind()) };
    assert!(k.array_index() == stubs::kind_ai(k), "PieceKind::array_index");
    let t: [u64; 2] = kani::any();
    let w = [t[0] & FULL[0], t[1] & FULL[1]];
    let (mut a, mut b): (shogi_core::Bitboard, shogi_core::Bitboard) = unsafe { (::core::mem::transmute(w), ::core::mem::transmute(w)) };
    let (x, y) = (a.pop(), stubs::pop(&mut b));
    assert!(x == y && a == b, "Bitboard::pop");
    // encodings the harnesses rely on
    let q = any_sq();
    assert!(to_sq(q).index() == q + 1 && to_sq(q).file() as i8 == file(q) + 1 && to_sq(q).rank() as i8 == rank(q) + 1, "square encoding");
    let k = any_kind();
    let c = any_color();
    let p = to_piece(piece(k, c));
    assert!(p.as_u8() == piece(k, c) && p.color() == to_color(c), "piece encoding");
    assert!(p.piece_kind() as u8 == k, "kind encoding");
    let e: Option<shogi_core::Piece> = unsafe { ::core::mem::transmute(0u8) };
    assert!(e.is_none(), "no piece is encoded as 0");
    assert!((shogi_core::Color::Black as u8) == 1 && (Color::White as u8) == 2, "colour encoding");
}
