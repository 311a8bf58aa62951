// Harnesses on src/zobrist.rs (child module of `zobrist`).
use super::*;
use crate::kharness::spec::*;
use crate::kharness::sym::*;
use crate::kproof;

fn entry(sq: u8, p: u8) -> u64 {
    if p == 0 {
        0
    } else {
        ZOBRIST_TABLE.board(to_sq(sq), to_piece(p)).value()
    }
}
fn any_content() -> u8 {
    let p: u8 = kani::any();
    kani::assume(p == 0 || is_piece(p));
    p
}
kproof! {
    fn zobrist_board() {
        let q = any_sq();
        let (a, b) = (any_content(), any_content());
        let (x, y) = (entry(q, a), entry(q, b));
        assert!(x & 1 == 0, "board entries leave the side bit alone");
        assert!(a == b || x != y, "different contents of a square have different entries, none of them zero");
    }
}
kproof! {
    fn zobrist_hand() {
        let (c, k) = (any_color(), any_kind());
        kani::assume(k <= 7);
        let (a, b): (u8, u8) = (kani::any(), kani::any());
        let n = match k { P => 18, B | R => 2, _ => 4 };
        kani::assume(a < b && b <= n);
        let mut x = 0;
        let mut i = 0;
        while i < 18 {
            if a <= i && i < b {
                let e = ZOBRIST_TABLE.hand(to_color(c), kind_of(k), i).value();
                assert!(e & 1 == 0, "hand entries leave the side bit alone");
                x ^= e;
            }
            i += 1;
        }
        assert!(x != 0, "different numbers of a held kind have different entries folded in");
    }
}
kproof! {
    fn zobrist_range() {
        // every entry a key can call for exists
        let (q, p) = (any_sq(), any_content());
        let _ = entry(q, p);
        let (c, k) = (any_color(), any_kind());
        kani::assume(k <= 7);
        let n: u8 = kani::any();
        kani::assume(n < 18);
        let _ = ZOBRIST_TABLE.hand(to_color(c), kind_of(k), n);
        assert!(Key::COLOR.value() == 1);
    }
}
