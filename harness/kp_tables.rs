// Harnesses on src/tables.rs (child module of `tables`).
use super::*;
use crate::kharness::spec::*;
use crate::kharness::sym::*;
use crate::kproof;

macro_rules! reach {
    ($name:ident, $($k:expr),+) => {
        kproof! {
            fn $name() {
                let occ = any_bb();
                let (s, t, c) = (any_sq(), any_sq(), any_color());
                let ks = [$($k),+];
                let i: usize = kani::any();
                kani::assume(i < ks.len());
                let k = ks[i];
                let e = attacks(k, c, s, t, |x| has(&occ, x));
                let a = ATTACK_TABLE.attack(kind_sym(k), to_sq(s), to_color(c), &occ);
                assert!(has(&a, t) == e, "a piece reaches exactly the squares of its movement, up to the first piece on a line");
                kani::cover!(e);
            }
        }
    };
}
fn kind_sym(k: u8) -> PieceKind {
    assert!(k >= 1 && k <= 14);
    unsafe { core::mem::transmute(k) }
}
reach!(reach_steps, P, N, S, G, PP, PL, PN, PS, K);
reach!(reach_lance, L);
reach!(reach_bishop, B);
reach!(reach_rook, R);
reach!(reach_horse, PB);
reach!(reach_dragon, PR);
kproof! {
    fn reach_fields() {
        // the tables used directly by callers are the ones `attack` selects
        let occ = any_bb();
        let (s, t, c) = (any_sq(), any_sq(), any_color());
        let (q, col) = (to_sq(s), to_color(c));
        let none = |_| false;
        assert!(has(&ATTACK_TABLE.fu.attack(q, col), t) == attacks(P, c, s, t, none), "pawn");
        assert!(has(&ATTACK_TABLE.ke.attack(q, col), t) == attacks(N, c, s, t, none), "knight");
        assert!(has(&ATTACK_TABLE.gi.attack(q, col), t) == attacks(S, c, s, t, none), "silver");
        assert!(has(&ATTACK_TABLE.ki.attack(q, col), t) == attacks(G, c, s, t, none), "gold");
        assert!(has(&ATTACK_TABLE.ou.attack(q, col), t) == attacks(K, c, s, t, none), "king");
        assert!(has(&ATTACK_TABLE.ky.attack(q, col, &occ), t) == attacks(L, c, s, t, |x| has(&occ, x)), "lance");
    }
}
kproof! {
    fn reach_empty_board() {
        let (s, t, c, k) = (any_sq(), any_sq(), any_color(), any_kind());
        let a = ATTACK_TABLE.pseudo_attack(kind_sym(k), to_sq(s), to_color(c));
        // promoted sliders: the slides only
        let j = match k { PB => B, PR => R, k => k };
        assert!(has(&a, t) == attacks(j, c, s, t, |_| false), "reach on an empty board");
    }
}
kproof! {
    fn table_between() {
        let (a, b, t) = (any_sq(), any_sq(), any_sq());
        assert!(has(&BETWEEN_TABLE_REAL[to_sq(a).array_index()][to_sq(b).array_index()], t) == between(a, b, t), "the squares strictly between two aligned squares");
        kani::cover!(between(a, b, t));
    }
}
kproof! {
    fn table_ranks() {
        let (s, t, c) = (any_sq(), any_sq(), any_color());
        let (i, j) = (to_sq(s).array_index(), to_color(c).array_index());
        assert!(RELATIVE_RANKS[i][j] == rel_rank(s, c) as usize, "rank as seen by the side");
        assert!(PROMOTABLE[i][j] == (rel_rank(s, c) <= 3), "promotion zone");
        let f: u8 = kani::any();
        kani::assume(f >= 1 && f <= 9);
        assert!(has(&FILES[f as usize], t) == (file(t) + 1 == f as i8), "files");
    }
}
