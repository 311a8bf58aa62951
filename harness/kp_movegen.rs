// Harnesses on src/movegen.rs (child module of `movegen`).
use super::*;
use crate::kharness::spec::*;
use crate::kharness::sym::*;
use crate::kharness::pick::entered;
use crate::kharness::probe;
use crate::kproof;
use crate::position::kproofs::{att, mk_inner, mk_pos, mk_pos_any, pin};

fn is_normal(m: SMove) -> bool {
    matches!(m, SMove::Normal { .. })
}
/// Contract of a board-move generator: the probe is pushed once iff it is a
/// move of a piece of one of the kinds `ks`, reachable, into `target`, with an
/// allowed promotion choice; never otherwise.
fn gen_contract(sp: &SPos, m: SMove, target: &Bitboard, ks: fn(u8) -> bool) -> bool {
    match m {
        SMove::Normal { from, to, promote: pr } => {
            let x = sp.board[from as usize];
            x != 0
                && color(x) == sp.side
                && ks(kind(x))
                && has(target, to)
                && attacks(kind(x), sp.side, from, to, |s| occ(sp, s))
                && promotion_ok(kind(x), sp.side, from, to, pr)
        }
        _ => false,
    }
}
/// Choose the arbitrary iteration of each loop depth.
fn picks() -> (u8, u8) {
    let (a, b) = (any_sq(), any_sq());
    unsafe { crate::kharness::pick::PICK = [a, b, any_sq(), any_sq()] };
    (a, b)
}
macro_rules! gen_harness {
    ($name:ident, $f:ident, $ks:expr) => {
        kproof! {
            #[kani::stub(arrayvec::ArrayVec::push, crate::kharness::probe::push)]
            fn $name() {
                let sp = any_pos();
                let p = mk_pos_any(&sp);
                let m = any_move();
                let target = any_bb();
                probe::set(m);
                let (f, t) = picks();
                let mut av = ArrayVec::new();
                p.$f(&mut av, &target);
                let e = gen_contract(&sp, m, &target, $ks);
                kani::cover!(e);
                let hit = match m { SMove::Normal { from, to, .. } => f == from && t == to, _ => false };
                assert!(probe::count() == 0 || entered(2), "ANCHOR loops over origin and target squares");
                assert!(probe::count() == (hit && e) as u8, "the move is generated exactly once iff the contract says so");
            }
        }
    };
}
kproof! {
    #[kani::stub(arrayvec::ArrayVec::push, crate::kharness::probe::push)]
    fn gen_fu() {
        let sp = any_pos();
        assume_pawns(&sp, sp.side);
        let p = mk_pos_any(&sp);
        let m = any_move();
        let target = any_bb();
        probe::set(m);
        let (t, _) = picks();
        let mut av = ArrayVec::new();
        p.generate_for_fu(&mut av, &target);
        let e = gen_contract(&sp, m, &target, |k| k == P);
        kani::cover!(e);
        let hit = match m { SMove::Normal { to, .. } => t == to, _ => false };
        assert!(probe::count() == 0 || entered(1), "ANCHOR loop over target squares");
        assert!(probe::count() == (hit && e) as u8, "the move is generated exactly once iff the contract says so");
    }
}
gen_harness!(gen_ky, generate_for_ky, |k| k == L);
gen_harness!(gen_ke, generate_for_ke, |k| k == N);
gen_harness!(gen_gi, generate_for_gi, |k| k == S);
gen_harness!(gen_ka, generate_for_ka, |k| k == B);
gen_harness!(gen_hi, generate_for_hi, |k| k == R);
gen_harness!(gen_um, generate_for_um, |k| k == PB);
gen_harness!(gen_ry, generate_for_ry, |k| k == PR);
gen_harness!(gen_ou, generate_for_ou, |k| k == K);
gen_harness!(gen_ki, generate_for_ki, |k| k == G || (k >= PP && k <= PS));

// ------------------------------------------------------------- attackers_to
kproof! {
    fn attackers_exact() {
        let sp = any_pos();
        let p = mk_pos_any(&sp);
        let (c, to, t, o) = (any_color(), any_sq(), any_sq(), any_bb());
        let x = sp.board[t as usize];
        let e = x != 0 && color(x) == c && attacks(kind(x), c, t, to, |s| has(&o, s));
        kani::cover!(e);
        assert!(has(&p.attackers_to(to_color(c), to_sq(to), &o), t) == e, "exactly the pieces of that colour attacking the square");
    }
}
kproof! {
    fn attackers_klp_exact() {
        let sp = any_pos();
        let p = mk_pos_any(&sp);
        let (c, to, t) = (any_color(), any_sq(), any_sq());
        let x = sp.board[t as usize];
        let e = x != 0 && color(x) == c && kind(x) != K && kind(x) != L && kind(x) != P && attacks(kind(x), c, t, to, |s| occ(&sp, s));
        kani::cover!(e);
        assert!(has(&p.attackers_to_except_klp(to_color(c), to_sq(to)), t) == e, "exactly the pieces of that colour, but kings, lances and pawns, attacking the square");
    }
}

// ------------------------------------------------------------------ is_legal
/// The position, kings, attack information at the squares that matter.
struct Ctx {
    sp: SPos,
    c: u8,
    k: u8,
}
/// A position with the mover's king on `k` (none if `k` is 81).
fn any_ctx() -> Ctx {
    let sp = any_pos();
    let c = sp.side;
    let k: u8 = kani::any();
    kani::assume(k <= 81);
    assume_king(&sp, c, k);
    Ctx { sp, c, k }
}
fn at_after(sp: &SPos, m: SMove, s: u8) -> u8 {
    after(&sp.board, m, s)
}
/// `t` attacks `q` after `m`.
fn hits_after(sp: &SPos, m: SMove, c: u8, q: u8, t: u8) -> bool {
    q < 81 && att(|s| at_after(sp, m, s), c, q, t)
}
fn hits(sp: &SPos, c: u8, q: u8, t: u8) -> bool {
    q < 81 && att(|s| sp.board[s as usize], c, q, t)
}
static mut A_SP: SPos = SPos { board: [0; 81], hands: [[0; 7]; 2], side: 0, ply: 0 };
static mut A_T: u8 = 0;
static mut A_W: u8 = 0;
static mut A_OCC: [u64; 2] = [0; 2];
/// attackers_to by its contract (harness attackers_exact), at A_T and at A_W,
/// an element of the result unless that is empty.
fn s_attackers(_p: &Position, c: Color, to: Square, occ: &Bitboard) -> Bitboard {
    #[allow(static_mut_refs)]
    unsafe {
        let (c, to) = (c as u8 - 1, of_sq(to));
        let r = any_bb();
        let e = |t: u8| {
            let x = A_SP.board[t as usize];
            x != 0 && color(x) == c && attacks(kind(x), c, t, to, |s| has(occ, s))
        };
        kani::assume(has(&r, A_T) == e(A_T));
        kani::assume(words(r) == [0, 0] || (has(&r, A_W) && e(A_W)));
        r
    }
}
fn king_move(x: &Ctx) -> SMove {
    let to = any_sq();
    kani::assume(x.k < 81);
    let m = SMove::Normal { from: x.k, to, promote: false };
    crate::kharness::cex::mv(m);
    kani::assume(pseudo_legal(&x.sp, m));
    m
}
macro_rules! king_harness {
    ($name:ident, $sound:expr) => {
        kproof! {
            #[kani::stub(Position::attackers_to, s_attackers)]
            fn $name() {
                let x = any_ctx();
                let m = king_move(&x);
                let (t, w) = (any_sq(), any_sq());
                let to = match m { SMove::Normal { to, .. } => to, _ => 0 };
                unsafe {
                    A_SP = x.sp;
                    A_T = t;
                    A_W = w;
                    crate::kharness::BETWEEN_AT = Some([x.k, to]);
                }
                let pb = any_bb();
                // nothing stands between the king and itself (harness info_pinned)
                kani::assume(!has(&pb, x.k));
                let mut pinned = [any_bb(), any_bb()];
                pinned[x.c as usize] = pb;
                let p = mk_pos(&x.sp, any_bb(), [any_bb(); 14], pinned);
                let r = p.is_legal(to_move(m));
                if $sound {
                    // not in check by the piece on t before
                    kani::assume(!hits(&x.sp, 1 - x.c, x.k, t));
                    assert!(!r || !hits_after(&x.sp, m, 1 - x.c, to, t), "a king move let pass is not onto an attacked square");
                } else {
                    assert!(r || hits_after(&x.sp, m, 1 - x.c, to, w), "a king move refused is onto an attacked square");
                }
                kani::cover!(r);
                kani::cover!(!r);
            }
        }
    };
}
king_harness!(legal_king_sound, true);
king_harness!(legal_king_complete, false);

/// Moves of other pieces, drops: `t` does not attack the king before the move.
fn other_contract(m: SMove, sound: bool) {
    let x = any_ctx();
    let (t, w) = (any_sq(), any_sq());
    let (from, to) = match m {
        SMove::Normal { from, to, .. } => (from, to),
        SMove::Drop { to, .. } => (81, to),
    };
    kani::assume(pseudo_legal(&x.sp, m));
    kani::assume(from != x.k);
    kani::assume(!hits(&x.sp, 1 - x.c, x.k, t));
    let pb = any_bb();
    if from < 81 {
        if has(&pb, from) {
            kani::assume(pin(&x.sp, x.c, x.k, w, from));
        } else {
            kani::assume(!pin(&x.sp, x.c, x.k, t, from));
        }
    }
    let mut pinned = [any_bb(), any_bb()];
    pinned[x.c as usize] = pb;
    let p = mk_pos(&x.sp, any_bb(), [any_bb(); 14], pinned);
    unsafe {
        crate::kharness::BETWEEN_AT = Some([if from < 81 { from } else { to }, to]);
        A_SP = x.sp;
        A_T = t;
        A_W = w;
    }
    let r = p.is_legal(to_move(m));
    kani::cover!(r);
    kani::cover!(!r || from == 81);
    if sound {
        assert!(!r || !hits_after(&x.sp, m, 1 - x.c, x.k, t), "a move let pass does not expose the king");
    } else {
        assert!(r || hits_after(&x.sp, m, 1 - x.c, x.k, w), "a move refused exposes the king");
    }
}
macro_rules! other_harness {
    ($name:ident, $m:expr, $sound:expr) => {
        kproof! {
            #[kani::stub(Position::attackers_to, s_attackers)]
            fn $name() {
                let m = any_move();
                kani::assume(is_normal(m) == $m);
                other_contract(m, $sound);
            }
        }
    };
}
other_harness!(legal_other_sound, true, true);
other_harness!(legal_other_complete, true, false);
other_harness!(legal_drop_sound, false, true);
other_harness!(legal_drop_complete, false, false);

// ------------------------------------------------- generators, composed
// Generators by contract (harnesses gen_*, drop_exact): each adds the probe move
// once iff the rules of its pieces allow it and the target holds its destination.
static mut C_OK: bool = false; // own piece (or held piece), movement, promotion / drop rules
static mut C_KIND: u8 = 0;
static mut C_TO: u8 = 0;
static mut C_DROP: bool = false;
static mut C_MATE: bool = false; // the probe is a pawn drop refused by the mate rule
static mut C_EMPTY: bool = false; // the destination is empty
fn set_probe(sp: &SPos, m: SMove) {
    probe::set(m);
    unsafe {
        match m {
            SMove::Normal { from, to, promote: pr } => {
                let x = sp.board[from as usize];
                C_DROP = false;
                C_KIND = kind(x);
                C_TO = to;
                C_OK = x != 0 && color(x) == sp.side && attacks(kind(x), sp.side, from, to, |s| occ(sp, s)) && promotion_ok(kind(x), sp.side, from, to, pr);
            }
            SMove::Drop { to, piece: x } => {
                C_DROP = true;
                C_KIND = kind(x);
                C_TO = to;
                C_OK = color(x) == sp.side && drop_ok(sp, to, kind(x));
                C_MATE = kani::any();
                kani::assume(kind(x) == P || !C_MATE);
            }
        }
        C_EMPTY = sp.board[C_TO as usize] == 0;
    }
}
/// The piece is held and may stand on `to`; a second pawn on the file excluded.
fn drop_ok(sp: &SPos, to: u8, k: u8) -> bool {
    k >= P && k <= R && sp.hands[sp.side as usize][k as usize - 1] > 0 && !dead(k, sp.side, to) && !(k == P && pawn_on_file(&sp.board, sp.side, to))
}
fn s_gen(target: &Bitboard, ks: fn(u8) -> bool) {
    unsafe {
        if !C_DROP && C_OK && ks(C_KIND) && has(target, C_TO) {
            probe::COUNT += 1;
        }
    }
}
type List = ArrayVec<Move, MAX_LEGAL_MOVES>;
fn s_fu(_p: &Position, _a: &mut List, t: &Bitboard) { s_gen(t, |k| k == P) }
fn s_ky(_p: &Position, _a: &mut List, t: &Bitboard) { s_gen(t, |k| k == L) }
fn s_ke(_p: &Position, _a: &mut List, t: &Bitboard) { s_gen(t, |k| k == N) }
fn s_gi(_p: &Position, _a: &mut List, t: &Bitboard) { s_gen(t, |k| k == S) }
fn s_ka(_p: &Position, _a: &mut List, t: &Bitboard) { s_gen(t, |k| k == B) }
fn s_hi(_p: &Position, _a: &mut List, t: &Bitboard) { s_gen(t, |k| k == R) }
fn s_ki(_p: &Position, _a: &mut List, t: &Bitboard) { s_gen(t, |k| k == G || (k >= PP && k <= PS)) }
fn s_ou(_p: &Position, _a: &mut List, t: &Bitboard) { s_gen(t, |k| k == K) }
fn s_um(_p: &Position, _a: &mut List, t: &Bitboard) { s_gen(t, |k| k == PB) }
fn s_ry(_p: &Position, _a: &mut List, t: &Bitboard) { s_gen(t, |k| k == PR) }
fn s_drop(_p: &Position, _a: &mut List, t: &Bitboard) {
    unsafe {
        assert!(!has(t, C_TO) || C_EMPTY, "drops are generated onto empty squares only");
        if C_DROP && C_OK && has(t, C_TO) && !C_MATE {
            probe::COUNT += 1;
        }
    }
}
macro_rules! composed {
    ($name:ident, $body:block) => {
        kproof! {
            #[kani::stub(arrayvec::ArrayVec::push, crate::kharness::probe::push)]
            #[kani::stub(Position::generate_for_fu, s_fu)]
            #[kani::stub(Position::generate_for_ky, s_ky)]
            #[kani::stub(Position::generate_for_ke, s_ke)]
            #[kani::stub(Position::generate_for_gi, s_gi)]
            #[kani::stub(Position::generate_for_ka, s_ka)]
            #[kani::stub(Position::generate_for_hi, s_hi)]
            #[kani::stub(Position::generate_for_ki, s_ki)]
            #[kani::stub(Position::generate_for_ou, s_ou)]
            #[kani::stub(Position::generate_for_um, s_um)]
            #[kani::stub(Position::generate_for_ry, s_ry)]
            #[kani::stub(Position::generate_drop, s_drop)]
            fn $name() $body
        }
    };
}
composed!(all_exact, {
    let sp = any_pos();
    let m = any_move();
    set_probe(&sp, m);
    let p = mk_pos_any(&sp);
    let mut av = ArrayVec::new();
    p.generate_all(&mut av);
    let e = pseudo_legal(&sp, m) && unsafe { !(C_DROP && C_MATE) };
    kani::cover!(e);
    kani::cover!(e && unsafe { C_DROP });
    assert!(probe::count() == e as u8, "every move obeying movement, promotion and drop rules is a candidate exactly once, and nothing else is");
});

/// A position in check by the piece on `t`; the set of checkers contains it.
fn in_check_ctx(m: SMove) -> (Ctx, u8, Bitboard) {
    let x = any_ctx();
    kani::assume(x.k < 81);
    set_probe(&x.sp, m);
    let t = any_sq();
    let ch = any_bb();
    kani::assume(has(&ch, t) && hits(&x.sp, 1 - x.c, x.k, t));
    unsafe {
        crate::kharness::acc::ON = true;
        crate::kharness::acc::AT = t;
        crate::kharness::BETWEEN_AT = Some([C_TO, C_TO]);
    }
    (x, t, ch)
}
fn evade(x: &Ctx, ch: Bitboard) -> u8 {
    let p = mk_pos(&x.sp, ch, [any_bb(); 14], [any_bb(), any_bb()]);
    let mut av = ArrayVec::new();
    p.generate_evasions(&mut av);
    probe::count()
}
fn single(t: u8, ch: &Bitboard) -> bool {
    words(*ch) == words(Bitboard::single(to_sq(t)))
}
fn evade_single() {
    // one checker: other pieces
    let m = any_normal();
    let (x, t, ch) = in_check_ctx(m);
    kani::assume(single(t, &ch));
    picks();
    let n = evade(&x, ch);
    let from = match m { SMove::Normal { from, .. } => from, _ => 0 };
    kani::assume(from != x.k);
    let e = pseudo_legal(&x.sp, m) && !hits_after(&x.sp, m, 1 - x.c, x.k, t);
    kani::cover!(e);
    assert!(n == e as u8, "with one checker, a move of another piece is a candidate exactly once iff it captures or blocks it");
}
composed!(evade_single_b, { unsafe { SIDE = 0 }; evade_single() });
composed!(evade_single_w, { unsafe { SIDE = 1 }; evade_single() });
composed!(evade_drop, {
    let m = any_drop();
    let (x, t, ch) = in_check_ctx(m);
    kani::assume(single(t, &ch));
    picks();
    let n = evade(&x, ch);
    let e = pseudo_legal(&x.sp, m) && !hits_after(&x.sp, m, 1 - x.c, x.k, t) && unsafe { !C_MATE };
    kani::cover!(e);
    assert!(n == e as u8, "with one checker, a drop is a candidate exactly once iff it blocks it");
});
composed!(evade_double, {
    let m = any_move();
    let (x, t, ch) = in_check_ctx(m);
    let u = any_sq();
    kani::assume(u != t && has(&ch, u) && hits(&x.sp, 1 - x.c, x.k, u));
    picks();
    let n = evade(&x, ch);
    if let SMove::Normal { from, .. } = m {
        kani::assume(from != x.k);
    }
    assert!(n == 0, "with two checkers nothing but the king is moved");
    kani::cover!(unsafe { C_OK });
});
kproof! {
    fn double_lemma_b() {
        unsafe { SIDE = 0 }
        double_lemma();
    }
}
kproof! {
    fn double_lemma_w() {
        unsafe { SIDE = 1 }
        double_lemma();
    }
}
fn double_lemma() {
        let x = any_ctx();
        let (m, t, u) = (any_move(), any_sq(), any_sq());
        kani::assume(u != t && hits(&x.sp, 1 - x.c, x.k, t) && hits(&x.sp, 1 - x.c, x.k, u));
        if let SMove::Normal { from, .. } = m {
            kani::assume(from != x.k);
        }
        kani::cover!(pseudo_legal(&x.sp, m));
        assert!(!pseudo_legal(&x.sp, m) || hits_after(&x.sp, m, 1 - x.c, x.k, t) || hits_after(&x.sp, m, 1 - x.c, x.k, u), "no move but the king's resolves two checks");
}
fn evade_king(sound: bool) {
    let to = any_sq();
    let from = any_sq();
    let m = SMove::Normal { from, to, promote: kani::any() };
    crate::kharness::cex::mv(m);
    let (x, t, ch) = in_check_ctx(m);
    kani::assume(from == x.k);
    // an attacker of the destination after the move, if any
    let a = any_sq();
    kani::assume(has(&ch, a) == hits(&x.sp, 1 - x.c, x.k, a));
    let pk = any_sq();
    unsafe {
        crate::kharness::pick::PICK = [pk, any_sq(), any_sq(), any_sq()];
    }
    let n = evade(&x, ch);
    let hit = pk == to;
    assert!(n == 0 || entered(1), "ANCHOR loop over destinations of the king");
    assert!(n <= 1 && (n == 0 || (hit && pseudo_legal(&x.sp, m))), "a king move is a candidate at most once, and only along its movement");
    if sound {
        // the arbitrary checker looked at is the attacker, where that is one
        kani::assume(!has(&ch, a) || t == a);
        // what is_legal looks at: attackers with the king still in place
        let rejected = att(|s| x.sp.board[s as usize], 1 - x.c, to, a);
        assert!(n == 0 || rejected || !hits_after(&x.sp, m, 1 - x.c, to, a), "no king move onto a square attacked through the king's place");
    } else {
        assert!(n == 1 || !hit || !pseudo_legal(&x.sp, m) || hits_after(&x.sp, m, 1 - x.c, to, t), "a king move is left out only if a checker attacks the destination");
    }
    kani::cover!(n == 1);
    kani::cover!(n == 0 && hit && pseudo_legal(&x.sp, m));
}
composed!(evade_king_sound, { evade_king(true) });
composed!(evade_king_complete, { evade_king(false) });

// --------------------------------------------------------------- drops
static mut D_K: u8 = 81;
static mut D_MATE: bool = false;
static mut D_EMPTY: Board = [0; 81];
/// is_pawn_drop_mate by contract (harnesses mate_*): asked about the square in
/// front of the opponent's king.
fn s_mate(_p: &Position, sq: Square) -> bool {
    unsafe {
        let c = _p.side_to_move() as u8 - 1;
        assert!(D_EMPTY[of_sq(sq) as usize] == 0, "ANCHOR the mate rule is asked about an empty square");
        assert!(D_K < 81 && steps(P, c, file(D_K) - file(of_sq(sq)), rank(D_K) - rank(of_sq(sq))), "ANCHOR the mate rule is asked about a pawn giving check");
        D_MATE
    }
}
kproof! {
    #[kani::stub(arrayvec::ArrayVec::push, crate::kharness::probe::push)]
    #[kani::stub(Position::is_pawn_drop_mate, s_mate)]
    fn drop_exact() {
        let sp = any_pos();
        let c = sp.side;
        assume_pawns(&sp, c);
        crate::kharness::sym::hands_ok(&sp);
        let k: u8 = kani::any();
        kani::assume(k <= 81);
        assume_king(&sp, 1 - c, k);
        let m = any_move();
        probe::set(m);
        let target = any_bb();
        let (t, _) = picks();
        unsafe {
            D_K = k;
            D_MATE = kani::any();
            D_EMPTY = sp.board;
        }
        let p = mk_pos_any(&sp);
        kani::assume(words(target & p.occupied_bitboard()) == [0, 0]);
        let mut av = ArrayVec::new();
        p.generate_drop(&mut av, &target);
        let (e, hit) = match m {
            SMove::Drop { to, piece: x } => {
                let front = k < 81 && steps(P, c, file(k) - file(to), rank(k) - rank(to));
                (color(x) == c && drop_ok(&sp, to, kind(x)) && has(&target, to) && !(kind(x) == P && front && unsafe { D_MATE }), to == t)
            }
            _ => (false, false),
        };
        kani::cover!(e && hit);
        assert!(probe::count() == 0 || entered(1), "ANCHOR loop over target squares");
        assert!(probe::count() == (e && hit) as u8, "a drop is generated exactly once iff hand, target, dead squares, second pawn and the mate rule allow it");
    }
}

// ------------------------------------------------------ the pawn drop mate rule
/// An element of each set of attackers, or set asked about, that is not empty.
static mut WIT: [u8; 5] = [81; 5];
static mut WN: usize = 0;
fn witness(w: u8) {
    unsafe {
        if WN < 5 {
            WIT[WN] = w;
            WN += 1;
        }
    }
}
fn s_is_empty(b: Bitboard) -> bool {
    let e = words(b) == [0, 0];
    if !e {
        let w = any_sq();
        kani::assume(has(&b, w));
        witness(w);
    }
    e
}
static mut M_T: [u8; 2] = [0; 2];
static mut M_S: u8 = 0;
static mut M_KLP: Option<Bitboard> = None;
/// attackers_to by its contract (harness attackers_exact), at one square, with
/// an element where it is not empty.
fn m_attackers(p: &Position, c: Color, to: Square, occ: &Bitboard) -> Bitboard {
    #[allow(static_mut_refs)]
    unsafe {
        let r = any_bb() & p.player_bitboard(c);
        let (c, to) = (c as u8 - 1, of_sq(to));
        let e = |t: u8| {
            let x = A_SP.board[t as usize];
            x != 0 && color(x) == c && attacks(kind(x), c, t, to, |s| has(occ, s))
        };
        if words(r) == [0, 0] {
            kani::assume(!e(M_T[(to != M_S) as usize]));
        } else {
            let w = any_sq();
            kani::assume(has(&r, w) && e(w));
            witness(w);
        }
        r
    }
}
/// attackers_to_except_klp: constrained afterwards, by klp_at.
fn m_klp(p: &Position, c: Color, to: Square) -> Bitboard {
    unsafe {
        assert!(c as u8 - 1 != A_SP.side && of_sq(to) == M_S, "ANCHOR asked for the opponent's pieces that capture the pawn");
        let r = any_bb() & p.player_bitboard(c);
        M_KLP = Some(r);
        r
    }
}
/// attackers_to_except_klp by its contract (harness attackers_klp_exact), at `t`.
fn klp_at(t: u8) {
    #[allow(static_mut_refs)]
    unsafe {
        if let Some(r) = M_KLP {
            let x = A_SP.board[t as usize];
            kani::assume(has(&r, t) == (x != 0 && kind(x) != K && kind(x) != L && kind(x) != P && hits(&A_SP, 1 - A_SP.side, M_S, t)));
        }
    }
}
struct Mate {
    sp: SPos,
    /// after the drop
    q: SPos,
    c: u8,
    k: u8,
    s: u8,
    pb: Bitboard,
    e: u8,
    r: bool,
    fell: bool,
}
/// is_pawn_drop_mate on a pawn drop in front of the opponent's king, which is
/// not attacked before the drop by the pieces on `t`.
fn mate_call(t: [u8; 3], at: [u8; 2]) -> Mate {
    let sp = any_pos();
    let (c, k, s) = (sp.side, any_sq(), any_sq());
    kani::assume(sp.board[k as usize] == piece(K, 1 - c));
    assume_king(&sp, 1 - c, k);
    kani::assume(sp.board[s as usize] == 0 && steps(P, c, file(k) - file(s), rank(k) - rank(s)));
    crate::kharness::cex::mv(SMove::Drop { to: s, piece: piece(P, c) });
    let mut i = 0;
    while i < 3 {
        kani::assume(!hits(&sp, c, k, t[i]));
        i += 1;
    }
    let mut q = sp;
    q.board[s as usize] = piece(P, c);
    q.side = 1 - c;
    let e = any_sq();
    unsafe {
        crate::kharness::pick::PICK = [e; 4];
        A_SP = sp;
        M_S = s;
        M_T = at;
    }
    let pb = any_bb();
    let mut pinned = [any_bb(), any_bb()];
    pinned[1 - c as usize] = pb;
    let p = mk_pos(&sp, any_bb(), [any_bb(); 14], pinned);
    let r = p.is_pawn_drop_mate(to_sq(s));
    Mate { sp, q, c, k, s, pb, e, r, fell: crate::kharness::pick::fell_through() }
}
/// After the drop and the reply `m`, the piece on `t` attacks the replying king.
fn mate_by(x: &Mate, m: SMove, t: u8) -> bool {
    t < 81 && hits_after(&x.q, m, x.c, king_after(&x.q.board, m, 1 - x.c, x.k), t)
}
macro_rules! mate {
    ($name:ident, $body:block) => {
        kproof! {
            #[kani::stub(shogi_core::Bitboard::is_empty, s_is_empty)]
            #[kani::stub(Position::attackers_to, m_attackers)]
            #[kani::stub(Position::attackers_to_except_klp, m_klp)]
            fn $name() $body
        }
    };
}
mate!(mate_true_king, {
    let x = mate_call([0; 3], [0; 2]);
    let to = any_sq();
    let m = SMove::Normal { from: x.k, to, promote: false };
    // a loop over destinations that ran through did so for this one
    kani::assume(x.r && to != x.k && pseudo_legal(&x.q, m) && (!x.fell || x.e == to || to == x.s));
    kani::cover!(to == x.s);
    kani::cover!(to != x.s && entered(1));
    #[allow(static_mut_refs)]
    unsafe {
        assert!(mate_by(&x, m, WIT[0]) || mate_by(&x, m, WIT[1]) || mate_by(&x, m, WIT[2]) || mate_by(&x, m, WIT[3]), "mate: every square the king could move to is attacked");
    }
});
mate!(mate_true_other, {
    let w = any_sq();
    let x = mate_call([w, 0, 0], [0; 2]);
    let m = any_move();
    kani::assume(x.r && pseudo_legal(&x.q, m));
    let (from, to) = match m {
        SMove::Normal { from, to, .. } => (from, to),
        SMove::Drop { to, .. } => (81, to),
    };
    kani::assume(from != x.k);
    if from < 81 {
        klp_at(from);
        // what a pin means (harness info_pinned)
        kani::assume(!has(&x.pb, from) || pin(&x.sp, 1 - x.c, x.k, w, from));
    }
    kani::cover!(to == x.s);
    assert!(mate_by(&x, m, x.s) || mate_by(&x, m, w), "mate: no other reply leaves the king unattacked");
});
fn mate_false() {
    let t = [any_sq(), any_sq(), any_sq()];
    let x = mate_call(t, [t[0], t[2]]);
    kani::assume(!x.r);
    // a piece found to capture the pawn, if any
    let mut g = 81;
    let mut i = 0;
    while i < 5 {
        let w = unsafe { WIT[i] };
        if w < 81 && x.sp.board[w as usize] != 0 && color(x.sp.board[w as usize]) != x.c {
            g = w;
        }
        i += 1;
    }
    let ok = |m: SMove, t: u8| pseudo_legal(&x.q, m) && !mate_by(&x, m, t);
    let a = ok(SMove::Normal { from: x.k, to: x.s, promote: false }, t[0]);
    let b = g < 81 && {
        klp_at(g);
        kani::assume(has(&x.pb, g) || !pin(&x.sp, 1 - x.c, x.k, t[1], g));
        let pr = dead(kind(x.sp.board[g as usize]), 1 - x.c, x.s);
        ok(SMove::Normal { from: g, to: x.s, promote: pr }, t[1])
    };
    let d = x.e != x.k && ok(SMove::Normal { from: x.k, to: x.e, promote: false }, t[2]);
    kani::cover!(a);
    kani::cover!(b && !a && !d);
    kani::cover!(d && !a && !b);
    assert!(a || b || d, "no mate: taking the pawn or moving the king is a legal reply");
}
mate!(mate_false_b, { unsafe { SIDE = 0 }; mate_false() });
mate!(mate_false_w, { unsafe { SIDE = 1 }; mate_false() });

// ------------------------------------------------------ the filter of legal_moves
use crate::kharness::cut;
static mut F_CALLS: [u8; 2] = [0; 2];
static mut F_N: usize = 1;
static mut F_SEL: [u8; 3] = [1; 3];
fn f_fill(av: &mut List) {
    unsafe {
        let mut i = 0;
        while i < 3 {
            if i < F_N {
                av.push(cut::MOVES[F_SEL[i] as usize]);
            }
            i += 1;
        }
    }
}
fn f_all(_p: &Position, av: &mut List) {
    unsafe { F_CALLS[0] += 1 }
    f_fill(av);
}
fn f_evasions(_p: &Position, av: &mut List) {
    unsafe { F_CALLS[1] += 1 }
    f_fill(av);
}
/// is_legal: an arbitrary predicate on moves.
fn f_legal(_p: &Position, m: Move) -> bool {
    unsafe {
        if F_GHOST && cut::which(m) != 0 {
            return kani::any();
        }
        cut::LEGAL[cut::which(m)]
    }
}
static mut F_GHOST: bool = false;
fn f_moves() {
    let ms = [any_move(), any_move(), any_move()];
    kani::assume(ms[0] != ms[1] && ms[1] != ms[2] && ms[0] != ms[2]);
    unsafe {
        cut::MOVES = [to_move(ms[0]), to_move(ms[1]), to_move(ms[2])];
        cut::LEGAL = [kani::any(), kani::any(), kani::any()];
    }
}
fn f_pos() -> (Position, bool) {
    // generators and is_legal answer arbitrarily, so the board does not matter
    let sp = SPos { board: [0; 81], hands: any_hands(), side: any_color(), ply: kani::any() };
    let ch = any_bb();
    (mk_pos(&sp, ch, [any_bb(); 14], [any_bb(), any_bb()]), words(ch) != [0, 0])
}
fn f_called(check: bool) {
    unsafe { assert!(F_CALLS[0] == !check as u8 && F_CALLS[1] == check as u8, "the generator called is the one for the check status") }
}
fn f_run() -> List {
    let (p, check) = f_pos();
    let av = p.legal_moves();
    f_called(check);
    av
}
/// The candidates, by the contracts of the generators: the tracked move once or not at all.
impl Position {
    pub(crate) fn ghost_all<const N: usize>(&self, av: &mut cut::GList<Move, N>) {
        unsafe {
            F_CALLS[0] += 1;
            av.havoc();
            cut::WAS = av.has();
        }
    }
    pub(crate) fn ghost_evasions<const N: usize>(&self, av: &mut cut::GList<Move, N>) {
        unsafe {
            F_CALLS[1] += 1;
            av.havoc();
            cut::WAS = av.has();
        }
    }
}
/// Where the source has no such function to copy.
trait GhostFallback {
    fn legal_moves_ghost(&self) -> cut::GList<Move, 593>;
}
impl GhostFallback for Position {
    fn legal_moves_ghost(&self) -> cut::GList<Move, 593> {
        assert!(false, "ANCHOR the filter of legal_moves");
        cut::GList::new()
    }
}
macro_rules! filter {
    ($name:ident, $body:block) => {
        kproof! {
            #[kani::stub(Position::generate_all, f_all)]
            #[kani::stub(Position::generate_evasions, f_evasions)]
            #[kani::stub(Position::is_legal, f_legal)]
            fn $name() $body
        }
    };
}
filter!(filter_step, {
    f_moves();
    unsafe { F_GHOST = true }
    let (p, check) = f_pos();
    let av = p.legal_moves_ghost();
    unsafe {
        f_called(check);
        let out = cut::DONE || !cut::ENTERED;
        assert!(!out || av.has() == (cut::WAS && cut::LEGAL[0]), "when the filter has ended, a move is in the list iff it was a candidate and is let pass");
        kani::cover!(out && av.has());
        kani::cover!(out && cut::WAS && !av.has());
    }
});
filter!(filter_small, {
    f_moves();
    unsafe {
        F_N = kani::any();
        F_SEL = kani::any();
        kani::assume(F_N <= 3 && F_SEL[0] < 3 && F_SEL[1] < 3 && F_SEL[2] < 3);
    }
    let av = f_run();
    unsafe {
        let (mut a, mut b) = (0u8, 0u8);
        let mut i = 0;
        while i < 3 {
            a += (i < F_N && F_SEL[i] == 0 && cut::LEGAL[0]) as u8;
            b += (i < av.len() && cut::which(av[i]) == 0) as u8;
            i += 1;
        }
        assert!(av.len() <= 3 && a == b, "the list returned holds exactly the candidates let pass");
        kani::cover!(a == 2);
    }
});
