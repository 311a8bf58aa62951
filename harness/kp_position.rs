// Harnesses on src/position.rs (child module of `position`).
use super::*;
use crate::kharness::spec::*;
use crate::kharness::sym::*;
use crate::kharness::hist::Hide;
use crate::kproof;

/// The representation invariant as a function: the internal position for `sp`.
pub(crate) fn mk_inner(sp: &SPos) -> PartialPosition {
    let mut pl = [[0u64; 2]; 2];
    let mut pc = [[0u64; 2]; 14];
    let mut i = 0;
    while i < 81 {
        let x = sp.board[i];
        let (w, b) = if i < 63 { (0, i) } else { (1, i - 63) };
        let mut c = 0;
        while c < 2 {
            pl[c][w] |= ((x != 0 && color(x) == c as u8) as u64) << b;
            c += 1;
        }
        let mut k = 0;
        while k < 14 {
            pc[k][w] |= ((kind(x) == k as u8 + 1) as u64) << b;
            k += 1;
        }
        i += 1;
    }
    let mut h = [[0u8; 8]; 2];
    let mut c = 0;
    while c < 2 {
        let mut k = 0;
        while k < 7 {
            h[c][k] = sp.hands[c][k];
            k += 1;
        }
        c += 1;
    }
    PartialPosition {
        side: to_color(sp.side),
        ply: sp.ply,
        hands: unsafe { core::mem::transmute(h) },
        board: unsafe { core::mem::transmute(sp.board) },
        player_bb: [bb(pl[0]), bb(pl[1])],
        piece_bb: [
            bb(pc[0]), bb(pc[1]), bb(pc[2]), bb(pc[3]), bb(pc[4]), bb(pc[5]), bb(pc[6]),
            bb(pc[7]), bb(pc[8]), bb(pc[9]), bb(pc[10]), bb(pc[11]), bb(pc[12]), bb(pc[13]),
        ],
    }
}
/// A position whose history-dependent state is `st`, after a history of any length
/// (kharness::hist); the vector of states lives in `buf`, a typed object, which the
/// verifier handles better than the heap.
fn with_state(sp: &SPos, st: State, buf: &mut [State; 2]) -> core::mem::ManuallyDrop<Position> {
    buf[0] = st;
    let states = unsafe { Vec::from_raw_parts(buf.as_mut_ptr(), 1, 2) };
    let mut p = core::mem::ManuallyDrop::new(Position { inner: mk_inner(sp), states: states.into() });
    p.states.hide();
    p
}
fn blank() -> State {
    State {
        keys: (Key::ZERO, Key::ZERO),
        captured: None,
        last_moved: None,
        attack_info: AttackInfo { checkers: bb([0, 0]), checkables: [bb([0, 0]); 14], pinned: [bb([0, 0]); 2] },
    }
}
/// A position with the given attack information.
pub(crate) fn mk_pos(sp: &SPos, checkers: Bitboard, checkables: [Bitboard; 14], pinned: [Bitboard; 2]) -> Position {
    let mut states = Vec::with_capacity(2);
    states.push(State { attack_info: AttackInfo { checkers, checkables, pinned }, ..blank() });
    let mut p = Position { inner: mk_inner(sp), states: states.into() };
    p.states.hide();
    p
}
/// A position with unconstrained attack information.
pub(crate) fn mk_pos_any(sp: &SPos) -> Position {
    let z = any_bb();
    mk_pos(sp, any_bb(), [z; 14], [any_bb(), any_bb()])
}

kproof! {
    fn checkers_exact() {
        let sp = any_pos();
        let p = mk_inner(&sp);
        let k = any_sq();
        kani::assume(sp.board[k as usize] == piece(K, sp.side));
        assume_king(&sp, sp.side, k);
        let t = any_sq();
        let x = sp.board[t as usize];
        kani::assume(kind(x) != K || t == k || !attacks(K, 0, t, k, |_| true));
        let e = x != 0 && color(x) != sp.side && attacks(kind(x), color(x), t, k, |s| occ(&sp, s));
        kani::cover!(e);
        let ch = AttackInfo::calculate_checkers(&p);
        assert!(has(&ch, t) == e, "checkers are the enemy pieces attacking the king");
    }
}
kproof! {
    fn checkers_no_king() {
        let sp = any_pos();
        let p = mk_inner(&sp);
        assume_king(&sp, sp.side, 81);
        assert!(words(AttackInfo::calculate_checkers(&p)) == [0, 0]);
    }
}

// ---------------------------------------------------------------- invariant
/// The representation invariant at an arbitrary square, kind and hand slot:
/// `p` describes the board, hands and side of `sp`.
pub(crate) fn inv_at(p: &PartialPosition, sp: &SPos) -> bool {
    let (q, k, c, h) = (any_sq(), any_kind(), any_color(), any_kind());
    kani::assume(h <= 7);
    let x = sp.board[q as usize];
    let y: u8 = unsafe { core::mem::transmute(p.board[q as usize]) };
    let hand: [u8; 8] = unsafe { core::mem::transmute(p.hands[c as usize]) };
    y == x
        && has(&p.player_bb[c as usize], q) == (x != 0 && color(x) == c)
        && has(&p.piece_bb[k as usize - 1], q) == (x != 0 && kind(x) == k)
        && hand[h as usize - 1] == sp.hands[c as usize][h as usize - 1]
        && p.side == to_color(sp.side)
        && outside(&p.player_bb[c as usize])
        && outside(&p.piece_bb[k as usize - 1])
}
/// no bit beyond the 81 squares
fn outside(b: &Bitboard) -> bool {
    let w = words(*b);
    w[0] >> 63 == 0 && w[1] >> 18 == 0
}
// ------------------------------------------------- key coefficients (ghost)
// Every key is a XOR of table entries; an entry is only ever combined by XOR
// (harness key_ops). The coefficient of one arbitrary entry decides them all.
static mut E_HAND: bool = false;
static mut E: [u8; 3] = [0; 3];
fn z_board(_t: &crate::zobrist::ZobristTable, sq: Square, p: Piece) -> Key {
    unsafe { key((!E_HAND && of_sq(sq) == E[0] && p.as_u8() == E[1]) as u64 * 2) }
}
fn z_hand(_t: &crate::zobrist::ZobristTable, c: Color, pk: PieceKind, num: u8) -> Key {
    assert!(num < 18, "hand key index in range");
    unsafe { key((E_HAND && c as u8 - 1 == E[0] && pk as u8 == E[1] && num == E[2]) as u64 * 2) }
}
fn key(x: u64) -> Key {
    unsafe { core::mem::transmute(x) }
}
/// Choose the entry whose coefficient is followed.
fn any_entry() {
    unsafe {
        E_HAND = kani::any();
        if E_HAND {
            E = [any_color(), any_kind(), kani::any()];
            kani::assume(E[1] <= 7 && E[2] < 18);
        } else {
            E = [any_sq(), kani::any(), 0];
            kani::assume(is_piece(E[1]));
        }
    }
}
/// The coefficient of the chosen entry in the two keys of `sp`, with the side bit.
fn key_spec(sp: &SPos) -> (u64, u64) {
    unsafe {
        if E_HAND {
            (sp.side as u64, (sp.hands[E[0] as usize][E[1] as usize - 1] > E[2]) as u64 * 2)
        } else {
            ((sp.board[E[0] as usize] == E[1]) as u64 * 2 ^ sp.side as u64, 0)
        }
    }
}

// ------------------------------------------------------- stubs by contract
static mut G: SPos = SPos { board: [0; 81], hands: [[0; 7]; 2], side: 0, ply: 0 };
static mut G_T: u8 = 0; // probe square for the checkers
static mut G_K: u8 = 81; // king square of the side to move of G
static mut G_CK: bool = false;
static mut G_CHECK: bool = false;
static mut G_NEW: u8 = 0;
static mut G_ARG: bool = false;
fn exact_checker(sp: &SPos, k: u8, t: u8) -> bool {
    let x = sp.board[t as usize];
    k < 81 && x != 0 && color(x) != sp.side && attacks(kind(x), color(x), t, k, |s| occ(sp, s))
}
/// calculate_checkers by contract: the position passed is the one described by
/// G, and the result holds the probe square iff it holds a checker.
fn s_checkers(p: &PartialPosition) -> Bitboard {
    unsafe {
        #[allow(static_mut_refs)]
        let ok = inv_at(p, &G);
        assert!(ok, "calculate_checkers is called on the position after the move");
        let b = any_bb();
        kani::assume(has(&b, G_T) == G_CK);
        b
    }
}
/// AttackInfo::new by contract: called on the position described by G.
fn s_info(checkers: Bitboard, p: &PartialPosition) -> AttackInfo {
    unsafe {
        #[allow(static_mut_refs)]
        let ok = inv_at(p, &G);
        assert!(ok, "AttackInfo::new is called on the position after the move");
        G_NEW += 1;
        G_ARG = has(&checkers, G_T);
    }
    let z = bb([7, 5]);
    AttackInfo { checkers, checkables: [z; 14], pinned: [bb([3, 1]), bb([9, 2])] }
}
static mut G0: SPos = SPos { board: [0; 81], hands: [[0; 7]; 2], side: 0, ply: 0 };
static mut G_MOVE: Move = NO_MOVE;
static mut G_ASKED: bool = false;
static mut G_LEN: usize = 0;
/// is_check_move by contract (harnesses check_*): asked about the move to be
/// played, on the position before it.
fn s_is_check(p: &Position, m: Move) -> bool {
    #[allow(static_mut_refs)]
    unsafe {
        assert!(same_at(&p.inner, &G0) && p.states.len() == G_LEN && m == G_MOVE, "is_check_move is asked about the move on the position before it");
        G_ASKED = true;
        G_CHECK
    }
}

kproof! {
    fn from_core() {
        let sp = any_pos();
        let q = any_sq();
        let (c, k, n) = (any_color(), any_kind(), any_sq());
        unsafe {
            crate::kharness::acc::ON = true;
            crate::kharness::acc::NTH = n as usize;
        }
        let p = PartialPosition::from(to_core(&sp));
        let x = sp.board[q as usize];
        let y: u8 = unsafe { core::mem::transmute(p.board[q as usize]) };
        let (d, e) = (has(&p.player_bb[c as usize], q), has(&p.piece_bb[k as usize - 1], q));
        let (sd, se) = (x != 0 && color(x) == c, x != 0 && kind(x) == k);
        // an arbitrary iteration leaves nothing wrong, and the one for q puts it right
        assert!(y == 0 || y == x, "no square gets a wrong piece");
        assert!((!d || sd) && (!e || se), "no bitboard gets a wrong square");
        assert!(n != q || y == x, "every square is copied");
        assert!(n != q || (d == sd && e == se), "every piece enters its bitboards");
        assert!(outside(&p.player_bb[c as usize]) && outside(&p.piece_bb[k as usize - 1]));
        kani::cover!(d && e);
    }
}
kproof! {
    fn from_core_rest() {
        // hands, side and ply do not depend on the loop over the squares
        let sp = any_pos();
        unsafe {
            crate::kharness::acc::ON = true;
            crate::kharness::acc::NTH = 0;
        }
        let pp = to_core(&sp);
        let mut ok = true;
        let mut c = 0;
        let (h0, h1) = ((kani::any::<u8>()), any_color());
        kani::assume(h0 < 7);
        while c < 2 {
            unsafe { crate::kharness::acc::NTH = c as usize }
            let p = PartialPosition::from(pp.clone());
            let hand: [u8; 8] = unsafe { core::mem::transmute(p.hands[h1 as usize]) };
            let v = hand[h0 as usize];
            ok &= v == 0 || v == sp.hands[h1 as usize][h0 as usize];
            ok &= h1 != c || v == sp.hands[h1 as usize][h0 as usize];
            ok &= p.side == to_color(sp.side) && p.ply == sp.ply;
            c += 1;
        }
        assert!(ok, "hands, side to move and ply are copied");
    }
}
/// Board, hands and side only (the bitboards are covered by from_core).
fn same_at(p: &PartialPosition, sp: &SPos) -> bool {
    let (q, c, h) = (any_sq(), any_color(), any_kind());
    kani::assume(h <= 7);
    let y: u8 = unsafe { core::mem::transmute(p.board[q as usize]) };
    let hand: [u8; 8] = unsafe { core::mem::transmute(p.hands[c as usize]) };
    y == sp.board[q as usize] && hand[h as usize - 1] == sp.hands[c as usize][h as usize - 1] && p.side == to_color(sp.side)
}
fn w_checkers(p: &PartialPosition) -> Bitboard {
    #[allow(static_mut_refs)]
    unsafe {
        assert!(same_at(p, &G), "calculate_checkers is called on the position");
    }
    bb([11, 13])
}
fn w_info(checkers: Bitboard, p: &PartialPosition) -> AttackInfo {
    #[allow(static_mut_refs)]
    unsafe {
        assert!(same_at(p, &G), "AttackInfo::new is called on the position");
    }
    AttackInfo { checkers, checkables: [bb([7, 5]); 14], pinned: [bb([3, 1]), bb([9, 2])] }
}
kproof! {
    #[kani::stub(AttackInfo::calculate_checkers, w_checkers)]
    #[kani::stub(AttackInfo::new, w_info)]
    #[kani::stub(crate::zobrist::ZobristTable::board, z_board)]
    #[kani::stub(crate::zobrist::ZobristTable::hand, z_hand)]
    fn new_wiring() {
        let sp = any_pos();
        hands_ok(&sp);
        any_entry();
        unsafe {
            G = sp;
        }
        let p = Position::new(to_core(&sp));
        assert!(same_at(&p.inner, &sp), "the position describes the position given");
        assert!(p.inner.ply == sp.ply, "ply");
        assert!(p.states.len() == 1);
        let st = &p.states[0];
        assert!(st.captured.is_none() && st.last_moved.is_none());
        let (a, b) = (st.keys.0.value(), st.keys.1.value());
        assert!((a, b) == key_spec(&sp), "each key entry is folded in exactly when the board, hand or side calls for it");
        assert!(words(st.attack_info.checkers) == [11, 13], "the checkers stored are those calculated");
        assert!(words(st.attack_info.pinned[1]) == [9, 2] && words(st.attack_info.checkables[3]) == [7, 5], "the attack information stored is the one calculated");
        kani::cover!(a == 3);
        kani::cover!(b == 2);
    }
}
kproof! {
    fn key_ops() {
        let (a, b): (u64, u64) = (kani::any(), kani::any());
        let mut c = key(a);
        c ^= key(b);
        assert!(c.value() == a ^ b && (key(a) ^ key(b)).value() == a ^ b, "keys combine by exclusive or");
        assert!(Key::ZERO.value() == 0 && Key::COLOR.value() == 1);
    }
}

/// A move on a position with what playing it presupposes.
fn playable(sp: &SPos, m: SMove) {
    match m {
        SMove::Normal { from, to, promote: pr } => {
            let (x, y) = (sp.board[from as usize], sp.board[to as usize]);
            kani::assume(from != to && x != 0 && color(x) == sp.side);
            kani::assume(y == 0 || color(y) != sp.side);
            kani::assume(kind(y) != K || y == 0);
            kani::assume(!pr || promote(kind(x)) != 0);
            if y != 0 {
                let u = unpromote(kind(y));
                kani::assume(sp.hands[0][u as usize - 1] + sp.hands[1][u as usize - 1] < total(u));
            }
        }
        SMove::Drop { to, piece: x } => {
            kani::assume(color(x) == sp.side && kind(x) <= R && sp.board[to as usize] == 0);
            kani::assume(sp.hands[sp.side as usize][kind(x) as usize - 1] > 0);
        }
    }
    kani::assume(sp.ply < 65535);
}
fn do_move_contract(m: SMove, k: u8) {
    let sp = any_pos();
    hands_ok(&sp);
    playable(&sp, m);
    any_entry();
    let after = apply(&sp, m);
    let t = any_sq();
    // the king of the side not to move, which is not attacked
    assume_king(&sp, 1 - sp.side, k);
    let before = SPos { side: 1 - sp.side, ..sp };
    unsafe {
        G0 = sp;
        G_MOVE = to_move(m);
        G = after;
        G_T = t;
        G_K = k;
        G_CK = exact_checker(&after, k, t);
        // is_check_move by contract: the opponent is in check after the move
        G_CHECK = kani::any();
        // the opponent's king is not attacked before the move
        kani::assume(!exact_checker(&before, k, t));
        kani::assume(!G_CK || G_CHECK);
        if let SMove::Drop { to, .. } = m {
            // a drop can only check with the piece dropped (lemma drop_check)
            kani::assume(G_CHECK == exact_checker(&after, k, to));
        }
    }
    let keys0: (u64, u64) = (kani::any(), kani::any());
    let mut buf = [blank(), blank()];
    let mut p = with_state(&sp, State {
        keys: (key(keys0.0), key(keys0.1)),
        captured: unsafe { core::mem::transmute(0u8) },
        last_moved: unsafe { core::mem::transmute(0u8) },
        attack_info: AttackInfo { checkers: any_bb(), checkables: [any_bb(); 14], pinned: [any_bb(); 2] },
    }, &mut buf);
    let n = p.states.len();
    unsafe {
        G_LEN = n;
    }
    p.do_move(to_move(m));
    assert!(inv_at(&p.inner, &after), "board, hands and side after the move are those of the rules");
    assert!(p.inner.ply == after.ply, "ply");
    assert!(p.states.len() == n + 1, "one state per move");
    let st = &p.states[n];
    let (b, a) = (key_spec(&sp), key_spec(&after));
    assert!(st.keys.0.value() == keys0.0 ^ b.0 ^ a.0 && st.keys.1.value() == keys0.1 ^ b.1 ^ a.1, "the keys change by exactly the entries that change");
    unsafe {
        assert!(G_NEW == 1, "attack information is calculated");
        let ok = has(&st.attack_info.checkers, t) == G_CK;
        assert!(G_ASKED || ok, "ANCHOR is_check_move is asked");
        assert!(!G_ASKED || ok, "the checkers stored are the pieces attacking the king");
        assert!(words(st.attack_info.pinned[1]) == [9, 2] && words(st.attack_info.checkables[3]) == [7, 5], "the attack information stored is the one calculated");
        kani::cover!(G_CK);
    }
}
macro_rules! play {
    ($name:ident, $body:block) => {
        kproof! {
            #[kani::stub(AttackInfo::calculate_checkers, s_checkers)]
            #[kani::stub(AttackInfo::new, s_info)]
            #[kani::stub(std::vec::Vec::push, crate::kharness::stubs::vec_push)]
            #[kani::stub(crate::zobrist::ZobristTable::board, z_board)]
            #[kani::stub(crate::zobrist::ZobristTable::hand, z_hand)]
            #[kani::stub(Position::is_check_move, s_is_check)]
            fn $name() $body
        }
    };
}
play!(do_normal, { do_move_contract(any_normal(), any_sq()) });
play!(do_drop, { do_move_contract(any_drop(), any_sq()) });

fn h_checkers(_p: &PartialPosition) -> Bitboard {
    any_bb()
}
fn h_info(checkers: Bitboard, _p: &PartialPosition) -> AttackInfo {
    AttackInfo { checkers, checkables: [any_bb(); 14], pinned: [any_bb(); 2] }
}
fn h_is_check(_p: &Position, _m: Move) -> bool {
    kani::any()
}
/// do_move then undo_move: everything is as it was.
fn undo_contract(m: SMove) {
    let sp = any_pos();
    hands_ok(&sp);
    playable(&sp, m);
    any_entry();
    let keys0: (u64, u64) = (kani::any(), kani::any());
    let (i0, i1, i2) = (any_bb(), any_bb(), any_bb());
    let (cap, last): (u8, u8) = (kani::any(), kani::any());
    kani::assume((cap == 0 || is_piece(cap)) && (last == 0 || is_piece(last)));
    let mut buf = [blank(), blank()];
    let mut p = with_state(&sp, State {
        keys: (key(keys0.0), key(keys0.1)),
        captured: unsafe { core::mem::transmute(cap) },
        last_moved: unsafe { core::mem::transmute(last) },
        attack_info: AttackInfo { checkers: i0, checkables: [i1; 14], pinned: [i2; 2] },
    }, &mut buf);
    let n = p.states.len();
    p.do_move(to_move(m));
    p.undo_move(to_move(m));
    assert!(inv_at(&p.inner, &sp), "board, hands and side are restored");
    assert!(p.inner.ply == sp.ply, "ply is restored");
    assert!(p.states.len() == n, "the state of the move is dropped");
    let st = &p.states[n - 1];
    assert!(st.keys.0.value() == keys0.0 && st.keys.1.value() == keys0.1, "the keys are restored");
    let (c2, l2): (u8, u8) = unsafe { (core::mem::transmute(st.captured), core::mem::transmute(st.last_moved)) };
    assert!(c2 == cap && l2 == last, "what the previous move captured is kept");
    assert!(words(st.attack_info.checkers) == words(i0) && words(st.attack_info.pinned[0]) == words(i2) && words(st.attack_info.pinned[1]) == words(i2), "attack information is restored");
    let j: usize = kani::any();
    kani::assume(j < 14);
    assert!(words(st.attack_info.checkables[j]) == words(i1), "attack information is restored");
}
macro_rules! undo {
    ($name:ident, $body:block) => {
        kproof! {
            #[kani::stub(AttackInfo::calculate_checkers, h_checkers)]
            #[kani::stub(AttackInfo::new, h_info)]
            #[kani::stub(std::vec::Vec::push, crate::kharness::stubs::vec_push)]
            #[kani::stub(crate::zobrist::ZobristTable::board, z_board)]
            #[kani::stub(crate::zobrist::ZobristTable::hand, z_hand)]
            #[kani::stub(Position::is_check_move, h_is_check)]
            fn $name() $body
        }
    };
}
undo!(undo_normal, { undo_contract(any_normal()) });
undo!(undo_drop, { undo_contract(any_drop()) });

// ---------------------------------------------------- attack information
/// Exactly one square strictly between `k` and `t` is occupied, and it is `s`.
pub(crate) fn sole_blocker<F: Fn(u8) -> bool>(k: u8, t: u8, s: u8, occ: F) -> bool {
    let (df, dr) = (file(t) - file(k), rank(t) - rank(k));
    if !aligned(df, dr) || s == k || s == t {
        return false;
    }
    let (sf, sr, n) = (sgn(df), sgn(dr), dist(df, dr));
    let mut ok = false;
    let mut i = 1;
    while i < 8 {
        if i < n {
            let q = sq(file(k) + sf * i, rank(k) + sr * i);
            if q == s {
                ok = occ(q);
            } else if occ(q) {
                return false;
            }
        }
        i += 1;
    }
    ok
}
/// `s` alone stands between the king of colour `c` on `k` and an enemy slider on `t`.
pub(crate) fn pin(p: &SPos, c: u8, k: u8, t: u8, s: u8) -> bool {
    let x = p.board[t as usize];
    let (df, dr) = (file(k) - file(t), rank(k) - rank(t));
    k < 81
        && x != 0
        && color(x) != c
        && aligned(df, dr)
        && slides(kind(x), color(x), sgn(df), sgn(dr))
        && sole_blocker(k, t, s, |q| occ(p, q))
}
kproof! {
    fn info_pinned() {
        let sp = any_pos();
        let p = mk_inner(&sp);
        let (c0, t, c, s, k) = (any_color(), any_sq(), any_color(), any_sq(), any_sq());
        unsafe {
            crate::kharness::acc::ON = true;
            crate::kharness::acc::NTH = c0 as usize;
            crate::kharness::acc::AT = t;
        }
        kani::assume(sp.board[k as usize] == piece(K, c0));
        assume_king(&sp, c0, k);
        let ch = any_bb();
        let i = AttackInfo::new(ch, &p);
        assert!(has(&i.pinned(to_color(c)), s) == (c == c0 && pin(&sp, c0, k, t, s)),
            "the pinned squares are those standing alone between a king and an enemy slider");
        assert!(words(i.checkers()) == words(ch), "the checkers given are stored");
        kani::cover!(has(&i.pinned(to_color(c)), s));
    }
}
kproof! {
    fn info_no_king() {
        let sp = any_pos();
        let p = mk_inner(&sp);
        let (c0, s, kk) = (any_color(), any_sq(), any_kind());
        unsafe {
            crate::kharness::acc::ON = true;
            crate::kharness::acc::NTH = c0 as usize;
            crate::kharness::acc::AT = any_sq();
        }
        assume_king(&sp, c0, 81);
        let i = AttackInfo::new(any_bb(), &p);
        assert!(words(i.pinned(to_color(c0))) == [0, 0], "without a king nothing is pinned");
        assert!(c0 == sp.side || !i.checkable(kind_of(kk), to_sq(s)), "without a king nothing gives check");
    }
}
kproof! {
    fn info_checkables() {
        let sp = any_pos();
        let p = mk_inner(&sp);
        let (s, kk, k) = (any_sq(), any_kind(), any_sq());
        unsafe {
            crate::kharness::acc::ON = true;
            crate::kharness::acc::NTH = 2;
        }
        kani::assume(sp.board[k as usize] == piece(K, 1 - sp.side));
        assume_king(&sp, 1 - sp.side, k);
        let i = AttackInfo::new(any_bb(), &p);
        let e = kk != K && attacks(kk, sp.side, s, k, |q| occ(&sp, q));
        assert!(i.checkable(kind_of(kk), to_sq(s)) == e, "from these squares, and no others, a piece of the kind attacks the opponent's king");
        kani::cover!(e);
    }
}

/// The piece on `t` of the position read by `at` attacks `k` and has colour `c`.
pub(crate) fn att<F: Fn(u8) -> u8>(at: F, c: u8, k: u8, t: u8) -> bool {
    let x = at(t);
    x != 0 && color(x) == c && attacks(kind(x), c, t, k, |s| at(s) != 0)
}
/// What AttackInfo::new guarantees (harnesses info_*), at the squares a move
/// touches; `t` is an arbitrary square, `w` the witness of a pin.
fn check_move_contract(m: SMove, sound: bool) {
    let sp = any_pos();
    let (k, t, w, c) = (any_sq(), any_sq(), any_sq(), sp.side);
    let b = &sp.board;
    kani::assume(b[k as usize] == piece(K, 1 - c));
    assume_king(&sp, 1 - c, k);
    let (from, to, kk) = match m {
        SMove::Normal { from, to, promote: pr } => {
            let (x, y) = (b[from as usize], b[to as usize]);
            kani::assume(from != to && x != 0 && color(x) == c && (y == 0 || color(y) != c) && to != k);
            kani::assume(attacks(kind(x), c, from, to, |s| b[s as usize] != 0));
            kani::assume(!pr || promote(kind(x)) != 0);
            // the king does not move next to the other one
            kani::assume(kind(x) != K || !attacks(K, c, to, k, |_| false));
            (from, to, if pr { promote(kind(x)) } else { kind(x) })
        }
        SMove::Drop { to, piece: x } => {
            kani::assume(color(x) == c && kind(x) <= R && b[to as usize] == 0);
            (81, to, kind(x))
        }
    };
    // the king is not attacked before the move; instances at the squares that matter
    kani::assume(!att(|s| b[s as usize], c, k, if sound { w } else { t }));
    kani::assume(from == 81 || !att(|s| b[s as usize], c, k, from));
    // checkables at the destination, pinned at the origin
    let (cb, pb) = (any_bb(), any_bb());
    kani::assume(has(&cb, to) == (kk != K && attacks(kk, c, to, k, |s| b[s as usize] != 0)));
    if from < 81 {
        if !has(&pb, from) {
            kani::assume(sound || !pin(&sp, 1 - c, k, t, from));
        } else {
            kani::assume(pin(&sp, 1 - c, k, w, from));
        }
    }
    let mut checkables = [bb([0, 0]); 14];
    checkables[kk as usize - 1] = cb;
    let mut pinned = [bb([0, 0]); 2];
    pinned[1 - c as usize] = pb;
    let mut buf = [blank(), blank()];
    let p = with_state(&sp, State { attack_info: AttackInfo { checkers: any_bb(), checkables, pinned }, ..blank() }, &mut buf);
    unsafe {
        crate::kharness::BETWEEN_AT = Some([if from < 81 { from } else { to }, to]);
    }
    let r = p.is_check_move(to_move(m));
    let at = |s: u8| after(b, m, s);
    if sound {
        assert!(!r || att(at, c, k, to) || (from < 81 && att(at, c, k, w)), "after a move predicted to give check some piece attacks the king");
    } else {
        assert!(r || !att(at, c, k, t), "a move after which a piece attacks the king is predicted to give check");
    }
    kani::cover!(r);
    kani::cover!(r && !att(at, c, k, to) || from == 81);
}
kproof! {
    fn check_move_sound() {
        check_move_contract(any_normal(), true);
    }
}
kproof! {
    fn check_move_complete_b() {
        unsafe { SIDE = 0 }
        check_move_contract(any_normal(), false);
    }
}
kproof! {
    fn check_move_complete_w() {
        unsafe { SIDE = 1 }
        check_move_contract(any_normal(), false);
    }
}
kproof! {
    fn check_drop_sound() {
        check_move_contract(any_drop(), true);
    }
}
kproof! {
    fn check_drop_complete() {
        check_move_contract(any_drop(), false);
    }
}
