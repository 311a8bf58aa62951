//! Executable specification of shogi, written from the rules of the game.
//!
//! It shares no code with the crate under verification: squares are 0..81
//! (file-major, `9 * (file - 1) + (rank - 1)`), pieces are the documented
//! `shogi_core` encodings (0 = empty, 1..=14 black, 17..=30 white), colours are
//! 0 = black, 1 = white. The Kani harnesses evaluate it on symbolic arguments;
//! the native differential engine evaluates it on concrete ones.
#![allow(dead_code)]

pub const P: u8 = 1;
pub const L: u8 = 2;
pub const N: u8 = 3;
pub const S: u8 = 4;
pub const G: u8 = 5;
pub const B: u8 = 6;
pub const R: u8 = 7;
pub const K: u8 = 8;
pub const PP: u8 = 9;
pub const PL: u8 = 10;
pub const PN: u8 = 11;
pub const PS: u8 = 12;
pub const PB: u8 = 13;
pub const PR: u8 = 14;

pub type Board = [u8; 81];

/// The eight directions as (file delta, rank delta).
pub const DIRS: [(i8, i8); 8] = [
    (0, -1),
    (0, 1),
    (1, 0),
    (-1, 0),
    (1, -1),
    (-1, -1),
    (1, 1),
    (-1, 1),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SPos {
    pub board: Board,
    /// hands[colour][kind - 1], kind in 1..=7
    pub hands: [[u8; 7]; 2],
    pub side: u8,
    pub ply: u16,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum SMove {
    Normal { from: u8, to: u8, promote: bool },
    /// `piece` is the full encoding including the colour
    Drop { to: u8, piece: u8 },
}

#[inline(always)]
pub fn kind(p: u8) -> u8 {
    p & 15
}
#[inline(always)]
pub fn color(p: u8) -> u8 {
    p >> 4
}
#[inline(always)]
pub fn piece(k: u8, c: u8) -> u8 {
    k | (c << 4)
}
#[inline(always)]
pub fn is_piece(p: u8) -> bool {
    (p >= 1 && p <= 14) || (p >= 17 && p <= 30)
}
#[inline(always)]
pub fn file(s: u8) -> i8 {
    (s / 9) as i8
}
#[inline(always)]
pub fn rank(s: u8) -> i8 {
    (s % 9) as i8
}
#[inline(always)]
pub fn on_board(f: i8, r: i8) -> bool {
    f >= 0 && f < 9 && r >= 0 && r < 9
}
#[inline(always)]
pub fn sq(f: i8, r: i8) -> u8 {
    (f * 9 + r) as u8
}
/// Rank seen from colour `c`: 1 is the farthest rank.
#[inline(always)]
pub fn rel_rank(s: u8, c: u8) -> u8 {
    let r = s % 9 + 1;
    if c == 0 {
        r
    } else {
        10 - r
    }
}
#[inline(always)]
pub fn promote(k: u8) -> u8 {
    match k {
        P => PP,
        L => PL,
        N => PN,
        S => PS,
        B => PB,
        R => PR,
        _ => 0,
    }
}
#[inline(always)]
pub fn unpromote(k: u8) -> u8 {
    match k {
        PP => P,
        PL => L,
        PN => N,
        PS => S,
        PB => B,
        PR => R,
        _ => k,
    }
}

/// Does a piece of kind `k` and colour `c` reach, in one step (not a slide),
/// the square displaced by (df, dr)?
#[inline(always)]
pub fn steps(k: u8, c: u8, df: i8, dr: i8) -> bool {
    // forward is negative rank for black
    let fwd = if c == 0 { -dr } else { dr };
    let adf = if df < 0 { -df } else { df };
    match k {
        P => adf == 0 && fwd == 1,
        N => adf == 1 && fwd == 2,
        S => (adf <= 1 && fwd == 1) || (adf == 1 && fwd == -1),
        G | PP | PL | PN | PS => {
            (adf <= 1 && fwd == 1) || (adf == 1 && fwd == 0) || (adf == 0 && fwd == -1)
        }
        K => adf <= 1 && fwd >= -1 && fwd <= 1 && !(adf == 0 && fwd == 0),
        PB => (adf == 0 && (fwd == 1 || fwd == -1)) || (adf == 1 && fwd == 0),
        PR => adf == 1 && (fwd == 1 || fwd == -1),
        _ => false,
    }
}
/// Does a piece of kind `k` and colour `c` slide in the direction (df, dr),
/// each of -1, 0, 1, not both 0?
#[inline(always)]
pub fn slides(k: u8, c: u8, df: i8, dr: i8) -> bool {
    match k {
        L => df == 0 && dr == (if c == 0 { -1 } else { 1 }),
        B | PB => df != 0 && dr != 0,
        R | PR => (df == 0) != (dr == 0),
        _ => false,
    }
}

#[inline(always)]
pub fn sgn(x: i8) -> i8 {
    if x < 0 {
        -1
    } else if x > 0 {
        1
    } else {
        0
    }
}
#[inline(always)]
pub fn aligned(df: i8, dr: i8) -> bool {
    (df == 0) != (dr == 0) || (df != 0 && (df == dr || df == -dr))
}
/// `t` lies strictly between `a` and `b` on a common file, rank or diagonal.
#[inline(always)]
pub fn between(a: u8, b: u8, t: u8) -> bool {
    let (df, dr) = (file(b) - file(a), rank(b) - rank(a));
    let (tf, tr) = (file(t) - file(a), rank(t) - rank(a));
    let n = dist(df, dr);
    let m = dist(tf, tr);
    aligned(df, dr)
        && aligned(tf, tr)
        && sgn(df) == sgn(tf)
        && sgn(dr) == sgn(tr)
        && m < n
}
/// Chebyshev distance.
#[inline(always)]
pub fn dist(df: i8, dr: i8) -> i8 {
    let a = if df < 0 { -df } else { df };
    let b = if dr < 0 { -dr } else { dr };
    if a > b {
        a
    } else {
        b
    }
}

/// Does a piece (k, c) standing on `from` attack `to` when exactly the squares
/// for which `occ` holds are occupied?
pub fn attacks<F: Fn(u8) -> bool>(k: u8, c: u8, from: u8, to: u8, occ: F) -> bool {
    let (df, dr) = (file(to) - file(from), rank(to) - rank(from));
    if steps(k, c, df, dr) {
        return true;
    }
    if !aligned(df, dr) {
        return false;
    }
    let (sf, sr) = (sgn(df), sgn(dr));
    if !slides(k, c, sf, sr) {
        return false;
    }
    let n = dist(df, dr);
    let mut i = 1;
    while i < 8 {
        if i < n && occ(sq(file(from) + sf * i, rank(from) + sr * i)) {
            return false;
        }
        i += 1;
    }
    true
}

/// Is `t` attacked by a piece of colour `c`?  `at` reads the board.  Walks
/// outward from `t`; `attacked_def` below is the definition by attackers.
pub fn attacked<F: Fn(u8) -> u8>(at: F, c: u8, t: u8) -> bool {
    let (tf, tr) = (file(t), rank(t));
    let mut hit = false;
    let mut d = 0;
    while d < 8 {
        let (sf, sr) = DIRS[d];
        let mut blocked = false;
        let mut i = 1;
        while i < 9 {
            let (f, r) = (tf + sf * i, tr + sr * i);
            if on_board(f, r) && !blocked {
                let p = at(sq(f, r));
                if p != 0 {
                    blocked = true;
                    if color(p) == c
                        && (slides(kind(p), c, -sf, -sr)
                            || (i == 1 && steps(kind(p), c, -sf, -sr)))
                    {
                        hit = true;
                    }
                }
            }
            i += 1;
        }
        d += 1;
    }
    // knights of colour c stand two ranks behind t as seen by c
    let nr = tr + if c == 0 { 2 } else { -2 };
    if on_board(tf - 1, nr) && at(sq(tf - 1, nr)) == piece(N, c) {
        hit = true;
    }
    if on_board(tf + 1, nr) && at(sq(tf + 1, nr)) == piece(N, c) {
        hit = true;
    }
    hit
}
/// Definition: some piece of colour `c` attacks `t`.
pub fn attacked_def(b: &Board, c: u8, t: u8) -> bool {
    let mut s = 0;
    while s < 81 {
        let p = b[s as usize];
        if p != 0 && color(p) == c && attacks(kind(p), c, s, t, |x| b[x as usize] != 0) {
            return true;
        }
        s += 1;
    }
    false
}

/// The king square of colour `c`, 81 if there is none (lowest square first).
pub fn king(b: &Board, c: u8) -> u8 {
    let mut k = 81;
    let mut s = 81;
    while s > 0 {
        s -= 1;
        if b[s as usize] == piece(K, c) {
            k = s;
        }
    }
    k
}
pub fn in_check(p: &SPos, c: u8) -> bool {
    let k = king(&p.board, c);
    k < 81 && attacked(|s| p.board[s as usize], 1 - c, k)
}

/// A piece of this kind and colour would never be able to move from `s`.
#[inline(always)]
pub fn dead(k: u8, c: u8, s: u8) -> bool {
    match k {
        P | L => rel_rank(s, c) <= 1,
        N => rel_rank(s, c) <= 2,
        _ => false,
    }
}
/// Colour `c` has an unpromoted pawn on the file of `s`.
pub fn pawn_on_file(b: &Board, c: u8, s: u8) -> bool {
    let f = s / 9;
    let mut r = 0;
    let mut found = false;
    while r < 9 {
        if b[(f * 9 + r) as usize] == piece(P, c) {
            found = true;
        }
        r += 1;
    }
    found
}

/// Movement rules only: own piece, reachable, not onto an own piece, promotion
/// rules; drops: piece in hand, empty square, not dead, no second pawn.
/// Ignores the safety of the own king and the pawn drop mate rule.
pub fn pseudo_legal(p: &SPos, m: SMove) -> bool {
    match m {
        SMove::Normal { from, to, promote: pr } => {
            if from >= 81 || to >= 81 {
                return false;
            }
            let c = p.side;
            let x = p.board[from as usize];
            if x == 0 || color(x) != c {
                return false;
            }
            let y = p.board[to as usize];
            if y != 0 && color(y) == c {
                return false;
            }
            let k = kind(x);
            if !attacks(k, c, from, to, |s| p.board[s as usize] != 0) {
                return false;
            }
            promotion_ok(k, c, from, to, pr)
        }
        SMove::Drop { to, piece: x } => {
            let (k, c) = (kind(x), color(x));
            if to >= 81 || c != p.side || k < P || k > R {
                return false;
            }
            p.hands[c as usize][(k - 1) as usize] > 0
                && p.board[to as usize] == 0
                && !dead(k, c, to)
                && !(k == P && pawn_on_file(&p.board, c, to))
        }
    }
}
#[inline(always)]
pub fn promotion_ok(k: u8, c: u8, from: u8, to: u8, pr: bool) -> bool {
    if pr {
        promote(k) != 0 && (rel_rank(from, c) <= 3 || rel_rank(to, c) <= 3)
    } else {
        !dead(k, c, to)
    }
}

/// The board read through a pseudo-legal move, without copying it.
#[inline(always)]
pub fn after(b: &Board, m: SMove, s: u8) -> u8 {
    match m {
        SMove::Normal { from, to, promote: pr } => {
            if s == to {
                let x = b[from as usize];
                if pr {
                    piece(promote(kind(x)), color(x))
                } else {
                    x
                }
            } else if s == from {
                0
            } else {
                b[s as usize]
            }
        }
        SMove::Drop { to, piece: x } => {
            if s == to {
                x
            } else {
                b[s as usize]
            }
        }
    }
}
/// Colour `c`'s king square after `m`.
#[inline(always)]
pub fn king_after(b: &Board, m: SMove, c: u8, k: u8) -> u8 {
    match m {
        SMove::Normal { from, to, .. } if from == k && k < 81 && b[k as usize] == piece(K, c) => to,
        _ => k,
    }
}
/// Does `m`, played by `p.side`, leave the own king unattacked?  `k` is the own king.
pub fn safe_after(p: &SPos, m: SMove, k: u8) -> bool {
    let k2 = king_after(&p.board, m, p.side, k);
    k2 >= 81 || !attacked(|s| after(&p.board, m, s), 1 - p.side, k2)
}
/// Does `m`, played by `p.side`, attack the opponent's king (on `ok`)?
pub fn gives_check(p: &SPos, m: SMove, ok: u8) -> bool {
    ok < 81 && attacked(|s| after(&p.board, m, s), p.side, ok)
}
/// Legal except for the pawn-drop-mate rule.
pub fn legal_but_mate(p: &SPos, m: SMove) -> bool {
    pseudo_legal(p, m) && safe_after(p, m, king(&p.board, p.side))
}

/// The rules of playing a move.
pub fn apply(p: &SPos, m: SMove) -> SPos {
    let mut q = *p;
    let c = p.side as usize;
    match m {
        SMove::Normal { from, to, promote: pr } => {
            let x = p.board[from as usize];
            let y = p.board[to as usize];
            if y != 0 {
                let u = unpromote(kind(y));
                q.hands[c][(u - 1) as usize] += 1;
            }
            q.board[from as usize] = 0;
            q.board[to as usize] = if pr { piece(promote(kind(x)), color(x)) } else { x };
        }
        SMove::Drop { to, piece: x } => {
            q.hands[c][(kind(x) - 1) as usize] -= 1;
            q.board[to as usize] = x;
        }
    }
    q.side = 1 - p.side;
    q.ply = p.ply + 1;
    q
}
