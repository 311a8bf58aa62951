//! Valid positions and the legal moves of the specification.
use crate::spec::*;
use crate::Rng;

pub const TOTAL: [u8; 7] = [18, 4, 4, 4, 4, 2, 2];

pub fn valid(p: &SPos) -> bool {
    let mut tot = [0u32; 7];
    for c in 0..2 {
        for k in 0..7 {
            tot[k] += p.hands[c][k] as u32;
        }
    }
    let mut kings = [0, 0];
    let mut pf = [[0; 9]; 2];
    for s in 0..81u8 {
        let x = p.board[s as usize];
        if x == 0 {
            continue;
        }
        if !is_piece(x) {
            return false;
        }
        let (k, c) = (kind(x), color(x));
        if k == K {
            kings[c as usize] += 1;
        } else {
            tot[unpromote(k) as usize - 1] += 1;
        }
        if dead(k, c, s) {
            return false;
        }
        if k == P {
            pf[c as usize][s as usize / 9] += 1;
        }
    }
    kings.iter().all(|n| *n <= 1)
        && pf.iter().flatten().all(|n| *n <= 1)
        && (0..7).all(|k| tot[k] <= TOTAL[k] as u32)
        && p.side < 2
        && p.ply >= 1
        && !in_check(p, 1 - p.side)
}

pub fn startpos() -> SPos {
    crate::conv::parse_pos("sfen lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1").unwrap()
}

pub fn pseudo(p: &SPos) -> Vec<SMove> {
    let mut v = Vec::with_capacity(128);
    let c = p.side;
    for from in 0..81u8 {
        let x = p.board[from as usize];
        if x == 0 || color(x) != c {
            continue;
        }
        let k = kind(x);
        let (f, r) = (file(from), rank(from));
        let mut add = |to: u8| {
            let y = p.board[to as usize];
            if y == 0 || color(y) != c {
                for pr in [false, true] {
                    if promotion_ok(k, c, from, to, pr) {
                        v.push(SMove::Normal { from, to, promote: pr });
                    }
                }
            }
        };
        if k == N {
            let nr = r + if c == 0 { -2 } else { 2 };
            for df in [-1, 1] {
                if on_board(f + df, nr) {
                    add(sq(f + df, nr));
                }
            }
            continue;
        }
        for (df, dr) in DIRS {
            if slides(k, c, df, dr) {
                let mut i = 1;
                while on_board(f + df * i, r + dr * i) {
                    let to = sq(f + df * i, r + dr * i);
                    add(to);
                    if p.board[to as usize] != 0 {
                        break;
                    }
                    i += 1;
                }
            } else if steps(k, c, df, dr) && on_board(f + df, r + dr) {
                add(sq(f + df, r + dr));
            }
        }
    }
    for k in P..=R {
        if p.hands[c as usize][k as usize - 1] == 0 {
            continue;
        }
        let mut busy = [false; 9];
        if k == P {
            for s in 0..81 {
                if p.board[s] == piece(P, c) {
                    busy[s / 9] = true;
                }
            }
        }
        for to in 0..81u8 {
            if p.board[to as usize] == 0 && !dead(k, c, to) && !busy[to as usize / 9] {
                v.push(SMove::Drop { to, piece: piece(k, c) });
            }
        }
    }
    v
}
pub fn pseudo_def(p: &SPos) -> Vec<SMove> {
    let mut v = vec![];
    for from in 0..81 {
        for to in 0..81 {
            for promote in [false, true] {
                v.push(SMove::Normal { from, to, promote });
            }
        }
    }
    for k in P..=R {
        for to in 0..81 {
            v.push(SMove::Drop { to, piece: piece(k, p.side) });
        }
    }
    v.retain(|m| pseudo_legal(p, *m));
    v
}
pub fn is_mate_drop(p: &SPos, m: SMove) -> bool {
    let ok = king(&p.board, 1 - p.side);
    if ok >= 81 || !gives_check(p, m, ok) {
        return false;
    }
    let q = apply(p, m);
    let k = king(&q.board, q.side);
    !pseudo(&q).into_iter().any(|r| safe_after(&q, r, k))
}
/// The legal moves by the rules, pawn drop mates excluded (returned separately).
pub fn legal(p: &SPos) -> (Vec<SMove>, Vec<SMove>) {
    let k = king(&p.board, p.side);
    let ok = king(&p.board, 1 - p.side);
    let mut v = pseudo(p);
    v.retain(|m| safe_after(p, *m, k));
    let mut mates = vec![];
    v.retain(|m| {
        if let SMove::Drop { to, piece: x } = *m {
            if kind(x) == P && ok < 81 && steps(P, p.side, file(ok) - file(to), rank(ok) - rank(to)) && is_mate_drop(p, *m) {
                mates.push(*m);
                return false;
            }
        }
        true
    });
    (v, mates)
}

fn near(rng: &mut Rng, s: u8, d: i8) -> u8 {
    loop {
        let f = file(s) + (rng.below(2 * d as usize + 1) as i8 - d);
        let r = rank(s) + (rng.below(2 * d as usize + 1) as i8 - d);
        if on_board(f, r) {
            return sq(f, r);
        }
    }
}
fn ray(rng: &mut Rng, s: u8) -> u8 {
    let (df, dr) = DIRS[rng.below(8)];
    let i = 1 + rng.below(8) as i8;
    let (f, r) = (file(s) + df * i, rank(s) + dr * i);
    if on_board(f, r) {
        sq(f, r)
    } else {
        rng.below(81) as u8
    }
}

pub struct Style {
    pub kings: bool,
}

/// A random valid position.
pub fn random(rng: &mut Rng, st: &Style) -> SPos {
    loop {
        let p = attempt(rng, st);
        if let Some(p) = p {
            debug_assert!(valid(&p));
            return p;
        }
    }
}
fn attempt(rng: &mut Rng, st: &Style) -> Option<SPos> {
    let mut p = SPos { board: [0; 81], hands: [[0; 7]; 2], side: rng.below(2) as u8, ply: 1 };
    p.ply = if rng.chance(1, 4) { 1 + rng.below(60000) as u16 } else { 1 + rng.below(300) as u16 };
    let mode = rng.below(6);
    let mut ks = [81u8, 81];
    if st.kings {
        for c in 0..2u8 {
            if rng.chance(1, 24) {
                continue;
            }
            let s = match rng.below(5) {
                0 => rng.below(9) as u8 * 9 + if c == 0 { 8 } else { 0 },
                1 => rng.below(81) as u8,
                2 => {
                    let e = [0u8, 8][rng.below(2)];
                    if rng.chance(1, 2) { e * 9 + rng.below(9) as u8 } else { rng.below(9) as u8 * 9 + e }
                }
                3 if c == 1 && ks[0] < 81 => near(rng, ks[0], 4),
                _ => rng.below(9) as u8 * 9 + if c == 0 { 6 + rng.below(3) as u8 } else { rng.below(3) as u8 },
            };
            if p.board[s as usize] == 0 {
                p.board[s as usize] = piece(K, c);
                ks[c as usize] = s;
            }
        }
        if ks[0] < 81 && ks[1] < 81 {
            let (a, b) = (ks[0], ks[1]);
            if dist(file(a) - file(b), rank(a) - rank(b)) <= 1 {
                return None;
            }
        }
    }
    // density on the board, share lost from the game, share promoted, bias
    let dens = [8, 25, 50, 75, 95, 40][mode] as u64;
    let lost = if rng.chance(1, 2) { 0 } else { rng.below(40) as u64 };
    let prom = rng.below(100) as u64;
    let bias = rng.below(100) as u64;
    let own = if rng.chance(1, 3) { 15 + rng.below(70) as u64 } else { 50 };
    for k in P..=R {
        let bump = if k >= B { 25 } else { 0 };
        for _ in 0..TOTAL[k as usize - 1] {
            let c = !rng.chance(own, 100) as u8;
            if rng.chance(dens + bump, 100) {
                let anchor = ks[rng.below(2)];
                let s = if anchor < 81 && rng.chance(bias, 100) {
                    if rng.chance(1, 2) { let d = 1 + rng.below(3) as i8; near(rng, anchor, d) } else { ray(rng, anchor) }
                } else {
                    rng.below(81) as u8
                };
                if p.board[s as usize] != 0 {
                    continue;
                }
                let mut kk = k;
                if promote(k) != 0 && rng.chance(prom, 100) {
                    kk = promote(k);
                }
                if dead(kk, c, s) || (kk == P && pawn_on_file(&p.board, c, s)) {
                    kk = promote(k);
                }
                p.board[s as usize] = piece(kk, c);
            } else if !rng.chance(lost, 100) {
                p.hands[c as usize][k as usize - 1] += 1;
            }
        }
    }
    if rng.chance(1, 12) {
        p.hands = [[0; 7]; 2];
    } else if rng.chance(1, 5) {
        // keep a pawn in hand likely
        let tot: u8 = p.hands[0][0] + p.hands[1][0] + p.board.iter().filter(|x| **x != 0 && unpromote(kind(**x)) == P).count() as u8;
        if tot < 18 {
            p.hands[p.side as usize][0] += 1;
        }
    }
    // the opponent must not be in check: flip the side, else take checkers off
    if in_check(&p, 1 - p.side) && !in_check(&p, p.side) {
        p.side = 1 - p.side;
    }
    let ok = king(&p.board, 1 - p.side);
    let mut guard = 0;
    while in_check(&p, 1 - p.side) {
        guard += 1;
        if guard > 40 {
            return None;
        }
        for s in 0..81u8 {
            let x = p.board[s as usize];
            if x != 0 && color(x) == p.side && attacks(kind(x), color(x), s, ok, |q| p.board[q as usize] != 0) {
                if kind(x) == K {
                    return None;
                }
                p.board[s as usize] = 0;
                if rng.chance(1, 2) {
                    p.hands[rng.below(2)][unpromote(kind(x)) as usize - 1] += 1;
                }
            }
        }
    }
    if !valid(&p) {
        return None;
    }
    Some(p)
}

/// Bias a position towards pawn drop mates: the opponent's king gets its front
/// square empty and the side to move a pawn in hand.
pub fn mateish(rng: &mut Rng) -> SPos {
    for _ in 0..60 {
        let mut p = random(rng, &Style { kings: true });
        let c = p.side;
        let ok = king(&p.board, 1 - c);
        if ok >= 81 {
            continue;
        }
        let fr = rank(ok) + if c == 0 { 1 } else { -1 };
        if !on_board(file(ok), fr) {
            continue;
        }
        let t = sq(file(ok), fr);
        if kind(p.board[t as usize]) == K {
            continue;
        }
        p.board[t as usize] = 0;
        // no own pawn on the file
        for r in 0..9u8 {
            let s = (t / 9 * 9 + r) as usize;
            if p.board[s] == piece(P, c) {
                p.board[s] = 0;
            }
        }
        if p.hands[c as usize][0] == 0 {
            p.hands[c as usize][0] = 1;
        }
        // box the king in: blockers of its own colour or controlled squares
        for (df, dr) in DIRS {
            let (f, r) = (file(ok) + df, rank(ok) + dr);
            if on_board(f, r) && sq(f, r) != t && p.board[sq(f, r) as usize] == 0 && rng.chance(2, 3) {
                let k = [PP, N, L, P, G, S, PP, PL][rng.below(8)];
                if !dead(k, 1 - c, sq(f, r)) && !(k == P && pawn_on_file(&p.board, 1 - c, sq(f, r))) {
                    p.board[sq(f, r) as usize] = piece(k, 1 - c);
                }
            }
        }
        if rng.chance(3, 4) {
            // support the pawn
            let s = near(rng, t, 2);
            if p.board[s as usize] == 0 {
                let k = [G, PR, PB, S, N, L, R, B][rng.below(8)];
                if !dead(k, c, s) {
                    p.board[s as usize] = piece(k, c);
                }
            }
        }
        trim(&mut p);
        if valid(&p) {
            return p;
        }
    }
    random(rng, &Style { kings: true })
}
/// Remove pieces in excess of the physical set (hands first).
fn trim(p: &mut SPos) {
    for k in 0..7 {
        let mut n: i32 = p.hands[0][k] as i32 + p.hands[1][k] as i32;
        for s in 0..81 {
            if p.board[s] != 0 && kind(p.board[s]) != K && unpromote(kind(p.board[s])) as usize == k + 1 {
                n += 1;
            }
        }
        let mut over = n - TOTAL[k] as i32;
        for c in [1 - p.side as usize, p.side as usize] {
            while over > 0 && p.hands[c][k] > if c == p.side as usize { 1 } else { 0 } {
                p.hands[c][k] -= 1;
                over -= 1;
            }
        }
    }
}

/// Valid positions close to a given board, which need not be valid itself (a
/// counterexample of the verifier): some pieces are taken off, what the rules do
/// not allow is put right.
pub fn around(rng: &mut Rng, base: &SPos, mv: Option<SMove>) -> SPos {
    for _ in 0..100 {
        let mut p = *base;
        let keep = |s: u8| match mv {
            Some(SMove::Normal { from, to, .. }) => s == from || s == to,
            Some(SMove::Drop { to, .. }) => s == to,
            None => false,
        };
        let thin = [0, 0, 10, 30, 50, 70, 85][rng.below(7)];
        let mut left = TOTAL;
        let mut order: Vec<u8> = (0..81).collect();
        for i in 0..81 {
            order.swap(i, i + rng.below(81 - i));
        }
        order.sort_by_key(|s| !keep(*s));
        let mut kings = [0, 0];
        for s in order {
            let x = p.board[s as usize];
            if x == 0 {
                continue;
            }
            if !is_piece(x) {
                p.board[s as usize] = 0;
                continue;
            }
            let (mut k, c) = (kind(x), color(x));
            p.board[s as usize] = 0;
            if k == K {
                if kings[c as usize] == 0 {
                    kings[c as usize] = 1;
                    p.board[s as usize] = x;
                }
                continue;
            }
            if !keep(s) && rng.chance(thin, 100) {
                continue;
            }
            if left[unpromote(k) as usize - 1] == 0 {
                // another kind moving alike, if there is one
                let alike: &[u8] = match k {
                    _ if steps(k, c, 1, if c == 0 { -1 } else { 1 }) && unpromote(k) != B && unpromote(k) != R => &[G, P, L, N, S],
                    _ => &[],
                };
                match alike.iter().find(|u| left[**u as usize - 1] > 0) {
                    Some(u) => k = if *u == G { G } else { promote(*u) },
                    None => continue,
                }
            }
            if dead(k, c, s) || (k == P && pawn_on_file(&p.board, c, s)) {
                k = promote(k);
            }
            left[unpromote(k) as usize - 1] -= 1;
            p.board[s as usize] = piece(k, c);
        }
        for c in 0..2 {
            if kings[c] == 0 && rng.chance(2, 3) {
                let s = rng.below(81);
                if p.board[s] == 0 {
                    p.board[s] = piece(K, c as u8);
                }
            }
        }
        let style = rng.below(3);
        for k in 0..7 {
            for c in 0..2 {
                let want = match style {
                    0 => p.hands[c][k].min(18),
                    1 => (p.hands[c][k] > 0) as u8,
                    _ => rng.below(left[k] as usize + 1) as u8,
                };
                p.hands[c][k] = want.min(left[k]);
                left[k] -= p.hands[c][k];
            }
        }
        p.ply = if rng.chance(1, 2) { 1 + rng.below(300) as u16 } else { p.ply.clamp(1, 60000) };
        if in_check(&p, 1 - p.side) && !in_check(&p, p.side) && rng.chance(1, 2) {
            p.side = 1 - p.side;
        }
        let ok = king(&p.board, 1 - p.side);
        for s in 0..81u8 {
            let x = p.board[s as usize];
            if ok < 81 && x != 0 && kind(x) != K && color(x) == p.side && attacks(kind(x), color(x), s, ok, |q| p.board[q as usize] != 0) {
                p.board[s as usize] = 0;
            }
        }
        if valid(&p) {
            return p;
        }
    }
    random(rng, &Style { kings: true })
}
