//! Conversions between the specification's types, text, and shogi_core.
use crate::spec::*;
use shogi_core::{Color, Hand, Move, PartialPosition, Piece, PieceKind, Square};

pub fn to_sq(s: u8) -> Square {
    Square::from_u8(s + 1).unwrap()
}
pub fn to_color(c: u8) -> Color {
    if c == 0 {
        Color::Black
    } else {
        Color::White
    }
}
pub fn to_piece(p: u8) -> Piece {
    Piece::new(PieceKind::from_u8(kind(p)).unwrap(), to_color(color(p)))
}
pub fn to_move(m: SMove) -> Move {
    match m {
        SMove::Normal { from, to, promote } => Move::Normal { from: to_sq(from), to: to_sq(to), promote },
        SMove::Drop { to, piece } => Move::Drop { to: to_sq(to), piece: to_piece(piece) },
    }
}
pub fn of_piece(p: Option<Piece>) -> u8 {
    match p {
        None => 0,
        Some(p) => piece(p.piece_kind() as u8, if p.color() == Color::Black { 0 } else { 1 }),
    }
}
/// None for a malformed square value (which only undefined behaviour could produce)
pub fn of_move(m: Move) -> SMove {
    match m {
        Move::Normal { from, to, promote } => SMove::Normal { from: from.index().wrapping_sub(1), to: to.index().wrapping_sub(1), promote },
        Move::Drop { to, piece } => SMove::Drop { to: to.index().wrapping_sub(1), piece: of_piece(Some(piece)) },
    }
}
pub fn to_hand(h: &[u8; 7]) -> Hand {
    let mut r = Hand::default();
    for k in 0..7 {
        for _ in 0..h[k] {
            r = r.added(PieceKind::from_u8(k as u8 + 1).unwrap()).unwrap();
        }
    }
    r
}
pub fn of_hand(h: Hand) -> [u8; 7] {
    let mut r = [0; 7];
    for k in 0..7 {
        r[k] = h.count(PieceKind::from_u8(k as u8 + 1).unwrap()).unwrap_or(255);
    }
    r
}
pub fn to_core(p: &SPos) -> PartialPosition {
    let mut r = PartialPosition::empty();
    r.side_to_move_set(to_color(p.side));
    let _ = r.ply_set(p.ply);
    for s in 0..81u8 {
        if p.board[s as usize] != 0 {
            r.piece_set(to_sq(s), Some(to_piece(p.board[s as usize])));
        }
    }
    for c in 0..2u8 {
        *r.hand_of_a_player_mut(to_color(c)) = to_hand(&p.hands[c as usize]);
    }
    r
}

const KC: [char; 9] = [' ', 'P', 'L', 'N', 'S', 'G', 'B', 'R', 'K'];
pub fn show_sq(s: u8) -> String {
    if s >= 81 {
        return format!("?{s}");
    }
    format!("{}{}", s / 9 + 1, (b'a' + s % 9) as char)
}
pub fn show_move(m: SMove) -> String {
    match m {
        SMove::Normal { from, to, promote } => format!("{}{}{}", show_sq(from), show_sq(to), if promote { "+" } else { "" }),
        SMove::Drop { to, piece } => format!("{}*{}", KC.get(kind(piece) as usize).unwrap_or(&'?'), show_sq(to)),
    }
}
fn parse_sq(s: &[u8]) -> Option<u8> {
    let (f, r) = (s.first()?.checked_sub(b'1')?, s.get(1)?.checked_sub(b'a')?);
    (f < 9 && r < 9).then_some(f * 9 + r)
}
pub fn parse_move(p: &SPos, s: &str) -> Option<SMove> {
    let b = s.as_bytes();
    if b.get(1) == Some(&b'*') {
        let k = KC.iter().position(|c| *c as u8 == b[0])? as u8;
        Some(SMove::Drop { to: parse_sq(&b[2..])?, piece: piece(k, p.side) })
    } else {
        Some(SMove::Normal { from: parse_sq(b)?, to: parse_sq(&b[2..])?, promote: b.get(4) == Some(&b'+') })
    }
}
pub fn show_pos(p: &SPos) -> String {
    let mut o = String::from("sfen ");
    for r in 0..9u8 {
        let mut e = 0;
        for f in (0..9u8).rev() {
            let x = p.board[(f * 9 + r) as usize];
            if x == 0 {
                e += 1;
                continue;
            }
            if e > 0 {
                o += &e.to_string();
                e = 0;
            }
            let k = kind(x);
            let base = unpromote(k);
            if base != k {
                o.push('+');
            }
            let ch = KC[base as usize];
            o.push(if color(x) == 0 { ch } else { ch.to_ascii_lowercase() });
        }
        if e > 0 {
            o += &e.to_string();
        }
        if r < 8 {
            o.push('/');
        }
    }
    o += if p.side == 0 { " b " } else { " w " };
    let mut any = false;
    for c in 0..2 {
        for k in (0..7).rev() {
            let n = p.hands[c][k];
            if n > 0 {
                any = true;
                if n > 1 {
                    o += &n.to_string();
                }
                let ch = KC[k + 1];
                o.push(if c == 0 { ch } else { ch.to_ascii_lowercase() });
            }
        }
    }
    if !any {
        o.push('-');
    }
    o + &format!(" {}", p.ply)
}
pub fn parse_pos(s: &str) -> Option<SPos> {
    let t: Vec<&str> = s.split_whitespace().collect();
    let t = if t.first() == Some(&"sfen") { &t[1..] } else { &t[..] };
    let mut p = SPos { board: [0; 81], hands: [[0; 7]; 2], side: 0, ply: 1 };
    for (r, row) in t.first()?.split('/').enumerate() {
        let mut f = 9i32;
        let mut pr = false;
        for ch in row.chars() {
            if let Some(d) = ch.to_digit(10) {
                f -= d as i32;
            } else if ch == '+' {
                pr = true;
            } else {
                f -= 1;
                let k = KC.iter().position(|c| *c == ch.to_ascii_uppercase())? as u8;
                let k = if pr { promote(k) } else { k };
                pr = false;
                if f < 0 || r > 8 {
                    return None;
                }
                p.board[f as usize * 9 + r] = piece(k, ch.is_ascii_lowercase() as u8);
            }
        }
    }
    p.side = (*t.get(1)? == "w") as u8;
    if *t.get(2)? != "-" {
        let mut n = 0u8;
        for ch in t[2].chars() {
            if let Some(d) = ch.to_digit(10) {
                n = n * 10 + d as u8;
            } else {
                let k = KC.iter().position(|c| *c == ch.to_ascii_uppercase())?;
                p.hands[ch.is_ascii_lowercase() as usize][k - 1] = n.max(1);
                n = 0;
            }
        }
    }
    p.ply = t.get(3).and_then(|x| x.parse().ok()).unwrap_or(1);
    Some(p)
}
