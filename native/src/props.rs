//! The observables of each property, checked at a node of a game history.
use crate::conv::*;
use crate::gen::*;
use crate::spec::*;
use crate::Rng;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yasai::Position;

pub struct Ctx {
    pub prop: String,
    pub evals: u64,
    pub nontrivial: u64,
    pub sample: String,
    pub fail: Option<(String, String)>,
}
impl Ctx {
    pub fn new(p: &str) -> Self {
        Ctx { prop: p.to_string(), evals: 0, nontrivial: 0, sample: String::new(), fail: None }
    }
}

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        format!("panic: {}", s.unwrap_or_default())
    })
}

fn list(pos: &Position) -> Vec<SMove> {
    pos.legal_moves().into_iter().map(of_move).collect()
}
fn well_formed(m: &SMove) -> bool {
    match *m {
        SMove::Normal { from, to, .. } => from < 81 && to < 81,
        SMove::Drop { to, piece } => to < 81 && is_piece(piece),
    }
}
fn show_set(v: &[SMove]) -> String {
    v.iter().take(6).map(|m| show_move(*m)).collect::<Vec<_>>().join(" ")
}

/// Board, hands, side and ply as the accessors report them.
fn read(pos: &Position) -> SPos {
    let mut p = SPos { board: [0; 81], hands: [[0; 7]; 2], side: 0, ply: pos.ply() };
    p.side = (pos.side_to_move() == shogi_core::Color::White) as u8;
    for s in 0..81u8 {
        p.board[s as usize] = of_piece(pos.piece_at(to_sq(s)));
    }
    for c in 0..2u8 {
        p.hands[c as usize] = of_hand(pos.hand(to_color(c)));
    }
    p
}
#[derive(PartialEq, Eq, Hash, Clone)]
struct Obs {
    p: Vec<u8>,
    ply: u16,
    keys: (u64, u64),
    key: u64,
    check: bool,
    moves: Vec<SMove>,
    gives: Vec<bool>,
}
fn observe(pos: &Position, sorted: bool) -> Obs {
    let r = read(pos);
    let mut p = r.board.to_vec();
    p.extend_from_slice(&r.hands[0]);
    p.extend_from_slice(&r.hands[1]);
    p.push(r.side);
    let mut moves = list(pos);
    if sorted {
        moves.sort();
    }
    let gives = moves.iter().map(|m| well_formed(m) && pos.is_check_move(to_move(*m))).collect();
    Obs { p, ply: r.ply, keys: pos.keys(), key: pos.key(), check: pos.in_check(), moves, gives }
}
fn diff(a: &Obs, b: &Obs) -> String {
    let mut v = vec![];
    if a.p != b.p {
        v.push("board/hands/side".to_string());
    }
    if a.ply != b.ply {
        v.push(format!("ply {} vs {}", a.ply, b.ply));
    }
    if a.keys != b.keys || a.key != b.key {
        v.push(format!("keys {:x?} vs {:x?}", a.keys, b.keys));
    }
    if a.check != b.check {
        v.push(format!("in_check {} vs {}", a.check, b.check));
    }
    if a.moves != b.moves {
        let x: Vec<_> = a.moves.iter().filter(|m| !b.moves.contains(m)).copied().collect();
        let y: Vec<_> = b.moves.iter().filter(|m| !a.moves.contains(m)).copied().collect();
        v.push(format!("legal moves differ: only first [{}] only second [{}]", show_set(&x), show_set(&y)));
    } else if a.gives != b.gives {
        v.push("is_check_move differs".to_string());
    }
    v.join("; ")
}

/// Does building the history count as part of the property?
fn history_matters(prop: &str) -> bool {
    matches!(prop, "C07" | "C08" | "C11" | "C12" | "C16" | "C17")
}

/// The check of `prop` at one node.  `sp` is the specification's state.
fn node(prop: &str, pos: &mut Position, sp: &SPos, rng: &mut Rng, nontrivial: &mut u64) -> Result<(), String> {
    let c = sp.side;
    let k = king(&sp.board, c);
    let ok = king(&sp.board, 1 - c);
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C15" => {
            let got = list(pos);
            if let Some(m) = got.iter().find(|m| !well_formed(m)) {
                return Err(format!("malformed move {m:?}"));
            }
            let (want, mates) = legal(sp);
            *nontrivial += !want.is_empty() as u64;
            let mut g = got.clone();
            g.sort();
            let dup = g.windows(2).find(|w| w[0] == w[1]).map(|w| w[0]);
            let mut w = want.clone();
            w.sort();
            let extra: Vec<SMove> = g.iter().filter(|m| w.binary_search(m).is_err()).copied().collect();
            let missing: Vec<SMove> = w.iter().filter(|m| g.binary_search(m).is_err()).copied().collect();
            match prop {
                "C01" if !extra.is_empty() => Err(format!("illegal moves returned: {}", show_set(&extra))),
                "C02" if !missing.is_empty() => Err(format!("legal moves missing: {}", show_set(&missing))),
                "C02" if dup.is_some() => Err(format!("move returned twice: {}", show_move(dup.unwrap()))),
                "C03" => {
                    // drops, apart from the pawn drop mate rule
                    let d = |m: &&SMove| matches!(m, SMove::Drop { .. });
                    *nontrivial += 0;
                    let e: Vec<SMove> = extra.iter().filter(d).filter(|m| !mates.contains(m)).copied().collect();
                    let ms: Vec<SMove> = missing.iter().filter(d).filter(|m| !is_front_pawn(sp, **m, ok)).copied().collect();
                    if !e.is_empty() {
                        return Err(format!("forbidden drops returned: {}", show_set(&e)));
                    }
                    if !ms.is_empty() {
                        return Err(format!("allowed drops missing: {}", show_set(&ms)));
                    }
                    if let Some(m) = dup.filter(|m| matches!(m, SMove::Drop { .. })) {
                        return Err(format!("drop returned twice: {}", show_move(m)));
                    }
                    Ok(())
                }
                "C04" => {
                    if ok >= 81 {
                        return Ok(());
                    }
                    let fr = rank(ok) + if c == 0 { 1 } else { -1 };
                    if !on_board(file(ok), fr) {
                        return Ok(());
                    }
                    let m = SMove::Drop { to: sq(file(ok), fr), piece: piece(P, c) };
                    if mates.contains(&m) && g.contains(&m) {
                        return Err(format!("pawn drop mate returned: {}", show_move(m)));
                    }
                    if w.contains(&m) && !g.contains(&m) {
                        return Err(format!("pawn drop check that is no mate is missing: {}", show_move(m)));
                    }
                    Ok(())
                }
                "C05" => {
                    // for each from-to pair both the code and the rules allow in some form
                    let pr = |v: &[SMove], f: u8, t: u8| {
                        (v.contains(&SMove::Normal { from: f, to: t, promote: false }), v.contains(&SMove::Normal { from: f, to: t, promote: true }))
                    };
                    for m in &extra {
                        if let SMove::Normal { from, to, promote: pm } = *m {
                            let x = sp.board[from as usize];
                            let (a, b) = pr(&w, from, to);
                            if a || b {
                                return Err(format!("promotion choice not allowed: {} (piece {})", show_move(*m), x));
                            }
                            if x != 0 && color(x) == c && !promotion_ok(kind(x), c, from, to, pm) {
                                return Err(format!("promotion choice not allowed: {}", show_move(*m)));
                            }
                        }
                    }
                    for m in &missing {
                        if let SMove::Normal { from, to, .. } = *m {
                            let (a, b) = pr(&g, from, to);
                            if a || b {
                                return Err(format!("promotion choice missing: {}", show_move(*m)));
                            }
                        }
                    }
                    Ok(())
                }
                "C06" => {
                    let chk = in_check(sp, c);
                    for m in &g {
                        let reads = match *m {
                            SMove::Normal { from, .. } => sp.board[from as usize] != 0,
                            _ => true,
                        };
                        if reads && !safe_after(sp, *m, k) {
                            return Err(format!("own king left attacked by {}", show_move(*m)));
                        }
                    }
                    if chk {
                        if let Some(m) = missing.iter().find(|m| !is_front_pawn(sp, **m, ok)) {
                            return Err(format!("evasion missing: {}", show_move(*m)));
                        }
                    } else if let Some(m) = missing.iter().find(|m| match **m {
                        // held back although it does not expose the king
                        SMove::Normal { from, .. } => k < 81 && (from == k || aligned(file(from) - file(k), rank(from) - rank(k))),
                        _ => false,
                    }) {
                        return Err(format!("move withheld although the king stays safe: {}", show_move(*m)));
                    }
                    Ok(())
                }
                "C15" => {
                    if k < 81 {
                        return Ok(());
                    }
                    let bt = |v: &[SMove]| {
                        let mut r: Vec<(u8, u8)> = v.iter().filter_map(|m| if let SMove::Normal { from, to, .. } = m { Some((*from, *to)) } else { None }).collect();
                        r.dedup();
                        r
                    };
                    let (a, b) = (bt(&g), bt(&w));
                    if let Some((f, t)) = a.iter().find(|x| !b.contains(x)) {
                        return Err(format!("unreachable destination {}{}", show_sq(*f), show_sq(*t)));
                    }
                    if let Some((f, t)) = b.iter().find(|x| !a.contains(x)) {
                        return Err(format!("reachable destination missing {}{}", show_sq(*f), show_sq(*t)));
                    }
                    Ok(())
                }
                _ => Ok(()),
            }
        }
        "C07" => {
            *nontrivial += 1;
            let r = read(pos);
            if r != *sp {
                return Err(format!("position is {} where the rules give {}", show_pos(&r), show_pos(sp)));
            }
            // every legal move in turn
            for m in some(legal(sp).0, rng, 24) {
                let mut q = pos.clone();
                q.do_move(to_move(m));
                let (r, e) = (read(&q), apply(sp, m));
                if r != e {
                    return Err(format!("after {}: {} where the rules give {}", show_move(m), show_pos(&r), show_pos(&e)));
                }
            }
            Ok(())
        }
        "C08" => {
            let before = observe(pos, false);
            for m in some(legal(sp).0, rng, 12) {
                *nontrivial += 1;
                pos.do_move(to_move(m));
                let mut deep = vec![];
                if rng.chance(1, 3) {
                    let mut q = apply(sp, m);
                    for _ in 0..rng.below(3) + 1 {
                        let l = legal(&q).0;
                        if l.is_empty() || q.ply > 65000 {
                            break;
                        }
                        let n = l[rng.below(l.len())];
                        pos.do_move(to_move(n));
                        deep.push(n);
                        q = apply(&q, n);
                    }
                }
                for n in deep.iter().rev() {
                    pos.undo_move(to_move(*n));
                }
                pos.undo_move(to_move(m));
                let after = observe(pos, false);
                if before != after {
                    return Err(format!("after do and undo of {} [{}]: {}", show_move(m), show_set(&deep), diff(&before, &after)));
                }
            }
            Ok(())
        }
        "C09" => {
            let w = in_check(sp, c);
            *nontrivial += w as u64;
            if pos.in_check() != w {
                return Err(format!("in_check() is {} where the rules say {}", !w, w));
            }
            for m in some(legal(sp).0, rng, 40) {
                let mut q = pos.clone();
                q.do_move(to_move(m));
                let e = in_check(&apply(sp, m), 1 - c);
                *nontrivial += e as u64;
                if q.in_check() != e {
                    return Err(format!("after {}: in_check() is {} where the rules say {}", show_move(m), !e, e));
                }
            }
            Ok(())
        }
        "C10" => {
            for m in legal(sp).0 {
                let e = gives_check(sp, m, ok);
                *nontrivial += e as u64;
                if pos.is_check_move(to_move(m)) != e {
                    return Err(format!("is_check_move({}) is {} where the rules say {}", show_move(m), !e, e));
                }
            }
            Ok(())
        }
        "C11" => {
            *nontrivial += 1;
            let a = observe(pos, true);
            let b = observe(&Position::new(to_core(sp)), true);
            if a != b {
                return Err(format!("reached by moves vs constructed: {}", diff(&a, &b)));
            }
            for m in some(legal(sp).0, rng, 4) {
                let mut q = pos.clone();
                q.do_move(to_move(m));
                let a = observe(&q, true);
                let b = observe(&Position::new(to_core(&apply(sp, m))), true);
                if a != b {
                    return Err(format!("after {}, reached by moves vs constructed: {}", show_move(m), diff(&a, &b)));
                }
            }
            Ok(())
        }
        "C12" => {
            *nontrivial += 1;
            keys_ok(pos, sp)?;
            for m in some(legal(sp).0, rng, 16) {
                let mut q = pos.clone();
                q.do_move(to_move(m));
                keys_ok(&q, &apply(sp, m)).map_err(|e| format!("after {}: {e}", show_move(m)))?;
            }
            Ok(())
        }
        "C13" => {
            *nontrivial += 1;
            let a = pos.keys();
            for m in some(legal(sp).0, rng, 16) {
                let mut q = pos.clone();
                q.do_move(to_move(m));
                if q.keys().0 == a.0 || q.key() == pos.key() {
                    return Err(format!("same key before and after {}", show_move(m)));
                }
            }
            // neighbours: one square, one hand count or the side changed
            for _ in 0..12 {
                let mut q = *sp;
                let what = rng.below(3);
                match what {
                    0 => q.side = 1 - q.side,
                    1 => {
                        let s = rng.below(81);
                        let old = q.board[s];
                        loop {
                            let x = rng.below(31) as u8;
                            if (x == 0 || is_piece(x)) && x != old {
                                q.board[s] = x;
                                break;
                            }
                        }
                    }
                    _ => {
                        let (h, kk) = (rng.below(2), rng.below(7));
                        let n = rng.below(TOTAL[kk] as usize + 1) as u8;
                        if n == q.hands[h][kk] {
                            continue;
                        }
                        q.hands[h][kk] = n;
                    }
                }
                if !valid(&q) {
                    continue;
                }
                let b = Position::new(to_core(&q));
                let same = if what == 2 { b.keys().1 == a.1 } else { b.keys().0 == a.0 };
                if same || b.key() == pos.key() {
                    return Err(format!("same key as the different position {}", show_pos(&q)));
                }
            }
            Ok(())
        }
        "C14" => {
            *nontrivial += 1;
            let q = Position::new(to_core(sp));
            let r = read(&q);
            if r != *sp {
                return Err(format!("constructed from {} but reports {}", show_pos(sp), show_pos(&r)));
            }
            if q.in_check() != in_check(sp, c) {
                return Err("constructed position reports the wrong check status".into());
            }
            Ok(())
        }
        "C16" => {
            *nontrivial += 1;
            let o = observe(pos, true);
            let r = read(pos);
            if r != *sp {
                return Err("board, hands, side or ply differ".into());
            }
            if o.check != in_check(sp, c) {
                return Err("in_check differs".into());
            }
            let mut w = legal(sp).0;
            w.sort();
            if o.moves != w {
                let x: Vec<_> = o.moves.iter().filter(|m| !w.contains(m)).copied().collect();
                let y: Vec<_> = w.iter().filter(|m| !o.moves.contains(m)).copied().collect();
                return Err(format!("moves differ: extra [{}] missing [{}]", show_set(&x), show_set(&y)));
            }
            for (m, b) in w.iter().zip(&o.gives) {
                if gives_check(sp, *m, ok) != *b {
                    return Err(format!("is_check_move({}) differs", show_move(*m)));
                }
            }
            Ok(())
        }
        "C17" => {
            *nontrivial += 1;
            let o = observe(pos, true);
            if let Some(m) = o.moves.iter().find(|m| !well_formed(m)) {
                return Err(format!("malformed move {m:?}"));
            }
            for m in some(legal(sp).0, rng, 16) {
                pos.is_check_move(to_move(m));
                pos.do_move(to_move(m));
                pos.legal_moves();
                pos.in_check();
                pos.undo_move(to_move(m));
            }
            Ok(())
        }
        _ => Err(format!("unknown property {prop}")),
    }
}
fn is_front_pawn(sp: &SPos, m: SMove, ok: u8) -> bool {
    match m {
        SMove::Drop { to, piece: x } => kind(x) == P && ok < 81 && steps(P, sp.side, file(ok) - file(to), rank(ok) - rank(to)),
        _ => false,
    }
}
fn keys_ok(pos: &Position, sp: &SPos) -> Result<(), String> {
    let k = pos.keys();
    if pos.key() != k.0 ^ k.1 {
        return Err("key() is not the combination of keys()".into());
    }
    let full = Position::new(to_core(sp));
    if full.keys() != k || full.key() != pos.key() {
        return Err(format!("keys {:x?} but {:x?} for the same position constructed directly", k, full.keys()));
    }
    let mut b = *sp;
    b.hands = [[0; 7]; 2];
    b.ply = 1;
    let bk = Position::new(to_core(&b)).keys();
    if bk.0 != k.0 {
        return Err("board key depends on hands or ply".into());
    }
    let mut h = *sp;
    h.board = [0; 81];
    h.side = 1 - h.side;
    let hk = Position::new(to_core(&h)).keys();
    if hk.1 != k.1 {
        return Err("hand key depends on board or side".into());
    }
    Ok(())
}
pub static EXHAUSTIVE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn some(mut v: Vec<SMove>, rng: &mut Rng, n: usize) -> Vec<SMove> {
    if EXHAUSTIVE.load(std::sync::atomic::Ordering::Relaxed) {
        return v;
    }
    // captures, promotions and king moves first by chance: shuffle a prefix
    let l = v.len();
    for i in 0..n.min(l) {
        let j = i + rng.below(l - i);
        v.swap(i, j);
    }
    v.truncate(n);
    v
}

#[derive(Clone, Copy)]
enum Step {
    Do(SMove),
    Undo,
}

fn run(prop: &str, start: &SPos, mut next: impl FnMut(&SPos, usize, &mut Rng) -> Option<Step>, rng: &mut Rng, evals: &mut u64, nontrivial: &mut u64) -> Option<(String, String)> {
    let mut text = show_pos(start);
    let mut pos = match guard(|| Position::new(to_core(start))) {
        Ok(p) => p,
        Err(e) => return if history_matters(prop) || prop == "C14" { Some((text, format!("constructor: {e}"))) } else { None },
    };
    let mut stack: Vec<(SPos, SMove)> = vec![];
    let mut sp = *start;
    let mut first = true;
    loop {
        *evals += 1;
        trace(&text);
        match guard(|| node(prop, &mut pos, &sp, rng, nontrivial)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => return Some((text, e)),
        }
        let st = next(&sp, stack.len(), rng)?;
        if first {
            text += " moves";
            first = false;
        }
        let r = match st {
            Step::Do(m) => {
                text += &format!(" {}", show_move(m));
                stack.push((sp, m));
                sp = apply(&sp, m);
                guard(|| pos.do_move(to_move(m)))
            }
            Step::Undo => {
                text += " undo";
                let (s, m) = stack.pop().unwrap();
                sp = s;
                guard(|| pos.undo_move(to_move(m)))
            }
        };
        if let Err(e) = r {
            return history_matters(prop).then_some((text, e));
        }
        // a copy of the position has the same history
        if sp.ply % 7 == 3 && (prop == "C08" || prop == "C11") {
            match guard(|| pos.clone()) {
                Ok(p) => pos = p,
                Err(e) => return Some((text, e)),
            }
        }
    }
}

thread_local! {
    /// Where to note the case about to be evaluated, for crashes and hangs.
    pub static TRACE: std::cell::RefCell<Option<std::fs::File>> = const { std::cell::RefCell::new(None) };
}
fn trace(text: &str) {
    use std::os::unix::fs::FileExt;
    TRACE.with(|t| {
        if let Some(f) = t.borrow().as_ref() {
            let mut b = text.as_bytes().to_vec();
            b.push(b'\n');
            let _ = f.write_at(&b, 0);
        }
    });
}

/// A position and move to search around (--near).
pub static NEAR: std::sync::OnceLock<(SPos, Option<SMove>)> = std::sync::OnceLock::new();
/// "81 board entries,14 hand entries,side,kind of move,from or piece,to,promote"
pub fn set_near(s: &str) {
    let v: Vec<u8> = s.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    if v.len() != 100 {
        return;
    }
    let mut p = SPos { board: [0; 81], hands: [[0; 7]; 2], side: v[95] & 1, ply: 1 };
    p.board.copy_from_slice(&v[..81]);
    for i in 0..14 {
        p.hands[i / 7][i % 7] = v[81 + i];
    }
    let m = match v[96] {
        1 if v[97] < 81 && v[98] < 81 => Some(SMove::Normal { from: v[97], to: v[98], promote: v[99] != 0 }),
        2 if v[98] < 81 && is_piece(v[97]) => Some(SMove::Drop { to: v[98], piece: v[97] }),
        _ => None,
    };
    let _ = NEAR.set((p, m));
}

fn start(prop: &str, rng: &mut Rng) -> SPos {
    if let Some((p, m)) = NEAR.get() {
        return around(rng, p, *m);
    }
    if prop == "C15" {
        return random(rng, &Style { kings: false });
    }
    if prop == "C04" {
        return if rng.chance(4, 5) { mateish(rng) } else { random(rng, &Style { kings: true }) };
    }
    match rng.below(10) {
        0 => startpos(),
        1 => mateish(rng),
        2 if rng.chance(1, 4) => random(rng, &Style { kings: false }),
        _ => random(rng, &Style { kings: true }),
    }
}

pub fn run_case(cx: &mut Ctx, rng: &mut Rng) {
    let sp = start(&cx.prop, rng);
    let mut left = match rng.below(4) {
        0 => 0,
        1 => 1 + rng.below(3),
        _ if NEAR.get().is_some() => 1 + rng.below(3),
        2 => 1 + rng.below(10),
        _ => 1 + rng.below(if sp == startpos() { 120 } else { 30 }),
    };
    if cx.prop == "C15" || cx.prop == "C14" {
        left = left.min(1);
    }
    // now and then a long game, taken back move by move afterwards
    let mut long = if !["C15", "C14", "C04", "C05"].contains(&cx.prop.as_str()) && NEAR.get().is_none() && rng.chance(1, 150) { [140, 280, 600, 1100][rng.below(4)] } else { 0 };
    if long > 0 {
        left = 4 * long;
    }
    let mut back = false;
    let forcing = rng.below(3);
    cx.sample = show_pos(&sp);
    let prop = cx.prop.clone();
    let next = move |q: &SPos, depth: usize, r: &mut Rng| {
        if left == 0 {
            return None;
        }
        left -= 1;
        if long > 0 {
            if depth >= long {
                back = true;
            }
            if back && depth == 0 {
                back = false;
                long = 5;
            }
        }
        if depth > 0 && (if long == 0 { r.chance(1, 6) } else { r.chance(if back { 29 } else { 1 }, 30) }) {
            return Some(Step::Undo);
        }
        if q.ply > 65000 {
            return None;
        }
        let l = legal(q).0;
        if l.is_empty() {
            return (long > 0 && depth > 0).then_some(Step::Undo);
        }
        if let Some((_, Some(m))) = NEAR.get() {
            if depth == 0 && l.contains(m) && r.chance(2, 3) {
                return Some(Step::Do(*m));
            }
        }
        if forcing == 0 {
            // prefer checks
            let ok = king(&q.board, 1 - q.side);
            let g: Vec<SMove> = l.iter().filter(|m| gives_check(q, **m, ok)).copied().collect();
            if !g.is_empty() {
                return Some(Step::Do(g[r.below(g.len())]));
            }
        } else if forcing == 1 && r.chance(1, 2) {
            // prefer captures and promotions
            let g: Vec<SMove> = l
                .iter()
                .filter(|m| match **m {
                    SMove::Normal { to, promote, .. } => promote || q.board[to as usize] != 0,
                    _ => false,
                })
                .copied()
                .collect();
            if !g.is_empty() {
                return Some(Step::Do(g[r.below(g.len())]));
            }
        }
        Some(Step::Do(l[r.below(l.len())]))
    };
    let (mut e, mut n) = (0, 0);
    cx.fail = run(&prop, &sp, next, rng, &mut e, &mut n);
    cx.evals = e;
    cx.nontrivial = n;
}

/// Checks that do not depend on a random case.
pub fn once(prop: &str) -> Option<(String, String)> {
    if prop == "C13" {
        return entries().err().map(|e| ("-".to_string(), e));
    }
    None
}
/// The key contributions of every (square, piece) and (owner, kind, ordinal),
/// read off the public API; all distinct, non-zero, and distinct pairwise sums.
fn entries() -> Result<(), String> {
    let mut v: Vec<(u64, String)> = vec![];
    let base = SPos { board: [0; 81], hands: [[0; 7]; 2], side: 0, ply: 1 };
    let e = Position::new(to_core(&base));
    let white = Position::new(to_core(&SPos { side: 1, ..base }));
    if e.keys() == white.keys() || e.key() == white.key() {
        return Err("the side to move does not show in the keys".into());
    }
    for s in 0..81u8 {
        for x in 1..31u8 {
            if !is_piece(x) {
                continue;
            }
            let mut p = base;
            p.board[s as usize] = x;
            let a = guard(|| Position::new(to_core(&p)).keys()).map_err(|e| format!("{}: {e}", show_pos(&p)))?;
            v.push((a.0 ^ e.keys().0, show_pos(&p)));
        }
    }
    let side = e.keys().0 ^ white.keys().0;
    let mut h: Vec<(u64, String)> = vec![];
    for c in 0..2 {
        for k in 0..7 {
            let mut prev = e.keys().1;
            let mut tot = vec![prev];
            for n in 1..=TOTAL[k] {
                let mut p = base;
                p.hands[c][k] = n;
                let a = guard(|| Position::new(to_core(&p)).keys()).map_err(|e| format!("{}: {e}", show_pos(&p)))?;
                h.push((a.1 ^ prev, show_pos(&p)));
                prev = a.1;
                if tot.contains(&a.1) {
                    return Err(format!("two hand counts share a key: {}", show_pos(&p)));
                }
                tot.push(a.1);
            }
        }
    }
    for set in [&v, &h] {
        let mut seen = std::collections::HashMap::new();
        seen.insert(0u64, "no piece".to_string());
        if std::ptr::eq(set, &v) {
            seen.insert(side, "side to move".to_string());
        }
        for (k, s) in set {
            if let Some(o) = seen.insert(*k, s.clone()) {
                return Err(format!("same key contribution: {s} and {o}"));
            }
        }
        // differences of two contributions are distinct (so are all keys of
        // positions that differ in up to four contributions)
        let mut d: Vec<u64> = Vec::with_capacity(set.len() * set.len() / 2);
        for i in 0..set.len() {
            for j in 0..i {
                d.push(set[i].0 ^ set[j].0);
            }
            d.push(set[i].0);
        }
        d.push(side);
        d.sort_unstable();
        if let Some(w) = d.windows(2).find(|w| w[0] == w[1]) {
            return Err(format!("two pairs of key contributions combine to the same value {:x}", w[0]));
        }
    }
    Ok(())
}

pub fn replay(prop: &str, case: &str) -> Result<Option<String>, String> {
    EXHAUSTIVE.store(true, std::sync::atomic::Ordering::Relaxed);
    if case == "-" {
        return Ok(once(prop).map(|x| x.1));
    }
    let (a, b) = match case.split_once(" moves") {
        Some((a, b)) => (a, b),
        None => (case, ""),
    };
    let sp = parse_pos(a).ok_or("cannot parse the position")?;
    if !valid(&sp) {
        return Err("not a valid position".into());
    }
    let toks: Vec<String> = b.split_whitespace().map(|s| s.to_string()).collect();
    let mut i = 0;
    let bad = std::cell::Cell::new(false);
    let next = |q: &SPos, depth: usize, _r: &mut Rng| {
        let t = toks.get(i)?;
        i += 1;
        if t == "undo" {
            if depth == 0 {
                bad.set(true);
                return None;
            }
            return Some(Step::Undo);
        }
        let m = parse_move(q, t)?;
        if !legal(q).0.contains(&m) {
            bad.set(true);
            return None;
        }
        Some(Step::Do(m))
    };
    let mut rng = Rng::new(1);
    let (mut e, mut n) = (0, 0);
    let out = run(prop, &sp, next, &mut rng, &mut e, &mut n);
    if bad.get() {
        return Err("illegal move in the history".into());
    }
    Ok(out.map(|x| x.1))
}

/// A transcript of everything observable for case number `i`, hashed.
pub fn digest(seed: u64, i: u64) -> (u64, String) {
    let mut rng = Rng::new(seed ^ (i << 20) ^ 0x5151);
    let start = start("C16", &mut rng);
    let mut h = DefaultHasher::new();
    let mut text = show_pos(&start);
    let r = guard(|| {
        let mut pos = Position::new(to_core(&start));
        let mut sp = start;
        let mut obs = vec![observe(&pos, false)];
        for j in 0..rng.below(12) {
            let l = legal(&sp).0;
            if l.is_empty() {
                break;
            }
            let m = l[rng.below(l.len())];
            text += &format!("{} {}", if j == 0 { " moves" } else { "" }, show_move(m));
            pos.do_move(to_move(m));
            sp = apply(&sp, m);
            obs.push(observe(&pos, false));
        }
        obs
    });
    match r {
        Ok(o) => o.hash(&mut h),
        Err(e) => e.hash(&mut h),
    }
    (h.finish(), text)
}
