//! Overlay support: constant tables, symbolic inputs.
#![allow(dead_code)]

#[path = "spec.rs"]
pub mod spec;

/// Stand-in for `once_cell::sync::Lazy` holding the already computed value.
pub struct Tab<T>(T);
impl<T> Tab<T> {
    pub const fn new(v: T) -> Self {
        Tab(v)
    }
}
impl<T> core::ops::Deref for Tab<T> {
    type Target = T;
    #[inline(always)]
    fn deref(&self) -> &T {
        &self.0
    }
}

/// The loop rule used for `for` loops whose body carries no state from one
/// iteration to the next (tools/overlay.py checks that on the source): the loop
/// is replaced by one arbitrary iteration.  Nested loops choose one element per
/// nesting depth; loops at the same depth share the choice.
#[cfg(kani)]
pub mod pick {
    use crate::bitboard::Bitboard;
    use shogi_core::Square;
    /// The chosen square per nesting depth, set by the harness.
    pub static mut PICK: [u8; 4] = [0; 4];
    pub static mut DEPTH: usize = 0;
    /// Deepest loop nest the rule was applied to.
    pub static mut DEEP: usize = 0;
    /// Has a nest of depth `d` been entered under the rule?  A harness whose
    /// conclusion speaks of the chosen elements requires it.
    pub fn entered(d: usize) -> bool {
        unsafe { DEEP >= d }
    }
    pub struct W<T>(pub Option<T>);
    pub struct One<T>(Option<T>);
    impl<T> Iterator for One<T> {
        type Item = T;
        #[inline(always)]
        fn next(&mut self) -> Option<T> {
            let r = self.0.take();
            if r.is_none() {
                unsafe { DEPTH -= 1 }
            }
            r
        }
    }
    pub trait A {
        fn pick(self) -> One<Square>;
    }
    impl A for W<Bitboard> {
        #[inline(always)]
        fn pick(self) -> One<Square> {
            let s = unsafe { PICK[DEPTH] };
            unsafe {
                DEPTH += 1;
                if DEPTH > DEEP {
                    DEEP = DEPTH
                }
            }
            let b = self.0.unwrap();
            One(if super::sym::has(&b, s) { Some(super::sym::to_sq(s)) } else { None })
        }
    }
    /// Any other iterator (short, e.g. the kinds of held pieces) runs in full.
    pub trait B {
        type I: Iterator;
        fn pick(self) -> Self::I;
    }
    impl<X: IntoIterator> B for &mut W<X> {
        type I = X::IntoIter;
        #[inline(always)]
        fn pick(self) -> X::IntoIter {
            self.0.take().unwrap().into_iter()
        }
    }
    /// No loop was left by a `return` from inside it.
    pub fn fell_through() -> bool {
        unsafe { DEPTH == 0 }
    }
}
#[macro_export]
macro_rules! pick {
    ($e:expr) => {{
        #[allow(unused_imports)]
        use crate::kharness::pick::{A, B};
        crate::kharness::pick::W(Some($e)).pick()
    }};
}
/// Loops that only unite into, or store into, variables they do not read: the
/// same rule when the harness asks for it (`acc::ON`), else the loop itself.
#[cfg(kani)]
pub mod acc {
    use super::pick::*;
    use crate::bitboard::Bitboard;
    use shogi_core::Square;
    pub static mut ON: bool = false;
    /// The element of an iteration over squares / the position in any other iteration.
    pub static mut AT: u8 = 0;
    pub static mut NTH: usize = 0;
    static mut LEN: u32 = 0;
    /// How often a statement run once per iteration runs: `for _ in 0..bump() { n += 1 }`.
    #[inline(always)]
    pub fn bump() -> u32 {
        unsafe { if ON { LEN } else { 1 } }
    }
    pub enum Sel<T, I> {
        One(Option<T>),
        All(I),
    }
    impl<T, I: Iterator<Item = T>> Iterator for Sel<T, I> {
        type Item = T;
        #[inline(always)]
        fn next(&mut self) -> Option<T> {
            match self {
                Sel::One(x) => x.take(),
                Sel::All(i) => i.next(),
            }
        }
    }
    pub trait C {
        type I: Iterator<Item = Square>;
        fn acc(self) -> Sel<Square, Self::I>;
    }
    impl C for W<Bitboard> {
        type I = <Bitboard as IntoIterator>::IntoIter;
        #[inline(always)]
        fn acc(self) -> Sel<Square, Self::I> {
            if unsafe { !ON } {
                return Sel::All(self.0.unwrap().into_iter());
            }
            let s = unsafe { AT };
            let b = self.0.unwrap();
            let w = super::sym::words(b);
            unsafe { LEN = w[0].count_ones() + w[1].count_ones() }
            Sel::One(if super::sym::has(&b, s) { Some(super::sym::to_sq(s)) } else { None })
        }
    }
    pub trait D {
        type T;
        type I: Iterator<Item = Self::T>;
        fn acc(self) -> Sel<Self::T, Self::I>;
    }
    impl<X: IntoIterator> D for &mut W<X> {
        type T = X::Item;
        type I = X::IntoIter;
        #[inline(always)]
        fn acc(self) -> Sel<X::Item, X::IntoIter> {
            let mut i = self.0.take().unwrap().into_iter();
            if unsafe { !ON } {
                return Sel::All(i);
            }
            Sel::One(i.nth(unsafe { NTH }))
        }
    }
}
#[macro_export]
macro_rules! pick_acc {
    ($e:expr) => {{
        #[allow(unused_imports)]
        use crate::kharness::acc::{C, D};
        crate::kharness::pick::W(Some($e)).acc()
    }};
}

/// The history of a position: an unknown number of states that nothing looks at,
/// beneath those the harness shows. `Hist<State>` stands for `Vec<State>` in
/// position.rs, so that the contracts of do_move and undo_move hold for games of
/// any length; an access beneath the states shown leaves the contract undecided.
#[cfg(kani)]
pub mod hist {
    #[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
    pub struct Hist<T> {
        base: usize,
        items: Vec<T>,
    }
    pub trait Hide {
        /// any number of earlier states
        fn hide(&mut self);
    }
    impl<T> Hide for Vec<T> {
        fn hide(&mut self) {}
    }
    impl<T> Hide for Hist<T> {
        fn hide(&mut self) {
            self.base = kani::any();
            // a state takes some hundred bytes
            kani::assume(self.base <= usize::MAX / 1024);
        }
    }
    impl<T> From<Vec<T>> for Hist<T> {
        fn from(items: Vec<T>) -> Self {
            Hist { base: 0, items }
        }
    }
    fn beneath() {
        assert!(false, "ANCHOR only the last states of the history are used");
        kani::assume(false);
    }
    impl<T> Hist<T> {
        pub fn new() -> Self {
            Vec::new().into()
        }
        pub fn with_capacity(n: usize) -> Self {
            Vec::with_capacity(if n < 2 { n } else { 2 }).into()
        }
        pub fn len(&self) -> usize {
            self.base + self.items.len()
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn capacity(&self) -> usize {
            let n: usize = kani::any();
            kani::assume(n >= self.len());
            n
        }
        pub fn reserve(&mut self, _n: usize) {}
        pub fn reserve_exact(&mut self, _n: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn last(&self) -> Option<&T> {
            if self.items.is_empty() && self.base > 0 {
                beneath();
            }
            self.items.last()
        }
        pub fn last_mut(&mut self) -> Option<&mut T> {
            if self.items.is_empty() && self.base > 0 {
                beneath();
            }
            self.items.last_mut()
        }
        fn at(&self, i: usize) -> usize {
            if i < self.base {
                beneath();
            }
            i - self.base
        }
        pub fn get(&self, i: usize) -> Option<&T> {
            self.items.get(self.at(i))
        }
        pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
            let i = self.at(i);
            self.items.get_mut(i)
        }
        pub fn push(&mut self, x: T) {
            self.items.push(x);
        }
        pub fn pop(&mut self) -> Option<T> {
            if self.items.is_empty() && self.base > 0 {
                beneath();
            }
            self.items.pop()
        }
        pub fn clear(&mut self) {
            self.truncate(0);
        }
        pub fn truncate(&mut self, n: usize) {
            if n < self.base {
                self.base = n;
            }
            while self.len() > n && self.items.pop().is_some() {}
        }
        /// what was removed cannot be said, so it is not returned
        pub fn remove(&mut self, i: usize) {
            if i < self.base {
                self.base -= 1;
            } else if i + 1 == self.len() {
                self.items.pop();
            } else {
                beneath();
            }
        }
    }
    impl<T> core::ops::Index<usize> for Hist<T> {
        type Output = T;
        fn index(&self, i: usize) -> &T {
            &self.items[self.at(i)]
        }
    }
    impl<T> core::ops::IndexMut<usize> for Hist<T> {
        fn index_mut(&mut self, i: usize) -> &mut T {
            let i = self.at(i);
            &mut self.items[i]
        }
    }
}
#[cfg(kani)]
#[macro_export]
macro_rules! hvec {
    ($($t:tt)*) => { ::core::convert::Into::into(::std::vec![$($t)*]) };
}

/// The filter loop of `legal_moves`, for lists of any length (tools/overlay.py,
/// ghost_copy and cutify): one tracked move, the list by the contract of ArrayVec,
/// the loop by its invariant.
#[cfg(kani)]
pub mod cut {
    use shogi_core::Move;
    /// tracked move, two others; are they let pass?
    pub static mut MOVES: [Move; 3] = [super::sym::NO_MOVE; 3];
    pub static mut LEGAL: [bool; 3] = [false; 3];
    /// was the tracked move among the candidates?
    pub static mut WAS: bool = false;
    pub static mut ENTERED: bool = false;
    pub static mut DONE: bool = false;
    const NONE: usize = usize::MAX;
    static mut I: usize = 0;
    static mut L: (usize, usize) = (0, NONE);
    static mut I2: usize = 0;
    static mut L2: (usize, usize) = (0, NONE);
    fn bits(m: Move) -> u32 {
        let b: [u8; 3] = unsafe { core::mem::transmute(m) };
        b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16
    }
    pub fn which(m: Move) -> usize {
        let e = bits(m);
        unsafe {
            if e == bits(MOVES[0]) {
                0
            } else if e == bits(MOVES[1]) {
                1
            } else {
                2
            }
        }
    }
    fn other() -> Move {
        let m = super::sym::to_move(super::sym::any_move());
        kani::assume(which(m) != 0);
        m
    }
    /// What the contract of `ArrayVec<Move, N>` says about its length and the
    /// place of the tracked move, which is in it at most once.
    pub struct GList<M, const N: usize> {
        pub len: usize,
        pub at: usize,
        item: core::marker::PhantomData<M>,
    }
    impl<const N: usize> GList<Move, N> {
        pub fn new() -> Self {
            GList { len: 0, at: NONE, item: core::marker::PhantomData }
        }
        /// an arbitrary list
        pub fn havoc(&mut self) {
            self.len = kani::any();
            self.at = kani::any();
            kani::assume(self.len <= N && (self.at == NONE || self.at < self.len));
        }
        pub fn has(&self) -> bool {
            self.at != NONE
        }
        pub fn len(&self) -> usize {
            self.len
        }
        pub fn is_empty(&self) -> bool {
            self.len == 0
        }
        pub fn swap_remove(&mut self, i: usize) -> Move {
            let m = self[i];
            self.len -= 1;
            if self.at == i {
                self.at = NONE;
            } else if self.at == self.len {
                self.at = i;
            }
            m
        }
        pub fn remove(&mut self, i: usize) -> Move {
            let m = self[i];
            self.len -= 1;
            if self.at == i {
                self.at = NONE;
            } else if self.has() && self.at > i {
                self.at -= 1;
            }
            m
        }
        pub fn pop(&mut self) -> Option<Move> {
            if self.len == 0 {
                return None;
            }
            Some(self.swap_remove(self.len - 1))
        }
        pub fn truncate(&mut self, n: usize) {
            if n < self.len {
                self.len = n;
            }
            if self.has() && self.at >= self.len {
                self.at = NONE;
            }
        }
        pub fn retain<F: FnMut(&mut Move) -> bool>(&mut self, mut f: F) {
            let n: usize = kani::any();
            let mut at = NONE;
            if self.has() {
                let mut m = unsafe { MOVES[0] };
                let keep = f(&mut m);
                assert!(which(m) == 0, "retain changes no move");
                if keep {
                    at = kani::any();
                    kani::assume(at < n && at <= self.at);
                }
            }
            let mut m = other();
            f(&mut m);
            kani::assume(n <= self.len && (at != NONE || !self.has() || n < self.len));
            self.len = n;
            self.at = at;
        }
    }
    impl<const N: usize> core::ops::Index<usize> for GList<Move, N> {
        type Output = Move;
        fn index(&self, i: usize) -> &Move {
            assert!(i < self.len, "an index below the length of the list");
            Box::leak(Box::new(if i == self.at { unsafe { MOVES[0] } } else { other() }))
        }
    }
    pub trait Var {
        fn enter(&mut self);
        fn leave(&mut self);
    }
    pub fn enter<T: Var>(x: &mut T) {
        x.enter()
    }
    pub fn leave<T: Var>(x: &mut T) {
        x.leave()
    }
    impl Var for usize {
        fn enter(&mut self) {
            assert!(*self == 0, "ANCHOR the filter starts at the first candidate");
            *self = kani::any();
            unsafe { I = *self }
        }
        fn leave(&mut self) {
            unsafe { I2 = *self }
        }
    }
    impl<const N: usize> Var for GList<Move, N> {
        fn enter(&mut self) {
            unsafe {
                ENTERED = true;
                assert!(inv(0, self.len, self.at), "the invariant of the filter holds before the loop");
                self.havoc();
                L = (self.len, self.at);
            }
        }
        fn leave(&mut self) {
            unsafe { L2 = (self.len, self.at) }
        }
    }
    /// Nothing but candidates; every candidate let pass; of those looked at, only these.
    fn inv(i: usize, len: usize, at: usize) -> bool {
        let is = at != NONE;
        unsafe { i <= len && (!is || WAS) && (is || !WAS || !LEGAL[0]) && (!is || at >= i || LEGAL[0]) }
    }
    pub fn assume() {
        unsafe { kani::assume(inv(I, L.0, L.1)) }
    }
    pub fn step() {
        unsafe {
            assert!(inv(I2, L2.0, L2.1), "the invariant of the filter is kept");
            assert!(L2.0 <= L.0 && L2.0 - I2 < L.0 - I, "each iteration brings the filter nearer to its end");
            kani::cover!(L2.0 < L.0);
            DONE = false;
        }
    }
    pub fn end() {
        unsafe { DONE = true }
    }
}

/// Contract stand-in for the table of squares between two squares, see
/// tools/overlay.py.  The content of the real table is proved separately.
pub(crate) struct BetweenTab;
/// Where set, only these two squares of an entry are constrained (the rest of
/// it is arbitrary): enough for code that asks for membership of squares.
#[cfg(kani)]
pub(crate) static mut BETWEEN_AT: Option<[u8; 2]> = None;
pub(crate) struct BetweenRow(usize);
#[cfg(kani)]
impl core::ops::Index<usize> for BetweenTab {
    type Output = BetweenRow;
    fn index(&self, i: usize) -> &BetweenRow {
        assert!(i < 81);
        Box::leak(Box::new(BetweenRow(i)))
    }
}
#[cfg(kani)]
impl core::ops::Index<usize> for BetweenRow {
    type Output = crate::bitboard::Bitboard;
    fn index(&self, j: usize) -> &crate::bitboard::Bitboard {
        assert!(j < 81);
        if let Some(at) = unsafe { BETWEEN_AT } {
            let b = sym::any_bb();
            kani::assume(sym::has(&b, at[0]) == spec::between(self.0 as u8, j as u8, at[0]));
            kani::assume(sym::has(&b, at[1]) == spec::between(self.0 as u8, j as u8, at[1]));
            return Box::leak(Box::new(b));
        }
        let mut w = [0u64; 2];
        let mut t = 0;
        while t < 81 {
            let b = spec::between(self.0 as u8, j as u8, t as u8) as u64;
            if t < 63 {
                w[0] |= b << t;
            } else {
                w[1] |= b << (t - 63);
            }
            t += 1;
        }
        Box::leak(Box::new(sym::bb(w)))
    }
}

/// Stand-ins proved equal to (or within the contract of) what they replace.
#[cfg(kani)]
pub mod stubs {
    use shogi_core::{Color, PieceKind, Square};
    pub fn pop(b: &mut shogi_core::Bitboard) -> Option<Square> {
        let w: &mut [u64; 2] = unsafe { &mut *(b as *mut _ as *mut [u64; 2]) };
        if w[0] != 0 {
            let p = w[0].trailing_zeros() as u8;
            w[0] &= w[0] - 1;
            Some(unsafe { core::mem::transmute(p + 1) })
        } else if w[1] != 0 {
            let p = w[1].trailing_zeros() as u8;
            w[1] &= w[1] - 1;
            Some(unsafe { core::mem::transmute(p + 64) })
        } else {
            None
        }
    }
    pub fn sq_ai(s: Square) -> usize {
        let u: u8 = unsafe { core::mem::transmute(s) };
        (u - 1) as usize
    }
    pub fn color_ai(c: Color) -> usize {
        let u: u8 = unsafe { core::mem::transmute(c) };
        u as usize - 1
    }
    pub fn kind_ai(k: PieceKind) -> usize {
        let u: u8 = unsafe { core::mem::transmute(k) };
        u as usize - 1
    }
    /// `Vec::push` where no growth is needed (which is an obligation).
    pub fn vec_push<T, A: core::alloc::Allocator>(v: &mut Vec<T, A>, x: T) {
        unsafe {
            let n = v.len();
            assert!(n < 2, "room for the state in the harness's buffer");
            core::ptr::write(v.as_mut_ptr().add(n), x);
            v.set_len(n + 1);
        }
    }
    #[cfg(target_feature = "avx2")]
    pub fn testz(x: core::arch::x86_64::__m128i, y: core::arch::x86_64::__m128i) -> i32 {
        let (x, y): (u128, u128) = unsafe { (core::mem::transmute(x), core::mem::transmute(y)) };
        (x & y == 0) as i32
    }
}
/// `kproof! { [extra attributes] fn name() { .. } }`: a harness with the index stand-ins.
#[cfg(all(kani, not(target_feature = "avx2")))]
#[macro_export]
macro_rules! kproof {
    ($(#[$a:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[kani::stub(shogi_core::Square::array_index, crate::kharness::stubs::sq_ai)]
        #[kani::stub(shogi_core::Color::array_index, crate::kharness::stubs::color_ai)]
        #[kani::stub(shogi_core::PieceKind::array_index, crate::kharness::stubs::kind_ai)]
        #[kani::stub(shogi_core::Bitboard::pop, crate::kharness::stubs::pop)]
        $(#[$a])*
        fn $name() $body
    };
}
#[cfg(all(kani, target_feature = "avx2"))]
#[macro_export]
macro_rules! kproof {
    ($(#[$a:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[kani::stub(shogi_core::Square::array_index, crate::kharness::stubs::sq_ai)]
        #[kani::stub(shogi_core::Color::array_index, crate::kharness::stubs::color_ai)]
        #[kani::stub(shogi_core::PieceKind::array_index, crate::kharness::stubs::kind_ai)]
        #[kani::stub(core::arch::x86_64::_mm_testz_si128, crate::kharness::stubs::testz)]
        $(#[$a])*
        fn $name() $body
    };
}

/// The probe: an arbitrary move chosen before the call; `push` counts it.
#[cfg(kani)]
pub mod probe {
    use super::spec::*;
    use super::sym::*;
    use shogi_core::Move;
    pub static mut P_D: u8 = 0;
    pub static mut P_F: u8 = 0;
    pub static mut P_T: u8 = 0;
    pub static mut P_P: u8 = 0;
    pub static mut P_X: u8 = 0;
    pub static mut COUNT: u8 = 0;
    pub fn enc(m: Move) -> (u8, u8, u8, u8, u8) {
        if let Move::Normal { from, to, promote } = m {
            (0, from.index(), to.index(), promote as u8, 0)
        } else if let Move::Drop { to, piece } = m {
            (1, 0, to.index(), 0, piece.as_u8())
        } else {
            (2, 0, 0, 0, 0)
        }
    }
    pub fn set(m: SMove) {
        unsafe {
            match m {
                SMove::Normal { from, to, promote } => {
                    P_D = 0;
                    P_F = from + 1;
                    P_T = to + 1;
                    P_P = promote as u8;
                    P_X = 0;
                }
                SMove::Drop { to, piece } => {
                    P_D = 1;
                    P_F = 0;
                    P_T = to + 1;
                    P_P = 0;
                    P_X = piece;
                }
            }
        }
    }
    pub fn count() -> u8 {
        unsafe { COUNT }
    }
    pub fn push<T, const CAP: usize>(_v: &mut arrayvec::ArrayVec<T, CAP>, e: T) {
        unsafe {
            let m: Move = core::mem::transmute_copy(&e);
            let (d, f, t, pr, pc) = enc(m);
            if d == P_D && f == P_F && t == P_T && pr == P_P && pc == P_X {
                COUNT += 1;
            }
        }
    }
}

/// Where the symbolic inputs are noted, to be read off the verifier's trace.
#[cfg(kani)]
pub mod cex {
    use super::spec::*;
    pub static mut CEX_BOARD: Board = [0; 81];
    pub static mut CEX_HANDS: [[u8; 7]; 2] = [[0; 7]; 2];
    pub static mut CEX_SIDE: u8 = 0;
    pub static mut CEX_MOVE: [u8; 4] = [0; 4];
    pub fn pos(p: &SPos) {
        unsafe {
            let mut i = 0;
            while i < 81 {
                CEX_BOARD[i] = p.board[i];
                i += 1;
            }
            let mut c = 0;
            while c < 2 {
                let mut k = 0;
                while k < 7 {
                    CEX_HANDS[c][k] = p.hands[c][k];
                    k += 1;
                }
                c += 1;
            }
            CEX_SIDE = p.side;
        }
    }
    /// [1 = board move / 2 = drop, from or piece, to, promote]
    pub fn mv(m: SMove) {
        unsafe {
            match m {
                SMove::Normal { from, to, promote } => {
                    CEX_MOVE[0] = 1;
                    CEX_MOVE[1] = from;
                    CEX_MOVE[2] = to;
                    CEX_MOVE[3] = promote as u8;
                }
                SMove::Drop { to, piece } => {
                    CEX_MOVE[0] = 2;
                    CEX_MOVE[1] = piece;
                    CEX_MOVE[2] = to;
                }
            }
        }
    }
}

#[cfg(kani)]
pub mod sym {
    use super::spec::*;
    use shogi_core::{Color, Move, PartialPosition, Piece, PieceKind, Square};

    use crate::bitboard::Bitboard;

    pub const NO_MOVE: Move = Move::Normal { from: Square::SQ_1A, to: Square::SQ_1A, promote: false };
    /// A bitboard from its two words (squares 0..63 and 63..81).
    pub fn bb(w: [u64; 2]) -> Bitboard {
        unsafe { core::mem::transmute(w) }
    }
    pub fn words(b: Bitboard) -> [u64; 2] {
        unsafe { core::mem::transmute(b) }
    }
    pub fn any_bb() -> Bitboard {
        let t: [u64; 2] = kani::any();
        bb([t[0] & ((1 << 63) - 1), t[1] & ((1 << 18) - 1)])
    }
    pub fn to_sq(s: u8) -> Square {
        assert!(s < 81);
        unsafe { core::mem::transmute(s + 1) }
    }
    pub fn to_color(c: u8) -> Color {
        assert!(c < 2);
        unsafe { core::mem::transmute(c + 1) }
    }
    pub fn to_piece(p: u8) -> Piece {
        assert!(is_piece(p));
        unsafe { core::mem::transmute(p) }
    }
    pub fn of_sq(s: Square) -> u8 {
        let u: u8 = unsafe { core::mem::transmute(s) };
        u - 1
    }
    pub fn has(b: &Bitboard, s: u8) -> bool {
        b.contains(to_sq(s))
    }
    pub fn occ(p: &SPos, s: u8) -> bool {
        p.board[s as usize] != 0
    }
    /// Colour `c` has at most one king, which is on `k` if `k < 81`, else none.
    pub fn assume_king(p: &SPos, c: u8, k: u8) {
        let mut i = 0;
        while i < 81 {
            kani::assume((p.board[i] == piece(K, c)) == (i == k as usize));
            i += 1;
        }
    }
    pub fn count_kind(p: &SPos, a: u8, b: u8, lim: u8) {
        let mut n = 0u8;
        let mut i = 0;
        while i < 81 {
            n += (p.board[i] != 0 && (kind(p.board[i]) == a || kind(p.board[i]) == b)) as u8;
            i += 1;
        }
        kani::assume(n <= lim);
    }
    /// No two unpromoted pawns of `c` on one file, none on its last rank.
    pub fn assume_pawns(p: &SPos, c: u8) {
        let mut f = 0;
        while f < 9 {
            let mut n = 0u8;
            let mut r = 0;
            while r < 9 {
                if p.board[f * 9 + r] == piece(P, c) {
                    n += 1;
                }
                r += 1;
            }
            kani::assume(n <= 1);
            kani::assume(p.board[f * 9 + if c == 0 { 0 } else { 8 }] != piece(P, c));
            f += 1;
        }
    }
    pub fn to_move(m: SMove) -> Move {
        match m {
            SMove::Normal { from, to, promote } => Move::Normal {
                from: to_sq(from),
                to: to_sq(to),
                promote,
            },
            SMove::Drop { to, piece } => Move::Drop {
                to: to_sq(to),
                piece: to_piece(piece),
            },
        }
    }
    pub fn total(k: u8) -> u8 {
        match k {
            P => 18,
            B | R => 2,
            _ => 4,
        }
    }
    pub fn hands_ok(sp: &SPos) {
        let mut k = 0;
        while k < 7 {
            kani::assume(sp.hands[0][k] <= 18 && sp.hands[1][k] <= 18 && sp.hands[0][k] + sp.hands[1][k] <= total(k as u8 + 1));
            k += 1;
        }
    }

    pub fn any_normal() -> SMove {
        let m = any_move();
        kani::assume(matches!(m, SMove::Normal { .. }));
        m
    }
    pub fn any_drop() -> SMove {
        let m = any_move();
        kani::assume(matches!(m, SMove::Drop { .. }));
        m
    }
    pub fn any_sq() -> u8 {
        let s: u8 = kani::any();
        kani::assume(s < 81);
        s
    }
    pub fn any_color() -> u8 {
        let s: u8 = kani::any();
        kani::assume(s < 2);
        s
    }
    pub fn any_kind() -> u8 {
        let s: u8 = kani::any();
        kani::assume(s >= 1 && s <= 14);
        s
    }
    pub fn any_board() -> Board {
        let b: Board = kani::any();
        let mut i = 0;
        while i < 81 {
            kani::assume(b[i] == 0 || is_piece(b[i]));
            i += 1;
        }
        b
    }
    pub fn any_hands() -> [[u8; 7]; 2] {
        let h: [[u8; 7]; 2] = kani::any();
        h
    }
    /// The side to move where a contract is proved for each side separately.
    pub static mut SIDE: u8 = 2;
    pub fn any_pos() -> SPos {
        let p = SPos {
            board: any_board(),
            hands: any_hands(),
            side: if unsafe { SIDE } < 2 { unsafe { SIDE } } else { any_color() },
            ply: kani::any(),
        };
        super::cex::pos(&p);
        p
    }
    pub fn any_move() -> SMove {
        let m = any_move_inner();
        super::cex::mv(m);
        m
    }
    fn any_move_inner() -> SMove {
        if kani::any() {
            SMove::Normal {
                from: any_sq(),
                to: any_sq(),
                promote: kani::any(),
            }
        } else {
            let piece: u8 = kani::any();
            kani::assume(is_piece(piece));
            SMove::Drop { to: any_sq(), piece }
        }
    }
    #[repr(C)]
    pub struct RawPP {
        side: Color,
        ply: u16,
        hands: [[u8; 8]; 2],
        pub board: [u8; 81],
        player_bb: [[u64; 2]; 2],
        piece_bb: [[u64; 2]; 14],
        last_move: u16,
        king_square: [u8; 2],
    }
    /// The `shogi_core` position (a `repr(C)` struct) describing `p`, with all
    /// its redundant fields consistent, as its own setters would leave them.
    pub fn to_core(p: &SPos) -> PartialPosition {
        let mut r = RawPP {
            side: to_color(p.side),
            ply: p.ply,
            hands: [[0; 8]; 2],
            board: p.board,
            player_bb: [[0; 2]; 2],
            piece_bb: [[0; 2]; 14],
            last_move: 0,
            king_square: [0; 2],
        };
        let mut i = 0;
        while i < 81 {
            let x = p.board[i];
            let (w, b) = if i < 63 { (0, i) } else { (1, i - 63) };
            let mut c = 0;
            while c < 2 {
                r.player_bb[c][w] |= ((x != 0 && color(x) == c as u8) as u64) << b;
                c += 1;
            }
            let mut k = 0;
            while k < 14 {
                r.piece_bb[k][w] |= ((kind(x) == k as u8 + 1) as u64) << b;
                k += 1;
            }
            i += 1;
        }
        let mut c = 0;
        while c < 2 {
            let mut k = 0;
            while k < 7 {
                r.hands[c][k] = p.hands[c][k];
                k += 1;
            }
            let q = king(&p.board, c as u8);
            r.king_square[c] = if q < 81 { q + 1 } else { 0 };
            c += 1;
        }
        unsafe { core::mem::transmute(r) }
    }
    pub fn kind_of(k: u8) -> PieceKind {
        PieceKind::from_u8(k).unwrap()
    }
}
