"""Which harness proves what, for which property.

FILES   harness file -> (source module it is appended to, files it needs)
H       harness -> contract: what is stated, on which functions of /repo
PROPS   property -> harnesses
"""
FILES = {
    "kp_bitboard": ("bitboard.rs", []),
    "kp_tables": ("tables.rs", []),
    "kp_position": ("position.rs", []),
    "kp_zobrist": ("zobrist.rs", []),
    "kp_movegen": ("movegen.rs", ["kp_position"]),
}

PICK = [("movegen.rs", None, "pick"), ("position.rs", {"new", "from"}, "pick_acc")]
CUT = [("movegen.rs", "legal_moves")]
HIST = ("position.rs",)
TRUSTED = [
    "kani 0.68.0 (rustc MIR to GOTO translation) and CBMC 6.11 with CaDiCaL or Kissat",
    "rustc front end; shogi_core 0.1.5, arrayvec and once_cell are verified as compiled, not assumed, except where listed",
    "tools/overlay.py: lazily initialised statics replaced by the bytes their initialisers produced when run natively on this run; `for` loops without carried state replaced by one arbitrary iteration (checked syntactically)",
    "stand-ins for Square/Color/PieceKind::array_index and Bitboard::pop, proved equal to what they replace by harness stubs_equal",
    "harness/spec.rs: the rules of shogi as written there",
]
ASSUMPTIONS = [
    "machine arithmetic is modelled bit-precisely; overflow, indexing and unreachable_unchecked are obligations",
    "positions satisfy the documented validity conditions where a harness assumes them",
]
H = {}


def h(name, file, fns, states, bounds=(), timeout=240, bounded=None, tier="quick", variants=("portable",), anchors=(), uses_lists=False, weight=None, solver="kissat"):
    H[name] = dict(file=file, fns=list(fns), states=states, bounds=list(bounds), timeout=timeout, bounded=bounded,
                   tier=tier, variants=list(variants), anchors=list(anchors), uses_lists=uses_lists, weight=weight or timeout, solver=solver)


BOTH = ("portable", "simd")
BBF = "src/bitboard.rs and src/bitboard/{core,x86_64}.rs "
h("bb_member", "kp_bitboard", [BBF + "Bitboard::contains/single/empty/is_empty"], "membership is the bit of the square; single holds exactly its square", variants=BOTH)
h("bb_algebra", "kp_bitboard", [BBF + "Bitboard & | ^ ! &= |= ^="], "set algebra, and no bit outside the 81 squares", variants=BOTH)
h("bb_count", "kp_bitboard", [BBF + "Bitboard::count"], "number of members", variants=BOTH)
h("bb_iter", "kp_bitboard", [BBF + "Bitboard::into_iter / next"], "one step yields the lowest member and leaves exactly the others", variants=BOTH)
h("bb_shift", "kp_bitboard", [BBF + "Occupied::shl / shr"], "one rank down / up, for sets without a member on the far rank", variants=BOTH)
h("bb_vacant", "kp_bitboard", [BBF + "Occupied::vacant_files"], "the files without a member, for sets with at most one member per file", variants=BOTH)
h("stubs_equal", "kp_bitboard", ["shogi_core array_index / Bitboard::pop"], "the stand-ins equal what they replace; encodings", variants=("portable",))
TAB = "src/tables.rs "
SL = BBF + "Occupied::sliding_positives / sliding_negatives"
SLC = BBF + "Occupied::sliding_positive_consecutive / sliding_negative_consecutive"
h("reach_steps", "kp_tables", [TAB + "AttackTable::attack", TAB + "PieceAttackTable::attack"], "step pieces reach exactly the squares of their movement", variants=BOTH)
h("reach_lance", "kp_tables", [TAB + "AttackTable::attack", TAB + "LanceAttackTable::attack", SLC], "lances reach up to the first piece, any occupancy", variants=BOTH)
h("reach_bishop", "kp_tables", [TAB + "AttackTable::attack", TAB + "SlidingAttackTable::attack", SL], "bishops reach up to the first piece, any occupancy", variants=BOTH)
h("reach_rook", "kp_tables", [TAB + "AttackTable::attack", TAB + "SlidingAttackTable::attack", SL], "rooks reach up to the first piece, any occupancy", variants=BOTH)
h("reach_horse", "kp_tables", [TAB + "AttackTable::attack", TAB + "SlidingAttackTable::attack", SL], "promoted bishops, any occupancy", variants=BOTH)
h("reach_dragon", "kp_tables", [TAB + "AttackTable::attack", TAB + "SlidingAttackTable::attack", SL], "promoted rooks, any occupancy", variants=BOTH)
h("reach_fields", "kp_tables", [TAB + "PieceAttackTable::attack", TAB + "LanceAttackTable::attack"], "the per-kind tables used directly by callers", variants=BOTH)
h("reach_empty_board", "kp_tables", [TAB + "AttackTable::pseudo_attack", TAB + "LanceAttackTable::pseudo_attack", TAB + "SlidingAttackTable::pseudo_attack"], "reach on an empty board", variants=BOTH)
h("table_between", "kp_tables", [TAB + "BETWEEN_TABLE"], "content of the table for all 81*81 pairs; also discharges the contract stand-in the other harnesses use", variants=BOTH)
h("table_ranks", "kp_tables", [TAB + "RELATIVE_RANKS", TAB + "PROMOTABLE", TAB + "FILES"], "content of the tables", variants=BOTH)
BBH = ["bb_member", "bb_algebra", "bb_count", "bb_iter", "bb_shift", "bb_vacant", "stubs_equal"]
REACH = ["reach_steps", "reach_lance", "reach_bishop", "reach_rook", "reach_horse", "reach_dragon", "reach_fields", "reach_empty_board"]
POS = "src/position.rs "
MG = "src/movegen.rs "
AI = [POS + "AttackInfo::new"]
h("info_pinned", "kp_position", AI + [POS + "AttackInfo::pinned"], "pinned holds exactly the squares standing alone between a king and an enemy slider, for both kings", timeout=300)
h("info_no_king", "kp_position", AI, "no king: nothing pinned, nothing gives check")
h("info_checkables", "kp_position", AI + [POS + "AttackInfo::checkable"], "checkables hold exactly the squares from which a piece of the kind attacks the opponent's king")
IC = [POS + "Position::is_check_move", POS + "AttackInfo::new by its contract (info_*), at the squares the move touches"]
h("check_move_sound", "kp_position", IC, "a board move predicted to give check leaves the opponent's king attacked", timeout=300)
for s in "bw":
    h("check_move_complete_" + s, "kp_position", IC, "a board move not predicted to give check leaves the opponent's king unattacked (side to move: %s)" % s, timeout=400)
h("check_drop_sound", "kp_position", IC, "a drop predicted to give check checks with the piece dropped")
h("check_drop_complete", "kp_position", IC, "a drop not predicted to give check leaves the opponent's king unattacked")
h("checkers_exact", "kp_position", [POS + "AttackInfo::calculate_checkers", POS + "PartialPosition::king_position", POS + "PartialPosition::occupied_bitboard"],
  "for every board with one own king: a square is in the result iff an enemy piece stands there and attacks the king")
h("checkers_no_king", "kp_position", [POS + "AttackInfo::calculate_checkers"], "no own king: the result is empty")
for s, kinds in (("fu", "pawns"), ("ky", "lances"), ("ke", "knights"), ("gi", "silvers"), ("ka", "bishops"), ("hi", "rooks"),
                 ("ki", "golds and promoted small pieces"), ("ou", "kings"), ("um", "promoted bishops"), ("ry", "promoted rooks")):
    h("gen_" + s, "kp_movegen", [MG + "generate_for_" + s],
      f"for every board, target set and move m: the list receives m exactly once iff m moves one of the mover's {kinds} along its movement into the target with an allowed promotion choice, else never", uses_lists=True)

NEWB = [(r"position\.rs .*Position3new\.1$", 20), (r"ops5range5RangehE.*fold", 20)]
h("new_wiring", "kp_position", [POS + "Position::new"], "board, hands, side and ply as given; each key entry folded in iff board, hand or side calls for it; checkers and attack information calculated from that position", bounds=NEWB, weight=300)
h("from_core", "kp_position", [POS + "PartialPosition::from(shogi_core::PartialPosition)"], "board, occupancy by side and by kind describe the given board, square by square")
h("from_core_rest", "kp_position", [POS + "PartialPosition::from(shogi_core::PartialPosition)"], "hands, side to move and ply are copied")
h("key_ops", "kp_position", ["src/zobrist.rs Key ^ / ^=, Key::ZERO, Key::COLOR"], "keys combine by exclusive or; the side bit")
MOVE = [POS + "Position::do_move", POS + "PartialPosition::xor_piece / piece_at_mut / hand_of_a_player_mut"]
h("do_normal", "kp_position", MOVE, "a board move: board, hands, side and ply become those of the rules, keys change by exactly the entries that change, checkers become the pieces attacking the king, attack information is calculated from the new position", anchors=["Position::is_check_move by its contract (harness check_move_*)"])
h("do_drop", "kp_position", MOVE, "a drop: likewise", anchors=["Position::is_check_move by its contract (harness check_move_*)"])
h("undo_normal", "kp_position", MOVE + [POS + "Position::undo_move"], "a board move and its take-back restore board, hands, side, ply, keys, captured piece and attack information")
h("undo_drop", "kp_position", MOVE + [POS + "Position::undo_move"], "a drop and its take-back likewise")
ZB = "src/zobrist.rs "
h("zobrist_board", "kp_zobrist", [ZB + "ZobristTable::board", ZB + "ZOBRIST_TABLE"], "entries of a square differ pairwise, none is zero, all are even")
h("zobrist_hand", "kp_zobrist", [ZB + "ZobristTable::hand", ZB + "ZOBRIST_TABLE"], "any two different numbers of a held kind fold in different entries, all even")
h("zobrist_range", "kp_zobrist", [ZB + "ZobristTable::board / hand"], "every entry a key can call for exists")
PKS = "src/movegen.rs "
h("attackers_exact", "kp_movegen", [MG + "attackers_to"], "for every board, occupancy, square and colour: exactly the pieces of that colour attacking the square")
h("attackers_klp_exact", "kp_movegen", [MG + "attackers_to_except_klp"], "likewise without kings, lances and pawns")
AT = [MG + "is_legal", MG + "attackers_to by its contract (attackers_exact)"]
h("legal_king_sound", "kp_movegen", AT, "a king move let pass, from a king not in check, is not onto an attacked square")
h("legal_king_complete", "kp_movegen", AT, "a king move refused is onto an attacked square")
h("legal_other_sound", "kp_movegen", AT, "a move of another piece let pass exposes the king to no piece not already attacking it", timeout=400)
h("legal_other_complete", "kp_movegen", AT, "a move of another piece refused exposes the king", timeout=400)
h("legal_drop_sound", "kp_movegen", AT, "a drop exposes the king to no piece")
h("legal_drop_complete", "kp_movegen", AT, "no drop is refused")
GX = [MG + "generate_for_* and generate_drop by their contracts (gen_*, drop_exact)"]
h("all_exact", "kp_movegen", [MG + "generate_all"] + GX, "the list receives a move exactly once iff movement, promotion and drop rules allow it (the mate rule for pawn drops included)")
EV = [MG + "generate_evasions"] + GX
for s in "bw":
    h("evade_single_" + s, "kp_movegen", EV, "one checker: a move of another piece is a candidate exactly once iff it captures or blocks the checker (side to move: %s)" % s, timeout=400)
    h("double_lemma_" + s, "kp_movegen", ["rules of the game"], "no move of another piece resolves two checks (side to move: %s)" % s, timeout=300)
h("evade_drop", "kp_movegen", EV, "one checker: a drop is a candidate exactly once iff it blocks", timeout=400)
h("evade_double", "kp_movegen", EV, "several checkers: nothing but king moves", timeout=400)
h("evade_king_sound", "kp_movegen", EV, "no king move onto a square attacked after the move remains once is_legal has filtered", timeout=400)
h("evade_king_complete", "kp_movegen", EV, "a king move is left out only if a checker attacks its destination", timeout=400)
h("drop_exact", "kp_movegen", [MG + "generate_drop", MG + "is_pawn_drop_mate by its contract (mate_*)"], "the list receives a drop exactly once iff hand, target, dead squares, second pawn and the mate rule allow it", bounds=[(r"generate_drop|try_fold|[Ff]ilter|all_hand_pieces", 9)])
MT = [MG + "is_pawn_drop_mate", MG + "attackers_to, attackers_to_except_klp by their contracts"]
h("mate_true_king", "kp_movegen", MT, "answers yes only if every king move of the opponent leaves his king attacked", timeout=300)
h("mate_true_other", "kp_movegen", MT, "answers yes only if every other reply of the opponent leaves his king attacked", timeout=300)
for s in "bw":
    h("mate_false_" + s, "kp_movegen", MT, "answers no only if the opponent has a legal reply (dropping side: %s)" % s, timeout=400)
LM = [MG + "Position::legal_moves"]
h("filter_step", "kp_movegen", LM + [MG + "generate_all, generate_evasions and is_legal by their contracts", "arrayvec::ArrayVec by its contract (kharness::cut::GList)"], "lists of any length, loop by invariant and variant: when the filter ends a move is in the list iff it was a candidate and is_legal lets it pass; the loop ends; the generator called is the one for the check status", timeout=300, bounds=[(r"legal_moves_ghost", 3)], anchors=["arrayvec::ArrayVec (len, index, swap_remove, remove, retain, pop, truncate) by its contract in harness filter_step; the real ArrayVec in filter_small"])
h("filter_small", "kp_movegen", LM, "the list returned, in the real ArrayVec, holds exactly the candidates is_legal lets pass", bounded="candidate lists of at most 3 moves", bounds=[(r"legal_moves", 4)])
# seconds with seven workers, for scheduling
SECONDS = {"legal_other_complete": 52, "evade_drop": 78, "legal_other_sound": 92, "check_move_complete_w": 120, "evade_double": 72, "evade_single_w": 116, "check_move_complete_b": 117, "evade_single_b": 112, "evade_king_sound": 120, "evade_king_complete": 134, "mate_false_b": 128, "info_pinned": 119, "check_move_sound": 98, "bb_member": 1, "new_wiring": 94, "bb_algebra": 2, "bb_count": 1, "mate_false_w": 158, "bb_iter": 1, "bb_shift": 1, "bb_vacant": 1, "stubs_equal": 1, "reach_steps": 17, "reach_lance": 18, "reach_bishop": 16, "reach_horse": 15, "reach_rook": 22, "reach_dragon": 20, "reach_fields": 9, "table_ranks": 1, "reach_empty_board": 14, "mate_true_other": 77, "double_lemma_b": 120, "double_lemma_w": 104, "info_no_king": 23, "mate_true_king": 99, "checkers_no_king": 10, "check_drop_sound": 36, "info_checkables": 38, "table_between": 13, "check_drop_complete": 38, "gen_fu": 11, "gen_ky": 14, "gen_ke": 12, "gen_gi": 13, "gen_ki": 11, "checkers_exact": 41, "gen_ka": 16, "key_ops": 1, "gen_hi": 18, "gen_ou": 12, "from_core_rest": 8, "gen_um": 17, "gen_ry": 17, "zobrist_hand": 14, "zobrist_range": 1, "from_core": 30, "zobrist_board": 9, "undo_drop": 22, "attackers_klp_exact": 27, "legal_king_sound": 40, "legal_king_complete": 29, "attackers_exact": 39, "do_drop": 63, "undo_normal": 83, "legal_drop_complete": 28, "legal_drop_sound": 30, "do_normal": 98, "all_exact": 24, "drop_exact": 65, "filter_small": 79, "filter_step": 11}
# where CaDiCaL was faster than Kissat
CADICAL = ["legal_other_complete", "evade_drop", "check_move_complete_w", "evade_double", "evade_king_sound", "evade_king_complete", "mate_false_b", "info_pinned", "new_wiring", "mate_false_w", "mate_true_other", "check_drop_sound", "info_checkables", "check_drop_complete", "legal_king_complete", "undo_normal"]
for _n, _h in H.items():
    _h["weight"] = SECONDS.get(_n, 600)
    _h["solver"] = "cadical" if _n in CADICAL else "kissat"
ZOB = ["zobrist_board", "zobrist_hand", "zobrist_range"]
GEN = ["gen_" + s for s in "fu ky ke gi ka hi ki ou um ry".split()]
DO = ["do_normal", "do_drop"]
UNDO = ["undo_normal", "undo_drop"]
NEW = ["new_wiring", "from_core", "from_core_rest"]
CHECK = ["check_move_sound", "check_move_complete_b", "check_move_complete_w", "check_drop_sound", "check_drop_complete"]
INFO = ["info_pinned", "info_no_king", "info_checkables"]
FILTER = ["filter_step", "filter_small"]
# quick: what the check of every change discharges; together the quick sets of all
# properties hold every contract except those in THOROUGH_ONLY.  thorough: quick and
# everything else the property's argument rests on.
THOROUGH_ONLY = ["double_lemma_b", "double_lemma_w", "filter_small"]
PROPS = {
    "C01": dict(quick=["evade_single_b", "evade_king_sound", "legal_other_sound", "legal_king_sound", "legal_drop_sound", "filter_step", "all_exact"],
                rest=GEN + ["drop_exact", "evade_single_w", "evade_drop", "evade_double", "filter_small"]),
    "C02": dict(quick=["evade_single_w", "evade_king_complete", "legal_other_complete", "legal_king_complete", "legal_drop_complete", "filter_step", "all_exact", "drop_exact"],
                rest=GEN + ["evade_single_b", "evade_drop", "double_lemma_b", "double_lemma_w", "filter_small"]),
    "C03": dict(quick=["drop_exact", "all_exact", "evade_drop", "legal_drop_sound", "legal_drop_complete", "bb_vacant", "table_ranks", "mate_false_w"], rest=["mate_true_king", "mate_true_other", "mate_false_b"]),
    "C04": dict(quick=["mate_true_king", "mate_true_other", "mate_false_b", "attackers_exact", "attackers_klp_exact", "drop_exact", "table_ranks"], rest=["mate_false_w", "info_pinned"]),
    "C05": dict(quick=GEN + ["table_ranks", "all_exact"], rest=[]),
    "C06": dict(quick=["legal_king_sound", "legal_king_complete", "legal_other_sound", "legal_other_complete", "evade_drop", "evade_double", "attackers_exact", "info_pinned", "table_between"],
                rest=["evade_single_b", "evade_single_w", "evade_king_sound", "evade_king_complete", "double_lemma_b", "double_lemma_w"]),
    "C07": dict(quick=DO, rest=[]),
    "C08": dict(quick=UNDO, rest=[]),
    "C09": dict(quick=["checkers_exact", "checkers_no_king", "check_move_complete_b", "check_drop_complete", "check_drop_sound"] + NEW + DO, rest=UNDO + CHECK),
    "C10": dict(quick=["check_move_sound", "check_move_complete_w", "check_drop_complete", "check_drop_sound", "table_between"] + INFO, rest=CHECK + DO),
    "C11": dict(quick=NEW + DO + UNDO, rest=[]),
    "C12": dict(quick=["new_wiring", "key_ops", "zobrist_range"] + DO + UNDO, rest=[]),
    "C13": dict(quick=ZOB + ["key_ops", "new_wiring"] + DO, rest=[]),
    "C14": dict(quick=NEW + INFO + ["checkers_exact", "checkers_no_king"], rest=[]),
    "C15": dict(quick=REACH + BBH + ["table_between"] + GEN, rest=[]),
    "C16": dict(quick=REACH + BBH, rest=[], simd_native=True),
    "C17": dict(quick=GEN + DO + ["undo_drop", "drop_exact", "all_exact", "from_core", "legal_king_sound", "info_no_king"],
                rest=["undo_normal", "evade_king_sound", "evade_drop", "legal_other_sound", "mate_false_b", "new_wiring", "check_move_sound", "check_move_complete_b", "info_pinned", "info_checkables", "filter_small"]),
}
for _p in PROPS.values():
    _p["level"] = "proof"
    _p["harnesses"] = _p["quick"] + [_n for _n in _p["rest"] if _n not in _p["quick"]]
assert set(H) - {_n for _p in PROPS.values() for _n in _p["quick"]} == set(THOROUGH_ONLY)
TECHNIQUE = "contracts on the real functions discharged function by function by Kani/CBMC (SAT), unbounded via loop rule"
NA = {
    "C18": "the fixed capacity of 593 is a maximum over all positions of the whole generator; no per-function contract yields that number, and counting needs a proof about global piece placement that a SAT-based verifier cannot finish (see DESIGN.md)",
    "C19": "thread schedules around the lazily initialised tables: Kani and the other installed contract verifiers do not model threads (see DESIGN.md)",
}
COMMON = " Quick discharges the contracts nearest the property and the quick checks of the other properties the rest; thorough discharges all of them."
NOTES = {
    "C01": "Soundness halves of the generator, evasion and filter contracts, for any board; that they compose to 'every move offered is legal' is argued on paper (DESIGN.md 2). ArrayVec by its contract in filter_step." + COMMON,
    "C02": "Completeness and exactly-once halves, for any board; composition on paper. ArrayVec by its contract in filter_step." + COMMON,
    "C03": "drop_exact decides generate_drop for any board, hands and target set; the file trick in bb_vacant." + COMMON,
    "C04": "Both directions of is_pawn_drop_mate against the rules, attackers_to by its contract." + COMMON,
    "C05": "The promotion choice is part of each generator's contract; nothing left out.",
    "C06": "is_legal and the evasion generator in both directions, pins from info_pinned." + COMMON,
    "C07": "do_move for any position, any playable move and a history of any length; is_check_move by its contract.",
    "C08": "do_move then undo_move for any position, playable move and a history of any length (Vec by its contract); nesting follows by induction on paper.",
    "C09": "Checkers exact in Position::new and after do_move; is_check_move by its contract, itself discharged." + COMMON,
    "C10": "is_check_move in both directions over the contract of AttackInfo::new, itself discharged." + COMMON,
    "C11": "Every state field that do_move and undo_move leave is the one Position::new builds; equality of behaviour then on paper.",
    "C12": "Keys as exclusive or of table entries: the coefficient of an arbitrary entry in new, do_move, undo_move.",
    "C13": "Contents of the tables the initialisers produce, for all entries, with the key clauses of new and do_move. Positions one change apart, as the property says.",
    "C14": "From and Position::new for any board, hands, side and ply, and the attack information of any position.",
    "C15": "Every kind, colour, square and occupancy, in both implementations.",
    "C16": "Both implementations against one contract; code above Bitboard is shared. Only portable and x86_64 avx2 can be compiled here.",
    "C17": "Index, unwrap, overflow, unreachable_unchecked and pointer obligations of every function under contract; allocation failure and the capacity of the move list (C18) are not covered." + COMMON,
}
for _k, _v in PROPS.items():
    _v["note"] = NOTES[_k]
