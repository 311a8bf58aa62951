import json
VALID = "a valid position (at most one king per side, the side not to move not in check, no piece without a future move, at most one unpromoted pawn per file and side, no more pieces of a kind than a set has)"
def P(id, title, stmt, over, qt, why, files, mech, state=None, obs=None):
    d = dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=qt), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if obs: d["anchors"]["observe_at"] = obs
    d["anchors"]["hook_needed"] = None
    return d
MG, PO, TA, BB, ZO = "src/movegen.rs", "src/position.rs", "src/tables.rs", "src/bitboard.rs", "src/zobrist.rs"
BBS = [BB, "src/bitboard/core.rs", "src/bitboard/x86_64.rs"]
gens = ("generators", "src/movegen.rs generate_all / generate_evasions / generate_for_* / generate_drop")
inner = ("inner", "board array, per-colour and per-kind bitboards, hands, side, ply", "src/position.rs PartialPosition")
ai = ("attack_info", "checkers, squares from which each kind would check, pinned pieces", "src/position.rs AttackInfo")
L = [
P("C01","Every move offered is legal",
  "For "+VALID+", every move the move generator returns is legal under the rules of shogi: it moves an own piece along its movement or drops a held piece, obeys promotion and drop rules, is not a pawn drop giving mate, and does not leave the mover's king attacked.",
  ["inputs","histories"],"all valid positions, however they were reached, and every returned move",
  "The tests count moves from a handful of positions (perft of two positions, a few evasions and pawn drops); one wrong move in a rare pin, double check or edge pattern changes none of those counts.",
  [MG,PO,TA]+BBS,[gens,("is_legal filter","src/movegen.rs is_legal"),("attack tables","src/tables.rs ATTACK_TABLE, BETWEEN_TABLE")],[inner,ai],["Position::legal_moves"]),
P("C02","Every legal move is offered, exactly once",
  "For "+VALID+", the move generator returns every legal move of the side to move, and returns no move twice.",
  ["inputs","histories"],"all valid positions, however they were reached, and every legal move",
  "Perft counts from two positions reach a vanishing part of the position space; a move missing only behind a rare checker or pin pattern is not in them.",
  [MG,PO,TA]+BBS,[gens,("evasion targets","src/movegen.rs generate_evasions"),("is_legal filter","src/movegen.rs is_legal")],[inner,ai],["Position::legal_moves"]),
P("C03","Drops obey hand, square, pawn-file and last-rank rules",
  "For a valid position, the drops offered are exactly those of a piece held by the side to move, of that side's colour, onto an empty square, never a pawn onto a file holding an own unpromoted pawn, never a piece onto a rank from which it could not move, and such that the own king is not left attacked; the pawn drop giving mate is the only further exception.",
  ["inputs"],"all boards, hands and sides to move, including every occupancy of every file and every drop square",
  "One test counts 43 drops of one position; the pawn-file computation is a carry trick over nine files whose correctness for all occupancies no sample shows.",
  [MG]+BBS,[("drop generator","src/movegen.rs generate_drop"),("pawn files","src/bitboard/core.rs vacant_files, src/bitboard/x86_64.rs vacant_files"),("rank tables","src/tables.rs RELATIVE_RANKS")],[inner],["Position::legal_moves (drops)"]),
P("C04","The pawn drop mate rule is decided exactly",
  "A pawn drop that gives check is withheld if the opponent would have no legal reply, and is offered (when otherwise legal) if the opponent would have any: capturing the pawn with any piece that may legally do so, or moving the king, including to a square the dropped pawn itself opens or shields.",
  ["inputs"],"all valid positions in which the side to move may drop a pawn in front of the opponent's king",
  "Seven hand-picked positions; the rule quantifies over all defenders, pins and escape squares.",
  [MG,PO],[("mate test","src/movegen.rs is_pawn_drop_mate, attackers_to, attackers_to_except_klp"),("drop generator","src/movegen.rs generate_drop")],[ai],["Position::legal_moves (pawn drops)"]),
P("C05","Promotion choices are exactly those the rules allow",
  "For a valid position and every board move offered, the promoting form is offered exactly when the piece can promote and the move starts or ends in the last three ranks, and the non-promoting form exactly when the piece could still move from its destination.",
  ["inputs"],"all valid positions and all origin and destination pairs of all kinds and both colours",
  "Promotion is only covered through total move counts of a few positions; a wrong rank bound for one kind or colour shows only on particular squares.",
  [MG,TA],[("promotion branches","src/movegen.rs generate_for_fu .. generate_for_hi"),("zone tables","src/tables.rs PROMOTABLE, RELATIVE_RANKS")],None,["Position::legal_moves"]),
P("C06","No offered move leaves the own king attacked; no safe one is withheld",
  "For a valid position, after any offered move the mover's king is not attacked; when in check, every move that resolves the check (king move, capture of the checker, interposition) is offered, and a pinned piece or the king is refused a move only if that move would expose the king.",
  ["inputs","histories"],"all valid positions incl. single and double checks by every kind, pins along all eight rays, discovered checks arising after moves and undo",
  "Only one position in the tests has an evasion assertion (the source says TODO: add more cases).",
  [MG,PO,TA],[("evasions","src/movegen.rs generate_evasions"),("legality filter","src/movegen.rs is_legal"),("pins and checkers","src/position.rs AttackInfo::new, calculate_checkers")],[ai],["Position::legal_moves"]),
P("C07","Playing a legal move changes the position as the rules say",
  "After playing a legal move, the board, both hands, the side to move and the move number are exactly those the rules give: the piece moves (promoted if asked) or is dropped from hand, a captured piece goes unpromoted to the mover's hand, all other squares and hands are unchanged, the turn passes and the move number grows by one.",
  ["inputs","histories"],"all valid positions and all their legal moves, after any history",
  "The test plays one five-move line and looks at five squares.",
  [PO],[("do_move","src/position.rs Position::do_move, PartialPosition::xor_piece")],[inner],["Position::piece_at, hand, side_to_move, ply"]),
P("C08","Taking back a move restores everything observable",
  "Playing any legal move and taking it back, to any depth and in last-in-first-out order, leaves every observable as before: board, hands, side, move number, keys, check status, the offered moves and which of them give check.",
  ["inputs","histories"],"all valid positions, all sequences of legal moves of any length and their reversal",
  "One five-move line is undone and only board, side, ply and check are compared with the start position.",
  [PO],[("undo_move","src/position.rs Position::undo_move"),("state stack","src/position.rs Position::states")],[inner,("states","stack of keys, captured, last moved piece and attack info","src/position.rs Position")],["every public accessor of Position"]),
P("C09","Check status is exact in every position and after every history",
  "A position reports being in check exactly when the king of the side to move is attacked by an opposing piece under the movement rules, whether the position was constructed directly or reached by playing and taking back moves.",
  ["inputs","histories"],"all valid positions; all histories of legal moves and take-backs, incl. double and discovered checks",
  "The tests look at check status in three positions; the incremental path relies on a separate gives-check predicate being exact.",
  [PO,TA],[("checkers from scratch","src/position.rs AttackInfo::calculate_checkers"),("incremental checkers","src/position.rs Position::do_move")],[ai],["Position::in_check"]),
P("C10","Whether a move gives check is predicted exactly",
  "For a valid position and each of its legal moves, the gives-check query answers yes exactly when the opponent's king is attacked after the move, directly or by discovery, including promotions and drops.",
  ["inputs","histories"],"all valid positions and all their legal moves",
  "Ten moves in one position are tested.",
  [PO,TA],[("is_check_move","src/position.rs Position::is_check_move, checkable"),("check squares and pins","src/position.rs AttackInfo::new")],[ai],["Position::is_check_move"]),
P("C11","A position's behaviour does not depend on how it was reached",
  "A position reached by any sequence of legal moves and take-backs answers every query (board, hands, side, move number, keys, check status, set of offered moves, gives-check) exactly as a position constructed directly from the same board, hands, side and move number.",
  ["histories","inputs"],"all sequences of legal moves and take-backs from all valid positions",
  "No test compares an incrementally maintained position with a freshly constructed one beyond the start position; before this work the keys disagreed whenever the constructed position had White to move.",
  [PO,ZO],[("incremental update","src/position.rs Position::do_move, undo_move"),("from scratch","src/position.rs Position::new, From<PartialPosition>")],[inner,ai],["every public accessor of Position"]),
P("C12","Keys are a function of the position alone",
  "The board key is determined by board and side to move alone and the hand key by the two hands alone, independent of the move order or take-backs by which the position was reached and of the move number, equal to those of a position constructed directly; the combined key is the exclusive-or of the two.",
  ["histories","inputs"],"all histories of legal moves and take-backs from all valid positions",
  "Two pairs of transposing lines and the parity of 100 keys are tested.",
  [ZO,PO],[("incremental keys","src/position.rs Position::do_move"),("keys from scratch","src/position.rs Position::new"),("tables","src/zobrist.rs ZOBRIST_TABLE")],[("keys","(board ^ side, hands)","src/position.rs State")],["Position::key, keys"]),
P("C13","Keys tell neighbouring positions apart",
  "Two positions that differ only in the content of one square, only in the number of one held kind, or only in the side to move have different keys of the respective part and different combined keys, and every legal move changes the key; side to move is always visible in the key.",
  ["inputs"],"all squares and piece pairs, all hand counts up to the full set for both sides, both sides to move",
  "One 100-move line is checked for repeated keys.",
  [ZO,PO],[("random table","src/zobrist.rs ZOBRIST_TABLE, Key::COLOR")],None,["Position::key, keys"]),
P("C14","Constructing a position is faithful",
  "A position constructed from a board, hands, side to move and move number reports exactly these on every square, hand and counter, and all its derived views (occupancy, pieces of a kind, king squares, check status) are consistent with them.",
  ["inputs"],"all boards, hands, sides to move and move numbers",
  "Only the start position is compared square by square.",
  [PO],[("conversion","src/position.rs From<shogi_core::PartialPosition>, Position::new")],[inner],["Position::new and accessors"]),
P("C15","Pieces reach exactly the squares their movement allows",
  "On every board, the destinations offered to a piece (king safety aside) are exactly: its fixed steps on the board, and for lance, bishop, rook, horse and dragon each ray up to and including the first occupied square, minus squares held by an own piece.",
  ["inputs"],"all kinds, colours, origin squares and all 2^81 occupancies",
  "A few dozen sampled occupancies; the ray computation is bit arithmetic with borrow, leading-zero and mask tables.",
  [TA]+BBS,[("rays","src/bitboard/core.rs sliding_*"),("tables","src/tables.rs PieceAttackTable, LanceAttackTable, SlidingAttackTable")],None,["Position::legal_moves destinations"]),
P("C16","The SIMD build behaves as the portable build",
  "Built with the simd feature on a supporting target, every query of every valid position and history gives the same answer as the portable build.",
  ["configurations","inputs"],"portable and x86-64 AVX2 builds; all bitboards and occupancies each operation can meet",
  "Both builds run the same few samples; lane-crossing, carry and sign cases of the vector code depend on particular occupancies.",
  BBS+[TA,MG],[("vector backend","src/bitboard/x86_64.rs"),("portable backend","src/bitboard/core.rs")],None,["all public queries under both feature sets"]),
P("C17","No valid input makes the library panic or corrupt memory",
  "Constructing any valid position and calling any query, playing any legal move and taking it back never panics, never overflows a counter or indexes out of range, and never creates an invalid square or piece value through its unchecked conversions (positions with both kings; move number below its maximum).",
  ["inputs","histories"],"all valid positions with at most 593 candidate moves and all their legal moves",
  "Unchecked conversions and wrapping arithmetic show errors only on the one square or occupancy that triggers them.",
  [MG,PO,TA]+BBS,[("unchecked squares","src/movegen.rs generate_for_fu, bitboard iterators"),("table indexing","src/tables.rs, src/zobrist.rs")],[inner],["all public functions"]),
P("C18","The move list never exceeds its capacity",
  "No valid position with both kings present has more candidate moves than the fixed capacity of the returned list (593), so generation never fails for lack of room.",
  ["inputs"],"all valid positions with both kings",
  "The known maximum position is tested; that no other exceeds it is a global combinatorial maximum over all positions.",
  [MG],[("capacity","src/movegen.rs MAX_LEGAL_MOVES")],None,["Position::legal_moves"]),
P("C19","First use from several threads is safe",
  "When several threads use the library for the first time at once, each sees completely initialised tables, and positions may be used concurrently from different threads without interference.",
  ["schedules"],"all interleavings of first uses",
  "The test runner's threads exercise one accidental interleaving.",
  [TA,ZO],[("lazy tables","src/tables.rs, src/zobrist.rs Lazy statics")],None,["all public functions"]),
]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x, ensure_ascii=False)+"\n" for x in L))
import jsonschema
sc=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in L: jsonschema.validate(x, sc)
print(len(L), max(len(x["title"]) for x in L))
