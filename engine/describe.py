"""What each check decides, in words: used for the evidence files and the manifest."""

COMMON = ("The MIR of the crate (extracted from the type-checked program, all calls into this crate and into core followed or replaced "
          "by models/contracts) is interpreted abstractly from every entry point with symbolic arguments and a symbolic initial state. "
          "Loops are generalised to affine invariants, values of shared counters are re-read as unknown values bounded by their protocol, "
          "so that one run covers all inputs and all interference by other threads. Every obligation is judged from the facts on the "
          "path (affine inequalities, Fourier-Motzkin elimination); nothing is executed and no solver is used. Supporting rules are obligations "
          "of other properties whose violation also breaks this one, judged at the entry points this property is about.")

BASE = ["contracts of orx-pinned-concurrent-col, orx-concurrent-option and the pinned vectors (engine/contracts.py, models/models.rs) describe the "
        "locked dependency versions; they were written from the dependency sources and are not re-derived on every run",
        "contracts of core/alloc items used by the crate (iterators, Option, slices, Vec, atomics) as modelled in models/models.rs",
        "the nightly compiler's type checker and MIR construction",
        "caller-supplied code is arbitrary, but does not itself call back into unsafe operations of the crate"]

MARK = ["verdicts of the compiler's type checker, trait solver and borrow checker"]


def P(text, *rules, assume=BASE, tech=None, level=None, mir=True):
    return dict(explain=(text + " " + COMMON) if mir else text, rules=list(rules), assume=list(assume), tech=tech, short=text)


PROPS = {
    "C01": P("For every shared entry point: the counter that hands out positions changes only by one atomic addition of the number of values being added; "
             "storage is obtained, and values are written, only for the block returned by that addition; the block's first position is returned; no exported declaration hands the counters to safe code.",
             "reservation-counter-overwritten", "claim-not-an-addition", "claim-only-forward", "claim-bounded", "claimed-block-used",
             "storage-only-for-claimed", "storage-of-own-block", "store-inside-own-block", "one-claim-per-call", "returns-first-position",
             "counters-stay-private", "block-completely-written", "claims-announced-number",
             tech="abstract interpretation of MIR: effects on the reservation counter and affine block bounds"),
    "C02": P("For every growing call and from_iter: writes into the claimed block are consecutive from its first position, each takes the next supplied "
             "value, each is followed by making the position visible, and at every normal return the whole block is written and visible.",
             "block-completely-written", "block-completely-visible", "stored-consecutively", "stores-supplied-value", "stores-items-in-order",
             "visible-after-store", "no-item-lost", "all-supplied-values-stored", "requested-number-stored", "one-value-stored", "closure-gets-first-position",
             "collected-into-result",
             tech="abstract interpretation of MIR: typestate of claimed positions with ghost counters"),
    "C03": P("For the write permits: under every relative order of block begin, block end and capacity, 'write' is answered only if the block lies inside the "
             "capacity, 'expand' only if it contains the first unallocated position, 'wait' only if it begins beyond it.",
             "permit-known", "write-only-inside-capacity", "only-one-expander", "waits-only-beyond-capacity",
             tech="abstract interpretation of MIR: path conditions of each permit"),
    "C04": P("Freshly allocated storage is filled with absent cells before it becomes reachable, clearing takes every occupied cell out and starts both counters "
             "again, and safe entry points reach a cell only below the published length or after an acquiring presence check.",
             "fresh-memory-filled", "filled-as-absent", "slots-emptied", "emptied-in-sequence", "storage-cleared", "counters-reset",
             tech="abstract interpretation of MIR: values written into fresh memory, loop coverage"),
    "C05": P("len() returns the end of a prefix all of whose positions were seen visible, counts every position written before the call, and only ever raises the "
             "published length; no other operation changes the published length except to a position seen visible.",
             "published-length-overwritten", "published-length-monotone", "published-only-visible", "length-known", "length-is-prefix", "length-complete",
             "written-position-reachable", "empty-iff-length-zero", "counters-stay-private",
             tech="abstract interpretation of MIR: effects on the published-length counter and loop invariants"),
    "C06": P("Every element reference, slice and storage iteration that safe shared entry points create lies below the published length (never only below the "
             "number of claimed positions).",
             "iteration-inside-storage", "slice-inside-published", "element-inside-published",
             tech="abstract interpretation of MIR: affine bounds on every storage access"),
    "C07": P("Every read, write, reference or clone of an element value in a safe shared entry point happens while the element's exclusive handle is held, or is "
             "the first write of a position the call itself claimed.",
             "value-touched-while-held", "first-write-of-own-position", "no-unguarded-cell-access",
             tech="abstract interpretation of MIR: typestate of element handles"),
    "C08": P("Every value observation uses an acquiring acquisition or load, every publication a releasing one; unchecked reads follow an acquiring "
             "presence check; reading the published length acquires what was announced with release.",
             "value-observed-with-acquire", "published-length-read-with-acquire", "published-length-announced-with-release",
             tech="abstract interpretation of MIR: memory orderings of every atomic access"),
    "C09": P("No safe exported function, trait implementation or public field gives out a reference to an element value, the cell around it, or a handle that "
             "dereferences to it; callbacks receive references they cannot let escape.",
             "no-reference-in-output", "no-public-route-to-cell", "callback-reference-does-not-escape", assume=MARK, mir=False,
             tech="queries over type-checked signatures (iterator items and deref targets followed) and compile-fail witnesses"),
    "C10": P("Every element operation acquires the element exactly once, runs the given function exactly once inside that step on the current value, stores "
             "exactly the resulting or given value and returns the value it found.",
             "function-sees-current-value", "function-inside-one-step", "one-exclusive-step", "function-runs-once", "function-result-kept",
             "returns-function-result", "new-value-stored", "returns-overwritten-value", "returns-current-value", "reading-changes-nothing",
             "function-given-position", "element-filled-once", "filled-with-given-value", "filled-with-function-result", "shows-current-value",
             tech="abstract interpretation of MIR: effect sequence inside each acquisition"),
    "C11": P("No shared entry point empties a cell, marks it absent, overwrites it, or leaves a handle that restores anything but the present state.",
             "published-element-stays", "handles-return-to-present",
             tech="abstract interpretation of MIR: effect analysis on cell states"),
    "C12": P("Whenever an element is acquired while another is held, the two are provably different and acquired in an order that is the same at every such "
             "acquisition of the crate.",
             "single-acquisition", "no-second-acquisition", "acquisition-order", "one-order-for-all",
             tech="abstract interpretation of MIR: lock-order analysis with address/position orders"),
    "C13": P("Between the atomic claim and the moment storage for the block is held, no closure, iterator, clone or drop supplied by the caller runs, and no wait "
             "depends on other calls' values being written.",
             "no-caller-code-before-storage", "no-wait-for-other-values", "claim-bounded",
             tech="abstract interpretation of MIR: caller-code effects between claim and storage"),
    "C14": P("Every element access through a slice lies inside its window, index i is translated to window start + i, ranges yield exactly the requested "
             "sub-window, splits tile, and no window exceeds the published length.",
             "same-vector", "window-inside-window", "window-inside-published", "window-length-not-negative", "inside-window", "position-translated",
             "slice-is-requested-range", "split-tiles", "split-none-only-when-empty",
             tech="abstract interpretation of MIR: affine window arithmetic"),
    "C15": P("For every storage kind and every public type or returned iterator: programs that share or send it with an element type that is not Sync or not Send "
             "must be rejected, with accepted twins as a control; every manual Send/Sync implementation must bound its element parameters.",
             "rejected-by-compiler", "marker-impl-bounded", assume=MARK, mir=False,
             tech="trait-solver queries on marker implementations and compile-fail witnesses"),
    "C16": P("Programs that keep an element, slice, iterator or reference alive across a resetting or consuming operation, or beyond the vector, must be rejected by "
             "the borrow checker, with accepted twins as a control; every borrowed output of an exported function is tied to a borrowed argument; "
             "resetting operations take exclusive access or ownership; nothing reachable from a shared entry point resets, reserves or takes out the storage.",
             "rejected-by-compiler", "output-lifetime-tied", "exclusive-receiver", "consumed-with-exclusive-access", assume=BASE + MARK,
             tech="queries over lifetimes in type-checked signatures, compile-fail witnesses, effects of function bodies"),
    "C17": P("Clearing and dismantling bound the occupied length by the capacity, treat exactly the occupied positions, release each once, and reset both counters; "
             "reserving keeps the storage address valid; a value taken out bit by bit is released by exactly one owner, also when caller code panics.",
             "within-storage", "nothing-left-behind", "slots-emptied", "emptied-in-sequence", "storage-cleared", "counters-reset", "storage-handed-over-once", "nothing-forgotten",
             "reserve-keeps-storage-valid", "value-taken-out-once", "released-once", "released-once-on-panic", "overwritten-value-released",
             tech="abstract interpretation of MIR: ownership of storage and of bit-copied values, affine occupied length"),
    "C18": P("Every whole-collection operation processes positions 0, 1, 2, ... up to at least the length published at the start, each once, and returns what its "
             "function produced (search: the first match, or none only without match).",
             "every-element-once-in-order", "all-elements-processed", "yields-function-results", "yields-tested-element", "yields-only-matching",
             "matching-elements-yielded", "accumulator-passed-on", "returns-accumulated-result", "stops-at-first-match", "compares-with-given-value",
             "first-match-returned", "none-only-without-match", "contains-means-match", "copied-not-moved", "same-position-in-clone", "returned-vec-holds-values",
             tech="abstract interpretation of MIR: loop invariants over visited positions"),
    "C19": P("Every equality: only pairs of the same position are compared, true is returned only when lengths agree and all pairs compared equal, false only on "
             "a length difference or an unequal pair.",
             "mismatch-ends-comparison", "pairs-of-same-position", "true-means-equal", "true-means-all-compared", "false-means-different",
             "compares-both-operands", "values-compared", "result-of-comparison",
             tech="abstract interpretation of MIR: path conditions of each result"),
    "C20": P("Direct accessors hand out only elements whose presence was confirmed, at the requested position and inside the range, find every written position "
             "whatever other threads do with it, and iterations continue behind positions that are not written yet.",
             "finds-written-element", "hands-out-confirmed-element", "requested-position", "inside-range", "goes-on-past-gaps",
             tech="abstract interpretation of MIR: presence typestate with the set of written positions as assumption"),
    "C21": P("swap returns true exactly when both positions are in range; then the two values are exchanged while both handles are held (or the positions are "
             "equal), otherwise nothing changes.",
             "exchanged-in-one-step", "true-means-in-range", "true-means-exchanged", "false-means-unchanged", "false-means-out-of-range",
             tech="abstract interpretation of MIR: path conditions and effects of each result"),
    "C22": P("Shared entry points use the storage only to look positions up and to extend it; no cell is moved, copied or replaced, only values inside cells change.",
             "storage-not-moved", "only-values-exchanged", "storage-only-looked-up", "storage-only-extended",
             tech="abstract interpretation of MIR: effect analysis on storage"),
    "C23": P("Construction from storage starts both counters at the storage's length; dismantling takes exactly the written positions and hands values over in order; "
             "the storage is not edited on the way except as modelled, and iterator methods the returned iterator overrides agree with its next.",
             "storage-kept-as-it-is", "built-from-given-storage", "counters-start-at-length", "takes-exactly-written", "values-in-order", "storage-handed-over-once", "all-values-returned",
             "returned-vec-holds-values", "returns-the-storage",
             tech="abstract interpretation of MIR: ownership flow and affine lengths"),
    "C24": P("chunks(n) yields windows that start where the previous one ended, have n positions except possibly the last, and end at the length; n = 0 panics.",
             "chunks-contiguous", "only-last-chunk-shorter", "chunk-size", "chunk-size-not-zero", "chunks-cover-everything",
             tech="abstract interpretation of MIR: loop invariants over yielded windows"),
    "C27": P("Every handle acquired by a shared entry point is released on every normal return, on every path on which caller code panics, and before an iterator "
             "hands control back between items; elements are locked only through handles that release when dropped.",
             "element-locked-by-guard", "unlocked-on-panic", "nothing-locked-between-items", "every-element-unlocked",
             tech="abstract interpretation of MIR: typestate of element handles on normal and unwinding paths"),
    "C28": P("Every reachable panic (explicit, failed expect/unwrap, bounds check, arithmetic overflow) of a shared entry point or constructor is preceded by path conditions that "
             "prove a documented reason; every other path returns.",
             "panic-has-documented-reason", "returns-normally",
             tech="abstract interpretation of MIR: path conditions of every reachable panic"),
    "C29": P("Every loop of a shared entry point that looks at shared state makes progress of its own in each round (a bounded position moves on, a value is "
             "stored, caller code runs, or a failed exchange shows that another thread got on); element locks are taken only on elements the call was asked "
             "for and whose value it uses; no blocking primitive is called.",
             "no-polling", "waits-only-for-own-element", "no-blocking-call", "returns-without-polling",
             tech="abstract interpretation of MIR: progress of loops over shared state, lock effects per entry point"),
    "C30": P("Every constructor builds the vector it returns on storage whose size arguments equal the requested ones (32 fragments for doubling growth); capacity "
             "queries return the value of the storage; reserving passes on at least the requested limit and returns the resulting one.",
             "storage-as-requested", "returns-vector-on-that-storage", "returns-allocated-capacity", "returns-reachable-capacity", "reserves-what-was-asked",
             "returns-new-limit", "built-from-given-storage",
             tech="abstract interpretation of MIR: affine flow of requested sizes into storage constructors"),
    "C31": P("For get, get_cloned, get_copied and indexing of vectors and slices, under the assumption that the index is below the length when the call begins and "
             "whatever other threads do meanwhile: no path returns nothing or panics, and the result refers to (or is a copy of the value of) exactly the requested "
             "position; splitting off the first or last element fails only for empty ranges.",
             "finds-element-below-length", "returns-requested-element", "position-translated", "split-none-only-when-empty",
             tech="abstract interpretation of MIR: reachability of the not-found results, affine positions"),
    "C32": P("At every point of a shared entry point where caller code runs (closures, iterators, clone, comparison, formatting), every element held at that "
             "moment is one whose value that very piece of caller code was handed.",
             "holds-only-elements-handed-over", "caller-code-with-nothing-else-held",
             tech="abstract interpretation of MIR: typestate of element handles at calls into caller code"),
}

NOT_APPLICABLE = {
    "C25": "linearizability quantifies over whole concurrent histories and their real-time order; no sound static argument in reach bounds it. Its ingredients are "
           "claimed separately: one atomic claim (C01), exclusive element steps (C07, C10), monotone prefix length (C05).",
    "C26": "progress and throughput under contention are timing properties of runs, which no analysis of the source decides; the static part (no waiting on other "
           "elements, no caller code while others wait, no lock cycles) is claimed as C12, C13 and C29.",
}
