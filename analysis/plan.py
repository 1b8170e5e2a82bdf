"""Which rules decide which property."""

import rules_arch as A
import rules_areg as X
import rules_crate as C
import rules_derive as V
import rules_desc as D
import rules_entity as E
import rules_group as G
import rules_hist as H
import rules_ids as I
import rules_iter as T
import rules_reg as R
import rules_types as W

SLICES = "the slice of|the archetype's entities|slices of one|accesses memory"
ALIVE = "version|valid|cloned"
U = H.using
ENTITIES, VALUES = "iter_entities|handed out before|create_entity succeeds", "shows the entity|has_component|returns the entity|never panics"
# property -> rules; (rule, pattern) uses only the rule's obligations matching the pattern
RULES = {
    "C01": [E.lookups, E.handles, (E.records, ALIVE), E.create, E.destroy, R.destroy, R.remove, R.dead, R.create, *U("dead handle|of a live entity succeeds", "recycling", "same slot", "failures", "levels")],
    "C02": [E.table_default, E.create, E.destroy, E.entity_iter, E.handles, (E.records, ALIVE), R.create, *U(ENTITIES)],
    "C03": [E.handles],
    "C04": [E.records, E.indices],
    "C05": [A.swaps, R.create, R.destroy, R.remove, R.adding, R.removing, E.lookups, E.records, E.indices, *U(VALUES, "recycling", "columns", "edges", "markers")],
    "C06": [A.copies, A.swaps, R.adding, R.removing, (D.add_remove, "removed|added|holds exactly"), *U(VALUES, "growing", "edges", "columns", "meeting", "levels", "markers")],
    "C07": [
        E.create, E.indices, R.create, R.refused, R.adding, R.removing, D.add_remove, (D.groups, "valid|computed"), D.repetitions,
        (X.arbitrary, "failed|exactly for a new|succeeds|invalid set"), (A.growth, "within the limit"), A.failing_memory,
        *U("refuse|hands|succeeds|reports failure", "growing", "meeting", "recycling"), (H.RULES["failures"], ""),
    ],
    "C08": [A.access, R.access, R.dead, (G.tuples, "pointers"), (D.add_remove, "has_component"), (D.predicates, "contains"), *U("get_component|has_component|dead handle")],
    "C09": [T.invalid_groups, T.invalid_iter, D.groups, D.repetitions],
    "C10": [
        A.swaps, A.destructors, G.component_const, R.create, R.refused, R.destroy, R.remove, R.adding, R.removing,
        (A.copies, "destroys|never panics"), (A.growth, "destroys"), (G.tuples, "as_sorted|read_from"),
        *U("destroy"),
    ],
    "C11": [
        A.growth, A.failing_memory, A.destructors, A.access, A.slices, (A.swaps, "accesses memory"), (A.copies, "accesses memory"), G.component_const,
        *[(r, "accesses memory") for r in (R.create, R.destroy, R.remove, R.adding, R.removing)], *U("never panics"),
    ],
    "C12": [D.component_descriptor, D.archetype_ids, D.add_remove, D.groups, D.repetitions, G.component_const],
    "C13": [X.sequences, X.sequences_mixed, X.arbitrary, X.long_lists, *U("stored together|shown together|shows every", "growing", "edges", "meeting", "levels")],
    "C14": [T.matching, T.matching_mut, T.filtered, T.filtered_mut, T.scan, D.predicates, *U("shows every|shown together")],
    "C15": [
        A.slices, T.exact, (T.matching, SLICES), (T.matching_mut, SLICES), (T.filtered, SLICES), (T.filtered_mut, SLICES),
        (G.tuples, "slice"),
        *U("shown together|exact", "columns", "edges", "meeting", "markers"),
    ],
    "C16": [D.predicates, D.add_remove],
    "C17": [G.tuples, D.groups, *U("get_components|shows every", "columns", "meeting", "markers")],
    "C18": [W.borrows, W.mutators, W.components, W.filters, W.unsafety],
    "C19": [C.freestanding],
    "C20": [I.hashes, I.default_ids],
    "C21": [V.emitted, V.expansions],
    "C22": [T.shared, *U("shows|iter_entities|has_component|dead handle shows", "recycling", "meeting", "markers", "failures")],
}

LEVEL = {}
TRUSTED = [
    "rustc nightly's MIR construction and type resolution (driver/mirdump.rs only serialises it)",
    "analysis/engine.py: path-sensitive abstract interpretation of MIR with value numbering and must-facts",
    "analysis/models.py: hand-written summaries of the core/alloc functions the crate calls",
    "the rules in analysis/rules_*.py and the inductive argument in DESIGN.md that combines them",
]
ASSUME = {}
ASSUME_ALL = [
    "unsafe public functions are called within their documented contracts",
    "component types have distinct ids (documented obligation of implementors of Component)",
]
TECH = {
    "C18": "type-level witnesses: generated client programs the compiler's type and borrow checkers must refuse, paired with twins they must accept;"
    " queries over signatures, visibility and supertraits",
    "C19": "queries over the crates loaded, the static and foreign items of the compiled library in each feature configuration, and Cargo.toml",
    "C21": "dataflow over the macro's MIR reconstructing the emitted tokens on every path; type-checked comparison of derived and hand-written implementations",
}
TECH_ALL = "path-sensitive value-numbering dataflow analysis over rustc MIR, with class-invariant rules per public operation"
NOTE = {
    "C18": "The witnesses cover every exported safe method returning something that borrows its owner, every modifying method, the bounds of components and"
    " groups, sealing and the unsafe functions named in analysis/rules_types.py. Trusts rustc's type and borrow checker. Code inside unsafe blocks is the"
    " subject of C05, C10, C11, C15 and C17.",
    "C19": "Covers the release and debug configurations and every feature without dependencies on the installed target. Trusts rustc's crate loading.",
    "C21": "The token template covers every definition the macro parses; the comparison covers 35 forms of definitions. Trusts syn, quote and rustc.",
}
NOTE_ALL = (
    "Covers every path of the analysed functions for arbitrary rows, counts, handles, table lengths and component sizes, alignments and ids; loops over"
    " rows and entities are closed by summaries of an arbitrary iteration. The number of components of the sets involved is enumerated (typically 1 to 4"
    " and the extremes 13 and 14, group implementations 1 to 14), and so are the relative positions of at most three archetypes in one level. What the"
    " analysis cannot decide in changed code is listed as undecided and raises no alarm. Trusts rustc's MIR, the std summaries in analysis/models.py, the analyser itself and the inductive"
    " argument of DESIGN.md; it is not a machine-checked proof."
)
NOT_APPLICABLE = {
    "C23": "It quantifies over the component types of client programs, which are not in this repository; the crate documents it as an obligation of the"
    " implementor (override ID on a collision) and no analysis of the library source can bound what names clients choose.",
}
