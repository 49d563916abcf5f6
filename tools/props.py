"""The catalogue: every property, how it is decided, and what each check runs."""

COMMON = [
    "the implementation is executed as the LLVM IR that rustc 1.74 emits for it at opt-level 0 (dependencies at opt-level 1, plus std's own bitcode); later code generation is not covered",
    "hash values are modelled as constants, so hash tables behave correctly but iterate in one fixed order",
    "the clock is fixed, environment variables are unset unless the harness sets them, and allocation never fails",
]
# what the whole-command harnesses stand on
WORLD = COMMON + [
    "libgit2 is replaced by an in-memory model (objects, references, index, three-way merge by file) and git itself by a model of the subcommands the code runs; SQLite is the real C code over an in-memory file; the segmented commit graph is eden_dag's in-memory variant of the same code",
    "git runs the hooks that init installs; the model runs the real hook implementation in a modelled child process",
]


def e(entry, covers, bound, **kw):
    return dict(entry=entry, covers=covers, bound=bound, **kw)


def T(entry, covers, bound, **kw):
    return e(entry, covers, bound, tier="thorough", **kw)


PROPS = {}


def prop(pid, title, statement, over, qtext, why, files, mech, oracle, entries, assumptions=WORLD):
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, oracle=oracle, entries=entries, assumptions=assumptions)


prop("P01", "Commit search always terminates with the true boundary, testing no commit twice",
     "For every commit graph, searched set, consistent test outcome and strategy, a commit search (bisection) ends, never suggests a commit twice or one whose outcome is already known or implied, and ends only when every searched commit is tested or implied. A reported result is accepted exactly when it does not contradict accepted ones, and the reported bounds are exactly the latest known-good and earliest known-bad commits. On linear history the binary strategy needs only logarithmically many tests.",
     ["inputs", "schedules"], "all graphs, searched subsets, outcome functions incl. indeterminate commits, strategies, and orders in which speculative results arrive",
     "The number of graphs, predicates and result orders explodes; a handful of examples or random samples leaves most shapes (several bounds, indeterminate commits, out-of-order results) unvisited.",
     ["scm-bisect/src/search.rs", "scm-bisect/src/basic.rs"], [("Search::search / notify", "scm-bisect/src/search.rs"), ("BasicStrategy::midpoint", "scm-bisect/src/basic.rs")],
     "an independent reachability computation over a bit matrix: implied outcomes, contradictions and bounds are recomputed from the accepted results",
     [e("h_bisect_protocol3", ["finished", "with indeterminate commits"], "any DAG on 3 commits, any searched subset, any monotone predicate, any set of indeterminate commits, 3 strategies, results in any suggested order"),
      e("h_bisect_run5", ["finished"], "any DAG on 5 commits, any monotone predicate, 3 strategies, first suggestion tested each round"),
      e("h_bisect_contradict4", [], "any DAG on 4 commits, any sequence of 4 reported results of any kind for any commits"),
      e("h_bisect_chain15", [], "linear history of 15 commits, any first bad commit: at most 4 tests with the binary strategy"),
      T("h_bisect_protocol4", ["finished"], "as h_bisect_protocol3 with 4 commits")],
     COMMON)

prop("P02", "Every recorded event comes back unchanged, in order, and only those",
     "Whatever a command records in the event log (commits, rewrites, reference updates, hiding, snapshots; any object names, reference names, messages, absent values) is read back later exactly as recorded and in the order it was recorded, grouped under the command that recorded it. Commands never share an identifier, and operations that asked not to be recorded leave no trace.",
     ["inputs", "histories"], "all sequences of events of every kind with arbitrary object names and text, split in any way over commands and write batches",
     "Each event kind has its own column encoding with optional and zero values; example tests write a few well-formed events and rarely compare every field after a fresh read.",
     ["git-branchless-lib/src/core/eventlog.rs"], [("EventLogDb::add_events / get_events", "git-branchless-lib/src/core/eventlog.rs"), ("Event <-> Row conversion", "git-branchless-lib/src/core/eventlog.rs")],
     "the list of events handed to the log, compared field by field with what a fresh connection returns",
     [e("h_log_roundtrip1", ["all events kept", "suppressed"], "one event of any kind, any 20-byte object names, any two characters in names and messages, any optional field absent"),
      e("h_log_order2", ["all events kept", "suppressed"], "two events of any kinds, any grouping into (possibly overlapping) commands and batches, any order of time stamps"),
      T("h_log_roundtrip2", ["all events kept", "suppressed"], "two such events, same or different command, same or different batch")])

prop("P03", "Replaying the event log yields the true state at every past point",
     "For any sequence of recorded events, a commit's status (active, hidden or rewritten, unknown) at any past point is what its latest event up to that point says, and stepping back and forward by commands or events visits exactly the boundaries between them. The recorded position of HEAD, the main branch and every branch at any point is where the latest update up to that point left it.",
     ["histories"], "all event sequences over a few commits and references, all command groupings and all cursor positions and steps",
     "Status depends on the last event of every kind touching a commit, before a cursor; the sequences that matter (rewritten back, hidden again, zero targets, equal old and new) are many and examples show only a few.",
     ["git-branchless-lib/src/core/eventlog.rs"], [("EventReplayer::process_event / get_cursor_*", "git-branchless-lib/src/core/eventlog.rs"), ("EventCursor stepping", "git-branchless-lib/src/core/eventlog.rs")],
     "a direct fold over the list of events up to the cursor",
     [e("h_replay_status3", [], "any 3 events of any kind over 3 commits, every cursor"),
      e("h_replay_cursor5", [], "5 events grouped into commands in any way, any walk by commands or events"),
      e("h_replay_refs2", [], "any 2 reference updates over HEAD, main and two branches, every cursor"),
      e("h_replay_refs3", [], "any 3 reference updates"),
      T("h_replay_cursor7", [], "7 events")])

prop("P04", "Public, draft, active and visible commits are exactly what history says",
     "For every commit graph, branch placement, checked-out commit and record of hidden and rewritten commits: the public commits are exactly the main branch's history, the drafts are the other known commits, and the visible set is exactly the known commits not hidden plus everything they, the branches and the checkout stand on. Asking at an earlier point in time gives the sets of that time.",
     ["inputs", "histories"], "all graphs incl. merges, all placements of main, a branch and HEAD, all sets of hidden and recorded commits",
     "Visibility is a closure over graph shape and record; errors show only for particular combinations (hidden parent of an active commit, branch on a hidden commit, merge across main).",
     ["git-branchless-lib/src/core/dag.rs"], [("Dag::query_public_commits / query_draft_commits / query_visible_*", "git-branchless-lib/src/core/dag.rs"), ("Dag::open_and_sync", "git-branchless-lib/src/core/dag.rs")],
     "bit-set closure computed from the graph and the set of hidden commits",
     [e("h_visible_tree3", [], "any tree of 3 commits, main, branch and HEAD anywhere, any recorded/hidden sets"),
      e("h_visible_dag3", [], "the same with merges, main and HEAD anywhere, no other branch"),
      T("h_visible_tree4", [], "any tree of 4 commits")])

prop("P05", "Undo restores branches, checkout and visible commits to an earlier state",
     "Undoing back to any recorded point leaves every branch, the checked-out commit and the set of active commits exactly as recorded at that point, and undo is itself recorded so that it can be undone. Undoing directly after a move, fold or hide command gives back the state from before that command.",
     ["histories", "inputs"], "all short event histories and target points; all small graphs, branch placements and commands followed by undo",
     "Undo inverts whatever events happened to be recorded, in reverse order; a wrong inverse for one event kind or one ordering of two only shows for specific histories.",
     ["git-branchless-undo/src/lib.rs", "git-branchless-lib/src/core/eventlog.rs"], [("inverse_event / undo_events", "git-branchless-undo/src/lib.rs"), ("undo command", "git-branchless-undo/src/lib.rs")],
     "the state (references, active set) captured at the target point or before the command",
     [e("h_undo1", [], "any single recorded event on a small repository, undone"),
      e("h_undo2", [], "any two recorded events, any target point"),
      e("h_undo_last1", [], "undo of the last command, one event"),
      e("h_undo_last2", [], "undo of the last command, two events"),
      e("h_undo_move3", ["undone"], "any tree of 3 commits, branch and HEAD anywhere, attached or not; any subtree move, then undo"),
      e("h_undo_hide3", ["undone"], "the same with hide, recursive or not"),
      T("h_undo_hide4", ["undone"], "4 commits"),
      T("h_undo_move4", ["undone"], "4 commits"),
      T("h_undo_fixup4", ["undone"], "4 commits, folding")])

prop("P06", "Moving commits yields exactly the requested graph, contents and branches",
     "Moving a subtree, a line of commits or an exact set of commits onto any destination makes exactly those commits sit on the destination in their old relative order, re-attaches what an exact move leaves behind, and changes no other commit. Every moved commit keeps its message, author and own change, branches and the checkout follow their commits, each commit has exactly one current version, and impossible or public-history requests are refused with nothing changed.",
     ["inputs", "programs"], "all trees of up to 4 commits, all sources, destinations and exact sets, main, branch and HEAD placements, attached or detached",
     "The plan depends on the shape of the whole graph around source and destination; examples cover a few shapes, while mistakes appear for particular overlaps (destination inside the moved set, branch in the gap, HEAD on a sibling).",
     ["git-branchless-move/src/lib.rs", "git-branchless-lib/src/core/rewrite/plan.rs", "git-branchless-lib/src/core/rewrite/execute.rs"],
     [("move command", "git-branchless-move/src/lib.rs"), ("RebasePlanBuilder", "git-branchless-lib/src/core/rewrite/plan.rs"), ("rebase_in_memory / move_branches / check_out_updated_head", "git-branchless-lib/src/core/rewrite/execute.rs")],
     "the parent relation required by the options, computed directly on indices; contents are the new parent's files plus the commit's own file",
     [e("h_move_src4", ["moved", "refused"], "any tree of 4 commits, main at the root, branch and HEAD together anywhere, attached or not; any source and destination"),
      e("h_move_src3", ["moved", "refused"], "any tree of 3 commits, main, branch and HEAD placed independently"),
      e("h_move_base4", ["moved", "refused"], "as h_move_src4 with --base"),
      e("h_move_exact3", ["moved", "refused"], "as h_move_src3 with any exact set"),
      e("h_move_hidden4", ["moved", "refused"], "as h_move_src4 without branch, one commit hidden"),
      e("h_move_exact_hidden4", ["moved", "refused"], "the same with any exact set"),
      T("h_move_base3", ["moved", "refused"], "as h_move_src3 with --base"),
      T("h_move_exact4", ["moved", "refused"], "as h_move_src4 with any exact set")])

prop("P07", "Restack puts every abandoned commit and branch onto the current version",
     "After commits were amended, moved or otherwise rewritten, restacking leaves every still-active commit on the current version of what it was based on, however often that was rewritten, with its own change, message and author intact, and moves branches on rewritten commits to the current version. Nothing else changes, and it fails, changing nothing, only when a commit was replaced by something built on top of itself.",
     ["inputs", "histories"], "all trees of up to 4 commits with one or two commits replaced anywhere by commits placed anywhere, any branch and HEAD placement",
     "Which commits are abandoned depends on chains of rewrites and on graph shape; examples cover one amended commit with one child.",
     ["git-branchless/src/commands/restack.rs", "git-branchless-lib/src/core/rewrite/evolve.rs"], [("restack_commits / restack_branches", "git-branchless/src/commands/restack.rs"), ("find_rewrite_target / find_abandoned_children", "git-branchless-lib/src/core/rewrite/evolve.rs")],
     "follow the replacement relation to its end for every parent; compare the resulting graph, contents and branches",
     [e("h_restack3", ["restacked", "refused", "nothing to restack"], "any tree of 3 commits, any draft replaced by a new commit placed anywhere (also on top of itself); branch and HEAD together anywhere"),
      e("h_restack3x2", ["restacked"], "two successive replacements (also of the replacement), not on top of themselves; replaced commits that are still shown do not themselves sit on moved ones"),
      e("h_restack_drop3", ["branch removed", "dropped", "replaced, then dropped"], "any tree of 3 commits, one draft dropped, directly or after having been replaced; branch anywhere"),
      T("h_restack_drop4", ["branch removed", "dropped", "replaced, then dropped"], "the same with 4 commits"),
      T("h_restack4", ["restacked"], "any tree of 4 commits, one replacement")])

prop("P08", "A conflicting move changes nothing; emptied commits are dropped, not kept",
     "When replaying commits would conflict, the in-memory move stops without touching any branch, the checkout, the record of commits or the working copy. When there is no conflict every commit's files are exactly the three-way merge of its change with its new parent, and a commit whose change is already present at its new place disappears, with its children re-attached, its branches removed and the checkout moved to its new parent.",
     ["inputs"], "all trees of 3 or 4 commits in which every commit writes a shared file with any of several values and optionally its own file; any source and destination",
     "Conflicts and emptied commits depend on combinations of contents along both paths; examples exercise one conflict and one upstream duplicate.",
     ["git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-lib/src/git/repo.rs", "git-branchless-lib/src/git/tree.rs"],
     [("rebase_in_memory", "git-branchless-lib/src/core/rewrite/execute.rs"), ("Repo::cherry_pick_fast", "git-branchless-lib/src/git/repo.rs"), ("dehydrate/hydrate tree", "git-branchless-lib/src/git/tree.rs")],
     "file-level three-way merge over the values along the new path",
     [e("h_clash3", ["conflict", "emptied", "moved"], "any tree of 3 commits, shared file with 3 values, own files optional"),
      e("h_clash4", ["emptied", "moved"], "any tree of 4 commits, shared file with 2 values"),
      e("h_clash_pair", ["emptied", "moved"], "two shared files, main anywhere"),
      T("h_clash4full", ["conflict", "emptied", "moved"], "any tree of 4 commits, 3 values, own files optional")])

prop("P09", "Hide and unhide affect exactly the named commits (and descendants if asked)",
     "Hiding marks exactly the named commits hidden (with the recursive option also every visible descendant), removes the branches pointing at them unless asked not to, and leaves all else alone. Unhiding brings back exactly the named commits (recursively also their hidden descendants); both work for any commit in the repository, including hidden ones and ones the tool has not seen before.",
     ["inputs", "histories"], "all trees of up to 4 commits, any set already hidden, branch anywhere, HEAD attached or not, every option",
     "Recursive behaviour depends on which descendants are already hidden and what keeps them visible; examples use one linear stack.",
     ["git-branchless/src/commands/hide.rs", "git-branchless-revset/src/resolve.rs"], [("hide / unhide", "git-branchless/src/commands/hide.rs"), ("resolve_commits", "git-branchless-revset/src/resolve.rs")],
     "bit-set of hidden commits before and the closure asked for",
     [e("h_hide3", ["hid", "unhid", "branch deleted"], "any tree of 3 commits, any hidden set, any command and options"),
      T("h_hide4", ["hid", "unhid", "branch deleted"], "4 commits")])

prop("P10", "Garbage collection never lets go of a commit that is not hidden or rewritten",
     "Every commit made while the hooks are installed, and every commit produced by a rewrite, stays reachable for git through any later hiding, unhiding or moving of other commits and any garbage collection, as long as it is itself active. Collecting removes the protection of exactly the hidden and rewritten commits and touches no branch, tag or checkout and no record.",
     ["histories", "inputs"], "all trees of up to 4 commits, made by any commit hook, any hide, unhide or move in between, explicit or automatic collection",
     "Losing a reference only matters when git later prunes; tests look at one hidden commit and never ask the reachability question for all commits.",
     ["git-branchless-lib/src/core/gc.rs", "git-branchless-hook/src/lib.rs"], [("find_dangling_references / mark_commit_reachable", "git-branchless-lib/src/core/gc.rs"), ("hook_post_commit_common", "git-branchless-hook/src/lib.rs")],
     "graph reachability from all references before and after",
     [e("h_gc3", ["let go", "brought back", "moved", "made during a rebase"], "any tree of 3 commits, one of them possibly made without hooks; hide/unhide/move anything; then collect"),
      T("h_gc4", ["let go", "brought back", "moved"], "4 commits")])

prop("P11", "Hooks record exactly the user-visible changes git made, once they are final",
     "For every reference transaction git reports, exactly the committed updates of user-visible references are recorded, with their true old and new positions even while git is packing references. Commits made during a rebase that git runs are recorded, together with which commits they replace, only when that rebase completes; a rebase that is given up leaves no trace.",
     ["inputs", "histories", "configurations"], "all transactions of up to two updates over all kinds of reference names and values, any packed-reference file; all rebases of up to 3 commits with any steps made or dropped, completed or given up",
     "Git calls the hooks in many states with values that cannot be trusted; the combinations of packed references, zero values and ignored names are rarely met in tests, yet a wrong record corrupts undo.",
     ["git-branchless-hook/src/lib.rs", "git-branchless-lib/src/core/rewrite/rewrite_hooks.rs"], [("hook_reference_transaction / fix_packed_reference_oid", "git-branchless-hook/src/lib.rs"), ("hook_post_rewrite / deferred commits", "git-branchless-lib/src/core/rewrite/rewrite_hooks.rs")],
     "the list of updates filtered and corrected by a direct definition; status of every commit before, during and after the rebase",
     [e("h_hook_reftx1", ["recorded", "ignored", "packed"], "one update, 8 kinds of name, any of 3 commits, zero or symbolic as old and new value, any packed-refs file over two names, any transaction state"),
      e("h_hook_rebase3", ["completed", "given up"], "rebase of any tree of 2 drafts, each made or dropped, with or without reported amends"),
      e("h_hook_rebase4", ["completed", "given up"], "3 drafts"),
      T("h_hook_reftx2", ["recorded", "ignored", "packed"], "two updates over 4 kinds of name")])

prop("P12", "Inserting and folding commits give the requested graph and combined contents",
     "With the insert option the moved commits land between the destination and everything that was on it. Folding (fixup) makes the destination commit contain exactly its own change plus those of the folded commits, with its own message, makes the folded commits disappear and re-attaches their other children, and refuses to rewrite public commits; branches and the checkout on folded commits end up on the result.",
     ["inputs"], "all trees of up to 4 commits, all sources or exact sets, all destinations, branch and HEAD placements",
     "These modes combine moving with re-parenting of bystanders; the shapes in which source, destination and bystanders overlap are too many for examples.",
     ["git-branchless-move/src/lib.rs", "git-branchless-lib/src/core/rewrite/plan.rs", "git-branchless-lib/src/core/rewrite/execute.rs"],
     [("move command, --insert/--fixup", "git-branchless-move/src/lib.rs"), ("RebasePlanBuilder::fixup_commit", "git-branchless-lib/src/core/rewrite/plan.rs"), ("Repo::amend_fast", "git-branchless-lib/src/git/repo.rs")],
     "as P06, with folded commits' files added to the destination's",
     [e("h_move_insert4", ["moved", "refused"], "as h_move_src4 with --insert"),
      e("h_move_fixup4", ["moved", "refused"], "as h_move_src4 with --fixup; destination not among the folded commits"),
      e("h_move_exact_fixup3", ["moved", "refused"], "any tree of 3 commits, any exact set folded"),
      e("h_move_insert3", ["moved", "refused"], "main, branch and HEAD independent, 3 commits"),
      e("h_move_insert_hidden4", ["moved", "refused"], "as h_move_insert4 without branch, one commit hidden"),
      e("h_move_fixup_hidden4", ["moved", "refused"], "as h_move_fixup4 without branch, one commit hidden"),
      T("h_move_fixup3", ["moved", "refused"], "main, branch and HEAD independent, 3 commits"),
      T("h_move_exact_insert4", ["moved", "refused"], "exact set inserted, 4 commits"),
      T("h_move_exact_fixup4", ["moved", "refused"], "exact set folded, 4 commits")])

prop("P13", "Every query denotes exactly the commits its definition says",
     "Each documented query function and set operator, given any arguments, selects exactly the visible commits its definition says: ancestors, descendants, parents, children, heads, roots, ranges, drafts, public commits, stacks, branches, current versions and text searches of every pattern kind. No commit is listed twice, and a call with the wrong number of arguments is refused rather than misread.",
     ["inputs", "histories"], "all histories of up to 4 commits (with merges), main branch, another branch and a hidden commit anywhere, every function with all argument sets; all short texts and patterns",
     "Every function is a little algorithm on an arbitrary graph; examples check each on one history, not the interplay with merges, hidden commits, empty sets and public commits.",
     ["git-branchless-revset/src/eval.rs", "git-branchless-revset/src/builtins.rs", "git-branchless-revset/src/pattern.rs", "git-branchless-lib/src/core/dag.rs"],
     [("eval", "git-branchless-revset/src/eval.rs"), ("builtin functions", "git-branchless-revset/src/builtins.rs"), ("Pattern", "git-branchless-revset/src/pattern.rs")],
     "the set written as a bit mask from its textbook definition over the parent lists",
     [e("h_rev_nullary3", ["evaluated"], "functions without arguments; any history of 3 commits, main, branch and hidden commit anywhere"),
      e("h_rev_unary3", ["evaluated", "wrong count"], "functions of one set (and a number), any argument set, any history of 3 commits with merges"),
      e("h_rev_binary3", ["evaluated"], "binary operators, any two sets, any tree of 3 commits, a hidden commit"),
      e("h_rev_text", ["matches", "does not match"], "5 text functions, 6 pattern forms, any text of 2 and pattern of 1-2 letters over {a, b, any}"),
      e("h_rev_current4", ["unchanged", "rewritten", "gone"], "any tree of 4 commits, any two rewrites, any commit asked"),
      T("h_rev_nullary4", ["evaluated"], "4 commits"),
      T("h_rev_unary4", ["evaluated", "wrong count"], "4 commits"),
      T("h_rev_binary4", ["evaluated"], "4 commits with merges")])

prop("P14", "Queries are read by documented precedence; quoted names mean what they quote",
     "Every combination of the documented operators (infix, prefix and postfix, spelt in any of their ways, with or without spaces) is read with the documented binding strengths, grouping to the left. Names, function calls and nested calls are read as written, and a quoted name stands for exactly the text inside the quotes.",
     ["inputs"], "all expressions of up to 3 nested operators, all names of up to 3 characters over the allowed kinds, all quoted texts of up to 3 characters incl. both quotes, backslash and newline",
     "Grammar conflicts and lexer clashes show up only for particular neighbours (postfix next to infix, dots next to names); a table of examples does not cover the pairs.",
     ["git-branchless-revset/src/grammar.lalrpop", "git-branchless-revset/src/parser.rs"], [("parse", "git-branchless-revset/src/parser.rs"), ("grammar", "git-branchless-revset/src/grammar.lalrpop")],
     "expressions are generated as trees, printed with the fewest parentheses and compared with the tree read back",
     [e("h_parse_op2", ["parsed"], "two nested operators, no spaces where none are needed"),
      e("h_parse_names2", ["read"], "names of up to 2 characters over 8 kinds, alone and as functions with 0-2 arguments"),
      e("h_parse_quoted2", ["read"], "quoted texts of up to 2 characters over 8 kinds, either quote", max_viol=500),
      T("h_parse_op2sp", ["parsed"], "two nested operators, spaces everywhere"),
      T("h_parse_op3", ["parsed"], "three nested operators"),
      T("h_parse_names3", ["read"], "names of up to 3 characters"),
      T("h_parse_quoted3", ["read"], "quoted texts of up to 3 characters", max_viol=3000)],
     assumptions=COMMON)

prop("P15", "Going to next, previous or a chosen commit lands where it says",
     "Moving by a number of steps, to the end, to the newest, the oldest or a branch lands on exactly the visible commit reached by walking that far in that direction, and never on a hidden commit; an ambiguous step stops or asks rather than guessing. Switching to a target checks out that target (on its branch when a branch is named and not told to detach), creates a branch only when asked, and refuses a target which is not exactly one commit while changing nothing.",
     ["inputs", "histories"], "all histories of up to 4 commits, main branch, another branch, position of HEAD and a hidden commit anywhere, every combination of direction, amount and tie-breaking",
     "Each example test walks one stack; wrong landings need particular mixes of siblings, hidden commits, branches and step counts.",
     ["git-branchless-navigation/src/lib.rs", "git-branchless-lib/src/core/check_out.rs"],
     [("traverse_commits", "git-branchless-navigation/src/lib.rs"), ("switch", "git-branchless-navigation/src/lib.rs"), ("check_out_commit", "git-branchless-lib/src/core/check_out.rs")],
     "the walk over the parent lists, written independently as bit masks",
     [e("h_nav3", ["refused", "stayed", "went"], "next/prev with every option on any tree of 3 commits"),
      e("h_switch3", ["created", "refused", "went"], "switch to commit, branch or nothing, with and without --create, any tree of 3 commits"),
      T("h_nav4", ["refused", "stayed", "went"], "4 commits"),
      T("h_switch4", ["created", "refused", "went"], "4 commits")])

prop("P16", "A snapshot of uncommitted work brings all of it back",
     "Taking a snapshot of the working copy changes neither files, staged changes, branches nor the checkout. Restoring it later, from anywhere, brings back the same checkout and branch, every staged change (including conflicts, deletions and file modes) and every changed tracked file exactly as it was.",
     ["inputs"], "all combinations of committed, staged and on-disk versions (absent, several contents, executable or not) of up to two files in different directories, all conflicts, branch checked out or not",
     "The loss needs a particular disagreement between commit, index and disk for one file, of which there are hundreds; tests try about ten.",
     ["git-branchless-lib/src/git/snapshot.rs", "git-branchless-lib/src/git/status.rs", "git-branchless-lib/src/git/index.rs", "git-branchless-lib/src/core/check_out.rs", "git-branchless-lib/src/git/repo.rs"],
     [("create_snapshot", "git-branchless-lib/src/core/check_out.rs"), ("restore_snapshot", "git-branchless-lib/src/core/check_out.rs"), ("WorkingCopySnapshot", "git-branchless-lib/src/git/snapshot.rs"), ("StatusEntry::try_from", "git-branchless-lib/src/git/status.rs")],
     "HEAD, branches, the whole index and the files are compared with what they were",
     [e("h_snap1", ["restored"], "one file, modes, branch checked out or not"),
      e("h_snap1c", ["restored", "restored a conflict"], "one file, any conflict", max_viol=5000),
      e("h_snap2", ["restored"], "two files, staged renames", max_viol=5000),
      T("h_snap2x", ["restored"], "two files with modes, branch checked out or not", max_viol=5000),
      T("h_snap2c", ["restored", "restored a conflict"], "two files, each possibly in conflict", max_viol=50000)])

prop("P17", "Amending takes the staged changes or else all changes, and nothing else",
     "Amending replaces the checked-out commit by one with the same parent, message and author that contains its staged changes or, if nothing is staged, all changes to tracked files; no file on disk changes, what was left out stays uncommitted, and with unresolved conflicts it is refused. Branches and the checkout follow to the new commit, and the commits on top are put onto it with their own changes (or, if asked, with exactly their old contents), or stay as they are when that conflicts. Undoing the command brings back commits, branches, files and staged changes, or is refused because of remaining changes.",
     ["inputs"], "all combinations of committed, staged and on-disk versions (absent, several contents, executable or not) of up to two files, all conflicts, commits on top adding or editing a file, branch placements, checked-out branch or not",
     "What is amended, left over or lost depends on how three versions of one file disagree and on the commit on top; tests try a handful of the combinations.",
     ["git-branchless/src/commands/amend.rs", "git-branchless-lib/src/git/repo.rs", "git-branchless-lib/src/git/snapshot.rs"],
     [("amend", "git-branchless/src/commands/amend.rs"), ("Repo::amend_fast", "git-branchless-lib/src/git/repo.rs"), ("hydrate_tree", "git-branchless-lib/src/git/tree.rs")],
     "the new commit's files, the index, the files on disk, branches, HEAD and the commits on top are compared with what the three versions say",
     [e("h_amend1", ["amended", "refused", "nothing to do"], "one file, any conflict, modes, branch checked out or not"),
      e("h_amend1k", ["amended", "nothing to do", "restacked", "reparented", "not restacked", "undone"], "one file, with a commit on top, undone afterwards", max_viol=5000),
      T("h_amend2", ["amended", "nothing to do", "undone"], "two files, undone afterwards", max_viol=5000),
      T("h_amend1x", ["amended", "refused", "nothing to do", "restacked", "reparented", "not restacked", "undone"], "one file, conflicts, modes, a commit on top, undone afterwards", max_viol=50000)])

prop("P18", "Changing the checkout never loses uncommitted changes",
     "Whatever command changes what is checked out (switching, moving or rewording the checked-out commit, undoing), files with uncommitted changes stay exactly as they are and staged changes stay staged, while all other files become those of the newly checked-out commit. If a change stands in the way, the checkout is refused and every file, every staged change and the checkout stay as they were.",
     ["inputs"], "all combinations of committed (in both commits), staged and on-disk versions of a file, including untracked ones, branch checked out or not, for each command",
     "Whether a change survives depends on how four versions of one file agree; tests only switch with a clean or trivially changed working copy.",
     ["git-branchless-lib/src/core/check_out.rs", "git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-undo/src/lib.rs", "git-branchless-navigation/src/lib.rs"],
     [("check_out_commit", "git-branchless-lib/src/core/check_out.rs"), ("check_out_updated_head", "git-branchless-lib/src/core/rewrite/execute.rs")],
     "the four versions decide which changes must be kept or refused; index, files and HEAD are compared with that",
     [e("h_carry1", ["carried over", "refused"], "one file, untracked or not, switching or going to the previous commit, branch checked out"),
      e("h_carry_move1", ["carried over", "refused"], "the same, moving or rewording the checked-out commit"),
      e("h_carry_undo1", ["undone", "refused"], "one tracked file, undoing a switch"),
      T("h_carry1x", ["carried over", "refused"], "one file, with a detached checkout too"),
      T("h_carry_undo1x", ["undone", "refused"], "undoing, with a detached checkout too")])

prop("P19", "Rewording changes messages only",
     "Rewording commits gives exactly the chosen commits the new message (or leaves everything as it is if there is nothing to change), and keeps their contents, authors and order; the commits on top are put back onto them unchanged. Branches and the checkout follow to the new versions, no other commit changes, and public commits are refused. Messages edited together in one text are given back to the commit each was written for.",
     ["inputs"], "all trees of up to four commits, all sets of commits to reword, branch and checkout placements, short messages over the characters that matter, all edits of a text listing several commits",
     "The outcome depends on which of several related commits are reworded together and on the shape of the edited text; tests try a handful.",
     ["git-branchless-reword/src/lib.rs", "git-branchless-lib/src/core/rewrite/plan.rs"],
     [("reword", "git-branchless-reword/src/lib.rs"), ("prepare_messages / parse_bulk_edit_message", "git-branchless-reword/src/lib.rs")],
     "the new graph is computed by replacing messages in the old one",
     [e("h_reword3", ["reworded", "refused"], "any tree of 3 commits, any commits to reword, branch and checkout anywhere"),
      e("h_reword_text", ["reworded"], "2 commits, any message of 4 characters out of letters, blanks, newlines and comment signs"),
      e("h_reword_bulk1", ["edited"], "one commit, edited text with any change"),
      e("h_reword_bulk2", ["edited", "nothing to do"], "two commits, edited text with any change"),
      T("h_reword_bulk3", ["edited"], "three commits, edited text with any change"),
      T("h_reword4", ["reworded", "refused"], "any tree of 4 commits")])

prop("P20", "The smartlog shows each commit asked for exactly once",
     "The smartlog shows every commit asked for (by default all draft heads with what leads to them, branches, the checkout and the main branch) exactly once, after the commits it is based on, with the mark for its kind: public or draft, hidden, checked out. It shows nothing else than these and the commits connecting them.",
     ["inputs"], "all graphs including merges of up to four commits, hidden commits, branch, main branch and checkout placements, and any set of commits asked for",
     "Whether a commit is shown twice or lost depends on the shape of the graph and on what is hidden; tests pin the output of some graphs.",
     ["git-branchless-smartlog/src/lib.rs"],
     [("make_smartlog_graph", "git-branchless-smartlog/src/lib.rs"), ("build_graph / sort_children", "git-branchless-smartlog/src/lib.rs"), ("render_graph", "git-branchless-smartlog/src/lib.rs")],
     "reachability over a bit matrix says which commits must and may be shown; the printed lines are read back",
     [e("h_smartlog3", ["shown"], "any tree of 3 commits, the command without arguments"),
      e("h_smartlog_graph3", ["shown"], "any graph of 3 commits, any of them asked for, some hidden"),
      e("h_smartlog_exact3", ["shown"], "any graph of 3 commits, exactly the commits asked for"),
      T("h_smartlog_dag3", ["shown"], "any graph of 3 commits, the command without arguments"),
      T("h_smartlog4", ["shown"], "any tree of 4 commits, the command without arguments"),
      T("h_smartlog_graph4", ["shown"], "any graph of 4 commits, any of them asked for"),
      T("h_smartlog_exact4", ["shown"], "any graph of 4 commits, exactly the commits asked for")])

prop("P21", "Installing and uninstalling leave the user's own hooks and settings alone",
     "Installing adds one marked part to each hook file and the settings it needs, once, however often it is done; uninstalling takes away what installing added. The user's own lines in hook files, settings and aliases stay as they are, in the same order.",
     ["inputs", "histories"], "all hook files of a few lines (with or without a shebang, an earlier marked part anywhere in it), places for hook files, settings present before, sequences of installing and uninstalling",
     "Damage needs a particular hook file or setting to be there before; tests install into fresh repositories.",
     ["git-branchless-init/src/lib.rs"],
     [("update_hook_contents / update_between_lines", "git-branchless-init/src/lib.rs"), ("create_isolated_config / delete_isolated_config", "git-branchless-init/src/lib.rs")],
     "the user's lines are those outside the markers; files and settings are compared with what they were",
     [e("h_init_hooks3", ["installed", "uninstalled"], "hook file of up to 3 lines, one command"),
      e("h_init_hooks2x2", ["installed", "uninstalled"], "hook file of up to 2 lines, two commands"),
      e("h_init_config1", ["installed", "uninstalled"], "settings, one command"),
      T("h_init_config3", ["installed", "uninstalled"], "settings, three commands"),
      T("h_init_hooks4x2", ["installed", "uninstalled"], "hook file of up to 4 lines, two commands")])

prop("P22", "A move carried out on disk gives the same result as in memory",
     "Moving commits in the working copy, through git's own rebase, gives the requested graph, contents and branches just like moving them in memory does, also when the move starts in memory, and also for merge commits. If it stops at a conflict, going on after the conflict is resolved completes the move with the resolution, and giving up restores every commit, branch and file. With uncommitted changes it is refused and changes nothing.",
     ["inputs", "histories"], "all trees of up to four commits, sources and destinations, inserted moves, conflicting edits of shared files, resolutions, merge commits anywhere, and all uncommitted changes of a file",
     "The commands handed to git and the hooks run by it interact over several processes; conflicts, dropped commits and merges multiply the ways, and tests try a few.",
     ["git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-lib/src/core/rewrite/plan.rs", "git-branchless-lib/src/core/rewrite/rewrite_hooks.rs", "git-branchless-lib/src/git/repo.rs"],
     [("rebase_on_disk / write_rebase_state", "git-branchless-lib/src/core/rewrite/execute.rs"), ("RebasePlanBuilder::build", "git-branchless-lib/src/core/rewrite/plan.rs"), ("hook_post_rewrite / hook_drop_commit_if_empty", "git-branchless-lib/src/core/rewrite/rewrite_hooks.rs")],
     "the graph and contents that the same move must have in memory (P06, P08), computed from the commits' own changes",
     [e("h_disk_lite3", ["moved", "refused"], "any tree of 3 commits, any source and destination"),
      e("h_disk_insert3", ["moved", "refused"], "the same, inserting"),
      e("h_disk_changes1", ["conflict", "moved", "refused"], "any uncommitted changes of a file"),
      e("h_disk_resolve3", ["resolved"], "3 commits editing shared files, conflicts resolved, then going on"),
      e("h_merge4_either", ["merge moved", "moved"], "any tree of 3 commits and a merge of any two, in memory or else on disk"),
      e("h_either_clash3", ["conflict", "emptied", "moved"], "3 commits editing shared files, in memory or else on disk"),
      T("h_disk_exact3", ["moved", "refused"], "any tree of 3 commits, moving exactly one commit"),
      T("h_disk_src3", ["moved", "refused"], "any tree of 3 commits with branches and checkout anywhere"),
      e("h_disk_clash_pair", ["emptied", "moved"], "two commits with the same or conflicting edits"),
      T("h_disk_clash3", ["conflict", "emptied", "moved"], "3 commits editing shared files, giving up at conflicts"),
      T("h_disk_merge4", ["merge moved", "moved"], "any tree of 3 commits and a merge of any two"),
      T("h_disk_merge4_above", ["merge moved", "moved"], "the same with a commit on top of the merge"),
      T("h_disk_src4", ["moved", "refused"], "any tree of 4 commits")])

prop("P23", "Syncing puts every stack on the main branch, which follows its upstream",
     "Syncing puts every chosen draft stack that is not there yet directly onto the main branch, with the same commits, contents and order; stacks which are there already and stacks which conflict stay exactly as they are. When pulling, the main branch becomes its upstream branch with the local main commits put on top, which keep their contents, and their identity if they are on top of it already. Branches, the checkout and its files follow.",
     ["inputs", "histories"], "all trees of up to four commits, main branch, upstream before and after fetching, branch and checkout placements, all stacks or any chosen one, conflicting edits of a shared file",
     "What moves depends on where the stack roots, the main branch and its upstream are relative to each other; tests try a handful of shapes.",
     ["git-branchless/src/commands/sync.rs", "git-branchless-lib/src/core/rewrite/plan.rs"],
     [("sync", "git-branchless/src/commands/sync.rs"), ("execute_main_branch_sync_plan", "git-branchless/src/commands/sync.rs"), ("execute_sync_plans", "git-branchless/src/commands/sync.rs")],
     "the new graph computed from the old one, the main branch and its upstream",
     [e("h_sync3", ["in place", "moved"], "any tree of 3 commits, all stacks or any one"),
      e("h_sync_pull3", ["in place", "moved"], "any tree of 3 commits, upstream moves from anywhere below the main branch to any commit"),
      e("h_sync_clash4", ["conflict", "moved"], "4 commits editing a shared file"),
      T("h_sync4", ["in place", "moved"], "any tree of 4 commits"),
      T("h_sync_pull4", ["in place", "moved"], "any tree of 4 commits, with pulling")])

prop("P24", "Recording commits the staged changes or else all changes, where asked",
     "Recording makes one new commit on top of what is checked out with the staged changes or, if nothing is staged, all changes to tracked files; no file on disk changes, nothing else moves, and with unresolved conflicts it is refused. The new commit is on the checked-out branch, on a new branch, or on none, as asked; if asked to insert, the commits on top of the old one are put on top of it with their own changes; if asked to stash, what was checked out before is checked out again without the recorded changes.",
     ["inputs"], "all combinations of committed, staged and on-disk versions of up to two files, all conflicts, a draft, hidden or public commit on top adding or editing a file, branch checked out or not, every option",
     "Options, index and working copy states and commits on top multiply; tests try each option once in one state.",
     ["git-branchless-record/src/lib.rs", "git-branchless-lib/src/git/snapshot.rs"],
     [("record", "git-branchless-record/src/lib.rs"), ("insert_before_siblings", "git-branchless-record/src/lib.rs")],
     "the new commit's files, the index, the files on disk, branches, HEAD and the commits on top are compared with what the versions say",
     [e("h_record1", ["recorded", "nothing to do"], "one file, branch checked out or not, plainly, on a new branch or detached"),
      e("h_record_torn1", ["recorded", "refused"], "one file, any conflict"),
      e("h_record_stash1", ["recorded", "stashed", "stays", "inserted"], "one file, stashed, with or without a commit on top"),
      T("h_record_kids1", ["recorded", "inserted"], "one file, with or without a commit on top, inserted or not"),
      T("h_record2", ["recorded", "nothing to do"], "two files"),
      T("h_record_stash2", ["recorded", "stashed", "stays"], "two files, stashed")])

prop("P25", "Recording interactively commits exactly the selected changes",
     "When changes are selected interactively, every changed line, file mode, binary content and deletion can be selected, once. The new commit contains exactly the selected ones: unchanged lines, unselected removed lines and selected added lines in order, the selected mode, and a file is gone only if its deletion was selected. Files on disk stay as they are and what was not selected stays uncommitted; if nothing is selected, nothing is recorded.",
     ["inputs"], "all edits of a file of up to four lines (with or without a final newline), mode changes, binary changes and deletions of up to two files, and all selections among them",
     "Which lines end up in the commit depends on the positions of the changes and on each checkbox; tests script a few selections.",
     ["git-branchless-record/src/lib.rs", "git-branchless-lib/src/git/diff.rs", "git-branchless-lib/src/git/index.rs"],
     [("process_diff_for_record", "git-branchless-lib/src/git/diff.rs"), ("record_interactive", "git-branchless-record/src/lib.rs"), ("update_index", "git-branchless-lib/src/git/index.rs")],
     "the edit script that produced the new version, applied with only the selected steps",
     [e("h_select3", ["recorded", "nothing selected"], "one file: any edit script of 3 lines, binary, deleted; modes; any selection"),
      e("h_select_pair", ["recorded", "nothing selected"], "two files: a deleted or binary one and one with at most one line; any selection"),
      T("h_select4", ["recorded", "nothing selected"], "one file, any edit script of 4 lines, any selection"),
      T("h_select_pair2", ["recorded", "nothing selected"], "two files, each with any edit script of 2 lines, binary or deleted")])

prop("P26", "Submitting pushes exactly the branches of the chosen commits",
     "Submitting puts the branch of every chosen commit onto its server if the server has another version of it, and branches that are not on a server yet only if asked to create them, onto the default server. Nothing else on any server, such as the main branch, and no branch, checkout or commit here changes, and a trial run changes nothing. What somebody else put onto the server in the meantime is never overwritten, and a branch deleted there or a missing default server stops it before anything is pushed.",
     ["inputs", "schedules"], "all trees of three commits, up to two branches on any commits, in any state on two servers, any chosen commits, any default server, creating or not, trial runs, and any push by somebody else between looking and pushing",
     "What is pushed depends on the settings of each branch, its versions here, last seen and on the server, and on what others do at the same time; tests submit a few fixed stacks.",
     ["git-branchless-submit/src/lib.rs", "git-branchless-submit/src/branch_forge.rs", "git-branchless-lib/src/git/reference.rs", "git-branchless-lib/src/core/repo_ext.rs"],
     [("submit", "git-branchless-submit/src/lib.rs"), ("BranchForge", "git-branchless-submit/src/branch_forge.rs"), ("get_default_push_remote", "git-branchless-lib/src/core/repo_ext.rs")],
     "the servers' branches computed from the branches' states, the chosen commits and the options",
     [e("h_submit_one3", ["created", "dry", "failed", "gone", "left alone", "race", "up to date", "updated"], "any tree of 3 commits, one branch in any state on the server, somebody else pushing at any version"),
      e("h_submit_remote3", ["created", "dry", "failed", "updated"], "one branch and the main branch, any way to say which server is the default"),
      e("h_submit_pair3x", ["created", "failed", "gone", "left alone", "updated"], "two branches on any commits, each in any state on either server, any chosen commits")])

