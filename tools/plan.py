"""What each check runs: per property and tier, the harnesses with their bounds, and the reachability
witnesses (cover labels) that have to be reached for the run to count."""

HINTS = "size_hint,peek"

# (harness:params, required covers)
def H(spec, *covers, steps=0):
    name, _, params = spec.partition(":")
    return {"harness": "hx_" + name, "params": params or "-", "covers": list(covers), "steps": steps}


LONG = 400_000_000  # IR steps per path, where the default takes a long run for an endless one


ED = ("done", "rejected", "must_panic")

PLAN = {
    "C01": {
        "quick": [H("create:805", *ED), H("create_api:805", "done", "rejected"), H("create:1801", *ED), H("create_api:1801", "done", "rejected"), H("many_edits:256,1", "counted")],
        "thorough": [H("create:1207", *ED), H("create_api:1207", "done", "rejected"), H("create:2401", *ED), H("many_edits:1024,1", "counted", steps=LONG)],
    },
    "C02": {"quick": [H("interrupt:805", "done"), H("interrupt:1801", "done"), H("many_edits:256,2", "counted")], "thorough": [H("interrupt:1208", "done"), H("interrupt:2401", "done"), H("many_edits:1024,2", "counted", steps=LONG)]},
    "C03": {"quick": [H("replace:806", *ED), H("replace:1801", *ED), H("many_edits:256,3", "counted")], "thorough": [H("replace:1208", *ED), H("replace:2401", *ED), H("many_edits:1024,3", "counted", steps=LONG)]},
    "C04": {"quick": [H("detach:906", "done"), H("detach:1801", "done"), H("many_edits:256,4", "counted")], "thorough": [H("detach:1208", "done"), H("detach:2401", "done"), H("many_edits:1024,4", "counted", steps=LONG)]},
    "C05": {"quick": [H("move_same:605", "stay", *ED), H("move_same:1801", "stay", "done", "rejected"), H("many_edits:256,5", "counted")], "thorough": [H("move_same:906", "stay", *ED), H("move_same:2401", "stay", "done", "rejected"), H("many_edits:1024,5", "counted", steps=LONG)]},
    "C06": {
        "quick": [H("move_other:3,3", *ED), H("move_other:703,1", *ED), H("move_other:1801,1", *ED), H("many_edits:256,6", "counted")],
        "thorough": [H("move_other:4,4", *ED), H("move_other:5,3", *ED), H("move_other:3,5", *ED), H("move_other:603,602", *ED), H("move_other:1801,1801", "done", "rejected"), H("many_edits:1024,6", "counted", steps=LONG)],
    },
    "C07": {
        "quick": [H("rejected:3,3", "must_panic", "rejected"), H("rejected:705,0", "must_panic", "rejected", "stay"), H("rejected:1801,0", "rejected", "stay"), H("many_edits:256,7", "counted")],
        "thorough": [H("rejected:4,4", "must_panic", "rejected"), H("rejected:906,0", "must_panic", "rejected", "stay"), H("rejected:2401,0", "rejected", "stay"), H("many_edits:1024,7", "counted", steps=LONG)],
    },
    "C08": {
        "quick": [H("clone_sub:805", "done"), H("clone_ins_same:504", *ED), H("clone_ins_other:3,3", *ED),
                  H("clone_borrowed:3,2", "borrowed", "cloned", "clone_tree"), H("clone_borrowed:502,1", "borrowed", "cloned", "clone_tree"), H("clone_sub:1801", "done"), H("clone_ins_same:1801", "done", "rejected"), H("clone_ins_other:1801,1", "done", "rejected"), H("many_levels:256,8", "counted"), H("many_edits:256,8", "counted")],
        "thorough": [H("clone_sub:1007", "done"), H("clone_ins_same:805", *ED), H("clone_ins_other:4,4", *ED),
                     H("clone_borrowed:4,3", "borrowed", "cloned", "clone_tree"), H("clone_borrowed:804,0", "borrowed", "cloned"), H("clone_sub:1901", "done"), H("clone_ins_same:1901", "done", "rejected"), H("clone_borrowed:1801,1", "borrowed", "cloned"), H("many_levels:1000,8", "counted", steps=LONG), H("many_edits:1024,8", "counted", steps=LONG)],
    },
    "C09": {
        "quick": [H("history:2,2", "done", "rejected"), H("history:1,3", "done", "rejected"), H("history:702,1", "done", "rejected"), H("views:805", "frozen", "hot"), H("history:1801,1", "done", "rejected"), H("views:1801", "frozen", "hot"), H("many_children:256,9", "counted"), H("many_children:256,16", "counted"), H("many_levels:256,16", "counted")],
        "thorough": [H("history:3,2", "done", "rejected"), H("history:1,3", "done", "rejected"), H("history:1004,1", "done", "rejected"), H("views:1007", "frozen", "hot"), H("history:2,3", "done", "rejected"), H("history:1901,1", "done", "rejected"), H("views:2401", "frozen", "hot"), H("many_children:1000,9", "counted", steps=LONG), H("many_children:1000,16", "counted", steps=LONG), H("many_levels:1000,16", "counted", steps=LONG)],
    },
    "C10": {
        "quick": [H("membership:2,0,2", "done", "rejected"), H("membership:1,1,2", "done", "rejected"),
                  H("membership:603,0,1", "done", "rejected"), H("membership:3,2,1", "done", "rejected"), H("membership:1801,0,1", "done", "rejected"), H("many_edits:256,10", "counted")],
        "thorough": [H("membership:3,0,2", "done", "rejected"), H("membership:2,2,2", "done", "rejected"), H("membership:1,1,3", "done", "rejected"), H("membership:804,0,1", "done", "rejected"), H("membership:1801,0,1", "done", "rejected"), H("many_edits:1024,10", "counted", steps=LONG)],
    },
    "C11": {
        "quick": [H("lifetime:2,2", "done", "edited", "rejected", "two", "converted"), H("lifetime:502,0", "done", "edited", "rejected", "converted"), H("lifetime:1801,0", "done", "edited", "rejected"), H("many_handles:256", "counted"), H("many_edits:256,11", "counted")],
        "thorough": [H("lifetime:3,3", "done", "edited", "rejected", "two", "converted"), H("lifetime:4,2", "done", "edited", "rejected", "two", "converted"), H("lifetime:804,0", "done", "edited", "rejected", "converted"), H("lifetime:2401,0", "done", "edited", "rejected"), H("many_handles:65536", "counted", steps=LONG), H("many_edits:1024,11", "counted", steps=LONG)],
    },
    "C12": {
        "quick": [H("weak:3,2", "dead", "upgraded", "edited"), H("weak:602,0", "dead", "upgraded", "edited"), H("reentrant:3,2", "drop_seen", "spied"), H("reentrant:704,0", "drop_seen", "spied"), H("weak:1801,0", "dead", "upgraded", "edited"), H("reentrant:1801,0", "drop_seen", "spied"), H("many_handles:256", "counted")],
        "thorough": [H("weak:4,3", "dead", "upgraded", "edited"), H("weak:903,0", "dead", "upgraded", "edited"), H("reentrant:4,3", "drop_seen", "spied"), H("reentrant:906,0", "drop_seen", "spied"), H("weak:1901,0", "dead", "upgraded", "edited"), H("reentrant:2401,0", "drop_seen", "spied"), H("many_handles:65536", "counted", steps=LONG)],
    },
    "C13": {
        "quick": [H("exclusion:2,4", "cloned", "converted", "navigated", "refused_grant", "refused_prohibition", "released"), H("many_locks:256", "locked")],
        "thorough": [H("exclusion:2,5", "cloned", "converted", "navigated", "refused_grant", "refused_prohibition", "released"),
                     H("exclusion:4,4", "cloned", "converted", "navigated", "refused_grant", "refused_prohibition", "released"), H("many_locks:65536", "locked", steps=LONG)],
    },
    "C14": {
        "quick": [H("follow:2,2", "done", "locked", "unlocked"), H("follow:501,1", "done", "locked", "unlocked"), H("foreign:703", "dead", "left", "other_tree", "prohibition"), H("follow:1801,1", "done", "locked", "unlocked"), H("many_follow:256", "followed"), H("many_edits:256,14", "counted")],
        "thorough": [H("follow:3,3", "done", "locked", "unlocked"), H("follow:702,1", "done", "locked", "unlocked"), H("foreign:905", "dead", "left", "other_tree", "prohibition"), H("follow:2401,1", "done", "locked", "unlocked"), H("foreign:2401", "dead", "left", "other_tree", "prohibition"), H("many_follow:65536", "followed", steps=LONG), H("many_edits:1024,14", "counted", steps=LONG)],
    },
    "C15": {"mute": HINTS, "quick": [H("depth_first:806", "forward", "reverse"), H("depth_first:1801", "forward", "reverse"), H("many_levels:256,15", "counted"), H("many_items:256,15", "counted")], "thorough": [H("depth_first:1208", "forward", "reverse"), H("depth_first:3001", "forward", "reverse"), H("many_levels:1000,15", "counted", steps=LONG), H("many_items:2000,15", "counted", steps=LONG)]},
    "C16": {"mute": HINTS, "quick": [H("axes:906", "empty", "nonempty"), H("axes:1801", "empty", "nonempty"), H("many_levels:256,16", "counted"), H("many_children:256,16", "counted")], "thorough": [H("axes:1208", "empty", "nonempty"), H("axes:3001", "empty", "nonempty"), H("many_levels:1000,16", "counted", steps=LONG), H("many_children:1000,16", "counted", steps=LONG)]},
    "C17": {
        "mute": HINTS,
        "quick": [H("stable_siblings:806", "back", "exhausted"), H("stable_dft:705", "back", "exhausted", "range"), H("stable_siblings:1801", "back", "exhausted"), H("stable_dft:1801", "back", "exhausted", "range"), H("many_items:256,17", "counted")],
        "thorough": [H("stable_siblings:1208", "back", "exhausted"), H("stable_dft:1006", "back", "exhausted", "range"), H("stable_siblings:3001", "back", "exhausted"), H("stable_dft:3001", "back", "exhausted", "range"), H("many_items:2000,17", "counted", steps=LONG)],
    },
    "C18": {
        "mute": HINTS,
        "quick": [H("shallow:704", "back", "exhausted", "limited", "unlimited"), H("shallow:1801", "back", "exhausted", "limited", "unlimited"), H("many_levels:256,18", "counted"), H("many_items:256,18", "counted")],
        "thorough": [H("shallow:1005", "back", "exhausted", "limited", "unlimited"), H("shallow:2401", "back", "exhausted", "limited", "unlimited"), H("many_levels:1000,18", "counted", steps=LONG), H("many_items:2000,18", "counted", steps=LONG)],
    },
    "C19": {
        "mute": HINTS,
        "quick": [H("breadth_first:805", "allocating", "non_allocating", "below", "some"), H("breadth_first:1801", "allocating", "non_allocating", "below", "some"), H("many_levels:256,19", "counted"), H("many_items:64,19", "counted")],
        "thorough": [H("breadth_first:1008", "allocating", "non_allocating", "below", "some"), H("breadth_first:2401", "allocating", "non_allocating", "below", "some"), H("many_levels:1000,19", "counted", steps=LONG), H("many_items:192,19", "counted", steps=LONG)],
    },
    "C20": {
        "only": HINTS,
        "quick": [H("depth_first:705", "forward", "reverse"), H("axes:805", "empty", "nonempty"), H("stable_siblings:705", "exhausted"),
                  H("stable_dft:604", "exhausted"), H("shallow:604", "limited"), H("breadth_first:705", "some"), H("many_items:256,20", "counted")],
        "thorough": [H("depth_first:1007", "forward", "reverse"), H("axes:1207", "empty", "nonempty"), H("stable_siblings:1007", "exhausted"),
                     H("stable_dft:905", "exhausted"), H("shallow:805", "limited"), H("breadth_first:907", "some"), H("many_items:2000,20", "counted", steps=LONG)],
    },
    "C21": {
        "quick": [H("to_events:805", "serialized", "borrowed"), H("roundtrip:805", "built"), H("from_dft:704", "open", "close"), H("to_events:1801", "serialized", "borrowed"), H("roundtrip:1801", "built"), H("from_dft:1401", "open", "close"), H("many_levels:256,21", "counted"), H("many_edits:256,21", "counted")],
        "thorough": [H("to_events:1207", "serialized", "borrowed"), H("roundtrip:1007", "built"), H("from_dft:906", "open", "close"), H("to_events:2401", "serialized", "borrowed"), H("roundtrip:1901", "built"), H("from_dft:2401", "open", "close"), H("many_levels:1000,21", "counted", steps=LONG), H("many_edits:1024,21", "counted", steps=LONG)],
    },
    "C22": {
        "quick": [H("equality:4,3", "equal", "different"), H("equality:605,0", "equal", "different"), H("equality:501,501", "equal", "different"), H("equality_mixed:4,4", "compared", "borrowed"), H("equality:1801,0", "equal", "different"), H("equality:1801,1", "different"), H("equality_mixed:1801,1", "compared", "borrowed"), H("many_levels:256,22", "counted"), H("many_edits:256,22", "counted")],
        "thorough": [H("equality:5,5", "equal", "different"), H("equality:1007,0", "equal", "different"), H("equality:803,803", "equal", "different"), H("equality_mixed:5,5", "compared", "borrowed"), H("equality:2401,0", "equal", "different"), H("equality:1801,1801", "equal", "different"), H("many_levels:1000,22", "counted", steps=LONG), H("many_edits:1024,22", "counted", steps=LONG)],
    },
    "C23": {
        "quick": [H("borrows:604", "exclusive", "shared"), H("edit_while_borrowed:3,2", "done", "rejected"), H("edit_while_borrowed:502,0", "done", "rejected")],
        "thorough": [H("borrows:806", "exclusive", "shared"), H("edit_while_borrowed:4,3", "done", "rejected"), H("edit_while_borrowed:803,0", "done", "rejected"), H("borrows:1801", "exclusive", "shared"), H("edit_while_borrowed:1801,0", "done", "rejected")],
    },
    "C24": {
        "quick": [H("close_current:704", "closed", "nothing_to_close"), H("event_steps:806", "next", "prev", "close"), H("close_current:1801", "closed", "nothing_to_close"), H("event_steps:1801", "next", "prev", "close"), H("many_levels:256,24", "counted"), H("many_items:256,24", "counted")],
        "thorough": [H("close_current:906", "closed", "nothing_to_close"), H("event_steps:1208", "next", "prev", "close"), H("close_current:2401", "closed", "nothing_to_close"), H("event_steps:3001", "next", "prev", "close"), H("many_levels:1000,24", "counted", steps=LONG), H("many_items:2000,24", "counted", steps=LONG)],
    },
    "C25": {
        "quick": [H("pretty_print:704", "borrowed", "printed"), H("debug_print:704", "others", "printed"), H("pretty_print:1801", "borrowed", "printed"), H("many_levels:256,25", "counted", steps=LONG)],
        "thorough": [H("pretty_print:1005", "borrowed", "printed"), H("debug_print:805", "others", "printed"), H("pretty_print:2401", "borrowed", "printed"), H("many_levels:500,25", "counted", steps=LONG)],
    },
    "C26": {
        "quick": [H("builder:0,5", "closed_none", "closed_root", "closed_several", "opened", "not_opened", "over_closed"),
                  H("builder:3,3", "closed_none", "closed_root", "opened", "over_closed"), H("builder:701,2", "closed_none", "closed_several", "opened"), H("batch:5", "pushed", "built", "refused"), H("builder:1801,1", "closed_none", "opened"), H("builder_edited:2,2,1", "edited", "rejected", "closed_several"), H("builder_edited:701,1,1", "edited", "rejected"), H("many_levels:256,26", "counted")],
        "thorough": [H("builder:0,8", "closed_none", "closed_root", "closed_several", "opened", "not_opened", "over_closed"),
                     H("builder:3,6", "closed_none", "closed_root", "opened", "over_closed"), H("builder:1002,3", "closed_none", "closed_several", "opened"), H("batch:7", "pushed", "built", "refused"), H("builder:1801,2", "closed_none", "closed_several", "opened"), H("builder_edited:3,3,1", "edited", "rejected", "closed_several"), H("builder_edited:2,3,2", "edited", "rejected", "closed_several"), H("builder_edited:1801,2,1", "edited", "rejected", "closed_several"), H("many_levels:1000,26", "counted", steps=LONG)],
    },
    "C27": {"quick": [H("macros", "tree", "tree_node")]},
    "C28": {
        "quick": [H("fault_clones:3,2", "panicked"), H("fault_drops:2,2", "edit_panicked", "drop_panicked"),
                  H("fault_drops:603,0", "edit_panicked", "drop_panicked"), H("fault_clones:602,0", "panicked"), H("fault_reads:604,0", "panicked"), H("fault_sources:3,4", "panicked"), H("fault_clones:1801,0", "panicked"), H("fault_drops:1801,0", "drop_panicked")],
        "thorough": [H("fault_clones:4,3", "panicked"), H("fault_drops:3,2", "edit_panicked", "drop_panicked"),
                     H("fault_drops:4,0", "edit_panicked", "drop_panicked"), H("fault_drops:802,0", "edit_panicked", "drop_panicked"), H("fault_clones:802,0", "panicked"), H("fault_reads:906,0", "panicked"), H("fault_sources:4,6", "panicked"), H("fault_clones:1801,0", "panicked"), H("fault_drops:2401,0", "drop_panicked"), H("fault_reads:1801,0", "panicked")],
    },
    "C29": {
        "quick": [H("live_edited:3,0", "edited", "went_on"), H("live_edited:2,2", "edited", "went_on"), H("live_locked:604", "abandoned", "finished")],
        "thorough": [H("live_edited:4,0", "edited", "went_on"), H("live_edited:3,2", "edited", "went_on"), H("live_edited:602,0", "edited", "went_on"), H("live_locked:805", "abandoned", "finished"), H("live_edited:1801,0", "edited", "went_on"), H("live_locked:1801", "abandoned", "finished")],
    },
    "C30": {
        "quick": [H("stack:5,12", "measured")],
        "thorough": [H("stack:5,40", "measured")],
    },
    "C31": {
        "quick": [H("apart:3,5,25", "apart", "done", "failed"), H("linear:12", "measured")],
        "thorough": [H("apart:4,5,25", "apart", "done", "failed"), H("apart:601,5,25", "apart", "done", "failed"), H("linear:40", "measured")],
    },
    "C32": {
        "quick": [H("reenter_reads:302,0", "edited", "kept", "changed"), H("reenter_reads:1,1", "edited", "kept", "changed"), H("reenter_drops:602,1", "edited", "rejected"), H("reenter_drops:2,2", "edited", "rejected")],
        "thorough": [H("reenter_reads:802,0", "edited", "kept", "changed"), H("reenter_reads:3,0", "edited", "kept", "changed"), H("reenter_reads:2,2", "edited", "kept", "changed"), H("reenter_drops:1202,1", "edited", "rejected"), H("reenter_drops:3,3", "edited", "rejected")],
    },
}

# What the parameters of each harness bound.
BOUNDS = {
    "create": "every ordered tree of at most {0} nodes",
    "create_api": "every ordered tree of at most {0} nodes, every entry point",
    "interrupt": "every ordered tree of at most {0} nodes",
    "replace": "every ordered tree of at most {0} nodes",
    "detach": "every ordered tree of at most {0} nodes",
    "move_same": "every ordered tree of at most {0} nodes, every pair of nodes and place",
    "move_other": "every pair of ordered trees of at most {0} and {1} nodes",
    "rejected": "every pair of ordered trees of at most {0} and {1} nodes (0: one tree), every edit to refuse",
    "clone_sub": "every ordered tree of at most {0} nodes",
    "clone_ins_same": "every ordered tree of at most {0} nodes, every source, destination and place",
    "clone_ins_other": "every pair of ordered trees of at most {0} and {1} nodes",
    "clone_borrowed": "every pair of ordered trees of at most {0} and {1} nodes, every set of borrowed nodes",
    "history": "every ordered tree of at most {0} nodes, every sequence of {1} edits",
    "views": "every ordered tree of at most {0} nodes",
    "membership": "every pair of ordered trees of at most {0} and {1} nodes (0: one tree), every sequence of {2} edits, every set of kept handles",
    "lifetime": "every pair of ordered trees of at most {0} and {1} nodes, one edit, every set of kept handles",
    "weak": "every pair of ordered trees of at most {0} and {1} nodes, one edit, every set of kept handles",
    "reentrant": "every pair of ordered trees of at most {0} and {1} nodes (0: one tree), one edit, every spying destructor",
    "exclusion": "every ordered tree of at most {0} nodes, every sequence of {1} lock operations",
    "follow": "every pair of ordered trees of at most {0} and {1} nodes, every set of nodes that carry grants, one edit",
    "foreign": "every pair of ordered trees of at most {0} nodes, every lock object and node",
    "depth_first": "every ordered tree of at most {0} nodes, every start",
    "axes": "every ordered tree of at most {0} nodes, every node and axis",
    "stable_siblings": "every ordered tree of at most {0} nodes, every interleaving of both ends",
    "stable_dft": "every ordered tree of at most {0} nodes, every range of events, every interleaving of both ends",
    "shallow": "every ordered tree of at most {0} nodes, every 64-bit limit, every interleaving of both ends",
    "breadth_first": "every ordered tree of at most {0} nodes, every 64-bit start depth",
    "to_events": "every ordered tree of at most {0} nodes, every set of borrowed nodes",
    "roundtrip": "every ordered tree of at most {0} nodes",
    "from_dft": "every ordered tree of at most {0} nodes",
    "builder": "every starting tree of at most {0} nodes (0: empty), every sequence of {1} builder calls, every 64-bit level",
    "builder_edited": "every starting tree of at most {0} nodes, every sequence of {1} builder calls with at most {2} edits in between, every 64-bit level",
    "reenter_reads": "every pair of ordered trees of at most {0} and {1} nodes (0: one tree), every copy, comparison and printer, every call of the user's code that makes one edit",
    "reenter_drops": "every pair of ordered trees of at most {0} and {1} nodes (0: one tree), every edit or release that lets nodes die, every destructor that makes one edit",
    "batch": "every sequence of at most {0} events at once, every 64-bit count",
    "equality": "every pair of ordered trees of at most {0} and {1} nodes (0: two subtrees of one tree), all data",
    "equality_mixed": "every pair of ordered trees of at most {0} and {1} nodes, data of two types, every set of borrowed nodes",
    "borrows": "every ordered tree of at most {0} nodes, every pair of borrows through every kind of handle",
    "edit_while_borrowed": "every pair of ordered trees of at most {0} and {1} nodes, every set of borrows, one edit",
    "close_current": "every ordered tree of at most {0} nodes, every pattern of stepping and closing",
    "event_steps": "every ordered tree of at most {0} nodes, every event",
    "pretty_print": "every ordered tree of at most {0} nodes, every set of borrowed nodes",
    "debug_print": "every ordered tree of at most {0} nodes, every printable object",
    "fault_clones": "every pair of ordered trees of at most {0} and {1} nodes (0: one tree), every way to clone, every call of Clone that panics",
    "fault_drops": "every pair of ordered trees of at most {0} and {1} nodes (0: one tree), one edit or none, every order of release, every call of Drop that panics",
    "fault_reads": "every ordered tree of at most {0} nodes, every comparison and printer, every call of the user's code that panics",
    "fault_sources": "every ordered tree of at most {0} nodes, every sequence of at most {1} events before the panic",
    "live_edited": "every pair of ordered trees of at most {0} and {1} nodes (0: one tree), every plain traverser stepped up to 2 times, one edit",
    "live_locked": "every ordered tree of at most {0} nodes, every stable traverser, every number of steps from either end",
    "apart": "17 operations on every ordered tree of at most {0} nodes, with {1} and with {2} more nodes (replay: {2}*50) below every node or elsewhere",
    "linear": "64 operations on chains, stars and combs of {0}, 2*{0} and 3*{0} nodes (replay: 20 times that)",
    "stack": "79 operations on chains, stars and combs of {0} and of {1} nodes (replay: {1}00)",
    "many_locks": "{0} - 1, {0} and {0} + 1 grants, prohibitions or handles that carry one, in every order of release",
    "many_follow": "a node with {0} - 1, {0} and {0} + 1 grants that moves",
    "many_handles": "{0} - 1, {0} and {0} + 1 handles of a node",
    "many_children": "a node with {0} - 1, {0} and {0} + 1 children, what C{1} says of it",
    "many_edits": "a chain, a star or a comb of {0} - 1, {0} and {0} + 1 nodes, what C{1} says of it",
    "many_items": "the traversals of a chain, a star or a comb of {0} - 1, {0} and {0} + 1 nodes, what C{1} says of it",
    "many_levels": "a chain of {0} - 1, {0} and {0} + 1 levels, what C{1} says of it",
    "macros": "the 28 invocations of each macro in hx/src/macros.rs, all data",
}


def bound(h):
    name = h["harness"][3:]
    size = lambda p: p if len(p) < 3 or name.startswith("many_") else "%d (or one of 8 shapes of %d)" % (int(p) % 100, int(p) // 100)
    return BOUNDS[name].format(*map(size, h["params"].split(",")))
