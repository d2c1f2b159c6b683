M = "cinereus/src/matching.rs"
C = "cinereus/src/chawathe.rs"
T = "cinereus/src/tree.rs"
L = "cinereus/src/lib.rs"
D = "hotmeal/src/diff.rs"
O = "hotmeal/src/dom.rs"
S = "hotmeal-server/src/lib.rs"
W = "hotmeal-wasm/src/lib.rs"
WB = "Seeded search over histories, schedules and faults. hotmeal, hotmeal-server, hotmeal-wasm and cinereus run their real source; HTML tokenisation, DOM, RPC framing, sockets, timers and the embedding server are simulated stand-ins."
TESTED = "The stable tests run three tiny hand-written trees through the matcher (plus two on tree basics) and never execute a script; "

PROPS = [
 dict(id="C01", title="Replaying the edit script turns the old document into exactly the new one",
  statement="For any two documents with roots of the same kind, executing the computed edit script operation by operation turns the first into exactly the second: same nodes, nesting, order, kinds, texts and attributes (opaque content is replaced as a whole by the caller). It holds for chains and jumps between revisions, for any valid correspondence the caller supplies itself, and for every subscriber that receives the operations over a network that loses, repeats, delays and cuts, while publisher and subscriber crash and resume in the middle of a script. Once faults stop, every subscriber has the last published revision after a bounded number of exchanges.",
  quantifier=dict(over=["inputs", "histories", "schedules", "fault_sequences", "crash_points"], text="every history of document revisions (edits, rewrites, reverts, republications), every matching configuration, every set of subscribers, and every schedule of deliveries, losses, duplications, partitions, crashes and restarts"),
  why_tests_cant=TESTED + "none executes an edit script at all, so a script that does not converge passes them; convergence quantifies over all pairs of documents and all interrupted executions.",
  anchors=dict(files=[C, M, L], mechanism=[dict(name="edit script phases: update, insert, move, delete", where=C + ": generate_edit_script"), dict(name="correspondence the script is derived from", where=M + ": compute_matching")], state=[dict(name="edit script", meaning="the ordered operations a subscriber executes")], observe_at=["public diff entry points", "subscriber document after each operation and after the script"]),
  technique="deterministic simulation of a publish/subscribe session with network faults, crashes and journal loss; convergence and bounded liveness checked in every run",
  level_note="Seeded search over document histories, schedules and faults; the code under test runs unmodified, the network, disk, clock and documents are simulated."),
 dict(id="C02", title="The correspondence between two documents is one-to-one and well-typed",
  statement="The correspondence pairs each node of the old document with at most one node of the new one and the other way round, only nodes of those two documents and only nodes of the same kind; roots of the same kind are always paired, with each other. Looking a pair up from either side, and listing all pairs, gives the same answer. Below the root, two ordinary (non-opaque) nodes with differing content are paired only if their attributes are at least as similar as the configured threshold.",
  quantifier=dict(over=["inputs", "histories", "configurations"], text="every pair of documents reached in any editing history, every similarity threshold and minimum height, every arena layout and tree view"),
  why_tests_cant=TESTED + "they check that particular nodes of three small trees are (un)matched; an ambiguous or ill-typed pair elsewhere goes unseen.",
  anchors=dict(files=[M], mechanism=[dict(name="top-down phase", where=M + ": top_down_phase, match_subtrees"), dict(name="bottom-up phase", where=M + ": bottom_up_phase"), dict(name="pair store", where=M + ": Matching")], observe_at=["the correspondence returned with the script"]),
  technique="deterministic simulation of editing/publishing histories; the correspondence of every computation is checked as an invariant",
  level_note="Seeded search over editing histories, configurations and memory layouts; every correspondence computed in a run is checked completely."),
 dict(id="C03", title="Nothing changed means nothing to do",
  statement="Between two equal documents the edit script is empty and every node corresponds to its counterpart (nodes inside opaque content excepted). This holds whether the two are the same object, rebuilt separately, edited away and back, republished, or asked for again by a subscriber that already converged.",
  quantifier=dict(over=["inputs", "histories", "configurations", "schedules"], text="every document reached in any history, with any repetition of equal content, any memory layout, and every schedule of repeated requests"),
  why_tests_cant=TESTED + "one test compares one pair of equal two-level trees.",
  anchors=dict(files=[M, C], mechanism=[dict(name="identical subtrees", where=M + ": match_subtrees"), dict(name="change detection for text, attributes and position", where=C + ": generate_edit_script")], observe_at=["public diff entry points"]),
  technique="deterministic simulation of publishing histories with republication, reverts and repeated requests; quiescence checked in every run",
  level_note="Seeded search; equal documents arise from republication, reverts, edits that cancel out, and converged subscribers asking again."),
 dict(id="C04", title="Scripts contain no superfluous work, and local edits give local scripts",
  statement="No operation of a script is superfluous: no node gets the text or attributes it already has, is moved to where it already is, or is changed twice the same way; nothing that corresponds is deleted or inserted. When all content of a document is distinct, changing k texts, the attribute values of k nodes, or appending k nodes at the end of an element costs exactly k operations of that sort and nothing else, at any distance in revisions for texts and attributes. With the default configuration removing the last child of an element costs exactly one deletion per removed node; with minimum height 0, swapping two neighbours costs at most two moves.",
  quantifier=dict(over=["inputs", "histories"], text="every document and every history of such edits, whichever revisions a subscriber happens to skip because of faults"),
  why_tests_cant=TESTED + "no stable test looks at the size of a script.",
  anchors=dict(files=[C, M], mechanism=[dict(name="no-op suppression", where=C + ": generate_edit_script"), dict(name="position and hash preference among children of matched parents", where=M + ": bottom_up_phase")], observe_at=["operations in the script, by sort"]),
  technique="deterministic simulation of editing histories (revisions skipped under faults); script size checked against the author's actual edits",
  level_note="Seeded search. The exact counts are claimed only for documents without repeated content, as the statement says; the no-superfluous-operation part is checked on arbitrary documents."),
 dict(id="C05", title="The script depends on the two documents only",
  statement="The correspondence and the edit script between two documents, including the order of operations, are a function of the two documents and the configuration alone. Memory layout, recycled storage, hash seeds of the process, earlier computations, restarts, the thread it runs on, other threads computing at the same time, and which equivalent view of the tree the caller hands in make no difference, so a restarted publisher can resume a half-sent script.",
  quantifier=dict(over=["schedules", "histories", "configurations", "crash_points"], text="every pair of documents, every storage layout and process environment, every crash of the publisher between two computations of one script, every interleaving of computations"),
  why_tests_cant=TESTED + "every test computes each result once, in one layout, in one process.",
  anchors=dict(files=[M, C, T], mechanism=[dict(name="iteration orders and tie-breaking", where=M + ": bottom_up_phase, top_down_phase"), dict(name="order of emission", where=C + ": generate_edit_script"), dict(name="traversals", where=T + ": DiffTree")], observe_at=["script and correspondence recomputed in another environment"]),
  technique="deterministic simulation: every script is recomputed after crashes, in other layouts, processes and threads, with seeded hash keys, and compared",
  level_note="Seeded search; hash keys of std containers come from the seed through an interposed getrandom, thread switches from a seeded scheduler."),
 dict(id="C06", title="Opaque content is atomic and survives edits around it",
  statement="No operation of a script names a node strictly inside an opaque node of its document or places anything there. In a document whose content is all distinct, and with minimum height 0, a change strictly inside opaque nodes gives an empty script, and changing k texts outside of them costs exactly k text operations and touches no opaque node.",
  quantifier=dict(over=["inputs", "histories"], text="every document with opaque nodes anywhere (nested, adjacent, appearing and disappearing), every history of edits inside and outside of them"),
  why_tests_cant="Three stable tests check that the children of one opaque node in one small tree stay unmatched; none produces a script from an opaque document.",
  anchors=dict(files=[M, C, T], mechanism=[dict(name="opaque pairs", where=M + ": top_down_phase, match_subtrees"), dict(name="interior exclusion", where=M + ": bottom_up_phase; " + C + ": generate_edit_script")], observe_at=["operations in the script"]),
  technique="deterministic simulation of editing histories over documents with opaque nodes; interior references and bystander changes checked in every run",
  level_note="Seeded search over histories with opaque nodes appearing, vanishing, nesting and changing inside."),
 dict(id="C07", title="Every operation can be executed when its turn comes, from any prefix",
  statement="Executing a script in order, each operation can be carried out at its turn: the node it names is in the document and not deleted, the parent it inserts or moves under exists already, nothing is inserted twice, nothing is moved under itself, under one of its own descendants or under a text, and a node is deleted only when it has no children left. A subscriber that stopped after any prefix, lost the unsaved end of it, and receives the rest from a publisher that recomputed the script can therefore always carry on.",
  quantifier=dict(over=["inputs", "histories", "crash_points", "fault_sequences"], text="every pair of documents, every supplied correspondence, every position of a script at which publisher or subscriber crashes, loses its tail and resumes"),
  why_tests_cant=TESTED + "no test executes operations, so their order is not constrained by any test.",
  anchors=dict(files=[C], mechanism=[dict(name="parents before children", where=C + ": generate_edit_script, insert phase"), dict(name="moves before deletes, children before parents", where=C + ": generate_edit_script, move and delete phases")], observe_at=["each operation as a subscriber executes it"]),
  technique="deterministic simulation: a subscriber executes operations one at a time under crashes between operations, journal loss and recomputed remainders",
  level_note="Seeded search over crash points and histories; each operation's preconditions are checked at its turn by a strict executor."),
 dict(id="C08", title="Computations are isolated from each other and leave their inputs alone",
  statement="Computations that share trees, run interleaved on several threads, call back into another computation, or are abandoned half-way because the caller's tree fails inside a callback do not influence any other computation, concurrent or later: each gives the result it gives alone. Input trees are never modified.",
  quantifier=dict(over=["schedules", "fault_sequences"], text="every interleaving at callback granularity of up to four threads, every callback at which a caller gives up or re-enters"),
  why_tests_cant="The tests are single-threaded, never abort a computation and never re-enter one.",
  anchors=dict(files=[M, C, T], mechanism=[dict(name="per-computation caches", where=M + ": LazyDescendantMap"), dict(name="thread-local counters", where=T + ": POSITION_CALLS, SIBLINGS_SCANNED")], observe_at=["results of concurrent, re-entrant and repeated computations", "input trees before and after"]),
  technique="deterministic simulation of caller threads: a seeded scheduler switches, aborts and re-enters at the code's callbacks into the caller's tree",
  level_note="Seeded search over interleavings at callback granularity (one thread runs at a time); results are compared with the same computations run alone."),
 dict(id="C09", title="A computation always ends, within work proportional to the two document sizes",
  statement="Computing a correspondence and a script ends without failing for every pair of documents, including wide, highly repetitive and very deep ones (nested thousands of levels, on an ordinary thread stack). The number of times it reads the caller's trees stays below a small constant times the product of the two node counts plus their sum.",
  quantifier=dict(over=["inputs", "histories", "configurations"], text="every pair of documents in every history (checked up to several hundred nodes, and chains of up to 20000 levels), every configuration"),
  why_tests_cant=TESTED + "on trees of three to six nodes exponential or endless behaviour does not show.",
  anchors=dict(files=[M, C, T], mechanism=[dict(name="candidate queue", where=M + ": top_down_phase"), dict(name="candidate scan and caching of descendants", where=M + ": bottom_up_phase, LazyDescendantMap")], observe_at=["callbacks into the caller's trees"]),
  technique="deterministic simulation with a step budget: every callback is a counted step, progress must complete within the bound",
  level_note="Seeded search with a step budget about three times the largest count observed, plus a wall-clock watchdog for loops without callbacks."),
 dict(id="C10", title="Every open page ends up showing the latest rendered revision",
  statement="A page that has dealt with the patches the server computed between two revisions shows exactly the later one: elements with their namespaces, attributes, texts and comments, and the attributes of the body (the inside of opaque elements belongs to the application). Once edits and faults stop, every open page has, within 30 seconds, exactly one live subscription and shows the latest revision of its route, body and head. This holds for pages of several routes in several tabs, mounted on the body or on an element, while messages are delayed, connections are cut, the server crashes and restarts with empty caches, becomes unreachable, and users reload. The loader script the server injects is the first thing in the head and changes nothing else about the page. Client and server never panic.",
  quantifier=dict(over=["inputs", "histories", "schedules", "fault_sequences", "crash_points"], text="every history of page revisions and every schedule of deliveries, cuts, outages, crashes and reloads"),
  why_tests_cant="No stable test runs hotmeal, hotmeal-server or hotmeal-wasm at all; the repository's own tests apply single hand-written patches without a browser, a network or a second revision.",
  anchors=dict(files=[D, O, S, W, M, C], mechanism=[dict(name="from edit script to patches with slots", where=D + ": convert_ops_with_shadow"), dict(name="cache and event choice", where=S + ": LiveReloadServer"), dict(name="loader script", where=S + ": inject_into_head"), dict(name="patch application in the page", where=W + ": apply_patch"), dict(name="client loop", where=W + ": live_reload")], observe_at=["page content after each event and after faults stop", "subscriptions per page"]),
  technique="deterministic simulation of server, network, browsers and author in one process with seeded faults; per-event and end-to-end convergence checked in every run",
  level_note=WB),
 dict(id="C11", title="Browser and native applier agree on every patch list",
  statement="Whatever patch list the server sends for a page, the browser client and the native document (Document::apply_patches) both accept it and end up with the same body: same elements in the same namespaces, attributes, texts and comments, and the same body attributes, event after event on the same long-lived page and document.",
  quantifier=dict(over=["inputs", "histories", "schedules"], text="every sequence of patch lists any page receives in any history"),
  why_tests_cant="No stable test applies a patch; parity of the two implementations is otherwise only looked at by an on-demand fuzz target that needs a real browser.",
  anchors=dict(files=[O, W], mechanism=[dict(name="native applier", where=O + ": apply_patch, insert_at"), dict(name="browser applier", where=W + ": apply_patch, insert, take slots")], observe_at=["page and native document after each event"]),
  technique="deterministic simulation of the live-reload system; each page is shadowed by a native document that receives the same events, compared after each",
  level_note=WB),
 dict(id="C12", title="The live-reload server announces each page change, right and once",
  statement="For any order of calls over any routes: an uncached page gives Reload; a page equal to the cached one gives nothing; changed head injections give HeadChanged and nothing else does; any other visible change of a cached page gives Patches for that route, decodable and not empty, which turn a document of the cached page into one of the new page, both as a tree and when written out as HTML, where doctype, root, head and body are still those of the document. Nothing is sent only if the body is the same. What is cached afterwards is always the last page given, cache_html returns the one before, cached_routes, remove_route and clear tell and do exactly that, and no route influences another. A restart forgets everything and nothing else.",
  quantifier=dict(over=["inputs", "histories", "crash_points"], text="every sequence of pages, head injections, removals, clears and restarts over several routes, with followers that lag behind"),
  why_tests_cant="hotmeal-server's few unit tests are not among the stable ones and make one or two calls each; they check that an event is of the right sort, never that it is right.",
  anchors=dict(files=[S, D, O], mechanism=[dict(name="caches and events", where=S + ": diff_route, diff_route_with_head, cache_html, cache_head_injections"), dict(name="diff and native application", where=D + ": diff_html; " + O + ": apply_patches")], observe_at=["return values of the server", "native documents of followers"]),
  technique="deterministic simulation of a long-lived server with crashes and lagging followers; every return value compared with an executable reference model",
  level_note=WB),
 dict(id="C13", title="Opaque elements survive, and their changes are announced exactly once",
  statement="When a page deals with patches, an opaque element that remains in the document keeps its identity and its inside is not touched, whatever the application has put there. If its content changed in the source, exactly one bubbling hotmeal:opaque-changed event with its key, itself and the new content is dispatched on it, while it is in the page; if not, none is. A new opaque element comes with its full content. No such event is dispatched on anything else.",
  quantifier=dict(over=["inputs", "histories", "schedules"], text="every history of edits in and around opaque elements that come, go, move and change, with applications that render the content, replace it by widgets or ignore it"),
  why_tests_cant="No stable test runs the browser client or looks at opaque elements beyond three matcher tests on a four-node tree.",
  anchors=dict(files=[D, W, M], mechanism=[dict(name="opaque comparison and patches", where=D + ": diff, collect opaque changes"), dict(name="event dispatch", where=W + ": OpaqueChanged"), dict(name="pairing of opaque nodes", where=M + ": match_subtrees, bottom_up_phase")], observe_at=["events dispatched in the page", "identity and content of opaque elements"]),
  technique="deterministic simulation of the live-reload system with applications owning opaque elements; events and element identity checked after every delivery",
  level_note=WB),
 dict(id="C14", title="The client always comes back, at a measured pace",
  statement="A page never holds two connections at a time. After a connection that had been subscribed ends, it tries again after 100 ms; each further failed attempt doubles the pause, up to 5 seconds and never beyond; a session that worked resets it. However long and often the server is down, once it is reachable the page is subscribed again within 30 seconds.",
  quantifier=dict(over=["schedules", "fault_sequences", "crash_points"], text="every sequence of refusals, cuts at any point of handshake and session, crashes and outages of any length"),
  why_tests_cant="The loop exists only in the browser build; no test of the repository runs it.",
  anchors=dict(files=[W], mechanism=[dict(name="reconnect loop", where=W + ": live_reload_loop, live_reload_session")], observe_at=["start and end of every connection attempt in virtual time"]),
  technique="deterministic simulation with a virtual clock; outages, refusals and cuts at seeded points, gaps between attempts measured",
  level_note=WB),
 dict(id="C15", title="An event or page that does not fit does no lasting harm",
  statement="An event that cannot be decoded leaves the page as it is. Patches made for another state, or arriving after something else changed the page, may fail or mislead that one page, but they never make it panic, stop answering events, lose its subscription or reconnect: later events are dealt with, and after the next full reload the page shows the latest revision.",
  quantifier=dict(over=["inputs", "fault_sequences", "schedules"], text="every undecodable blob, every patch list of another revision or route, every outside change of the page, at any moment"),
  why_tests_cant="Needs a running page, a session and a faulty event; no test has any of these.",
  anchors=dict(files=[W], mechanism=[dict(name="error handling of events", where=W + ": on_event, handle_live_reload_event"), dict(name="path lookup", where=W + ": find_node, take slots")], observe_at=["pages after faulty events", "subscriptions and answers"]),
  technique="deterministic simulation injecting undecodable and misdirected events and outside page changes; recovery checked at the end of every run",
  level_note=WB),
 dict(id="C16", title="A native document survives patches that do not fit it",
  statement="Applying any patch list of the server to any document, also one it was not made for, because events were lost, repeated, swapped, misdelivered or shuffled, returns success or an error: it never panics and never runs forever. The document is still one finite tree with a body that can be written out, and the first event that loads a page afresh brings it back in step.",
  quantifier=dict(over=["inputs", "fault_sequences", "histories"], text="every loss, repetition, reordering and misdelivery of events and of patches within them, over every history"),
  why_tests_cant="No stable test applies patches, and none applies patches out of step.",
  anchors=dict(files=[O], mechanism=[dict(name="native applier", where=O + ": apply_patch, navigate_slot_path, insert_at")], observe_at=["result of apply_patches", "structure of the document afterwards"]),
  technique="deterministic simulation of followers of a server whose event stream is lost, repeated, misdelivered and shuffled; structure and recovery checked after every event",
  level_note=WB),
 dict(id="C17", title="Nodes that can be told apart keep their identity across revisions",
  statement="A node of one revision that cannot be mistaken is taken for its counterpart in the next one, instead of being deleted and inserted anew: an unchanged subtree found once in either document below ancestors of the same kinds; a node with exactly one possible counterpart at the same position of a kept parent, or with enough unchanged content, or an unchanged leaf of a kept parent or one whose parent goes; a node at the same place up to the root whose content is nowhere else; the only opaque node of its kind at its depth. Nor does a node go while one that would be its counterpart by place, content or as an equal leaf comes. Two nodes are possible counterparts when they are of one kind and equal or similar by the caller's measure. Whatever a subscriber attached to such a node is still attached to it after it executed the script.",
  quantifier=dict(over=["inputs", "histories", "configurations", "crash_points", "fault_sequences"], text="every pair of successive revisions, every configuration of thresholds and heights, every history of edits, crashes and resumed scripts"),
  why_tests_cant=TESTED + "they do not fix which nodes are matched when content moves or changes, nor follow a node over several revisions.",
  anchors=dict(files=[M, C], mechanism=[dict(name="anchor subtrees", where=M + ": top_down_phase, match_subtrees"), dict(name="containers by shared content and position, leaves", where=M + ": bottom_up_phase, dice_coefficient"), dict(name="moves and updates instead of delete and insert", where=C + ": generate_edit_script")], observe_at=["correspondence", "payload of nodes in a subscriber's document"]),
  technique="deterministic simulation of editing histories with publisher and subscriber crashes; what each script keeps is compared with what an independent rule set says must be kept",
  level_note="Seeded search. The rules state what is owed for nodes that cannot be mistaken; nodes with several candidates are left to the implementation, as long as it does not leave two of them over."),
 dict(id="C18", title="What stays in the page stays the same DOM node",
  statement="When a page deals with patches, a node of the page that cannot be mistaken and that the new revision still has is the same DOM node afterwards, wherever it went: what the user or the application attached to it (focus, selection, scroll position, form input, listeners, playing media) is not lost. This covers unchanged parts of the page, the only possible counterpart at the same position, with the same content, or among leaves, what is still in its place, and opaque elements; and no node goes while an alike one comes in its place; event after event, through connection losses, crashes and restarts of the server.",
  quantifier=dict(over=["inputs", "histories", "schedules", "fault_sequences", "crash_points"], text="every history of page revisions and every schedule of deliveries, cuts, outages, crashes and reloads"),
  why_tests_cant="No stable test applies a patch; the result after replacing everything looks the same as the result after patching, unless identities are followed.",
  anchors=dict(files=[M, C, D, W], mechanism=[dict(name="which nodes are the same", where=M + ": compute_matching"), dict(name="from edit script to patches with slots", where=D + ": convert_ops_with_shadow"), dict(name="moving nodes in the page", where=W + ": apply_patch, insert_at_position")], observe_at=["identity of the page's nodes before and after each event"]),
  technique="deterministic simulation of server, network and browsers with seeded faults; the identity of every node of every page is compared before and after each event with what an independent rule set says must stay",
  level_note=WB),
 dict(id="C19", title="A document can be edited in place, and followed patch by patch",
  statement="Each call of the document's editing interface (create, append, insert before or after, remove, put back, set or remove an attribute, set a text) does exactly what it says to the tree and nothing else, and navigation agrees with the tree, over any history of calls. Between the state a follower has and the document's present state, whatever editing made of it (texts side by side, empty texts, nesting no parser produces, the body gone or new), diff finds patches that turn the one into the other. The patches may be applied all at once or spread over many calls with the slots kept in between, natively or in a page, on the body or an element: after every single patch page and native document are equal, and after the last one both are the document. Followers that lose messages, get them twice or out of order, crash in the middle of a patch list, or whose owner restarts from its saved text all have the last revision soon after the faults stop.",
  quantifier=dict(over=["inputs", "histories", "schedules", "fault_sequences", "crash_points"], text="every history of edits in place and publications, every split of the patch lists into calls, every schedule of deliveries, losses and crashes"),
  why_tests_cant="No stable test calls the editing interface, diffs an edited document, or applies a patch list in pieces; the repository's own tests do so for single hand-written cases.",
  anchors=dict(files=[O, D, W], mechanism=[dict(name="editing interface", where=O + ": create_element .. set_text, parent .. child_count"), dict(name="diff of live documents", where=D + ": diff, DiffableDocument, convert_ops_with_shadow"), dict(name="application in pieces", where=O + ": init_patch_slots, apply_patch_with_slots; " + W + ": apply_patches_with_slots_on, apply_patches_postcard_on, apply_patches_json")], observe_at=["document after each editing call", "native documents and pages after each patch", "followers after faults stop"]),
  technique="deterministic simulation of an owner that edits a long-lived document and streams patches to native and browser followers over a faulty network; a reference model of the tree is checked after each edit, and page and native document after each patch",
  level_note="Seeded search. hotmeal and the appliers of hotmeal-wasm run their real source; owner, followers, network, HTML tokenisation and DOM are simulated."),
 dict(id="C20", title="Parts of a page are kept up to date side by side",
  statement="A page may keep several parts of itself (elements found by a selector, or the body) up to date, each with patches computed in the page from the part's last HTML and the next one (diff_html, diff_html_patches) or sent by a server, taken as JSON, as binary or as values, applied in one call or in several with the part's own slots, interleaved in any order with what goes on in other parts and tabs. A list that is through leaves its part showing exactly the new HTML as a browser parses it there, and its calls say how many patches they dealt with. Whether lists fit, are stale, repeated, cut short, abandoned halfway or undecodable, nothing outside the part changes, not even the identity of a node; a list that cannot be decoded or has no mount point in the page is an error and changes nothing at all. A part that is written afresh is in step again, so every part shows its last revision soon after faults stop. What the page reports as its body's HTML is what it holds, and the native fragment parser reads it as a browser does. The HTML of a part has no html, head or body tags of its own.",
  quantifier=dict(over=["inputs", "histories", "schedules", "fault_sequences", "crash_points"], text="every set of parts, every history of their revisions, every interleaving of the calls for them, every schedule of losses, repetitions, damage, missing mount points and crashes of tabs"),
  why_tests_cant="No stable test runs the browser half at all; the repository's own browser tests patch one body at a time, once, with fitting patches.",
  anchors=dict(files=[W, D, O], mechanism=[dict(name="patches in the page", where=W + ": diff_html, diff_html_patches"), dict(name="applying on a mount point, in one or several calls", where=W + ": apply_patches_on, apply_patches_postcard_on, apply_patches_json, apply_patches_with_slots_on"), dict(name="reading and writing the body", where=W + ": get_body_inner_html, set_body_inner_html; hotmeal parse_body_fragment")], observe_at=["each part after its lists", "every node outside a part before and after each call", "results of the calls"]),
  technique="deterministic simulation of pages with several independently patched parts over a faulty network; every call's surroundings are compared before and after, every finished part with a browser's parse of its HTML",
  level_note=WB),
]
NOT_APPLICABLE = []
HOOK_COMMITS = ["2f42ba33a6a76de8ac5b576a5556805d55cc4d7b"]
NOTES = "Every check rebuilds from /repo's working tree (cargo, offline) and explores a fixed number of seeded runs; VERIF_SEED chooses the seeds. `bash run.sh replay <file>` replays a reported violation."
