MON = "runtime monitoring: randomised workloads against an executable reference, oracle on every step"
prop("C01", "A rope always behaves as the string it represents",
  "Whatever sequence of edits, slices, concatenations and builder operations produced a rope, every query on it (text, length, lines, offset conversions, character, grapheme and line navigation in both directions, chunk and line iteration, equality) gives the answer a plain string would give. Ropes are values: operating on one never changes another that shares structure with it. The tree stays balanced and no leaf exceeds its size limits.",
  ["inputs", "histories"], "every history of operations on every Unicode text, every cursor position and direction",
  "Unit tests try a handful of short literals; faults depend on how the text falls into leaves and on cursor state after earlier moves.",
  ["rust/rope/src/rope.rs", "rust/rope/src/tree.rs", "rust/rope/src/interval.rs"],
  [("rope metrics and leaves", "rust/rope/src/rope.rs"), ("balanced tree, builder and cursor", "rust/rope/src/tree.rs")],
  technique=MON, note="Random histories over adversarial leaf layouts and Unicode, all queries compared with a string model after each operation.")
prop("C02", "Deltas apply, compose and transform as edits of text",
  "Applying an edit yields exactly the text its copies and insertions describe; factoring an edit into insertions and deletions and synthesising it again gives the same result, and reported inserted and deleted regions are where they happened in the new and old text. Transforming an edit over concurrent insertions makes both orders converge with the documented tie-break. Summaries of an edit (changed interval and new length) are true of it.",
  ["inputs"], "every edit of every text, including adjacent, empty and multi-byte regions",
  "The tests sample about ten fixed edits over one alphabet string.",
  ["rust/rope/src/delta.rs", "rust/rope/src/multiset.rs"],
  [("delta application, factoring and synthesis", "rust/rope/src/delta.rs")],
  technique=MON, note="Random edits, compared with string surgery and with each other's identities.")
prop("C03", "Subset algebra is exact",
  "Sets of deleted and inserted positions with counts behave as the position-by-position arrays they stand for: union, subtraction, complement, transforming through insertions or deletions, mapping coordinates and deleting from text all give the result of the naive array computation.",
  ["inputs"], "every pair of subsets of every length",
  "The tests check a few strings over a 62-character alphabet.",
  ["rust/rope/src/multiset.rs"], [("subset operations", "rust/rope/src/multiset.rs")],
  technique=MON, note="Random subsets with adjacent, empty and multi-count runs against naive arrays.")
prop("C04", "Concurrent edits of one document converge on the intended text",
  "When edits based on older revisions arrive at a document, each is rebased so that every character typed by anyone appears exactly once unless somebody deleted it, in an order consistent with every edit and with the documented priority for insertions at the same place. Every revision's text can be reproduced, and the difference reported since a revision turns that revision's text into the current one.",
  ["histories", "inputs"], "every history of edits against any earlier live revision, any priorities, with undo and garbage collection in between",
  "The tests hold a dozen hand-written histories of two or three edits.",
  ["rust/rope/src/engine.rs"], [("edit rebasing and revision bookkeeping", "rust/rope/src/engine.rs")],
  technique=MON, note="Character-identity reference model beside the engine.")
prop("C05", "Undo is exact and garbage collection is invisible",
  "Undoing any set of edit groups gives the text as if exactly those edits had not been made, and redoing brings it back, in any order. Discarding the history of old groups changes neither the text nor the effect of later undo and redo of the remaining groups.",
  ["histories"], "every interleaving of edits in groups, undo sets and discards",
  "The tests cover single undo/redo pairs and a few garbage collection examples.",
  ["rust/rope/src/engine.rs"], [("undo and garbage collection", "rust/rope/src/engine.rs")],
  technique=MON, note="Character-identity reference model beside the engine.")
prop("C06", "Merging replicas converges",
  "Replicas of a document that each edit independently and merge from one another end up with identical text once all have seen the same edits, whatever the order of merges; every peer's insertions survive exactly once and deletions delete exactly what their author saw.",
  ["histories", "schedules"], "every number of peers, interleaving of edits and merges, including merging the same state twice",
  "The tests use a few fixed scripts of merges.",
  ["rust/rope/src/engine.rs"], [("merge of two engines", "rust/rope/src/engine.rs")],
  technique=MON, note="Random peers, edits and merge schedules; convergence and order checked against character identities.")
prop("C07", "Diffing two texts gives a correct edit between them",
  "For any two texts the computed difference is a valid edit of the first (copies in order, not overlapping, on character boundaries) whose application gives the second exactly, and it can be used as a document edit that can be undone.",
  ["inputs"], "every pair of texts",
  "Three fixed pairs of files are diffed by the tests.",
  ["rust/rope/src/diff.rs", "rust/rope/src/compare.rs"], [("line hash diff", "rust/rope/src/diff.rs")],
  technique=MON, note="Random line-structured document pairs; application and validity of the delta checked.")
prop("C08", "Fast text comparison is exact and memory safe",
  "Comparing texts forwards or backwards finds exactly the first difference, on a character boundary, equal to a byte-by-byte comparison, for any length, alignment and chunking, and whichever vector instructions are used; it never reads outside the compared data.",
  ["inputs"], "every pair of byte strings and ropes, all lengths around vector widths, all alignments",
  "Tests compare a few literals and cannot see reads past the end of a buffer.",
  ["rust/rope/src/compare.rs"], [("vectorised comparison", "rust/rope/src/compare.rs")],
  technique="AddressSanitizer over randomised comparisons of exact-size heap blocks, with a byte-wise oracle",
  note="Nightly AddressSanitizer build of the rope crate and the monitor.")
prop("C09", "Text search finds exactly the matches there are",
  "Searching a text for a literal (case sensitive or not) or a regular expression finds each match in order, at the position a plain scan of the text finds it, whatever the chunking of the text, the starting offset and the number of steps the search is split into.",
  ["inputs"], "every text, pattern, case mode, starting point and step budget",
  "Tests search one short sentence.",
  ["rust/rope/src/find.rs"], [("incremental search", "rust/rope/src/find.rs")],
  technique=MON, note="Naive scan and the regex crate as oracles.")
prop("C10", "Spans and line breaks stay on their text under edits",
  "Spans attached to a text keep covering the same characters through any edit: growing, shrinking and disappearing only as the edit says, never out of range or reordered; merging, slicing and iterating spans agree with a plain list. Soft line break sets answer offset/line queries exactly as a sorted list of offsets.",
  ["inputs", "histories"], "every sequence of edits, merges and slices",
  "A few fixed examples.",
  ["rust/rope/src/spans.rs", "rust/rope/src/breaks.rs"], [("spans", "rust/rope/src/spans.rs"), ("breaks", "rust/rope/src/breaks.rs")],
  technique=MON, note="List-based reference models.")
prop("C11", "Line breaking follows Unicode, however the text is chunked",
  "Break opportunities are exactly those the Unicode line breaking algorithm gives for the text: the same whether it is scanned whole or chunk by chunk, ordered, on character boundaries and ending at the end, with mandatory breaks exactly after line terminators. Character classes (line break class, emoji, modifiers, selectors, flags) are right for every code point.",
  ["inputs"], "every text and every way of cutting it into chunks; every code point",
  "The tests run the Unicode sample file on whole strings, so neither long contexts (several spaces, joiners) nor chunk boundaries are reached.",
  ["rust/unicode/src/lib.rs", "rust/unicode/src/tables.rs"], [("line break state machine", "rust/unicode/src/lib.rs")],
  technique=MON, note="Independent rule-by-rule implementation of UAX 14 as oracle; all class triples.")
prop("C12", "RPC messages are handled once and in order; each request gets its own answer",
  "Over one connection, incoming requests and notifications are handled one at a time in the order received; each request gets exactly one response carrying its id and the handler's result or error (a malformed or unknown request gets an error, not silence). Requests sent to the peer complete exactly once with the answer that carries their id, even when answers come late, out of order, doubled or malformed; messages written are always whole lines and notifications of one thread keep their order.",
  ["schedules", "inputs", "histories"], "every interleaving of the reader, the main loop, and other threads sending; every order of answers",
  "The tests send a few lines one after the other with a single thread.",
  ["rust/rpc/src/lib.rs", "rust/rpc/src/parse.rs", "rust/rpc/src/error.rs"], [("main loop, reader thread, pending requests", "rust/rpc/src/lib.rs"), ("message classification", "rust/rpc/src/parse.rs")],
  technique="runtime monitoring: offline checker over the event log of both ends of randomised RPC sessions with injected delays",
  note="Exactly-once, ordering and matching checked over the log of each session.")
prop("C13", "A hostile or vanished peer never hangs or crashes the message loop",
  "Whatever bytes arrive, the loop handles the valid messages before the first fatal one, ignores stray or malformed responses, and ends with the error that describes what happened; end of input ends it cleanly. When the peer goes away, input or output fails, or a handler panics, every outstanding request and every request made afterwards completes with an error, including blocking ones and ones made by callbacks; nothing deadlocks.",
  ["inputs", "faults", "schedules"], "every malformed input, and a disconnection, I/O error or panic at any moment",
  "The tests cover one malformed message and an orderly end of input.",
  ["rust/rpc/src/lib.rs", "rust/rpc/src/parse.rs"], [("disconnection and error paths", "rust/rpc/src/lib.rs")],
  technique="runtime monitoring: fault injection (malformed input, I/O errors, panics, disconnects) with a classification of the input as oracle and a watchdog on every wait",
  note="Every wait bounded by a watchdog; outcome compared with an independent reading of the input.")
prop("C14", "Scheduled work runs exactly once, in order and not early",
  "Every idle task and timer that is scheduled, from any thread and at any time, runs exactly once; idle tasks in the order scheduled and only when no message waits; timers never before their time, the earliest due first.",
  ["schedules", "histories"], "every interleaving of scheduling, messages and expiry",
  "The tests schedule three timers once.",
  ["rust/rpc/src/lib.rs"], [("idle queue and timers", "rust/rpc/src/lib.rs")],
  technique="runtime monitoring: offline checker over the event log of randomised schedules", note="Log of schedule and run events with time stamps.")
prop("C15", "Concurrent messaging and tracing are free of data races",
  "Reading, handling, sending, scheduling and tracing from several threads at once never races on memory: no execution contains unsynchronised conflicting accesses, and the guarantees of the message loop also hold under the altered timing of an instrumented build.",
  ["schedules"], "every interleaving of reader, main and worker threads",
  "The tests have no race detector and mostly one thread.",
  ["rust/rpc/src/lib.rs", "rust/trace/src/lib.rs"], [("shared state of the loop", "rust/rpc/src/lib.rs"), ("global trace", "rust/trace/src/lib.rs")],
  technique="ThreadSanitizer (instrumented standard library) over randomised RPC sessions and concurrent tracing", note="Nightly ThreadSanitizer build with -Zbuild-std.")
prop("C16", "Tracing keeps exactly the newest samples and its dumps read back",
  "While tracing is on every sample is recorded exactly once, in order per thread, block begins before their ends; at most the configured number is kept and it is the newest; turning it off discards everything. Dumps and saved files contain the samples of the trace they were made from and read back as the same samples, and malformed samples from elsewhere are rejected without failing.",
  ["histories", "schedules", "inputs"], "every history of recording, limits and toggling, from any number of threads",
  "The tests use one thread and fixed sequences.",
  ["rust/trace/src/lib.rs", "rust/trace/src/fixed_lifo_deque.rs", "rust/trace/src/chrome_trace_dump.rs"], [("trace store", "rust/trace/src/lib.rs"), ("bounded buffer", "rust/trace/src/fixed_lifo_deque.rs")],
  technique=MON, note="Exact model for one thread; per-thread order and conservation for several.")
CORE = "xi-core-lib driven through its messages by an in-memory frontend (hook cfg xi_mon); "
prop("C17", "The view a frontend builds from updates is the document",
  "A frontend that only applies the incremental updates it is sent always holds, in every line it has, exactly the text, line number, cursors and selection highlighting of the document; every line in its window is present or supplied when asked for; the selection is within the text, on character boundaries, ordered and without overlap, each region with exactly one cursor. This holds after every sequence of commands, however they are batched with idle work and scrolling, and no command sequence crashes the core or leaves it busy for ever.",
  ["histories", "inputs"], "every sequence of edit commands, gestures, searches, undo, scrolling and line requests on every text",
  "The tests send single commands and look at a few fields of one update; faults are in what is not resent after particular sequences.",
  ["rust/core-lib/src/view.rs", "rust/core-lib/src/line_cache_shadow.rs", "rust/core-lib/src/event_context.rs", "rust/core-lib/src/client.rs"],
  [("incremental rendering", "rust/core-lib/src/view.rs"), ("shadow of the frontend's lines", "rust/core-lib/src/line_cache_shadow.rs"), ("command dispatch and rendering", "rust/core-lib/src/event_context.rs")],
  technique="runtime monitoring: a reference frontend applies the recorded update stream and is compared with the document after each command", note=CORE + "random command sequences; mirror compared with the buffer contents.")
prop("C18", "Every edit command changes the text as it says, at every cursor",
  "Inserting, deleting in each direction and unit, newlines, tabs and indentation, transposing, case changes, duplicating lines, changing numbers, surrounding, kill and yank, cut, copy and paste (line by line when the counts match) change exactly the text they should at every cursor at once, whatever the selection and configuration, and leave each cursor where it belongs.",
  ["inputs", "histories"], "every text, every multi-cursor selection, every command and configuration",
  "The tests check a dozen commands on one line with one cursor.",
  ["rust/core-lib/src/edit_ops.rs", "rust/core-lib/src/editor.rs", "rust/core-lib/src/backspace.rs", "rust/core-lib/src/word_boundaries.rs", "rust/core-lib/src/selection.rs"],
  [("edit operations", "rust/core-lib/src/edit_ops.rs"), ("commit of edits", "rust/core-lib/src/editor.rs"), ("backspace", "rust/core-lib/src/backspace.rs")],
  technique="runtime monitoring: lockstep with an independent model of the editor (string and regions)", note=CORE + "text, selection and cursors compared after each command.")
prop("C19", "Every movement and selection command puts the cursors where it says",
  "Movement by character, word, line, paragraph, page and document, with or without extending the selection, mouse gestures in each granularity with several cursors and drags, adding cursors above and below, splitting and collapsing selections go exactly where they should for every text, keep the sticky column, merge regions that touch, and never change the text.",
  ["inputs", "histories"], "every text, selection and sequence of movements",
  "The tests move one cursor in two or three short texts.",
  ["rust/core-lib/src/movement.rs", "rust/core-lib/src/selection.rs", "rust/core-lib/src/view.rs", "rust/core-lib/src/word_boundaries.rs", "rust/core-lib/src/line_offset.rs"],
  [("movement", "rust/core-lib/src/movement.rs"), ("selection algebra", "rust/core-lib/src/selection.rs"), ("gestures", "rust/core-lib/src/view.rs")],
  technique="runtime monitoring: lockstep with an independent model of the editor (string and regions)", note=CORE + "selection and cursors compared after each command.")
prop("C20", "Undo and redo walk the editing history exactly; recordings replay it",
  "Undo goes back exactly one step of editing - a run of typing or of deleting, or one other command - to the very text before it, redo returns exactly, each at most to the end of the history and for at least nineteen steps; a new edit after undo starts a new branch. Playing a recording does what its commands would do one by one, wherever and however often it is played, and one undo takes a whole play back; what was undone while recording is not played, what was redone is. (Inserts in a row count as one command where they are recorded.)",
  ["histories"], "every sequence of edits, movements, undos, redos and recordings",
  "Tests undo a few fixed edits; grouping and what a new edit discards depend on the commands around it.",
  ["rust/core-lib/src/editor.rs", "rust/core-lib/src/recorder.rs", "rust/core-lib/src/event_context.rs"],
  [("undo groups", "rust/core-lib/src/editor.rs"), ("recorder", "rust/core-lib/src/recorder.rs"), ("playing of recordings", "rust/core-lib/src/event_context.rs")],
  technique="runtime monitoring: history of texts kept beside the core, checked at every undo, redo and replay", note=CORE + "the monitor knows every text the document had and where steps end.")
prop("C21", "Search results are the matches; find and replace walk and change them",
  "After every search, edit or scroll the results, their number, their lines and highlights are exactly the matches in the current text - literal or regular expression, case, whole words, several queries, small or larger than one search batch. find_next and find_previous step through them one by one, wrapping only when asked; find_all selects them all; replace_next and replace_all replace results and nothing else.",
  ["inputs", "histories"], "every text, query, and sequence of edits, searches and replacements",
  "Tests search three fixed sentences; results go stale only after particular edits near them.",
  ["rust/core-lib/src/find.rs", "rust/core-lib/src/view.rs", "rust/rope/src/find.rs", "rust/core-lib/src/selection.rs"],
  [("search state", "rust/core-lib/src/find.rs"), ("incremental search, stepping, replacing", "rust/core-lib/src/view.rs"), ("text search", "rust/rope/src/find.rs")],
  technique="runtime monitoring: reported results compared with an independent search of the document after each command", note=CORE + "a naive scan and the regex crate on whole lines as oracles.")
prop("C22", "Buffers are independent of each other",
  "However views are opened, edited, closed and interleaved with idle work, a command to one buffer never changes, updates or closes another; identifiers are unique; a closed view answers and says nothing any more.",
  ["histories"], "every interleaving of commands to several views",
  "The tests open one view at a time.",
  ["rust/core-lib/src/tabs.rs", "rust/core-lib/src/event_context.rs"],
  [("views and buffers", "rust/core-lib/src/tabs.rs")],
  technique="runtime monitoring: every buffer's text and update stream is watched while another is edited", note=CORE + "two to five buffers.")
prop("C23", "No message from a frontend crashes or wedges the core",
  "Whatever a frontend sends - malformed, out of range, for views closed or never opened, in any state of any view, with odd configuration, failed saves or failing width measurements - the core answers or ignores it, keeps every buffer's invariants, and goes on serving the views there are.",
  ["inputs", "histories", "faults"], "every sequence of messages, well formed or not, in every state",
  "The tests send valid messages in the expected order.",
  ["rust/core-lib/src/tabs.rs", "rust/core-lib/src/rpc.rs", "rust/core-lib/src/event_context.rs", "rust/core-lib/src/view.rs", "rust/core-lib/src/linewrap.rs"],
  [("request and notification handling", "rust/core-lib/src/tabs.rs"), ("parameters of commands", "rust/core-lib/src/rpc.rs"), ("width measurement", "rust/core-lib/src/client.rs")],
  technique="runtime monitoring: hostile message streams with fault injection; panics, answers and the mirrored view watched", note=CORE + "after the storm each surviving view must still edit and mirror correctly.")
prop("C24", "Settings take effect exactly where they apply and survive bad input",
  "The settings of a buffer are at all times the defaults overridden in turn by the user's general settings, the language's defaults, the user's settings for the language, and the buffer's own; removing a setting uncovers the one below; a change takes effect in the buffers it concerns and no others; invalid settings are refused with a message and change nothing. The frontend, applying the changes it is told, always knows the settings and the language in use.",
  ["histories", "inputs"], "every sequence of setting changes, language changes and saves, over several buffers",
  "The tests merge two tables; nothing looks at what reaches buffers and the frontend, or in what order.",
  ["rust/core-lib/src/config.rs", "rust/core-lib/src/tabs.rs", "rust/core-lib/src/syntax.rs"],
  [("layers of settings", "rust/core-lib/src/config.rs"), ("propagation to views", "rust/core-lib/src/tabs.rs")],
  technique="runtime monitoring: lockstep with an independent model of the setting layers", note=CORE + "get_config, accumulated config_changed and the effect of newline and tab compared after each command.")
prop("C25", "Saving writes exactly the document, and changes made outside are never lost",
  "A saved file holds exactly the text of its buffer, with the byte order mark and permissions it had; a reader of the file sees the old text or the new one and never a part; a failed save changes neither the file nor the buffer and is reported. Opening a file shows exactly what it holds. A file changed by someone else is reloaded if its buffer is unchanged; if not, the buffer's text stays and saving is refused rather than overwrite the change. This holds for each of the buffers a file is open in, by whatever path and links they reach it (which remain links), and for a file which is removed and comes back. A buffer is shown as unchanged exactly when it equals the file.",
  ["histories", "faults", "schedules"], "every sequence of edits, saves, failing saves, undo and changes by other programs (overwriting, replacing, removing), at any moment",
  "No test saves a file; whether an outside change is seen depends on how and when it was made.",
  ["rust/core-lib/src/file.rs", "rust/core-lib/src/watcher.rs", "rust/core-lib/src/tabs.rs", "rust/core-lib/src/event_context.rs", "rust/core-lib/src/editor.rs"],
  [("loading and saving", "rust/core-lib/src/file.rs"), ("watching for changes", "rust/core-lib/src/watcher.rs"), ("reloading", "rust/core-lib/src/tabs.rs"), ("pristine state", "rust/core-lib/src/editor.rs")],
  technique="runtime monitoring: model of the disk and of each buffer beside the core, with injected failures and concurrent changes of files", note=CORE + "real files in a scratch directory; a second thread reads during saves.")
prop("C26", "Soft wrapping breaks every line where it should, at any time",
  "With word wrap on, each visual line ends at the last break opportunity that fits the width (or at the first if none fits), lines are numbered where a logical line begins, and the visual lines put together are the text. This is the case after any sequence of edits, resizes and changes of the wrap settings, whether the wrapping is done at once or in steps between which more edits and resizes come; and the frontend has been told of every line that changed.",
  ["histories", "inputs", "schedules"], "every text, width and interleaving of edits, resizes and steps of incremental wrapping",
  "The tests wrap one or two short texts; most faults need an edit while wrapping is under way.",
  ["rust/core-lib/src/linewrap.rs", "rust/core-lib/src/width_cache.rs", "rust/core-lib/src/view.rs", "rust/core-lib/src/event_context.rs"],
  [("incremental wrapping", "rust/core-lib/src/linewrap.rs"), ("cache of widths", "rust/core-lib/src/width_cache.rs"), ("visual lines", "rust/core-lib/src/view.rs")],
  technique="runtime monitoring: the lines a reference frontend holds compared with an independent full wrapping (UAX 14, greedy) of the document", note=CORE + "several measures of width, in virtual time.")
prop("C27", "Every plugin always holds the text of each of its buffers",
  "A plugin that takes in what it is sent - when it is connected, and then one update per change, in order - holds at each revision exactly the text the buffer had at it, its size and number of lines, its language, configuration and file. Text it asks for, by byte or line, at the newest revision or an older one still in flight, is that revision's text. This holds for any number of plugins and buffers, however slowly each answers and whenever it comes or goes, and waiting for a plugin's answer never holds up the core or loses commands.",
  ["histories", "schedules", "faults"], "every interleaving of edits, undos and closing of buffers with plugins connecting, asking, answering late, and dying",
  "The tests start no plugin at all; what a plugin sees depends on updates in flight.",
  ["rust/core-lib/src/plugins/mod.rs", "rust/core-lib/src/event_context.rs", "rust/core-lib/src/editor.rs", "rust/core-lib/src/tabs.rs", "rust/core-lib/src/plugins/rpc.rs"],
  [("updates to plugins", "rust/core-lib/src/event_context.rs"), ("requests of plugins", "rust/core-lib/src/editor.rs"), ("connection and end of plugins", "rust/core-lib/src/tabs.rs")],
  technique="runtime monitoring: plugins played by the monitor keep a replica from the updates, compared with the core's text at each revision", note=CORE + "up to three plugins with their own pace; each case has a time limit.")
prop("C28", "Concurrent edits of plugins and the user merge without loss",
  "An edit a plugin makes against an older revision does to the text exactly what it says at the place it meant, carried through all edits since: what it deletes is gone, what it inserts is there between the same neighbours, everything else stays in order, nothing twice. Cursors stay with the text they were next to. Undo takes back exactly the groups meant, of the user or a plugin, whatever came in between, and redo restores them.",
  ["histories", "schedules"], "every interleaving of edits by the user and several plugins at stale revisions, with undo and redo",
  "No test sends a plugin edit at all.",
  ["rust/core-lib/src/editor.rs", "rust/rope/src/engine.rs", "rust/core-lib/src/event_context.rs", "rust/core-lib/src/view.rs"],
  [("edits of plugins", "rust/core-lib/src/editor.rs"), ("merging", "rust/rope/src/engine.rs")],
  technique="runtime monitoring: every character inserted is unique, so a history of groups says which must be there, in which order", note=CORE + "the model knows for each character who inserted and who deleted it, and where it must be.")
prop("C29", "Highlighting and annotations of plugins show on exactly the text given",
  "Every character shows the style the current theme resolves for the scopes plugins gave it - stacks of scopes, the layers of several plugins merged in order - wherever edits, undo, updates for older revisions and changes of theme move it; text inserted since has none, and what a stopped plugin gave is gone. An annotation covers exactly the text it was given for while edits elsewhere move it, and goes rather than point at other text.",
  ["histories", "inputs"], "every interleaving of edits, undo, updates of spans at current and older revisions, changes of theme, starts and ends of plugins",
  "The tests merge two short lists of spans; none looks at what a line sent to the frontend is styled with.",
  ["rust/core-lib/src/layers.rs", "rust/core-lib/src/styles.rs", "rust/core-lib/src/annotations.rs", "rust/core-lib/src/editor.rs", "rust/core-lib/src/view.rs", "rust/rope/src/spans.rs"],
  [("scopes to styles", "rust/core-lib/src/layers.rs"), ("ids of styles and theme", "rust/core-lib/src/styles.rs"), ("spans through edits", "rust/rope/src/spans.rs"), ("styles of a line", "rust/core-lib/src/view.rs")],
  technique="runtime monitoring: per-character model of scopes beside the core, styles read back from the lines a reference frontend holds", note=CORE + "themes are resolved independently with syntect; annotations compared after each update.")
prop("C30", "Plugins that misbehave or die harm nobody",
  "Messages of plugins that cannot be right - positions outside the text or within a character, spans out of order, scopes, revisions or views that do not exist, impossible edits, malformed requests - change nothing, nor do any of a stopped plugin; valid edits do exactly what they say. Whatever plugins send, and whenever they die or are stopped, the core goes on, every view still shows its text, and the other plugins' replicas stay right.",
  ["inputs", "histories", "faults"], "every sequence of plugin messages, well formed or not, mixed with those of others, of the user, and with ends of plugins at any point",
  "The tests have no plugin at all, let alone one that misbehaves.",
  ["rust/core-lib/src/tabs.rs", "rust/core-lib/src/event_context.rs", "rust/core-lib/src/editor.rs", "rust/core-lib/src/layers.rs", "rust/core-lib/src/plugins/mod.rs", "rust/core-lib/src/plugins/rpc.rs"],
  [("messages of plugins", "rust/core-lib/src/event_context.rs"), ("edits of plugins", "rust/core-lib/src/editor.rs"), ("spans and scopes", "rust/core-lib/src/layers.rs")],
  technique="runtime monitoring: hostile plugins played by the monitor; text, styles, annotations, mirrored views and honest replicas watched", note=CORE + "each message is known to be valid, invalid or left open before it is sent.")
prop("C31", "A plugin's view of a document is always the document",
  "Whatever the sequence of edits (among them ones too big to be told to plugins), of pieces the core answers in, and of requests that fail: each line, region, offset, line number or whole document a plugin asks the plugin library for is that of the newest revision, or an error - never other text, a hang or a crash; positions outside the document are refused. States a plugin stores stay with their lines, and a plugin that works from the frontier in slices of any size ends with exactly the result of analysing everything afresh.",
  ["histories", "inputs", "faults"], "every sequence of edits and reads, size of the pieces read, eviction from the caches, and failing request",
  "The tests of the caches check a handful of edits on documents of a few bytes; the faults need a position in the cache relative to the edit.",
  ["rust/plugin-lib/src/base_cache.rs", "rust/plugin-lib/src/state_cache.rs", "rust/plugin-lib/src/lib.rs", "rust/plugin-lib/src/view.rs"],
  [("cached part of the document", "rust/plugin-lib/src/base_cache.rs"), ("states of lines and the frontier", "rust/plugin-lib/src/state_cache.rs"), ("what plugins call", "rust/plugin-lib/src/view.rs")],
  technique="runtime monitoring: the plugin library's caches driven with updates while the monitor plays the core from the true text; every answer compared with it", note="A core played by the monitor answers get_data in pieces of varying size and now and then fails; full re-analysis is the oracle of incremental analysis.")
prop("C32", "Core and plugins as processes: nothing is lost when some of them end",
  "With plugins as processes that come and go - exiting, aborting, panicking, killed, sending garbage, stopped and started by the user, silent, slow, flooding the core with requests, missing or not executable, with broken manifests or language defaults - every document is exactly what the edits made it, every request of the frontend is answered exactly once, saved files equal the document, each running plugin's copy equals the document, the frontend's lines converge to it, every view is told when a plugin ends, and concurrent edits of user and plugin lose or double nothing. Plugins installed, renamed and removed while the core runs, started and stopped by the user in any order and twice at once, run at most once each, and run exactly if they are installed and were not stopped. When the frontend goes the core exits with success and no plugin process remains.",
  ["schedules", "histories", "faults"], "every schedule of the processes' messages, every point at which one of them ends, every order of installing, removing, starting and stopping plugins",
  "The tests start no process; what goes wrong depends on which message is under way when a process ends.",
  ["rust/src/main.rs", "rust/core-lib/src/tabs.rs", "rust/core-lib/src/plugins/mod.rs", "rust/core-lib/src/plugins/catalog.rs", "rust/core-lib/src/plugins/manifest.rs", "rust/plugin-lib/src/lib.rs", "rust/plugin-lib/src/dispatch.rs", "rust/rpc/src/lib.rs"],
  [("the process", "rust/src/main.rs"), ("plugin processes", "rust/core-lib/src/plugins/mod.rs"), ("catalog of plugins", "rust/core-lib/src/plugins/catalog.rs"), ("the plugin's end", "rust/plugin-lib/src/dispatch.rs")],
  technique="runtime monitoring: real processes under a monitor that plays the frontend, ends plugins at random points, and compares documents, answers, files, replicas and exit", note="xi-core, sample-plugin and a plugin of the monitor are built and run as processes with real pipes; each session has a time limit.")
prop("C33", "Language servers always hold the documents as they are",
  "For each open document whose extension is configured, one server per language and workspace is started, initialized before anything else, told of the document once, with its text of then, and after every change - whatever its form, and in whichever units the server counts - holds exactly the document's text, with rising versions; saves and closing are told. A hover is answered once, in the view that asked, with what the server said, its range at the same text, or with an error. However slowly servers answer, whatever they send, wherever they end or if they cannot be started, the plugin goes on answering the core, and it ends with it.",
  ["histories", "inputs", "faults"], "every sequence of edits, opens, saves, closes and hovers in documents of several servers, every delay, malformed message and end of a server",
  "The tests parse three headers and never start a server; the faults need events before a server is ready, several servers, or text outside ASCII.",
  ["rust/lsp-lib/src/lsp_plugin.rs", "rust/lsp-lib/src/language_server_client.rs", "rust/lsp-lib/src/utils.rs", "rust/lsp-lib/src/parse_helper.rs", "rust/lsp-lib/src/conversion_utils.rs", "rust/lsp-lib/src/result_queue.rs"],
  [("events of the core", "rust/lsp-lib/src/lsp_plugin.rs"), ("talk with a server", "rust/lsp-lib/src/language_server_client.rs"), ("changes and server processes", "rust/lsp-lib/src/utils.rs"), ("positions", "rust/lsp-lib/src/conversion_utils.rs")],
  technique="runtime monitoring: the plugin as a process between a core and language servers both played by the monitor; each server's copy of each document compared with the document", note="Server processes relay to the monitor, which stalls them, makes them answer late or never, sends malformed messages and ends them.")
prop("C34", "The files of the configuration directory are in effect, always as they are now",
  "Whatever settings files and theme files are written, changed, made invalid, renamed, removed or found at the start, each buffer's configuration is the merge, in order of precedence, of the defaults, the user's general settings and those of its language, as the files say now; an invalid file is reported and changes nothing. The list of themes offered is the default ones and those of the theme files that can be read, each under its own name, and the theme in effect has the colours its file has now; removing a file removes its theme and nothing else, and brings a default theme of that name back. Views open before and after a change see the same.",
  ["histories", "inputs", "schedules"], "every history of creations, changes, renames and removals of files of the configuration directory, at the start and while views and themes are in use",
  "The tests merge tables in memory; which files are found, watched, reloaded and forgotten shows only in a running core with a real directory.",
  ["rust/core-lib/src/config.rs", "rust/core-lib/src/styles.rs", "rust/core-lib/src/tabs.rs", "rust/core-lib/src/watcher.rs", "rust/core-lib/src/syntax.rs"],
  [("settings of files and languages", "rust/core-lib/src/config.rs"), ("theme files", "rust/core-lib/src/styles.rs"), ("changes seen by the watcher", "rust/core-lib/src/tabs.rs")],
  technique="runtime monitoring: the real core over a scratch configuration directory that the monitor changes; what the frontend is told is compared with a reference reading of the directory", note="Each difference is judged after the file watcher has had time to settle; cases in which the notify library loses an event are repeated.")
prop("C35", "What frontend and plugins say to each other through the core arrives",
  "Each hover request of the frontend reaches every running plugin once, with the byte offset of the position in the document; each command for a plugin reaches exactly the running plugins of that name, reindenting and commenting with exactly the lines selected; tracing is switched on and off in all of them. Each status item, alert and hover result of a plugin reaches the frontend once, unchanged, for the view it is meant for, in the order sent. For each open view the frontend is told of each plugin that runs, once when it starts and once when it ends, and whether the user ended it.",
  ["histories", "inputs"], "every sequence of commands, edits, requests and messages, with several plugins of the same and of other names coming and going, in plain and wrapped views",
  "No test sends a hover, a status item, an alert or a command through the core.",
  ["rust/core-lib/src/event_context.rs", "rust/core-lib/src/tabs.rs", "rust/core-lib/src/client.rs", "rust/core-lib/src/plugins/mod.rs", "rust/core-lib/src/plugins/rpc.rs"],
  [("requests of the frontend to plugins", "rust/core-lib/src/event_context.rs"), ("plugins that start and end", "rust/core-lib/src/tabs.rs"), ("messages to the frontend", "rust/core-lib/src/client.rs"), ("messages to plugins", "rust/core-lib/src/plugins/mod.rs")],
  technique="runtime monitoring: log of what frontend and plugins sent, compared in order with what each of them received", note=CORE + "positions and line ranges come from the monitor's own reading of text, selection and visual lines.")
