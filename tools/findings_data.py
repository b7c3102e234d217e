FIXED.update({
"fix: at_or_next_codepoint_boundary from inside a codepoint": ("C01", "moving to the next codepoint boundary from inside a codepoint gave the previous one"),
"fix: grapheme boundaries across rope leaves": ("C01", "grapheme boundaries were wrong when a cluster crossed rope leaves"),
"fix: offsets of inserted and deleted regions of a delta": ("C02", "offsets of inserted and deleted regions of a delta were wrong after an earlier region"),
"fix: gc of an undo group that follows a retained one": ("C05", "garbage collection of an undo group following a retained one lost track of text"),
"fix: merge ordered concurrent inserts of different peers wrongly": ("C06", "merging replicas with ordered concurrent inserts diverged"),
"fix: backwards rope comparison stops inside a codepoint": ("C08", "backwards comparison stopped inside a codepoint"),
"fix: vectorised byte comparison reads past the end of its slices": ("C08", "vectorised comparison read past the end of its slices"),
"fix: diff copies overlapping or out of order regions of the base": ("C07", "diff copied overlapping or out of order regions"),
"fix: case-insensitive search for patterns with non-ASCII capitals": ("C09", "case-insensitive search did not find patterns starting with a non-ASCII capital"),
"fix: line breaking forgets its context after a second space": ("C11", "two or more spaces made the line breaker forget what was before them"),
"fix: line break between a flag and a no-break space": ("C11", "break allowed between a flag and a no-break space"),
"fix: line break between a zero width joiner and an emoji": ("C11", "break allowed between a zero width joiner and the emoji after it"),
"fix: no line break after a space which follows a hyphenated Hebrew letter or a flag": ("C11", "no break after a space following a flag or a hyphenated Hebrew letter"),
})
FIXED.update({
"fix: a response whose id is not an unsigned integer ended the reader thread": ("C13", "a response with an id that is not an unsigned integer killed the reader thread and hung the loop"),
"fix: deadlock when the handler of a failed request makes a request": ("C13", "the callback of a failed request deadlocked when it made another request"),
"fix: requests made after the end of the input were never answered": ("C13", "requests made after the peer went away were never completed"),
"fix: Trace::save saved the samples of the global trace": ("C16", "Trace::save wrote the samples of the global trace, not its own"),
"fix: reading a trace with an unknown event type panicked": ("C16", "decoding a sample with an unknown event type panicked"),
"fix: a plugin's malformed trace crashed the core when traces were saved": ("C16", "a malformed trace from a plugin crashed the core"),
})
FIXED.update({
"fix: an update that removes the cursors of a line must say so": ('C17', 'an update without cursors left the old cursors in the frontend'),
"fix: a regex or whole-word search could hang or panic": ('C17', 'a regex or whole-word search looped for ever or panicked'),
"fix: a cursor after the final newline was also shown on the line before": ('C17', 'a cursor after the final newline was shown on two lines'),
"fix: a window of no lines crashed the core at the next cursor motion": ('C17', 'scrolling to a window of no lines crashed the core at the next motion'),
"fix: capitalize panicked on a non-ASCII word or on two regions in one word": ('C18', 'capitalize panicked on non-ASCII words or two regions in a word'),
"fix: changing a number panicked with two carets in the number": ('C18', 'increase_number panicked with two carets in one number'),
"fix: backspace panicked when the deletions of two carets overlap": ('C18', 'backspace panicked when deletions of two carets overlapped'),
"fix: duplicating the last line added an empty line if it ended in a newline": ('C18', 'duplicating a last line ending in a newline added an empty line'),
"fix: transpose panicked at multi-byte characters and next to selections": ('C18', 'transpose panicked at multi-byte characters and next to selections'),
"fix: tab panicked or indented twice when two regions share a line": ('C18', 'tab panicked or indented twice with two regions on a line'),
"fix: a request for no lines made an empty update op, a reversed or negative one a panic": ('C17', 'requests for no lines, reversed or negative ranges gave an invalid update or a panic'),
"fix: zero-length search results next to others panicked": ('C17', 'zero-length search results next to others panicked'),
"fix: capitalize looked at the old selection in the new text": ('C18', 'capitalize used offsets of the old text in the new one'),
"fix: adding a cursor from an empty last line panicked": ('C19', 'adding a cursor below or above from an empty last line panicked'),
"fix: splitting a selection into lines lost characters and could split one": ('C19', 'selection_into_lines lost characters and could split one'),
"fix: the cursor of a region merged away by an edit stayed in the view": ('C17', 'the cursor of a region merged away by an edit stayed in the view'),
"fix: the click command did nothing": ('C19', 'the click command did nothing'),
"fix: a click with too few parameters panicked": ('C17', 'a click with too few parameters panicked the core'),
"fix: killing to the end of the last line did nothing": ('C18', 'delete_to_end_of_paragraph did nothing on a last line without a newline'),
"fix: duplicating a last line without a newline did nothing": ('C18', 'duplicate_line did nothing on a last line without a newline'),
})
FIXED.update({
"fix: an update before a view was initialised copied lines the frontend never had": ("C22", "an update before a view was initialised copied lines the frontend never had"),
"fix: a command of a recording moved cursors as the one before it": ("C20", "a command of a recording moved the cursors as the one before it"),
"fix: closing a view before it was initialised crashed the core": ("C22", "closing a view before it was initialised crashed the core"),
"fix: the final search status was only sent along with changed lines": ("C21", "the final search status was not sent unless lines changed"),
"fix: a regex search forgot what precedes on the line it continued on": ("C21", "anchors and word boundaries of a regex matched in mid-line after an earlier match"),
"fix: search results on an edited line were not all brought up to date": ("C21", "whole-word and regex results next to an edit went stale"),
"fix: $ in a regex search only matched at the end of the last line": ("C21", "$ in a regex search only matched at the end of the last line"),
"fix: a whole-word search skipped results overlapping a rejected one": ("C21", "a whole-word search skipped results overlapping a rejected one"),
"fix: highlights of a search over several lines stayed after an edit next to them": ("C21", "highlights of a search over several lines stayed after an edit next to them"),
"fix: find_next did not wrap around to a result next to the selection": ("C21", "find_next did not wrap around to a result next to the selection"),
"fix: find_next wrapped around although it was told not to": ("C21", "find_next wrapped around although it was told not to"),
"fix: replacing without results collapsed the selection": ("C21", "replacing without results collapsed the selection"),
"fix: find_previous skipped a result next to the one before it": ("C21", "find_previous skipped a result adjacent to the one before it"),
})
FIXED.update({
"fix: a tab size above 32 no longer panics on insert_tab and indent": ("C23", "insert_tab and indent panicked with a tab size above 32"),
"fix: an error instead of widths from the frontend no longer panics the core": ("C23", "a failed or malformed answer to measure_width panicked the core"),
"fix: batches of an incremental search no longer end within a character": ("C23", "a search batch ending within a character panicked the core"),
"fix: an edit during an incremental search made it miss results": ("C21", "an edit during an incremental search made it miss results"),
"fix: saving under a name without a known language no longer leaves the buffer without a language": ("C24", "saving under a name without a known language left the buffer with no language and later settings panicked"),
"fix: settings changed before a new view was set up did not reach the frontend": ("C24", "settings changed before a new view was set up did not reach the frontend"),
})
FIXED.update({
"fix: changes of a file after it was replaced by another were not noticed": ("C25", "changes of a file after it was replaced by another were not noticed"),
"fix: saving overwrote a change on disk that had not been noticed yet": ("C25", "saving overwrote a change on disk that had not been noticed yet"),
"fix: lines an edit changed out of sight stayed unwrapped": ("C26", "lines an edit changed out of sight stayed unwrapped"),
"fix: an edit during rewrapping left stale lines in the frontend": ("C26", "an edit during rewrapping left stale lines in the frontend"),
})
FIXED.update({
"fix: an edit hung the core when a plugin was gone": ("C27", "the next edit after a plugin had gone hung the core"),
"fix: the line_count request of a plugin was always refused": ("C27", "line_count and get_selections requests of plugins were refused"),
})
FIXED.update({
"fix: an empty stack of scopes from a plugin panicked the core": ("C29", "an empty stack of scopes from a plugin panicked the core"),
"fix: after a change of theme text was styled by the old one": ("C29", "after a change of theme text was styled by the old one"),
"fix: annotations of a part of the text were shown at its beginning": ("C29", "annotations of a part of the text were shown at its beginning"),
"fix: annotations after an edit stayed where they were": ("C29", "annotations after an edit stayed where they were"),
"fix: annotations of a plugin stayed after it had stopped": ("C29", "annotations of a plugin stayed after it had stopped"),
"fix: scopes got no style unless their parents had been added before": ("C29", "scopes got no style unless their parents had been added before"),
"fix: a deletion split styled spans within characters": ("C29", "a deletion split styled spans within characters"),
"fix: spans for an old revision displaced those after text inserted behind them": ("C29", "spans for an old revision displaced those after text inserted behind them"),
"fix: a status item of a plugin that was stopped panicked the core": ("C30", "a status item of a plugin that was stopped panicked the core"),
"fix: invalid spans from a plugin panicked the core or were shown somewhere": ("C30", "invalid spans from a plugin panicked the core or were shown somewhere"),
"fix: an unknown scope in spans of a plugin panicked the core": ("C30", "an unknown scope in spans of a plugin panicked the core"),
"fix: an invalid edit of a plugin panicked the core or broke the text": ("C30", "an invalid edit of a plugin panicked the core or broke the text"),
"fix: an empty span from a plugin was shown as a style of length 0": ("C30", "an empty span from a plugin was shown as a style of length 0"),
"fix: empty spans got lost and unbalanced the tree of spans": ("C30", "empty spans got lost and unbalanced the tree of spans"),
})
FIXED.update({
"fix: asking a plugin's cache for text beyond the end never returned": ("C31", "asking the plugin library for text beyond the end never returned"),
"fix: lines still to be analysed were forgotten after edits at other places": ("C31", "lines of the frontier were forgotten after edits at other places"),
"fix: a plugin panicked when a line it gave a state could not be looked up": ("C31", "a plugin panicked when a line it gave a state could not be looked up"),
"fix: highlighting of a file just opened was put at wrong places": ("C29", "highlighting of a file opened from disk was put at wrong places"),
"fix: invalid defaults for a language in a plugin's folder panicked the core": ("C32", "invalid language defaults in a plugin's folder panicked the core"),
})
FIXED.update({
"fix: a deletion removed other text from the language server's document": ("C33", "a deletion removed other text from the language server's document"),
"fix: events before a language server was initialized panicked the plugin or were lost": ("C33", "events before a language server was initialized panicked the plugin or were lost"),
"fix: unexpected messages of a language server panicked the plugin": ("C33", "unexpected messages of a language server panicked the plugin"),
"fix: a language server that ended or could not be started panicked the plugin": ("C33", "a language server that ended or could not be started panicked the plugin"),
"fix: a huge content length from a language server aborted the plugin": ("C33", "a huge content length from a language server aborted the plugin"),
"fix: a relative path panicked the language server plugin": ("C33", "a document with a relative path panicked the language server plugin"),
"fix: documents were told to the language server of another language": ("C33", "documents were told to the language server of another language"),
"fix: a position beyond the end of a line was taken to be on the next line": ("C33", "a position beyond the end of a line was taken to be on the next line"),
"fix: the answer to a hover was shown in another view": ("C33", "the answer to a hover was shown in another view"),
"fix: a document closed early panicked the language server plugin": ("C33", "a document closed early panicked the language server plugin"),
"fix: plugin and language server could block each other": ("C33", "plugin and language server could block each other"),
})
FIXED.update({
"fix: settings files of languages with a dot in their name were not found": ("C34", "the settings file of a language with a dot in its name was taken for another language's or not found"),
"fix: files that are no theme files were listed as themes or removed one": ("C34", "files that are no theme files were listed as themes, and removing one removed a theme"),
"fix: themes with the same name up to a dot were taken for each other": ("C34", "themes whose names are equal up to a dot were taken for each other"),
"fix: a touched theme file made the themes of other folders disappear": ("C34", "a touched theme file made the themes of other folders disappear"),
"fix: a theme changed while another was in effect kept its old contents": ("C34", "a theme changed while another was in effect kept its old contents"),
"fix: removing a theme file named like a default theme removed the default theme": ("C34", "removing a theme file named like a default theme removed the default theme"),
"fix: a change of one plugin's folder stopped a plugin with a longer name": ("C32", "a change in one plugin's folder stopped another plugin whose folder's name begins the same"),
"fix: a plugin started twice at once ran twice": ("C32", "a plugin started twice at once ran twice, and one stopped while it started ran on"),
})
FIXED.update({
"fix: steps undone while recording were played": ("C20", "steps that were undone while recording were played, if several were undone in a row"),
"fix: views that were open were not told of a plugin that starts": ("C35", "the frontend was not told of a plugin that started while views were open"),
"fix: a plugin that ended by itself was told as stopped by the user": ("C35", "a plugin that ended by itself was told to the frontend as stopped by the user"),
"fix: a tab over a selection made backwards was sized for its end": ("C18", "a tab replacing a selection made backwards was sized for the column of its end"),
})
FIXED.update({
"fix: a file open twice, or reached by way of a link, was not reloaded": ("C25", "a file open in two buffers was reloaded in one at most, and one opened through a link in none"),
"fix: saving through a symbolic link replaced the link": ("C25", "saving through a symbolic link replaced the link by a file"),
"fix: a file removed by others was not watched again when it came back": ("C25", "a file that others removed and wrote again, or that was saved again after that, was no longer watched"),
})
