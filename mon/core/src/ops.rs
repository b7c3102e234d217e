//! Random edit commands.
use monlib::*;
use serde_json::{json, Value};

pub const MOVES: &[&str] = &[
    "move_up", "move_up_and_modify_selection", "move_down", "move_down_and_modify_selection", "move_left",
    "move_left_and_modify_selection", "move_backward", "move_forward", "move_right", "move_right_and_modify_selection", "move_word_left",
    "move_word_left_and_modify_selection", "move_word_right", "move_word_right_and_modify_selection",
    "move_to_beginning_of_paragraph", "move_to_beginning_of_paragraph_and_modify_selection",
    "move_to_end_of_paragraph", "move_to_end_of_paragraph_and_modify_selection", "move_to_left_end_of_line",
    "move_to_left_end_of_line_and_modify_selection", "move_to_right_end_of_line",
    "move_to_right_end_of_line_and_modify_selection", "move_to_beginning_of_document",
    "move_to_beginning_of_document_and_modify_selection", "move_to_end_of_document",
    "move_to_end_of_document_and_modify_selection", "scroll_page_up", "page_up_and_modify_selection",
    "scroll_page_down", "page_down_and_modify_selection",
];
pub const SELS: &[&str] = &["select_all", "add_selection_above", "add_selection_below", "collapse_selections", "selection_into_lines"];
pub const EDITS: &[&str] = &[
    "delete_forward", "delete_backward", "delete_word_forward", "delete_word_backward", "delete_to_end_of_paragraph",
    "delete_to_beginning_of_line", "insert_newline", "insert_tab", "yank", "transpose", "uppercase", "lowercase",
    "capitalize", "indent", "outdent", "duplicate_line", "increase_number", "decrease_number",
];

pub fn word(r: &mut Rng) -> String {
    let alpha = text::alphabet(r);
    let n = 1 + r.below(4);
    text::gen(r, alpha, n)
}

pub fn chars(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "a".into(),
        1 => "(".into(),
        2 => "\n".into(),
        3 => String::new(),
        4 => text::any(r, 60),
        5 => {
            let k = 2 + r.below(3);
            (0..k).map(|_| word(r).replace('\n', "")).collect::<Vec<_>>().join("\n")
        }
        _ => word(r),
    }
}

pub fn granularity(r: &mut Rng) -> &'static str {
    *r.pick(&["point", "point", "word", "line"])
}

pub fn gesture(r: &mut Rng, lines: usize) -> (String, Value) {
    let line = match r.below(8) {
        0 => r.below(100000),
        _ => r.below(lines + 1),
    };
    let col = match r.below(6) {
        0 => r.below(100000),
        1 => 0,
        _ => r.below(12),
    };
    let ty = match r.below(8) {
        0 | 1 => json!("drag"),
        2 | 3 => json!({"select_extend": {"granularity": granularity(r)}}),
        4 => json!(r.pick(&["point_select", "toggle_sel", "range_select", "line_select", "word_select", "multi_line_select", "multi_word_select"])),
        _ => json!({"select": {"granularity": granularity(r), "multi": r.chance(2, 3)}}),
    };
    ("gesture".into(), json!({"line": line, "col": col, "ty": ty}))
}

pub fn find_op(r: &mut Rng, doc: &str) -> (String, Value) {
    let pat = |r: &mut Rng| -> String {
        match r.below(6) {
            0 => String::new(),
            1 => r.pick(&["a", "b", "the", "\n", ".", "é", "1", " "]).to_string(),
            2 => word(r),
            _ => {
                let (a, b) = text::span(r, doc);
                let b = text::floor_boundary(doc, b.min(a + 10));
                doc[a..b].to_string()
            }
        }
    };
    let rx = |r: &mut Rng| r.pick(&["a*", "[ab]+", "(?m)^", "$", "\\w+", "a|b", ".", "(", "[^a]", "\\s", "\\n", "a.*b", "(?i)A", "b?", "^a", "x$", ".*\\n.*"]).to_string();
    match r.below(12) {
        0..=3 => {
            let regex = r.chance(1, 3);
            let p = if regex { rx(r) } else { pat(r) };
            ("find".into(), json!({"chars": p, "case_sensitive": r.bool(), "regex": regex, "whole_words": r.chance(1, 3)}))
        }
        4 => {
            let n = r.below(4);
            let q: Vec<Value> = (0..n)
                .map(|_| {
                    let regex = r.chance(1, 3);
                    let p = if regex { rx(r) } else { pat(r) };
                    let id = if r.chance(1, 2) { Value::Null } else { json!(1 + r.below(4)) };
                    json!({"id": id, "chars": p, "case_sensitive": r.bool(), "regex": regex, "whole_words": r.chance(1, 3)})
                })
                .collect();
            ("multi_find".into(), json!({ "queries": q }))
        }
        5 | 6 => ("find_next".into(), json!({"wrap_around": r.bool(), "allow_same": r.bool(), "modify_selection": r.pick(&["none", "set", "add", "add_removing_current"])})),
        7 => ("find_previous".into(), json!({"wrap_around": r.bool(), "allow_same": r.bool(), "modify_selection": r.pick(&["none", "set", "add", "add_removing_current"])})),
        8 => ("find_all".into(), Value::Null),
        9 => ("highlight_find".into(), json!({"visible": r.bool()})),
        10 => ("selection_for_find".into(), json!({"case_sensitive": r.bool()})),
        _ => match r.below(4) {
            0 => ("replace".into(), json!({"chars": chars(r), "preserve_case": false})),
            1 => ("replace_next".into(), Value::Null),
            2 => ("replace_all".into(), Value::Null),
            _ => ("selection_for_replace".into(), Value::Null),
        },
    }
}

/// Any edit command; `lines` = lines of the document.
pub fn any(r: &mut Rng, doc: &str, lines: usize) -> (String, Value) {
    let null = Value::Null;
    match r.below(40) {
        0..=8 => (r.pick(MOVES).to_string(), null),
        9..=11 => (r.pick(SELS).to_string(), null),
        12..=17 => gesture(r, lines),
        18..=22 => ("insert".into(), json!({"chars": chars(r)})),
        23 => ("paste".into(), json!({"chars": chars(r)})),
        24..=29 => (r.pick(EDITS).to_string(), null),
        30 => ("undo".into(), null),
        31 => (r.pick(&["undo", "redo", "undo", "redo"]).to_string(), null),
        32 => ("redo".into(), null),
        33 | 34 => find_op(r, doc),
        35 => ("goto_line".into(), json!({"line": r.below(lines + 3)})),
        36 => {
            let a = r.below(lines + 3);
            let h = r.below(20);
            ("scroll".into(), json!([a, a + h]))
        }
        37 => {
            let a = r.below(lines + 3);
            let h = r.below(20);
            ("request_lines".into(), json!([a, a + h]))
        }
        38 => ("click".into(), json!([r.below(lines + 1), r.below(9), if r.bool() { 2 } else { 0 }, 1 + r.below(3)])),
        _ => match r.below(6) {
            0 => ("resize".into(), json!({"width": r.below(200), "height": r.below(200)})),
            1 => ("drag".into(), json!([r.below(lines + 1), r.below(9), 0])),
            2 => ("debug_toggle_comment".into(), null),
            3 => ("reindent".into(), null),
            4 => ("request_hover".into(), json!({"request_id": 1, "position": {"line": r.below(lines + 2), "column": r.below(8)}})),
            _ => match r.below(4) {
                0 => ("toggle_recording".into(), json!({"recording_name": r.pick(&["a", "b"])})),
                1 => ("toggle_recording".into(), json!({})),
                2 => ("play_recording".into(), json!({"recording_name": r.pick(&["a", "b", "zz"])})),
                _ => ("clear_recording".into(), json!({"recording_name": r.pick(&["a", "b"])})),
            },
        },
    }
}
