//! Line/column positions as a function of the consumed text only.

/// (line, col) after consuming `text`, when `next` is the character that follows it (if any).
/// `next` matters only when `text` ends in CR: a CR directly followed by LF is not a line
/// break of its own (the pair counts once).
pub fn pos(text: &[char], next: Option<char>) -> (usize, usize) {
    let (mut line, mut col) = (1, 0);
    for (i, c) in text.iter().enumerate() {
        let follow = if i + 1 < text.len() { Some(text[i + 1]) } else { next };
        let is_break = match c {
            '\n' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}' => true,
            '\r' => follow != Some('\n'),
            _ => false,
        };
        if is_break {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
    }
    (line, col)
}
