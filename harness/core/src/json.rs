pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || ('\u{2028}'..='\u{2029}').contains(&c) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr(v: &[String]) -> String { format!("[{}]", v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", ")) }

/// the JSON string starting at s[0] == '"', and the rest
pub fn parse_str(s: &str) -> Option<(String, &str)> {
    let mut o = String::new();
    let mut it = s.char_indices();
    if it.next()?.1 != '"' { return None }
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Some((o, &s[i + 1..])),
            '\\' => match it.next()?.1 {
                'n' => o.push('\n'), 'r' => o.push('\r'), 't' => o.push('\t'), 'b' => o.push('\x08'), 'f' => o.push('\x0c'),
                'u' => { let mut v = 0; for _ in 0..4 { v = v * 16 + it.next()?.1.to_digit(16)? } o.push(char::from_u32(v)?) }
                x => o.push(x),
            },
            c => o.push(c),
        }
    }
    None
}
/// array of strings stored under `key`
pub fn get_strs(s: &str, key: &str) -> Option<Vec<String>> {
    let at = s.find(&format!("\"{}\":", key))?;
    let mut r = s[at + key.len() + 3..].trim_start();
    if r.starts_with('"') { return Some(vec![parse_str(r)?.0]) }
    r = r.strip_prefix('[')?.trim_start();
    let mut v = vec![];
    while r.starts_with('"') {
        let (x, rest) = parse_str(r)?;
        v.push(x);
        r = rest.trim_start().trim_start_matches(',').trim_start();
    }
    Some(v)
}
