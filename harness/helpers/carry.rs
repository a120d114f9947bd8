/// An error as text, and what is read back from that text and from the error as data.
fn carried(e: PackingError) -> String {
    let text = serde_json::to_string(&e).unwrap();
    let back: Result<PackingError, _> = serde_json::from_str(&text);
    let data = serde_json::to_value(e).unwrap();
    let again: Result<PackingError, _> = serde_json::from_value(data);
    let other: Result<PackingError, _> = serde_json::from_str(&text.replacen('r', "z", 1).replacen('m', "w", 1).replacen("Va", "aV", 1));
    format!("[{},{},{},{}]", sj(&text), matches!(back, Ok(b) if b == e) as i32, matches!(again, Ok(b) if b == e) as i32, other.is_err() as i32)
}
