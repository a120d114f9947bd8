/// Without serde, errors are not carried anywhere.
fn carried(_: PackingError) -> String {
    "[]".to_string()
}
