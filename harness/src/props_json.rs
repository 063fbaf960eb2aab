// ---- C19: JSON that nothing was serialised to ------------------------------------------------------------------

/// JSON of a document or of events with one part changed, and whether it is still of the documented shape.
const BENT: &str = "\u{1}bent\u{1}";

const NAMES: &[&str] = &[
    "Anchor", "Bold", "Code", "CodeSpan", "Collapsible", "Embed", "Emphasis", "Heading", "Highlight", "Image", "Images",
    "Italic", "List", "ListItem", "Materialized", "Metadata", "Ordered", "Paragraph", "Span", "Start", "End", "Value",
    "Strikethrough", "Text", "ThematicBreak", "Title", "Unordered", "Document", "Destination", "Icon", "Modifier",
    "OrderedList", "UnorderedList", "text", "",
];

/// All ways to change one part of a value, with whether the result must (`y`) or may (`?`) be read.
fn bend(v: &serde_json::Value, key: &str, out: &mut dyn FnMut(serde_json::Value, char)) {
    use serde_json::{json, Value};
    let name = matches!(key, "type" | "list_type" | "node");
    for w in [json!(null), json!(true), json!(-1), json!(1.5), json!([]), json!({}), json!([1]), json!(["a"]), json!({"a": 1})] {
        if w != *v {
            out(w, '?');
        }
    }
    for n in [0u64, 1, 6, 7, 255, 256, 300, 65536, u32::MAX as u64 + 1, u64::MAX] {
        // heading levels are small numbers, all others are counts
        let fits = n < 256 || !matches!(key, "level");
        out(json!(n), if v.is_u64() && fits { 'y' } else { '?' });
    }
    if name {
        NAMES.iter().for_each(|k| out(json!(k), '?'));
    } else {
        for t in ["", "a", "\n", "\\n", "\u{0}", "é\"", "null", "Text", " x "] {
            out(json!(t), if v.is_string() { 'y' } else { '?' });
        }
    }
    match v {
        Value::Object(m) => {
            for (k, inner) in m {
                let mut less = m.clone();
                less.remove(k);
                out(Value::Object(less.clone()), '?');
                less.insert(k.to_uppercase(), inner.clone());
                out(Value::Object(less), '?');
                let key = if k == "value" && m.get("type").is_some_and(|t| t == "Start" || t == "End") { "node" } else { k };
                bend(inner, key, &mut |w, must| {
                    let mut m = m.clone();
                    m.insert(k.clone(), w);
                    out(Value::Object(m), must);
                });
            }
            let mut more = m.clone();
            more.insert("more".into(), json!([1, {"a": null}]));
            out(Value::Object(more), '?');
        }
        Value::Array(a) => {
            for (i, inner) in a.iter().enumerate() {
                let mut less = a.clone();
                less.remove(i);
                out(Value::Array(less), 'y');
                let mut more = a.clone();
                more.insert(i, inner.clone());
                out(Value::Array(more), 'y');
                bend(inner, "", &mut |w, must| {
                    let mut a = a.clone();
                    a[i] = w;
                    out(Value::Array(a), must);
                });
            }
        }
        _ => {}
    }
}

fn bent_spaces() -> Spaces {
    let mut cases = vec![];
    let docs = BLOCKS.iter().copied().chain(["---\nm\n---\n\na", "# a [b](c)\n\n- a\n - b\n\n!! t\n! i\n_a_\n!!"]);
    for s in docs {
        let v = json::doc(&tree::doc(&imp::tree(s)));
        bend(&v, "", &mut |w, must| cases.push(format!("{BENT}d{must}{w}")));
    }
    for s in ["\\*a", "*a*", "- \\a", "[a](b)"] {
        let v = serde_json::Value::from(imp::ops(s).iter().map(json::op).collect::<Vec<_>>());
        bend(&v, "", &mut |w, must| cases.push(format!("{BENT}e{must}{w}")));
    }
    vec![Box::new(Fixed { label: "JSON with one part changed".into(), cases })]
}

/// What is read may leave out nulls and bring unknown fields, but says the same.
fn says(read: &serde_json::Value, given: &serde_json::Value) -> bool {
    use serde_json::Value;
    match (read, given) {
        (Value::Object(r), Value::Object(g)) => r.iter().all(|(k, v)| says(v, g.get(k).unwrap_or(&Value::Null))),
        // a struct can also be given as the list of its fields
        (Value::Object(r), Value::Array(g)) => r.len() == g.len(),
        (Value::Array(r), Value::Array(g)) => r.len() == g.len() && r.iter().zip(g).all(|(r, g)| says(r, g)),
        (r, g) => r == g,
    }
}

fn bent(case: &str, st: &mut Stats) -> Res {
    fn judge<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(
        text: &str,
        must: bool,
        st: &mut Stats,
    ) -> Res {
        let given: serde_json::Value = from_json(text).map_err(|e| format!("no JSON: {e}"))?;
        let read: Result<T, _> = imp::enter(|| from_json(text));
        let other: Result<T, _> = imp::enter(|| serde_json::from_value(given.clone()));
        let bytes: Result<T, _> = imp::enter(|| serde_json::from_reader(text.as_bytes()));
        if read.is_ok() != other.is_ok() || read.is_ok() != bytes.is_ok() {
            return Err(format!("{text} is read from text, value and reader: {read:?} {other:?} {bytes:?}"));
        }
        let (Ok(read), Ok(other), Ok(bytes)) = (read, other, bytes) else {
            st.count("refused");
            st.validated += 1;
            return if must { Err(format!("{text} is of the documented shape, but not read")) } else { Ok(()) };
        };
        if read != other || read != bytes {
            return Err(format!("{text} is read as {read:?}, {other:?} and {bytes:?}"));
        }
        let again = imp::enter(|| serde_json::to_value(&read)).map_err(|e| format!("not serialized: {e}"))?;
        if !says(&again, &given) {
            return Err(format!("{text} is read as {read:?}, which says {again}"));
        }
        st.count("read");
        st.validated += 1;
        st.state(hash(&again.to_string()));
        Ok(())
    }
    let must = &case[1..2] == "y";
    match &case[..1] {
        "d" => judge::<yamd::Yamd>(&case[2..], must, st),
        _ => judge::<Vec<yamd::op::Op>>(&case[2..], must, st),
    }
}
