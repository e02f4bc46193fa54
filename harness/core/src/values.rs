//! Property values that are worth trying.
use crate::model::*;
use crate::universe::*;
use indradb::{BulkInsertItem, Json};
use std::collections::BTreeSet;

/// What serde_json itself reads back from what it writes: floats it alters
/// are a known finding, and are asked about separately.
pub fn roundtrips(v: &serde_json::Value) -> bool {
    serde_json::from_str::<serde_json::Value>(&v.to_string()).is_ok_and(|w| canon(&w) == canon(v))
}

/// Leaf values, then every array and object of at most `w` members over some
/// of them, nested to `depth`.
pub fn values(depth: usize, w: usize) -> Vec<Json> {
    use serde_json::{json, Value};
    let mut leaves: Vec<Value> = vec![json!(null), json!(true), json!(false)];
    let p53: i64 = 1 << 53;
    for i in [0, 1, -1, 2, 3, 10, -p53, p53 - 1, p53, p53 + 1, p53 + 2, i64::MAX - 1, i64::MAX, i64::MIN, i64::MIN + 1] {
        leaves.push(json!(i));
    }
    for u in [1u64 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX] {
        leaves.push(json!(u));
    }
    for f in [
        0.0, -0.0, 1.0, -1.0, 1.5, 3.0, 0.5, p53 as f64, (p53 + 2) as f64, -(p53 as f64), 9223372036854775808.0, -9223372036854775808.0,
        18446744073709551616.0, 1e15, 1e-5, 123456.789, 1e22, -1e22,
    ] {
        let v = json!(f);
        if roundtrips(&v) {
            leaves.push(v);
        }
    }
    for s in ["", "a", "b", "ab", "A", "0", "1", "null", "true", "[]", "\u{0}", "é", "e\u{301}", "日本", "\u{10ffff}", "\"", "\\", " ", "a\u{0}"] {
        leaves.push(json!(s));
    }
    let mut out = leaves.clone();
    let few: Vec<Value> = vec![json!(null), json!(0), json!(0.0), json!("a"), json!([]), json!({})];
    let compose = |inner: &[Value], w: usize| -> Vec<Value> {
        let mut r = vec![json!([]), json!({})];
        let mut rows: Vec<Vec<Value>> = vec![vec![]];
        for _ in 0..w {
            let mut next = vec![];
            for row in &rows {
                for v in inner {
                    let mut n = row.clone();
                    n.push(v.clone());
                    next.push(n);
                }
            }
            for n in &next {
                r.push(Value::Array(n.clone()));
                for keys in [["", "a", "aa"], ["a", "b", "c"], ["b", "c", "d"]] {
                    r.push(Value::Object(keys.iter().map(|k| k.to_string()).zip(n.iter().cloned()).collect()));
                }
            }
            rows = next;
        }
        r
    };
    let mut layer = compose(&few, w);
    out.extend(layer.clone());
    for _ in 1..depth {
        let pick: Vec<Value> = layer
            .iter()
            .filter(|v| v.to_string().len() <= 7)
            .cloned()
            .chain([json!("a"), json!(0)])
            .collect();
        layer = compose(&pick, w.min(2));
        out.extend(layer.clone());
    }
    let mut seen = BTreeSet::new();
    out.retain(|v| seen.insert(canon(v)));
    out.into_iter().map(Json::new).collect()
}

pub fn nested(open: &str, mid: &str, close: &str, depth: usize) -> String {
    format!("{}{}{}", open.repeat(depth), mid, close.repeat(depth))
}

/// Floats over every exponent, kept where serde_json reads back what it wrote.
pub fn floats(mantissas: &[u64]) -> (Vec<f64>, usize) {
    let mut r = vec![];
    let mut lossy = 0;
    for e in 0..2047u64 {
        for m in mantissas {
            for s in [0u64, 1] {
                let f = f64::from_bits(s << 63 | e << 52 | m);
                if roundtrips(&serde_json::json!(f)) {
                    r.push(f);
                } else {
                    lossy += 1;
                }
            }
        }
    }
    (r, lossy)
}

pub fn graph_of(vals: &[Json]) -> Vec<BulkInsertItem> {
    let mut items = vec![];
    for (k, x) in vals.iter().enumerate() {
        let a = id(k as u128);
        items.push(BulkInsertItem::Vertex(vertex(a, "x")));
        let e = edge_of(&(a, "t".into(), a));
        items.push(BulkInsertItem::Edge(e.clone()));
        items.push(BulkInsertItem::VertexProperty(a, ident("p"), x.clone()));
        items.push(BulkInsertItem::EdgeProperty(e, ident("p"), x.clone()));
    }
    items
}

/// Floats whose shortest text serde_json does not read back exactly.
pub const LOSSY: [f64; 4] = [2.3803241120154773e-268, 1.0715086071862673e301, 5.0e-324, 0.30000000000000004];

/// Pairs of different values of some length that are alike but for one place.
pub fn long_pairs(n: usize) -> Vec<(&'static str, Json, Json)> {
    use serde_json::Value as V;
    let of = |v: V| Json::new(v);
    let text = |s: String| Json::new(V::String(s));
    let mut r = vec![
        ("text, last letter", text("y".repeat(n - 1) + "a"), text("y".repeat(n - 1) + "b")),
        ("text, first letter", text("a".to_string() + &"y".repeat(n - 1)), text("b".to_string() + &"y".repeat(n - 1))),
        ("text, length", text("y".repeat(n)), text("y".repeat(n - 1))),
        ("text of two-byte letters", text("é".repeat(n / 2) + "a"), text("é".repeat(n / 2) + "b")),
    ];
    if n <= 5000 {
        let list = |last: u64| V::Array((0..n as u64 - 1).map(V::from).chain([V::from(last)]).collect());
        r.push(("list, last item", of(list(1)), of(list(2))));
        let short = |k: usize| V::Array((0..k as u64).map(V::from).collect());
        r.push(("list, length", of(short(n)), of(short(n - 1))));
        let keys = |last: u64| V::Object((0..n as u64 - 1).map(|k| (format!("k{k}"), V::from(k))).chain([("z".to_string(), V::from(last))]).collect());
        r.push(("object, last value", of(keys(1)), of(keys(2))));
        let key = |last: &str| V::Object([("k".repeat(n - 1) + last, V::Null)].into_iter().collect());
        r.push(("object, its key", of(key("a")), of(key("b"))));
    }
    r
}

pub fn lengths(thorough: bool) -> Vec<usize> {
    let mut v = vec![17, 33];
    for p in 6..=if thorough { 20 } else { 16 } {
        let n = 1usize << p;
        v.extend([n - 1, n, n + 1]);
    }
    v.extend([100, 101, 1000, 1001, 5000, 10_000, 10_001]);
    v
}
