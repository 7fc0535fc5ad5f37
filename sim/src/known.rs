//! Findings on the unchanged tree, committed in /verif/known_findings.json and never written here.

use serde_json::Value;

#[derive(Clone)]
pub struct Known {
    pub property: String,
    pub kind: String,
    pub what: String,
}

pub fn load() -> Vec<Known> {
    let path = crate::root().join("known_findings.json");
    let Ok(text) = std::fs::read_to_string(path) else { return vec![] };
    let v: Value = serde_json::from_str(&text).expect("known_findings.json is valid JSON");
    v["findings"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|k| Known {
            property: k["property"].as_str().unwrap_or_default().into(),
            kind: k["kind"].as_str().unwrap_or_default().into(),
            what: k["what"].as_str().unwrap_or_default().into(),
        })
        .collect()
}
