//! vx: mechanical extractor. Reads a unit spec (contracts) and /repo sources, emits one Verus file
//! made of the *current* source text of the selected items with contracts spliced in, plus a JSON map.
mod spec;
mod extract;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // vx <unit.vspec> <repo root> <out.rs> <out.map.json>
    let specpath = PathBuf::from(&a[1]);
    let unit = spec::parse(&specpath);
    let out = extract::run(&unit, &PathBuf::from(&a[2]));
    std::fs::write(&a[3], &out.text).unwrap();
    std::fs::write(&a[4], serde_json::to_string_pretty(&out.map).unwrap()).unwrap();
}
