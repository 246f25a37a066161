//! Which executions decide which property, and what is reported.
use crate::case::{self, Case, Rng};
use crate::check::{self, Group, Kind, Verdict};
use crate::exec;
use crate::oracle::{Report, BORDER_STEPS};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Kinds of workload a check draws its executions from, with weights.
type Mix = &'static [(&'static str, usize)];

pub struct Property {
    pub id: &'static str,
    /// oracles whose findings refute the property
    pub tags: &'static [&'static [&'static str]],
    pub mix: Mix,
    pub quick: usize,
    pub thorough: usize,
    pub width: usize,
    /// what an execution must have shown to count as non-trivial
    pub nontrivial: &'static str,
}

const GENERAL: Mix = &[
    ("ordinary", 400), ("hostile", 120), ("exact", 200), ("small", 100), ("longquery", 50), ("coarse", 50), ("wide", 50), ("file", 30),
    ("explain", 30), ("large", 15), ("huge", 2), ("heavy", 2), ("few", 30), ("extreme", 40), ("cluster", 30), ("clustersmall", 20),
];
const CLUSTER: Mix = &[("cluster", 50), ("clusterhostile", 16), ("clusterexact", 14), ("clustersmall", 10), ("clusterwide", 12)];

/// Everything up to the scores.
const STAGES: &[&str] = &[
    "rows", "range", "phase", "reference", "pca", "rotation", "points", "segments", "selfcorrection", "transitions",
    "intersections", "clustering", "nodes", "edges", "weights", "degrees", "final", "shape", "returned",
];

pub const PROPERTIES: &[Property] = &[
    Property { id: "P01", tags: &[&["shape", "returned"]], mix: &[("ordinary", 300), ("hostile", 160), ("exact", 160), ("small", 100), ("longquery", 100), ("degenerate", 70), ("coarse", 40), ("file", 40), ("wide", 40), ("few", 30), ("extreme", 30), ("explain", 30), ("large", 10), ("huge", 2), ("heavy", 2), ("cluster", 30), ("clustersmall", 20)], quick: 2200, thorough: 20000, width: 12, nontrivial: "shape" },
    Property { id: "P02", tags: &[&["end"]], mix: &[("ordinary", 180), ("hostile", 140), ("exact", 160), ("small", 160), ("longquery", 70), ("degenerate", 80), ("coarse", 40), ("explain", 70), ("file", 50), ("wide", 60), ("few", 40), ("extreme", 40), ("large", 10), ("huge", 2), ("heavy", 2), ("cluster", 30), ("clustersmall", 20)], quick: 2200, thorough: 20000, width: 12, nontrivial: "end" },
    Property { id: "P03", tags: &[&["final", "weights", "degrees", "edges", "shape", "returned"]], mix: GENERAL, quick: 2200, thorough: 20000, width: 12, nontrivial: "final" },
    Property { id: "P04", tags: &[&["threads", "end"], STAGES], mix: &[("threads", 80), ("threadssmall", 20)], quick: 900, thorough: 6000, width: 12, nontrivial: "threads" },
    Property { id: "P05", tags: &[&["repeat", "end"], STAGES], mix: &[("repeat", 80), ("together", 20)], quick: 500, thorough: 5000, width: 12, nontrivial: "repeat" },
    Property { id: "P06", tags: &[&["rows", "range", "phase", "reference"]], mix: GENERAL, quick: 2200, thorough: 20000, width: 12, nontrivial: "phase" },
    Property { id: "P07", tags: &[&["pca"]], mix: GENERAL, quick: 2200, thorough: 20000, width: 12, nontrivial: "pca" },
    Property { id: "P08", tags: &[&["rotation", "points", "segments"]], mix: GENERAL, quick: 2200, thorough: 20000, width: 12, nontrivial: "points" },
    Property { id: "P09", tags: &[&["transitions"]], mix: GENERAL, quick: 2200, thorough: 20000, width: 12, nontrivial: "transitions" },
    Property { id: "P10", tags: &[&["selfcorrection"]], mix: &[("correction", 53), ("correctiontie", 40), ("correctioncluster", 4), ("correctionclustertie", 3)], quick: 2200, thorough: 20000, width: 12, nontrivial: "selfcorrection" },
    Property { id: "P11", tags: &[&["intersections"]], mix: GENERAL, quick: 2200, thorough: 20000, width: 12, nontrivial: "intersections" },
    Property { id: "P12", tags: &[&["clustering"]], mix: GENERAL, quick: 2200, thorough: 20000, width: 12, nontrivial: "clustering" },
    Property { id: "P13", tags: &[&["nodes", "edges"]], mix: GENERAL, quick: 2200, thorough: 20000, width: 12, nontrivial: "edges" },
    Property { id: "P14", tags: &[&["weights", "degrees"]], mix: GENERAL, quick: 2200, thorough: 20000, width: 12, nontrivial: "weights" },
    Property { id: "P15", tags: &[&["input", "rows", "range", "phase", "reference", "shape"]], mix: &[("input", 100)], quick: 1500, thorough: 8000, width: 12, nontrivial: "input" },
    Property { id: "P16", tags: &[&["scorefile", "returned"]], mix: &[("ordinary", 45), ("hostile", 15), ("file", 24), ("repeat", 9), ("explain", 4), ("cluster", 3)], quick: 2000, thorough: 16000, width: 12, nontrivial: "scorefile" },
    Property { id: "P17", tags: &[&["explain"]], mix: &[("explain", 85), ("explainexact", 15)], quick: 2200, thorough: 18000, width: 12, nontrivial: "explain" },
    Property { id: "P18", tags: &[&["input", "rows", "range", "phase", "reference", "pca", "rotation", "points", "segments"]], mix: CLUSTER, quick: 400, thorough: 3000, width: 24, nontrivial: "points" },
    Property { id: "P19", tags: &[&["selfcorrection", "transitions", "intersections", "clustering", "nodes", "edges", "weights", "degrees"]], mix: CLUSTER, quick: 400, thorough: 3000, width: 24, nontrivial: "edges" },
    Property { id: "P20", tags: &[&["agreement", "scorefile"], STAGES], mix: CLUSTER, quick: 400, thorough: 3000, width: 24, nontrivial: "agreement" },
    Property { id: "P21", tags: &[&["end", "schedule", "agreement"], STAGES], mix: &[("schedule", 100)], quick: 120, thorough: 1000, width: 24, nontrivial: "schedule" },
    Property { id: "P22", tags: &[&["program", "end", "shape"]], mix: &[("program", 84), ("programcluster", 14), ("declined", 2)], quick: 500, thorough: 6000, width: 12, nontrivial: "program" },
    Property { id: "P28", tags: &[&["memory", "end"]], mix: &[("ordinary", 20), ("hostile", 15), ("exact", 10), ("small", 15), ("longquery", 10), ("threads", 5), ("threadssmall", 5), ("degenerate", 5), ("coarse", 4), ("explain", 10), ("file", 5), ("wide", 4), ("few", 4), ("extreme", 4), ("large", 1), ("repeat", 3), ("together", 3), ("program", 4), ("cluster", 8), ("clustersmall", 5), ("correctioncluster", 3)], quick: 500, thorough: 10000, width: 12, nontrivial: "memory" },
    Property { id: "P25", tags: &[&["refused"]], mix: &[("bad", 100)], quick: 2000, thorough: 20000, width: 12, nontrivial: "refused" },
    Property { id: "P26", tags: &[&["crash"]], mix: &[("crash", 100)], quick: 250, thorough: 2000, width: 24, nontrivial: "crash" },
    Property { id: "P27", tags: &[&["unwritten"]], mix: &[("unwritten", 100)], quick: 800, thorough: 10000, width: 12, nontrivial: "unwritten" },
    Property { id: "P24", tags: &[&["leftovers", "end"]], mix: &[("leftovers", 100)], quick: 200, thorough: 3000, width: 12, nontrivial: "leftovers" },
];

impl Property {
    fn tags(&self) -> impl Iterator<Item = &'static str> {
        // an analysis that ends without a result has not the right one either
        self.tags.iter().flat_map(|t| t.iter().copied()).chain(if self.tags[0].contains(&"end") { None } else { Some("end") })
    }
}

fn one(c: Case) -> Group {
    Group { kind: Kind::Single, cases: vec![c] }
}

fn delays(r: &mut Rng, p: f64) -> u64 {
    if r.chance(p) {
        (r.next() >> 12).max(1)
    } else {
        0
    }
}

fn small(r: &mut Rng, name: String) -> Case {
    let mut c = case::ordinary(r, name, 800);
    c.pattern = r.int(4, 40);
    c.latent = r.int(1, c.pattern - 3);
    let w = c.pattern - c.latent;
    c.data.rows = c.pattern - 1 + r.int(w.max(8), 120);
    c.query = r.int(1, ((c.windows() - 1) / 2).max(1));
    c.threads = r.int(1, 8);
    if r.chance(0.3) {
        c.data.family = r.pick(case::HOSTILE).to_string();
    }
    c
}

fn hostile(r: &mut Rng, name: String) -> Case {
    let mut c = case::ordinary(r, name, 1200);
    c.data.family = r.pick(case::HOSTILE).to_string();
    c.data.scale = *r.pick(&[1.0, 1.0, 1e-4, 1e-2, 1e4]);
    c.data.offset = *r.pick(&[0.0, 0.0, 10.0, -100.0]);
    c
}

fn exact(r: &mut Rng, name: String) -> Case {
    let mut c = if r.chance(0.5) { case::ordinary(r, name, 700) } else { small(r, name) };
    c.data.family = r.pick(case::EXACT).to_string();
    c.data.scale = 1.0;
    c.data.offset = *r.pick(&[0.0, 0.0, 0.0, 1.0, -2.0]);
    c.rate = if r.chance(0.5) { *r.pick(&[4, 5, 6, 8, 12, 16, 24, 36, 64, 100]) } else { c.rate };
    c
}

/// Parameters beyond what is usual.
fn wide(r: &mut Rng, name: String) -> Case {
    let mut c = case::ordinary(r, name, 900);
    match r.int(0, 3) {
        0 => {
            c.threads = r.int(1, 6);
            c.data.cols = if r.chance(0.7) { r.int(5, 12) } else { r.int(13, 40) };
            if r.chance(0.06) {
                c.data.cols = r.int(100, 300);
                c.pattern = c.pattern.min(20);
                c.latent = c.pattern - r.int(3, 6);
                c.data.rows = c.pattern + r.int(40, 120);
                c.query = r.int(1, c.windows() / 2);
            }
        }
        1 => c.rate = r.int(161, 1200),
        2 => c.threads = r.int(9, 40),
        _ => {
            c.pattern = if r.chance(0.8) { r.int(60, 200) } else { r.int(200, 700) };
            let width = if r.chance(0.5) { 3 } else { r.int(3, 70.min(c.pattern - 1)) };
            c.latent = c.pattern - width;
            c.data.rows = c.pattern * 3 + r.int(100, 600);
            c.query = r.int(1, c.windows() / 2);
        }
    }
    c
}

fn file(r: &mut Rng, name: String) -> Case {
    let mut c = if r.chance(0.7) { case::ordinary(r, name, 700) } else { hostile(r, name) };
    c.mode = "file".into();
    c.data.cols = r.int(1, 5);
    c.column_start = r.int(0, c.data.cols - 1);
    let left = c.data.cols - c.column_start;
    c.column_end = match r.int(0, 2) {
        0 => 0,
        1 => r.int(c.column_start + 1, c.data.cols) as i64,
        _ => -(r.int(0, left - 1) as i64),
    };
    c.csv_style = r.int(0, 10);
    c.junk = r.chance(0.4);
    c
}

fn cluster(r: &mut Rng, name: String) -> Case {
    let mut c = case::ordinary(r, name, 1300);
    c.mode = "file".into();
    c.nodes = *r.pick(&[2, 2, 3, 3, 4]);
    c.data.rows = c.data.rows.max(110 * c.nodes + 60);
    c.threads = r.int(1, 4);
    // every node is in charge of a segment
    c.rate = if r.chance(0.15) { r.int(c.nodes, 2 * c.nodes + 4) } else { c.rate.max(2 * c.nodes + 4) };
    // the last node's share must hold a pattern; the query may cover several shares
    let share = c.data.rows / c.nodes;
    c.query = match r.int(0, 9) {
        0 | 1 => r.int(share - c.pattern, c.windows() - 1),
        2 => (c.windows() - 1 - r.int(0, 12)).max(1),
        _ => c.query.min(share - c.pattern - 5).max(1),
    };
    c.delay_seed = delays(r, 0.6);
    c.uneven = r.chance(0.3);
    c.rush = r.chance(0.4);
    c.pauses = delays(r, 0.4);
    if r.chance(0.3) {
        c.csv_style = r.int(0, 10);
    }
    if r.chance(0.2) {
        c.data.cols = r.int(2, 5);
        c.column_start = r.int(0, c.data.cols - 1);
        let left = c.data.cols - c.column_start;
        c.column_end = if r.chance(0.5) { r.int(c.column_start + 1, c.data.cols) as i64 } else { -(r.int(0, left - 1) as i64) };
        c.junk = r.chance(0.4);
    }
    c
}

pub fn group(kind: &str, r: &mut Rng, name: String) -> Group {
    match kind {
        "ordinary" => one(case::ordinary(r, name, 1500)),
        "exact" => one(exact(r, name)),
        "few" => {
            let mut c = match r.int(0, 2) {
                0 => small(r, name),
                1 => exact(r, name),
                _ => case::ordinary(r, name, 600),
            };
            c.rate = r.int(1, 3);
            one(c)
        }
        "extreme" => {
            let mut c = if r.chance(0.5) { case::ordinary(r, name, 600) } else { hostile(r, name) };
            let e = r.range(3.0, 16.5);
            c.data.scale = 10f64.powf(if r.chance(0.5) { e } else { -e });
            c.data.offset = 0.0;
            one(c)
        }
        "large" => {
            let mut c = case::ordinary(r, name, 1500);
            c.data.rows = r.int(3000, 9000);
            if r.chance(0.3) {
                c.query = r.int(120, 1500);
            }
            one(c)
        }
        // more than 65536 rows
        "huge" => {
            let mut c = case::ordinary(r, name, 1500);
            c.data.rows = r.int(66_000, 70_000);
            c.data.cols = 1;
            c.pattern = r.int(6, 16);
            c.latent = c.pattern - r.int(4, 6).min(c.pattern - 1);
            one(c)
        }
        // edges that are passed more than 65536 times
        "heavy" => {
            let mut c = case::ordinary(r, name, 1500);
            c.data.family = "cycle".into();
            c.data.rows = 4 * 65_536 + r.int(100, 5000);
            c.data.cols = 1;
            c.pattern = r.int(5, 7);
            c.latent = r.int(1, c.pattern - 3);
            c.rate = r.int(4, 9);
            c.query = r.int(1, 100);
            one(c)
        }
        "wide" => one(wide(r, name)),
        "hostile" => one(hostile(r, name)),
        "small" => one(small(r, name)),
        "degenerate" => {
            let mut c = case::ordinary(r, name, 500);
            c.data.family = r.pick(case::DEGENERATE).to_string();
            if r.chance(0.2) {
                c.data.family = "noisy".into();
                c.latent = 0;
                c.pattern = c.pattern.min(40);
            }
            one(c)
        }
        "longquery" => {
            let mut c = case::ordinary(r, name, 500);
            c.query = (c.windows() - 1 - r.int(0, 24)).max(1);
            one(c)
        }
        "coarse" => {
            let mut c = case::ordinary(r, name, 900);
            c.rate = r.int(4, 11);
            c.data.family = r.pick(&["noisy", "walk", "square", "spikes"]).to_string();
            one(c)
        }
        "correction" => {
            let mut c = if r.chance(0.75) { case::ordinary(r, name, 900) } else { hostile(r, name) };
            c.self_correction = r.chance(0.85);
            c.data.reverse = r.chance(0.5);
            one(c)
        }
        "explain" => {
            let mut c = match r.int(0, 9) {
                0 => small(r, name),
                1 | 2 => hostile(r, name),
                _ => case::ordinary(r, name, 900),
            };
            c.explain = true;
            if r.chance(0.3) {
                c.mode = "file".into();
            }
            one(c)
        }
        "file" => one(file(r, name)),
        "input" => {
            let mut c = file(r, name);
            c.threads = 1;
            let mut whole = c.clone();
            whole.mode = "array".into();
            whole.keep = true;
            Group { kind: Kind::Input, cases: vec![whole, c] }
        }
        "repeat" => {
            let mut c = match r.int(0, 9) {
                0 => small(r, name),
                1 | 2 => hostile(r, name),
                _ => case::ordinary(r, name, 700),
            };
            c.explain = r.chance(0.2);
            if r.chance(0.7) {
                c.threads = 1;
            }
            let mut again = c.clone();
            again.repeat = r.int(2, 3);
            again.delay_seed = delays(r, 0.3);
            if r.chance(0.7) {
                // another analysis in between: similar, or something else altogether
                let mut b = if r.chance(0.5) { case::ordinary(r, "between".into(), 700) } else { c.clone() };
                b.data.seed = r.next() >> 12;
                b.explain = r.chance(0.2);
                b.threads = r.int(1, 4);
                again.between = Some(Box::new(b));
            }
            if r.chance(0.25) {
                again.refit = true;
                if again.between.is_some() {
                    // the parameters belong to the object
                    let mut other = again.clone();
                    other.between = None;
                    other.data.seed = r.next() >> 12;
                    other.data.rows += r.int(0, 100);
                    again.between = Some(Box::new(other));
                }
            }
            Group { kind: Kind::Repeat, cases: vec![c, again] }
        }
        "together" => {
            let mut c = if r.chance(0.2) { small(r, name) } else { case::ordinary(r, name, 700) };
            c.threads = 1;
            c.delay_seed = 0;
            let mut b = if r.chance(0.5) { case::ordinary(r, "other".into(), 700) } else { c.clone() };
            b.data.seed = r.next() >> 12;
            b.threads = 1;
            b.delay_seed = 0;
            c.explain = r.chance(0.2);
            let mut both = c.clone();
            both.between = Some(Box::new(b.clone()));
            both.together = true;
            both.delay_seed = delays(r, 0.5);
            Group { kind: Kind::Together, cases: vec![c, b, both] }
        }
        "bad" => {
            let mut c = match r.int(0, 19) {
                0..=4 => case::ordinary(r, name, 500),
                5..=9 => small(r, name),
                10 => cluster(r, name),
                _ => file(r, name),
            };
            let anyway = ["nan", "inf", "rows", "query", "latent", "zero"];
            let of_file = ["text", "nothing", "shortrow", "longrow", "missing", "emptyfile", "norows", "columns", "nopath"];
            let of_cluster = ["nan", "inf", "rate", "rows", "query", "text", "nothing", "shortrow", "longrow", "missing", "columns", "nopath"];
            c.defect = if c.nodes > 1 {
                r.pick(&of_cluster)
            } else if c.mode == "file" && r.chance(0.6) {
                r.pick(&of_file)
            } else {
                r.pick(&anyway)
            }
            .to_string();
            c.name = format!("{} {}", c.name, c.defect);
            match c.defect.as_str() {
                // of a cluster: too few for the last node's share
                "rows" if c.nodes > 1 => c.data.rows = c.nodes * r.int(1, c.pattern - c.nodes) + r.int(0, c.nodes - 1),
                "rows" => c.data.rows = r.int(1, c.pattern - 1),
                "rate" => c.rate = r.int(0, c.nodes - 1),
                "query" => c.query = c.windows() + if r.chance(0.5) { 0 } else { r.int(0, 300) },
                "latent" => c.latent = c.pattern - 2 + r.int(0, 2) + if r.chance(0.3) { r.int(0, 50) } else { 0 },
                "zero" => match r.int(0, 3) {
                    0 => c.rate = 0,
                    1 => c.query = 0,
                    2 => c.threads = 0,
                    _ => c.pattern = 0,
                },
                "columns" => match r.int(0, 3) {
                    0 => {
                        c.column_start = c.data.cols + r.int(0, 2);
                        c.column_end = 0;
                    }
                    1 => c.column_end = (c.data.cols + r.int(1, 3)) as i64,
                    2 => c.column_end = -((c.data.cols - c.column_start + r.int(0, c.column_start)) as i64),
                    _ => c.column_end = -((c.data.cols + r.int(1, 3)) as i64),
                },
                "shortrow" | "nothing" => {
                    c.data.cols = c.data.cols.max(2);
                    c.junk = false;
                }
                _ => {}
            }
            Group { kind: Kind::Bad, cases: vec![c] }
        }
        "unwritten" => {
            let longest = if r.chance(0.3) { 3000 } else { 500 };
            let mut c = match r.int(0, 19) {
                0..=6 => case::ordinary(r, name, longest),
                7..=8 => small(r, name),
                9..=10 => cluster(r, name),
                _ => file(r, name),
            };
            c.explain = c.nodes == 1 && r.chance(0.5);
            c.defect = if c.explain && r.chance(0.5) {
                "fullcontribution"
            } else {
                r.pick(&["full", "full", "full", "unwritable", "directory"])
            }
            .to_string();
            c.name = format!("{} {}", c.name, c.defect);
            Group { kind: Kind::Bad, cases: vec![c] }
        }
        "leftovers" => {
            let mut c = match r.int(0, 9) {
                0 => small(r, name),
                1 => hostile(r, name),
                2 => wide(r, name),
                3..=5 => file(r, name),
                _ => case::ordinary(r, name, 700),
            };
            c.explain = r.chance(0.3);
            c.self_correction = r.chance(0.3);
            c.leftovers = true;
            c.repeat = r.int(6, 14);
            c.delay_seed = 0;
            Group { kind: Kind::Leftovers, cases: vec![c] }
        }
        "crash" => {
            let mut c = cluster(r, name);
            c.data.rows = c.data.rows.min(110 * c.nodes + 300);
            let share = c.data.rows / c.nodes;
            c.query = c.query.min(share - c.pattern - 5).max(1);
            let node = r.int(0, c.nodes - 1);
            let at = match r.int(0, 3) {
                0 => 1000 + r.int(0, 800),
                1 => r.int(0, 120),
                _ => r.int(0, 8),
            };
            c.crash = Some((node, at));
            Group { kind: Kind::Crash, cases: vec![c] }
        }
        "program" => {
            let mut c = file(r, name);
            c.threads = if r.chance(0.1) { 8 } else { 1 };
            c.delay_seed = 0;
            c.explain = r.chance(0.3);
            // what is left out must have its documented value
            c.data.rows = c.data.rows.max(260);
            if r.chance(0.4) {
                c.pattern = 50;
                c.latent = c.latent.min(c.pattern - 4);
            }
            if r.chance(0.4) && c.pattern > 20 {
                c.latent = 16;
            }
            if r.chance(0.4) {
                c.rate = 100;
            }
            if r.chance(0.4) {
                c.query = 75;
            }
            let mut whole = c.clone();
            whole.mode = "array".into();
            whole.keep = true;
            c.mode = "cli".into();
            c.cli_style = (r.next() >> 12).max(1);
            Group { kind: Kind::Program, cases: vec![whole, c] }
        }
        "programcluster" => {
            let mut c = cluster(r, name);
            c.mode = "cli".into();
            c.delay_seed = 0;
            c.cli_style = (r.next() >> 12).max(1);
            Group { kind: Kind::Program, cases: vec![c] }
        }
        "declined" => {
            let mut c = cluster(r, name);
            c.mode = "cli".into();
            c.explain = true;
            Group { kind: Kind::Refused, cases: vec![c] }
        }
        "threads" | "threadssmall" => {
            let mut c = if kind == "threads" {
                if r.chance(0.8) { case::ordinary(r, name, 900) } else { hostile(r, name) }
            } else {
                small(r, name)
            };
            c.threads = 1;
            c.delay_seed = 0;
            let mut cases = vec![c.clone()];
            for _ in 0..2 {
                let mut d = c.clone();
                d.threads = if r.chance(0.9) { r.int(2, 12) } else { r.int(13, 40) };
                d.delay_seed = delays(r, 0.5);
                cases.push(d);
            }
            Group { kind: Kind::Threads, cases }
        }
        "cluster" => one(cluster(r, name)),
        "clusterhostile" => {
            let mut c = cluster(r, name);
            c.data.family = r.pick(case::HOSTILE).to_string();
            c.data.scale = *r.pick(&[1.0, 1.0, 1e-2, 1e2]);
            one(c)
        }
        "clusterexact" => {
            let mut c = cluster(r, name);
            c.data.family = r.pick(case::EXACT).to_string();
            c.data.scale = 1.0;
            c.data.offset = *r.pick(&[0.0, 0.0, 1.0]);
            one(c)
        }
        "explainexact" => {
            let mut c = exact(r, name);
            c.explain = true;
            one(c)
        }
        "clusterwide" => {
            let mut c = cluster(r, name);
            match r.int(0, 2) {
                0 => {
                    c.nodes = *r.pick(&[5, 5, 6, 6, 7, 8]);
                    c.data.rows = c.data.rows.max(110 * c.nodes + 60);
                    c.rate = c.rate.max(c.nodes);
                }
                1 => c.rate = r.int(161, 700),
                _ => {
                    c.threads = r.int(5, 12);
                    c.data.cols = r.int(1, 7);
                    c.column_start = 0;
                    c.column_end = 0;
                    c.junk = false;
                }
            }
            one(c)
        }
        // as many steps forward as backward, or nearly so
        "correctiontie" => {
            let mut c = small(r, name);
            c.data.family = r.pick(&["white", "white", "noisy", "walk"]).to_string();
            c.data.rows = c.pattern - 1 + r.int(8.max(c.pattern - c.latent), 50);
            c.query = r.int(1, ((c.windows() - 1) / 2).max(1));
            c.rate = r.int(4, 24);
            c.self_correction = r.chance(0.95);
            one(c)
        }
        "correctionclustertie" => {
            let mut c = cluster(r, name);
            c.nodes = r.int(2, 4);
            c.pattern = r.int(4, 8);
            c.latent = c.pattern - 3;
            c.data.family = "white".into();
            c.data.rows = c.nodes * r.int(c.pattern + 6, c.pattern + 16) + r.int(0, c.nodes - 1);
            c.query = r.int(1, (c.data.rows / c.nodes - c.pattern - 5).max(1));
            c.self_correction = true;
            one(c)
        }
        "correctioncluster" => {
            let mut c = cluster(r, name);
            c.self_correction = r.chance(0.85);
            c.data.reverse = r.chance(0.5);
            one(c)
        }
        "clustersmall" => {
            let mut c = cluster(r, name);
            c.pattern = r.int(5, 15);
            c.latent = r.int(1, c.pattern - 3);
            let share = if r.chance(0.7) { r.int(c.pattern + 15, 60) } else { r.int(c.pattern, c.pattern + 15) };
            c.data.rows = c.nodes * share + r.int(0, c.nodes - 1);
            let longest = if r.chance(0.7) { (share - c.pattern).max(1) } else { c.windows() - 1 };
            c.query = r.int(1, longest);
            one(c)
        }
        "schedule" => {
            let mut c = cluster(r, name);
            let mut cases = vec![];
            for i in 0..3 {
                c.delay_seed = if i == 0 { 0 } else { (r.next() >> 12).max(1) };
                c.pauses = if i == 0 { 0 } else { delays(r, 0.6) };
                c.rush = i > 0 && r.chance(0.5);
                c.long_pause = if i > 0 && r.chance(0.15) { r.int(1000, 8000) as u64 } else { 0 };
                cases.push(c.clone());
            }
            Group { kind: Kind::Schedule, cases }
        }
        other => panic!("unknown workload {}", other),
    }
}

fn draw(mix: Mix, r: &mut Rng, i: usize) -> (&'static str, Group) {
    let total: usize = mix.iter().map(|m| m.1).sum();
    let mut x = r.int(0, total - 1);
    for (k, w) in mix {
        if x < *w {
            let mut g = group(k, r, format!("{}-{}", k, i));
            if g.kind != Kind::Refused && g.kind != Kind::Bad {
                let layout = if r.chance(0.3) { r.int(1, 3) } else { 0 };
                // another layout means another order of summation
                let layout = if matches!(g.kind, Kind::Input | Kind::Program | Kind::Together) { 0 } else { layout };
                for c in g.cases.iter_mut() {
                    c.stale = g.kind != Kind::Crash && r.chance(0.3);
                    c.layout = layout;
                    c.silent = c.mode == "array" && g.kind == Kind::Single && r.chance(0.1);
                }
            }
            return (k, g);
        }
        x -= w;
    }
    unreachable!()
}

fn verif() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Total {
    rep: Report,
    runs: u64,
    events: u64,
    groups: u64,
    nontrivial: u64,
    inconclusive: Vec<String>,
    orders: BTreeSet<u64>,
    results: BTreeSet<u64>,
    kinds: BTreeMap<&'static str, u64>,
    bad: Vec<(Group, Vec<String>)>,
    /// the known finding showed
    border: bool,
}

/// Whether a finding is listed in the file of known findings.
fn known(id: &str, key: &str) -> bool {
    let start = format!("finding: property={} {} ", id, key);
    std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default().lines().any(|l| l.starts_with(&start))
}

/// An execution that shows the known finding 'border-steps'.
fn border_steps() -> Group {
    let mut r = Rng::new(1);
    let mut c = cluster(&mut r, "border-steps".into());
    c.data = case::Data { family: "white".into(), seed: 4221785976373064, rows: 32, cols: 2, scale: 1.0, offset: 3.0, reverse: false };
    (c.pattern, c.latent, c.rate, c.query, c.threads, c.nodes) = (6, 3, 65, 2, 4, 2);
    c.self_correction = true;
    c.delay_seed = 0;
    one(c)
}

fn failures(p: &Property, v: &Verdict) -> Vec<String> {
    let mut out = vec![];
    for t in p.tags() {
        if let Some(s) = v.rep.stages.get(t) {
            out.extend(s.fails.iter().map(|f| format!("{}: {}", t, f)));
        }
    }
    out
}

fn explore(p: &Property, groups: &[(&'static str, Group)], cap: Duration) -> Total {
    let total = Mutex::new(Total {
        rep: Report::default(),
        runs: 0,
        events: 0,
        groups: 0,
        nontrivial: 0,
        inconclusive: vec![],
        orders: BTreeSet::new(),
        results: BTreeSet::new(),
        kinds: BTreeMap::new(),
        bad: vec![],
        border: false,
    });
    let start = Instant::now();
    exec::parallel(groups, p.width, start + cap, |_, (kind, g)| {
        if total.lock().unwrap().bad.len() >= 3 {
            return;
        }
        let v = check::evaluate(g);
        let mut fails = failures(p, &v);
        let mut t = total.lock().unwrap();
        t.runs += v.runs;
        t.events += v.events;
        t.groups += 1;
        let before = t.results.len();
        t.results.extend(v.results.iter());
        if t.results.len() > before && v.rep.stages.get(p.nontrivial).map(|s| s.evals > 0).unwrap_or(false) {
            t.nontrivial += 1;
        }
        t.rep.merge(&v.rep);
        t.inconclusive.extend(v.inconclusive);
        t.orders.extend(v.orders);
        *t.kinds.entry(kind).or_default() += 1;
        if v.rep.classes.contains_key(BORDER_STEPS) {
            if p.id == "P10" || p.id == "P20" {
                t.border = true;
            }
            if !known("P10", "border-steps") {
                fails.push("the vote on self-correction leaves out the steps between two cluster nodes' shares".to_string());
            }
        }
        if !fails.is_empty() {
            t.bad.push((g.clone(), fails));
        }
    });
    total.into_inner().unwrap()
}

pub fn check(id: &str, tier: &str) -> i32 {
    let p = match PROPERTIES.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let n = if tier == "thorough" { p.thorough } else { p.quick };
    let cap = Duration::from_secs(if tier == "thorough" { 3000 } else { 200 });
    let start = Instant::now();
    let prop = id[1..].parse::<u64>().unwrap_or(0);
    let mut groups: Vec<(&'static str, Group)> = (0..n)
        .map(|i| draw(p.mix, &mut Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(prop * 7_777_777).wrapping_add(i as u64 * 31)), i))
        .collect();
    if id == "P10" || id == "P20" {
        groups.push(("known-finding", border_steps()));
    }
    if id == "P28" && !(exec::sanitized() && exec::canary_found()) {
        eprintln!("the address sanitizer is not at work");
        return 2;
    }
    let t = explore(p, &groups, cap);

    let mut stages = serde_json::Map::new();
    for (k, s) in &t.rep.stages {
        if p.tags().any(|t| t == *k) {
            stages.insert(k.to_string(), json!({"evaluations": s.evals, "undecided_by_rounding": s.ambiguous, "largest_deviation_in_tolerances": s.worst}));
        }
    }
    let samples: Vec<_> = groups.iter().take(3).map(|g| json!(g.1)).collect();
    let evidence = json!({
        "property": id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial,
            "rule": format!("Groups of executions of the real code drawn at random from the workloads listed under 'workloads' (data family, size, channels, pattern, latent, rate, query, threads, delays, cluster nodes are all random). Non-trivial: the oracle '{}' was evaluated on it, and its scores differ from those of every group before.", p.nontrivial),
            "samples": samples,
            "groups": t.groups,
            "planned_groups": n,
            "events_observed": t.events,
            "oracles": stages,
            "behaviour_classes": t.rep.classes,
            "workloads": t.kinds,
            "distinct_stage_interleavings": t.orders.len(),
            "distinct_results": t.results.len(),
            "inconclusive_executions": t.inconclusive.len(),
        },
        "assumptions": ["The observation points of the feature 'verif' report the state the code continues with."],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": t.bad.len(),
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&evidence).unwrap()) {
        eprintln!("cannot write the evidence: {}", e);
        return 2;
    }

    println!(
        "{} {}: {} executions in {} groups, {} events, {} non-trivial, {} inconclusive, {:.0} s",
        id, tier, t.runs, t.groups, t.events, t.nontrivial, t.inconclusive.len(), start.elapsed().as_secs_f64()
    );
    if t.border && known("P10", "border-steps") {
        println!("KNOWN-FINDING: property={} the vote on self-correction of a distributed analysis leaves out the steps between two cluster nodes' shares", id);
    }
    if !t.bad.is_empty() {
        let rdir = verif().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        for (i, (g, fails)) in t.bad.iter().enumerate() {
            let path = rdir.join(format!("{}-{}.json", id, i));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": id, "group": g, "observed": fails})).unwrap());
            for f in fails.iter().take(3) {
                println!("  {}", f);
            }
            println!("VIOLATION property={} replay={}", id, path.display());
        }
        return 1;
    }
    for i in t.inconclusive.iter().take(3) {
        eprintln!("inconclusive: {}", i);
    }
    if t.nontrivial == 0 || t.inconclusive.len() as u64 * 5 > t.runs {
        eprintln!("too little was observed to say anything");
        return 2;
    }
    0
}

/// Writes the series of a reported violation to a file and tells the parameters.
pub fn data(file: &str, csv: &str) -> i32 {
    let saved: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("no such file")).expect("no replay");
    let group: Group = serde_json::from_value(saved["group"].clone()).expect("no replay");
    let c = group.cases.last().unwrap();
    crate::child::write_csv(c, std::path::Path::new(csv));
    println!(
        "--pattern-length {} --latent {} --rate {} --query-length {} --threads {}{} (nodes {}, columns {}..{})",
        c.pattern, c.latent, c.rate, c.query, c.threads, if c.self_correction { " --self-correction" } else { "" }, c.nodes, c.column_start, c.column_end
    );
    0
}

pub fn replay(path: &str) -> i32 {
    let v: serde_json::Value = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => return 2,
    };
    let id = v["property"].as_str().unwrap_or("").to_string();
    let g: Group = match serde_json::from_value(v["group"].clone()) {
        Ok(g) => g,
        Err(_) => return 2,
    };
    let p = match PROPERTIES.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => return 2,
    };
    let fails = failures(p, &check::evaluate(&g));
    for f in &fails {
        println!("{}", f);
    }
    if fails.is_empty() {
        println!("held on this execution");
        0
    } else {
        println!("VIOLATION property={} replay={}", id, path);
        1
    }
}

fn show(total: &Report) {
    for (k, s) in &total.stages {
        println!("{:16} evals {:10} ambiguous {:8} worst {:.3} fails {}", k, s.evals, s.ambiguous, s.worst, s.fails.len());
    }
    println!("{:?}", total.classes);
}

fn all(groups: &[Group], width: usize) -> i32 {
    let res = exec::parallel(groups, width, Instant::now() + Duration::from_secs(36000), |_, g| check::evaluate(g));
    let mut total = Report::default();
    let mut orders = BTreeSet::new();
    for (g, v) in groups.iter().zip(res) {
        let v = v.unwrap();
        for (k, s) in &v.rep.stages {
            if let Some(f) = s.fails.first() {
                println!("FAIL {} {}\n   {}", k, f, serde_json::to_string(g).unwrap());
            }
        }
        if v.rep.classes.contains_key(BORDER_STEPS) {
            println!("FINDING {}", serde_json::to_string(g).unwrap());
        }
        if v.rep.classes.contains_key("rounding-decides") {
            println!("ROUNDING {}", serde_json::to_string(g).unwrap());
        }
        for i in v.inconclusive {
            println!("INCONCLUSIVE {}", i);
        }
        orders.extend(v.orders);
        total.merge(&v.rep);
    }
    show(&total);
    println!("{} interleavings", orders.len());
    0
}

/// Development: every oracle on the cases of a file, one per line.
pub fn cases(path: &str, width: usize) -> i32 {
    let groups: Vec<Group> = std::fs::read_to_string(path).unwrap().lines().map(|l| one(serde_json::from_str(l).unwrap())).collect();
    all(&groups, width)
}

/// Development: every oracle on a workload.
pub fn try_mix(kind: &str, n: usize, seed: u64) -> i32 {
    let groups: Vec<Group> = (0..n).map(|i| group(kind, &mut Rng::new(seed * 1_000_000 + i as u64), format!("{}-{}", kind, i))).collect();
    let width = if kind.starts_with("cluster") || kind == "crash" || kind == "schedule" { 14 } else { 8 };
    all(&groups, width)
}

/// Development: a little of every workload, until the first finding.
pub fn survey(seed: u64) -> i32 {
    const ALL: Mix = &[
        ("ordinary", 30), ("hostile", 15), ("small", 12), ("longquery", 6), ("coarse", 6), ("wide", 6), ("degenerate", 4),
        ("file", 6), ("explain", 12), ("large", 2), ("correction", 8), ("correctiontie", 10), ("input", 12), ("repeat", 8),
        ("together", 4), ("program", 10), ("threads", 6), ("threadssmall", 5), ("cluster", 14), ("clusterhostile", 6),
        ("clustersmall", 8), ("clusterwide", 4), ("correctioncluster", 3), ("correctionclustertie", 4), ("schedule", 3),
        ("programcluster", 4), ("declined", 1),
    ];
    let mut groups: Vec<(&'static str, Group)> = vec![];
    for (k, n) in ALL {
        for i in 0..*n {
            groups.push((k, group(k, &mut Rng::new(seed * 1_000_000 + i as u64), format!("{}-{}", k, i))));
        }
    }
    let found: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
    exec::parallel(&groups, 10, Instant::now() + Duration::from_secs(400), |_, (k, g)| {
        if !found.lock().unwrap().is_empty() {
            return;
        }
        let v = check::evaluate(g);
        for (t, s) in &v.rep.stages {
            if let Some(f) = s.fails.first() {
                found.lock().unwrap().insert(format!("{} {}: {}", k, t, f.chars().take(160).collect::<String>()));
            }
        }
    });
    let found = found.into_inner().unwrap();
    for f in &found {
        println!("{}", f);
    }
    !found.is_empty() as i32
}
