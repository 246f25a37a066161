//! Turns a group of executions into verdicts: stage oracles on every execution, comparisons
//! between the executions of a group, and what ended abnormally.
use crate::case::Case;
use crate::exec::{self, NodeRun, Outcome, Run};
use crate::obs::*;
use crate::oracle::{self, Report};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::time::Duration;

/// Executions that belong together.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Group {
    pub kind: Kind,
    pub cases: Vec<Case>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    /// every execution for itself
    Single,
    /// the same analysis with different numbers of threads and delays
    Threads,
    /// several analyses in one process and the first one again in a process of its own
    Repeat,
    /// the first execution gets the columns as an array, the others from a file
    Input,
    /// the same distributed analysis under different schedules
    Schedule,
    /// the first execution uses the library, the others the command line program
    Program,
    /// the command line program must decline the request
    Refused,
    /// the first executions each have a process of their own, the last one has them all at once
    Together,
    /// what cannot be analysed
    Bad,
    /// a cluster node is killed
    Crash,
    /// one analysis again and again in one process, and what that leaves behind
    Leftovers,
}

#[derive(Default)]
pub struct Verdict {
    pub rep: Report,
    pub runs: u64,
    pub events: u64,
    /// executions that say nothing: the harness failed or the time limit ran out while working
    pub inconclusive: Vec<String>,
    /// identifies behaviour: the order of the stages over all processes, or the result
    pub orders: BTreeSet<u64>,
    pub results: BTreeSet<u64>,
}

pub fn hash(bytes: impl IntoIterator<Item = u8>) -> u64 {
    bytes.into_iter().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x1000_0000_01b3))
}

/// `obs`: one per cluster node, of the same analysis.
pub fn stages(case: &Case, obs: &[&Obs]) -> Report {
    let mut rep = Report::default();
    if obs.len() != case.nodes {
        return rep;
    }
    let ids: BTreeSet<usize> = obs.iter().map(|o| o.node).collect();
    if ids.len() != case.nodes || ids.iter().any(|i| *i >= case.nodes) {
        // also if a node reported nothing before the analysis ended abnormally
        return rep;
    }
    let mut obs: Vec<&Obs> = obs.to_vec();
    obs.sort_by_key(|o| o.node);
    let obs = &obs[..];
    let ph = oracle::check_data(case, obs, &mut rep);
    if let Some(ph) = &ph {
        oracle::check_pca(obs, ph, &mut rep);
        oracle::check_rotation(case, obs, ph, &mut rep);
    }
    let pts = match oracle::global_points(case, obs, &mut rep) {
        Some(p) => p,
        None => return rep,
    };
    oracle::check_self_correction(case, obs, &pts, &mut rep);
    let trans = match oracle::check_transitions(case, obs, &pts, &mut rep) {
        Some(t) => t,
        None => return rep,
    };
    oracle::check_intersections(case, obs, &trans, &mut rep);
    oracle::check_clustering(case, obs, &mut rep);
    oracle::check_nodes(case, obs, &mut rep);
    let chain = oracle::expected_chain(case, obs, &trans);
    if let Some(chain) = &chain {
        oracle::check_edges(case, obs, chain, &mut rep);
    }
    // what the scoring really used, so that a deviation is reported where it arises
    let path = if case.nodes == 1 { obs[0].scoring_edges.clone() } else { chain };
    if let Some(path) = &path {
        oracle::check_graph(case, obs, path, &mut rep);
        for o in obs {
            if let Some(s) = o.score.as_ref().or(o.returned.as_ref()) {
                oracle::check_final(case, s, path, &mut rep);
            }
        }
    }
    if case.nodes > 1 {
        let all: Vec<&Vec<f32>> = obs.iter().filter_map(|o| o.score.as_ref()).collect();
        if all.len() == case.nodes {
            for s in &all {
                rep.ok("agreement", bits(s) == bits(all[0]), || "cluster nodes report different scores".to_string());
            }
        }
    }
    rep
}

pub fn bits(s: &[f32]) -> Vec<u32> {
    s.iter().map(|x| x.to_bits()).collect()
}

fn parse_scores(file: &[u8]) -> Option<Vec<f32>> {
    String::from_utf8_lossy(file).lines().map(|l| l.trim().parse::<f32>().ok()).collect()
}

/// The stage that was to come when an execution ended.
fn next_stage(case: &Case, obs: Option<&Obs>) -> &'static str {
    let o = match obs {
        Some(o) => o,
        None => return "input",
    };
    if o.score.is_some() {
        return "scorefile";
    }
    if o.raw.is_some() {
        return if case.explain { "explain" } else { "final" };
    }
    if o.weights.is_some() {
        return "final";
    }
    if o.transposed.is_some() {
        return "weights";
    }
    if o.edges.is_some() {
        return "weights";
    }
    if o.nodes.is_some() {
        return "edges";
    }
    if o.inters.is_some() && o.order.iter().any(|e| e == "intersections_done") {
        return "clustering";
    }
    if o.transitions.is_some() {
        return "intersections";
    }
    if o.points.is_some() {
        return if case.self_correction { "selfcorrection" } else { "transitions" };
    }
    if o.matrix.is_some() {
        return "points";
    }
    if o.data.is_some() {
        return if o.pca.len() >= case.used_columns().len() { "rotation" } else { "pca" };
    }
    "phase"
}

pub fn limit() -> Duration {
    Duration::from_secs(150)
}

/// An execution with an abnormal end is repeated: only what happens again is the code's doing.
fn observe(case: &Case, v: &mut Verdict) -> Option<(Run, Vec<Vec<Obs>>)> {
    let mut why = vec![];
    for _ in 0..3 {
        let r = exec::run(case, limit());
        let per: Vec<Vec<Obs>> = r.nodes.iter().map(|n| parse(&n.events).unwrap_or_default()).collect();
        v.runs += 1;
        v.events += r.nodes.iter().map(|n| n.events.len() as u64).sum::<u64>();
        let bad = match &r.outcome {
            Outcome::Finished => {
                v.rep.s("end").evals += 1;
                if exec::sanitized() {
                    v.rep.s("memory").evals += 1;
                }
                return Some((r, per));
            }
            Outcome::Panicked(p) => Some(("crash", p.clone())),
            Outcome::Sanitizer(s) => Some(("wrong memory access", s.clone())),
            Outcome::Killed(s) => Some(("crash", format!("ended by signal {}", s))),
            Outcome::Memory(m) => Some(("crash", format!("stopped when it took {} kB of memory", m))),
            Outcome::TimedOut if r.idle => Some(("hang", "every process waits, none makes progress".to_string())),
            Outcome::TimedOut => None,
            Outcome::Harness(_) => None,
        };
        match bad {
            None => {
                v.inconclusive.push(format!("{:?}: {}", r.outcome, serde_json::to_string(case).unwrap()));
                return None;
            }
            Some((what, msg)) => {
                // a panic is a fact; that nothing moves any more must show again, and so must an
                // end by a signal, which may have come from outside
                let sure = matches!(r.outcome, Outcome::Panicked(_) | Outcome::Sanitizer(_)) || why.iter().any(|w| *w == what);
                if sure {
                    let worst = per.iter().map(|p| next_stage(case, p.last())).min_by_key(|s| rank(s)).unwrap_or("input");
                    let msg = format!("{} before '{}' was complete: {}", what, worst, msg.trim());
                    let m2 = msg.clone();
                    let tag = if matches!(r.outcome, Outcome::Sanitizer(_)) { "memory" } else { "end" };
                    v.rep.ok(tag, false, move || m2);
                    v.rep.ok(worst, false, move || msg);
                    return Some((r, per));
                }
                why.push(what);
            }
        }
    }
    v.inconclusive.push(format!("varying ends {:?}: {}", why, serde_json::to_string(case).unwrap()));
    None
}

fn rank(s: &str) -> usize {
    [
        "input", "phase", "pca", "rotation", "points", "selfcorrection", "transitions", "intersections", "clustering",
        "edges", "weights", "final", "explain", "scorefile",
    ]
    .iter()
    .position(|x| *x == s)
    .unwrap_or(99)
}

/// All checks on one execution. Returns the scores of each analysis in the execution.
fn single(case: &Case, v: &mut Verdict) -> Option<Vec<Vec<f32>>> {
    let (r, per) = observe(case, v)?;
    let finished = r.outcome == Outcome::Finished;
    let analyses = if case.nodes > 1 { 1 } else { per.first().map(|p| p.len()).unwrap_or(0) };
    let sequence = case.sequence();
    let mut scores = vec![];
    for i in 0..analyses {
        let o: Vec<&Obs> = per.iter().filter_map(|p| p.get(i)).collect();
        let case = match sequence.get(i) {
            Some(c) => *c,
            None => break,
        };
        let rep = stages(case, &o);
        v.rep.merge(&rep);
        let last = i + 1 == analyses;
        for (obs, node) in o.iter().zip(&r.nodes) {
            let s = if case.mode == "array" { &obs.returned } else { &obs.score };
            match s {
                Some(s) => {
                    oracle::check_shape(case, s, &mut v.rep);
                    if case.mode == "array" {
                        if let Some(t) = &obs.score {
                            v.rep.ok("returned", bits(s) == bits(t), || "the returned scores are not the computed ones".to_string());
                        }
                    }
                    if last && finished {
                        files(case, obs, s, node, &mut v.rep);
                    }
                    v.results.insert(hash(s.iter().flat_map(|x| x.to_le_bytes())));
                }
                None if finished => {
                    v.rep.ok("end", false, || "the analysis ended without scores".to_string());
                }
                None => {}
            }
        }
        if let Some(s) = o.first().and_then(|o| if case.mode == "array" { o.returned.clone() } else { o.score.clone() }) {
            scores.push(s);
        }
    }
    let expected = sequence.len();
    if finished {
        v.rep.ok("end", analyses == expected, || format!("{} of {} analyses took place", analyses, expected));
        if scores.len() != expected {
            return None;
        }
        v.orders.insert(order_hash(&r.nodes));
        Some(scores)
    } else {
        None
    }
}

/// The order in which the processes reached their stages.
fn order_hash(nodes: &[NodeRun]) -> u64 {
    let mut all: Vec<(u64, usize, &str)> = vec![];
    for (i, n) in nodes.iter().enumerate() {
        for e in &n.events {
            if let Ok((_, t)) = e.u("time") {
                all.push((t[0], i, &e.name));
            }
        }
    }
    all.sort();
    hash(all.iter().flat_map(|(_, i, n)| [*i as u8, b':'].into_iter().chain(n.bytes())))
}

fn files(case: &Case, obs: &Obs, s: &[f32], node: &NodeRun, rep: &mut Report) {
    if case.silent && !case.stale {
        rep.ok("scorefile", node.score_file.is_none(), || "a score file was written that nobody asked for".to_string());
    }
    match &node.score_file {
        _ if case.silent => {}
        Some(f) => match parse_scores(f) {
            Some(t) => {
                rep.ok("scorefile", bits(&t) == bits(s), || {
                    let i = t.iter().zip(s).position(|(a, b)| a != b);
                    format!("score file has {} lines for {} scores; first difference {:?}", t.len(), s.len(), i.map(|i| (i, t[i], s[i])))
                });
                rep.s("scorefile").evals += t.len() as u64;
            }
            None => {
                rep.ok("scorefile", false, || "the score file has a line that is not a number".to_string());
            }
        },
        None => {
            rep.ok("scorefile", false, || "no score file".to_string());
        }
    }
    if case.explain {
        match &node.contribution_file {
            Some(f) => oracle::check_explain(case, obs, f, rep),
            None => {
                rep.ok("explain", false, || "no file of contributions".to_string());
            }
        }
    }
}

fn max_diff(a: &[f32], b: &[f32]) -> f64 {
    if a.len() != b.len() {
        return f64::INFINITY;
    }
    a.iter().zip(b).map(|(x, y)| (*x as f64 - *y as f64).abs()).fold(0.0, f64::max)
}

/// An analysis with something wrong in its input, or whose results cannot be written.
fn refused(c: &Case, v: &mut Verdict) {
    let unwritten = ["full", "fullcontribution", "unwritable", "directory"].contains(&c.defect.as_str());
    let tag = if unwritten { "unwritten" } else { "refused" };
    let r = exec::run(c, limit());
    v.runs += 1;
    v.events += r.nodes.iter().map(|n| n.events.len() as u64).sum::<u64>();
    let left: Vec<usize> = (0..c.nodes).filter(|i| r.codes.get(*i).copied().flatten().is_none()).collect();
    let written = !unwritten && r.nodes.iter().any(|n| n.score_file.is_some());
    match &r.outcome {
        Outcome::Harness(o) => v.inconclusive.push(o.clone()),
        _ if !left.is_empty() && r.idle => {
            v.rep.ok(tag, false, || format!("nodes {:?} neither end nor report '{}'", left, c.defect));
        }
        Outcome::Panicked(_) | Outcome::Sanitizer(_) | Outcome::Killed(_) | Outcome::Memory(_) => {
            v.rep.ok(tag, !written, || format!("scores were written in spite of '{}'", c.defect));
            v.results.insert(hash(c.name.bytes()));
        }
        Outcome::Finished => {
            let error = r.nodes.iter().any(|n| n.events.iter().any(|e| e.name == "returned_error"));
            v.rep.ok(tag, error && !written, || format!("the analysis succeeded in spite of '{}'", c.defect));
        }
        o => v.inconclusive.push(format!("{:?}", o)),
    }
    v.rep.class(if c.nodes > 1 { "wrong-on-a-cluster" } else { "wrong-on-one-node" }, 1);
}

/// The other nodes of a cluster of which one was killed.
fn crash(case: &Case, v: &mut Verdict) {
    let (dead, at) = case.crash.unwrap_or((0, 0));
    for attempt in 0..2 {
        let r = exec::run(case, limit());
        v.runs += 1;
        v.events += r.nodes.iter().map(|n| n.events.len() as u64).sum::<u64>();
        if r.codes.get(dead).copied().flatten() != Some(-exec::SIGKILL) && r.outcome == Outcome::Finished {
            v.rep.class("killed-too-late", 1);
        }
        match &r.outcome {
            Outcome::TimedOut if r.idle => {
                let left: Vec<usize> = (0..case.nodes).filter(|i| r.codes[*i].is_none()).collect();
                // a cluster that is not complete yet may wait for the node to be started again
                if left.iter().any(|i| !r.nodes[*i].events.iter().any(|e| e.name == "data")) {
                    v.rep.class("crash-before-cluster-complete", 1);
                    return;
                }
                if attempt == 0 {
                    continue;
                }
                v.rep.ok("crash", false, || format!("node {} died at {}, and nodes {:?} wait for ever", dead, at, left));
            }
            Outcome::Finished | Outcome::Panicked(_) => {
                let rest: Vec<usize> = (0..case.nodes).filter(|i| *i != dead).collect();
                let with: Vec<&Vec<u8>> = rest.iter().filter_map(|i| r.nodes[*i].score_file.as_ref()).collect();
                v.rep.ok("crash", with.windows(2).all(|w| w[0] == w[1]), || "after a node died, the others wrote different scores".to_string());
                for f in &with {
                    let n = parse_scores(f).map(|s| s.len());
                    v.rep.ok("crash", n == Some(case.score_len()), || format!("after a node died, another one wrote {:?} of {} scores", n, case.score_len()));
                }
                v.rep.class(if with.is_empty() { "crash-without-scores" } else { "crash-with-scores" }, 1);
                v.rep.class(if matches!(r.outcome, Outcome::Panicked(_)) { "crash-others-panic" } else { "crash-others-end" }, 1);
                v.results.insert(hash(format!("{} {}", case.name, at).bytes()));
                let seen: Vec<String> = r.nodes.iter().map(|n| format!("{}", n.events.len())).collect();
                v.orders.insert(hash(seen.join(" ").bytes()));
            }
            o => v.inconclusive.push(format!("{:?}", o)),
        }
        return;
    }
}

pub fn evaluate(g: &Group) -> Verdict {
    let mut v = Verdict::default();
    match g.kind {
        Kind::Single => {
            for c in &g.cases {
                single(c, &mut v);
            }
        }
        Kind::Threads | Kind::Schedule => {
            let tag = if g.kind == Kind::Threads { "threads" } else { "schedule" };
            let all: Vec<Option<Vec<Vec<f32>>>> = g.cases.iter().map(|c| single(c, &mut v)).collect();
            if let Some(Some(first)) = all.first() {
                for s in all.iter().skip(1).flatten() {
                    let d = max_diff(&first[0], &s[0]);
                    v.rep.class(if d < 1e-3 { "same-scores" } else { "rounding-decides" }, 1);
                    v.rep.ok(tag, first[0].len() == s[0].len(), || format!("{} scores or {} scores", first[0].len(), s[0].len()));
                }
            }
        }
        Kind::Program => {
            let mut seen: Vec<(&Case, Vec<NodeRun>)> = vec![];
            for c in &g.cases {
                match observe(c, &mut v) {
                    Some((r, _)) if r.outcome == Outcome::Finished => seen.push((c, r.nodes)),
                    _ => return v,
                }
            }
            for (c, nodes) in &seen {
                let first = nodes[0].score_file.clone();
                for n in nodes {
                    let s = n.score_file.as_ref().and_then(|f| parse_scores(f));
                    if v.rep.ok("program", s.is_some(), || "no readable score file".to_string()) {
                        let s = s.unwrap();
                        oracle::check_shape(c, &s, &mut v.rep);
                        v.results.insert(hash(s.iter().flat_map(|x| x.to_le_bytes())));
                    }
                    v.rep.ok("program", n.score_file == first, || "the cluster nodes wrote different scores".to_string());
                }
            }
            for (c, nodes) in seen.iter().skip(1) {
                if c.nodes > 1 || c.threads > 1 {
                    // not the same order of summation
                    v.rep.class("program-not-compared", 1);
                    continue;
                }
                let (a, b) = (&seen[0].1[0], &nodes[0]);
                v.rep.ok("program", a.score_file == b.score_file, || {
                    let p = |n: &NodeRun| n.score_file.as_ref().and_then(|f| parse_scores(f)).unwrap_or_default();
                    format!("the program's scores differ from the library's by up to {}", max_diff(&p(a), &p(b)))
                });
                v.rep.ok("program", a.contribution_file == b.contribution_file, || "the program's contributions differ from the library's".to_string());
                v.rep.class("program-compared", 1);
            }
        }
        Kind::Refused => {
            for c in &g.cases {
                let r = exec::run(c, limit());
                v.runs += 1;
                match r.outcome {
                    Outcome::Panicked(_) => {
                        v.rep.ok("program", true, String::new);
                        v.rep.ok("program", r.nodes.iter().all(|n| n.score_file.is_none()), || "declined after writing scores".to_string());
                        v.rep.class("declined", 1);
                    }
                    Outcome::Finished | Outcome::TimedOut => {
                        v.rep.ok("program", false, || "contributions of a distributed analysis were not declined".to_string());
                    }
                    o => v.inconclusive.push(format!("{:?}", o)),
                }
            }
        }
        Kind::Bad => {
            for c in &g.cases {
                refused(c, &mut v);
            }
        }
        Kind::Crash => {
            for c in &g.cases {
                crash(c, &mut v);
            }
        }
        Kind::Leftovers => {
            for c in &g.cases {
                if let Some((r, _)) = observe(c, &mut v) {
                    if r.outcome == Outcome::Finished {
                        oracle::check_leftovers(&r.nodes[0].events, &mut v.rep);
                        v.results.insert(hash(r.nodes[0].score_file.iter().flatten().copied()));
                    }
                }
            }
        }
        Kind::Together => {
            let all: Vec<Option<Vec<Vec<f32>>>> = g.cases.iter().map(|c| single(c, &mut v)).collect();
            if all.iter().any(|a| a.is_none()) {
                return v;
            }
            let all: Vec<Vec<Vec<f32>>> = all.into_iter().flatten().collect();
            let n = all.len() - 1;
            let alone: Vec<&Vec<f32>> = all[..n].iter().map(|a| &a[0]).collect();
            // the last execution reports the other analysis first
            for (s, i) in all[n].iter().zip([1, 0]) {
                v.rep.ok("repeat", bits(s) == bits(alone[i]), || {
                    format!("an analysis differs by up to {} if another one runs at the same time", max_diff(alone[i], s))
                });
                v.rep.class("together", 1);
            }
        }
        Kind::Repeat => {
            let all: Vec<Option<Vec<Vec<f32>>>> = g.cases.iter().map(|c| single(c, &mut v)).collect();
            let flat: Vec<&Vec<f32>> = all
                .iter()
                .zip(&g.cases)
                .filter_map(|(a, c)| a.as_ref().map(|a| (a, c)))
                .flat_map(|(a, c)| {
                    let other = if c.between.is_some() { c.repeat - 1 } else { usize::MAX };
                    a.iter().enumerate().filter(move |(i, _)| *i != other).map(|(_, s)| s)
                })
                .collect();
            if let Some(first) = flat.first() {
                let exact = g.cases.iter().all(|c| c.threads == 1);
                for (i, s) in flat.iter().enumerate().skip(1) {
                    if exact {
                        v.rep.ok("repeat", bits(s) == bits(first), || {
                            format!("analysis {} of the same input differs from the first by up to {}", i, max_diff(first, s))
                        });
                    } else {
                        v.rep.class(if max_diff(first, s) < 1e-3 { "same-scores" } else { "rounding-decides" }, 1);
                        v.rep.s("repeat").evals += 1;
                    }
                }
            }
        }
        Kind::Input => {
            let all: Vec<Option<Vec<Vec<f32>>>> = g.cases.iter().map(|c| single(c, &mut v)).collect();
            if let Some(Some(first)) = all.first() {
                for (c, s) in g.cases.iter().zip(&all).skip(1) {
                    if let Some(s) = s {
                        v.rep.ok("input", bits(&s[0]) == bits(&first[0]), || {
                            format!("columns {:?} of the file give scores that differ from those of the same data by up to {}", c.used_columns(), max_diff(&first[0], &s[0]))
                        });
                    }
                }
            }
        }
    }
    v
}
