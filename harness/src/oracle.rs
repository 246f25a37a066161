//! Stage-wise reference: every stage's observed output is compared with an independent
//! double-precision computation from that stage's observed input. Where rounding decides a
//! discrete outcome (a point on a segment boundary, two equally near peaks), every outcome that
//! rounding could produce is accepted and counted as ambiguous.
use crate::case::Case;
use crate::linalg;
use crate::obs::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::f64::consts::PI;

const EPS: f64 = 1.2e-7;

/// The known finding that the vote on self-correction leaves out the steps between cluster nodes.
pub const BORDER_STEPS: &str = "finding-border-steps";

#[derive(Default, Clone)]
pub struct Stage {
    pub evals: u64,
    pub ambiguous: u64,
    pub worst: f64,
    pub fails: Vec<String>,
}

#[derive(Default, Clone)]
pub struct Report {
    pub stages: BTreeMap<&'static str, Stage>,
    /// behaviour classes seen, e.g. "wrap", "empty-window"
    pub classes: BTreeMap<&'static str, u64>,
}

impl Report {
    pub fn s(&mut self, stage: &'static str) -> &mut Stage {
        self.stages.entry(stage).or_default()
    }
    pub fn class(&mut self, c: &'static str, n: u64) {
        if n > 0 {
            *self.classes.entry(c).or_default() += n;
        }
    }
    pub fn ok(&mut self, stage: &'static str, good: bool, msg: impl FnOnce() -> String) -> bool {
        let s = self.s(stage);
        s.evals += 1;
        if !good && s.fails.len() < 5 {
            s.fails.push(msg());
        }
        good
    }
    /// difference must not exceed the tolerance
    pub fn close(
        &mut self,
        stage: &'static str,
        got: f64,
        want: f64,
        tol: f64,
        what: impl FnOnce() -> String,
    ) -> bool {
        let ratio = (got - want).abs() / tol.max(1e-300);
        let bad = !(ratio <= 1.0);
        {
            let s = self.s(stage);
            s.evals += 1;
            if ratio > s.worst {
                s.worst = ratio;
            }
            if bad && s.fails.len() < 5 {
                s.fails.push(format!(
                    "{}: observed {} expected {} (tolerance {:.3e})",
                    what(),
                    got,
                    want,
                    tol
                ));
            }
        }
        !bad
    }
    pub fn ambiguous(&mut self, stage: &'static str) {
        self.s(stage).ambiguous += 1;
    }
    pub fn merge(&mut self, other: &Report) {
        for (k, v) in &other.stages {
            let s = self.s(k);
            s.evals += v.evals;
            s.ambiguous += v.ambiguous;
            s.worst = s.worst.max(v.worst);
            s.fails.extend(v.fails.iter().cloned());
        }
        for (k, v) in &other.classes {
            *self.classes.entry(k).or_default() += v;
        }
    }
}

fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

/// The phase space of all cluster nodes as observed, checked against the input.
pub struct Phase {
    pub rows: usize,
    pub width: usize,
    pub dims: usize,
    /// [row][width][dim]
    pub x: Vec<f32>,
}

/// Rows of the input at which node `i`'s share of windows starts and how many it has.
pub fn share(case: &Case, i: usize) -> (usize, usize) {
    let per = case.data.rows / case.nodes;
    let start = per * i;
    let len = if i + 1 < case.nodes {
        per
    } else {
        case.windows() - start
    };
    (start, len)
}

pub fn check_data(case: &Case, obs: &[&Obs], rep: &mut Report) -> Option<Phase> {
    let (data, n, d) = case.used_data();
    let width = case.pattern - case.latent;
    let windows = case.windows();
    let mut all = Phase { rows: windows, width, dims: d, x: vec![f32::NAN; windows * width * d] };
    let mut complete = true;
    for o in obs {
        let e = match &o.data {
            Some(e) => e,
            None => {
                complete = false;
                continue;
            }
        };
        let (start, len) = share(case, o.node);
        if let Ok(nn) = e.u1("n") {
            rep.ok("rows", nn == n, || {
                format!("node {}: the analysis assumes {} rows, the input has {}", o.node, nn, n)
            });
        }
        if let (Ok((_, min)), Ok((_, max))) = (e.f("min"), e.f("max")) {
            for c in 0..d {
                let col: Vec<f32> = (0..n).map(|r| data[r * d + c]).collect();
                let lo = col.iter().cloned().fold(f32::INFINITY, f32::min);
                let hi = col.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
                rep.ok("range", min.get(c) == Some(&lo) && max.get(c) == Some(&hi), || {
                    format!("node {} column {}: observed range {:?}..{:?}, input has {}..{}", o.node, c, min.get(c), max.get(c), lo, hi)
                });
            }
        }
        if let Ok((shape, x)) = e.f("phase_space") {
            if !rep.ok("phase", shape == [len, width, d], || {
                format!("node {}: embedding has shape {:?}, expected {:?}", o.node, shape, [len, width, d])
            }) {
                return None;
            }
            for i in 0..len {
                for j in 0..width {
                    for c in 0..d {
                        let got = x[(i * width + j) * d + c];
                        let (mut sum, mut mag) = (0.0f64, 0.0f64);
                        for t in 0..case.latent {
                            let v = data[(start + i + j + t) * d + c] as f64;
                            sum += v;
                            mag += v.abs();
                        }
                        rep.close("phase", got as f64, sum, 4.0 * EPS * (case.latent as f64).sqrt() * mag + 1e-30, || {
                            format!("embedded value of window {} offset {} column {}", start + i, j, c)
                        });
                        all.x[((start + i) * width + j) * d + c] = got;
                    }
                }
            }
        } else {
            complete = false;
        }
        if let Ok((shape, x)) = e.f("data_ref") {
            if rep.ok("reference", shape.len() == 3 && shape[1] == width && shape[2] == d && shape[0] >= 2, || {
                format!("reference curve has shape {:?}", shape)
            }) {
                let m = shape[0];
                for i in 0..m {
                    for c in 0..d {
                        let col: Vec<f32> = (0..n).map(|r| data[r * d + c]).collect();
                        let lo = col.iter().cloned().fold(f32::INFINITY, f32::min) as f64;
                        let hi = col.iter().cloned().fold(f32::NEG_INFINITY, f32::max) as f64;
                        let want = case.latent as f64 * (lo + (hi - lo) * i as f64 / (m - 1) as f64);
                        let tol = (20.0 + 2.0 * case.latent as f64) * EPS * case.latent as f64 * (lo.abs() + hi.abs()) + 1e-30;
                        for j in 0..width {
                            rep.close("reference", x[(i * width + j) * d + c] as f64, want, tol, || {
                                format!("reference curve sample {} offset {} column {}", i, j, c)
                            });
                        }
                        if i > 2 && i + 2 < m {
                            break;
                        }
                    }
                }
            }
        }
    }
    if !complete || all.x.iter().any(|x| x.is_nan()) {
        return None;
    }
    Some(all)
}

pub fn check_pca(obs: &[&Obs], ph: &Phase, rep: &mut Report) {
    let (n, w, d) = (ph.rows, ph.width, ph.dims);
    for k in 0..d {
        let x: Vec<f64> = (0..n * w).map(|i| ph.x[i * d + k] as f64).collect();
        let mean: Vec<f64> = (0..w)
            .map(|j| (0..n).map(|i| x[i * w + j]).sum::<f64>() / n as f64)
            .collect();
        let amax = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        let mut cov = vec![vec![0.0; w]; w];
        for i in 0..n {
            let row = &x[i * w..(i + 1) * w];
            for a in 0..w {
                let xa = row[a] - mean[a];
                for b in a..w {
                    cov[a][b] += xa * (row[b] - mean[b]);
                }
            }
        }
        for a in 0..w {
            for b in 0..a {
                cov[a][b] = cov[b][a];
            }
        }
        let (val, vec) = linalg::eigen(cov.clone());
        let sig: Vec<f64> = val.iter().map(|v| v.max(0.0).sqrt()).collect();
        let noise = 8.0 * EPS * amax * ((n * w) as f64).sqrt() + 50.0 * EPS * sig[0] * (w as f64).sqrt();
        // single-precision sums over all windows: the error grows with their number
        let tol = 1e-4 * sig[0] + 10.0 * noise + 0.3 * n as f64 * EPS * sig[0];
        for o in obs {
            let e = match o.pca.get(k) {
                Some(e) => e,
                None => continue,
            };
            let (shape, c) = match e.f("components") {
                Ok(c) => c,
                Err(_) => continue,
            };
            if !rep.ok("pca", shape == [3, w], || format!("column {}: components have shape {:?}", k, shape)) {
                continue;
            }
            let mt = (1e-5 + n as f64 * EPS * 0.5) * amax + 1e-30;
            if let Ok((_, m)) = e.f("means") {
                for j in 0..w {
                    rep.close("pca", m.get(j).copied().unwrap_or(f32::NAN) as f64, mean[j], mt, || {
                        format!("node {} column {}: mean of offset {}", o.node, k, j)
                    });
                }
            }
            let comp: Vec<Vec<f64>> = c.chunks(w).map(|r| r.iter().map(|x| *x as f64).collect()).collect();
            for a in 0..3 {
                for b in 0..=a {
                    let want = if a == b { 1.0 } else { 0.0 };
                    rep.close("pca", dot(&comp[a], &comp[b]), want, 1e-3, || {
                        format!("node {} column {}: inner product of components {} and {}", o.node, k, a, b)
                    });
                }
                if comp[a][0] > -1e-4 && comp[a][0] < 0.0 {
                    rep.ambiguous("pca");
                } else {
                    rep.ok("pca", comp[a][0] >= 0.0, || {
                        format!("node {} column {}: component {} is not sign-normalised ({})", o.node, k, a, comp[a][0])
                    });
                }
                let q: f64 = (0..w).map(|r| comp[a][r] * dot(&cov[r], &comp[a])).sum();
                rep.close("pca", q.max(0.0).sqrt(), sig[a], tol, || {
                    format!("node {} column {}: deviation along component {}", o.node, k, a)
                });
                let gap_up = if a == 0 { f64::INFINITY } else { sig[a - 1] - sig[a] };
                let gap_dn = if a + 1 < w { sig[a] - sig[a + 1] } else { f64::INFINITY };
                let gap = gap_up.min(gap_dn);
                if gap > 100.0 * noise && gap > 3e-3 * sig[0] {
                    rep.close("pca", dot(&comp[a], &vec[a]).abs(), 1.0, 1e-3, || {
                        format!("node {} column {}: alignment of component {} with the principal axis", o.node, k, a)
                    });
                } else {
                    rep.ambiguous("pca");
                }
            }
        }
    }
}

fn mat(e: &crate::events::Ev) -> Option<(usize, Vec<[[f64; 3]; 3]>)> {
    let (s, m) = e.f("matrix").ok()?;
    if s.len() != 3 || s[0] != 3 || s[1] != 3 {
        return None;
    }
    let d = s[2];
    Some((
        d,
        (0..d)
            .map(|k| {
                let mut r = [[0.0; 3]; 3];
                for (a, row) in r.iter_mut().enumerate() {
                    for (b, v) in row.iter_mut().enumerate() {
                        *v = m[(a * 3 + b) * d + k] as f64;
                    }
                }
                r
            })
            .collect(),
    ))
}

pub fn check_rotation(case: &Case, obs: &[&Obs], ph: &Phase, rep: &mut Report) {
    let (w, d) = (ph.width, ph.dims);
    for o in obs {
        let (m, mats) = match o.matrix.as_ref().and_then(mat) {
            Some(x) => x,
            None => continue,
        };
        if !rep.ok("rotation", m == d, || format!("rotation for {} columns, expected {}", m, d)) {
            continue;
        }
        if o.pca.len() < d {
            continue;
        }
        let ref_ = o.data.as_ref().and_then(|e| e.f("data_ref").ok());
        let mut proj: Vec<(Vec<Vec<f64>>, Vec<f64>)> = vec![];
        for k in 0..d {
            let c = o.pca[k].f("components").map(|x| x.1.to_vec()).unwrap_or_default();
            let mu = o.pca[k].f("means").map(|x| x.1.to_vec()).unwrap_or_default();
            if c.len() != 3 * w || mu.len() != w {
                return;
            }
            proj.push((
                c.chunks(w).map(|r| r.iter().map(|x| *x as f64).collect()).collect(),
                mu.iter().map(|x| *x as f64).collect(),
            ));
        }
        for k in 0..d {
            let r = &mats[k];
            if let Some((_, x)) = ref_ {
                let (c, mu) = &proj[k];
                let diff: Vec<f64> = (0..w).map(|j| x[j * d + k] as f64 - mu[j]).collect();
                let amax = (0..w).fold(0.0f64, |a, j| a.max((x[j * d + k] as f64).abs()).max(mu[j].abs()));
                let a: Vec<f64> = c.iter().map(|c| dot(c, &diff)).collect();
                let na = norm(&a);
                let err = EPS * amax * (w as f64).sqrt() * 4.0 / na.max(1e-300);
                let a: Vec<f64> = a.iter().map(|x| x / na).collect();
                let cos = a[2];
                let sin2 = (1.0 - cos * cos).max(0.0);
                let tol = 1e-4 + (50.0 * EPS + 10.0 * err) / sin2.max(1e-12);
                if !(tol < 0.05) {
                    rep.ambiguous("rotation");
                } else {
                    for p in 0..3 {
                        for q in 0..=p {
                            let want = if p == q { 1.0 } else { 0.0 };
                            rep.close("rotation", dot(&r[p], &r[q]), want, 2.0 * tol, || {
                                format!("column {}: rows {} and {} of the rotation", k, p, q)
                            });
                        }
                        let want = if p == 2 { 1.0 } else { 0.0 };
                        rep.close("rotation", dot(&r[p], &a), want, 2.0 * tol, || {
                            format!("column {}: coordinate {} of the rotated reference direction", k, p)
                        });
                    }
                    rep.close("rotation", r[0][0] + r[1][1] + r[2][2], 1.0 + 2.0 * cos, 3.0 * tol, || {
                        format!("column {}: rotation angle (trace)", k)
                    });
                }
            }
        }
        // projected points
        if let Some(p) = &o.points {
            let (start, len) = share(case, o.node);
            if !rep.ok("points", p.len() == len && p.dims == 2 * d, || {
                format!("node {}: {} points of {} coordinates, expected {} of {}", o.node, p.len(), p.dims, len, 2 * d)
            }) {
                continue;
            }
            let mut scale = vec![(0.0f64, 0.0f64); d];
            for k in 0..d {
                let (_, mu) = &proj[k];
                let amax = (0..ph.rows * w).fold(0.0f64, |a, i| a.max((ph.x[i * d + k] as f64).abs()));
                let rmax = mats[k].iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
                let _ = mu;
                scale[k] = (amax, rmax);
            }
            for i in 0..len {
                rep.ok("points", p.id[i] == start + i, || {
                    format!("node {}: point number {} has id {}, expected {}", o.node, i, p.id[i], start + i)
                });
                let c = p.at(i);
                for k in 0..d {
                    let (comp, mu) = &proj[k];
                    let x: Vec<f64> = (0..w).map(|j| ph.x[((start + i) * w + j) * d + k] as f64 - mu[j]).collect();
                    let red: Vec<f64> = comp.iter().map(|c| dot(c, &x)).collect();
                    let tol = 1e-5 * scale[k].0 * (w as f64).sqrt() * (1.0 + scale[k].1) + 1e-30;
                    for (q, off) in [(0, 0), (1, d)] {
                        rep.close("points", c[off + k] as f64, dot(&mats[k][q], &red), tol, || {
                            format!("coordinate {} of window {} in column {}", q, start + i, k)
                        });
                    }
                }
            }
            check_segments("segments", case, p, rep);
        }
    }
}

/// Every point lies in the angular segment it is assigned to.
pub fn check_segments(stage: &'static str, case: &Case, p: &Points, rep: &mut Report) {
    let rate = case.rate as f64;
    for i in 0..p.len() {
        let (x, y) = (p.at(i)[0] as f64, p.at(i)[1] as f64);
        if !(x * x + y * y > 1e-60) {
            rep.ambiguous(stage);
            continue;
        }
        let u = (2.0 * PI + y.atan2(x)) / (2.0 * PI) * rate;
        let tol = rate * 3e-6 + 1e-5;
        let cand = [(u - tol).floor(), u.floor(), (u + tol).floor()].map(|v| (v as usize) % case.rate);
        if cand[0] != cand[2] {
            rep.ambiguous(stage);
        }
        rep.ok(stage, cand.contains(&p.segment[i]), || {
            format!("point {} at ({}, {}) is put into segment {} of {}, expected {}", p.id[i], x, y, p.segment[i], case.rate, cand[1])
        });
    }
}

fn valid(rate: usize, f: usize, t: usize) -> (bool, bool) {
    let diff = (t + rate - f) % rate;
    (diff != 0, diff <= rate / 2)
}

/// All points after the segmentation, in time order; every node that knows a point must agree.
pub fn global_points(case: &Case, obs: &[&Obs], rep: &mut Report) -> Option<Points> {
    let total = case.windows();
    let mut out = Points { id: (0..total).collect(), segment: vec![usize::MAX; total], dims: 0, coords: vec![] };
    for o in obs {
        let p = o.segmented.as_ref()?;
        if p.len() == 0 {
            continue;
        }
        if out.dims == 0 {
            out.dims = p.dims;
            out.coords = vec![f32::NAN; total * p.dims];
        }
        for i in 0..p.len() {
            let id = p.id[i];
            if !rep.ok("transitions", id < total, || format!("node {} holds a point {} beyond the last one", o.node, id)) {
                return None;
            }
            if out.segment[id] == usize::MAX {
                out.segment[id] = p.segment[i];
                out.coords[id * p.dims..(id + 1) * p.dims].copy_from_slice(p.at(i));
            } else {
                let same = out.segment[id] == p.segment[i] && out.at(id) == p.at(i);
                rep.ok("transitions", same, || format!("cluster nodes disagree about point {}", id));
            }
        }
    }
    if out.segment.iter().any(|s| *s == usize::MAX) {
        return None;
    }
    Some(out)
}

/// Self-correction: mirrored exactly if it is asked for and more steps run against the direction.
pub fn check_self_correction(case: &Case, obs: &[&Obs], after: &Points, rep: &mut Report) {
    let total = case.windows();
    let mut seg = vec![0; total];
    let mut coords: Vec<Vec<f32>> = vec![vec![]; total];
    for o in obs {
        let p = match &o.points {
            Some(p) => p,
            None => return,
        };
        for i in 0..p.len() {
            if p.id[i] >= total {
                return;
            }
            seg[p.id[i]] = p.segment[i];
            coords[p.id[i]] = p.at(i).to_vec();
        }
    }
    if coords.iter().any(|c| c.is_empty()) {
        return;
    }
    // all steps, and those within one cluster node's share
    let (mut good, mut bad, mut good_within, mut bad_within) = (0usize, 0usize, 0usize, 0usize);
    let borders: HashSet<usize> = (1..case.nodes).map(|i| share(case, i).0).collect();
    for i in 1..total {
        let (cross, dir) = valid(case.rate, seg[i - 1], seg[i]);
        if cross && dir {
            good += 1;
        } else if cross {
            bad += 1;
        }
        if cross && !borders.contains(&i) {
            *(if dir { &mut good_within } else { &mut bad_within }) += 1;
        }
    }
    let mut want = case.self_correction && good < bad;
    if case.self_correction && good == bad {
        rep.class("tie", 1);
    }
    if case.self_correction && good.abs_diff(bad) <= 2 {
        rep.class("near-tie", 1);
    }
    if want {
        rep.class("mirrored", 1);
    } else if case.self_correction {
        rep.class("not-mirrored", 1);
    }
    let within = case.self_correction && good_within < bad_within;
    if within != want && (0..total).any(|i| coords[i][0] != 0.0) {
        // known finding: the steps between two nodes' shares are not counted
        let mirrored = (0..total).any(|i| after.at(i)[0] != coords[i][0]);
        if mirrored == within {
            rep.class(BORDER_STEPS, 1);
            want = within;
        }
    }
    for i in 0..total {
        let c = after.at(i);
        let mut w = coords[i].clone();
        if want {
            w[0] = -w[0];
        }
        if !rep.ok("selfcorrection", c == &w[..], || {
            format!(
                "self-correction={} with {} steps along and {} against the direction: point {} was {:?} and is {:?}",
                case.self_correction, good, bad, i, coords[i], c
            )
        }) {
            return;
        }
        if !want {
            rep.ok("selfcorrection", after.segment[i] == seg[i], || format!("segment of point {} changed from {} to {}", i, seg[i], after.segment[i]));
        }
    }
    check_segments("selfcorrection", case, after, rep);
}

pub fn check_transitions(case: &Case, obs: &[&Obs], pts: &Points, rep: &mut Report) -> Option<Vec<Transition>> {
    let total = case.windows();
    let mut want = vec![];
    for i in 1..total {
        let (f, t) = (pts.segment[i - 1], pts.segment[i]);
        let (cross, dir) = valid(case.rate, f, t);
        if cross && dir {
            want.push((i - 1, i, f, t));
            if t < f {
                rep.class("wrap", 1);
                if want.len() == 1 {
                    rep.class("first-step-wraps", 1);
                }
            }
            if (t + case.rate - f) % case.rate > 1 {
                rep.class("multi-segment-step", 1);
            }
            if (t + case.rate - f) % case.rate == case.rate / 2 {
                rep.class("half-turn", 1);
            }
        } else if cross {
            rep.class("backward-step", 1);
        }
    }
    let mut got: Vec<Transition> = vec![];
    for o in obs {
        let t = o.transitions.as_ref()?;
        for x in t {
            if case.nodes > 1 {
                let owner = owner(case, x.from_seg);
                rep.ok("transitions", owner == o.node, || {
                    format!("step {}->{} from segment {} is held by node {}, not {}", x.from, x.to, x.from_seg, o.node, owner)
                });
            }
            got.push(x.clone());
        }
    }
    if case.nodes > 1 {
        got.sort_by_key(|t| t.from);
    }
    let g: Vec<(usize, usize, usize, usize)> = got.iter().map(|t| (t.from, t.to, t.from_seg, t.to_seg)).collect();
    let s = rep.s("transitions");
    s.evals += want.len() as u64;
    if g != want && s.fails.len() < 5 {
        let missing: Vec<_> = want.iter().filter(|x| !g.contains(x)).take(3).collect();
        let extra: Vec<_> = g.iter().filter(|x| !want.contains(x)).take(3).collect();
        let mut seen = HashSet::new();
        let dup: Vec<_> = g.iter().filter(|x| !seen.insert(**x)).take(3).collect();
        s.fails.push(format!(
            "segment-crossing steps (from, to, segment, segment): {} observed, {} expected; missing {:?} extra {:?} repeated {:?}{}",
            g.len(), want.len(), missing, extra, dup,
            if missing.is_empty() && extra.is_empty() && dup.is_empty() { "; order differs" } else { "" }
        ));
    }
    for t in &got {
        if t.from < total && t.to < total {
            let same = pts.at(t.from) == &t.a[..] && pts.at(t.to) == &t.b[..];
            rep.ok("transitions", same, || format!("step {}->{} does not connect the points of these ids", t.from, t.to));
        }
    }
    Some(got)
}

/// The cluster node a segment belongs to.
pub fn owner(case: &Case, segment: usize) -> usize {
    (segment / (case.rate / case.nodes)).min(case.nodes - 1)
}

/// Segment boundaries a step passes, in the order it passes them.
fn passed(case: &Case, f: usize, t: usize) -> Vec<usize> {
    let diff = (t + case.rate - f) % case.rate;
    (1..=diff).map(|l| (f + l) % case.rate).collect()
}

pub fn check_intersections(case: &Case, obs: &[&Obs], trans: &[Transition], rep: &mut Report) {
    let mut want: HashMap<(usize, usize), &Transition> = HashMap::new();
    for t in trans {
        for s in passed(case, t.from_seg, t.to_seg) {
            want.insert((t.from, s), t);
        }
    }
    let maxc = trans
        .iter()
        .flat_map(|t| t.a.iter().chain(&t.b))
        .fold(0.0f64, |a, b| a.max(b.abs() as f64));
    let mut seen: HashSet<(usize, usize)> = HashSet::new();
    for o in obs {
        let inters = match &o.inters {
            Some(i) => i,
            None => return,
        };
        for (seg, is) in inters {
            if case.nodes > 1 {
                rep.ok("intersections", owner(case, *seg) == o.node, || {
                    format!("intersections with segment boundary {} are held by node {}", seg, o.node)
                });
            }
            for (i, from) in is.from.iter().enumerate() {
                let t = match want.get(&(*from, *seg)) {
                    Some(t) => t,
                    None => {
                        rep.ok("intersections", false, || format!("step from {} does not pass boundary {}", from, seg));
                        continue;
                    }
                };
                rep.ok("intersections", seen.insert((*from, *seg)), || {
                    format!("step from {} meets boundary {} more than once", from, seg)
                });
                let d = t.a.len() / 2;
                if !rep.ok("intersections", is.dims == d, || format!("intersection has {} coordinates, expected {}", is.dims, d)) {
                    continue;
                }
                let theta = 2.0 * PI * *seg as f64 / case.rate as f64;
                let (ux, uy) = (theta.cos(), theta.sin());
                let a: Vec<f64> = t.a.iter().map(|x| *x as f64).collect();
                let v: Vec<f64> = t.b.iter().zip(&t.a).map(|(b, a)| *b as f64 - *a as f64).collect();
                let cv = v[0] * uy - v[1] * ux;
                let cp = a[0] * uy - a[1] * ux;
                let vn = (v[0] * v[0] + v[1] * v[1]).sqrt();
                let sin = cv.abs() / vn.max(1e-300);
                let tau = -cp / cv;
                // rounding of the inputs, amplified by a step that runs along the boundary or that
                // is short compared with the coordinates
                let tol = 1e-5 * maxc * (1.0 + d as f64) * (norm(&v) / vn.max(1e-300)) / sin.max(1e-12)
                    * (1.0 + tau.abs())
                    + 1e-30;
                if !(tol < 0.05 * maxc) {
                    rep.ambiguous("intersections");
                    continue;
                }
                for k in 0..d {
                    let (x, y) = (a[k] + tau * v[k], a[d + k] + tau * v[d + k]);
                    let got = is.coords[i * d + k] as f64;
                    rep.close("intersections", got, (x * x + y * y).sqrt(), tol, || {
                        format!("distance of the crossing of step {} and boundary {} in column {}", from, seg, k)
                    });
                }
            }
        }
    }
    let s = rep.s("intersections");
    s.evals += want.len() as u64;
    if seen.len() != want.len() {
        let missing: Vec<_> = want.keys().filter(|k| !seen.contains(k)).take(3).collect();
        s.fails.push(format!("{} crossings recorded, {} expected; missing (step, boundary) {:?}", seen.len(), want.len(), missing));
    }
}

pub fn check_clustering(case: &Case, obs: &[&Obs], rep: &mut Report) {
    for o in obs {
        let inters = match &o.inters {
            Some(i) => i,
            None => return,
        };
        if o.nodes.is_none() {
            return;
        }
        for (seg, is) in inters {
            let n = is.from.len();
            if n == 0 {
                continue;
            }
            let cl = match o.clust.get(seg) {
                Some(c) => c,
                None => {
                    rep.ok("clustering", false, || format!("boundary {} with {} crossings was not clustered", seg, n));
                    continue;
                }
            };
            if !rep.ok("clustering", cl.labels.len() == n, || format!("boundary {}: {} labels for {} crossings", seg, cl.labels.len(), n)) {
                continue;
            }
            let d = is.dims;
            let k = cl.labels.iter().max().unwrap() + 1;
            if !rep.ok("clustering", cl.dims == d && cl.centers.len() == k * d, || {
                format!("boundary {}: {} cluster centers for {} clusters", seg, cl.centers.len() / cl.dims.max(1), k)
            }) {
                continue;
            }
            // one number per distinct center
            let mut distinct = HashSet::new();
            for c in cl.centers.chunks(d) {
                let key: Vec<u32> = c.iter().map(|x| (x + 0.0).to_bits()).collect();
                rep.ok("clustering", distinct.insert(key), || format!("boundary {}: two clusters have the same center {:?}", seg, c));
            }
            if k > 1 {
                rep.class("several-clusters", 1);
            }
            if n == 1 {
                rep.class("single-crossing", 1);
                for c in 0..d {
                    rep.close("clustering", cl.centers[c] as f64, is.coords[c] as f64, 1e-30, || format!("boundary {}: center of a single crossing", seg));
                }
                continue;
            }
            for c in 0..d {
                let x: Vec<f64> = (0..n).map(|i| is.coords[i * d + c] as f64).collect();
                check_kde(case, *seg, c, &x, cl, rep);
            }
        }
    }
}

fn check_kde(_case: &Case, seg: usize, c: usize, x: &[f64], cl: &Clust, rep: &mut Report) {
    let n = x.len();
    let d = cl.dims;
    let lo = x.iter().cloned().fold(f64::INFINITY, f64::min);
    let hi = x.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let mean = x.iter().sum::<f64>() / n as f64;
    let var = x.iter().map(|v| (v - mean) * (v - mean)).sum::<f64>() / (n as f64 - 1.0);
    let bw = (var).sqrt() * (n as f64).powf(-0.2);
    let amax = lo.abs().max(hi.abs());
    let tol = 2e-5 + 60.0 * EPS * amax / bw.max(1e-300);
    if hi <= lo {
        // the very same value everywhere: nothing to tell apart
        rep.class("identical-crossings", 1);
        let z = cl.centers[cl.labels[0] * d + c];
        for l in &cl.labels {
            rep.ok("clustering", cl.centers[l * d + c] == z, || {
                format!("boundary {} column {}: {} identical crossings are assigned to different peaks", seg, c, n)
            });
        }
        return;
    }
    if !(tol < 0.02) {
        rep.ambiguous("clustering");
        return;
    }
    let pad = (hi - lo) * 0.1;
    let g: Vec<f64> = (0..250)
        .map(|i| lo - pad + (hi - lo + 2.0 * pad) * i as f64 / 249.0)
        .collect();
    let dens: Vec<f64> = g
        .iter()
        .map(|g| x.iter().map(|v| (-((v - g) / bw).powi(2) / 2.0).exp()).sum::<f64>())
        .collect();
    let peak = max_density(&dens);
    // values the single-precision sum cannot tell from zero
    let floor = 1e-30 * peak;
    let (mut sure, mut poss) = (vec![], vec![]);
    for i in 0..250 {
        let l = if i == 0 { dens[0] } else { dens[i - 1] };
        let r = if i == 249 { dens[249] } else { dens[i + 1] };
        if i > 0 && i < 249 && dens[i] > l * (1.0 + tol) + floor && dens[i] > r * (1.0 + tol) + floor {
            sure.push(g[i]);
        }
        if dens[i] + floor > l * (1.0 - tol) && dens[i] + floor > r * (1.0 - tol) && i > 0 && i < 249 {
            poss.push(g[i]);
        }
    }
    let gt = 8.0 * EPS * (amax + pad) + 1e-30;
    if poss.len() != sure.len() {
        rep.ambiguous("clustering");
    }
    for (i, v) in x.iter().enumerate() {
        let z = cl.centers[cl.labels[i] * d + c] as f64;
        if sure.is_empty() && z == 0.0 {
            rep.class("no-peak", 1);
            rep.s("clustering").evals += 1;
            continue;
        }
        let is_peak = poss.iter().any(|p| (p - z).abs() <= gt);
        let best = sure.iter().map(|p| (p - v).abs()).fold(f64::INFINITY, f64::min);
        let nearest = (z - v).abs() <= best + 2.0 * gt;
        rep.ok("clustering", is_peak && nearest, || {
            format!(
                "boundary {} column {}: a crossing at {} is assigned to {}; density peaks are {:?}",
                seg, c, v, z, if poss.len() < 8 { &poss } else { &sure }
            )
        });
    }
}
fn max_density(d: &[f64]) -> f64 {
    d.iter().cloned().fold(0.0, f64::max)
}

/// One graph node per crossing, labelled with the crossing's cluster.
pub fn check_nodes(_case: &Case, obs: &[&Obs], rep: &mut Report) {
    for o in obs {
        let (inters, nodes) = match (&o.inters, &o.nodes) {
            (Some(i), Some(n)) => (i, n),
            _ => return,
        };
        let mut want = vec![];
        for (seg, is) in inters {
            if let Some(cl) = o.clust.get(seg) {
                for (from, l) in is.from.iter().zip(&cl.labels) {
                    want.push([*seg, *l, *from]);
                }
            }
        }
        let mut got = nodes.clone();
        got.sort();
        want.sort();
        let s = rep.s("nodes");
        s.evals += want.len() as u64;
        if got != want && s.fails.len() < 5 {
            let w: HashSet<_> = want.iter().collect();
            let g: HashSet<_> = got.iter().collect();
            s.fails.push(format!(
                "node {}: {} graph nodes, {} crossings; missing (boundary, cluster, step) {:?} extra {:?}",
                o.node, got.len(), want.len(),
                want.iter().filter(|x| !g.contains(x)).take(3).collect::<Vec<_>>(),
                got.iter().filter(|x| !w.contains(x)).take(3).collect::<Vec<_>>()
            ));
        }
    }
}

/// The path of the whole series through the graph: consecutive crossings are connected.
pub fn expected_chain(case: &Case, obs: &[&Obs], trans: &[Transition]) -> Option<Vec<Edge>> {
    let from_seg: HashMap<usize, usize> = trans.iter().map(|t| (t.from, t.from_seg)).collect();
    let mut nodes: Vec<(usize, usize, [usize; 3])> = vec![];
    for o in obs {
        for n in o.nodes.as_ref()? {
            let f = *from_seg.get(&n[2])?;
            let pos = (n[0] + 2 * case.rate - f - 1) % case.rate;
            nodes.push((n[2], pos, *n));
        }
    }
    nodes.sort();
    Some(
        nodes
            .windows(2)
            .map(|w| {
                let (a, b) = (w[0].2, w[1].2);
                [a[0], a[1], a[2], b[0], b[1], b[2]]
            })
            .collect(),
    )
}

fn diff_edges(got: &[Edge], want: &[Edge]) -> String {
    let mut w: HashMap<Edge, i64> = HashMap::new();
    for e in want {
        *w.entry(*e).or_default() += 1;
    }
    for e in got {
        *w.entry(*e).or_default() -= 1;
    }
    let mut missing: Vec<_> = w.iter().filter(|(_, c)| **c > 0).map(|(e, _)| *e).collect();
    let mut extra: Vec<_> = w.iter().filter(|(_, c)| **c < 0).map(|(e, _)| *e).collect();
    missing.sort_by_key(|e| e[5]);
    extra.sort_by_key(|e| e[5]);
    format!(
        "{} edges observed, {} expected; {} missing {:?}, {} extra {:?}",
        got.len(), want.len(), missing.len(), missing.iter().take(3).collect::<Vec<_>>(), extra.len(), extra.iter().take(3).collect::<Vec<_>>()
    )
}

pub fn check_edges(case: &Case, obs: &[&Obs], chain: &[Edge], rep: &mut Report) {
    if case.nodes == 1 {
        for (name, edges) in [("edges", &obs[0].edges), ("scoring", &obs[0].scoring_edges)] {
            if let Some(e) = edges {
                let s = rep.s("edges");
                s.evals += chain.len() as u64;
                if e[..] != chain[..] && s.fails.len() < 5 {
                    s.fails.push(format!("path through the graph ({}): {}", name, diff_edges(e, chain)));
                }
            }
        }
        return;
    }
    let mut want = chain.to_vec();
    want.sort();
    for (name, get) in [
        ("estimated", (|o| o.edges.as_ref()) as fn(&Obs) -> Option<&Vec<Edge>>),
        ("redistributed", |o| o.transposed.as_ref()),
    ] {
        let mut got: Vec<Edge> = vec![];
        for o in obs {
            match get(o) {
                Some(e) => got.extend(e.iter().cloned()),
                None => return,
            }
        }
        got.sort();
        let s = rep.s("edges");
        s.evals += want.len() as u64;
        if got != want && s.fails.len() < 5 {
            s.fails.push(format!("path through the graph ({}): {}", name, diff_edges(&got, &want)));
        }
    }
    // after the redistribution a node holds the edges of its own time range, in order
    let per = case.data.rows / case.nodes;
    for o in obs {
        if let Some(e) = &o.transposed {
            for x in e {
                let own = (x[5] / per).min(case.nodes - 1);
                rep.ok("edges", own == o.node, || format!("edge to time {} is with node {} instead of {}", x[5], o.node, own));
            }
            for w in e.windows(2) {
                rep.ok("edges", w[0][5] <= w[1][5], || format!("node {}: edges out of time order", o.node));
            }
        }
    }
}

pub struct Graph {
    pub weights: HashMap<[usize; 4], usize>,
    pub degrees: HashMap<[usize; 2], usize>,
}

pub fn graph(edges: &[Edge]) -> Graph {
    let mut weights: HashMap<[usize; 4], usize> = HashMap::new();
    for e in edges {
        *weights.entry([e[0], e[1], e[3], e[4]]).or_default() += 1;
    }
    let mut degrees: HashMap<[usize; 2], usize> = HashMap::new();
    for e in weights.keys() {
        *degrees.entry([e[0], e[1]]).or_default() += 1;
        *degrees.entry([e[2], e[3]]).or_default() += 1;
    }
    Graph { weights, degrees }
}

/// Weights, degrees and the time index the scoring works with. `edges`: the global path.
pub fn check_graph(case: &Case, obs: &[&Obs], edges: &[Edge], rep: &mut Report) {
    let g = graph(edges);
    for o in obs {
        if let Some(w) = &o.weights {
            let s = rep.s("weights");
            s.evals += g.weights.len() as u64;
            if *w != g.weights && s.fails.len() < 5 {
                let bad: Vec<_> = g.weights.iter().filter(|(k, v)| w.get(*k) != Some(v)).take(3).collect();
                s.fails.push(format!("node {}: {} weighted edges, {} expected; e.g. {:?} observed {:?}", o.node, w.len(), g.weights.len(), bad, bad.iter().map(|b| w.get(b.0)).collect::<Vec<_>>()));
            }
        }
        if let Some(w) = &o.degrees {
            let s = rep.s("degrees");
            s.evals += g.degrees.len() as u64;
            if *w != g.degrees && s.fails.len() < 5 {
                let bad: Vec<_> = g.degrees.iter().filter(|(k, v)| w.get(*k) != Some(v)).take(3).collect();
                s.fails.push(format!("node {}: {} nodes with a degree, {} expected; e.g. {:?} observed {:?}", o.node, w.len(), g.degrees.len(), bad, bad.iter().map(|b| w.get(b.0)).collect::<Vec<_>>()));
            }
        }
    }
}

/// Number of edges that end up to and including each time.
pub fn time_index(edges: &[Edge], len: usize) -> Vec<usize> {
    let mut out = vec![];
    let mut k = 0;
    for t in 0..len {
        while k < edges.len() && edges[k][5] <= t {
            k += 1;
        }
        out.push(k);
    }
    out
}

/// Unnormalised scores of all query windows. The second value tells windows without any edge.
pub fn raw_scores(case: &Case, edges: &[Edge]) -> (Vec<f64>, Vec<bool>) {
    let g = graph(edges);
    let idx = time_index(edges, case.windows() - 1);
    let n = case.score_len();
    let q = case.query;
    let mut pre = vec![0.0f64];
    for e in edges {
        let w = g.weights[&[e[0], e[1], e[3], e[4]]] as f64;
        let d = g.degrees[&[e[0], e[1]]] as f64;
        pre.push(pre.last().unwrap() + w * (d - 1.0));
    }
    let mut out: Vec<f64> = vec![];
    let mut empty = vec![];
    for i in 0..n {
        let a = idx[i];
        let b = (idx[i + q - 1] + 1).min(edges.len());
        if b <= a {
            out.push(out.last().cloned().unwrap_or(0.0));
            empty.push(true);
        } else {
            out.push(-(pre[b] - pre[a]) / (b - a) as f64);
            empty.push(false);
        }
    }
    (out, empty)
}

/// The shape every score has, whatever the input.
pub fn check_shape(case: &Case, score: &[f32], rep: &mut Report) {
    let n = case.score_len();
    rep.ok("shape", score.len() == n, || format!("{} scores, expected one for each of the {} query windows", score.len(), n));
    for (i, x) in score.iter().enumerate() {
        rep.ok("shape", x.is_finite() && *x >= 0.0 && *x <= 1.0, || format!("score {} is {}", i, x));
    }
    if score.is_empty() {
        return;
    }
    let lo = score.iter().cloned().fold(f32::INFINITY, f32::min);
    let hi = score.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
    if lo == hi {
        rep.class("equal-scores", 1);
        rep.ok("shape", lo == 0.0, || format!("all scores are {}", lo));
    } else {
        rep.ok("shape", lo == 0.0 && hi == 1.0, || format!("scores run from {} to {} instead of 0 to 1", lo, hi));
    }
}

/// `edges`: the path through the graph that the scores are about.
pub fn check_final(case: &Case, score: &[f32], edges: &[Edge], rep: &mut Report) {
    let (raw, empty) = raw_scores(case, edges);
    rep.class("empty-window", empty.iter().filter(|e| **e).count() as u64);
    if edges.is_empty() {
        rep.class("no-graph", 1);
    }
    let lo = raw.iter().cloned().fold(f64::INFINITY, f64::min);
    let hi = raw.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    if !rep.ok("final", score.len() == raw.len(), || format!("{} scores, {} query windows", score.len(), raw.len())) {
        return;
    }
    let range = hi - lo;
    if range == 0.0 {
        for (i, x) in score.iter().enumerate() {
            rep.ok("final", *x == 0.0, || format!("no query window differs from another, but score {} is {}", i, x));
        }
        return;
    }
    if !(range > 1e-3 * hi.abs().max(lo.abs()).max(1e-3)) {
        rep.ambiguous("final");
        return;
    }
    let tol = 5e-6 + 4.0 * 1e-6 * hi.abs().max(lo.abs()) / range;
    for i in 0..raw.len() {
        rep.close("final", score[i] as f64, (raw[i] - lo) / range, tol, || {
            format!("score of query window {} ({})", i, if empty[i] { "without edges: carries the previous one on" } else { "with edges" })
        });
    }
}

/// The peak of each cluster in one dimension: the center value next to the cluster's crossings.
fn peak_of_labels(cl: &Clust, is: &Inters, dims: usize, k: usize) -> HashMap<usize, f32> {
    let mut peaks: Vec<f32> = cl.centers.chunks(dims).map(|c| c[k]).collect();
    peaks.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    peaks.dedup();
    let mut found: HashMap<usize, f32> = HashMap::new();
    for (i, l) in cl.labels.iter().enumerate() {
        let x = is.coords[i * dims + k];
        let mut by_distance: Vec<(f32, f32)> = peaks.iter().map(|p| ((p - x).abs(), *p)).collect();
        by_distance.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        let clear = by_distance.len() < 2 || by_distance[1].0 - by_distance[0].0 > 1e-3 * by_distance[1].0;
        if clear && !by_distance.is_empty() {
            found.entry(*l).or_insert(by_distance[0].1);
        }
    }
    for l in &cl.labels {
        found.entry(*l).or_insert_with(|| cl.centers.get(l * dims + k).copied().unwrap_or(0.0));
    }
    found
}

/// How much each channel contributes: one row per query window.
pub fn check_explain(case: &Case, o: &Obs, file: &[u8], rep: &mut Report) {
    let (edges, inters) = match (&o.scoring_edges, &o.inters) {
        (Some(e), Some(i)) => (e, i),
        _ => return,
    };
    let n = case.score_len();
    let text = String::from_utf8_lossy(file);
    let mut rows: Vec<Vec<f64>> = vec![];
    for l in text.lines() {
        let row: Result<Vec<f64>, _> = l.trim().trim_matches('"').split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<f64>()).collect();
        match row {
            Ok(r) => rows.push(r),
            Err(_) => {
                rep.ok("explain", false, || format!("unreadable contribution line {:?}", l));
                return;
            }
        }
    }
    if !rep.ok("explain", rows.len() == n, || format!("{} rows of contributions for {} scores", rows.len(), n)) {
        return;
    }
    // how unusual a cluster is in each dimension, among the crossings of its boundary
    let mut unusual: HashMap<[usize; 2], Vec<f64>> = HashMap::new();
    let mut dims = 0;
    for (seg, is) in inters {
        let cl = match o.clust.get(seg) {
            Some(c) if c.labels.len() == is.from.len() && !c.labels.is_empty() => c,
            _ => continue,
        };
        dims = cl.dims;
        let total = cl.labels.len() as f64;
        // which of the peaks a cluster belongs to is told by its crossings, not by the order of the centers
        let peak: Vec<HashMap<usize, f32>> = (0..dims).map(|k| peak_of_labels(cl, is, dims, k)).collect();
        for l in cl.labels.iter().collect::<HashSet<_>>() {
            let v = (0..dims)
                .map(|k| {
                    let z = peak[k][l];
                    let same = cl.labels.iter().filter(|m| peak[k][*m] == z).count() as f64;
                    1.0 - same / total
                })
                .collect();
            unusual.insert([*seg, *l], v);
        }
    }
    if dims == 0 {
        rep.class("explain-no-graph", 1);
        return;
    }
    let idx = time_index(edges, case.windows() - 1);
    let mut want: Vec<Vec<f64>> = vec![];
    let mut last: Option<Vec<f64>> = None;
    for i in 0..n {
        let a = idx[i];
        let b = (idx[i + case.query - 1] + 1).min(edges.len());
        let mut m = vec![0.0; dims];
        for e in &edges[a..b.max(a)] {
            let u = match unusual.get(&[e[0], e[1]]) {
                Some(u) => u,
                None => return,
            };
            for k in 0..dims {
                m[k] += u[k] / (b - a) as f64;
            }
        }
        if m.iter().sum::<f64>() < 1e-9 {
            rep.class("explain-carried", 1);
            if let Some(l) = &last {
                m = l.clone();
            }
        } else {
            last = Some(m.clone());
        }
        want.push(m);
    }
    // relative to the median; which of several medians that differ by less than 1/80 is open
    let mut shift = vec![0.0; dims];
    for k in 0..dims {
        let mut col: Vec<f64> = want.iter().map(|r| r[k]).collect();
        col.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let median = col[n / 2];
        // the subtrahend itself, from any row that is not a carried one
        let mut sub: Option<f64> = None;
        for i in 0..n {
            if rows[i].len() != dims {
                rep.ok("explain", false, || format!("row {} has {} contributions, expected {}", i, rows[i].len(), dims));
                return;
            }
            if rows[i].iter().sum::<f64>().abs() > 1e-3 && (i == 0 || rows[i] != rows[i - 1]) {
                sub = Some(want[i][k] - rows[i][k]);
                break;
            }
        }
        let sub = sub.unwrap_or(median);
        rep.close("explain", sub, median, 0.0126, || format!("reference level of dimension {}", k));
        shift[k] = sub;
    }
    let mut prev: Option<Vec<f64>> = None;
    for i in 0..n {
        let own: Vec<f64> = (0..dims).map(|k| want[i][k] - shift[k]).collect();
        let sum: f64 = own.iter().sum();
        let close = |a: &[f64], b: &[f64]| a.iter().zip(b).all(|(x, y)| (x - y).abs() < 1e-4);
        let fits_own = close(&rows[i], &own);
        let fits_prev = prev.as_ref().map(|p| close(&rows[i], p)).unwrap_or(false);
        // a row that cancels out carries the previous one on
        let good = if sum.abs() > 1e-3 { fits_own } else { fits_own || fits_prev };
        rep.ok("explain", good, || format!("contributions of query window {}: observed {:?} expected {:?}", i, rows[i], own));
        prev = Some(rows[i].clone());
    }
    rep.class("explain-rows", n as u64);
}

/// Heap that analyses after the first may set up for the rest of the process, in bytes, and what
/// the harness itself notes down for each.
pub const LASTING_HEAP: u64 = 8192;
pub const PER_ANALYSIS: u64 = 256;

/// What a process still holds after each of a row of analyses.
pub fn check_leftovers(events: &[crate::events::Ev], rep: &mut Report) {
    let e = match events.iter().find(|e| e.name == "left") {
        Some(e) => e,
        None => {
            rep.ok("end", false, || "the analyses did not all end".to_string());
            return;
        }
    };
    let get = |k: &str| e.u(k).map(|x| x.1.to_vec()).unwrap_or_default();
    let (threads, files, heap) = (get("threads"), get("files"), get("heap"));
    for i in 1..threads.len() {
        rep.ok("leftovers", threads[i] <= threads[0], || {
            format!("{} threads are left after analysis {}, there were {} before the first", threads[i], i, threads[0])
        });
        if i == 1 {
            // what every later analysis uses again may stay
            continue;
        }
        rep.ok("leftovers", files[i] <= files[1], || {
            format!("{} files are open after analysis {}, {} after the first", files[i], i, files[1])
        });
        let room = LASTING_HEAP + PER_ANALYSIS * i as u64;
        let grown = heap[i].saturating_sub(heap[1]);
        rep.close("leftovers", grown as f64, 0.0, room as f64, || format!("bytes on the heap since the first analysis, after analysis {}", i));
    }
}
