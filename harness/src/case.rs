//! Workload description: a case is completely determined by its fields, so it is its own replay.
use serde::{Deserialize, Serialize};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    pub fn int(&mut self, lo: usize, hi: usize) -> usize {
        lo + (self.next() % (hi - lo + 1) as u64) as usize
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn gauss(&mut self) -> f64 {
        let u = self.f().max(1e-300);
        let v = self.f();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[(self.next() % xs.len() as u64) as usize]
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Data {
    pub family: String,
    pub seed: u64,
    pub rows: usize,
    pub cols: usize,
    pub scale: f64,
    pub offset: f64,
    pub reverse: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub name: String,
    pub data: Data,
    pub pattern: usize,
    pub latent: usize,
    pub rate: usize,
    pub query: usize,
    pub threads: usize,
    #[serde(default)]
    pub self_correction: bool,
    #[serde(default)]
    pub explain: bool,
    /// "array": the data is passed in, "file": it is read from a CSV
    pub mode: String,
    #[serde(default = "one")]
    pub nodes: usize,
    #[serde(default)]
    pub column_start: usize,
    #[serde(default)]
    pub column_end: i64,
    /// 0: no injected delays
    #[serde(default)]
    pub delay_seed: u64,
    /// how often the analysis is repeated within one process (array mode)
    #[serde(default = "one")]
    pub repeat: usize,
    /// variation of how the CSV is written: 0 plain, 1 spaces around fields, 2 no final newline, 3 crlf
    #[serde(default)]
    pub csv_style: usize,
    /// array mode: pass only the columns in the range, as a program would that selects them itself
    #[serde(default)]
    pub keep: bool,
    /// array mode: another analysis in the same process, before the last repetition of this one
    #[serde(default)]
    pub between: Option<Box<Case>>,
    /// the other analysis runs at the same time
    #[serde(default)]
    pub together: bool,
    /// command line: how the options are written
    #[serde(default)]
    pub cli_style: u64,
    /// older files lie where the results are to be written
    #[serde(default)]
    pub stale: bool,
    /// watch what the repetitions of the analysis leave behind instead of their stages
    #[serde(default)]
    pub leftovers: bool,
    /// the columns that are not asked for hold no numbers
    #[serde(default)]
    pub junk: bool,
    /// what is wrong with the data or the parameters
    #[serde(default)]
    pub defect: String,
    /// array mode: how the array lies in memory (0 row by row, 1 column by column, 2 both reversed,
    /// 3 every second element of a larger one)
    #[serde(default)]
    pub layout: usize,
    /// array mode: no path for a score file
    #[serde(default)]
    pub silent: bool,
    /// array mode: the repetitions use one and the same object
    #[serde(default)]
    pub refit: bool,
    /// cluster: processes are stopped and continued at random
    #[serde(default)]
    pub pauses: u64,
    /// cluster: the nodes do not have the same number of threads
    #[serde(default)]
    pub uneven: bool,
    /// cluster: one process is stopped for this many ms, once
    #[serde(default)]
    pub long_pause: u64,
    /// cluster: the sub nodes start all at once
    #[serde(default)]
    pub rush: bool,
    /// cluster: this node is killed after its n-th event, or from 1000 on n - 1000 ms after its start
    #[serde(default)]
    pub crash: Option<(usize, usize)>,
}
fn one() -> usize {
    1
}

pub const FAMILIES: &[&str] = &[
    "sine", "multi", "chirp", "ecg", "walk", "regime", "noisy", "square", "anomaly",
];

/// Unusual but legitimate inputs.
pub const HOSTILE: &[&str] = &[
    "quantised", "trend", "spikes", "bursts", "repeat", "plateau", "pure", "repeat", "quantised",
];
/// Few different values, exact repetitions and low rank: points on axes, ties, equal components.
pub const EXACT: &[&str] = &[
    "line", "sawtooth", "triangle", "binary", "impulse", "step", "twins", "period", "counts",
];
/// Inputs without a shape: results carry no information, but the analysis must end properly.
pub const DEGENERATE: &[&str] = &["const", "constcol"];

impl Data {
    /// Row-major rows x cols.
    pub fn generate(&self) -> Vec<f32> {
        let mut r = Rng::new(self.seed);
        let (n, d) = (self.rows, self.cols);
        let mut out = vec![0f64; n * d];
        let base_period = r.range(18.0, 60.0);
        for c in 0..d {
            let phase = r.range(0.0, 6.28);
            let period = if r.chance(0.6) {
                base_period
            } else {
                base_period * r.range(0.5, 2.0)
            };
            let exact = EXACT.contains(&self.family.as_str()) && self.family != "twins";
            let amp = r.range(0.5, 2.0);
            // exact in single precision
            let amp = if exact { (amp * 2.0).round() / 2.0 } else { amp };
            let noise = r.range(0.005, 0.08);
            let harmonics: Vec<(f64, f64, f64)> = (0..r.int(1, 3))
                .map(|_| {
                    (
                        r.int(2, 5) as f64,
                        r.range(0.05, 0.5),
                        r.range(0.0, 6.28),
                    )
                })
                .collect();
            let mut walk = 0.0;
            let mut regime = 1.0;
            for t in 0..n {
                let w = 2.0 * std::f64::consts::PI * t as f64 / period;
                let s = w + phase;
                let g = r.gauss();
                let v = match self.family.as_str() {
                    "sine" => s.sin() + noise * g,
                    "multi" => {
                        s.sin()
                            + harmonics
                                .iter()
                                .map(|(h, a, p)| a * (h * w + p).sin())
                                .sum::<f64>()
                            + noise * g
                    }
                    "chirp" => (s * (1.0 + 0.5 * t as f64 / n as f64)).sin() + noise * g,
                    "ecg" => {
                        let x = (w / (2.0 * std::f64::consts::PI)).fract() - 0.3;
                        (-x * x * 200.0).exp() * 3.0
                            - (-(x - 0.1) * (x - 0.1) * 400.0).exp()
                            + 0.3 * s.sin()
                            + noise * g
                    }
                    "walk" => {
                        walk = 0.98 * walk + 0.3 * g;
                        walk + 0.5 * s.sin()
                    }
                    "regime" => {
                        if r.chance(0.01) {
                            regime = r.range(0.4, 1.6);
                        }
                        regime * s.sin() + noise * g
                    }
                    "noisy" => s.sin() + 0.5 * g,
                    "square" => s.sin().signum() * 0.8 + 0.2 * (3.0 * s).sin() + noise * g,
                    "anomaly" => {
                        let base = s.sin() + noise * g;
                        let a = n / 2;
                        if t >= a && t < a + 30 {
                            base * 0.2 + 0.8 * (2.5 * s).sin()
                        } else {
                            base
                        }
                    }
                    // quantised values: ties and exact zeros
                    "quantised" => ((s.sin() + noise * g) * 8.0).round() / 8.0,
                    "trend" => s.sin() + 3.0 * t as f64 / n as f64 + noise * g,
                    "spikes" => s.sin() + noise * g + if r.chance(0.004) { r.range(3.0, 9.0) } else { 0.0 },
                    "bursts" => {
                        if (t / (n / 7).max(1)) % 2 == 0 { s.sin() + noise * g } else { 0.05 * s.sin() + noise * g }
                    }
                    // the very same values in every period
                    "repeat" => {
                        let p = base_period.round();
                        let k = (t as f64 % p) * 2.0 * std::f64::consts::PI / p + phase;
                        k.sin() + harmonics.iter().map(|(h, a, q)| a * (h * k + q).sin()).sum::<f64>()
                    }
                    // nothing happens in the second half
                    "plateau" => if t < n / 2 { s.sin() + noise * g } else { 0.3 },
                    "line" => t as f64 * 0.25,
                    "sawtooth" => (t % base_period.round() as usize) as f64,
                    "triangle" => {
                        let p = base_period.round() as i64;
                        ((t as i64 % (2 * p)) - p).abs() as f64
                    }
                    "binary" => if s.sin() > 0.3 { 1.0 } else { 0.0 },
                    "impulse" => if t % base_period.round() as usize == 3 { 1.0 } else { 0.0 },
                    "step" => if t < n / 3 { 0.0 } else { 1.0 },
                    "twins" => s.sin() + noise * g,
                    "period" => [0.0, 1.0, 0.0, -1.0, 2.0, 0.0][t % (2 + c + base_period as usize % 5).min(6)],
                    // a few of the periods are smaller
                    "cycle" => [0.0, 1.0, 0.0, -1.0][t % 4] * if (t / 4) % 4099 == 5 { 0.4 } else { 1.0 },
                    "counts" => (3.0 * s.sin() + 0.6 * g).round().max(0.0),
                    // degenerate inputs
                    "constcol" => {
                        if c == 0 {
                            1.0
                        } else {
                            s.sin() + noise * g
                        }
                    }
                    "const" => 1.0,
                    "pure" => s.sin(),
                    "white" => g,
                    other => panic!("unknown family {}", other),
                };
                out[t * d + c] = (amp * v + self.offset) * self.scale;
            }
        }
        if self.family == "twins" {
            for row in out.chunks_mut(d) {
                for c in 1..d {
                    row[c] = row[0] * [1.0, -1.0, 2.0, 0.5][c % 4];
                }
            }
        }
        if self.reverse {
            let rows: Vec<Vec<f64>> = out.chunks(d).rev().map(|x| x.to_vec()).collect();
            out = rows.concat();
        }
        out.into_iter().map(|x| x as f32).collect()
    }
}

impl Case {
    /// The analyses of one execution, in the order in which they are reported.
    pub fn sequence(&self) -> Vec<&Case> {
        if self.mode != "array" {
            return vec![self];
        }
        let mut out = vec![self; self.repeat];
        if let Some(b) = &self.between {
            out.insert(self.repeat - 1, b);
        }
        out
    }
    pub fn windows(&self) -> usize {
        self.data.rows - (self.pattern - 1)
    }

    /// Number of threads of a cluster node.
    pub fn threads_of(&self, node: usize) -> usize {
        if self.uneven && self.threads > 0 {
            1 + (self.threads + 3 * node) % 7
        } else {
            self.threads
        }
    }
    /// The columns an analysis uses, per the documented range semantics.
    pub fn used_columns(&self) -> std::ops::Range<usize> {
        if self.mode == "array" && !self.keep {
            return 0..self.data.cols;
        }
        let end = match self.column_end {
            0 => self.data.cols as i64,
            e if e > 0 => e,
            e => self.data.cols as i64 + e,
        };
        self.column_start..end as usize
    }
    pub fn used_data(&self) -> (Vec<f32>, usize, usize) {
        let all = self.data.generate();
        let cols = self.used_columns();
        let d = cols.len();
        let used = all
            .chunks(self.data.cols)
            .flat_map(|row| row[cols.clone()].to_vec())
            .collect();
        (used, self.data.rows, d)
    }
    pub fn score_len(&self) -> usize {
        self.windows() - 1 - (self.query - 1)
    }
}

/// A case from the domain the properties quantify over.
pub fn ordinary(r: &mut Rng, name: String, max_rows: usize) -> Case {
    let pattern = r.int(8, 60);
    let width = r.int(4, (pattern - 1).min(40)); // pattern - latent
    let latent = pattern - width;
    let cols = *r.pick(&[1, 1, 2, 2, 2, 3, 4]);
    let rows = r.int((pattern * 4 + 60).min(max_rows), max_rows);
    let rate = match r.int(0, 9) {
        0 => r.int(4, 12),
        1 => r.int(101, 160),
        2 | 3 => 100,
        _ => r.int(12, 100),
    };
    let query = if r.chance(0.15) {
        r.int(1, 5)
    } else {
        r.int(5, (rows / 3).max(6).min(120))
    };
    Case {
        name,
        data: Data {
            family: r.pick(FAMILIES).to_string(),
            seed: r.next() >> 12,
            rows,
            cols,
            scale: *r.pick(&[1.0, 1.0, 1.0, 0.01, 100.0]),
            offset: *r.pick(&[0.0, 0.0, 3.0, -5.0]),
            reverse: r.chance(0.3),
        },
        pattern,
        latent,
        rate,
        query: query.max(1),
        threads: *r.pick(&[1, 1, 2, 3, 4, 5, 6, 7, 8]),
        self_correction: r.chance(0.3),
        explain: false,
        mode: "array".into(),
        nodes: 1,
        column_start: 0,
        column_end: 0,
        delay_seed: if r.chance(0.3) { r.next() >> 12 } else { 0 },
        repeat: 1,
        csv_style: 0,
        keep: false,
        between: None,
        together: false,
        cli_style: 0,
        stale: false,
        leftovers: false,
        junk: false,
        defect: String::new(),
        layout: 0,
        silent: false,
        refit: false,
        pauses: 0,
        uneven: false,
        long_pause: 0,
        rush: false,
        crash: None,
    }
}
