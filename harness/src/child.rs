//! Runs the real code on one case, in a process of its own, recording every observation.
use crate::case::{Case, Rng};
use crate::events;
use s2gpp::verif::{set_perturb, set_sink, Event, Value};
use s2gpp::model::{SyncInterface, Training};
use s2gpp::{s2gpp, Parameters, Role};
use std::io::{BufWriter, Write};
use std::path::Path;
use std::sync::{Arc, Mutex};
use structopt::StructOpt;

pub const PANICKED: i32 = 101;

fn marker(w: &Mutex<BufWriter<std::fs::File>>, name: &'static str, fields: Vec<(&'static str, Value)>) {
    let mut w = w.lock().unwrap();
    events::write(&mut *w, &Event { seq: 0, name, fields }).unwrap();
    w.flush().unwrap();
}

pub fn run(case_path: &str, dir: &str, node: usize, ports: &[u16]) -> i32 {
    let case: Case = serde_json::from_str(&std::fs::read_to_string(case_path).unwrap()).unwrap();
    let dir = Path::new(dir);
    let file = std::fs::File::create(dir.join(format!("events.{}", node))).unwrap();
    let writer = Arc::new(Mutex::new(BufWriter::with_capacity(1 << 20, file)));

    let panic_file = dir.join(format!("panic.{}", node));
    std::panic::set_hook(Box::new(move |info| {
        let mut f = std::fs::OpenOptions::new()
            .create(true)
            .append(true)
            .open(&panic_file)
            .unwrap();
        let _ = writeln!(f, "{}", info);
        // a panic in any thread ends the analysis, as with the release profile's panic=abort
        std::process::exit(PANICKED);
    }));

    let w = writer.clone();
    let last = match case.crash {
        Some((n, at)) if n == node && at < 1000 => at,
        _ => usize::MAX,
    };
    let count = std::sync::atomic::AtomicUsize::new(0);
    set_sink(move |mut e| {
        if count.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == last {
            crate::exec::signal(std::process::id(), crate::exec::SIGKILL);
        }
        let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as u64;
        e.fields.push(("time", Value::Index(vec![1], vec![t])));
        let mut w = w.lock().unwrap();
        let _ = events::write(&mut *w, &e);
        if e.name != "intersections" && e.name != "clustering" {
            let _ = w.flush();
        }
    });
    if case.delay_seed != 0 {
        let rng = Mutex::new(Rng::new(case.delay_seed.wrapping_add(node as u64 * 7919)));
        set_perturb(move |site| {
            let us = {
                let mut r = rng.lock().unwrap();
                if site == "clustering" {
                    if r.chance(0.05) { r.int(0, 2000) } else { 0 }
                } else if site.ends_with("helper") {
                    match r.int(0, 3) {
                        0 => 0,
                        1 => r.int(0, 50),
                        2 => r.int(0, 500),
                        _ => r.int(0, 2000),
                    }
                } else if r.chance(0.3) {
                    r.int(0, 60_000)
                } else {
                    0
                }
            };
            if us > 0 {
                std::thread::sleep(std::time::Duration::from_micros(us as u64));
            }
        });
    }

    if case.leftovers {
        leftovers(&case, dir, &writer);
        return 0;
    }

    let score_path = dir.join(format!("score.{}", node));
    let contribution_path = dir.join(format!("contribution.{}", node));
    if case.mode == "array" {
        let report = |i: usize, r: anyhow::Result<Option<ndarray::Array1<f32>>>| {
            let _ = i;
            match r {
                Ok(Some(scores)) => marker(
                    &writer,
                    "returned",
                    vec![("score", Value::Float(vec![scores.len()], scores.to_vec()))],
                ),
                Ok(None) => marker(&writer, "returned_none", vec![]),
                Err(_) => marker(&writer, "returned_error", vec![]),
            }
        };
        let run = |i: usize| marker(&writer, "run", vec![("index", Value::Index(vec![1], vec![i as u64]))]);
        let sequence = case.sequence();
        if case.together {
            // observations of analyses that run at the same time cannot be told apart: only the
            // results count
            set_sink(|_| {});
            let results: Vec<_> = std::thread::scope(|s| {
                let threads: Vec<_> = sequence
                    .iter()
                    .enumerate()
                    .map(|(i, c)| {
                        let (params, input) = array_input(c, &score_path, &contribution_path, i + 1 == sequence.len());
                        s.spawn(move || s2gpp(params, Some(input)))
                    })
                    .collect();
                threads.into_iter().map(|t| t.join().unwrap()).collect()
            });
            for (i, r) in results.into_iter().enumerate() {
                run(i);
                report(i, r);
            }
        } else {
            let mut model: Option<Training> = None;
            for (i, c) in sequence.iter().enumerate() {
                let (params, input) = array_input(c, &score_path, &contribution_path, true);
                run(i);
                if case.refit {
                    report(i, model.get_or_insert_with(|| Training::init(params)).fit(input).map(Some));
                } else {
                    report(i, s2gpp(params, Some(input)));
                }
            }
        }
    } else {
        let mut argv: Vec<String> = vec!["s2gpp".into()];
        argv.extend(arguments(&case, dir, node, ports));
        let params = match Parameters::from_iter_safe(argv) {
            Ok(p) => p,
            Err(e) => {
                marker(&writer, "arguments_rejected", vec![]);
                let _ = std::fs::write(dir.join(format!("panic.{}", node)), e.to_string());
                return 3;
            }
        };
        marker(&writer, "run", vec![("index", Value::Index(vec![1], vec![0]))]);
        match s2gpp(params, None) {
            Ok(_) => marker(&writer, "returned_none", vec![]),
            Err(_) => marker(&writer, "returned_error", vec![]),
        }
    }
    let _ = writer.lock().unwrap().flush();
    0
}

/// A file that cannot be written as if the disk were full
pub const FULL: &str = "/dev/full";

/// On a cluster only one node cannot write.
fn score_destination(case: &Case, path: &str, nowhere: &str, node: usize) -> String {
    if case.data.seed as usize % case.nodes != node {
        return path.to_string();
    }
    match case.defect.as_str() {
        "unwritable" => nowhere.to_string(),
        "directory" => Path::new(path).parent().unwrap().to_str().unwrap().to_string(),
        "full" => FULL.to_string(),
        _ => path.to_string(),
    }
}

/// The command line of a cluster node. Written in different ways that must mean the same.
pub fn arguments(case: &Case, dir: &Path, node: usize, ports: &[u16]) -> Vec<String> {
    let mut r = Rng::new(case.cli_style);
    let plain = case.cli_style == 0;
    let path = |name: &str| dir.join(format!("{}.{}", name, node)).to_str().unwrap().to_string();
    // long name, short name, value, what holds if it is left out
    let mut options: Vec<(&str, &str, String, &str)> = vec![
        ("pattern-length", "p", case.pattern.to_string(), "50"),
        ("latent", "", case.latent.to_string(), "16"),
        ("rate", "", case.rate.to_string(), "100"),
        ("threads", "t", case.threads_of(node).to_string(), "8"),
        ("cluster-nodes", "n", case.nodes.to_string(), "1"),
        ("query-length", "q", case.query.to_string(), "75"),
        ("score-output-path", "", score_destination(case, &path("score"), &path("nowhere/score"), node), ""),
        ("column-start-idx", "", case.column_start.to_string(), "0"),
        ("column-end-idx", "", case.column_end.to_string(), "0"),
    ];
    if !ports.is_empty() {
        options.push(("local-host", "l", format!("127.0.0.1:{}", ports[node]), ""));
    }
    if case.explain {
        let destination = if case.defect == "fullcontribution" { FULL.to_string() } else { path("contribution") };
        options.push(("anomaly-contribution-output-path", "", destination, ""));
    }
    let mut groups: Vec<Vec<String>> = vec![];
    for (long, short, value, default) in options {
        if !plain && value == default && r.chance(0.7) {
            continue;
        }
        if long == "column-end-idx" || (!plain && r.chance(0.3)) {
            groups.push(vec![format!("--{}={}", long, value)]);
        } else if !plain && !short.is_empty() && r.chance(0.5) {
            groups.push(vec![format!("-{}", short), value]);
        } else {
            groups.push(vec![format!("--{}", long), value]);
        }
    }
    if case.explain {
        groups.push(vec!["--explainability".into()]);
    }
    if case.self_correction {
        groups.push(vec!["--self-correction".into()]);
    }
    if !plain {
        if r.chance(0.3) {
            groups.push(vec!["--clustering".into(), "kde".into()]);
        }
        for i in (1..groups.len()).rev() {
            let j = r.int(0, i);
            groups.swap(i, j);
        }
    }
    let mut argv = groups.concat();
    let short = !plain && r.chance(0.4);
    if node == 0 {
        let data = dir.join("data.csv").to_str().unwrap().to_string();
        argv.push("main".into());
        if case.defect == "nopath" {
            return argv;
        }
        argv.extend([if short { "-d".into() } else { "--data-path".into() }, data]);
    } else {
        let main = format!("127.0.0.1:{}", ports[0]);
        argv.extend(["sub".into(), if short { "-h".into() } else { "--mainhost".into() }, main]);
    }
    argv
}

fn array_input(c: &Case, score: &Path, contribution: &Path, write: bool) -> (Parameters, ndarray::Array2<f32>) {
    let (mut data, rows, cols) = c.used_data();
    let (bad_row, bad_col) = defect_place(c);
    match c.defect.as_str() {
        "nan" => data[bad_row * cols + bad_col] = f32::NAN,
        "inf" => data[bad_row * cols + bad_col] = f32::INFINITY,
        _ => {}
    }
    let name = |p: &Path| format!("{}{}", p.to_str().unwrap(), if write { "" } else { ".other" });
    let score = name(score);
    let score = score_destination(c, &score, &format!("{}/nowhere", score), 0);
    let params = Parameters {
        role: Role::default(),
        pattern_length: c.pattern,
        latent: c.latent,
        rate: c.rate,
        n_threads: c.threads,
        query_length: c.query,
        score_output_path: if c.silent { None } else { Some(score) },
        explainability: c.explain,
        anomaly_contribution_output_path: if c.defect == "fullcontribution" { FULL.to_string() } else { name(contribution) },
        self_correction: c.self_correction,
        ..Default::default()
    };
    let plain = ndarray::Array2::from_shape_vec((rows, cols), data).unwrap();
    let input = match c.layout {
        1 => plain.t().as_standard_layout().into_owned().reversed_axes(),
        2 => {
            let mut back = plain.slice(ndarray::s![..;-1, ..;-1]).as_standard_layout().into_owned();
            back.invert_axis(ndarray::Axis(0));
            back.invert_axis(ndarray::Axis(1));
            back
        }
        3 => {
            let mut large = ndarray::Array2::from_elem((2 * rows + 1, 2 * cols + 1), 1e6f32);
            large.slice_mut(ndarray::s![1..;2, 1..;2]).assign(&plain);
            large.slice_move(ndarray::s![1..;2, 1..;2])
        }
        _ => plain.clone(),
    };
    assert!(plain == input || !c.defect.is_empty());
    (params, input)
}

/// Row and column of what is wrong with the data.
fn defect_place(case: &Case) -> (usize, usize) {
    let mut r = Rng::new(case.data.seed ^ 0x5555);
    let row = match r.int(0, 3) {
        0 => 0,
        1 => case.data.rows - 1,
        _ => r.int(0, case.data.rows - 1),
    };
    let used = case.used_columns();
    let col = if used.is_empty() || used.end > case.data.cols { 0 } else { r.int(used.start, used.end - 1) };
    // a row that is different from the first is needed to be of different length
    (if case.defect.ends_with("row") { row.max(1) } else { row }, col)
}

/// A long decimal number just above the middle between a value and its neighbour towards 0. The value is
/// the nearest single to it, but not to what is left of it after rounding to a double.
fn long_decimal(x: f32) -> String {
    let below = f32::from_bits(x.to_bits() - 1);
    let mut s = format!("{:.140}", (x as f64 + below as f64) / 2.0);
    s.push('1');
    s
}

/// 0 plain, 1 blanks around fields, 2 no final newline, 3 crlf, 4 exponents, 5 quoted fields, 6 an
/// empty line at the end, 7 empty lines in between, 8 plus signs and capital exponents, 9 a header
/// with commas and line ends in quotes, 10 more digits than any float has
pub fn write_csv(case: &Case, path: &Path) {
    let data = case.data.generate();
    let (pad, eol) = match case.csv_style {
        1 => (" ", "\n"),
        3 => ("", "\r\n"),
        5 => ("\"", "\n"),
        _ => ("", "\n"),
    };
    if case.defect == "missing" {
        return;
    }
    if case.defect == "emptyfile" {
        std::fs::write(path, "").unwrap();
        return;
    }
    let used = case.used_columns();
    let (bad_row, bad_col) = defect_place(case);
    let mut s = String::new();
    s += &(0..case.data.cols)
        .map(|c| if case.csv_style == 9 { format!("\"col,{}\nof the table\"", c) } else { format!("col{}", c) })
        .collect::<Vec<_>>()
        .join(",");
    for (i, row) in data.chunks(case.data.cols).enumerate() {
        if case.defect == "norows" {
            break;
        }
        s += eol;
        if case.csv_style == 7 && (i % 13 == 5 || i == 0) {
            s += eol;
        }
        s += &row
            .iter()
            .enumerate()
            .filter(|(c, _)| !(case.defect == "shortrow" && i == bad_row && *c == bad_col))
            .map(|(c, x)| {
                if i == bad_row && c == bad_col && ["text", "nothing", "nan", "inf"].contains(&case.defect.as_str()) {
                    match case.defect.as_str() {
                        "text" => ["n/a", "1.5.2", "1,5", "-"][(case.data.seed / 8 % 4) as usize].replace(',', ";"),
                        "nothing" => String::new(),
                        "nan" => "nan".to_string(),
                        _ => "inf".to_string(),
                    }
                } else if case.junk && !used.contains(&c) {
                    match (c + case.data.seed as usize) % 4 {
                        0 => format!("2021-03-0{} 10:{:02}:00", 1 + i % 9, i % 60),
                        1 => ["normal", "anomaly", "", "nan"][(i * i) % 4].to_string(),
                        2 => format!("\"label {}, it's\"", i % 7),
                        _ => String::new(),
                    }
                } else if case.csv_style == 4 {
                    format!("{:e}", x)
                } else if case.csv_style == 8 {
                    format!("{:+E}", x)
                } else if case.csv_style == 10 && x.abs() > 1e-20 {
                    long_decimal(*x)
                } else {
                    format!("{}{}{}", pad, x, pad)
                }
            })
            .collect::<Vec<_>>()
            .join(",");
        if case.defect == "longrow" && i == bad_row {
            s += ",1.0";
        }
    }
    if case.csv_style != 2 {
        s += eol;
    }
    if case.csv_style == 6 {
        s += eol;
    }
    std::fs::write(path, s).unwrap();
}

/// Seconds in which what an analysis used must be gone
const PATIENCE: u64 = 15;

fn threads_alive() -> u64 {
    std::fs::read_dir("/proc/self/task").map(|d| d.count() as u64).unwrap_or(0)
}

fn open_files() -> u64 {
    // the listing itself is open while it is read
    std::fs::read_dir("/proc/self/fd").map(|d| d.count() as u64 - 1).unwrap_or(0)
}

/// Repeats the analysis; after each time what it used is given time to end.
fn leftovers(case: &Case, dir: &Path, writer: &Mutex<BufWriter<std::fs::File>>) {
    let (score, contribution) = (dir.join("score.0"), dir.join("contribution.0"));
    let (mut threads, mut files, mut heap) = (vec![threads_alive()], vec![open_files()], vec![crate::heap_in_use().max(0) as u64]);
    for i in 0..case.repeat {
        if case.mode == "array" {
            // another input of the same kind each time
            let mut c = case.clone();
            c.data.seed += i as u64;
            let (params, input) = array_input(&c, &score, &contribution, true);
            drop(c);
            let r = s2gpp(params, Some(input));
            assert!(matches!(&r, Ok(Some(_))), "analysis {} did not return scores", i);
        } else {
            let mut argv: Vec<String> = vec!["s2gpp".into()];
            argv.extend(arguments(case, dir, 0, &[]));
            let r = s2gpp(Parameters::from_iter_safe(argv).unwrap(), None);
            assert!(r.is_ok(), "analysis {} failed", i);
        }
        // the first analysis may leave what every later one uses again
        let start = std::time::Instant::now();
        let (before, in_use) = if i == 0 { (u64::MAX, u64::MAX) } else { (files[1], heap[1] + crate::oracle::LASTING_HEAP) };
        while (threads_alive() > threads[0] || open_files() > before || crate::heap_in_use().max(0) as u64 > in_use)
            && start.elapsed().as_secs() < PATIENCE
        {
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        threads.push(threads_alive());
        files.push(open_files());
        heap.push(crate::heap_in_use().max(0) as u64);
        if start.elapsed().as_secs() >= PATIENCE {
            break;
        }
    }
    let n = threads.len();
    marker(
        writer,
        "left",
        vec![
            ("threads", Value::Index(vec![n], threads)),
            ("files", Value::Index(vec![n], files)),
            ("heap", Value::Index(vec![n], heap)),
        ],
    );
}
