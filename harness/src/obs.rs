//! The observations of one analysis, structured by stage; one `Obs` per cluster node.
use crate::events::Ev;
use std::collections::{BTreeMap, HashMap};

pub type R<T> = Result<T, String>;

#[derive(Default, Clone)]
pub struct Points {
    pub id: Vec<usize>,
    pub segment: Vec<usize>,
    pub dims: usize,
    pub coords: Vec<f32>,
}
impl Points {
    pub fn len(&self) -> usize {
        self.id.len()
    }
    pub fn at(&self, i: usize) -> &[f32] {
        &self.coords[i * self.dims..(i + 1) * self.dims]
    }
}

#[derive(Clone)]
pub struct Transition {
    pub from: usize,
    pub to: usize,
    pub from_seg: usize,
    pub to_seg: usize,
    pub a: Vec<f32>,
    pub b: Vec<f32>,
}

#[derive(Clone)]
pub struct Inters {
    pub from: Vec<usize>,
    pub dims: usize,
    pub coords: Vec<f32>,
}

#[derive(Clone)]
pub struct Clust {
    pub labels: Vec<usize>,
    pub dims: usize,
    pub centers: Vec<f32>,
}

/// (from segment, from cluster, from id, to segment, to cluster, to id)
pub type Edge = [usize; 6];

#[derive(Default)]
pub struct Obs {
    pub node: usize,
    pub data: Option<Ev>,
    pub pca: Vec<Ev>,
    pub matrix: Option<Ev>,
    pub points: Option<Points>,
    pub segmented: Option<Points>,
    pub transitions: Option<Vec<Transition>>,
    pub inters: Option<BTreeMap<usize, Inters>>,
    pub clust: BTreeMap<usize, Clust>,
    /// (segment, cluster, from id)
    pub nodes: Option<Vec<[usize; 3]>>,
    pub edges: Option<Vec<Edge>>,
    pub transposed: Option<Vec<Edge>>,
    pub scoring_edges: Option<Vec<Edge>>,
    pub edges_in_time: Option<Vec<usize>>,
    pub weights: Option<HashMap<[usize; 4], usize>>,
    pub degrees: Option<HashMap<[usize; 2], usize>>,
    pub raw: Option<Vec<f32>>,
    pub raw_first_empty: bool,
    pub score: Option<Vec<f32>>,
    pub returned: Option<Vec<f32>>,
    pub n_events: usize,
    pub order: Vec<String>,
}

fn us(v: &[u64]) -> Vec<usize> {
    v.iter().map(|x| *x as usize).collect()
}
fn rows<const N: usize>(v: &[u64]) -> Vec<[usize; N]> {
    v.chunks(N)
        .map(|c| {
            let mut a = [0; N];
            for (x, y) in a.iter_mut().zip(c) {
                *x = *y as usize;
            }
            a
        })
        .collect()
}

fn points(e: &Ev) -> R<Points> {
    let (shape, coords) = e.f("coords")?;
    Ok(Points {
        id: us(e.u("id")?.1),
        segment: us(e.u("segment")?.1),
        dims: *shape.get(1).unwrap_or(&0),
        coords: coords.to_vec(),
    })
}

/// Splits a process's events into its analyses.
pub fn parse(events: &[Ev]) -> R<Vec<Obs>> {
    let mut out: Vec<Obs> = vec![];
    for e in events {
        if e.name == "run" {
            out.push(Obs::default());
            continue;
        }
        let o = match out.last_mut() {
            Some(o) => o,
            None => continue,
        };
        o.n_events += 1;
        if e.name != "intersections" && e.name != "clustering" {
            o.order.push(e.name.clone());
        }
        if e.fields.contains_key("node") {
            o.node = e.u1("node")?;
        }
        match e.name.as_str() {
            "data" => o.data = Some(e.clone()),
            "pca" => o.pca.push(e.clone()),
            "rotation_matrix" => o.matrix = Some(e.clone()),
            "points" => o.points = Some(points(e)?),
            "segmented_points" => o.segmented = Some(points(e)?),
            "transitions" => {
                let ids = rows::<4>(e.u("ids")?.1);
                let (s, a) = e.f("from")?;
                let d = *s.get(1).unwrap_or(&0);
                let b = e.f("to")?.1;
                o.transitions = Some(
                    ids.iter()
                        .enumerate()
                        .map(|(i, r)| Transition {
                            from: r[0],
                            to: r[1],
                            from_seg: r[2],
                            to_seg: r[3],
                            a: a[i * d..(i + 1) * d].to_vec(),
                            b: b[i * d..(i + 1) * d].to_vec(),
                        })
                        .collect(),
                );
            }
            "intersections" => {
                let (s, c) = e.f("coords")?;
                o.inters.get_or_insert_with(BTreeMap::new).insert(
                    e.u1("segment")?,
                    Inters {
                        from: us(e.u("from_id")?.1),
                        dims: *s.get(1).unwrap_or(&0),
                        coords: c.to_vec(),
                    },
                );
            }
            "intersections_done" => {
                o.inters.get_or_insert_with(BTreeMap::new);
            }
            "clustering" => {
                let (s, c) = e.f("centers")?;
                o.clust.insert(
                    e.u1("segment")?,
                    Clust {
                        labels: us(e.u("labels")?.1),
                        dims: *s.get(1).unwrap_or(&0),
                        centers: c.to_vec(),
                    },
                );
            }
            "nodes" => o.nodes = Some(rows::<3>(e.u("nodes")?.1)),
            "edges" => o.edges = Some(rows::<6>(e.u("edges")?.1)),
            "transposed_edges" => o.transposed = Some(rows::<6>(e.u("edges")?.1)),
            "scoring_edges" => o.scoring_edges = Some(rows::<6>(e.u("edges")?.1)),
            "scoring_inputs" => {
                o.edges_in_time = Some(us(e.u("edges_in_time")?.1));
                o.weights = Some(
                    rows::<5>(e.u("weights")?.1)
                        .into_iter()
                        .map(|r| ([r[0], r[1], r[2], r[3]], r[4]))
                        .collect(),
                );
                o.degrees = Some(
                    rows::<3>(e.u("degrees")?.1)
                        .into_iter()
                        .map(|r| ([r[0], r[1]], r[2]))
                        .collect(),
                );
            }
            "raw_scores" => {
                o.raw = Some(e.f("scores")?.1.to_vec());
                o.raw_first_empty = e.u1("first_empty")? != 0;
            }
            "score" => o.score = Some(e.f("score")?.1.to_vec()),
            "returned" => o.returned = Some(e.f("score")?.1.to_vec()),
            _ => {}
        }
    }
    Ok(out)
}
