//! Observations of one process, written to and read from a small binary file.
use std::collections::HashMap;
use std::io::{self, Read, Write};

#[derive(Clone, Debug)]
pub enum Val {
    F(Vec<usize>, Vec<f32>),
    U(Vec<usize>, Vec<u64>),
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub name: String,
    pub fields: HashMap<String, Val>,
}

impl Ev {
    pub fn f(&self, key: &str) -> Result<(&[usize], &[f32]), String> {
        match self.fields.get(key) {
            Some(Val::F(s, d)) => Ok((s, d)),
            _ => Err(format!("event {} has no float field {}", self.name, key)),
        }
    }
    pub fn u(&self, key: &str) -> Result<(&[usize], &[u64]), String> {
        match self.fields.get(key) {
            Some(Val::U(s, d)) => Ok((s, d)),
            _ => Err(format!("event {} has no index field {}", self.name, key)),
        }
    }
    pub fn u1(&self, key: &str) -> Result<usize, String> {
        self.u(key)?
            .1
            .first()
            .map(|x| *x as usize)
            .ok_or_else(|| format!("event {} has empty field {}", self.name, key))
    }
}

fn w_u64(w: &mut impl Write, x: u64) -> io::Result<()> {
    w.write_all(&x.to_le_bytes())
}
fn r_u64(r: &mut impl Read) -> io::Result<u64> {
    let mut b = [0; 8];
    r.read_exact(&mut b)?;
    Ok(u64::from_le_bytes(b))
}
fn w_str(w: &mut impl Write, s: &str) -> io::Result<()> {
    w_u64(w, s.len() as u64)?;
    w.write_all(s.as_bytes())
}
fn r_str(r: &mut impl Read) -> io::Result<String> {
    let n = r_u64(r)? as usize;
    let mut b = vec![0; n];
    r.read_exact(&mut b)?;
    Ok(String::from_utf8_lossy(&b).into_owned())
}

pub fn write(w: &mut impl Write, e: &s2gpp::verif::Event) -> io::Result<()> {
    use s2gpp::verif::Value;
    w_str(w, e.name)?;
    w_u64(w, e.fields.len() as u64)?;
    for (k, v) in &e.fields {
        w_str(w, k)?;
        match v {
            Value::Float(s, d) => {
                w_u64(w, 0)?;
                w_u64(w, s.len() as u64)?;
                for x in s {
                    w_u64(w, *x as u64)?;
                }
                w_u64(w, d.len() as u64)?;
                let bytes: Vec<u8> = d.iter().flat_map(|x| x.to_le_bytes()).collect();
                w.write_all(&bytes)?;
            }
            Value::Index(s, d) => {
                w_u64(w, 1)?;
                w_u64(w, s.len() as u64)?;
                for x in s {
                    w_u64(w, *x as u64)?;
                }
                w_u64(w, d.len() as u64)?;
                let bytes: Vec<u8> = d.iter().flat_map(|x| x.to_le_bytes()).collect();
                w.write_all(&bytes)?;
            }
        }
    }
    Ok(())
}

pub fn read_all(path: &std::path::Path) -> io::Result<Vec<Ev>> {
    let mut r = io::BufReader::new(std::fs::File::open(path)?);
    let mut out = vec![];
    loop {
        let name = match r_str(&mut r) {
            Ok(n) => n,
            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
            Err(e) => return Err(e),
        };
        let read = || -> io::Result<Ev> {
            let nf = r_u64(&mut r)?;
            let mut fields = HashMap::new();
            for _ in 0..nf {
                let k = r_str(&mut r)?;
                let tag = r_u64(&mut r)?;
                let nd = r_u64(&mut r)?;
                let shape: Vec<usize> = (0..nd)
                    .map(|_| r_u64(&mut r).map(|x| x as usize))
                    .collect::<Result<_, _>>()?;
                let n = r_u64(&mut r)? as usize;
                if tag == 0 {
                    let mut b = vec![0; n * 4];
                    r.read_exact(&mut b)?;
                    let d = b
                        .chunks(4)
                        .map(|c| f32::from_le_bytes([c[0], c[1], c[2], c[3]]))
                        .collect();
                    fields.insert(k, Val::F(shape, d));
                } else {
                    let mut b = vec![0; n * 8];
                    r.read_exact(&mut b)?;
                    let d = b
                        .chunks(8)
                        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                        .collect();
                    fields.insert(k, Val::U(shape, d));
                }
            }
            Ok(Ev { name, fields })
        };
        let mut read = read;
        match read() {
            Ok(e) => out.push(e),
            // a process that was ended leaves a torn last record
            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
            Err(e) => return Err(e),
        }
    }
    Ok(out)
}
