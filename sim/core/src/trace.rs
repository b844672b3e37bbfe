//! A run is a pure function of a Trace: the operations, their arguments and every fault.
use crate::sim::KNAMES;
use std::collections::HashMap;
use std::fmt::Write;

#[derive(Clone, Default, PartialEq)]
pub struct Step {
    pub op: &'static str,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub v: Vec<u32>,
    pub f: Vec<u32>,        // allocation requests of this step that are refused
    pub from: u32,          // from this request on every request of the step is refused (0: none)
    pub e: u32,             // the e-th element clone of the step reports failure (0: none)
    pub p: Option<(u8, u32)>, // the n-th callback of a kind panics
    pub t: u32,             // thread (isolation world)
}
#[derive(Clone, Default)]
pub struct Trace {
    pub world: String,
    pub elem: String,
    pub cfg: Vec<(String, u64)>,
    pub steps: Vec<Step>,
}
impl Trace {
    pub fn get(&self, k: &str, d: u64) -> u64 {
        self.cfg.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(d)
    }
    pub fn to_text(&self) -> String {
        let mut o = String::new();
        let _ = writeln!(o, "world {}", self.world);
        let _ = writeln!(o, "elem {}", self.elem);
        for (k, v) in &self.cfg {
            let _ = writeln!(o, "cfg {k} {v}");
        }
        for s in &self.steps {
            let _ = writeln!(o, "{}", s.to_text());
        }
        o
    }
    pub fn parse(t: &str) -> Result<Trace, String> {
        let mut tr = Trace::default();
        let mut intern: HashMap<String, &'static str> = HashMap::new();
        for line in t.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let w: Vec<&str> = line.split_whitespace().collect();
            match w[0] {
                "world" => tr.world = w[1].into(),
                "elem" => tr.elem = w[1].into(),
                "cfg" => tr.cfg.push((w[1].into(), w[2].parse().map_err(|e| format!("{e}"))?)),
                "op" => {
                    let name: &'static str = *intern.entry(w[1].to_string()).or_insert_with(|| Box::leak(w[1].to_string().into_boxed_str()));
                    let mut s = Step { op: name, ..Default::default() };
                    for x in &w[2..] {
                        let (k, v) = x.split_once('=').ok_or("bad field")?;
                        let num = |v: &str| v.parse::<u64>().map_err(|e| format!("{e}: {v}"));
                        let list = |v: &str| -> Result<Vec<u32>, String> { v.split(',').filter(|y| !y.is_empty()).map(|y| y.parse::<u32>().map_err(|e| format!("{e}"))).collect() };
                        match k {
                            "a" => s.a = num(v)?,
                            "b" => s.b = num(v)?,
                            "c" => s.c = num(v)?,
                            "v" => s.v = list(v)?,
                            "refuse" => s.f = list(v)?,
                            "refuse_from" => s.from = num(v)? as u32,
                            "clonefail" => s.e = num(v)? as u32,
                            "thread" => s.t = num(v)? as u32,
                            "panic" => {
                                let (n, c) = v.split_once(':').ok_or("bad panic")?;
                                let k = KNAMES.iter().position(|y| *y == n).ok_or("bad kind")?;
                                s.p = Some((k as u8, num(c)? as u32));
                            }
                            _ => return Err(format!("unknown field {k}")),
                        }
                    }
                    tr.steps.push(s);
                }
                x => return Err(format!("unknown line {x}")),
            }
        }
        Ok(tr)
    }
}
impl Step {
    pub fn to_text(&self) -> String {
        let s = self;
        let mut o = format!("op {}", s.op);
        let join = |v: &Vec<u32>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        if s.a != 0 {
            let _ = write!(o, " a={}", s.a);
        }
        if s.b != 0 {
            let _ = write!(o, " b={}", s.b);
        }
        if s.c != 0 {
            let _ = write!(o, " c={}", s.c);
        }
        if !s.v.is_empty() {
            let _ = write!(o, " v={}", join(&s.v));
        }
        if !s.f.is_empty() {
            let _ = write!(o, " refuse={}", join(&s.f));
        }
        if s.from != 0 {
            let _ = write!(o, " refuse_from={}", s.from);
        }
        if s.e != 0 {
            let _ = write!(o, " clonefail={}", s.e);
        }
        if let Some((k, n)) = s.p {
            let _ = write!(o, " panic={}:{}", KNAMES[k as usize], n);
        }
        if s.t != 0 {
            let _ = write!(o, " thread={}", s.t);
        }
        o
    }
}
