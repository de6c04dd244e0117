//! Result file of one explorer process: counts, samples and violations as JSON.
use std::collections::HashSet;
use std::fmt::Write as _;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Report {
    pub defs: u64,
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<(String, String, String)>,
    pub violations: Vec<Violation>,
    pub violation_count: u64,
}
pub struct Violation {
    pub def: String,
    pub src: String,
    pub input: String,
    pub class: String,
    pub expected: String,
    pub got: String,
}
pub fn hash(s: &str) -> u64 {
    // FNV-1a
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Report {
    pub fn violation(&mut self, v: Violation) {
        self.violation_count += 1;
        if self.violations.len() < 200 {
            self.violations.push(v);
        }
    }
    pub fn json(&self) -> String {
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"defs\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"accepted\":{},\"rejected\":{},\"outcomes\":{},\"violation_count\":{},\"samples\":[",
            self.defs,
            self.states.len(),
            self.transitions,
            self.traces,
            self.accepted,
            self.rejected,
            self.outcomes.len(),
            self.violation_count
        );
        for (i, (a, b, c)) in self.samples.iter().enumerate() {
            let _ = write!(
                o,
                "{}{{\"definition\":{},\"input\":{},\"outcome\":{}}}",
                if i > 0 { "," } else { "" },
                esc(a),
                esc(b),
                esc(c)
            );
        }
        o.push_str("],\"violations\":[");
        for (i, v) in self.violations.iter().enumerate() {
            let _ = write!(
                o,
                "{}{{\"def\":{},\"src\":{},\"input\":{},\"class\":{},\"expected\":{},\"got\":{}}}",
                if i > 0 { "," } else { "" },
                esc(&v.def),
                esc(&v.src),
                esc(&v.input),
                esc(&v.class),
                esc(&v.expected),
                esc(&v.got)
            );
        }
        o.push_str("]}\n");
        o
    }
}

/// The trace being replayed: since when, definition, its source, input.
static NOW: Mutex<(Option<Instant>, &'static str, &'static str, String)> = Mutex::new((None, "", "", String::new()));
static TRACE: Mutex<Option<std::fs::File>> = Mutex::new(None);

/// Says which trace is replayed from now on.
pub fn begin(id: &'static str, src: &'static str, input: &str) {
    let mut n = NOW.lock().unwrap();
    n.0 = Some(Instant::now());
    n.1 = id;
    n.2 = src;
    n.3.clear();
    n.3.push_str(input);
    if let Some(f) = &*TRACE.lock().unwrap() {
        let text = stuck(id, src, input, "the process died").json();
        let _ = f.set_len(0);
        let _ = std::os::unix::fs::FileExt::write_at(f, text.as_bytes(), 0);
    }
}
pub fn end() {
    NOW.lock().unwrap().0 = None;
}
fn stuck(id: &str, src: &str, input: &str, got: &str) -> Report {
    let mut r = Report { defs: 1, traces: 1, transitions: 1, ..Report::default() };
    r.violation(Violation {
        def: id.into(),
        src: src.into(),
        input: input.into(),
        class: "no answer".into(),
        expected: "a value or an error".into(),
        got: got.into(),
    });
    r
}
/// Ends the process with a report when one trace takes longer than 40 seconds or fills the memory. With
/// MC_TRACE set, each trace is noted in that file before it is replayed.
pub fn watch(out: &str) {
    if let Ok(f) = std::env::var("MC_TRACE") {
        *TRACE.lock().unwrap() = Some(std::fs::File::create(f).unwrap());
    }
    let out = out.to_string();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let n = NOW.lock().unwrap();
            let Some(t) = n.0 else { continue };
            let t = t.elapsed().as_secs();
            let pages = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
            let mb = pages.split(' ').nth(1).and_then(|p| p.parse::<u64>().ok()).unwrap_or(0) / 256;
            if t >= 40 || t >= 1 && mb > 2500 {
                let _ = std::fs::write(&out, stuck(n.1, n.2, &n.3, "does not end").json());
                std::process::exit(0);
            }
        }
    });
}
