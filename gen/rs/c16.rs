// C16: truth tables of Flag, NameValue and NameArgs over all values x spans, and all operation sequences.
use mc::report::{hash, Report, Violation};
use proc_macro2::Span;
use structmeta::{Flag, NameArgs, NameValue};

fn spans() -> Vec<(&'static str, Span)> {
    let ts: proc_macro2::TokenStream = "aa bb (cc dd)".parse().unwrap();
    let v: Vec<_> = ts.into_iter().collect();
    vec![("call_site", Span::call_site()), ("mixed_site", Span::mixed_site()), ("aa", v[0].span()), ("bb", v[1].span()), ("(..)", v[2].span())]
}
fn show(s: Span) -> String {
    format!("{:?}..{:?}", s.start(), s.end())
}
fn key(f: &Flag) -> String {
    match f.span {
        None => "off".into(),
        Some(s) => format!("on@{}", show(s)),
    }
}
struct Ctx {
    r: Report,
}
impl Ctx {
    fn check(&mut self, op: &str, input: String, expected: String, got: String) {
        self.r.transitions += 1;
        self.r.traces += 1;
        self.r.accepted += 1;
        self.r.states.insert(hash(&format!("{op} {input}")));
        self.r.outcomes.insert(hash(&got));
        if self.r.samples.len() < 4 && self.r.traces % 101 == 7 {
            self.r.samples.push((op.into(), input.clone(), got.clone()));
        }
        if expected != got {
            self.r.violation(Violation { def: "argument types".into(), src: "structmeta::{Flag, NameValue, NameArgs}".into(),
                input: format!("{op}: {input}"), class: "wrong result of an operator".into(), expected, got });
        }
    }
}
/// The model of a flag: none, or the index of a span.
type M = Option<usize>;
fn m_or(a: M, b: M) -> M {
    if a.is_some() { a } else { b }
}
thread_local! {
    static RELATION: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// One of three values; which of them are equal is any of the 512 relations, also one that is no equivalence.
#[derive(Clone, Debug)]
#[allow(dead_code)]
struct Related {
    id: u32,
    relation: u32,
}
impl PartialEq for Related {
    fn eq(&self, other: &Self) -> bool {
        RELATION.get() >> (3 * self.id + other.id) & 1 == 1
    }
}
fn run() -> Report {
    let sp = spans();
    let mut c = Ctx { r: Report::default() };
    c.r.defs = 3;
    let states: Vec<M> = std::iter::once(None).chain((0..sp.len()).map(Some)).collect();
    let mk = |m: M| Flag { span: m.map(|i| sp[i].1) };
    let mkey = |m: M| key(&mk(m));
    let name = |m: M| m.map_or("off".to_string(), |i| format!("on@{}", sp[i].0));
    // the distinct ways to get a flag without stating a span
    c.check("NONE", "".into(), "off false".into(), format!("{} {}", key(&Flag::NONE), Flag::NONE.value()));
    c.check("default", "".into(), "off false".into(), format!("{} {}", key(&Flag::default()), Flag::default().value()));
    c.check("from false", "".into(), "off false".into(), format!("{} {}", key(&Flag::from(false)), Flag::from(false).value()));
    c.check("from true", "".into(), "true".into(), format!("{}", Flag::from(true).value()));
    let into: Flag = true.into();
    c.check("into true", "".into(), "true".into(), format!("{}", into.value()));
    let mut consts: Vec<(&str, bool, fn() -> Flag)> = vec![];
    consts.push(("NONE", false, || Flag::NONE));
    consts.push(("default", false, Flag::default));
    consts.push(("from(false)", false, || Flag::from(false)));
    consts.push(("from(true)", true, || Flag::from(true)));
    for &a in &states {
        let f = mk(a);
        c.check("value", name(a), a.is_some().to_string(), f.value().to_string());
        c.check("clone", name(a), mkey(a), key(&f.clone()));
        for (n, on, g) in &consts {
            for (l, r, t) in [(mk(a), g(), "=="), (g(), mk(a), "== (exchanged)")] {
                c.check(t, format!("{}, {n}", name(a)), (a.is_some() == *on).to_string(), (l == r).to_string());
            }
            // the operators with flags made in the other ways
            let e = if a.is_some() { mkey(a) } else if *on { key(&g()) } else { "off".into() };
            c.check("|", format!("{}, {n}", name(a)), e.clone(), key(&(mk(a) | g())));
            let mut x = mk(a);
            x |= g();
            c.check("|=", format!("{}, {n}", name(a)), e, key(&x));
            let e = if *on { key(&g()) } else { mkey(a) };
            c.check("|", format!("{n}, {}", name(a)), e.clone(), key(&(g() | mk(a))));
            let mut x = g();
            x |= mk(a);
            c.check("|=", format!("{n}, {}", name(a)), e, key(&x));
        }
        for &b in &states {
            let n = format!("{}, {}", name(a), name(b));
            c.check("==", n.clone(), (a.is_some() == b.is_some()).to_string(), (mk(a) == mk(b)).to_string());
            c.check("!=", n.clone(), (a.is_some() != b.is_some()).to_string(), (mk(a) != mk(b)).to_string());
            c.check("|", n.clone(), mkey(m_or(a, b)), key(&(mk(a) | mk(b))));
            let mut x = mk(a);
            x |= mk(b);
            c.check("|=", n.clone(), mkey(m_or(a, b)), key(&x));
        }
    }
    // all sequences of up to DEPTH operations on one flag
    let depth: usize = std::env::args().nth(2).unwrap().parse().unwrap();
    let mut frontier: Vec<(String, Flag, M)> = states.iter().map(|&a| (name(a), mk(a), a)).collect();
    for _ in 0..depth {
        let mut next = vec![];
        for (h, f, m) in &frontier {
            for &b in &states {
                let ops: [(&str, Flag, M); 3] = [
                    ("|", f.clone() | mk(b), m_or(*m, b)),
                    ("|=", { let mut x = f.clone(); x |= mk(b); x }, m_or(*m, b)),
                    ("rev |", mk(b) | f.clone(), m_or(b, *m)),
                ];
                for (o, g, n) in ops {
                    let h = format!("{h} {o} {}", name(b));
                    c.check("sequence", h.clone(), format!("{} {}", mkey(n), n.is_some()), format!("{} {}", key(&g), g.value()));
                    next.push((h, g, n));
                }
            }
        }
        frontier = next;
    }
    // NameValue and NameArgs: several value types, all pairs of values and spans
    fn pairs<T: PartialEq + Clone + std::fmt::Debug>(c: &mut Ctx, sp: &[(&'static str, Span)], vals: &[T]) {
        for (i, x) in vals.iter().enumerate() {
            for (j, y) in vals.iter().enumerate() {
                for (sn, s) in sp {
                    for (tn, t) in sp {
                        let n = format!("{x:?}@{sn}, {y:?}@{tn}");
                        let e = x == y;
                        assert!(i != j || e || format!("{x:?}").contains("NaN"));
                        let (a, b) = (NameValue { name_span: *s, value: x.clone() }, NameValue { name_span: *t, value: y.clone() });
                        c.check("NameValue ==", n.clone(), e.to_string(), (a == b).to_string());
                        c.check("NameValue !=", n.clone(), (!e).to_string(), (a != b).to_string());
                        let (a, b) = (NameArgs { name_span: *s, args: x.clone() }, NameArgs { name_span: *t, args: y.clone() });
                        c.check("NameArgs ==", n.clone(), e.to_string(), (a == b).to_string());
                        c.check("NameArgs !=", n.clone(), (!e).to_string(), (a != b).to_string());
                        let (k, l) = (a.clone(), b.clone());
                        c.check("NameArgs clone", n.clone(), format!("{} {} {e}", show(*s), show(*t)), format!("{} {} {}", show(k.name_span), show(l.name_span), k == l));
                        let (a, b) = (Some(a), Some(b));
                        c.check("Option<NameArgs> ==", n.clone(), e.to_string(), (a == b).to_string());
                        c.check("Option<NameArgs> == None", n, "false".into(), (a == None).to_string());
                    }
                }
            }
        }
    }
    pairs(&mut c, &sp, &[0u8, 1, 255]);
    pairs(&mut c, &sp, &[None, Some(0), Some(1)]);
    pairs(&mut c, &sp, &[vec![], vec![1], vec![1, 2], vec![2, 1]]);
    pairs(&mut c, &sp, &["".to_string(), "a".to_string(), "b".to_string()]);
    pairs(&mut c, &sp, &[0.0f64, -0.0, f64::NAN]);
    pairs(&mut c, &sp, &[(), ()]);
    let lits: Vec<syn::LitInt> = ["1", "2", "1"].iter().map(|s| syn::parse_str(s).unwrap()).collect();
    pairs(&mut c, &sp, &lits);
    let exprs: Vec<syn::Expr> = ["1", "a + b", "f(x)", "a+b"].iter().map(|s| syn::parse_str(s).unwrap()).collect();
    pairs(&mut c, &sp, &exprs);
    let flags = [Flag::NONE, mk(Some(0)), mk(Some(2)), mk(Some(3))];
    pairs(&mut c, &sp, &flags);
    // a value compared with itself, and value types with every relation whatever as their equality
    fn same<T: PartialEq + Clone + std::fmt::Debug>(c: &mut Ctx, sp: &[(&'static str, Span)], vals: &[T]) {
        for x in vals {
            for (sn, s) in sp {
                let e = x == x;
                let n = format!("{x:?}@{sn} and itself");
                let a = NameValue { name_span: *s, value: x.clone() };
                c.check("NameValue ==", n.clone(), e.to_string(), (&a == &a).to_string());
                c.check("NameValue !=", n.clone(), (!e).to_string(), (&a != &a).to_string());
                let a = NameArgs { name_span: *s, args: x.clone() };
                c.check("NameArgs ==", n.clone(), e.to_string(), (&a == &a).to_string());
                c.check("NameArgs !=", n.clone(), (!e).to_string(), (&a != &a).to_string());
            }
        }
    }
    same(&mut c, &sp, &[0.0f64, -0.0, f64::NAN]);
    same(&mut c, &sp, &["".to_string(), "a".to_string()]);
    same(&mut c, &sp, &[Flag::NONE, mk(Some(0)), mk(Some(2))]);
    same(&mut c, &sp, &[()]);
    for relation in 0..512u32 {
        RELATION.set(relation);
        let vals = [0, 1, 2].map(|id| Related { id, relation });
        same(&mut c, &sp[..1], &vals);
        for x in &vals {
            for y in &vals {
                for t in [sp[0].1, sp[2].1] {
                    let (e, n) = (x == y, format!("{x:?}, {y:?}"));
                    let (a, b) = (NameValue { name_span: sp[0].1, value: x.clone() }, NameValue { name_span: t, value: y.clone() });
                    c.check("NameValue ==", n.clone(), e.to_string(), (a == b).to_string());
                    c.check("NameValue !=", n.clone(), (!e).to_string(), (a != b).to_string());
                    let (a, b) = (NameArgs { name_span: sp[0].1, args: x.clone() }, NameArgs { name_span: t, args: y.clone() });
                    c.check("NameArgs ==", n.clone(), e.to_string(), (a == b).to_string());
                    c.check("NameArgs !=", n, (!e).to_string(), (a != b).to_string());
                }
            }
        }
    }
    // nested
    let inner: Vec<NameValue<u8>> = sp.iter().flat_map(|s| [0u8, 1].map(|v| NameValue { name_span: s.1, value: v })).collect();
    for (i, x) in inner.iter().enumerate() {
        for (j, y) in inner.iter().enumerate() {
            let (a, b) = (NameArgs { name_span: sp[0].1, args: *x }, NameArgs { name_span: sp[1].1, args: *y });
            c.check("nested ==", format!("{i}, {j}"), (i % 2 == j % 2).to_string(), (a == b).to_string());
        }
    }
    c.r
}
fn main() {
    let r = run();
    std::fs::write(std::env::args().nth(1).unwrap(), r.json()).unwrap();
}
