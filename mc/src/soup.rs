//! Every token forest of a size over some alphabet, whether or not it means anything.
use crate::report::{Report, Violation, begin, end, hash};
use crate::sn::{T, forests, place};

/// Some of every sort of token.
pub const MANY: &[&str] = &["q", "é", "fn", "r#abc", "_", "10", "1.5", "\"s\"", "'c'", "'a", "=", "==", ",", ";", "-", "::", "<", ">", "#", "..", "|"];

/// The text of all forests with up to `n` trees, the groups being `groups` (3: without delimiters).
pub fn texts(names: &[&'static str], leaves: &[&'static str], groups: &[u8], n: usize) -> Vec<String> {
    let mut all = names.to_vec();
    for l in leaves {
        if !all.contains(l) {
            all.push(l);
        }
    }
    let mut memo = vec![];
    forests(n, &all, groups, &mut memo);
    let text = |f: &Vec<T>| {
        let mut s = String::new();
        place(f, &mut s);
        s
    };
    memo.iter().flatten().map(text).collect()
}

type Run<'a> = &'a dyn Fn(&str) -> syn::Result<String>;
/// The parser answers with a value or with an error inside the input, and twice the same.
pub fn total(rep: &mut Report, def: (&'static str, &'static str), text: &str, run: Run) {
    rep.traces += 1;
    rep.transitions += 2;
    if rep.traces % 4096 == 0 {
        proc_macro2::extra::invalidate_current_thread_spans();
    }
    let mut bad = |class: &str, expected: &str, got: String| {
        rep.violation(Violation {
            def: def.0.into(),
            src: def.1.into(),
            input: text.into(),
            class: class.into(),
            expected: expected.into(),
            got,
        })
    };
    let line = format!("\n{text}");
    begin(def.0, def.1, text);
    let runs = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (run(&line), run(&line))));
    let len = text.chars().count();
    let sort = match runs {
        Err(p) => {
            let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
            bad("panic", "a value or an error", s.unwrap_or_default());
            "panic".to_string()
        }
        Ok((Ok(a), Ok(b))) => {
            if a != b {
                bad("not the same again", &a, b);
            }
            rep.accepted += 1;
            a
        }
        Ok((Err(a), Err(b))) => {
            for e in a.clone() {
                let at = [e.span().start(), e.span().end()];
                if at.iter().any(|p| p.line == 2 && p.column > len) || at.iter().any(|p| p.line > 2) {
                    bad("error outside the input", "a place in the input or the call site", format!("{at:?}: {e}"));
                } else if e.to_string().is_empty() || e.to_compile_error().is_empty() {
                    bad("error without a message", "a message", format!("{at:?}"));
                }
            }
            if a.to_string() != b.to_string() || (a.span().start(), a.span().end()) != (b.span().start(), b.span().end()) {
                bad("not the same again", &a.to_string(), b.to_string());
            }
            rep.rejected += 1;
            a.to_string()
        }
        Ok((a, b)) => {
            bad("not the same again", &format!("{:?}", a.err()), format!("{:?}", b.err()));
            "differs".to_string()
        }
    };
    end();
    rep.outcomes.insert(hash(&crate::canon::strip(&sort)));
    rep.states.insert(hash(&format!("{} {}", def.0, crate::canon::strip(&sort))));
    if rep.samples.len() < 6 && rep.traces % 997 == 1 {
        rep.samples.push((def.1.into(), text.into(), sort));
    }
}
