//! Which iteration orders of a small HashMap the answers reach (a HashMap created first, second, ... in a thread).
use std::collections::HashMap;
fn main() {
    for n in 2..=4 {
        for _ in 0..4 {
            let m: HashMap<String, ()> = (0..n).map(|i| (format!("p{i}"), ())).collect();
            print!("{} ", m.into_keys().map(|k| k[1..].to_string()).collect::<String>());
        }
    }
    println!();
}
