//! Replays recorded inputs natively: reads lines `function a b c d : in0 in1 ...` and prints one JSON line each.
use harness::api::raw::{Ctx, Cut, CTX};
use std::io::{BufRead, Write};
fn main() {
    let t = std::thread::spawn(|| {
        std::panic::set_hook(Box::new(|_| {}));
        let stdin = std::io::stdin();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let (head, ins) = line.split_once(':').unwrap();
            let h: Vec<&str> = head.split_whitespace().collect();
            let a: Vec<u64> = h[1..].iter().map(|x| x.parse().unwrap()).collect();
            let inputs = ins.split_whitespace().map(|x| x.parse().unwrap()).collect();
            CTX.with(|c| *c.borrow_mut() = Ctx { inputs, ..Default::default() });
            let f = harness::lookup(h[0]).expect("no such harness");
            let g = |i: usize| a.get(i).copied().unwrap_or(0);
            let r = std::panic::catch_unwind(|| f(g(0), g(1), g(2), g(3)));
            let mut panicked = None;
            if let Err(e) = r {
                if !e.is::<Cut>() {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
                    panicked = Some(m);
                }
            }
            CTX.with(|c| {
                let c = c.borrow();
                let hex: String = c.obs.iter().map(|b| format!("{:02x}", b)).collect();
                let o = serde_json::json!({"panicked": panicked, "failed": c.failed, "obs": hex, "expect": c.expect, "bad": c.bad});
                println!("{}", o);
                std::io::stdout().flush().unwrap();
            });
        }
    });
    t.join().unwrap();
}
