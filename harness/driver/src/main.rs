mod clock;
mod hook;
mod mock;
mod scram;
mod sim;
mod wire;

use std::io::{BufRead, Write};
use std::sync::Mutex;

pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let what = info
            .payload()
            .downcast_ref::<&str>()
            .map(|x| x.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if let Ok(mut p) = PANICS.lock() {
            p.push(format!("{what} @ {at}"));
        }
    }));
    let mode = std::env::args().nth(1).unwrap_or_default();
    match mode.as_str() {
        "sim" => {
            clock::go_virtual();
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            for line in stdin.lock().lines() {
                let line = line.expect("stdin");
                if line.trim().is_empty() {
                    continue;
                }
                let sc: serde_json::Value = serde_json::from_str(&line).expect("scenario json");
                let tr = sim::run(&sc);
                let mut o = stdout.lock();
                serde_json::to_writer(&mut o, &tr).unwrap();
                o.write_all(b"\n").unwrap();
                o.flush().unwrap();
            }
        }
        _ => {
            eprintln!("usage: driver sim < scenarios > traces");
            std::process::exit(2);
        }
    }
}
