mod dict;
mod dil;
mod kem;
mod prim;
mod scen;
mod sess;
mod tape;
mod vec21;
mod watch;
use std::collections::HashMap;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        if s.contains("HARNESS") {
            eprintln!("{s}");
            std::process::exit(3);
        }
    }));
    let mut a = std::env::args().skip(1);
    let cmd = a.next().unwrap_or_default();
    let mut m: HashMap<String, String> = HashMap::new();
    while let (Some(k), Some(v)) = (a.next(), a.next()) {
        m.insert(k.trim_start_matches("--").to_string(), v);
    }
    match &cmd[..] {
        "run" => scen::batch(&m),
        "prim" => prim::batch(&m),
        "vec21" => vec21::run(&m),
        "dil" => dil::run(&m),
        x => {
            eprintln!("HARNESS unknown command {x}");
            std::process::exit(3)
        }
    }
}
