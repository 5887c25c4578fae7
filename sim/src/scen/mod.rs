use crate::engine::Scenario;
pub mod chan2;
mod script;
mod chan;
pub mod files;
pub mod io;
#[cfg(feature = "http")]
mod http;
mod inloop;
mod loads;
mod memory;
pub use prog::to_var;
mod prog;
pub fn all() -> Vec<Scenario> {
    vec![
        Scenario { prop: "C03", name: "chan-order", make: chan::order, quick: (1800, 28), thorough: 20 },
        Scenario { prop: "C04", name: "chan-churn", make: chan::churn, quick: (1800, 28), thorough: 20 },
        Scenario { prop: "C05", name: "chan-readers", make: chan::readers, quick: (1500, 28), thorough: 20 },
        Scenario { prop: "C05", name: "chan-disconnect", make: chan2::disconnect, quick: (300, 24), thorough: 20 },
        Scenario { prop: "C05", name: "chan-shared-wait", make: chan2::shared_wait, quick: (8, 6), thorough: 4 },
        Scenario { prop: "C06", name: "in-loops", make: inloop::make, quick: (2200, 20), thorough: 20 },
        Scenario { prop: "C01", name: "prog-join", make: prog::join, quick: (2600, 16), thorough: 20 },
        Scenario { prop: "C02", name: "prog-isolation", make: prog::iso, quick: (1800, 16), thorough: 20 },
        Scenario { prop: "C07", name: "loads", make: loads::make, quick: (400, 16), thorough: 20 },
        Scenario { prop: "C08", name: "prog-modules", make: prog::mods, quick: (1500, 16), thorough: 20 },
        Scenario { prop: "C09", name: "prog-try", make: prog::tries, quick: (3200, 12), thorough: 20 },
        Scenario { prop: "C10", name: "prog-host", make: prog::hostcalls, quick: (4000, 12), thorough: 20 },
        Scenario { prop: "C11", name: "file-save", make: files::saves, quick: (1400, 32), thorough: 20 },
        Scenario { prop: "C12", name: "file-load", make: files::loads, quick: (1200, 24), thorough: 20 },
        Scenario { prop: "C13", name: "stdin", make: io::stdin, quick: (3500, 24), thorough: 20 },
        Scenario { prop: "C14", name: "time", make: io::time, quick: (2600, 24), thorough: 20 },
        #[cfg(feature = "http")]
        Scenario { prop: "C16", name: "http", make: http::make, quick: (2600, 24), thorough: 20 },
        Scenario { prop: "C17", name: "spawn-failure", make: io::spawn, quick: (1200, 24), thorough: 20 },
        Scenario { prop: "C18", name: "stdout", make: io::stdout, quick: (2600, 24), thorough: 20 },
        Scenario { prop: "C15", name: "prog-memory", make: prog::mem, quick: (300, 12), thorough: 20 },
        Scenario { prop: "C15", name: "memory-channels", make: memory::channels, quick: (200, 8), thorough: 20 },
        Scenario { prop: "C15", name: "memory-loads", make: memory::loads, quick: (40, 8), thorough: 20 },
        Scenario { prop: "C15", name: "memory-io", make: memory::io, quick: (120, 10), thorough: 20 },
        Scenario { prop: "C15", name: "memory-steady", make: memory::steady, quick: (90, 8), thorough: 20 },
        Scenario { prop: "C15", name: "links", make: memory::links, quick: (300, 16), thorough: 20 },
    ]
}
