//! Bounded exhaustive exploration of the number types of babs.

// what is not needed depends on the configuration
#![allow(dead_code)]

mod conc;
mod deep;
mod engine;
mod hist;
mod num;
mod pat;
mod props;
mod refn;
mod text;

use babs::*;
use engine::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[global_allocator]
static ALLOC: conc::Hooked = conc::Hooked;

/// Add the spaces of a property for all types.
#[allow(unused_macros)]
fn plan(prop: &str, thorough: bool) -> Plan {
    let mut p = Plan { thorough, ..Plan::default() };
    let p = &mut p;
    macro_rules! all {
        ($f:path) => {{
            use $f as f;
            f::<UBigBin8>(p);
            f::<UBigDec8>(p);
            f::<UBigBin64>(p);
            f::<UBigDec64>(p);
            f::<UBigBin16>(p);
            f::<UBigDec16>(p);
            f::<UBigBin32>(p);
            f::<UBigDec32>(p);
        }};
    }
    // The layers of histories, unless they are left out
    let histories = std::env::var_os("MC_NO_HISTORIES").is_none();
    macro_rules! visit {
        ($q:expr) => {
            if histories {
                hist::visits::<UBigBin8>(p, $q);
                hist::visits::<UBigDec8>(p, $q);
                hist::visits::<UBigBin64>(p, $q);
                hist::visits::<UBigDec64>(p, $q);
                hist::visits::<UBigBin16>(p, $q);
                hist::visits::<UBigDec16>(p, $q);
                hist::visits::<UBigBin32>(p, $q);
                hist::visits::<UBigDec32>(p, $q);
            }
        };
    }
    macro_rules! layer {
        ($q:expr) => {if histories {
            hist::layer::<UBigBin8>(p, $q);
            hist::layer::<UBigDec8>(p, $q);
            hist::layer::<UBigBin64>(p, $q);
            hist::layer::<UBigDec64>(p, $q);
            hist::layer::<UBigBin16>(p, $q);
            hist::layer::<UBigDec16>(p, $q);
            hist::layer::<UBigBin32>(p, $q);
            hist::layer::<UBigDec32>(p, $q);
        }};
    }
    #[cfg(babs_mc)]
    {
        macro_rules! some {
            ($f:path) => {{
                use $f as f;
                #[cfg(babs_tiny)]
                f::<num::tiny::Tiny4>(p);
                #[cfg(babs_tiny)]
                f::<num::tiny::Tiny6>(p);
                #[cfg(babs_tiny)]
                if thorough {
                    f::<num::tiny::Tiny10>(p);
                }
                f::<UBigBin8>(p);
                f::<UBigDec8>(p);
                if thorough {
                    f::<UBigBin64>(p);
                    f::<UBigDec64>(p);
                    f::<UBigBin16>(p);
                    f::<UBigDec32>(p);
                }
            }};
        }
        if thorough {
            for q in ["C03", "C04", "C05"] {
                if prop == q || prop == "C18" {
                    #[cfg(babs_tiny)]
                    {
                        deep::scaled::<num::tiny::Tiny4>(p, q);
                        deep::scaled::<num::tiny::Tiny6>(p, q);
                        deep::scaled::<num::tiny::Tiny10>(p, q);
                    }
                    deep::scaled::<UBigBin8>(p, q);
                    deep::scaled::<UBigDec8>(p, q);
                    deep::scaled::<UBigBin64>(p, q);
                    deep::scaled::<UBigDec64>(p, q);
                }
            }
        }
        use props::scaled::*;
        match prop {
            "C03" => some!(props::scaled::mul),
            "C04" => {
                some!(props::scaled::square);
                some!(props::scaled::power)
            }
            "C05" => some!(props::scaled::div),
            "C13" => {
                todec::<UBigBin8>(p);
                todec::<UBigBin16>(p);
                todec::<UBigBin32>(p);
                todec::<UBigBin64>(p);
            }
            "C18" => {
                some!(props::scaled::mul);
                some!(props::scaled::square);
                some!(props::scaled::power);
                some!(props::scaled::div);
                some!(props::scaled::rest);
                todec::<UBigBin8>(p);
                todec::<UBigBin64>(p);
                layer!("C18");
            }
            "C20" => conc::c20(p),
            _ => {}
        }
    }
    #[cfg(not(babs_mc))]
    match prop {
        #[cfg(feature = "c01")]
        "C01" => {
            layer!("C01");
            all!(props::c01)
        }
        #[cfg(feature = "c02")]
        "C02" => {
            layer!("C02");
            all!(props::c02)
        }
        #[cfg(feature = "c03")]
        "C03" => {
            layer!("C03");
            all!(props::c03)
        }
        #[cfg(feature = "c04")]
        "C04" => {
            layer!("C04");
            all!(props::c04)
        }
        #[cfg(feature = "c05")]
        "C05" => {
            layer!("C05");
            all!(props::c05)
        }
        #[cfg(feature = "c06")]
        "C06" => {
            layer!("C06");
            all!(props::c06)
        }
        #[cfg(feature = "c07")]
        "C07" => {
            layer!("C07");
            all!(props::c07)
        }
        #[cfg(feature = "c08")]
        "C08" => {
            layer!("C08");
            all!(props::c08)
        }
        #[cfg(feature = "c09")]
        "C09" => all!(hist::c09),
        #[cfg(feature = "c10")]
        "C10" => {
            layer!("C10");
            all!(props::c10)
        }
        #[cfg(feature = "c11")]
        "C11" => {
            layer!("C11");
            all!(props::c11)
        }
        #[cfg(feature = "c12")]
        "C12" => {
            layer!("C12");
            all!(props::c12)
        }
        #[cfg(feature = "c13")]
        "C13" => {
            layer!("C13");
            props::c13::<UBigBin8>(p);
            props::c13::<UBigBin64>(p);
            props::c13::<UBigBin16>(p);
            props::c13::<UBigBin32>(p);
        }
        #[cfg(feature = "c14")]
        "C14" => hist::c14(p),
        #[cfg(feature = "c15")]
        "C15" => {
            visit!("C15");
            all!(props::c15)
        }
        #[cfg(feature = "c16")]
        "C16" => {
            visit!("C16");
            all!(props::c16)
        }
        #[cfg(feature = "c17")]
        "C17" => all!(hist::c17),
        #[cfg(feature = "c18")]
        "C18" => {
            layer!("C18");
            all!(props::c18)
        }
        #[cfg(feature = "c19")]
        "C19" => {
            visit!("C19");
            all!(props::c19)
        }
        #[cfg(feature = "c20")]
        "C20" => conc::c20(p),
        _ => panic!("property {}", prop),
    }
    #[cfg(not(babs_mc))]
    {
        use props::{every_digit, giant, halves, huge, large_blocks, memory};
        halves::<UBigBin16>(p, prop);
        halves::<UBigBin32>(p, prop);
        halves::<UBigBin64>(p, prop);
        halves::<UBigDec16>(p, prop);
        halves::<UBigDec32>(p, prop);
        halves::<UBigDec64>(p, prop);
        large_blocks::<UBigBin8>(p, prop);
        large_blocks::<UBigBin64>(p, prop);
        large_blocks::<UBigDec16>(p, prop);
        large_blocks::<UBigDec64>(p, prop);
        if p.thorough {
            large_blocks::<UBigBin16>(p, prop);
            large_blocks::<UBigBin32>(p, prop);
            large_blocks::<UBigDec8>(p, prop);
            large_blocks::<UBigDec32>(p, prop);
        }
        for f in [
            memory::<UBigBin8>,
            memory::<UBigBin16>,
            memory::<UBigBin32>,
            memory::<UBigBin64>,
            memory::<UBigDec8>,
            memory::<UBigDec16>,
            memory::<UBigDec32>,
            memory::<UBigDec64>,
        ] {
            f(p, prop);
        }
        every_digit::<UBigBin16>(p, prop);
        every_digit::<UBigDec16>(p, prop);
        giant::<UBigBin8>(p, prop);
        giant::<UBigBin64>(p, prop);
        giant::<UBigDec8>(p, prop);
        giant::<UBigDec64>(p, prop);
        if (p.thorough || matches!(prop, "C10" | "C13" | "C19")) && !cfg!(babs_bare) {
            giant::<UBigBin16>(p, prop);
            giant::<UBigBin32>(p, prop);
            giant::<UBigDec16>(p, prop);
            giant::<UBigDec32>(p, prop);
        }
        if p.thorough && std::env::var_os("MC_NO_DEEP").is_none() && !cfg!(babs_bare) {
            use deep::deep;
            deep::<UBigBin8>(p, prop);
            deep::<UBigDec8>(p, prop);
            deep::<UBigBin64>(p, prop);
            deep::<UBigDec64>(p, prop);
            deep::<UBigBin16>(p, prop);
            deep::<UBigDec16>(p, prop);
            deep::<UBigBin32>(p, prop);
            deep::<UBigDec32>(p, prop);
        }
        huge::<UBigBin8>(p, prop);
        huge::<UBigBin64>(p, prop);
        huge::<UBigDec8>(p, prop);
        huge::<UBigDec64>(p, prop);
        if p.thorough || matches!(prop, "C01" | "C02" | "C06" | "C10") {
            huge::<UBigBin16>(p, prop);
            huge::<UBigBin32>(p, prop);
            huge::<UBigDec16>(p, prop);
            huge::<UBigDec32>(p, prop);
        }
    }
    std::mem::take(p)
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str) -> String {
    if s.len() > 3000 {
        format!("{}... ({} bytes)", s.chars().take(3000).collect::<String>(), s.len())
    } else {
        s.to_string()
    }
}

fn write_out(path: &str, p: &Plan, t: &Totals, wall: f64) {
    let mut o = String::from("{\n");
    let _ = write!(
        o,
        "\"jobs\":{},\"evals\":{},\"distinct\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"complete\":{},\"wall_s\":{:.3},\n",
        p.jobs.len(),
        t.evals,
        t.distinct,
        t.states,
        t.transitions,
        t.traces,
        t.complete,
        wall
    );
    let f: Vec<String> = t
        .fails
        .iter()
        .take(20)
        .map(|f| format!("{{\"case\":{},\"got\":{},\"want\":{}}}", json(&f.case), json(&clip(&f.got)), json(&clip(&f.want))))
        .collect();
    let _ = write!(o, "\"fails\":[{}],\n", f.join(",\n"));
    let s: Vec<String> = t.samples.iter().map(|s| json(s)).collect();
    let _ = write!(o, "\"samples\":[{}],\n", s.join(",\n"));
    let n: Vec<String> = t.notes.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect();
    let _ = write!(o, "\"notes\":{{{}}},\n", n.join(","));
    let f: Vec<String> = t.families.iter().map(|(k, v)| format!("{}:[{},{}]", json(k), v.0, v.1)).collect();
    let _ = write!(o, "\"families\":{{{}}}\n}}\n", f.join(",\n"));
    std::fs::write(path, o).unwrap();
}

/// A case as `key=value` fields separated by blanks
fn fields(s: &str) -> BTreeMap<String, String> {
    s.split_whitespace()
        .filter_map(|f| f.split_once('='))
        .map(|(k, v)| (k.to_string(), v.to_string()))
        .collect()
}

fn replay(case: &str) -> (bool, String, String) {
    let kv = fields(case);
    macro_rules! by_type {
        ($f:path) => {{
            use $f as f;
            match kv["type"].as_str() {
                "bin8" => f::<UBigBin8>(&kv),
                "bin16" => f::<UBigBin16>(&kv),
                "bin32" => f::<UBigBin32>(&kv),
                "bin64" => f::<UBigBin64>(&kv),
                "dec8" => f::<UBigDec8>(&kv),
                "dec16" => f::<UBigDec16>(&kv),
                "dec32" => f::<UBigDec32>(&kv),
                "dec64" => f::<UBigDec64>(&kv),
                #[cfg(babs_tiny)]
                "tiny4" => f::<num::tiny::Tiny4>(&kv),
                #[cfg(babs_tiny)]
                "tiny6" => f::<num::tiny::Tiny6>(&kv),
                #[cfg(babs_tiny)]
                "tiny10" => f::<num::tiny::Tiny10>(&kv),
                t => panic!("type {}", t),
            }
        }};
    }
    match kv["kind"].as_str() {
        "op" => by_type!(engine::replay_op),
        "forms" => by_type!(engine::replay_forms),
        "history" => by_type!(hist::replay),
        "visit" => by_type!(hist::replay_visit),
        "law" => by_type!(hist::replay_law),
        "lockstep" => hist::replay_lockstep(&kv),
        "placed" => by_type!(conc::replay_placed),
        "calls" => conc::replay_calls(&kv),
        #[cfg(not(babs_access))]
        "twins" => conc::replay_twins(&kv),
        #[cfg(not(babs_access))]
        "crowd" => conc::replay_crowd(&kv),
        "sched" => conc::replay_sched(&kv),
        k => panic!("kind {}", k),
    }
}

fn main() {
    num::install_panic_hook();
    if let Err(e) = std::panic::catch_unwind(main2) {
        eprintln!("mc: {}", num::LAST_PANIC.with(|p| p.borrow().clone()));
        std::panic::resume_unwind(e);
    }
}

fn main2() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "run" | "job" => {
            // run PROP TIER OUT PROGRESS | job PROP TIER OUT INDEX TRACE
            text::self_check();
            let p = plan(arg(2), arg(3) == "thorough");
            let t0 = std::time::Instant::now();
            let job = arg(1) == "job";
            let hang = std::env::var("MC_HANG").ok().map_or(25, |s| s.parse().unwrap());
            let t = if job {
                run(&p, Some(arg(5).parse().unwrap()), Some(arg(6)), hang, None)
            } else {
                run(&p, None, None, hang, if arg(5).is_empty() { None } else { Some(arg(5)) })
            };
            write_out(arg(4), &p, &t, t0.elapsed().as_secs_f64());
            if !t.fails.is_empty() {
                println!("FAIL {}\n  got  {}\n  want {}", clip(&t.fails[0].case), clip(&t.fails[0].got), clip(&t.fails[0].want));
                std::process::exit(3);
            }
        }
        "replay" => {
            let case = std::fs::read_to_string(arg(2)).unwrap();
            let line = case.lines().find(|l| l.starts_with("kind=")).expect("a line with the case").to_string();
            let body = move || replay(&line);
            let r = std::thread::Builder::new().stack_size(engine::STACK).spawn(body).unwrap().join();
            match r {
                Ok((ok, got, want)) => {
                    println!("got  {}\nwant {}\n{}", clip(&got), clip(&want), if ok { "HOLDS" } else { "BROKEN" });
                    std::process::exit(if ok { 0 } else { 3 });
                }
                Err(_) => std::process::exit(4),
            }
        }
        _ => {
            eprintln!("usage: mc run PROP TIER OUT [PROGRESS] | job PROP TIER OUT INDEX TRACE | replay FILE");
            std::process::exit(2);
        }
    }
}
