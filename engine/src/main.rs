//! symex LL HARNESS OUT.json [--case i/n] [--time S] [--qtime MS] [--paths N] [--dump DIR]
mod exec;
mod expr;
mod ir;
mod z3;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}
fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: symex LL HARNESS OUT.json [--case i/n] [--time S] [--qtime MS] [--paths N] [--dump DIR]");
        return 3;
    }
    let mut time = 600u64;
    let mut qtime = 120_000u32;
    let mut paths = 2_000_000u64;
    let mut steps = 60_000_000u64;
    let mut case = None;
    let mut dump = None;
    let mut maxv = 3usize;
    let mut tier = 0u32;
    let mut sites = false;
    let mut i = 4;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--time" => time = a[i + 1].parse().unwrap(),
            "--qtime" => qtime = a[i + 1].parse().unwrap(),
            "--paths" => paths = a[i + 1].parse().unwrap(),
            "--steps" => steps = a[i + 1].parse().unwrap(),
            "--maxv" => maxv = a[i + 1].parse().unwrap(),
            "--tier" => tier = a[i + 1].parse().unwrap(),
            "--sites" => sites = a[i + 1] == "1",
            "--dump" => dump = Some(a[i + 1].clone()),
            "--case" => {
                let (x, y) = a[i + 1].split_once('/').unwrap();
                case = Some((x.parse().unwrap(), y.parse().unwrap()));
            }
            x => {
                eprintln!("unknown option {x}");
                return 3;
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&a[1]);
    let tl = t0.elapsed().as_secs_f64();
    let mut z = z3::Z3::new(qtime);
    z.dump = dump;
    let lim = exec::Limits {
        max_paths: paths,
        max_steps_path: steps,
        deadline: Instant::now() + Duration::from_secs(time),
        case,
        trace: sites,
        max_violations: maxv,
        max_frames: 30_000,
        tier,
    };
    let mut e = exec::Engine::new(m, z, lim);
    e.run(&a[2]);
    if sites {
        let mut v: Vec<_> = e.sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(12) {
            eprintln!("{n:8} {k}");
        }
    }
    let r = &e.rep;
    let mut o = String::from("{");
    o += &format!("\"harness\":{},", js(&a[2]));
    o += &format!("\"case\":{},", case.map_or("null".into(), |(x, y): (u64, u64)| js(&format!("{x}/{y}"))));
    o += &format!(
        "\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"fast\":{},\"cached\":{},\"max_depth\":{},\"max_inputs\":{},",
        r.paths, r.infeasible, r.forks, r.steps, r.fast, r.cached, r.max_depth, r.max_inputs
    );
    o += &format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"load_s\":{:.3},\"wall_s\":{:.3},\"nodes\":{},",
        e.z.queries, e.z.sat, e.z.unsat, e.z.unknown, e.z.time, e.z.max_time, tl, t0.elapsed().as_secs_f64(), e.p.nodes.len()
    );
    let c: Vec<String> =
        r.checks.iter().map(|(k, v)| format!("{}:{{\"normal_form\":{},\"solver\":{}}}", js(k), v.0, v.1)).collect();
    o += &format!("\"checks\":{{{}}},", c.join(","));
    let c: Vec<String> = r.reached.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    o += &format!("\"reached\":{{{}}},", c.join(","));
    let c: Vec<String> = r.incomplete.iter().map(|k| js(k)).collect();
    o += &format!("\"incomplete\":[{}],", c.join(","));
    let c: Vec<String> = r.functions.iter().map(|k| js(k)).collect();
    o += &format!("\"functions\":[{}],", c.join(","));
    let c: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"id\":{},\"msg\":{},\"inputs\":{},\"ufs\":{}}}",
                js(&v.kind),
                js(&v.id),
                js(&v.msg),
                js(&hex(&v.inputs)),
                js(&hex(&v.ufs))
            )
        })
        .collect();
    o += &format!("\"violations\":[{}],", c.join(","));
    let c: Vec<String> = r
        .samples
        .iter()
        .map(|v| {
            let ob: Vec<String> = v.obs.iter().map(|x| js(&hex(x))).collect();
            format!(
                "{{\"inputs\":{},\"ufs\":{},\"obs\":[{}]}}",
                js(&hex(&v.inputs)),
                js(&hex(&v.ufs)),
                ob.join(",")
            )
        })
        .collect();
    o += &format!("\"samples\":[{}]}}\n", c.join(","));
    std::fs::write(&a[3], o).expect("write report");
    if !r.violations.is_empty() {
        1
    } else if !r.incomplete.is_empty() {
        2
    } else {
        0
    }
}
