mod exec;
mod interpose;
mod jpeg;
mod mem;
mod model;
mod props;
mod reader;
mod sched;
mod subject;
mod tape;

use std::collections::HashMap;

pub const CONFIG: &str = if cfg!(feature = "rayon") {
    if cfg!(feature = "pi") { "rp" } else { "rs" }
} else if cfg!(feature = "pi") {
    "np"
} else {
    "ns"
};

fn fix_address_space(cpu: usize) {
    unsafe {
        // one CPU: the threads of a simulated process run one at a time anyway
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let sz = std::mem::size_of::<libc::cpu_set_t>();
        if interpose::raw_syscall6(libc::SYS_sched_getaffinity as usize, 0, sz, &mut set as *mut _ as usize, 0, 0, 0) > 0 {
            let cpus: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
            if !cpus.is_empty() {
                let mut one: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cpus[cpu % cpus.len()], &mut one);
                libc::sched_setaffinity(0, sz, &one);
            }
        }
        const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
        let cur = libc::personality(0xffffffff);
        if cur != -1 && (cur as libc::c_ulong) & ADDR_NO_RANDOMIZE == 0 && std::env::var_os("JDSIM_EXECD").is_none() {
            if libc::personality(cur as libc::c_ulong | ADDR_NO_RANDOMIZE) != -1 {
                let exe = std::fs::read_link("/proc/self/exe").ok();
                if let Some(exe) = exe {
                    use std::os::unix::process::CommandExt;
                    let e = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("JDSIM_EXECD", "1").exec();
                    eprintln!("re-exec failed: {}", e);
                }
            }
        }
    }
}

#[allow(static_mut_refs)]
fn load_known(path: &str) {
    // "finding: property=<id> key=<class> ..." lines
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let get = |k: &str| r.split_whitespace().find_map(|w| w.strip_prefix(k)).map(|x| x.to_string());
                if let (Some(p), Some(k)) = (get("property="), get("key=")) {
                    unsafe { exec::KNOWN.push((p, k)) };
                }
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut pos = vec![];
    let mut i = 1;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            opt.insert(k.to_string(), args.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(args[i].clone());
            i += 1;
        }
    }
    let num = |k: &str, d: u64| opt.get(k).map_or(d, |v| v.parse().unwrap());
    let st = |k: &str, d: &str| opt.get(k).cloned().unwrap_or_else(|| d.to_string());
    fix_address_space(num("cpu", 0) as usize);
    exec::init_shm();
    interpose::init();
    subject::install_hook();
    if let Some(k) = opt.get("known") {
        load_known(k);
    }
    let cmd = pos.first().map(|s| s.as_str()).unwrap_or("");
    let find = |p: &str| props::lookup(p).unwrap_or_else(|| panic!("unknown property {}", p));
    let code = match cmd {
        "run" => {
            let prop = st("prop", "");
            let b = exec::Batch {
                prop: prop.clone(),
                config: CONFIG.into(),
                base: num("base", 1),
                start: num("start", 0),
                step: num("step", 1),
                runs: num("runs", 1000),
                secs: opt.get("secs").map_or(1e9, |v| v.parse().unwrap()),
                thorough: num("thorough", 0) != 0,
                out_dir: st("out", "."),
                tag: st("tag", "0"),
                max_violations: num("max-violations", 1) as usize,
                sched_style: num("style", 1) as u32,
            };
            exec::batch(&b, find(&prop))
        }
        // addresses of the instrumented edges, to be symbolised against the executable
        "pcs" => {
            let base = std::fs::read_to_string("/proc/self/maps").unwrap();
            let base = usize::from_str_radix(base.split('-').next().unwrap(), 16).unwrap();
            for i in 1..=interpose::n_guards() {
                println!("{:#x}", interpose::pc_of(i) - base);
            }
            0
        }
        "replay" => exec::replay(&pos[1], &find),
        "one" => {
            let prop = st("prop", "");
            let seed = num("seed", 1);
            let sch = sched::Sched::Policy(exec::policy_for(seed, num("style", 1) as u32));
            let o = exec::run_child(find(&prop), &prop, seed, None, &sch, num("thorough", 0) != 0);
            println!("{:?} {} {}\nhash {:x} ev {:x} tape {} devs {}\n{}", o.end, o.class, o.msg, o.hash, o.ev_hash, o.tape.len(), o.devs.len(), exec::last_trace());
            0
        }
        _ => {
            eprintln!("jdsim run|replay|one");
            2
        }
    };
    std::process::exit(code);
}
