mod alloc;
#[macro_use]
mod core;
mod damage;
mod gen;
mod item;
mod model;
mod node;
mod scen_id;
mod scen_misc;
mod scen_more;
mod scen_rand;
mod scen_peer;
mod scen_valid;
mod scen_wire;

use crate::core::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[global_allocator]
static METER: alloc::Meter = alloc::Meter;

pub struct Scenario {
    pub id: &'static str,
    pub f: fn(&mut Ctx) -> R,
    /// runs in the quick tier
    pub quick: u64,
    pub what: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

fn scenarios() -> Vec<Scenario> {
    let mut v = vec![];
    v.extend(scen_wire::scenarios());
    v.extend(scen_id::scenarios());
    v.extend(scen_valid::scenarios());
    v.extend(scen_misc::scenarios());
    v.extend(scen_more::scenarios());
    v.extend(scen_rand::scenarios());
    v.extend(scen_peer::scenarios());
    v
}
fn scenario(id: &str) -> Scenario {
    match scenarios().into_iter().find(|s| s.id == id) {
        Some(s) => s,
        None => die(&format!("no scenario for {id}")),
    }
}
fn die(m: &str) -> ! {
    eprintln!("sim: {m}");
    std::process::exit(2)
}

/// Hard ceiling for live memory of a simulated process.
const MEM_CAP: usize = 1 << 30;
const HANG_SECS: u64 = 120;

fn prop_num(id: &str) -> u64 {
    hash_bytes(id.as_bytes())
}
fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    mix(mix(seed, prop_num(prop)), run)
}

/// One simulated run. Panics of the code under test are violations, ours are "HARNESS".
fn run_one(s: &Scenario, c: &mut Ctx) -> R {
    alloc::set_cap(MEM_CAP);
    let f = s.f;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(c)));
    alloc::set_cap(0);
    match r {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = take_panic();
            let msg1: String = msg.chars().take(200).collect();
            if is_harness_loc(&loc) {
                viol("HARNESS", format!("{loc}: {msg1}"))
            } else {
                let short = loc.rsplit("/src/").next().unwrap_or(&loc).to_string();
                let file = short.split(':').next().unwrap_or("").to_string();
                viol(format!("panic:{file}"), format!("code under test panicked at {loc}: {msg1}"))
            }
        }
    }
}

// ------------------------------------------------------------------ dictionary
fn mine_dict(dir: &Path, out: &mut BTreeSet<u64>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut ents: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    ents.sort();
    for p in ents {
        if p.is_dir() {
            mine_dict(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            let Ok(t) = std::fs::read_to_string(&p) else { continue };
            mine_text(&t, out);
        }
    }
}
fn mine_text(t: &str, out: &mut BTreeSet<u64>) {
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i] as char;
        let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        // byte strings, as far as they fit a word
        if c == 'b' && !prev_ident && t[i + 1..].starts_with(['"', '\'']) {
            let q = b[i + 1];
            let s: Vec<u8> = b[i + 2..].iter().copied().take_while(|x| *x != q).take(8).collect();
            if !s.is_empty() && !s.contains(&b'\\') {
                out.insert(s.iter().fold(0, |a, x| a << 8 | *x as u64));
            }
            i += 2;
            continue;
        }
        if c.is_ascii_digit() && !prev_ident {
            let mut j = i;
            let (radix, start) = if t[i..].starts_with("0x") {
                j += 2;
                (16, i + 2)
            } else if t[i..].starts_with("0b") {
                j += 2;
                (2, i + 2)
            } else {
                (10, i)
            };
            let mut s = String::new();
            while j < b.len() && ((b[j] as char).is_digit(radix) || b[j] == b'_') {
                if b[j] != b'_' {
                    s.push(b[j] as char);
                }
                j += 1;
            }
            let _ = start;
            if let Ok(v) = u64::from_str_radix(&s, radix) {
                out.insert(v);
            }
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            i = j.max(i + 1);
        } else {
            i += 1;
        }
    }
}
fn dictionary() -> Vec<u64> {
    let repo = std::env::var("SIM_REPO").unwrap_or_else(|_| "/repo".into());
    let mut s = BTreeSet::new();
    mine_dict(&Path::new(&repo).join("src"), &mut s);
    s.into_iter().take(512).collect()
}

// ------------------------------------------------------------------ worker
fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn arg_u64(name: &str, d: u64) -> u64 {
    arg(name).and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn load_dict(dir: &Path) -> Rc<Vec<u64>> {
    let t = std::fs::read_to_string(dir.join("dict.json")).unwrap_or_else(|e| die(&format!("dict: {e}")));
    Rc::new(serde_json::from_str(&t).unwrap_or_default())
}
fn write_atomic(p: &Path, t: &str) {
    let tmp = PathBuf::from(format!("{}.tmp", p.display()));
    std::fs::write(&tmp, t).unwrap_or_else(|e| die(&format!("write {}: {e}", p.display())));
    std::fs::rename(&tmp, p).unwrap_or_else(|e| die(&format!("rename {}: {e}", p.display())));
}
fn known_classes(prop: &str) -> Vec<String> {
    let t = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("known: property={prop} class="))?;
            Some(l.split(" -- ").next().unwrap_or(l).trim().to_string())
        })
        .collect()
}

fn worker() {
    let prop = arg("--prop").unwrap_or_default();
    let s = scenario(&prop);
    let dir = PathBuf::from(arg("--dir").unwrap_or_default());
    let seed = arg_u64("--seed", 1);
    let (start, stride, total) = (arg_u64("--start", 0), arg_u64("--stride", 1), arg_u64("--total", 1));
    let deadline = Instant::now() + Duration::from_secs(arg_u64("--wall", 300));
    let dict = load_dict(&dir);
    let known = known_classes(&prop);
    use std::os::unix::fs::FileExt;
    let cur = std::fs::File::create(dir.join(format!("cur.{start}"))).unwrap_or_else(|e| die(&e.to_string()));
    let bound_file = dir.join("bound");
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut digest = 0u64;
    let (mut runs, mut ticks, mut draws, mut nontrivial) = (0u64, 0u64, 0u64, 0u64);
    let mut found = Value::Null;
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = start;
    while i < total {
        if runs % 16 == 0 {
            if Instant::now() > deadline {
                break;
            }
            if let Ok(t) = std::fs::read_to_string(&bound_file) {
                if let Ok(b) = t.trim().parse::<u64>() {
                    if i > b {
                        break;
                    }
                }
            }
        }
        let _ = cur.write_all_at(&i.to_le_bytes(), 0);
        let mut c = Ctx::random(run_seed(seed, &prop, i), dict.clone());
        let r = run_one(&s, &mut c);
        runs += 1;
        ticks += c.ticks;
        draws += c.rec.len() as u64;
        for (k, v) in &c.counts {
            *counts.entry(k).or_default() += v;
        }
        let mut h = c.sig;
        for v in &c.rec {
            h = mix(h, *v);
        }
        digest = digest.wrapping_add(mix(h, i));
        if c.nontrivial {
            nontrivial += 1;
            if sigs.len() < 2_000_000 {
                sigs.insert(c.sig);
            }
        }
        if let Err(v) = r {
            if known.contains(&v.class) {
                *knowns.entry(v.class).or_default() += 1;
            } else {
                found = json!({"run": i, "class": v.class, "msg": v.msg, "choices": c.rec, "marks": c.marks});
                break;
            }
        }
        i += stride;
    }
    let _ = cur.write_all_at(&u64::MAX.to_le_bytes(), 0);
    let mut raw = Vec::with_capacity(sigs.len() * 8);
    for x in &sigs {
        raw.extend(x.to_le_bytes());
    }
    let _ = std::fs::write(dir.join(format!("sigs.{start}")), raw);
    write_atomic(
        &dir.join(format!("out.{start}")),
        &json!({"runs": runs, "ticks": ticks, "draws": draws, "nontrivial": nontrivial, "counts": counts,
                "digest": digest, "found": found, "known": knowns})
        .to_string(),
    );
}

// ------------------------------------------------------------------ shrink
fn attempt(s: &Scenario, dict: &Rc<Vec<u64>>, ch: Vec<u64>, own: Option<(&Path, &Value)>) -> (Option<Violation>, Vec<u64>, Vec<usize>) {
    if let Some((dir, t)) = own {
        // the process dies in this run, or the run depends on those before it: every attempt gets
        // a process of its own
        let f = dir.join("attempt.json");
        let h = json!({"property": s.id, "dictionary": **dict, "choices": ch, "seed": t["seed"], "history": t["history"]});
        write_atomic(&f, &h.to_string());
        let (o, rec) = replay_streamed(&f, HANG_SECS);
        let v = match o {
            Outcome::Ok => None,
            Outcome::Viol { class, msg, .. } => Some(Violation { class, msg }),
        };
        return (v, rec, vec![]);
    }
    let mut c = Ctx::replay(ch, dict.clone());
    let r = run_one(s, &mut c);
    let mut rec = c.rec;
    while rec.last() == Some(&0) {
        rec.pop();
    }
    (r.err(), rec, c.marks)
}
/// Minimise the choice sequence while the same class is reported; writes progress to `best`.
fn shrink() {
    let prop = arg("--prop").unwrap_or_default();
    let s = scenario(&prop);
    let dir = PathBuf::from(arg("--dir").unwrap_or_default());
    let dict = load_dict(&dir);
    let t: Value = serde_json::from_str(&std::fs::read_to_string(dir.join("shrink.in")).unwrap_or_default())
        .unwrap_or_else(|e| die(&e.to_string()));
    let class = t["class"].as_str().unwrap_or("").to_string();
    let mut best: Vec<u64> = t["choices"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    let end = Instant::now() + Duration::from_secs(arg_u64("--secs", 20));
    let own = if t["dies"] == true || t["history"].is_array() { Some((dir.as_path(), &t)) } else { None };
    let (v, rec, mut marks) = attempt(&s, &dict, best.clone(), own);
    let Some(v) = v else { return };
    if v.class != class {
        return;
    }
    best = rec;
    let save = |b: &Vec<u64>, v: &Violation| {
        write_atomic(&dir.join("shrink.out"), &json!({"choices": b, "class": v.class, "msg": v.msg}).to_string());
    };
    save(&best, &v);
    let mut improved = true;
    let try_it = |cand: Vec<u64>, best: &mut Vec<u64>, marks: &mut Vec<usize>| -> bool {
        let (v, rec, m) = attempt(&s, &dict, cand, own);
        if let Some(v) = v {
            let better = rec.len() < best.len()
                || (rec.len() == best.len() && rec.iter().zip(best.iter()).map(|(a, b)| a.cmp(b)).find(|o| o.is_ne()) == Some(std::cmp::Ordering::Less));
            if v.class == class && better {
                *best = rec;
                *marks = m;
                save(best, &v);
                return true;
            }
        }
        false
    };
    while improved && Instant::now() < end {
        improved = false;
        // cut the tail
        let mut k = best.len() / 2;
        while k > 0 && Instant::now() < end {
            if best.len() > k {
                let cand = best[..best.len() - k].to_vec();
                if try_it(cand, &mut best, &mut marks) {
                    improved = true;
                    continue;
                }
            }
            k /= 2;
        }
        // delete marked spans
        let mut j = 0;
        while j + 1 < marks.len() && Instant::now() < end {
            let (a, b) = (marks[j], marks[j + 1]);
            if b <= best.len() && a < b {
                let mut cand = best[..a].to_vec();
                cand.extend_from_slice(&best[b..]);
                if try_it(cand, &mut best, &mut marks) {
                    improved = true;
                    continue;
                }
                // a span preceded by a "one more" flag
                if a > 0 {
                    let mut cand = best[..a - 1].to_vec();
                    cand.extend_from_slice(&best[b - 1..]);
                    if try_it(cand, &mut best, &mut marks) {
                        improved = true;
                        continue;
                    }
                }
            }
            j += 1;
        }
        // delete blocks
        for size in [64usize, 16, 8, 4, 2, 1] {
            let mut p = 0;
            while p < best.len() && Instant::now() < end {
                let e = (p + size).min(best.len());
                let mut cand = best[..p].to_vec();
                cand.extend_from_slice(&best[e..]);
                if try_it(cand, &mut best, &mut marks) {
                    improved = true;
                } else {
                    p += size;
                }
            }
        }
        // zero, then lower
        for size in [16usize, 4, 1] {
            let mut p = 0;
            while p < best.len() && Instant::now() < end {
                let e = (p + size).min(best.len());
                if best[p..e].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[p..e].iter_mut().for_each(|x| *x = 0);
                    improved |= try_it(cand, &mut best, &mut marks);
                }
                p += size;
            }
        }
        let mut p = 0;
        while p < best.len() && Instant::now() < end {
            for f in [|x: u64| x / 2, |x: u64| x.saturating_sub(1)] {
                while p < best.len() && best[p] > 0 && Instant::now() < end {
                    let mut cand = best.clone();
                    cand[p] = f(cand[p]);
                    if !try_it(cand, &mut best, &mut marks) {
                        break;
                    }
                    improved = true;
                }
            }
            p += 1;
        }
    }
}

// ------------------------------------------------------------------ replay
fn replay_inner() {
    let file = arg("--file").unwrap_or_default();
    let t: Value = serde_json::from_str(&std::fs::read_to_string(&file).unwrap_or_else(|e| die(&format!("{file}: {e}"))))
        .unwrap_or_else(|e| die(&e.to_string()));
    let s = scenario(t["property"].as_str().unwrap_or(""));
    let get = |k: &str| -> Vec<u64> { t[k].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default() };
    let dict = Rc::new(get("dictionary"));
    // runs that came before in the same process, when the violation needs what they left behind
    for i in get("history") {
        let _ = run_one(&s, &mut Ctx::random(run_seed(t["seed"].as_u64().unwrap_or(1), s.id, i), dict.clone()));
    }
    let mut c = if t["choices"].is_array() {
        Ctx::replay(get("choices"), dict)
    } else {
        Ctx::random(run_seed(t["seed"].as_u64().unwrap_or(1), s.id, t["run"].as_u64().unwrap_or(0)), dict)
    };
    c.trace = Some(vec![]);
    if let Some(f) = arg("--stream") {
        c.stream = Some(std::fs::File::create(&f).unwrap_or_else(|e| die(&e.to_string())));
    }
    let r = run_one(&s, &mut c);
    let out = match r {
        Ok(()) => json!({"ok": true, "trace": c.trace, "counts": c.counts}),
        Err(v) => json!({"ok": false, "class": v.class, "msg": v.msg, "trace": c.trace, "counts": c.counts}),
    };
    println!("{out}");
}

enum Outcome {
    Ok,
    Viol { class: String, msg: String, trace: Vec<String> },
}
/// Execute a replay file in a fresh process that streams its choices to a file as it makes them.
fn replay_streamed(file: &Path, hang: u64) -> (Outcome, Vec<u64>) {
    let st = PathBuf::from(format!("{}.stream", file.display()));
    let o = replay_with(file, hang, Some(&st));
    let b = std::fs::read(&st).unwrap_or_default();
    let _ = std::fs::remove_file(&st);
    let mut rec: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap_or_default())).collect();
    while rec.last() == Some(&0) {
        rec.pop();
    }
    (o, rec)
}
/// Execute a replay file in a fresh process.
fn replay_fresh(file: &Path, hang: u64) -> Outcome {
    replay_with(file, hang, None)
}
fn replay_with(file: &Path, hang: u64, stream: Option<&Path>) -> Outcome {
    let mut cmd = Command::new(std::env::current_exe().unwrap_or_else(|e| die(&e.to_string())));
    if let Some(p) = stream {
        cmd.args(["replay-inner", "--stream"]).arg(p).arg("--file").arg(file);
    } else {
        cmd.args(["replay-inner", "--file"]).arg(file);
    }
    let mut ch = cmd
        .env("RUST_BACKTRACE", "0")
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| die(&e.to_string()));
    let mut so = ch.stdout.take().unwrap_or_else(|| die("stdout"));
    let rd = std::thread::spawn(move || {
        let mut t = String::new();
        let _ = std::io::Read::read_to_string(&mut so, &mut t);
        t
    });
    let end = Instant::now() + Duration::from_secs(hang);
    let status = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break Some(st),
            _ if Instant::now() > end => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    let text = rd.join().unwrap_or_default();
    let Some(status) = status else {
        return Outcome::Viol { class: "hang".into(), msg: format!("no answer within {hang} s"), trace: vec![] };
    };
    if !status.success() {
        if status.code() == Some(2) {
            die("replay: harness error");
        }
        return Outcome::Viol { class: abort_class(&status), msg: "process of the code under test died".into(), trace: vec![] };
    }
    let t: Value = serde_json::from_str(text.trim()).unwrap_or_else(|e| die(&format!("replay output: {e}")));
    if t["ok"] == true {
        return Outcome::Ok;
    }
    Outcome::Viol {
        class: t["class"].as_str().unwrap_or("").into(),
        msg: t["msg"].as_str().unwrap_or("").into(),
        trace: t["trace"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default(),
    }
}
fn abort_class(st: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match st.signal() {
        Some(6) => "abort (allocation refused or stack exhausted)".into(),
        Some(11) => "segmentation fault".into(),
        Some(n) => format!("killed by signal {n}"),
        None => format!("exit code {:?}", st.code()),
    }
}
fn replay_cmd() {
    let file = std::env::args().nth(2).unwrap_or_else(|| die("replay FILE"));
    let t: Value = serde_json::from_str(&std::fs::read_to_string(&file).unwrap_or_else(|e| die(&e.to_string()))).unwrap_or_else(|e| die(&e.to_string()));
    match replay_fresh(Path::new(&file), HANG_SECS) {
        Outcome::Ok => {
            println!("no violation on this tree (recorded: {})", t["class"]);
            std::process::exit(0)
        }
        Outcome::Viol { class, msg, trace } => {
            for l in trace {
                println!("  {l}");
            }
            println!("{class}: {msg}");
            let same = Some(class.as_str()) == t["class"].as_str() && Some(msg.as_str()) == t["message"].as_str();
            println!("{}", if same { "REPRODUCED exactly" } else { "DIFFERS from the recorded violation" });
            println!("VIOLATION property={} replay={}", t["property"].as_str().unwrap_or(""), file);
            std::process::exit(1)
        }
    }
}

// ------------------------------------------------------------------ supervisor
fn verif() -> PathBuf {
    PathBuf::from(std::env::var("SIM_VERIF").unwrap_or_else(|_| "/verif".into()))
}
struct W {
    ch: Child,
    start: u64,
    last: u64,
    since: Instant,
    done: Option<std::process::ExitStatus>,
    hung: bool,
}

fn check() {
    let prop = std::env::args().nth(2).unwrap_or_else(|| die("check PROP"));
    let s = scenario(&prop);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let total = std::env::var("SIM_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(if tier == "quick" { s.quick } else { s.quick * 60 });
    let wall: u64 = std::env::var("SIM_WALL").ok().and_then(|v| v.parse().ok()).unwrap_or(if tier == "quick" { 300 } else { 1500 });
    let nw: u64 = std::env::var("SIM_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let t0 = Instant::now();
    let evdir = verif().join("evidence");
    let _ = std::fs::create_dir_all(evdir.join("replays"));
    let dir = verif().join("target").join(format!("run-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&e.to_string()));
    let dict = dictionary();
    write_atomic(&dir.join("dict.json"), &serde_json::to_string(&dict).unwrap_or_default());
    let exe = std::env::current_exe().unwrap_or_else(|e| die(&e.to_string()));
    let mut ws: Vec<W> = (0..nw)
        .map(|k| {
            let ch = Command::new(&exe)
                .args(["worker", "--prop", &prop, "--dir"])
                .arg(&dir)
                .args(["--seed", &seed.to_string(), "--start", &k.to_string(), "--stride", &nw.to_string()])
                .args(["--total", &total.to_string(), "--wall", &wall.to_string()])
                .env("RUST_BACKTRACE", "0")
                .stdout(Stdio::null())
                .spawn()
                .unwrap_or_else(|e| die(&e.to_string()));
            W { ch, start: k, last: u64::MAX - 1, since: Instant::now(), done: None, hung: false }
        })
        .collect();
    let cur_of = |dir: &Path, k: u64| -> u64 {
        std::fs::read(dir.join(format!("cur.{k}"))).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b[..].try_into().unwrap_or_default())).unwrap_or(u64::MAX - 1)
    };
    let mut bound: Option<u64> = None;
    // (run, class, msg, choices)
    let mut best: Option<(u64, String, String, Option<Vec<u64>>)> = None;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut ticks, mut draws, mut nontriv, mut digest) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    loop {
        let mut alive = 0;
        for w in ws.iter_mut().filter(|w| w.done.is_none()) {
            let cur = cur_of(&dir, w.start);
            if cur != w.last {
                w.last = cur;
                w.since = Instant::now();
            }
            match w.ch.try_wait() {
                Ok(Some(st)) => w.done = Some(st),
                _ => {
                    if w.since.elapsed() > Duration::from_secs(HANG_SECS) {
                        w.hung = true;
                        let _ = w.ch.kill();
                        w.done = w.ch.wait().ok();
                    } else {
                        alive += 1;
                        continue;
                    }
                }
            }
            // finished
            let st = w.done.unwrap_or_else(|| die("worker status"));
            let mut hit: Option<(u64, String, String, Option<Vec<u64>>)> = None;
            if w.hung {
                hit = Some((w.last, "hang".into(), format!("no answer within {HANG_SECS} s"), None));
            } else if st.success() {
                let t: Value = serde_json::from_str(&std::fs::read_to_string(dir.join(format!("out.{}", w.start))).unwrap_or_default())
                    .unwrap_or_else(|e| die(&format!("worker output: {e}")));
                runs += t["runs"].as_u64().unwrap_or(0);
                ticks += t["ticks"].as_u64().unwrap_or(0);
                draws += t["draws"].as_u64().unwrap_or(0);
                nontriv += t["nontrivial"].as_u64().unwrap_or(0);
                digest = digest.wrapping_add(t["digest"].as_u64().unwrap_or(0));
                if let Some(o) = t["counts"].as_object() {
                    for (k, v) in o {
                        *counts.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
                    }
                }
                if let Some(o) = t["known"].as_object() {
                    for (k, v) in o {
                        *knowns.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
                    }
                }
                if let Ok(b) = std::fs::read(dir.join(format!("sigs.{}", w.start))) {
                    for ch in b.chunks_exact(8) {
                        sigs.insert(u64::from_le_bytes(ch.try_into().unwrap_or_default()));
                    }
                }
                let f = &t["found"];
                if !f.is_null() {
                    let ch = f["choices"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect());
                    hit = Some((f["run"].as_u64().unwrap_or(0), f["class"].as_str().unwrap_or("").into(), f["msg"].as_str().unwrap_or("").into(), ch));
                }
            } else if st.code() == Some(2) {
                die("worker: harness error");
            } else {
                if w.last >= u64::MAX - 1 {
                    die(&format!("worker died outside a run: {st:?}"));
                }
                hit = Some((w.last, abort_class(&st), "process of the code under test died".into(), None));
            }
            if let Some(h) = hit {
                if best.as_ref().map_or(true, |b| h.0 < b.0) {
                    best = Some(h);
                }
                let b = best.as_ref().map(|b| b.0);
                if b != bound {
                    bound = b;
                    write_atomic(&dir.join("bound"), &b.unwrap_or(0).to_string());
                }
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let search_s = t0.elapsed().as_secs_f64();
    for (k, n) in &knowns {
        println!("KNOWN-FINDING: property={prop} {k} (met in {n} runs)");
    }
    // samples: the first runs, described by their traces
    let mut samples = vec![];
    for i in 0..3u64.min(total) {
        let f = dir.join("sample.json");
        write_atomic(&f, &json!({"property": prop, "seed": seed, "run": i, "dictionary": dict}).to_string());
        if best.as_ref().is_some_and(|b| b.0 <= i) {
            break;
        }
        let o = Command::new(&exe).args(["replay-inner", "--file"]).arg(&f).stderr(Stdio::null()).output();
        if let Ok(o) = o {
            if let Ok(t) = serde_json::from_slice::<Value>(&o.stdout) {
                let tr: Vec<Value> = t["trace"].as_array().map(|a| a.iter().take(25).cloned().collect()).unwrap_or_default();
                samples.push(json!({"run": i, "trace": tr}));
            }
        }
    }
    let mut exit = 0;
    let mut nviol = 0;
    if let Some((run, class, msg, choices)) = &best {
        if class == "HARNESS" {
            eprintln!("sim: harness error in run {run}: {msg}");
            let _ = std::fs::remove_dir_all(&dir);
            std::process::exit(2);
        }
        nviol = 1;
        exit = 1;
        let path = report(&s, seed, *run, nw, class, msg, choices.clone(), &dict, &dir);
        println!("VIOLATION property={prop} replay={}", path.display());
    }
    let faults: BTreeMap<&String, &u64> = counts.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let probes: BTreeMap<&String, &u64> = counts.iter().filter(|(k, _)| !k.starts_with("fault.")).collect();
    let per_hour = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sigs.len(),
            "rule": format!("one evaluation is one simulated run (one seed, one recorded choice sequence): {}. A run is non-trivial when it reached at least one decision of the property's oracle; runs are distinct by the hash of the abstract history (operations, kinds, length classes, faults, outcomes) they noted.", s.what),
            "samples": samples,
            "nontrivial_runs": nontriv,
            "runs_per_hour": per_hour(runs),
            "choices_drawn": draws,
            "simulated_time_ticks": ticks,
            "faults_injected": faults,
            "probes": probes,
            "dictionary_size": dict.len(),
            "workers": nw,
            "planned_runs": total,
            "exploration_digest": format!("{digest:016x}"),
            "components_real": s.real,
            "components_stub": s.stub,
        },
        "assumptions": ["sha2, fuel-crypto, fuel-types, serde_json, bincode at the locked versions behave as specified",
                        "the model in sim/src/model.rs states the published format and rules"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    write_atomic(&evdir.join(format!("{prop}.json")), &serde_json::to_string_pretty(&ev).unwrap_or_default());
    println!(
        "{prop} {tier} seed={seed}: {runs} runs, {} distinct, {:.1}s, digest {digest:016x}, violations {nviol}",
        sigs.len(),
        t0.elapsed().as_secs_f64()
    );
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(exit)
}

fn report(
    s: &Scenario,
    seed: u64,
    run: u64,
    stride: u64,
    class: &str,
    msg: &str,
    choices: Option<Vec<u64>>,
    dict: &[u64],
    dir: &Path,
) -> PathBuf {
    let path = verif().join("evidence/replays").join(format!("{}-{}-{}.json", s.id, seed, run));
    let mk = |ch: &Option<Vec<u64>>, class: &str, msg: &str, trace: &[String], note: &str| {
        let mut v = json!({"property": s.id, "scenario": s.what, "seed": seed, "run": run, "class": class, "message": msg,
               "dictionary": dict, "trace": trace, "note": note});
        if let Some(c) = ch {
            v["choices"] = json!(c);
        }
        v
    };
    let put = |v: &Value| write_atomic(&path, &serde_json::to_string(v).unwrap_or_default());
    // a run that killed its process left no record: run it again, streaming the choices
    let dies = choices.is_none();
    let choices = choices.or_else(|| {
        let f = dir.join("again.json");
        write_atomic(&f, &json!({"property": s.id, "seed": seed, "run": run, "dictionary": dict}).to_string());
        match replay_streamed(&f, HANG_SECS) {
            (Outcome::Viol { class: k, .. }, rec) if k == class => Some(rec),
            _ => None,
        }
    });
    let shrunk = |ch: &Vec<u64>, history: Option<&Vec<u64>>| -> Option<Vec<u64>> {
        let _ = std::fs::remove_file(dir.join("shrink.out"));
        write_atomic(&dir.join("shrink.in"), &json!({"class": class, "choices": ch, "dies": dies, "seed": seed, "history": history}).to_string());
        let exe = std::env::current_exe().unwrap_or_else(|e| die(&e.to_string()));
        let secs = std::env::var("SIM_SHRINK").unwrap_or_else(|_| "20".into());
        if let Ok(mut c) = Command::new(exe).args(["shrink", "--prop", s.id, "--secs", &secs, "--dir"]).arg(dir).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
            let end = Instant::now() + Duration::from_secs(60);
            loop {
                match c.try_wait() {
                    Ok(Some(_)) => break,
                    _ if Instant::now() > end => {
                        let _ = c.kill();
                        let _ = c.wait();
                        break;
                    }
                    _ => std::thread::sleep(Duration::from_millis(10)),
                }
            }
        }
        let t = std::fs::read_to_string(dir.join("shrink.out")).ok()?;
        let v = serde_json::from_str::<Value>(&t).ok()?;
        Some(v["choices"].as_array()?.iter().filter_map(|x| x.as_u64()).collect())
    };
    let small = match &choices {
        Some(ch) if class != "hang" => shrunk(ch, None).or_else(|| choices.clone()),
        _ => choices.clone(),
    };
    let hang = if class == "hang" { HANG_SECS } else { HANG_SECS * 2 };
    for ch in [&small, &choices] {
        put(&mk(ch, class, msg, &[], ""));
        if let Outcome::Viol { class: k, msg: m, trace } = replay_fresh(&path, hang) {
            if k == class {
                println!("{} run {run}: {k}: {m}", s.id);
                put(&mk(ch, &k, &m, &trace, "minimised; replay with: target/release/sim replay <this file>"));
                return path;
            }
        }
    }
    // the code under test keeps something from one run to the next: repeat the runs before this
    // one in the same process, as few of them as it takes
    let end = Instant::now() + Duration::from_secs(100);
    let again = |history: &[u64], ch: &Option<Vec<u64>>| -> Option<(String, Vec<String>)> {
        let mut v = mk(ch, class, msg, &[], "");
        v["history"] = json!(history);
        put(&v);
        match replay_fresh(&path, HANG_SECS / 2) {
            Outcome::Viol { class: k, msg, trace } if k == class => Some((msg, trace)),
            _ => None,
        }
    };
    let all: Vec<u64> = (0..run / stride).map(|n| run % stride + n * stride).collect();
    let sizes = if class == "hang" { vec![] } else { vec![1, 8, 64, 512, all.len()] };
    for k in sizes.into_iter().filter(|k| *k > 0 && *k <= all.len()) {
        if Instant::now() > end {
            break;
        }
        let last = &all[all.len() - k..];
        if again(last, &choices).is_none() {
            continue;
        }
        let mut keep = last.to_vec();
        let mut size = keep.len() / 2;
        while size > 0 && Instant::now() < end {
            let mut p = 0;
            while p < keep.len() && keep.len() > 1 && Instant::now() < end {
                let mut cand = keep.clone();
                cand.drain(p..(p + size).min(keep.len()));
                if again(&cand, &choices).is_some() {
                    keep = cand;
                } else {
                    p += size;
                }
            }
            size /= 2;
        }
        let small = choices.as_ref().filter(|_| Instant::now() < end).and_then(|ch| shrunk(ch, Some(&keep)));
        for ch in [&small, &choices] {
            if ch.is_none() && choices.is_some() {
                continue;
            }
            if let Some((m, trace)) = again(&keep, ch) {
                println!("{} run {run}, after {} other runs in the same process: {class}: {m}", s.id, keep.len());
                let mut v = mk(ch, class, &m, &trace, "needs what the runs listed under history leave behind; minimised; replay with: target/release/sim replay <this file>");
                v["history"] = json!(keep);
                put(&v);
                return path;
            }
        }
        break;
    }
    // the code under test depends on something outside the recorded choices
    println!("{} run {run}: {class}: {msg} (did not recur in a fresh process)", s.id);
    put(&mk(&choices, class, msg, &[], "observed once; did not recur on replay in a fresh process"));
    path
}

fn main() {
    install_panic_hook();
    match std::env::args().nth(1).as_deref() {
        Some("worker") => worker(),
        Some("shrink") => shrink(),
        Some("replay-inner") => replay_inner(),
        Some("replay") => replay_cmd(),
        Some("check") => check(),
        Some("list") => scenarios().iter().for_each(|s| println!("{} {}", s.id, s.what)),
        _ => die("usage: sim check PROP | replay FILE | list"),
    }
}
