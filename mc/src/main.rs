#![allow(unused_variables, unused_imports)]
//! Model checker for the parser library in /repo. Usage: mc <property> <quick|thorough>
//! [--replay FILE]. Exit 0: held on everything explored; 1: violation; 3: engine error.

mod ast;
mod checks;
mod explore;
mod model;
mod obs;
mod real;

use explore::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::Mutex;
use std::time::Instant;

fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| ".".into())
}

/// Known findings: lines `known: property=<id> key=<key> # text`.
fn load_known(id: &str) -> Vec<(String, String)> {
    let path = format!("{}/known_findings.txt", root());
    let Ok(s) = std::fs::read_to_string(path) else {
        return vec![];
    };
    let mut v = vec![];
    for l in s.lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={id} key=")) {
            let (k, t) = r.split_once(" # ").unwrap_or((r, r));
            v.push((k.trim().to_string(), t.trim().to_string()));
        }
    }
    v
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(id: &str, tier: &str, f: &Found) -> String {
    let dir = format!("{}/out", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}.replay");
    let choices: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
    let body = format!(
        "property {id}\ntier {tier}\npart {}\ncfg {}\nchoices {}\nkey {}\n\n{}\n",
        f.part,
        f.cfg,
        choices.join(" "),
        f.viol.key.replace('\n', " "),
        f.viol.text
    );
    if let Err(e) = std::fs::write(&path, body) {
        engine_error(&format!("cannot write {path}: {e}"));
    }
    std::fs::canonicalize(&path)
        .map(|p| p.display().to_string())
        .unwrap_or(path)
}

fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| engine_error(&e.to_string()));
    let mut m: BTreeMap<&str, &str> = BTreeMap::new();
    for l in s.lines().take(6) {
        if let Some((k, v)) = l.split_once(' ') {
            m.insert(k, v);
        } else {
            m.insert(l, "");
        }
    }
    let id = m["property"];
    let parts = checks::parts(id, m["tier"] == "thorough");
    let p = parts
        .iter()
        .find(|p| p.name == m["part"])
        .unwrap_or_else(|| engine_error("no such part"));
    let choices: Vec<u16> = m["choices"]
        .split_whitespace()
        .map(|x| x.parse().unwrap())
        .collect();
    let cfg: usize = m["cfg"].parse().unwrap();
    let ch = Ch::new(choices);
    let mut st = Stats::default();
    match run_case(p, cfg, &ch, &mut st) {
        Ok(()) => {
            println!("replay: no violation");
            0
        }
        Err(v) => {
            println!("replay: {}\n{}", v.key, v.text);
            println!("VIOLATION property={id} replay={path}");
            1
        }
    }
}

/// The explorer on spaces of known size: every sequence exactly once, and violations found.
fn self_test() {
    use std::collections::BTreeSet;
    let seen: Mutex<BTreeSet<(usize, Vec<u16>)>> = Mutex::new(BTreeSet::new());
    let p = part("self", 3, |cfg, ch, _| {
        let n = 4 + ch.pick(3);
        for _ in 0..n {
            ch.pick(2 + cfg);
        }
        assert!(seen.lock().unwrap().insert((cfg, ch.choices())), "twice");
        Ok(())
    });
    let o = explore(&p, &|_| false, &|_, _, _| ());
    let want: u64 = (2..5u64).map(|b| (4..7).map(|e| b.pow(e)).sum::<u64>()).sum();
    assert!(o.stats.execs == want && seen.lock().unwrap().len() as u64 == want && o.found.is_empty());
    let p = part("self", 1, |_, ch, _| {
        let v: Vec<usize> = (0..9).map(|_| ch.pick(3)).collect();
        if v == [2, 0, 1, 2, 2, 0, 0, 1, 2] {
            return Err(Viol::new("x", "x"));
        }
        Ok(())
    });
    let o = explore(&p, &|_| false, &|_, _, _| ());
    assert!(o.found.len() == 1);
    let f = &o.found[0];
    assert!((p.run)(0, &Ch::new(f.choices.clone()), &mut Stats::default()).is_err());
    let o = explore(&p, &|v| v.key == "x", &|_, _, _| ());
    assert!(o.found.is_empty() && o.known["x"] == 1 && o.stats.execs == 3u64.pow(9));
}

/// Runs the exploration in a child process. A child that dies abnormally (stack overflow, abort,
/// out of memory) is run again with a journal of the case each worker is in; each of those cases
/// is then replayed alone, and one that again kills its process is the violation.
fn supervise(id: &str, tier: &str, args: &[String]) -> i32 {
    use std::process::Command;
    let exe = std::env::current_exe().unwrap_or_else(|e| engine_error(&e.to_string()));
    let run = |args: &[String], journal: Option<&str>| -> Option<i32> {
        let mut c = Command::new(&exe);
        c.args(args).env("MC_CHILD", "1");
        if let Some(j) = journal {
            c.env("MC_JOURNAL", j);
        }
        c.status()
            .unwrap_or_else(|e| engine_error(&e.to_string()))
            .code()
    };
    if let Some(c @ (0 | 1 | 3)) = run(args, None) {
        return c;
    }
    eprintln!("the exploration died; running it again with a journal");
    let dir = format!("{}/out/journal.{}", root(), std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let second = run(args, Some(&dir));
    let mut code = 3;
    if let Some(c @ (0 | 1 | 3)) = second {
        // A verdict after all, but not a clean one: only a violation is believed.
        code = if c == 1 { 1 } else { 3 };
    } else {
        let mut files: Vec<_> = std::fs::read_dir(&dir)
            .map(|d| d.flatten().map(|f| f.path()).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            let Ok(bytes) = std::fs::read(&f) else { continue };
            let text = String::from_utf8_lossy(&bytes).to_string();
            let Some(line) = text.lines().next() else { continue };
            let mut it = line.splitn(3, ' ');
            let (Some(part), Some(cfg), Some(script)) = (it.next(), it.next(), it.next()) else {
                continue;
            };
            let choices: String = script
                .chars()
                .map(|c| if c.is_ascii_digit() { c } else { ' ' })
                .collect();
            let body = format!(
                "property {id}\ntier {tier}\npart {part}\ncfg {cfg}\nchoices {}\nkey {id}:process-died\n\nthe process running this case dies\n",
                choices.split_whitespace().collect::<Vec<_>>().join(" ")
            );
            let path = format!("{}/out/{id}.replay", root());
            if std::fs::write(&path, body).is_err() {
                continue;
            }
            let r = run(&["--replay".to_string(), path.clone()], None);
            match r {
                Some(0 | 3) => continue,
                Some(1) => {
                    code = 1;
                    break;
                }
                _ => {
                    println!("{part} configuration {cfg} choices {script}: the process running this case dies (stack overflow, abort or out of memory)");
                    println!("VIOLATION property={id} replay={path}");
                    code = 1;
                    break;
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if code == 3 {
        eprintln!("ENGINE-ERROR the exploration died and no single case reproduces it");
    }
    code
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|i| {
        if !in_guard() {
            eprintln!("harness panic: {i}");
        }
    }));
    if args.first().map(|x| x.as_str()) == Some("--replay") {
        // Run on a big stack like the workers do.
        let p = args[1].clone();
        let r = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || replay(&p))
            .unwrap()
            .join()
            .unwrap_or_else(|_| engine_error("replay panicked"));
        std::process::exit(r);
    }
    if args.first().map(|x| x.as_str()) == Some("--self-test") {
        self_test();
        println!("self-test passed");
        return;
    }
    let (id, tier) = match &args[..] {
        [a, b, ..] => (a.clone(), b.clone()),
        _ => engine_error("usage: mc <property> <quick|thorough> | --replay FILE"),
    };
    if std::env::var("MC_CHILD").is_err() {
        std::process::exit(supervise(&id, &tier, &args));
    }
    let thorough = tier == "thorough";
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(0);
    let t0 = Instant::now();
    let known = load_known(&id);
    let only = std::env::var("MC_PART").ok();
    let mut stats = Stats::default();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut found: Vec<Found> = vec![];
    let mut part_info = vec![];
    let mut complete = true;
    let is_known = |v: &Viol| known.iter().any(|(k, _)| *k == v.key);
    let hang_lock = Mutex::new(());
    let on_hang = |part: &'static str, cfg: usize, choices: &[u16]| {
        let _g = hang_lock.lock();
        let f = Found {
            part,
            cfg,
            choices: choices.to_vec(),
            viol: Viol::new("hang", "a single case did not finish within 60 s"),
        };
        let path = write_replay(&id, &tier, &f);
        println!("VIOLATION property={id} replay={path}");
        std::process::exit(1);
    };
    let parts = checks::parts(&id, thorough);
    if parts.is_empty() {
        engine_error("unknown property");
    }
    for p in &parts {
        if only.as_ref().is_some_and(|o| o != p.name) {
            continue;
        }
        let t = Instant::now();
        let o = explore(p, &is_known, &on_hang);
        let s = &o.stats;
        let line = format!(
            "{}: {} executions, {} choice edges, {} states, {} transitions, {} compared, {} outcomes, {:.1}s{}",
            p.name,
            s.execs,
            s.nodes,
            s.states,
            s.transitions,
            s.compared,
            s.outcomes.len(),
            t.elapsed().as_secs_f64(),
            if s.counters.is_empty() {
                String::new()
            } else {
                format!(" {:?}", s.counters)
            }
        );
        println!("{line}");
        part_info.push((p.name, line));
        complete &= o.complete;
        for (k, n) in o.known {
            *known_hits.entry(k).or_default() += n;
        }
        let stop = !o.found.is_empty();
        found.extend(o.found);
        stats.merge(o.stats);
        if stop {
            break;
        }
    }
    for (k, t) in &known {
        if known_hits.contains_key(k) {
            println!("KNOWN-FINDING: property={id} {t}");
        }
    }
    let mut code = 0;
    if let Some(f) = found.first() {
        let path = write_replay(&id, &tier, f);
        println!("{}", f.viol.text);
        println!("VIOLATION property={id} replay={path}");
        code = 1;
    } else if only.is_none() && (stats.compared == 0 || stats.outcomes.len() < 2) {
        engine_error("vacuous run: nothing was compared or all outcomes were the same");
    }
    // Evidence.
    let mut j = String::from("{\n");
    let _ = writeln!(j, " \"property\": {},", json(&id));
    let _ = writeln!(j, " \"tier\": {},", json(&tier));
    let _ = writeln!(j, " \"seed\": {seed},");
    let _ = writeln!(j, " \"level\": \"model_checking\",");
    let _ = writeln!(j, " \"coverage\": {{");
    let _ = writeln!(j, "  \"states\": {},", stats.states);
    let _ = writeln!(j, "  \"transitions\": {},", stats.transitions);
    let _ = writeln!(
        j,
        "  \"traces_validated_against_impl\": {},",
        stats.compared
    );
    let _ = writeln!(j, "  \"choice_tree_edges\": {},", stats.nodes);
    let _ = writeln!(j, "  \"executions\": {},", stats.execs);
    let _ = writeln!(j, "  \"distinct_outcomes\": {},", stats.outcomes.len());
    let _ = writeln!(
        j,
        "  \"exhaustive\": {},",
        complete && found.is_empty() && only.is_none()
    );
    let _ = writeln!(j, "  \"counters\": {{");
    let cs: Vec<String> = stats
        .counters
        .iter()
        .map(|(k, v)| format!("   {}: {v}", json(k)))
        .collect();
    let _ = writeln!(j, "{}\n  }},", cs.join(",\n"));
    let ps: Vec<String> = part_info.iter().map(|(_, l)| format!("   {}", json(l))).collect();
    let _ = writeln!(j, "  \"parts\": [\n{}\n  ],", ps.join(",\n"));
    let ss: Vec<String> = stats
        .samples
        .iter()
        .map(|s| format!("   {}", json(s)))
        .collect();
    let _ = writeln!(j, "  \"samples\": [\n{}\n  ]\n }},", ss.join(",\n"));
    let al: Vec<String> = checks::assumptions(&id)
        .iter()
        .map(|s| format!("  {}", json(s)))
        .collect();
    let _ = writeln!(j, " \"assumptions\": [\n{}\n ],", al.join(",\n"));
    let _ = writeln!(j, " \"wall_s\": {:.2},", t0.elapsed().as_secs_f64());
    let _ = writeln!(j, " \"violations\": {}", found.len());
    j.push_str("}\n");
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if only.is_none() {
        if let Err(e) = std::fs::write(format!("{dir}/{id}.json"), j) {
            engine_error(&format!("cannot write evidence: {e}"));
        }
    }
    println!(
        "{id} {tier}: {} states, {} transitions, {} real executions compared, {:.1}s, {}",
        stats.states,
        stats.transitions,
        stats.compared,
        t0.elapsed().as_secs_f64(),
        if code == 0 { "held" } else { "VIOLATED" }
    );
    std::process::exit(code);
}
