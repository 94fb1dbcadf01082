//! Stands in for turtle, the build system: the subset of Ninja the build scripts use, run by what
//! files contain. A command that is interrupted or fails runs again.
use crate::programs::{error, hash};
use pensim::{api::*, sys::Invocation};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    io::{self, Write},
    path::Path,
    process::{Command, Stdio},
    sync::{Condvar, Mutex},
};

type Scope = BTreeMap<String, String>;

#[derive(Clone, Debug, Default)]
struct Edge {
    rule: String,
    outputs: Vec<String>,
    inputs: Vec<String>,
    implicit: Vec<String>,
    order: Vec<String>,
    command: String,
    dyndep: Option<String>,
}

#[derive(Default)]
struct Script {
    edges: Vec<Edge>,
    defaults: Vec<String>,
    builddir: String,
}

fn expand(text: &str, scopes: &[&Scope]) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(at) = rest.find('$') {
        out += &rest[..at];
        rest = &rest[at + 1..];
        if let Some(r) = rest.strip_prefix('$') {
            out.push('$');
            rest = r;
            continue;
        }
        let (name, r) = match rest.strip_prefix('{') {
            Some(r) => r.split_once('}').unwrap_or((r, "")),
            None => rest.split_at(rest.find(|c: char| !c.is_alphanumeric() && c != '_').unwrap_or(rest.len())),
        };
        out += scopes.iter().find_map(|s| s.get(name)).map(|s| s.as_str()).unwrap_or_default();
        rest = r;
    }
    out + rest
}

fn words(text: &str, scopes: &[&Scope]) -> Vec<String> {
    expand(text, scopes).split_whitespace().map(|w| w.to_string()).collect()
}

fn read(path: &str) -> io::Result<String> {
    fs::read_to_string(path).map_err(|e| io::Error::new(e.kind(), format!("{path}: {e}")))
}

fn parse(path: &str, variables: &Scope, rules: &BTreeMap<String, Scope>, script: &mut Script) -> io::Result<()> {
    let text = read(path)?;
    let mut variables = variables.clone();
    let mut rules = rules.clone();
    let mut lines = text.lines().peekable();
    while let Some(line) = lines.next() {
        if line.trim().is_empty() || line.starts_with('#') {
            continue;
        }
        let mut block = Scope::new();
        while let Some(l) = lines.next_if(|l| l.starts_with(' ')) {
            let Some((name, value)) = l.split_once('=') else { return error(format!("{path}: {l}")) };
            block.insert(name.trim().into(), value.trim_start().into());
        }
        if let Some(name) = line.strip_prefix("rule ") {
            rules.insert(name.trim().into(), block);
        } else if let Some(rest) = line.strip_prefix("build ") {
            let Some((outputs, rest)) = rest.split_once(": ").or_else(|| rest.split_once(':')) else { return error(format!("{path}: {line}")) };
            let (rule, rest) = rest.trim().split_once(' ').unwrap_or((rest.trim(), ""));
            let (rest, order) = rest.split_once("||").unwrap_or((rest, ""));
            let (inputs, implicit) = rest.split_once('|').unwrap_or((rest, ""));
            let block = block.iter().map(|(k, v)| (k.clone(), expand(v, &[&variables]))).collect::<Scope>();
            let (outputs, hidden) = outputs.split_once('|').unwrap_or((outputs, ""));
            let mut edge = Edge {
                rule: rule.into(),
                outputs: words(outputs, &[&variables]),
                inputs: words(inputs, &[&variables]),
                implicit: words(implicit, &[&variables]),
                order: words(order, &[&variables]),
                dyndep: block.get("dyndep").cloned(),
                ..Default::default()
            };
            if rule != "phony" {
                let Some(command) = rules.get(rule).and_then(|r| r.get("command")) else { return error(format!("{path}: unknown rule {rule}")) };
                let special = [("in".to_string(), edge.inputs.join(" ")), ("out".to_string(), edge.outputs.join(" "))].into_iter().collect();
                edge.command = expand(command, &[&special, &block, &variables]);
            }
            edge.outputs.extend(words(hidden, &[&variables]));
            script.edges.push(edge);
        } else if let Some(rest) = line.strip_prefix("subninja ") {
            parse(&expand(rest, &[&variables]), &variables, &rules, script)?;
        } else if let Some(rest) = line.strip_prefix("default ") {
            script.defaults.extend(words(rest, &[&variables]));
        } else if let Some((name, value)) = line.split_once('=') {
            let value = expand(value.trim_start(), &[&variables]);
            if name.trim() == "builddir" {
                script.builddir = value.clone();
            }
            variables.insert(name.trim().into(), value);
        } else {
            return error(format!("{path}: {line}"));
        }
    }
    Ok(())
}

/// What a database has for the first output of each command: the hash of what it was made from.
struct Database {
    path: String,
    entries: BTreeMap<String, u64>,
    outputs: BTreeSet<String>,
}

impl Database {
    fn open(builddir: &str) -> io::Result<Self> {
        let path = format!("{builddir}/.turtle");
        let mut database = Self { path, entries: BTreeMap::new(), outputs: BTreeSet::new() };
        let text = match fs::read_to_string(&database.path) {
            Ok(text) => text,
            Err(e) if e.kind() == io::ErrorKind::NotFound => String::new(),
            Err(e) => return Err(e),
        };
        for line in text.lines().filter_map(|l| l.strip_suffix(" .")) {
            match line.split(' ').collect::<Vec<_>>().as_slice() {
                ["+", output, hash] => {
                    database.entries.insert(output.to_string(), u64::from_str_radix(hash, 16).unwrap_or_default());
                }
                ["-", output] => {
                    database.entries.remove(*output);
                }
                ["o", output] => {
                    database.outputs.insert(output.to_string());
                }
                _ => {}
            }
        }
        Ok(database)
    }

    fn append(&self, lines: &[String]) -> io::Result<()> {
        let mut text = "\n".to_string();
        for l in lines {
            text += &format!("{l} .\n");
        }
        fs::OpenOptions::new().create(true).append(true).open(&self.path)?.write_all(text.as_bytes())
    }
}

struct State {
    edges: Vec<Edge>,
    done: Vec<bool>,
    running: Vec<bool>,
    needed: BTreeSet<usize>,
    targets: Vec<String>,
    failed: Option<String>,
}

impl State {
    fn maker(&self, path: &str) -> Option<usize> {
        self.edges.iter().position(|e| e.outputs.iter().any(|o| o == path))
    }

    /// Adds what is needed: what dynamic dependencies say is known once they are.
    fn extend(&mut self) {
        let mut todo: Vec<String> = self.targets.clone();
        for i in self.needed.clone() {
            todo.extend(self.edges[i].implicit.clone());
        }
        while let Some(path) = todo.pop() {
            if let Some(i) = self.maker(&path) {
                if self.needed.insert(i) {
                    let e = &self.edges[i];
                    todo.extend(e.inputs.iter().chain(&e.implicit).chain(&e.order).chain(&e.dyndep).cloned());
                }
            }
        }
    }

    fn ready(&self) -> Vec<usize> {
        self.needed
            .iter()
            .copied()
            .filter(|&i| {
                let e = &self.edges[i];
                !self.done[i] && !self.running[i] && e.inputs.iter().chain(&e.implicit).chain(&e.order).chain(&e.dyndep).all(|p| self.maker(p).is_none_or(|m| self.done[m]))
            })
            .collect()
    }
}

fn run_command(command: &str) -> io::Result<()> {
    for part in command.split(" && ") {
        let words: Vec<&str> = part.split_whitespace().collect();
        let Some((program, arguments)) = words.split_first() else { return error("empty command") };
        let output = Command::new(program).args(arguments).stdin(Stdio::null()).output()?;
        io::stdout().write_all(&output.stdout)?;
        let _ = io::stderr().write_all(&output.stderr);
        if !output.status.success() {
            return error(format!("{}: {part}", output.status));
        }
    }
    Ok(())
}

/// Makes the outputs of an edge unless they are up to date.
fn make(edge: &Edge, database: &Mutex<Database>) -> io::Result<()> {
    if edge.rule == "phony" {
        return Ok(());
    }
    let mut always = false;
    let mut text = edge.command.clone();
    for path in edge.inputs.iter().chain(&edge.implicit) {
        match fs::read(path) {
            Ok(data) => text += &format!(" {path} {:016x}", hash(&data)),
            Err(e) if e.kind() == io::ErrorKind::NotFound => always = true, // checked before
            Err(e) => return Err(io::Error::new(e.kind(), format!("{path}: {e}"))),
        }
    }
    let key = &edge.outputs[0];
    let hash = hash(text.as_bytes());
    {
        let mut database = database.lock().unwrap();
        if !always && database.entries.get(key) == Some(&hash) && edge.outputs.iter().all(|o| Path::new(o).exists()) {
            return Ok(());
        }
        let mut lines: Vec<_> = edge.outputs.iter().filter(|o| !database.outputs.contains(*o)).map(|o| format!("o {o}")).collect();
        if database.entries.remove(key).is_some() {
            lines.push(format!("- {key}"));
        }
        if !lines.is_empty() {
            database.append(&lines)?;
        }
        database.outputs.extend(edge.outputs.iter().cloned());
    }
    for output in &edge.outputs {
        if let Some(directory) = Path::new(output).parent() {
            fs::create_dir_all(directory)?;
        }
    }
    probe(match edge.rule.as_str() {
        "compile" | "compile_main" | "compile_prelude" | "compile_test" => "module compiled",
        "resolve_dependency" => "dependencies resolved",
        "compile_ffi" => "foreign code compiled",
        "ar" | "ar_ffi" => "package archived",
        "link" => "program linked",
        _ => "command run",
    });
    run_command(&edge.command)?;
    for output in &edge.outputs {
        if !Path::new(output).exists() {
            return error(format!("{output} was not made by {}", edge.command));
        }
    }
    let mut database = database.lock().unwrap();
    database.append(&[format!("+ {key} {hash:016x}")])?;
    database.entries.insert(key.clone(), hash);
    Ok(())
}

fn load_dyndep(edge: &mut Edge) -> io::Result<()> {
    let Some(path) = edge.dyndep.clone() else { return Ok(()) };
    let text = read(&path)?;
    let mut found = false;
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("build ") {
            let Some((outputs, rest)) = rest.split_once(": dyndep") else { return error(format!("{path}: {line}")) };
            if outputs.split_whitespace().any(|o| o == edge.outputs[0]) {
                found = true;
                edge.implicit.extend(rest.trim_start().strip_prefix('|').unwrap_or_default().split_whitespace().map(|w| w.to_string()));
            }
        }
    }
    if !found || !text.starts_with("ninja_dyndep_version") {
        return error(format!("{path}: no dependencies of {}", edge.outputs[0]));
    }
    Ok(())
}

fn work(state: &Mutex<State>, changed: &Condvar, database: &Mutex<Database>) {
    let mut s = state.lock().unwrap();
    loop {
        s.extend();
        if s.failed.is_some() || s.needed.iter().all(|i| s.done[*i]) {
            changed.notify_all();
            return;
        }
        let ready = s.ready();
        if ready.is_empty() {
            if !s.running.iter().any(|r| *r) {
                s.failed = Some("dependency cycle".into());
                continue;
            }
            s = changed.wait(s).unwrap();
            continue;
        }
        let i = ready[pensim::api::work(ready.len() as u64) as usize];
        let missing = {
            let e = &s.edges[i];
            e.inputs.iter().chain(&e.implicit).find(|p| s.maker(p).is_none() && !Path::new(p).exists()).cloned()
        };
        if let Some(path) = missing {
            s.failed = Some(format!("file \"{path}\" not found"));
            continue;
        }
        s.running[i] = true;
        let mut edge = s.edges[i].clone();
        drop(s);
        // The standard library panics in processes that are killed.
        let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| make(&edge, database))).unwrap_or_else(|_| error("killed"));
        s = state.lock().unwrap();
        s.running[i] = false;
        match result {
            Err(e) => s.failed = Some(s.failed.take().unwrap_or_else(|| e.to_string())),
            Ok(()) => {
                s.done[i] = true;
                // What dynamic dependencies were made for.
                for j in 0..s.edges.len() {
                    if s.edges[j].dyndep.as_ref().is_some_and(|d| edge.outputs.contains(d)) && s.needed.contains(&j) {
                        edge = s.edges[j].clone();
                        match load_dyndep(&mut edge) {
                            Ok(()) => s.edges[j] = edge.clone(),
                            Err(e) => s.failed = Some(e.to_string()),
                        }
                    }
                }
            }
        }
        changed.notify_all();
    }
}

pub fn run(i: &Invocation) -> io::Result<()> {
    let mut arguments = i.args.iter();
    let (mut file, mut tool, mut targets) = ("build.ninja".to_string(), None, vec![]);
    while let Some(a) = arguments.next() {
        match a.as_str() {
            "-f" => file = arguments.next().cloned().unwrap_or_default(),
            "-t" => tool = arguments.next().cloned(),
            "--quiet" => {}
            a if a.starts_with('-') => return error(format!("unknown option {a}")),
            a => targets.push(a.to_string()),
        }
    }
    let mut script = Script::default();
    parse(&file, &Scope::new(), &BTreeMap::new(), &mut script)?;
    if script.builddir.is_empty() {
        return error("no builddir");
    }
    fs::create_dir_all(&script.builddir)?;
    let mut names = BTreeSet::new();
    for o in script.edges.iter().flat_map(|e| &e.outputs) {
        if !names.insert(o.clone()) {
            return error(format!("output {o} is defined twice"));
        }
    }
    let mut database = Database::open(&script.builddir)?;
    match tool.as_deref() {
        Some("cleandead") => {
            let dead: Vec<_> = database.outputs.iter().filter(|o| !names.contains(*o)).cloned().collect();
            for path in dead {
                match fs::remove_file(&path) {
                    Err(e) if e.kind() != io::ErrorKind::NotFound => return Err(e),
                    _ => {}
                }
                database.outputs.remove(&path);
            }
            return Ok(());
        }
        Some(tool) => return error(format!("unknown tool {tool}")),
        None => {}
    }
    if targets.is_empty() {
        targets = script.defaults.clone();
    }
    for t in &targets {
        if !names.contains(t) {
            return error(format!("unknown target {t}"));
        }
    }
    let n = script.edges.len();
    let state = Mutex::new(State { edges: script.edges, done: vec![false; n], running: vec![false; n], needed: BTreeSet::new(), targets, failed: None });
    let (changed, database) = (Condvar::new(), Mutex::new(database));
    if crate::world::parallel() {
        std::thread::scope(|scope| {
            scope.spawn(|| work(&state, &changed, &database));
            work(&state, &changed, &database);
        });
    } else {
        work(&state, &changed, &database);
    }
    match state.into_inner().unwrap().failed {
        Some(message) => error(message),
        None => Ok(()),
    }
}
