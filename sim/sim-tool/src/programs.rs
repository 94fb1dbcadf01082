//! The programs that `pen` runs, and that run `pen`.
use crate::turtle;
use pensim::{
    api::Plain,
    sys::{Invocation, Os, RunnerFn},
};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    io::{self, Write},
    path::Path,
};

pub const PEN_ROOT: &str = "/pen";

pub fn hash(data: &[u8]) -> u64 {
    data.iter().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3))
}

fn runner(name: &str) -> Option<RunnerFn> {
    Some(match name {
        "pen" => |i| tool_pen::pensim_main(std::iter::once("pen".to_string()).chain(i.args.iter().cloned()).collect()),
        "turtle" => |i| report("turtle", turtle::run(i)),
        "cp" => |i| report("cp", cp(i)),
        "mv" => |i| report("mv", mv(i)),
        "rm" => |i| report("rm", rm(i)),
        "git" => |i| report("git", git(i)),
        "cargo" => |i| report("cargo", cargo(i)),
        "opt" => |i| report("opt", opt(i)),
        "llc" => |i| report("llc", llc(i)),
        "llvm-ar" => |i| report("llvm-ar", ar(i)),
        "llvm-config" => |_| report("llvm-config", writeln!(io::stdout(), "x86_64-pc-linux-gnu")),
        "link" => |i| report("link", link(i)),
        "ffi" => |i| report("ffi", ffi(i)),
        "tests" => |i| {
            let status = report("tests", tests(i));
            PASSED.with(|n| *n += (status == 0) as u64);
            status
        },
        _ => return None,
    })
}

/// What happens when a program starts.
#[derive(Clone)]
pub struct Trap {
    pub program: &'static str,
    pub skip: u64,
    pub kill: Option<(u64, bool)>,
    pub free: Option<u64>,
}

pub static TRAP: Plain<Option<Trap>> = Plain::new(None);

/// Programs that traps are set for.
pub const TRAPS: [&str; 12] = ["pen", "pen", "turtle", "cp", "mv", "git", "cargo", "llc", "llvm-ar", "link", "ffi", "tests"];

fn spring(os: &mut Os, program: &str) {
    TRAP.with(|t| {
        if let Some(trap) = t {
            if trap.program == program {
                if trap.skip > 0 {
                    trap.skip -= 1;
                    return;
                }
                os.kill = trap.kill;
                if let Some(free) = trap.free {
                    os.disk_capacity = Some(os.used() + free);
                }
                *t = None;
            }
        }
    })
}

pub fn find_runner(os: &mut Os, name: &str) -> Option<(RunnerFn, Vec<String>)> {
    let (r, arguments) = find(os, name)?;
    let base = name.rsplit('/').next()?;
    spring(os, base.strip_suffix("-16").or(base.strip_prefix("pen-").and_then(|b| b.strip_suffix(".sh"))).unwrap_or(base));
    Some((r, arguments))
}

fn find(os: &mut Os, name: &str) -> Option<(RunnerFn, Vec<String>)> {
    let base = name.rsplit('/').next()?;
    let plain = base.strip_suffix("-16").unwrap_or(base);
    if !name.contains('/') {
        return runner(plain).map(|r| (r, vec![]));
    }
    if name.starts_with("/usr/bin/") {
        os.read_path(name)?;
        return runner(plain).map(|r| (r, vec![]));
    }
    let text = String::from_utf8_lossy(os.read_path(name)?).to_string();
    let interpreter = text.lines().next()?.strip_prefix("#!sim ")?.to_string();
    runner(&interpreter).map(|r| (r, vec![name.to_string()]))
}

fn report(name: &str, result: io::Result<()>) -> i32 {
    let result = result.and_then(|_| io::stdout().flush());
    match result {
        Ok(()) => 0,
        Err(error) => {
            let _ = writeln!(io::stderr(), "{name}: {error}");
            1
        }
    }
}

pub fn error<T>(message: impl Into<String>) -> io::Result<T> {
    Err(io::Error::other(message.into()))
}

fn argument(i: &Invocation, at: usize) -> io::Result<&str> {
    i.args.get(at).map(|a| a.as_str()).map_or_else(|| error("missing argument"), Ok)
}

fn option<'a>(i: &'a Invocation, name: &str) -> io::Result<&'a str> {
    i.args.iter().position(|a| a == name).and_then(|at| i.args.get(at + 1)).map(|a| a.as_str()).map_or_else(|| error(format!("missing option {name}")), Ok)
}

fn copy_tree(from: &Path, to: &Path) -> io::Result<()> {
    if from.is_dir() {
        if !to.is_dir() {
            fs::create_dir(to)?;
        }
        for entry in fs::read_dir(from)? {
            let entry = entry?;
            copy_tree(&entry.path(), &to.join(entry.file_name()))?;
        }
        Ok(())
    } else {
        let data = fs::read(from)?;
        let mut file = fs::File::create(to)?;
        // In pieces, like a file that is larger.
        for piece in data.chunks(1.max(data.len() / 2)) {
            file.write_all(piece)?;
        }
        Ok(())
    }
}

fn cp(i: &Invocation) -> io::Result<()> {
    let (recursive, at) = match argument(i, 0)? {
        "-r" | "-R" | "-a" => (true, 1),
        _ => (false, 0),
    };
    let (from, to) = (Path::new(argument(i, at)?), Path::new(argument(i, at + 1)?));
    let to = if to.is_dir() { to.join(from.file_name().unwrap_or_default()) } else { to.into() };
    if from.is_dir() && !recursive {
        return error(format!("{} is a directory", from.display()));
    }
    copy_tree(from, &to)
}

fn mv(i: &Invocation) -> io::Result<()> {
    let paths: Vec<_> = i.args.iter().filter(|a| !a.starts_with('-')).collect();
    let [from, to] = paths.as_slice() else { return error("arguments") };
    let to = Path::new(to);
    let to = if to.is_dir() && !i.args.iter().any(|a| a.contains('T')) { to.join(Path::new(from).file_name().unwrap_or_default()) } else { to.into() };
    fs::rename(from, to)
}

fn rm(i: &Invocation) -> io::Result<()> {
    let force = i.args.iter().any(|a| a.starts_with('-') && a.contains('f'));
    let recursive = i.args.iter().any(|a| a.starts_with('-') && a.contains('r'));
    for path in i.args.iter().filter(|a| !a.starts_with('-')) {
        let path = Path::new(path);
        let result = if recursive && path.is_dir() { fs::remove_dir_all(path) } else { fs::remove_file(path) };
        match result {
            Err(e) if force && e.kind() == io::ErrorKind::NotFound => {}
            result => result?,
        }
    }
    Ok(())
}

/// `git clone git://host/NAME DIRECTORY` of a repository in /git, or in /mirror at another host.
fn git(i: &Invocation) -> io::Result<()> {
    let places: Vec<&str> = i.args.iter().skip(1).map(|a| a.as_str()).filter(|a| !a.starts_with('-')).collect();
    let (Some("clone"), [url, to]) = (i.args.first().map(|a| a.as_str()), places.as_slice()) else { return error("arguments") };
    let Some((host, name)) = url.strip_prefix("git://").and_then(|u| u.split_once('/')) else { return error("URL") };
    let to = Path::new(to);
    if to.exists() && (!to.is_dir() || fs::read_dir(to)?.next().is_some()) {
        return error("destination path already exists and is not an empty directory");
    }
    let from = Path::new(if host == "host" { "/git" } else { "/mirror" }).join(name);
    if !from.is_dir() {
        return error("repository not found");
    }
    let result = (|| {
        fs::create_dir_all(to.join(".git"))?;
        fs::write(to.join(".git/HEAD"), "main\n")?;
        copy_tree(&from, to)
    })();
    if result.is_err() {
        // Git leaves nothing behind if it can.
        let _ = fs::remove_dir_all(to);
    }
    result
}

/// Builds the crate of a test program.
fn cargo(i: &Invocation) -> io::Result<()> {
    if argument(i, 0)? != "build" {
        return error("arguments");
    }
    let mut text = "#!sim tests\n".to_string();
    let mut needed = vec![];
    for name in ["Cargo.toml", "build.rs", "src/debug.rs", "src/heap.rs", "src/spawn.rs", "src/unreachable.rs", "src/main.rs"] {
        let data = fs::read_to_string(name).map_err(|e| io::Error::new(e.kind(), format!("{name}: {e}")))?;
        if name.ends_with("main.rs") {
            if data.matches('{').count() != data.matches('}').count() || !data.contains("fn main()") {
                return error("main.rs: syntax error");
            }
            needed.extend(data.split("fn ").skip(1).filter_map(|f| f.split("()").next()).filter(|f| *f != "main").map(|f| f.to_string()));
            let tests: Vec<_> = data.lines().filter(|l| l.contains("println!")).collect();
            text += &format!("main {:016x}\n", hash(tests.join("\n").as_bytes()));
        } else {
            if !data.ends_with("// end\n") {
                return error(format!("{name}: syntax error"));
            }
            text += &format!("{name} {:016x}\n", hash(data.as_bytes()));
        }
    }
    text += &format!("tests {}\n", needed.len());
    let mut archives = vec![];
    for path in i.env.get("PEN_TEST_ARCHIVES").map(|a| a.as_str()).unwrap_or_default().split(':').filter(|p| !p.is_empty()) {
        archives.push(read_archive(path)?);
    }
    // What the crate defines.
    archives.push(vec![Member { name: "test.o".into(), text: "object\ndefine _pen_debug\ndefine _pen_race\ndefine _pen_spawn\ndefine _pen_os_print\nend\n".into() }]);
    text += &select(&archives, needed)?;
    text += "end\n";
    fs::create_dir_all("target/release")?;
    fs::write("target/release/test", text)
}

/// Whether test programs fail, how often one ran, and how often one passed.
pub static FAILING: Plain<bool> = Plain::new(false);
pub static RUNS: Plain<u64> = Plain::new(0);
pub static PASSED: Plain<u64> = Plain::new(0);

/// The test program.
fn tests(i: &Invocation) -> io::Result<()> {
    let text = fs::read_to_string(argument(i, 0)?)?;
    if !text.ends_with("end\n") {
        return error("illegal instruction");
    }
    RUNS.with(|n| *n += 1);
    if FAILING.with(|f| *f) {
        return error("a test failed");
    }
    writeln!(io::stdout(), "passed")
}

// --- objects

#[derive(Clone)]
struct Member {
    name: String,
    text: String,
}

impl Member {
    fn symbols(&self, kind: &str) -> BTreeSet<&str> {
        self.text.lines().filter_map(|l| l.strip_prefix(kind)?.strip_prefix(' ')).collect()
    }
}

fn read_object(path: &str) -> io::Result<String> {
    let text = fs::read_to_string(path).map_err(|e| io::Error::new(e.kind(), format!("{path}: {e}")))?;
    if !text.starts_with("object\n") || !text.ends_with("\nend\n") {
        return error(format!("{path}: file format not recognized"));
    }
    Ok(text)
}

fn read_archive(path: &str) -> io::Result<Vec<Member>> {
    let text = fs::read_to_string(path).map_err(|e| io::Error::new(e.kind(), format!("{path}: {e}")))?;
    let Some(text) = text.strip_prefix("archive\n") else { return error(format!("{path}: not an archive")) };
    let mut members = vec![];
    for piece in text.split_inclusive("\nend\n") {
        let Some((name, object)) = piece.strip_prefix("member ").and_then(|p| p.split_once('\n')) else { return error(format!("{path}: malformed archive")) };
        if !object.starts_with("object\n") || !object.ends_with("\nend\n") {
            return error(format!("{path}: malformed archive"));
        }
        members.push(Member { name: name.into(), text: object.into() });
    }
    Ok(members)
}

fn write_archive(path: &str, members: &[Member]) -> io::Result<()> {
    let mut text = "archive\n".to_string();
    for m in members {
        text += &format!("member {}\n{}", m.name, m.text);
    }
    fs::write(path, text)
}

/// Like `llvm-ar crs`: members are replaced or added, and never removed.
fn ar(i: &Invocation) -> io::Result<()> {
    let (operation, path) = (argument(i, 0)?, argument(i, 1)?);
    if !operation.contains('r') {
        return error("operation");
    }
    let mut members = if Path::new(path).exists() { read_archive(path)? } else { vec![] };
    for object in &i.args[2..] {
        let member = Member { name: object.rsplit('/').next().unwrap_or_default().into(), text: read_object(object)? };
        match members.iter_mut().find(|m| m.name == member.name) {
            Some(m) => *m = member,
            None => members.push(member),
        }
    }
    let new = format!("{path}.temp-archive");
    write_archive(&new, &members)?;
    fs::rename(new, path)
}

fn opt(i: &Invocation) -> io::Result<()> {
    let text = read_object(i.args.last().map(|a| a.as_str()).unwrap_or_default())?;
    fs::write(option(i, "-o")?, text)
}

fn llc(i: &Invocation) -> io::Result<()> {
    let triple = option(i, "-mtriple")?;
    let text = read_object(i.args.last().map(|a| a.as_str()).unwrap_or_default())?;
    fs::write(option(i, "-o")?, text.replace("\nend\n", &format!(" {triple}\nend\n")))
}

/// `SCRIPT -t TARGET OUTPUT`: an archive of the package's foreign code.
fn ffi(i: &Invocation) -> io::Result<()> {
    let script = argument(i, 0)?;
    let (target, out) = (option(i, "-t")?, i.args.last().unwrap());
    let code = fs::read_to_string(Path::new(script).with_file_name("foreign.txt"))?;
    let mut text = "object\n".to_string();
    for word in code.split_whitespace() {
        text += &format!("define {word}\n");
    }
    text += &format!("code {:016x} {target}\nend\n", hash(code.as_bytes()));
    write_archive(out, &[Member { name: "ffi.o".into(), text }])
}

/// What a linker takes from archives, of which it searches each once, until nothing in it is needed.
fn select(archives: &[Vec<Member>], needed: Vec<String>) -> io::Result<String> {
    let mut undefined: BTreeSet<String> = needed.into_iter().collect();
    let mut defined: BTreeMap<String, String> = BTreeMap::new();
    let mut taken = vec![];
    for (a, members) in archives.iter().enumerate() {
        loop {
            let mut progress = false;
            for (m, member) in members.iter().enumerate() {
                if taken.contains(&(a, m)) || !member.symbols("define").iter().any(|s| undefined.contains(*s)) {
                    continue;
                }
                taken.push((a, m));
                progress = true;
                for s in member.symbols("define") {
                    if let Some(other) = defined.insert(s.into(), member.name.clone()) {
                        return error(format!("multiple definition of {s} in {} and {other}", member.name));
                    }
                    undefined.remove(s);
                }
                for s in member.symbols("need") {
                    if !defined.contains_key(s) {
                        undefined.insert(s.into());
                    }
                }
            }
            if !progress {
                break;
            }
        }
    }
    if !undefined.is_empty() {
        return error(format!("undefined reference to {undefined:?}"));
    }
    let mut lines: Vec<String> = taken.iter().map(|&(a, m)| format!("{} {:016x}", archives[a][m].name, hash(archives[a][m].text.as_bytes()))).collect();
    lines.sort();
    Ok(lines.iter().map(|l| format!("{l}\n")).collect())
}

/// `SCRIPT -t TARGET -o OUTPUT ARCHIVE...`
fn link(i: &Invocation) -> io::Result<()> {
    let (target, out) = (option(i, "-t")?, option(i, "-o")?);
    let mut archives = vec![];
    for path in &i.args[5..] {
        archives.push(read_archive(path)?);
    }
    let text = select(&archives, vec!["_pen_main".into()])?;
    fs::write(out, format!("application {target}\n{text}end\n"))
}
