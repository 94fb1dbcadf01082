//! Formatting, documentation and creation of packages: what is written, and what stays.
use crate::{build::*, world::*};
use pensim::{api::*, sys::Tree};
use std::{
    collections::BTreeMap,
    fs::File,
    process::{Command, Stdio},
};

pub const FAULTS: &[&str] = &[
    "tool.kill",
    "tool.disk-full",
    "fs.emfile",
    "fs.eacces",
    "fs.create-enospc",
    "fs.short-read",
    "fs.write-enospc",
    "fs.write-eio",
    "fs.short-write",
    "fs.read-eio",
    "fs.readdir-eio",
];

/// Everything in the package that is not hidden, and all of it.
fn visible(all: bool) -> BTreeMap<String, Vec<u8>> {
    fn list(at: &str, tree: &Tree, all: bool, out: &mut BTreeMap<String, Vec<u8>>) {
        match tree {
            Tree::File(d, _) => {
                out.insert(at.into(), d.clone());
            }
            Tree::Dir(d, _) => {
                for (n, t) in d {
                    if all || !n.starts_with('.') {
                        list(&format!("{at}/{n}"), t, all, out);
                    }
                }
            }
        }
    }
    let mut out = BTreeMap::new();
    if let Some(t) = tree(MAIN) {
        list("", &t, all, &mut out);
    }
    out
}

/// Runs a command of the tool with a file for its input, and one for its output.
fn piped(arguments: &[&str], input: Option<&str>) -> (Ran, String) {
    let here = faulty();
    stop_faults();
    if let Some(text) = input {
        put("/work/in", text);
    }
    let stdin = if input.is_some() { Stdio::from(File::open("/work/in").unwrap()) } else { Stdio::null() };
    let stdout = Stdio::from(File::create("/work/out").unwrap());
    let mut command = Command::new("pen");
    command.args(arguments).current_dir(MAIN).stdin(stdin).stdout(stdout);
    if here {
        resume_faults();
    }
    let ran = run(command, arguments);
    (ran, file("/work/out").unwrap_or_default())
}

/// What the tool makes of a source: none if it does not parse.
fn formatted(source: &str) -> Option<String> {
    static KNOWN: Plain<BTreeMap<String, Option<String>>> = Plain::new(BTreeMap::new());
    if let Some(f) = KNOWN.with(|k| k.get(source).cloned()) {
        return f;
    }
    let f = fair(|| {
        let (ran, out) = piped(&["format", "--stdin"], Some(source));
        ran.ok().then_some(out)
    });
    KNOWN.with(|k| k.insert(source.into(), f.clone()));
    f
}

/// Does something without faults.
fn fair<T>(f: impl FnOnce() -> T) -> T {
    let on = faulty();
    stop_faults();
    let r = f();
    if on {
        resume_faults();
    }
    r
}

/// What is not the tool's to change.
const EXTRA: [(&str, &str); 5] = [(".Hidden.pen", "x   = 1\n"), ("README.md", "a  package\n"), ("Notes.pen.txt", "x =  1\n"), (".hidden/Foo.pen", "x   = \\() none {\n none }\n"), ("Data/one", "\n")];

const RAW: &str = "/work/main/Raw.pen";
const NO_TEXT: &[u8] = b"# \xff\xfe\n\n\nX   = \\() none {\n  none\n}\n";

fn extra() {
    for (path, text) in EXTRA {
        put(&format!("{MAIN}/{path}"), text);
    }
}

fn is_source(path: &str) -> bool {
    path.ends_with(".pen") && !path.starts_with('.')
}

/// Formatting changes modules to their formatted texts, and never into anything else.
pub fn formats() {
    set_up();
    faults(FAULTS, 1 + config(8));
    let mut p = Package::new();
    let mut saved = Default::default();
    extra();
    let mut ever = false;
    for step in 0..3 + work(5) {
        for _ in 0..1 + work(6) {
            p.edit(true);
        }
        p.mess();
        p.save(&saved);
        // A source that is no text is nobody's to change.
        let raw = work_chance(1, 8);
        if raw {
            put(RAW, "");
            os(|o| o.put_file(RAW, NO_TEXT));
        }
        let check = work_chance(1, 3);
        let before = hard();
        disturb(400);
        let mut was = p.files();
        was.extend(EXTRA.map(|(p, t)| (p.into(), t.into())));
        let ran = pen(if check { &["format", "--check"] } else { &["format"] });
        calm();
        let disturbed = hard() > before || ran.status.is_none();
        ever |= disturbed;
        let mut now = visible(true);
        if raw {
            let found = now.remove("/Raw.pen").unwrap_or_else(|| fail("lost-source", "Raw.pen is lost"));
            ensure!(found == NO_TEXT, "lost-source", "Raw.pen, which is no text, has become {:?}", String::from_utf8_lossy(&found));
            ensure!(!ran.ok(), "wrong-result", "pen format succeeds although Raw.pen is no text");
            remove(RAW);
            probe("source that is no text");
        }
        let mut all_fine = true;
        for (path, text) in &was {
            let (source, old) = (is_source(path), text.as_bytes());
            let new = if source { formatted(text) } else { Some(text.clone()) };
            all_fine &= new.as_ref() == Some(text) || !source;
            let found = now.get(&format!("/{path}")).unwrap_or_else(|| fail("lost-source", format!("{path} is lost")));
            let fine = &found[..] == old || !check && new.as_ref().is_some_and(|n| n.as_bytes() == &found[..]);
            ensure!(fine, "lost-source", "{path} has {} bytes, which is neither what it had nor what it is formatted to: {:?} instead of {text:?}", found.len(), String::from_utf8_lossy(found));
            if ran.ok() {
                let n = new.unwrap_or_else(|| fail("wrong-result", format!("pen format succeeds although {path} does not parse")));
                ensure!(n.as_bytes() == &found[..], "wrong-result", "pen format succeeds although {path} is not formatted");
            }
            if source && &found[..] != old {
                probe("module formatted");
            }
        }
        for path in now.keys() {
            // Failed commands may leave hidden files behind.
            ensure!(was.contains_key(&path[1..]) || ever && path.contains("/."), "wrong-result", "{path} is new");
        }
        if !disturbed {
            let parses = was.iter().all(|(path, text)| !is_source(path) || formatted(text).is_some());
            let expected = !raw && if check { all_fine } else { parses };
            ensure!(ran.ok() == expected, "wrong-result", "pen format ends with {:?}: {}", ran.status, ran.err.trim());
        }
        saved = p.files();
        // What is formatted is what is edited then.
        for (path, text) in &mut saved {
            *text = String::from_utf8_lossy(&now[&format!("/{path}")]).to_string();
        }
        if step % 2 == 1 {
            say!("edited");
        }
    }
    // Without faults.
    stop_faults();
    p.mend();
    p.save(&saved);
    let ran = pen(&["format"]);
    ensure!(ran.ok(), "wrong-result", "pen format ends with {:?}: {}", ran.status, ran.err.trim());
    let ran = pen(&["format", "--check"]);
    ensure!(ran.ok(), "wrong-result", "pen format --check ends with {:?} after pen format: {}", ran.status, ran.err.trim());
    done()
}

/// Commands that write to standard output fail or write everything.
pub fn outputs() {
    set_up();
    faults(FAULTS, 1 + config(8));
    let mut p = Package::new();
    let mut saved = Default::default();
    for _ in 0..2 + work(4) {
        for _ in 0..1 + work(6) {
            p.edit(true);
        }
        p.mess();
        if work_chance(2, 3) {
            p.mend();
        }
        p.save(&saved);
        saved = p.files();
        let sources: Vec<&String> = saved.iter().filter(|(n, _)| n.ends_with(".pen")).map(|(_, t)| t).collect();
        let input = (*work_of(&sources)).clone();
        let (arguments, input): (&[&str], _) = match work(2) {
            0 => (&["format", "--stdin"], Some(input)),
            _ => (&["document", "--name", "Foo", "--url", "https://foo", "--description", "bar"], None),
        };
        let (want, text) = fair(|| piped(arguments, input.as_deref()));
        let before = hard();
        disturb(200);
        let (ran, out) = piped(arguments, input.as_deref());
        calm();
        if ran.ok() {
            ensure!(out == text && want.ok(), "wrong-result", "pen {} succeeds with {out:?} instead of {text:?}", arguments.join(" "));
            probe("output written");
        }
        if hard() == before && ran.status.is_some() {
            ensure!(ran.status == want.status, "wrong-result", "pen {} ends with {:?} instead of {:?}: {}", arguments.join(" "), ran.status, want.status, ran.err);
        }
    }
    done()
}

fn work_of<T>(list: &[T]) -> &T {
    &list[work(list.len() as u64) as usize]
}

/// Packages that are created are complete, and can be built.
pub fn creations() {
    set_up();
    faults(FAULTS, 1 + config(4));
    put("/work/other", "");
    let library = work_chance(1, 2);
    let arguments: &[&str] = if library { &["create", "--library", "main"] } else { &["create", "main"] };
    let mut ok = false;
    for attempt in 0..4 {
        if attempt == 3 {
            stop_faults();
        }
        let before = hard();
        disturb(100);
        let ran = pen_in("/work", arguments);
        calm();
        if hard() == before && ran.status.is_some() {
            ensure!(ran.ok(), "wrong-result", "pen create ends with {:?}: {}", ran.status, ran.err);
        }
        let files: Vec<String> = visible(false).keys().cloned().collect();
        if ran.ok() {
            ok = true;
            ensure!(files == if library { vec!["/Foo.pen", "/pen.json"] } else { vec!["/main.pen", "/pen.json"] }, "wrong-result", "pen create makes {files:?}");
        }
        if ok && work_chance(1, 2) {
            break;
        }
    }
    stop_faults();
    for command in [&["build"][..], &["format", "--check"][..]] {
        let ran = pen(command);
        ensure!(ran.ok(), "wrong-result", "pen {} ends with {:?} on a new package: {}", command[0], ran.status, ran.err);
    }
    done()
}
