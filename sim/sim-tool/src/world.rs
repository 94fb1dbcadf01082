//! A file system with the tool, packages, and a package that is edited.
use crate::programs::{find_runner, FAILING, PEN_ROOT};
use pensim::{api::*, sys::Tree};
use std::{
    collections::BTreeMap,
    process::{Command, Stdio},
};

pub const MAIN: &str = "/work/main";

static PARALLEL: Plain<u64> = Plain::new(0);

/// Whether a build runs commands in parallel.
pub fn parallel() -> bool {
    PARALLEL.with(|n| {
        let yes = *n > 0 && work_chance(1, 2);
        *n -= yes as u64;
        yes
    })
}

pub fn put(path: &str, text: &str) {
    os(|o| {
        let mut at = String::new();
        for part in path.split('/').filter(|p| !p.is_empty()) {
            let parent = at.clone();
            at = format!("{at}/{part}");
            if !parent.is_empty() && o.tree(&parent).is_none() {
                o.mkdir(&parent);
            }
        }
        o.put_file(path, text.as_bytes());
    })
}

pub fn remove(path: &str) {
    if tree(path).is_some() {
        os(|o| o.plant(path, None))
    }
}

pub fn tree(path: &str) -> Option<Tree> {
    os(|o| o.tree(path))
}

pub fn file(path: &str) -> Option<String> {
    os(|o| o.read_path(path).map(|d| String::from_utf8_lossy(d).to_string()))
}

pub fn package(kind: &str, dependencies: &[(&str, &str)]) -> String {
    let list: Vec<_> = dependencies.iter().map(|(n, u)| format!("    \"{n}\": \"{u}\"")).collect();
    format!("{{\n  \"type\": \"{kind}\",\n  \"dependencies\": {{\n{}\n  }}\n}}\n", list.join(",\n"))
}

/// The URLs a dependency of the main package can have. Every package has a module `Pub`.
pub const LIBRARIES: [&str; 4] = ["file:///ext/one", "git://host/two", "pen:///three", "../../ext/four"];

pub fn set_up() {
    reuse_memory();
    std::env::set_var("PEN_ROOT", PEN_ROOT);
    os(|o| {
        o.find_runner = Some(find_runner);
        o.fs_latency = 0;
        o.shuffle = true;
        o.pipe_capacity = 1 << 20;
    });
    PARALLEL.with(|n| *n = [0, 4, 12][config(3) as usize]);
    let suffix = if config(2) == 0 { "-16" } else { "" };
    for name in ["opt", "llc", "llvm-ar", "llvm-config"] {
        put(&format!("/usr/bin/{name}{suffix}"), "");
    }
    let p = |path: &str, text: &str| put(&format!("{PEN_ROOT}/{path}"), text);
    p("packages/prelude/pen.json", &package("library", &[]));
    p("packages/prelude/String.pen", "import foreign \"c\" _pen_prelude_equal_strings \\(string, string) boolean\n\nEqualStrings = \\(x string, y string) boolean {\n  _pen_prelude_equal_strings(x, y)\n}\n");
    p("packages/prelude/Number.pen", "import foreign \"c\" _pen_prelude_debug_number \\(number) string\n\nDebugNumber = \\(x number) string {\n  _pen_prelude_debug_number(x)\n}\n");
    p("packages/prelude/pen-ffi.sh", "#!sim ffi\n");
    p("packages/prelude/foreign.txt", "_pen_prelude_equal_strings\n_pen_prelude_debug_number\n");
    p("packages/ffi/pen.json", &package("library", &[]));
    p("packages/ffi/any.pen", "foreign \"c\" pen_ffi_any_is_none = \\(x any) boolean {\n  if x = x as none { true } else { false }\n}\n");
    p("packages/os/pen.json", &package("system", &[]));
    p("packages/os/Context.pen", "import foreign \"c\" _pen_os_print \\(number) none\n\ntype Context {\n  Print \\(number) none\n}\n\nUnsafeNew = \\() Context {\n  Context{Print: _pen_os_print}\n}\n");
    p("packages/os/File.pen", "import 'Context\n\ntype File {}\n\nStdOut = \\() File {\n  File{}\n}\n\nWrite = \\(ctx Context'Context, file File, text string) none {\n  ctx.Print(1)\n}\n");
    p("packages/os/pen-link.sh", "#!sim link\n");
    p("packages/os/pen-ffi.sh", "#!sim ffi\n");
    p("packages/os/foreign.txt", "_pen_os_print\n_pen_debug\n_pen_race\n_pen_spawn\n");
    for name in ["Cargo.toml", "build.rs", "src/debug.rs", "src/heap.rs", "src/spawn.rs", "src/unreachable.rs"] {
        p(&format!("cmd/test/{name}"), &format!("// {name}\n// end\n"));
    }
    p("cmd/test/src/main.rs", "fn main() {}\n");

    // Packages with equal interfaces and different contents.
    let inner = "file:///ext/inner";
    for (i, path) in ["/ext/one", "/git/two", "/pen/packages/three", "/ext/four"].iter().enumerate() {
        let dependencies: &[_] = if i % 2 == 0 { &[("Inner", inner)] } else { &[] };
        put(&format!("{path}/pen.json"), &package("library", dependencies));
        let (import, value) = if i % 2 == 0 { ("import Inner'Deep\n\n", "Deep'Get()") } else { ("", "7") };
        let t = ["number", "number", "string", "number"][i];
        let body = if t == "string" { format!("\"{i}\"") } else { format!("{value} + {i}") };
        let import = if t == "string" { "" } else { import };
        put(&format!("{path}/Pub.pen"), &format!("{import}type T = {t}\n\nGet = \\() T {{\n  {body}\n}}\n"));
        if i != 1 {
            put(&format!("{path}/Dir/Extra.pen"), &format!("Get = \\() number {{\n  {i}00\n}}\n"));
        }
        if i == 3 {
            put(&format!("{path}/pen-ffi.sh"), "#!sim ffi\n");
            put(&format!("{path}/foreign.txt"), "four_foreign\n");
        }
    }
    put("/ext/inner/pen.json", &package("library", &[]));
    put("/ext/inner/Deep.pen", "Get = \\() number {\n  5\n}\n");
}

// --- the package that is edited

pub const MODULES: [&str; 4] = ["Foo", "Bar", "Sub/Baz", "Qux"];
const FOREIGN: [&str; 3] = ["exported_one", "exported_two", "exported_three"];

#[derive(Clone, Default)]
pub struct Module {
    value: u64,
    text: bool,
    imports: Vec<usize>,
    library: Option<bool>, // its module `Extra`, or `Pub`
    exports: Vec<usize>,
    calls: Vec<usize>,
    messy: bool,
    messy_test: bool,
    messy_end: u64,
    broken: u64,
    test: Option<u64>,
}

#[derive(Clone, Default)]
pub struct Package {
    pub modules: BTreeMap<usize, Module>,
    library: Option<usize>,
    second: Option<usize>,
    foreign: Option<Vec<usize>>,
    pub is_library: bool,
    system: bool,
    no_main: bool,
}

impl Package {
    fn source(&self, i: usize) -> String {
        let m = &self.modules[&i];
        let mut s = String::new();
        for &j in &m.imports {
            s += &format!("import '{}\n", MODULES[j].replace('/', "'"));
        }
        if let Some(extra) = m.library {
            s += if extra { "import Lib'Dir'Extra\n" } else { "import Lib'Pub\n" };
        }
        for &c in &m.calls {
            s += &format!("import foreign \"c\" {} \\() number\n", FOREIGN[c]);
        }
        s += "\n";
        if m.messy {
            s += "# messy\n\n\n";
        }
        s += &format!("type T = {}\n\n", if m.text { "string" } else { "number" });
        s += &format!("Get = \\() T {{\n  {}\n}}\n", if m.text { format!("\"{}\"", m.value) } else { format!("{}", m.value) });
        let last = |j: usize| MODULES[j].rsplit('/').next().unwrap();
        for &j in &m.imports {
            s += &format!("\nFrom{} = \\() {}'T {{\n  {}'Get()\n}}\n", last(j), last(j), last(j));
        }
        if let Some(extra) = m.library {
            s += if extra { "\nFromLib = \\() number {\n  Extra'Get()\n}\n" } else { "\nFromLib = \\() Pub'T {\n  Pub'Get()\n}\n" };
        }
        for &c in &m.calls {
            s += &format!("\nCall{c} = \\() number {{\n  {}()\n}}\n", FOREIGN[c]);
        }
        for &e in &m.exports {
            s += &format!("\nforeign \"c\" {} = \\() number {{\n  {}\n}}\n", FOREIGN[e], m.value);
        }
        if m.messy {
            s = s.replace(" = \\", "   =  \\").replace("{\n", "{\n\n");
        }
        match m.messy_end {
            1 => s += "\n",
            2 => s = s.trim_end().into(),
            3 => s = s.trim_end().to_string() + "  \n",
            _ => {}
        }
        match m.broken {
            1 => s += "\nBad = \\() number {\n",
            2 => s += "\nBad = \\() number {\n  \"text\"\n}\n",
            3 => s += "\nimport 'Nowhere\n",
            _ => {}
        }
        s
    }

    fn main(&self) -> String {
        let mut s = String::new();
        for &i in self.modules.keys() {
            s += &format!("import '{}\n", MODULES[i].replace('/', "'"));
        }
        s += "\nmain = \\(ctx context) none {\n";
        for (&i, m) in &self.modules {
            let last = MODULES[i].rsplit('/').next().unwrap();
            s += &format!("  _ = {last}'Get()\n");
            for &c in &m.calls {
                s += &format!("  _ = {last}'Call{c}()\n");
            }
        }
        s + "  ctx.Os.Print(1)\n\n  none\n}\n"
    }

    pub fn files(&self) -> BTreeMap<String, String> {
        let mut files = BTreeMap::new();
        let mut dependencies = vec![("Os", "pen:///os")];
        if let Some(l) = self.library {
            dependencies.push(("Lib", LIBRARIES[l]));
        }
        if let Some(l) = self.second {
            dependencies.push(("More", LIBRARIES[l]));
        }
        files.insert("pen.json".into(), package(if !self.is_library { "application" } else if self.system { "system" } else { "library" }, &dependencies));
        if !self.no_main && !self.is_library {
            files.insert("main.pen".into(), self.main());
        }
        for (&i, m) in &self.modules {
            files.insert(format!("{}.pen", MODULES[i]), self.source(i));
            if let Some(value) = m.test {
                let last = MODULES[i].rsplit('/').next().unwrap();
                let body = if m.text { "none".to_string() } else { format!("if {last}'Get() == {value} {{\n    none\n  }} else {{\n    error(\"wrong\")\n  }}") };
                let mut text = format!("import '{}\n\nGets = \\() none | error {{\n  {body}\n}}\n", MODULES[i].replace('/', "'"));
                if value % 2 == 1 {
                    text += "\nPasses = \\() none | error {\n  none\n}\n";
                }
                if m.messy_test {
                    text = text.replace(" = \\", "   =  \\").replace("{\n", "{\n\n");
                }
                if m.broken == 4 {
                    text += "\nBad = \\() none | error {\n";
                }
                files.insert(format!("{}.test.pen", MODULES[i]), text);
            }
        }
        if let Some(foreign) = &self.foreign {
            files.insert("pen-ffi.sh".into(), "#!sim ffi\n".into());
            files.insert("foreign.txt".into(), foreign.iter().map(|f| format!("{}\n", FOREIGN[*f])).collect::<String>() + "main_foreign\n");
        }
        files
    }

    /// Makes the package's files what they are now.
    pub fn save(&self, before: &BTreeMap<String, String>) {
        let now = self.files();
        for path in before.keys().filter(|p| !now.contains_key(*p)) {
            remove(&format!("{MAIN}/{path}"));
        }
        for (path, text) in &now {
            if before.get(path) != Some(text) {
                put(&format!("{MAIN}/{path}"), text);
            }
        }
    }

    fn providers(&self, c: usize) -> usize {
        self.modules.values().filter(|m| m.exports.contains(&c)).count() + self.foreign.as_ref().is_some_and(|f| f.contains(&c)) as usize
    }

    /// Changes something.
    pub fn edit(&mut self, tests: bool) -> String {
        let pick = |n: usize| work(n as u64) as usize;
        let i = pick(MODULES.len());
        let exists = self.modules.contains_key(&i);
        let name = MODULES[i];
        match work(if tests { 13 } else { 12 }) {
            0 if exists && self.modules.len() > 1 => {
                self.modules.remove(&i);
                if work_chance(3, 4) {
                    for m in self.modules.values_mut() {
                        m.imports.retain(|j| *j != i);
                    }
                    return format!("{name} deleted");
                }
                format!("{name} deleted but imported")
            }
            0 | 1 if !exists => {
                self.modules.insert(i, Module { value: work(100), ..Default::default() });
                format!("{name} created")
            }
            2 if exists => {
                let m = self.modules.get_mut(&i).unwrap();
                m.text = !m.text;
                format!("{name} has another type")
            }
            3 if exists && i > 0 => {
                let j = pick(i);
                let there = self.modules.contains_key(&j);
                let m = self.modules.get_mut(&i).unwrap();
                if m.imports.contains(&j) {
                    m.imports.retain(|k| *k != j);
                } else if there || work_chance(1, 8) {
                    m.imports.push(j);
                }
                format!("{name} has imports {:?}", m.imports)
            }
            4 => {
                self.library = if self.library.is_some() && work_chance(1, 4) { None } else { Some(pick(4)) };
                if self.library == self.second {
                    self.second = None;
                }
                if self.library.is_none() && work_chance(3, 4) {
                    self.modules.values_mut().for_each(|m| m.library = None);
                }
                format!("the library is {:?}", self.library.map(|l| LIBRARIES[l]))
            }
            5 if exists => {
                let have = self.library.is_some();
                let m = self.modules.get_mut(&i).unwrap();
                m.library = if m.library.is_some() { None } else if have || work_chance(1, 8) { Some(work_chance(1, 3)) } else { None };
                format!("{name} uses the library: {:?}", m.library)
            }
            6 | 7 => {
                // A function moves from a provider to another.
                let c = pick(FOREIGN.len());
                for m in self.modules.values_mut() {
                    m.exports.retain(|e| *e != c);
                }
                if let Some(f) = &mut self.foreign {
                    f.retain(|e| *e != c);
                }
                match (&mut self.foreign, self.modules.get_mut(&i)) {
                    (Some(f), _) if work_chance(1, 3) => f.push(c),
                    (_, Some(m)) if work_chance(5, 6) => m.exports.push(c),
                    _ => {}
                }
                format!("{} is provided {} times", FOREIGN[c], self.providers(c))
            }
            8 if exists => {
                let c = pick(FOREIGN.len());
                let provided = self.providers(c) > 0;
                let m = self.modules.get_mut(&i).unwrap();
                if m.calls.contains(&c) {
                    m.calls.retain(|e| *e != c);
                } else if (provided || work_chance(1, 8)) && !m.exports.contains(&c) {
                    m.calls.push(c);
                }
                format!("{name} calls {:?}", m.calls)
            }
            9 => {
                self.foreign = if self.foreign.is_some() { None } else { Some(vec![]) };
                format!("there is foreign code: {}", self.foreign.is_some())
            }
            10 if exists => {
                let m = self.modules.get_mut(&i).unwrap();
                m.broken = if m.broken > 0 || work_chance(1, 2) { 0 } else { 1 + work(if tests { 4 } else { 3 }) };
                m.messy = work_chance(1, 2);
                format!("{name} is broken: {}", m.broken)
            }
            11 if work_chance(1, 3) => {
                match work(3) {
                    0 => {
                        self.is_library = !self.is_library;
                        self.system = work_chance(1, 3);
                    }
                    1 => self.no_main = !self.no_main,
                    _ => {
                        self.second = Some(pick(4)).filter(|l| Some(*l) != self.library && self.second.is_none());
                    }
                }
                format!("the package is a library: {}, without a main module: {}, with more: {:?}", self.is_library, self.no_main, self.second)
            }
            12 if exists => {
                let m = self.modules.get_mut(&i).unwrap();
                m.test = if m.test.is_some() && work_chance(1, 2) { None } else if work_chance(3, 4) { Some(m.value) } else { Some(1000) };
                format!("{name} has a test of {:?}", m.test)
            }
            _ => {
                let i = *self.modules.keys().nth(pick(self.modules.len())).unwrap();
                let m = self.modules.get_mut(&i).unwrap();
                m.value = work(100);
                format!("{} has value {}", MODULES[i], m.value)
            }
        }
    }

    /// Formats what no one has formatted.
    pub fn mess(&mut self) {
        for m in self.modules.values_mut() {
            m.messy = work_chance(1, 3);
            m.messy_test = work_chance(1, 3);
            m.messy_end = work(8);
        }
    }

    /// Repairs modules that do not parse.
    pub fn mend(&mut self) {
        for m in self.modules.values_mut().filter(|m| m.broken != 2) {
            m.broken = 0;
        }
    }

    /// Whether a command can succeed, if that is known.
    pub fn valid(&self, command: &str) -> Option<bool> {
        let broken = |m: &Module| m.broken > 0 && (m.broken < 4 || command == "test" && m.test.is_some());
        if self.modules.values().any(|m| broken(m) || m.imports.iter().any(|j| !self.modules.contains_key(j))) {
            return Some(false);
        }
        // A package's module `Extra` may be missing.
        if self.modules.values().any(|m| m.library.is_some_and(|extra| self.library.is_none_or(|l| extra && l == 1))) {
            return Some(false);
        }
        if self.modules.values().any(|m| m.calls.iter().any(|c| m.exports.contains(c))) {
            return None;
        }
        let linked = self.modules.values().all(|m| m.calls.iter().all(|c| self.providers(*c) == 1));
        if command == "test" {
            return linked.then_some(true);
        }
        Some(self.is_library || !self.no_main && linked)
    }

    /// The number of its tests.
    pub fn tests(&self) -> u64 {
        self.modules.values().filter_map(|m| m.test).map(|t| 1 + t % 2).sum()
    }

    pub fn new() -> Self {
        let mut p = Package::default();
        for i in 0..1 + work(2) as usize {
            p.modules.insert(i, Module { value: work(100), ..Default::default() });
        }
        if work_chance(1, 2) {
            p.library = Some(work(4) as usize);
            p.modules.get_mut(&0).unwrap().library = Some(false);
        }
        p
    }
}

// --- commands

#[derive(Clone, Debug, PartialEq)]
pub struct Ran {
    pub status: Option<i32>, // None: killed
    pub out: String,
    pub err: String,
}

impl Ran {
    pub fn ok(&self) -> bool {
        self.status == Some(0)
    }
}

pub fn run(mut command: Command, arguments: &[&str]) -> Ran {
    let from = os(|o| o.processes.len());
    let ran = match command.stderr(Stdio::piped()).output() {
        Ok(output) => Ran { status: output.status.code(), out: String::from_utf8_lossy(&output.stdout).to_string(), err: String::from_utf8_lossy(&output.stderr).to_string() },
        Err(e) => Ran { status: None, out: String::new(), err: e.to_string() },
    };
    os(|o| o.kill = None);
    let commands = os(|o| o.processes.len()) - from;
    say!("pen {}: {:?}, {commands} commands{}{}", arguments.join(" "), ran.status, if ran.err.is_empty() { "" } else { ": " }, ran.err.trim());
    ran
}

pub fn pen_in(directory: &str, arguments: &[&str]) -> Ran {
    let mut command = Command::new("pen");
    command.args(arguments).current_dir(directory).stdin(Stdio::null()).stdout(Stdio::piped());
    run(command, arguments)
}

pub fn pen(arguments: &[&str]) -> Ran {
    pen_in(MAIN, arguments)
}

/// Members of an archive in order of their names.
fn archive_members(text: &str) -> String {
    let mut members: Vec<&str> = text.strip_prefix("archive\n").unwrap_or(text).split_inclusive("\nend\n").collect();
    members.sort();
    members.concat()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Product {
    pub status: Option<i32>,
    pub file: String,
}

/// What a command made: its status, and the program or archive if it succeeded.
pub fn product(ran: &Ran, test: bool) -> Product {
    let path = if test { ".pen/default/test/test" } else { "app" };
    let library = !file(&format!("{MAIN}/pen.json")).unwrap_or_default().contains("\"application\"") && !test;
    let text = if library { archive_members(&file(&format!("{MAIN}/.pen/default/archives/libmain.a")).unwrap_or_default()) } else { file(&format!("{MAIN}/{path}")).unwrap_or_default() };
    Product { status: ran.status, file: if ran.ok() { text } else { String::new() } }
}

/// The same of a build with nothing left from before and no faults.
pub fn clean(command: &str) -> Product {
    static KNOWN: Plain<BTreeMap<(String, u64), Product>> = Plain::new(BTreeMap::new());
    let mut saved = tree(MAIN).unwrap();
    let mut sources = saved.clone();
    if let (Tree::Dir(all, _), Tree::Dir(some, _)) = (&mut saved, &mut sources) {
        let _ = all;
        some.remove(".pen");
        some.remove("app");
    }
    let key = (format!("{command} {}", FAILING.with(|f| *f)), crate::programs::hash(format!("{sources:?}").as_bytes()));
    if let Some(p) = KNOWN.with(|k| k.get(&key).cloned()) {
        return p;
    }
    let faults = faulty();
    stop_faults();
    os(|o| o.plant(MAIN, Some(&sources)));
    say!("from nothing:");
    let ran = pen(&[command]);
    let p = product(&ran, command == "test");
    os(|o| o.plant(MAIN, Some(&saved)));
    if faults {
        resume_faults();
    }
    KNOWN.with(|k| k.insert(key, p.clone()));
    p
}
