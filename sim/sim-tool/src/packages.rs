//! Graphs of packages: each one is fetched as a whole, and built with those it depends on.
use crate::{build::*, programs::PEN_ROOT, world::*};
use pensim::{api::*, sys::Tree};
use std::collections::{BTreeMap, BTreeSet};

/// URLs of packages and their directories. Some are much alike.
const PLACES: [(&str, &str); 14] = [
    ("file:///ext/plain", "/ext/plain"),
    ("git://host/repo", "/git/repo"),
    ("pen:///sub/three", "/pen/packages/sub/three"),
    ("file:///ext/x.y", "/ext/x.y"),
    ("file:///ext/x/y", "/ext/x/y"),
    ("git://host/x_y", "/git/x_y"),
    ("file:///ext/x_y", "/ext/x_y"),
    ("pen:///x.y", "/pen/packages/x.y"),
    ("file:///ext/lib", "/ext/lib"),
    ("git://host/x/y", "/git/x/y"),
    ("git://mirror/repo", "/mirror/repo"),
    ("git://host/ext/plain", "/git/ext/plain"),
    ("pen:///ext/plain", "/pen/packages/ext/plain"),
    ("git://mirror/x/y", "/mirror/x/y"),
];

struct Graph {
    places: Vec<usize>,
    edges: BTreeSet<(usize, usize)>,
    foreign: BTreeSet<usize>,
    missing: BTreeSet<usize>,
    roots: Vec<usize>,
    ruined: BTreeSet<String>,
}

impl Graph {
    fn url(&self, i: usize) -> &'static str {
        PLACES[self.places[i]].0
    }

    fn place(&self, i: usize) -> &'static str {
        PLACES[self.places[i]].1
    }

    fn dependencies(&self, i: usize) -> Vec<usize> {
        self.edges.iter().filter(|e| e.0 == i).map(|e| e.1).collect()
    }

    fn reachable(&self) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut todo = self.roots.clone();
        while let Some(i) = todo.pop() {
            if seen.insert(i) {
                todo.extend(self.dependencies(i));
            }
        }
        seen
    }

    fn cyclic(&self) -> bool {
        let mut left = self.reachable();
        loop {
            let Some(&i) = left.iter().find(|i| self.dependencies(**i).iter().all(|j| !left.contains(j))) else { return !left.is_empty() };
            left.remove(&i);
        }
    }

    fn list(&self, ids: &[usize]) -> Vec<(String, &'static str)> {
        ids.iter().map(|&i| (format!("D{i}"), self.url(i))).collect()
    }

    fn save(&self) {
        for i in 0..self.places.len() {
            let p = self.place(i);
            if self.missing.contains(&i) {
                remove(p);
                continue;
            }
            let list = self.list(&self.dependencies(i));
            put(&format!("{p}/pen.json"), &package("library", &list.iter().map(|(n, u)| (n.as_str(), *u)).collect::<Vec<_>>()));
            let mut s = String::new();
            for j in self.dependencies(i) {
                s += &format!("import D{j}'M{j}\n");
            }
            if self.foreign.contains(&i) {
                s += &format!("import foreign \"c\" foreign_{i} \\() number\n");
                put(&format!("{p}/pen-ffi.sh"), "#!sim ffi\n");
                put(&format!("{p}/foreign.txt"), &format!("foreign_{i}\n"));
            }
            s += &format!("\nGet = \\() number {{\n  {}", 1000 + i);
            for j in self.dependencies(i) {
                s += &format!(" + M{j}'Get()");
            }
            if self.foreign.contains(&i) {
                s += &format!(" + foreign_{i}()");
            }
            s += "\n}\n";
            put(&format!("{p}/M{i}.pen"), &s);
        }
        let mut list = self.list(&self.roots);
        list.push(("Os".into(), "pen:///os"));
        put(&format!("{MAIN}/pen.json"), &package("application", &list.iter().map(|(n, u)| (n.as_str(), *u)).collect::<Vec<_>>()));
        let mut s: String = self.roots.iter().map(|i| format!("import D{i}'M{i}\n")).collect();
        s += "\nmain = \\(ctx context) none {\n";
        for i in &self.roots {
            s += &format!("  _ = M{i}'Get()\n");
        }
        put(&format!("{MAIN}/main.pen"), &(s + "\n  none\n}\n"));
    }

    /// A directory of a package is left over without what was in it, as caches do that keep some of it.
    fn ruin(&mut self) {
        let found = fetched();
        if found.is_empty() {
            return;
        }
        let (name, t) = &found[work(found.len() as u64) as usize];
        if contents(t).iter().all(|(n, _)| n != "/pen.json") || !contents(t).iter().any(|(n, _)| n.starts_with("/M")) {
            return;
        }
        let at = format!("/work/main/.pen/default/packages/{name}");
        let keep = work(2) == 1;
        for (n, d) in contents(t).iter().filter(|(_, d)| d.is_some()) {
            if n == "/pen.json" || !(keep && work(2) == 1) {
                remove(&format!("{at}{n}"));
            } else if d.as_ref().is_some_and(|_| work(3) == 0) {
                put(&format!("{at}{n}"), "");
            }
        }
        put(&format!("{at}/target/{}", work(3)), "cached\n");
        say!("{at} is left over from a cache");
        self.ruined.insert(name.clone());
    }

    /// Packages are what they are fetched from, once they are there.
    fn check(&mut self, all: bool) {
        let mut origins: BTreeMap<Contents, &str> = BTreeMap::new();
        for i in (0..self.places.len()).filter(|i| !self.missing.contains(i)) {
            origins.insert(contents(&tree(self.place(i)).unwrap()), self.url(i));
        }
        for name in ["os", "ffi", "prelude"] {
            origins.insert(contents(&tree(&format!("{PEN_ROOT}/packages/{name}")).unwrap()), name);
        }
        let found = fetched();
        for (name, tree) in &found {
            if !all && self.ruined.contains(name) && contents(tree).iter().all(|(n, _)| n != "/pen.json") {
                continue;
            }
            if self.ruined.remove(name) {
                probe("left-over directory fetched again");
            }
            ensure!(origins.contains_key(&contents(tree)), "wrong-package", "{name} has {}, which no package has", names(tree));
            probe("fetched package compared");
        }
        if all {
            let there: BTreeSet<Contents> = found.iter().map(|(_, t)| contents(t)).collect();
            for i in self.reachable() {
                ensure!(there.contains(&contents(&tree(self.place(i)).unwrap())), "wrong-package", "{} is not fetched", self.url(i));
            }
        }
    }
}

type Contents = Vec<(String, Option<Vec<u8>>)>;

/// Packages in the output directory. Those with hidden names are not there yet.
pub fn fetched() -> Vec<(String, Tree)> {
    let Some(Tree::Dir(packages, _)) = tree("/work/main/.pen/default/packages") else { return vec![] };
    packages
        .into_iter()
        .filter(|(n, _)| !n.starts_with('.'))
        .map(|(n, mut t)| {
            if let Tree::Dir(d, _) = &mut t {
                d.remove(".git");
            }
            (n, t)
        })
        .collect()
}

pub fn contents(tree: &Tree) -> Contents {
    fn list(at: &str, tree: &Tree, out: &mut Contents) {
        match tree {
            Tree::File(d, _) => out.push((at.into(), Some(d.clone()))),
            Tree::Dir(d, _) => {
                out.push((at.into(), None));
                d.iter().for_each(|(n, t)| list(&format!("{at}/{n}"), t, out))
            }
        }
    }
    let mut out = vec![];
    list("", tree, &mut out);
    out
}

pub fn names(tree: &Tree) -> String {
    contents(tree).iter().filter_map(|(n, d)| d.as_ref().map(|d| format!("{n} ({}) ", d.len()))).collect()
}

fn graph() -> Graph {
    let n = 1 + work(6) as usize;
    let mut places: Vec<usize> = (0..PLACES.len()).collect();
    let places = (0..n).map(|_| places.remove(work(places.len() as u64) as usize)).collect();
    let mut g = Graph { places, edges: BTreeSet::new(), foreign: BTreeSet::new(), missing: BTreeSet::new(), roots: vec![], ruined: BTreeSet::new() };
    let density = 1 + work(3);
    for i in 0..n {
        for j in i + 1..n {
            if work_chance(density, 4) {
                g.edges.insert((i, j));
            }
        }
        if work_chance(1, 4) {
            g.foreign.insert(i);
        }
        if i == 0 || work_chance(1, 3) {
            g.roots.push(i);
        }
    }
    if work_chance(1, 6) {
        let i = work(n as u64) as usize;
        g.edges.insert((i, work(i as u64 + 1) as usize));
    }
    if work_chance(1, 4) {
        g.missing.insert(work(n as u64) as usize);
    }
    g
}

pub fn graphs() {
    set_up();
    faults(FAULTS, 1 + config(10));
    let mut g = graph();
    g.save();
    let rounds = 2 + work(3);
    for round in 0..=rounds {
        if round == rounds {
            stop_faults();
            g.missing.clear();
            g.save();
        } else if round > 0 && work_chance(1, 3) {
            // Something new.
            let n = g.places.len() as u64;
            let (i, j) = (work(n) as usize, work(n) as usize);
            if i < j && !fetched_any(&g, i) {
                g.edges.insert((i, j));
                say!("{} depends on {}", g.url(i), g.url(j));
            }
            if !g.roots.contains(&j) {
                g.roots.push(j);
                say!("the package depends on {}", g.url(j));
            }
            g.save();
        }
        if round > 0 && work_chance(1, 5) {
            g.ruin();
        }
        let before = hard();
        disturb(1500);
        let ran = pen(&["build"]);
        calm();
        let disturbed = hard() > before || ran.status.is_none();
        g.check(ran.ok());
        let good = !g.cyclic() && g.reachable().is_disjoint(&g.missing);
        ensure!(good || !ran.ok(), "wrong-result", "pen build succeeds with {}", if g.cyclic() { "packages that depend on each other" } else { "a package that is missing" });
        if !disturbed {
            ensure!(ran.ok() == good, "wrong-result", "pen build ends with {:?}: {}", ran.status, ran.err.trim());
            if g.cyclic() && g.missing.is_empty() {
                probe("dependencies had a cycle");
            }
        }
        if ran.ok() {
            let program = file("/work/main/app").unwrap_or_default();
            for i in 0..g.places.len() {
                let linked = program.lines().filter(|l| l.starts_with(&format!("M{i}_"))).count();
                ensure!(linked == g.reachable().contains(&i) as usize, "wrong-program", "the module of {} is linked {linked} times", g.url(i));
            }
            compare(&ran, "build", disturbed, "");
            probe("graph built");
        }
    }
    done()
}

/// What is fetched does not change.
fn fetched_any(g: &Graph, i: usize) -> bool {
    g.missing.contains(&i) || tree(g.place(i)).is_some_and(|t| fetched().iter().any(|(_, f)| contents(f) == contents(&t)))
}
