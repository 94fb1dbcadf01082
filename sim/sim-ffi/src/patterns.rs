//! The regex package: expressions that threads share.
use ffi::{Any, Arc, Boolean, ByteString, List};
use pensim::{api::*, sched::kernel, tsan};
use sim_kit::*;

ffi::import!(_pen_regex_expression_new, fn(x: ByteString) -> Any);
ffi::import!(_pen_regex_expression_matches, fn(x: Arc<Any>, y: ByteString) -> Boolean);
ffi::import!(_pen_regex_expression_match, fn(x: Arc<Any>, y: ByteString) -> List);

#[no_mangle]
extern "C" fn _pen_regex_expression_to_any(x: Arc<Any>) -> Any {
    AnyHandle(x).into()
}

/// The part of the syntax that the model knows.
#[derive(Clone, Debug)]
enum Pattern {
    Character(char),
    Any,
    Class(bool, Vec<char>),
    Start,
    End,
    Sequence(Vec<Pattern>),
    Choice(Vec<Pattern>),
    Group(usize, Box<Pattern>),
    Repeat(Box<Pattern>, usize, usize, bool),
}
use Pattern::*;

const CHARACTERS: [char; 7] = ['a', 'b', 'c', 'é', '語', '\n', '.'];

fn some_character() -> char {
    CHARACTERS[[0, 0, 0, 1, 1, 2, 3, 4, 5, 6][work(10) as usize]]
}

fn some_pattern(depth: usize, groups: &mut usize) -> Pattern {
    match work(if depth == 0 { 7 } else { 14 }) {
        0..=3 => Character(some_character()),
        4 => Any,
        5 => Class(work(2) == 0, (0..1 + work(2)).map(|_| some_character()).collect()),
        6 => [Start, End][work(2) as usize].clone(),
        7 | 8 => Sequence((0..work(4)).map(|_| some_pattern(depth - 1, groups)).collect()),
        9 => Choice((0..2 + work(2)).map(|_| some_pattern(depth - 1, groups)).collect()),
        10 | 11 => {
            *groups += 1;
            let g = *groups;
            Group(g, Box::new(some_pattern(depth - 1, groups)))
        }
        _ => {
            let p = some_pattern(depth - 1, groups);
            let (least, most) = [(0, 1), (0, usize::MAX), (1, usize::MAX), (2, 2), (1, 3)][work(5) as usize];
            // What empty repetitions capture differs between engines.
            if p.empty() {
                return p;
            }
            Repeat(Box::new(p), least, most, work(3) == 0)
        }
    }
}

impl Pattern {
    fn empty(&self) -> bool {
        match self {
            Character(_) | Any | Class(..) => false,
            Start | End => true,
            Sequence(ps) => ps.iter().all(Self::empty),
            Choice(ps) => ps.iter().any(Self::empty),
            Group(_, p) => p.empty(),
            Repeat(p, least, ..) => *least == 0 || p.empty(),
        }
    }

    fn print(&self, to: &mut String) {
        fn character(c: char, to: &mut String) {
            if c == '.' {
                to.push('\\');
            }
            to.push(c);
        }
        match self {
            Character(c) => character(*c, to),
            Any => to.push('.'),
            Class(not, cs) => {
                to.push_str(if *not { "[^" } else { "[" });
                cs.iter().for_each(|c| character(*c, to));
                to.push(']');
            }
            Start => to.push('^'),
            End => to.push('$'),
            Sequence(ps) => {
                to.push_str("(?:");
                ps.iter().for_each(|p| p.print(to));
                to.push(')');
            }
            Choice(ps) => {
                to.push_str("(?:");
                for (i, p) in ps.iter().enumerate() {
                    if i > 0 {
                        to.push('|');
                    }
                    p.print(to);
                }
                to.push(')');
            }
            Group(_, p) => {
                to.push('(');
                p.print(to);
                to.push(')');
            }
            Repeat(p, least, most, lazy) => {
                to.push_str("(?:");
                p.print(to);
                to.push(')');
                match (least, most) {
                    (0, 1) => to.push('?'),
                    (0, &usize::MAX) => to.push('*'),
                    (1, &usize::MAX) => to.push('+'),
                    (n, m) if n == m => to.push_str(&format!("{{{n}}}")),
                    (n, m) => to.push_str(&format!("{{{n},{m}}}")),
                }
                if *lazy {
                    to.push('?');
                }
            }
        }
    }
}

type Captures = Vec<Option<(usize, usize)>>;

/// A backtracking matcher: the first way that works, in order of preference.
struct Matcher<'a> {
    text: &'a [char],
    fuel: usize,
}

type Next<'a> = &'a mut dyn FnMut(&mut Matcher<'_>, usize, &mut Captures) -> bool;

impl Matcher<'_> {
    fn run(&mut self, p: &Pattern, at: usize, c: &mut Captures, next: Next) -> bool {
        if self.fuel == 0 {
            return false;
        }
        self.fuel -= 1;
        let x = self.text.get(at).copied();
        match p {
            Character(y) => x == Some(*y) && next(self, at + 1, c),
            Any => x.is_some_and(|x| x != '\n') && next(self, at + 1, c),
            Class(not, ys) => x.is_some_and(|x| ys.contains(&x) != *not) && next(self, at + 1, c),
            Start => at == 0 && next(self, at, c),
            End => x.is_none() && next(self, at, c),
            Sequence(ps) => self.sequence(ps, at, c, next),
            Choice(ps) => ps.iter().any(|p| self.run(p, at, c, next)),
            Group(g, p) => {
                let old = c[*g];
                let ok = self.run(p, at, c, &mut |m, end, c| {
                    let inner = c[*g];
                    c[*g] = Some((at, end));
                    let ok = next(m, end, c);
                    if !ok {
                        c[*g] = inner;
                    }
                    ok
                });
                if !ok {
                    c[*g] = old;
                }
                ok
            }
            Repeat(p, least, most, lazy) => self.repeat(p, *least, *most, *lazy, at, c, next),
        }
    }

    fn sequence(&mut self, ps: &[Pattern], at: usize, c: &mut Captures, next: Next) -> bool {
        match ps {
            [] => next(self, at, c),
            [p, rest @ ..] => self.run(p, at, c, &mut |m, at, c| m.sequence(rest, at, c, next)),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn repeat(&mut self, p: &Pattern, least: usize, most: usize, lazy: bool, at: usize, c: &mut Captures, next: Next) -> bool {
        if least == 0 && lazy && next(self, at, c) {
            return true;
        }
        if most > 0 && self.run(p, at, c, &mut |m, at, c| m.repeat(p, least.saturating_sub(1), if most == usize::MAX { most } else { most - 1 }, lazy, at, c, next)) {
            return true;
        }
        least == 0 && !lazy && next(self, at, c)
    }
}

/// What the pattern captures in the text, or nothing if the search is too long for the model.
fn search(p: &Pattern, groups: usize, text: &[char]) -> Option<Option<Captures>> {
    let mut m = Matcher { text, fuel: 20_000 };
    for start in 0..=text.len() {
        let mut c: Captures = vec![None; groups + 1];
        let mut end = 0;
        if m.run(p, start, &mut c, &mut |_, at, _| {
            end = at;
            true
        }) {
            c[0] = Some((start, end));
            return Some(Some(c));
        }
        if m.fuel == 0 {
            return None;
        }
    }
    Some(None)
}

#[derive(Clone)]
struct Expression {
    pattern: std::sync::Arc<(Pattern, usize, String)>,
    handle: Arc<Any>,
}

const SLOTS: usize = 3;
const KEY: usize = 0x6700_0000_0000;
static SHARED: Plain<Vec<Option<Expression>>> = Plain::new(vec![]);
static TEXTS: Plain<Vec<(Vec<u8>, ByteString)>> = Plain::new(vec![]);

fn compile() -> Expression {
    let mut groups = 0;
    let pattern = some_pattern(3, &mut groups);
    let mut text = String::new();
    pattern.print(&mut text);
    let handle = unsafe { _pen_regex_expression_new(text.as_str().into()) };
    if let Some(e) = error_of(&handle) {
        fail("refused-pattern", format!("{text:?} is refused: {e}"));
    }
    let handle = handle_of(&handle).unwrap_or_else(|| fail("wrong-pattern", format!("{text:?} gives no expression")));
    Expression { pattern: std::sync::Arc::new((pattern, groups, text)), handle: shared_handle(handle) }
}

fn refuse() {
    let bad: &[u8] = [&b"("[..], b"a)", b"[a", b"*", b"a{3,1}", b"\\", b"(?P<", b"\xff", b"a\xc3", b"[b-a]", b"(?<x>a)(?<x>b)", b"a**\\"][work(12) as usize];
    let x = unsafe { _pen_regex_expression_new(bad.into()) };
    ensure!(error_of(&x).is_some_and(|e| !e.is_empty()), "accepted-pattern", "{:?} is accepted", String::from_utf8_lossy(bad));
    probe("a pattern was refused");
}

fn some_text() -> Vec<u8> {
    if work(10) == 0 {
        return [&b"ab\xff"[..], b"\xc3", b"a\xe3\x81"][work(3) as usize].to_vec();
    }
    (0..work(9)).map(|_| some_character()).collect::<String>().into_bytes()
}

fn try_match(e: &Expression, bytes: &[u8], text: ByteString) {
    let (pattern, groups, source) = &*e.pattern;
    let expected = match std::str::from_utf8(bytes) {
        Err(_) => Some(None),
        Ok(t) => {
            let characters: Vec<char> = t.chars().collect();
            search(pattern, *groups, &characters).map(|found| {
                found.map(|c| c.iter().map(|r| r.map(|(i, j)| characters[i..j].iter().collect::<String>().into_bytes())).collect::<Vec<_>>())
            })
        }
    };
    let Some(expected) = expected else {
        return;
    };
    let show = String::from_utf8_lossy(bytes);
    if work(2) == 0 {
        let got = bool::from(unsafe { _pen_regex_expression_matches(e.handle.clone(), text) });
        ensure!(got == expected.is_some(), "wrong-match", "whether {source:?} matches {show:?} is {got}");
        return;
    }
    let list = unsafe { _pen_regex_expression_match(e.handle.clone(), text) };
    let got: Vec<Option<Vec<u8>>> = strict_items(&list)
        .iter()
        .map(|x| match bytes_of(x) {
            Some(b) => Some(b),
            None if is_none(x) => None,
            _ => fail("wrong-match", "a group is neither a string nor none"),
        })
        .collect();
    let expected = match expected {
        Some(e) => {
            probe("a pattern matched");
            e
        }
        None => vec![],
    };
    ensure!(got == expected, "wrong-match", "{source:?} matched with {show:?} gives {got:?}, not {expected:?}");
}

/// Threads compile expressions, share them and match with them at the same time.
pub fn patterns() {
    let threads = 1 + work(3) as usize;
    let steps = 2 + work(8);
    if config(2) == 0 {
        detect_races();
    }
    // What the engine keeps for the whole process is no leak.
    let e = unsafe { _pen_regex_expression_new("a(b)".into()) };
    drop(unsafe { _pen_regex_expression_match(handle_of(&e).unwrap(), "ab".into()) });
    drop(e);
    mark_allocations();
    SHARED.with(|s| *s = (0..SLOTS).map(|_| None).collect());
    TEXTS.with(|t| {
        *t = (0..2)
            .map(|_| {
                let b = some_text();
                (b.clone(), synchronized(b.into()))
            })
            .collect()
    });
    let handles: Vec<_> = (0..threads)
        .map(|_| {
            std::thread::spawn(move || {
                for _ in 0..steps {
                    let slot = work(SLOTS as u64) as usize;
                    let shared = kernel(|| {
                        SHARED.with(|s| {
                            let e = s[slot].clone();
                            if e.is_some() {
                                tsan::acquire(KEY + 8 * slot);
                            }
                            e
                        })
                    });
                    let e = match (shared, work(8)) {
                        (_, 0) => {
                            refuse();
                            continue;
                        }
                        (Some(e), 1..=6) => e,
                        (_, k) => {
                            let mut e = Some(compile());
                            let kept = e.clone();
                            let old = kernel(|| {
                                SHARED.with(|s| {
                                    let old = s[slot].take();
                                    if old.is_some() {
                                        tsan::acquire(KEY + 8 * slot);
                                    }
                                    tsan::release(KEY + 8 * slot);
                                    if k != 7 {
                                        s[slot] = e.take();
                                    }
                                    old
                                })
                            });
                            drop(old);
                            drop(e);
                            kept.unwrap()
                        }
                    };
                    pause();
                    for _ in 0..1 + work(3) {
                        let (b, x) = if work(2) == 0 {
                            let i = work(2) as usize;
                            kernel(|| TEXTS.with(|t| t[i].clone()))
                        } else {
                            let b = some_text();
                            (b.clone(), b.into())
                        };
                        try_match(&e, &b, x);
                    }
                }
            })
        })
        .collect();
    for h in handles {
        h.join().unwrap();
    }
    for slot in 0..SLOTS {
        tsan::acquire(KEY + 8 * slot);
    }
    drop(SHARED.with(std::mem::take));
    drop(TEXTS.with(std::mem::take));
    no_leaks("after every expression is gone");
}
