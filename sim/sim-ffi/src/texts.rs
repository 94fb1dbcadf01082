//! Operations of the core and prelude packages on shared strings.
use ffi::{Any, Arc, Boolean, ByteString, Number};
use pensim::{api::*, sched::kernel, tsan};
use sim_kit::*;

ffi::import!(_pen_core_string_builder_create, fn() -> Arc<Any>);
ffi::import!(_pen_core_string_builder_append, fn(b: Arc<Any>, x: ByteString) -> Arc<Any>);
ffi::import!(_pen_core_string_builder_build, fn(b: Arc<Any>, separator: ByteString) -> ByteString);
ffi::import!(_pen_core_string_starts_with, fn(x: ByteString, y: ByteString) -> Boolean);
ffi::import!(_pen_core_byte_length, fn(x: ByteString) -> Number);
ffi::import!(_pen_core_byte_slice, fn(x: ByteString, start: Number, end: Number) -> ByteString);
ffi::import!(_pen_core_view_starts_with, fn(x: ByteString, start: Number, end: Number, y: ByteString) -> Boolean);
ffi::import!(_pen_core_view_to_string, fn(x: ByteString, start: Number, end: Number) -> ByteString);
ffi::import!(_pen_core_utf8_characters, fn(x: ByteString) -> ffi::List);
ffi::import!(_pen_core_utf8_split, fn(x: ByteString, y: ByteString) -> ffi::List);
ffi::import!(_pen_core_utf8_contains, fn(x: ByteString, y: ByteString) -> Boolean);
ffi::import!(_pen_core_utf8_starts_with, fn(x: ByteString, y: ByteString) -> Boolean);
ffi::import!(_pen_core_utf8_ends_with, fn(x: ByteString, y: ByteString) -> Boolean);
ffi::import!(_pen_core_utf8_find, fn(x: ByteString, y: ByteString) -> Number);
ffi::import!(_pen_core_utf8_length, fn(x: ByteString) -> Number);
ffi::import!(_pen_core_utf8_slice, fn(x: ByteString, start: Number, end: Number) -> ByteString);
ffi::import!(_pen_core_utf8_replace, fn(x: ByteString, y: ByteString, z: ByteString) -> ByteString);
ffi::import!(_pen_core_utf8_to_lowercase, fn(x: ByteString) -> ByteString);
ffi::import!(_pen_core_utf8_to_uppercase, fn(x: ByteString) -> ByteString);
ffi::import!(_pen_core_utf8_trim, fn(x: ByteString) -> ByteString);
ffi::import!(_pen_core_utf8_trim_start, fn(x: ByteString) -> ByteString);
ffi::import!(_pen_core_utf8_trim_end, fn(x: ByteString) -> ByteString);
ffi::import!(_pen_core_utf8_trim_start_matches, fn(x: ByteString, y: ByteString) -> ByteString);
ffi::import!(_pen_core_utf8_trim_end_matches, fn(x: ByteString, y: ByteString) -> ByteString);
ffi::import!(_pen_prelude_equal_strings, fn(x: ByteString, y: ByteString) -> Boolean);
ffi::import!(_pen_prelude_hash_string, fn(x: ByteString) -> Number);
ffi::import!(_pen_prelude_hash_number, fn(x: Number) -> Number);
ffi::import!(_pen_prelude_hash_to_index, fn(hash: Number, layer: Number, level: Number) -> Number);

ffi::import!(_pen_core_character_from_code_point, fn(x: Number) -> ByteString);
ffi::import!(_pen_core_character_to_code_point, fn(x: ByteString) -> Number);
ffi::import!(_pen_core_convert_number_to_string, fn(x: Number) -> ByteString);
ffi::import!(_pen_core_parse_number, fn(x: ByteString) -> Any);
ffi::import!(_pen_prelude_debug_number, fn(x: Number) -> ByteString);
ffi::import!(_pen_json_encode_number, fn(x: Number) -> ByteString);
ffi::import!(_pen_json_decode_number, fn(x: ByteString) -> Number);
ffi::import!(_pen_html_encode_text, fn(x: ByteString) -> ByteString);
ffi::import!(_pen_html_encode_attribute, fn(x: ByteString) -> ByteString);
ffi::import!(_pen_core_absolute, fn(x: Number) -> Number);
ffi::import!(_pen_core_ceil, fn(x: Number) -> Number);
ffi::import!(_pen_core_floor, fn(x: Number) -> Number);
ffi::import!(_pen_core_fraction, fn(x: Number) -> Number);
ffi::import!(_pen_core_round, fn(x: Number) -> Number);
ffi::import!(_pen_core_truncate, fn(x: Number) -> Number);
ffi::import!(_pen_core_square_root, fn(x: Number) -> Number);
ffi::import!(_pen_core_power, fn(x: Number, y: Number) -> Number);
ffi::import!(_pen_core_remainder, fn(x: Number, y: Number) -> Number);
ffi::import!(_pen_core_bit_and, fn(x: Number, y: Number) -> Number);
ffi::import!(_pen_core_bit_or, fn(x: Number, y: Number) -> Number);
ffi::import!(_pen_core_bit_xor, fn(x: Number, y: Number) -> Number);
ffi::import!(_pen_core_bit_left_shift, fn(x: Number, y: Number) -> Number);
ffi::import!(_pen_core_bit_right_shift, fn(x: Number, y: Number) -> Number);
ffi::import!(_pen_core_bit_not, fn(x: Number) -> Number);
ffi::import!(_pen_core_bit_to_integer_64, fn(x: Number) -> Number);
ffi::import!(_pen_core_bit_from_integer_64, fn(x: Number) -> Number);
ffi::import!(_pen_core_is_nan, fn(x: Number) -> Boolean);

/// A task of the program, with the values only it has. It moves between threads as a whole.
#[derive(Default)]
struct Task {
    strings: Vec<(Vec<u8>, ByteString)>,
    builder: Option<(Vec<Vec<u8>>, Arc<Any>)>,
    left: u64,
}

static TASKS: Plain<Vec<Option<Box<Task>>>> = Plain::new(vec![]);
static MAIL: Plain<Vec<Vec<(Vec<u8>, ByteString)>>> = Plain::new(vec![]);

const KEY: usize = 0x6500_0000_0000;

fn some_text() -> Vec<u8> {
    if work(12) == 1 {
        return [&b"\xff\xfe"[..], b"a\xc3", b"\xe3\x81"][work(3) as usize].to_vec();
    }
    let n = [0, 1, 2, 3, 5, 9, 40][work(7) as usize];
    (0..n).map(|_| ["a", "b", "ab", " ", "\n", "é", "語", "A", ",", "\u{1f600}", "<", "&", "\"", "1"][work(14) as usize]).collect::<String>().into_bytes()
}

fn text(b: &[u8]) -> Option<Vec<char>> {
    std::str::from_utf8(b).ok().map(|t| t.chars().collect())
}

/// Where the pattern is in the text, by comparison at every place.
fn find(x: &[char], y: &[char], from: usize) -> Option<usize> {
    (from..=x.len().checked_sub(y.len())?).find(|&i| x[i..i + y.len()] == *y)
}

fn some_number() -> f64 {
    match work(8) {
        0 => [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 0.1 + 0.2][work(10) as usize],
        1 => f64::from_bits((work(1 << 32) << 32) | work(1 << 32)),
        2 => work(1 << 53) as f64,
        3 => -(work(1000) as f64) / 8.0,
        4 => work(1 << 32) as f64 / 1000.0,
        5 => 10f64.powi(work(40) as i32 - 20),
        _ => work(100) as f64 - 50.0,
    }
}

/// Text longer than any small counter can tell.
fn large() {
    let n = 65_530 + work(40) as usize;
    let part: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
    let cut = work(n as u64 + 1) as usize;
    unsafe {
        let b = _pen_core_string_builder_create();
        let b = _pen_core_string_builder_append(b, part[..cut].into());
        let b = _pen_core_string_builder_append(b, part[cut..].into());
        let x = _pen_core_string_builder_build(b, "".into());
        ensure!(x.as_slice() == part, "wrong-text", "{n} bytes joined at {cut} are {} others", x.as_slice().len());
        ensure!(f64::from(_pen_core_byte_length(x.clone())) == n as f64, "wrong-number", "the size of {n} bytes is wrong");
        ensure!(f64::from(_pen_core_utf8_length(x.clone())) == n as f64, "wrong-number", "the length of {n} characters is wrong");
        let y = _pen_core_byte_slice(x.clone(), (cut as f64 + 1.0).into(), (n as f64).into());
        ensure!(y.as_slice() == &part[cut..], "wrong-text", "the bytes of {n} from {cut} are {} others", y.as_slice().len());
        ensure!(bool::from(_pen_prelude_equal_strings(x, part.as_slice().into())), "wrong-answer", "equal strings of {n} bytes are not equal");
    }
    probe("large text");
}

/// Operations of numbers, as decimal fractions of eighths and as sets of bits.
fn arithmetic() {
    let is = |what: &str, x: f64, y: f64, got: Number, expected: f64| {
        let got = f64::from(got);
        ensure!(got == expected || got.is_nan() && expected.is_nan(), "wrong-number", "{what} of {x} and {y} is {got}, not {expected}");
    };
    let (i, j) = (work(1 << 16) as i64 - (1 << 15), work(64) as i64 - 32);
    let x = i as f64 / 8.0;
    unsafe {
        match work(8) {
            0 => is("the floor", x, 0.0, _pen_core_floor(x.into()), i.div_euclid(8) as f64),
            1 => is("the ceiling", x, 0.0, _pen_core_ceil(x.into()), -((-i).div_euclid(8)) as f64),
            2 => {
                // Halves go away from zero.
                let r = (i.abs() + 4) / 8 * i.signum();
                is("the nearest integer", x, 0.0, _pen_core_round(x.into()), r as f64);
                is("the absolute value", x, 0.0, _pen_core_absolute(x.into()), i.abs() as f64 / 8.0);
            }
            3 => {
                is("the integer", x, 0.0, _pen_core_truncate(x.into()), (i / 8) as f64);
                is("the fraction", x, 0.0, _pen_core_fraction(x.into()), (i % 8) as f64 / 8.0);
            }
            4 => {
                let (i, j) = (i as f64, j as f64);
                let expected = if j == 0.0 { f64::NAN } else { (i as i64).rem_euclid(j as i64) as f64 };
                is("the remainder", i, j, _pen_core_remainder(i.into(), j.into()), expected);
            }
            5 => {
                let n = i.abs() as f64;
                is("the square root", n * n, 0.0, _pen_core_square_root((n * n).into()), n);
                let (b, e) = (j.rem_euclid(9), work(8) as u32);
                is("the power", b as f64, e as f64, _pen_core_power((b as f64).into(), (e as f64).into()), b.pow(e) as f64);
            }
            6 => {
                let n = some_number();
                ensure!(bool::from(_pen_core_is_nan(n.into())) == n.is_nan(), "wrong-number", "whether {n} is no number is wrong");
            }
            _ => {
                let (m, n) = (work(1 << 53), work(1 << 53));
                let (a, b) = (_pen_core_bit_to_integer_64((m as f64).into()), _pen_core_bit_to_integer_64((n as f64).into()));
                let s = work(11);
                let copy = |x: &Number| Number::new(f64::from(*x));
                let (what, got, expected) = match work(6) {
                    0 => ("the common bits", _pen_core_bit_and(a, b), m & n),
                    1 => ("the bits", _pen_core_bit_or(a, b), m | n),
                    2 => ("the different bits", _pen_core_bit_xor(a, b), m ^ n),
                    3 => ("the other bits", _pen_core_bit_and(_pen_core_bit_not(a), copy(&b)), !m & n),
                    4 => ("the bits to the left", _pen_core_bit_left_shift(_pen_core_bit_right_shift(a, 11.0.into()), (s as f64).into()), (m >> 11) << s),
                    _ => ("the bits to the right", _pen_core_bit_right_shift(a, (s as f64).into()), m >> s),
                };
                is(what, m as f64, n as f64, _pen_core_bit_from_integer_64(got), expected as f64);
            }
        }
    }
}

/// Something like a number.
fn some_numeral() -> String {
    let mut s = String::new();
    for _ in 0..1 + work(7) {
        s.push_str(["0", "1", "9", "42", ".", "-", "+", "e", "E", "e-3", "nan", "inf", " ", "_"][[0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 9][work(20) as usize]]);
    }
    s
}

/// The number that a text stands for, if it is one as a whole.
fn numeral(b: &[u8]) -> Option<f64> {
    let s = std::str::from_utf8(b).ok()?;
    let (negative, body) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let sign = |x: f64| if negative { -x } else { x };
    match body.to_ascii_lowercase().as_str() {
        "inf" | "infinity" => return Some(sign(f64::INFINITY)),
        "nan" => return Some(f64::NAN),
        _ => (),
    }
    let (mantissa, exponent) = match body.find(['e', 'E']) {
        Some(i) => (&body[..i], Some(&body[i + 1..])),
        None => (body, None),
    };
    let digits = |s: &str| s.bytes().all(|c| c.is_ascii_digit());
    let (whole, fraction) = mantissa.split_once('.').unwrap_or((mantissa, ""));
    if !digits(whole) || !digits(fraction) || whole.len() + fraction.len() == 0 {
        return None;
    }
    if let Some(e) = exponent {
        let e = e.strip_prefix(['-', '+']).unwrap_or(e);
        if e.is_empty() || !digits(e) {
            return None;
        }
    }
    Some(sign(body.parse().ok()?))
}

fn encode(x: &[char]) -> Vec<u8> {
    x.iter().collect::<String>().into_bytes()
}

fn split(x: &[char], y: &[char]) -> Vec<Vec<u8>> {
    let mut r = vec![];
    let mut at = 0;
    while let Some(i) = find(x, y, at) {
        r.push(encode(&x[at..i]));
        at = i + y.len();
    }
    r.push(encode(&x[at..]));
    r
}

fn trim(x: &[char], start: bool, end: bool) -> Vec<u8> {
    let mut x = x;
    while start && x.first().is_some_and(|c| c.is_whitespace()) {
        x = &x[1..];
    }
    while end && x.last().is_some_and(|c| c.is_whitespace()) {
        x = &x[..x.len() - 1];
    }
    encode(x)
}

fn items(list: ffi::List) -> Vec<Vec<u8>> {
    strict_items(&list).into_iter().map(|x| ByteString::try_from(x).unwrap_or_else(|_| fail("wrong-text", "a part is no string")).as_slice().to_vec()).collect()
}

fn same(what: &str, x: &[u8], y: &[u8], got: &[u8], expected: &[u8]) {
    ensure!(got == expected, "wrong-text", "{what} of {:?} and {:?} is {:?}, not {:?}", lossy(x), lossy(y), lossy(got), lossy(expected));
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}

impl Task {
    fn any(&self) -> (Vec<u8>, ByteString) {
        if self.strings.is_empty() {
            let b = some_text();
            return (b.clone(), b.into());
        }
        let (b, x) = &self.strings[work(self.strings.len() as u64) as usize];
        (b.clone(), x.clone())
    }
    fn keep(&mut self, b: Vec<u8>, x: ByteString) {
        if self.strings.len() < 12 {
            self.strings.push((b, x));
        }
    }
    fn check(&self) {
        for (b, x) in &self.strings {
            ensure!(x.as_slice() == b, "changed-text", "the string {:?} has become {:?}", lossy(b), lossy(x.as_slice()));
        }
    }

    fn step(&mut self, me: usize, tasks: usize) {
        let mail = kernel(|| {
            let m = MAIL.with(|m| m[me].pop());
            if m.is_some() {
                tsan::acquire(KEY + 8 * me + 4096);
            }
            m
        });
        if let Some((b, x)) = mail {
            ensure!(x.as_slice() == b, "changed-text", "the string {:?} arrives as {:?}", lossy(&b), lossy(x.as_slice()));
            self.keep(b, x);
        }
        match work(14) {
            0 => {
                let b = some_text();
                self.keep(b.clone(), b.into());
            }
            1 => {
                let (b, x) = self.any();
                synchronize(&x);
                let mut v = Some((b, x));
                let to = work(tasks as u64) as usize;
                kernel(|| {
                    tsan::release(KEY + 8 * to + 4096);
                    MAIL.with(|m| m[to].push(v.take().unwrap()))
                });
                pause();
            }
            2 if !self.strings.is_empty() => {
                let i = work(self.strings.len() as u64) as usize;
                self.strings.swap_remove(i);
            }
            3..=5 => self.join(),
            6 => self.cut(),
            10 => self.numbers(),
            11 if work(40) == 39 => large(),
            11 => self.escape(),
            12 => self.characters(),
            13 => arithmetic(),
            _ => self.ask(),
        }
        self.check();
    }

    /// Numbers as text and back.
    fn numbers(&mut self) {
        let (b, x) = match work(4) {
            0 => self.any(),
            1 => {
                let b = some_numeral().into_bytes();
                (b.clone(), b.into())
            }
            _ => {
                let n = some_number();
                let x: ByteString = unsafe {
                    match work(3) {
                        0 => _pen_core_convert_number_to_string(n.into()),
                        1 => _pen_prelude_debug_number(n.into()),
                        _ => _pen_json_encode_number(n.into()),
                    }
                };
                let b = x.as_slice().to_vec();
                let got = numeral(&b);
                ensure!(got.is_some_and(|m| m.to_bits() == n.to_bits() || m.is_nan() && n.is_nan()), "wrong-number", "the number {n} is printed as {:?}", lossy(&b));
                (b, x)
            }
        };
        let expected = numeral(&b);
        let decoded = f64::from(unsafe { _pen_json_decode_number(x.clone()) });
        let e = expected.unwrap_or(f64::NAN);
        ensure!(decoded.to_bits() == e.to_bits() || decoded.is_nan() && e.is_nan(), "wrong-number", "{:?} is decoded as {decoded}, not {e}", lossy(&b));
        let parsed = unsafe { _pen_core_parse_number(x.clone()) };
        match (number_of(&parsed), error_of(&parsed)) {
            (Some(n), _) => ensure!(expected.is_some_and(|e| n.to_bits() == e.to_bits() || n.is_nan() && e.is_nan()), "wrong-number", "{:?} is parsed as {n}, not {expected:?}", lossy(&b)),
            (None, Some(_)) => ensure!(expected.is_none(), "wrong-number", "{:?} is refused", lossy(&b)),
            _ => fail("wrong-number", format!("{:?} is parsed as something else", lossy(&b))),
        }
        self.keep(b, x);
    }

    /// Text for a page: nothing of it is markup, and reading it gives the text again.
    fn escape(&mut self) {
        let (b, x) = self.any();
        let attribute = work(2) == 0;
        let got = unsafe { if attribute { _pen_html_encode_attribute(x) } else { _pen_html_encode_text(x) } };
        let expected = text(&b).map(|t| encode(&t)).unwrap_or_default();
        let page = lossy(got.as_slice());
        let forbidden: &[char] = if attribute { &['<', '>', '"'] } else { &['<', '>'] };
        ensure!(!page.contains(forbidden), "markup", "{:?} is escaped as {page:?}", lossy(&b));
        let mut read = String::new();
        let mut rest = &page[..];
        while let Some(i) = rest.find('&') {
            read.push_str(&rest[..i]);
            rest = &rest[i..];
            let known = [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&quot;", '"'), ("&#34;", '"'), ("&#39;", '\''), ("&#x27;", '\''), ("&#x22;", '"'), ("&#x2F;", '/')];
            let Some((name, c)) = known.iter().find(|(name, _)| rest.starts_with(name)) else {
                fail("markup", format!("{:?} is escaped as {page:?}", lossy(&b)));
            };
            read.push(*c);
            rest = &rest[name.len()..];
        }
        read.push_str(rest);
        ensure!(read.as_bytes() == expected, "wrong-text", "{:?} is escaped as {page:?}", lossy(&b));
        self.keep(page.into_bytes(), got);
    }

    /// Characters and their code points.
    fn characters(&mut self) {
        let (b, x) = self.any();
        let first = text(&b).and_then(|t| t.first().copied());
        let got = f64::from(unsafe { _pen_core_character_to_code_point(x) });
        match first {
            Some(c) => ensure!(got == c as u32 as f64, "wrong-text", "the code point of {:?} is {got}", lossy(&b)),
            None => ensure!(got.is_nan(), "wrong-text", "the code point of {:?} is {got}", lossy(&b)),
        }
        let n = match work(3) {
            0 => work(0x120) as u32,
            1 => work(0x11_0010) as u32,
            _ => [0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10_ffff, 0x11_0000, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x1_0000][work(12) as usize],
        };
        let got = unsafe { _pen_core_character_from_code_point((n as f64).into()) };
        let expected = char::from_u32(n).map(|c| encode(&[c])).unwrap_or_default();
        ensure!(got.as_slice() == expected, "wrong-text", "the character of code point {n} is {:?}", lossy(got.as_slice()));
        self.keep(expected, got);
    }

    /// What joining a list does, one part at a time.
    fn join(&mut self) {
        unsafe {
            match self.builder.take() {
                None => self.builder = Some((vec![], _pen_core_string_builder_create())),
                Some((parts, b)) if work(6) == 0 => {
                    let (s, separator) = if work(2) == 0 { (vec![], ByteString::default()) } else { self.any() };
                    let x = _pen_core_string_builder_build(b, separator);
                    let expected = parts.join(&s[..]);
                    same("joining", &s, b"", x.as_slice(), &expected);
                    probe("strings were joined");
                    self.keep(expected, x);
                }
                Some((mut parts, mut b)) => {
                    for _ in 0..1 + work(3) {
                        let (s, x) = self.any();
                        parts.push(s);
                        b = _pen_core_string_builder_append(b, x);
                    }
                    self.builder = Some((parts, b));
                }
            }
        }
    }

    /// Operations that make strings.
    fn cut(&mut self) {
        let (b, x) = self.any();
        let (p, y) = self.any();
        let t = text(&b);
        let pt = text(&p);
        let number = |n: usize| match work(6) {
            0 => f64::INFINITY,
            1 => 0.0,
            2 => -1.0 - work(3) as f64,
            _ => work(n as u64 + 3) as f64,
        };
        unsafe {
            let (what, got, expected) = match work(9) {
                0 => {
                    let (i, j) = (number(b.len()), number(b.len()));
                    let kept: Vec<u8> = b.iter().enumerate().filter(|(k, _)| i <= (k + 1) as f64 && (k + 1) as f64 <= j).map(|(_, c)| *c).collect();
                    say!("byte slice {i} to {j}");
                    ("the byte slice", _pen_core_byte_slice(x.clone(), i.into(), j.into()), kept)
                }
                1 => {
                    let t = t.unwrap_or_default();
                    let (i, j) = (number(t.len()), number(t.len()));
                    let kept: Vec<char> = t.iter().enumerate().filter(|(k, _)| i <= (k + 1) as f64 && (k + 1) as f64 <= j).map(|(_, c)| *c).collect();
                    say!("slice {i} to {j}");
                    ("the slice", _pen_core_utf8_slice(x.clone(), i.into(), j.into()), encode(&kept))
                }
                2 => {
                    let expected = match (&t, &pt) {
                        (Some(t), Some(p)) if !p.is_empty() => split(t, p).join(&b"-"[..]),
                        (Some(_), Some(_)) => return,
                        _ => b.clone(),
                    };
                    ("replacing", _pen_core_utf8_replace(x.clone(), y.clone(), "-".into()), expected)
                }
                3 => ("the lower case", _pen_core_utf8_to_lowercase(x.clone()), t.map_or(b.clone(), |t| encode(&t.iter().flat_map(|c| c.to_lowercase()).collect::<Vec<_>>()))),
                4 => ("the upper case", _pen_core_utf8_to_uppercase(x.clone()), t.map_or(b.clone(), |t| encode(&t.iter().flat_map(|c| c.to_uppercase()).collect::<Vec<_>>()))),
                5 => ("trimming", _pen_core_utf8_trim(x.clone()), t.map_or(b.clone(), |t| trim(&t, true, true))),
                6 => ("trimming the start", _pen_core_utf8_trim_start(x.clone()), t.map_or(b.clone(), |t| trim(&t, true, false))),
                7 => ("trimming the end", _pen_core_utf8_trim_end(x.clone()), t.map_or(b.clone(), |t| trim(&t, false, true))),
                _ => {
                    let start = work(2) == 0;
                    let expected = match (&t, &pt) {
                        (Some(t), Some(p)) => {
                            let mut t = &t[..];
                            while !p.is_empty() && if start { t.starts_with(p) } else { t.ends_with(p) } {
                                t = if start { &t[p.len()..] } else { &t[..t.len() - p.len()] };
                            }
                            encode(t)
                        }
                        _ => b.clone(),
                    };
                    let got = if start { _pen_core_utf8_trim_start_matches(x.clone(), y.clone()) } else { _pen_core_utf8_trim_end_matches(x.clone(), y.clone()) };
                    ("trimming the pattern", got, expected)
                }
            };
            same(what, &b, &p, got.as_slice(), &expected);
            drop(x);
            self.keep(expected, got);
        }
    }

    /// Operations that tell something about strings.
    fn ask(&mut self) {
        let (b, x) = self.any();
        let (p, y) = if work(4) == 0 && !b.is_empty() {
            let n = 1 + work(b.len() as u64) as usize;
            let i = work((b.len() - n) as u64 + 1) as usize;
            (b[i..i + n].to_vec(), b[i..i + n].to_vec().into())
        } else {
            self.any()
        };
        let both = text(&b).zip(text(&p));
        let is = |what: &str, got: Boolean, expected: bool| ensure!(bool::from(got) == expected, "wrong-text", "{what} of {:?} and {:?} is {}", lossy(&b), lossy(&p), !expected);
        let counts = |what: &str, got: Number, expected: f64| {
            let got = f64::from(got);
            ensure!(got == expected || got.is_nan() && expected.is_nan(), "wrong-text", "{what} of {:?} and {:?} is {got}, not {expected}", lossy(&b), lossy(&p))
        };
        unsafe {
            match work(12) {
                0 => is("starting with", _pen_core_string_starts_with(x, y), b.starts_with(&p)),
                1 => counts("the size", _pen_core_byte_length(x), b.len() as f64),
                2 => counts("the length", _pen_core_utf8_length(x), text(&b).map_or(f64::NAN, |t| t.len() as f64)),
                3 => is("containing", _pen_core_utf8_contains(x, y), both.is_some_and(|(t, p)| find(&t, &p, 0).is_some())),
                4 => is("starting with", _pen_core_utf8_starts_with(x, y), both.is_some_and(|(t, p)| t.starts_with(&p))),
                5 => is("ending with", _pen_core_utf8_ends_with(x, y), both.is_some_and(|(t, p)| t.ends_with(&p))),
                6 if !p.is_empty() => counts("the place", _pen_core_utf8_find(x, y), both.and_then(|(t, p)| find(&t, &p, 0)).map_or(-1.0, |i| i as f64 + 1.0)),
                7 => {
                    let got = items(_pen_core_utf8_characters(x));
                    let expected: Vec<Vec<u8>> = text(&b).unwrap_or_default().iter().map(|c| encode(&[*c])).collect();
                    ensure!(got == expected, "wrong-text", "the characters of {:?} are {got:?}", lossy(&b));
                }
                8 if !p.is_empty() => {
                    let got = items(_pen_core_utf8_split(x, y));
                    let expected = both.map_or(vec![b.clone()], |(t, p)| split(&t, &p));
                    ensure!(got == expected, "wrong-text", "{:?} split at {:?} is {got:?}", lossy(&b), lossy(&p));
                }
                9 if !b.is_empty() => {
                    let i = 1 + work(b.len() as u64);
                    let j = i - 1 + work(b.len() as u64 - i + 2);
                    let view = &b[i as usize - 1..j as usize];
                    if work(2) == 0 {
                        let got = _pen_core_view_to_string(x, (i as f64).into(), (j as f64).into());
                        same("a view", &b, b"", got.as_slice(), view);
                        self.keep(view.to_vec(), got);
                    } else if p.len() <= view.len() {
                        is("a view starting with", _pen_core_view_starts_with(x, (i as f64).into(), (j as f64).into(), y), view.starts_with(&p));
                    }
                }
                10 => {
                    is("equality", _pen_prelude_equal_strings(x.clone(), y), b == p);
                    let again = ByteString::from(b.as_slice());
                    let h = f64::from(_pen_prelude_hash_string(x)).to_bits();
                    ensure!(h == f64::from(_pen_prelude_hash_string(again)).to_bits(), "wrong-hash", "equal strings {:?} have different hashes", lossy(&b));
                    let place = f64::from(_pen_prelude_hash_to_index(f64::from_bits(h).into(), (work(3) as f64).into(), (1.0 + work(12) as f64).into()));
                    ensure!((1.0..=32.0).contains(&place) && place.fract() == 0.0, "wrong-hash", "a hash has the place {place}");
                }
                _ => {
                    let n = work(100) as f64 - 50.0;
                    for (x, y) in [(n, n), (0.0, -0.0), (f64::NAN, -f64::NAN)] {
                        let (h, k) = (f64::from(_pen_prelude_hash_number(x.into())).to_bits(), f64::from(_pen_prelude_hash_number(y.into())).to_bits());
                        ensure!(h == k, "wrong-hash", "the numbers {x} and {y} have different hashes");
                    }
                }
            }
        }
    }
}

/// Tasks work on strings they share, while they move between threads.
pub fn texts() {
    let threads = 1 + work(3) as usize;
    let tasks = 1 + work(4) as usize;
    if config(2) == 0 {
        detect_races();
    }
    mark_allocations();
    let steps = 6 + work(24);
    TASKS.with(|t| *t = (0..tasks).map(|_| Some(Box::new(Task { left: steps, ..Task::default() }))).collect());
    MAIL.with(|m| *m = (0..tasks).map(|_| vec![]).collect());
    let handles: Vec<_> = (0..threads)
        .map(|_| {
            std::thread::spawn(move || loop {
                let next = kernel(|| {
                    TASKS.with(|t| {
                        let free: Vec<usize> = (0..t.len()).filter(|i| t[*i].as_ref().is_some_and(|t| t.left > 0)).collect();
                        let i = *free.get(work(free.len().max(1) as u64) as usize)?;
                        tsan::acquire(KEY + 8 * i);
                        Some((i, t[i].take().unwrap()))
                    })
                });
                let Some((i, mut task)) = next else {
                    if TASKS.with(|t| t.iter().all(|t| t.as_ref().is_some_and(|t| t.left == 0))) {
                        return;
                    }
                    sleep_ns(10_000);
                    continue;
                };
                for _ in 0..(1 + work(4)).min(task.left) {
                    task.left -= 1;
                    task.step(i, tasks);
                }
                let mut task = Some(task);
                kernel(|| {
                    tsan::release(KEY + 8 * i);
                    TASKS.with(|t| t[i] = task.take());
                });
                pause();
            })
        })
        .collect();
    for h in handles {
        h.join().unwrap();
    }
    for (i, t) in TASKS.with(std::mem::take).into_iter().enumerate() {
        tsan::acquire(KEY + 8 * i);
        t.unwrap().check();
    }
    for (i, m) in MAIL.with(std::mem::take).into_iter().enumerate() {
        tsan::acquire(KEY + 8 * i + 4096);
        drop(m);
    }
    no_leaks("after every string is gone");
}
