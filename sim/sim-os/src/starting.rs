//! What a program is started with.
use crate::rt::*;
use ffi::{Any, ByteString, List};
use pensim::api::*;
use sim_kit::*;
use std::{ffi::OsString, os::unix::ffi::OsStringExt};

ffi::import!(_pen_os_get_arguments, fn() -> List);
ffi::import!(_pen_os_get_environment_variable, fn(name: ByteString) -> Any);

fn some_text(binary: bool) -> Vec<u8> {
    match work(10) {
        0 => vec![],
        1 => b"--".to_vec(),
        2 => "é語 \u{1f600}".into(),
        3 => b"a b\t\"c\" 'd' $e *\n\\".to_vec(),
        4 => vec![b'x'; 1 + work(5000) as usize],
        5 if binary => vec![b'a', 0xff, b'b'],
        6 if binary => vec![0xc3],
        7 => b"k=v".to_vec(),
        8 => b"  x\r\n ".to_vec(),
        n => format!("-{n}").into_bytes(),
    }
}

static ARGUMENTS: Plain<Vec<Vec<u8>>> = Plain::new(vec![]);
static VARIABLES: Plain<Vec<(Vec<u8>, Vec<u8>)>> = Plain::new(vec![]);

fn show(xs: &[Vec<u8>]) -> Vec<String> {
    xs.iter().map(|x| x.escape_ascii().to_string()).collect()
}

async fn look() {
    for _ in 0..1 + work(4) {
        if work(3) == 0 {
            let list = unsafe { _pen_os_get_arguments() };
            let got: Vec<Vec<u8>> = strict_items(&list).iter().map(|x| bytes_of(x).unwrap_or_else(|| fail("wrong-arguments", "an argument is no string"))).collect();
            let expected = ARGUMENTS.with(|a| a.clone());
            ensure!(got == expected, "wrong-arguments", "the arguments are {:?}, not {:?}", show(&got), show(&expected));
            if expected.iter().any(|a| std::str::from_utf8(a).is_err()) {
                probe("an argument was not UTF-8");
            }
        } else {
            let known = VARIABLES.with(|v| v.clone());
            let name = match work(6) {
                0 => [&b""[..], b"A=B", b"A\0B", b"\xff", b"NONE", b"A "][work(6) as usize].to_vec(),
                _ if !known.is_empty() => known[work(known.len() as u64) as usize].0.clone(),
                _ => b"A".to_vec(),
            };
            let value = unsafe { _pen_os_get_environment_variable(s(&name)) };
            let expected = known.iter().find(|(n, _)| *n == name).map(|(_, v)| v.clone());
            match (bytes_of(&value), error_of(&value)) {
                (Some(got), _) => ensure!(Some(&got) == expected.as_ref(), "wrong-variable", "the variable {} is {:?}", name.escape_ascii(), got.escape_ascii().to_string()),
                (None, Some(_)) => ensure!(!expected.is_some_and(|v| std::str::from_utf8(&v).is_ok()), "wrong-variable", "the variable {} is not found", name.escape_ascii()),
                _ => fail("wrong-variable", "a variable is neither a string nor an error"),
            }
        }
        yield_().await;
    }
}

/// Programs started with arguments and variables of all kinds.
pub fn starting() {
    machine();
    let arguments: Vec<Vec<u8>> = (0..work(5)).map(|_| some_text(true)).collect();
    pensim::sys::start_with([b"program".to_vec()].into_iter().chain(arguments.iter().cloned()).collect());
    ARGUMENTS.with(|a| *a = arguments);
    let names: Vec<OsString> = std::env::vars_os().map(|(n, _)| n).collect();
    for n in names {
        std::env::remove_var(n);
    }
    let mut variables = vec![];
    for n in ["A", "a", "É", "A_LONG_NAME", "AB"] {
        if work(2) == 0 {
            let v = some_text(true);
            std::env::set_var(n, OsString::from_vec(v.clone()));
            variables.push((n.as_bytes().to_vec(), v));
        }
    }
    VARIABLES.with(|v| *v = variables);
    let tasks = 1 + work(3);
    start(async move {
        let mut all = vec![];
        for _ in 0..tasks {
            all.push(task(look()).await);
        }
        wait_all(all).await;
    });
}
