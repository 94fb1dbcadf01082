//! What compiled Pen code provides to the runtime: values as `any`, lists with lazily evaluated
//! elements, and the conversions of packages/ffi/{any,list}.pen and of the context modules.
use ffi::{
    cps::{AsyncStack, ContinuationFunction},
    Any, Arc, Boolean, ByteString, Closure, Error, List, None as PenNone, Number,
};
use pensim::{api::*, sched::kernel, sys};
use std::{
    cell::Cell,
    future::Future,
    mem::{forget, transmute, transmute_copy, ManuallyDrop},
    pin::Pin,
    task::{Poll, Waker},
};

// ---------------------------------------------------------------- any

#[ffi::any]
#[derive(Clone)]
struct AnyBoolean(Boolean);
#[ffi::any]
#[derive(Clone)]
struct AnyNone(PenNone);
#[ffi::any]
#[derive(Clone)]
struct AnyNumber(Number);
#[ffi::any]
#[derive(Clone)]
struct AnyString(ByteString);
#[ffi::any]
#[derive(Clone)]
struct AnyError(Error);
#[ffi::any]
#[derive(Clone)]
struct AnyList(List);
/// A record of one `any` field, as handles of the os package are.
#[ffi::any]
#[derive(Clone)]
pub struct AnyHandle(pub Arc<Any>);

macro_rules! kind {
    ($is:ident, $to:ident, $wrapper:ident, $type:ty, $default:expr) => {
        #[no_mangle]
        extern "C" fn $is(x: Any) -> Boolean {
            <&$wrapper>::try_from(&x).is_ok().into()
        }
        #[no_mangle]
        extern "C" fn $to(x: Any) -> $type {
            match $wrapper::try_from(x) {
                Ok(x) => x.0,
                Err(_) => $default,
            }
        }
    };
}

kind!(pen_ffi_any_is_boolean, pen_ffi_any_to_boolean, AnyBoolean, Boolean, false.into());
kind!(pen_ffi_any_is_number, pen_ffi_any_to_number, AnyNumber, Number, 0.0.into());
kind!(pen_ffi_any_is_string, pen_ffi_any_to_string, AnyString, ByteString, ByteString::default());
kind!(pen_ffi_any_is_error, pen_ffi_any_to_error, AnyError, Error, panic!("not an error"));
kind!(pen_ffi_any_is_list, pen_ffi_any_to_list, AnyList, List, pen_ffi_list_create());

#[no_mangle]
extern "C" fn pen_ffi_any_is_none(x: Any) -> Boolean {
    <&AnyNone>::try_from(&x).is_ok().into()
}
#[no_mangle]
extern "C" fn pen_ffi_boolean_to_any(x: Boolean) -> Any {
    AnyBoolean(x).into()
}
#[no_mangle]
extern "C" fn pen_ffi_none_to_any(x: PenNone) -> Any {
    AnyNone(x).into()
}
#[no_mangle]
extern "C" fn pen_ffi_number_to_any(x: Number) -> Any {
    AnyNumber(x).into()
}
#[no_mangle]
extern "C" fn pen_ffi_string_to_any(x: ByteString) -> Any {
    AnyString(x).into()
}
#[no_mangle]
extern "C" fn pen_ffi_error_to_any(x: Error) -> Any {
    AnyError(x).into()
}
#[no_mangle]
extern "C" fn pen_ffi_list_to_any(x: List) -> Any {
    AnyList(x).into()
}

pub fn bytes_of(x: &Any) -> Option<Vec<u8>> {
    <&AnyString>::try_from(x).ok().map(|s| s.0.as_slice().to_vec())
}

pub fn string_of(x: &Any) -> Option<ByteString> {
    <&AnyString>::try_from(x).ok().map(|s| s.0.clone())
}

pub fn number_of(x: &Any) -> Option<f64> {
    <&AnyNumber>::try_from(x).ok().map(|n| n.0.into())
}

pub fn boolean_of(x: &Any) -> Option<bool> {
    <&AnyBoolean>::try_from(x).ok().map(|n| n.0.into())
}

pub fn is_none(x: &Any) -> bool {
    <&AnyNone>::try_from(x).is_ok()
}

pub fn list_of(x: &Any) -> Option<List> {
    <&AnyList>::try_from(x).ok().map(|l| l.0.clone())
}

pub fn handle_of(x: &Any) -> Option<Arc<Any>> {
    <&AnyHandle>::try_from(x).ok().map(|l| l.0.clone())
}

#[repr(C)]
struct ErrorInner {
    source: Any,
}

/// The text of an error value, or nothing if the value is no error.
pub fn error_of(x: &Any) -> Option<String> {
    let e = <&AnyError>::try_from(x).ok()?.0.clone();
    let inner: Arc<ErrorInner> = unsafe { transmute(e) };
    Some(match bytes_of(&inner.source) {
        Some(b) => String::from_utf8_lossy(&b).into_owned(),
        None => "(not a string)".into(),
    })
}

/// What compiled code does before a value is shared between threads.
pub fn synchronize<T: Clone>(x: &T) {
    assert_eq!(size_of::<T>(), size_of::<usize>());
    let clone = ManuallyDrop::new(x.clone());
    let arc: Arc<()> = unsafe { transmute_copy(&*clone) };
    arc.synchronize();
}

pub fn synchronized<T: Clone>(x: T) -> T {
    synchronize(&x);
    x
}

pub fn synchronize_any(x: &Any) {
    (x.type_information().synchronize_fn())(*x.payload());
    // The conversions above wrap reference-counted values, whose synchronisation compiled code
    // would do through the type information.
    if let Ok(s) = <&AnyString>::try_from(x) {
        synchronize(&s.0);
    } else if let Ok(s) = <&AnyError>::try_from(x) {
        synchronize(&s.0);
        let inner: Arc<ErrorInner> = unsafe { transmute(s.0.clone()) };
        synchronize_any(&inner.source);
    } else if let Ok(s) = <&AnyList>::try_from(x) {
        synchronize_list(&s.0);
    } else if let Ok(s) = <&AnyHandle>::try_from(x) {
        synchronize(&s.0);
        synchronize_any(&s.0);
    }
}

pub fn shared(x: Any) -> Any {
    synchronize_any(&x);
    x
}

/// A handle that may be used by several tasks.
pub fn shared_handle(x: Arc<Any>) -> Arc<Any> {
    synchronize(&x);
    synchronize_any(&x);
    x
}

// ---------------------------------------------------------------- lists

#[repr(C)]
struct ListInner {
    node: Closure,
}

enum Node {
    Empty,
    Cons { first: Closure, rest: List },
    Lazy(Plain<Lazy>),
}

enum Lazy {
    Waiting(Option<Closure>),
    Evaluating(Vec<Waker>),
    Done(List),
}

extern "C" fn no_entry() {
    fail("harness", "a list node is called");
}

fn make(node: Node) -> List {
    let closure = synchronized(Closure::new(no_entry as *const u8, node).into_opaque());
    let arc = Arc::new(ListInner { node: closure });
    synchronize(&arc);
    unsafe { transmute(arc) }
}

fn inner(list: &List) -> Arc<ListInner> {
    unsafe { transmute(list.clone()) }
}

fn synchronize_list(list: &List) {
    // Lists made here are shared from the start; their elements may not be.
    let mut list = list.clone();
    loop {
        let arc = inner(&list);
        let next = match node_of(&arc) {
            Node::Cons { first, rest } => {
                synchronize(first);
                rest.clone()
            }
            _ => break,
        };
        drop(arc);
        list = next;
    }
}

fn node_of(arc: &Arc<ListInner>) -> &Node {
    unsafe { &*(arc.node.payload() as *const Node) }
}

#[no_mangle]
extern "C" fn pen_ffi_list_create() -> List {
    make(Node::Empty)
}

#[no_mangle]
extern "C" fn pen_ffi_list_prepend(x: Any, xs: List) -> List {
    make(Node::Cons { first: value_thunk(x), rest: xs })
}

#[no_mangle]
extern "C" fn pen_ffi_list_lazy(xs: Closure) -> List {
    make(Node::Lazy(Plain::new(Lazy::Waiting(Some(xs)))))
}

pub fn prepend_thunk(first: Closure, rest: List) -> List {
    make(Node::Cons { first, rest })
}

/// A list whose rest is computed when it is asked for, once.
pub fn lazy_list(f: impl Future<Output = List> + 'static) -> List {
    List::lazy(ffi::future::to_closure(f))
}

#[repr(C)]
pub struct FirstRest {
    ok: Boolean,
    first: Closure,
    rest: List,
}

async fn force(list: List) -> Option<(Closure, List)> {
    let mut list = list;
    let mut links = vec![];
    loop {
        let arc = inner(&list);
        match node_of(&arc) {
            Node::Empty => return None,
            Node::Cons { first, rest } => return Some((first.clone(), rest.clone())),
            Node::Lazy(lazy) => {
                enum Do {
                    Evaluate(Closure),
                    Wait,
                    Follow,
                }
                let next = lazy.with(|l| match l {
                    Lazy::Waiting(c) => {
                        let c = c.take().unwrap();
                        *l = Lazy::Evaluating(vec![]);
                        Do::Evaluate(c)
                    }
                    Lazy::Evaluating(_) => Do::Wait,
                    Lazy::Done(_) => Do::Follow,
                });
                match next {
                    Do::Evaluate(c) => {
                        let value: List = ffi::future::from_closure::<(), List>(c).await;
                        pensim::tsan::release(lazy as *const _ as usize);
                        let value = Cell::new(Some(value));
                        let wakers = lazy.with(|l| match std::mem::replace(l, Lazy::Done(value.take().unwrap())) {
                            Lazy::Evaluating(w) => w,
                            _ => unreachable!(),
                        });
                        wakers.into_iter().for_each(Waker::wake);
                    }
                    Do::Wait => {
                        probe("a list was evaluated by two tasks at once");
                        std::future::poll_fn(|cx| {
                            let waker = Cell::new(Some(cx.waker().clone()));
                            lazy.with(|l| match l {
                                Lazy::Evaluating(w) => {
                                    w.push(waker.take().unwrap());
                                    Poll::Pending
                                }
                                _ => Poll::Ready(()),
                            })
                        })
                        .await;
                    }
                    Do::Follow => {
                        pensim::tsan::acquire(lazy as *const _ as usize);
                        let p = lazy.with(|l| match l {
                            Lazy::Done(l) => l as *const List,
                            _ => unreachable!(),
                        });
                        let next = unsafe { (*p).clone() };
                        links.push(std::mem::replace(&mut list, next));
                    }
                }
            }
        }
    }
}

#[no_mangle]
extern "C" fn pen_ffi_list_first_rest(
    stack: &mut AsyncStack<()>,
    continue_: ContinuationFunction<Arc<FirstRest>, ()>,
    xs: List,
) {
    enter(stack, continue_, async move {
        let v = match force(xs).await {
            Some((first, rest)) => FirstRest { ok: true.into(), first, rest },
            None => FirstRest { ok: false.into(), first: value_thunk(PenNone::new().into()), rest: pen_ffi_list_create() },
        };
        synchronized(Arc::new(v))
    })
}

/// The elements of a list made by native code, whose elements have their values.
pub fn strict_items(list: &List) -> Vec<Any> {
    let mut list = list.clone();
    let mut r = vec![];
    loop {
        let arc = inner(&list);
        let next = match node_of(&arc) {
            Node::Empty => return r,
            Node::Cons { first, rest } => {
                let memo = unsafe { &*(first.payload() as *const MemoCell) };
                r.push(memo.with(|m| match m {
                    Memo::Done(x) => x.clone(),
                    _ => fail("harness", "an element is not there yet"),
                }));
                rest.clone()
            }
            Node::Lazy(_) => fail("harness", "the list is lazy"),
        };
        drop(arc);
        list = next;
    }
}

/// The next element and the rest of a list, as the consumer in compiled code gets them.
pub async fn first_rest(list: &List) -> Option<(Closure, List)> {
    force(list.clone()).await
}

/// Evaluates a thunk.
pub async fn evaluate(closure: Closure) -> Any {
    ffi::future::from_closure::<(), Any>(closure).await
}

pub async fn collect(list: List) -> Vec<Any> {
    let mut r = vec![];
    let mut list = list;
    while let Some((first, rest)) = force(list).await {
        r.push(evaluate(first).await);
        list = rest;
    }
    r
}

/// A list of strict values, built the way the runtime builds them.
pub fn strict_list<T: Into<Any>>(xs: Vec<T>) -> List {
    xs.into()
}

// ---------------------------------------------------------------- thunks

enum Memo {
    Waiting(Option<Pin<Box<dyn Future<Output = Any>>>>),
    Evaluating(Vec<Waker>),
    Done(Any),
}

type MemoCell = Plain<Memo>;

/// A thunk that already has its value.
pub fn value_thunk(x: Any) -> Closure {
    memo(Memo::Done(x))
}

/// A thunk that is evaluated once, by whoever comes first.
pub fn thunk(f: impl Future<Output = Any> + 'static) -> Closure {
    memo(Memo::Waiting(Some(Box::pin(f))))
}

fn memo(m: Memo) -> Closure {
    synchronized(Closure::new(memo_entry as *const u8, Plain::new(m)).into_opaque())
}

extern "C" fn memo_entry(stack: &mut AsyncStack<()>, continue_: ContinuationFunction<Any, ()>, closure: Closure<()>) {
    enter(stack, continue_, async move {
        loop {
            enum Do {
                Evaluate(Pin<Box<dyn Future<Output = Any>>>),
                Wait,
                Return,
            }
            let cell = unsafe { &*(closure.payload() as *const MemoCell) };
            let next = cell.with(|m| match m {
                Memo::Waiting(f) => {
                    let f = f.take().unwrap();
                    *m = Memo::Evaluating(vec![]);
                    Do::Evaluate(f)
                }
                Memo::Evaluating(_) => Do::Wait,
                Memo::Done(_) => Do::Return,
            });
            match next {
                Do::Evaluate(f) => {
                    let value = f.await;
                    synchronize_any(&value);
                    pensim::tsan::release(cell as *const _ as usize);
                    let value = Cell::new(Some(value));
                    let wakers = cell.with(|m| match std::mem::replace(m, Memo::Done(value.take().unwrap())) {
                        Memo::Evaluating(w) => w,
                        _ => unreachable!(),
                    });
                    wakers.into_iter().for_each(Waker::wake);
                }
                Do::Wait => {
                    std::future::poll_fn(|cx| {
                        let waker = Cell::new(Some(cx.waker().clone()));
                        cell.with(|m| match m {
                            Memo::Evaluating(w) => {
                                w.push(waker.take().unwrap());
                                Poll::Pending
                            }
                            _ => Poll::Ready(()),
                        })
                    })
                    .await
                }
                Do::Return => {
                    pensim::tsan::acquire(cell as *const _ as usize);
                    let p = cell.with(|m| match m {
                        Memo::Done(x) => x as *const Any,
                        _ => unreachable!(),
                    });
                    return unsafe { (*p).clone() };
                }
            }
        }
    })
}

/// Runs a future as the body of a function in the calling convention of compiled code. Compiled
/// code calls its continuation directly; functions written in Rust go through a trampoline.
pub fn enter<O, F: Future<Output = O>>(stack: &mut AsyncStack<()>, continue_: ContinuationFunction<O, ()>, future: F) {
    step(stack, continue_, Box::pin(future))
}

fn step<O, F: Future<Output = O>>(stack: &mut AsyncStack<()>, continue_: ContinuationFunction<O, ()>, mut future: Pin<Box<F>>) {
    match future.as_mut().poll(stack.context().unwrap()) {
        Poll::Ready(value) => {
            drop(future);
            if direct() {
                continue_(stack, value)
            } else {
                stack.trampoline(continue_, value).unwrap()
            }
        }
        Poll::Pending => stack.suspend(resume::<O, F>, continue_, future).unwrap(),
    }
}

fn resume<O, F: Future<Output = O>>(stack: &mut AsyncStack<()>, continue_: ContinuationFunction<O, ()>) {
    let future = stack.restore::<Pin<Box<F>>>().unwrap();
    step(stack, continue_, future)
}

fn direct() -> bool {
    kernel(|| sys::pick(9, 2) == 0)
}

// ---------------------------------------------------------------- context modules

macro_rules! handle_to_any {
    ($($name:ident),*) => {
        $(
            #[no_mangle]
            extern "C" fn $name(x: Arc<Any>) -> Any {
                AnyHandle(x).into()
            }
        )*
    };
}

handle_to_any!(_pen_os_file_to_any, _pen_os_tcp_listener_to_any, _pen_os_tcp_stream_to_any, _pen_os_udp_socket_to_any, _pen_sql_pool_to_any);

#[repr(C)]
pub struct Metadata {
    pub size: Number,
}
#[ffi::any]
#[derive(Clone)]
pub struct AnyMetadata(pub Arc<Metadata>);
#[no_mangle]
extern "C" fn _pen_os_file_metadata_to_any(x: Arc<Metadata>) -> Any {
    AnyMetadata(x).into()
}

#[repr(C)]
pub struct AcceptedStream {
    pub stream: Arc<Any>,
    pub address: ByteString,
}
#[ffi::any]
#[derive(Clone)]
pub struct AnyAcceptedStream(pub Arc<AcceptedStream>);
#[no_mangle]
extern "C" fn _pen_os_tcp_accepted_stream_to_any(x: Arc<AcceptedStream>) -> Any {
    AnyAcceptedStream(x).into()
}

#[repr(C)]
pub struct Datagram {
    pub data: ByteString,
    pub address: ByteString,
}
#[ffi::any]
#[derive(Clone)]
pub struct AnyDatagram(pub Arc<Datagram>);
#[no_mangle]
extern "C" fn _pen_os_udp_datagram_to_any(x: Arc<Datagram>) -> Any {
    AnyDatagram(x).into()
}

#[repr(C)]
pub struct Response {
    pub status: Number,
    pub headers: Arc<Any>,
    pub body: ByteString,
}
#[ffi::any]
#[derive(Clone)]
pub struct AnyResponse(pub Arc<Response>);
#[no_mangle]
extern "C" fn _pen_http_response_to_any(x: Arc<Response>) -> Any {
    AnyResponse(x).into()
}

#[ffi::any]
#[derive(Clone)]
struct AnyHeaders(std::sync::Arc<Vec<(Vec<u8>, Vec<u8>)>>);

pub fn headers(xs: Vec<(Vec<u8>, Vec<u8>)>) -> Arc<Any> {
    shared_handle(Arc::new(AnyHeaders(std::sync::Arc::new(xs)).into()))
}

pub fn headers_of(map: &Arc<Any>) -> Vec<(Vec<u8>, Vec<u8>)> {
    <&AnyHeaders>::try_from(&**map).unwrap().0.to_vec()
}

#[no_mangle]
extern "C" fn _pen_http_header_map_create() -> Arc<Any> {
    headers(vec![])
}
#[no_mangle]
extern "C" fn _pen_http_header_map_get(map: Arc<Any>, key: ByteString) -> ByteString {
    let m = headers_of(&map);
    m.iter().find(|x| x.0 == key.as_slice()).map(|x| x.1.as_slice().into()).unwrap_or_default()
}
#[no_mangle]
extern "C" fn _pen_http_header_map_set(map: Arc<Any>, key: ByteString, value: ByteString) -> Arc<Any> {
    let mut m = headers_of(&map);
    m.retain(|x| x.0 != key.as_slice());
    m.push((key.as_slice().to_vec(), value.as_slice().to_vec()));
    headers(m)
}
#[no_mangle]
extern "C" fn _pen_http_header_map_keys(map: Arc<Any>) -> List {
    strict_list(headers_of(&map).into_iter().map(|x| ByteString::from(x.0)).collect::<Vec<_>>())
}

/// Forgets a value on purpose.
pub fn leak<T>(x: T) {
    forget(x)
}
