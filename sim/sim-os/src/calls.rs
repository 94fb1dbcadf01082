// The functions of the os and os-sync packages. Included after a definition of `function!`.
function!(_pen_os_open_file(path: ByteString, options: Arc<Options>) -> Any);
function!(_pen_os_read_file(file: Arc<Any>) -> Any);
function!(_pen_os_read_limit_file(file: Arc<Any>, limit: ffi::Number) -> Any);
function!(_pen_os_write_file(file: Arc<Any>, bytes: ByteString) -> Any);
function!(_pen_os_copy_file(src: ByteString, dest: ByteString) -> Any);
function!(_pen_os_move_file(src: ByteString, dest: ByteString) -> Any);
function!(_pen_os_remove_file(path: ByteString) -> Any);
function!(_pen_os_read_metadata(path: ByteString) -> Any);
function!(_pen_os_read_directory(path: ByteString) -> Any);
function!(_pen_os_create_directory(path: ByteString) -> Any);
function!(_pen_os_remove_directory(path: ByteString) -> Any);
function!(_pen_os_read_stdin() -> Any);
function!(_pen_os_read_limit_stdin(limit: ffi::Number) -> Any);
function!(_pen_os_write_stdout(bytes: ByteString) -> Any);
function!(_pen_os_write_stderr(bytes: ByteString) -> Any);
function!(_pen_os_tcp_bind(address: ByteString) -> Any);
function!(_pen_os_tcp_connect(address: ByteString) -> Any);
function!(_pen_os_tcp_accept(listener: Arc<Any>) -> Any);
function!(_pen_os_tcp_receive(stream: Arc<Any>, limit: ffi::Number) -> Any);
function!(_pen_os_tcp_send(stream: Arc<Any>, data: ByteString) -> Any);
function!(_pen_os_udp_bind(address: ByteString) -> Any);
function!(_pen_os_udp_connect(socket: Arc<Any>, address: ByteString) -> Any);
function!(_pen_os_udp_receive(socket: Arc<Any>) -> Any);
function!(_pen_os_udp_receive_from(socket: Arc<Any>) -> Any);
function!(_pen_os_udp_send(socket: Arc<Any>, data: ByteString) -> Any);
function!(_pen_os_udp_send_to(socket: Arc<Any>, data: ByteString, address: ByteString) -> Any);
function!(_pen_os_exit(code: ffi::Number) -> ffi::None);
function!(_pen_os_sleep(milliseconds: ffi::Number) -> ffi::None);

pub type Result<T> = std::result::Result<T, String>;

fn done(x: Any) -> Result<()> {
    match error_of(&x) {
        Some(e) => Err(e),
        None => {
            ensure!(is_none(&x), "wrong-type", "a result is neither none nor an error");
            Ok(())
        }
    }
}

fn text(x: Any) -> Result<Vec<u8>> {
    match error_of(&x) {
        Some(e) => Err(e),
        None => match bytes_of(&x) {
            Some(b) => Ok(b),
            None => fail("wrong-type", "a result is neither a string nor an error"),
        },
    }
}

fn count(x: Any) -> Result<usize> {
    match error_of(&x) {
        Some(e) => Err(e),
        None => match number_of(&x) {
            Some(b) => Ok(b as usize),
            None => fail("wrong-type", "a result is neither a number nor an error"),
        },
    }
}

#[derive(Clone)]
pub struct Handle(pub Arc<Any>);

fn handle(x: Any) -> Result<Handle> {
    match error_of(&x) {
        Some(e) => Err(e),
        None => match handle_of(&x) {
            Some(b) => {
                drop(x);
                Ok(Handle(shared_handle(b)))
            }
            None => fail("wrong-type", "a result is neither a handle nor an error"),
        },
    }
}

#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Options {
    pub append: bool,
    pub create: bool,
    pub create_new: bool,
    pub read: bool,
    pub truncate: bool,
    pub write: bool,
}

pub async fn open(path: &str, options: Options) -> Result<Handle> {
    handle(_pen_os_open_file(s(path), Arc::new(options)).await)
}
pub async fn read(file: &Handle) -> Result<Vec<u8>> {
    text(_pen_os_read_file(file.0.clone()).await)
}
pub async fn read_limit(file: &Handle, limit: usize) -> Result<Vec<u8>> {
    text(_pen_os_read_limit_file(file.0.clone(), (limit as f64).into()).await)
}
pub async fn write(file: &Handle, data: &[u8]) -> Result<usize> {
    count(_pen_os_write_file(file.0.clone(), s(data)).await)
}
pub async fn copy(src: &str, dest: &str) -> Result<()> {
    done(_pen_os_copy_file(s(src), s(dest)).await)
}
pub async fn move_(src: &str, dest: &str) -> Result<()> {
    done(_pen_os_move_file(s(src), s(dest)).await)
}
pub async fn remove(path: &str) -> Result<()> {
    done(_pen_os_remove_file(s(path)).await)
}
pub async fn size(path: &str) -> Result<u64> {
    let x = _pen_os_read_metadata(s(path)).await;
    match error_of(&x) {
        Some(e) => Err(e),
        None => match <&AnyMetadata>::try_from(&x) {
            Ok(m) => Ok(f64::from(m.0.size) as u64),
            Err(_) => fail("wrong-type", "a result is neither metadata nor an error"),
        },
    }
}
pub async fn read_directory(path: &str) -> Result<Vec<String>> {
    let x = _pen_os_read_directory(s(path)).await;
    match error_of(&x) {
        Some(e) => Err(e),
        None => match list_of(&x) {
            Some(l) => Ok(collect(l).await.iter().map(|x| String::from_utf8(bytes_of(x).unwrap()).unwrap()).collect()),
            None => fail("wrong-type", "a result is neither a list nor an error"),
        },
    }
}
pub async fn create_directory(path: &str) -> Result<()> {
    done(_pen_os_create_directory(s(path)).await)
}
pub async fn remove_directory(path: &str) -> Result<()> {
    done(_pen_os_remove_directory(s(path)).await)
}
pub async fn read_stdin() -> Result<Vec<u8>> {
    text(_pen_os_read_stdin().await)
}
pub async fn read_limit_stdin(limit: usize) -> Result<Vec<u8>> {
    text(_pen_os_read_limit_stdin((limit as f64).into()).await)
}
pub async fn write_stdout(data: &[u8]) -> Result<usize> {
    count(_pen_os_write_stdout(s(data)).await)
}
pub async fn write_stderr(data: &[u8]) -> Result<usize> {
    count(_pen_os_write_stderr(s(data)).await)
}
pub async fn tcp_bind(address: &str) -> Result<Handle> {
    handle(_pen_os_tcp_bind(s(address)).await)
}
pub async fn tcp_connect(address: &str) -> Result<Handle> {
    handle(_pen_os_tcp_connect(s(address)).await)
}
pub async fn tcp_accept(listener: &Handle) -> Result<(Handle, String)> {
    let x = _pen_os_tcp_accept(listener.0.clone()).await;
    match error_of(&x) {
        Some(e) => Err(e),
        None => match AnyAcceptedStream::try_from(x) {
            Ok(m) => Ok((
                Handle(shared_handle(m.0.stream.clone())),
                String::from_utf8(m.0.address.as_slice().to_vec()).unwrap(),
            )),
            Err(_) => fail("wrong-type", "a result is neither an accepted stream nor an error"),
        },
    }
}
pub async fn tcp_receive(stream: &Handle, limit: usize) -> Result<Vec<u8>> {
    text(_pen_os_tcp_receive(stream.0.clone(), (limit as f64).into()).await)
}
pub async fn tcp_send(stream: &Handle, data: &[u8]) -> Result<usize> {
    count(_pen_os_tcp_send(stream.0.clone(), s(data)).await)
}
pub async fn udp_bind(address: &str) -> Result<Handle> {
    handle(_pen_os_udp_bind(s(address)).await)
}
pub async fn udp_connect(socket: &Handle, address: &str) -> Result<()> {
    done(_pen_os_udp_connect(socket.0.clone(), s(address)).await)
}
pub async fn udp_receive(socket: &Handle) -> Result<Vec<u8>> {
    text(_pen_os_udp_receive(socket.0.clone()).await)
}
pub async fn udp_receive_from(socket: &Handle) -> Result<(Vec<u8>, String)> {
    let x = _pen_os_udp_receive_from(socket.0.clone()).await;
    match error_of(&x) {
        Some(e) => Err(e),
        None => match AnyDatagram::try_from(x) {
            Ok(m) => Ok((m.0.data.as_slice().to_vec(), String::from_utf8(m.0.address.as_slice().to_vec()).unwrap())),
            Err(_) => fail("wrong-type", "a result is neither a datagram nor an error"),
        },
    }
}
pub async fn udp_send(socket: &Handle, data: &[u8]) -> Result<usize> {
    count(_pen_os_udp_send(socket.0.clone(), s(data)).await)
}
pub async fn udp_send_to(socket: &Handle, data: &[u8], address: &str) -> Result<usize> {
    count(_pen_os_udp_send_to(socket.0.clone(), s(data), s(address)).await)
}
pub async fn exit(code: f64) {
    _pen_os_exit(code.into()).await;
}
pub fn get_time() -> f64 {
    unsafe { _pen_os_get_time() }.into()
}
pub async fn sleep(milliseconds: f64) {
    _pen_os_sleep(milliseconds.into()).await;
}
pub fn debug(message: &[u8]) {
    unsafe { _pen_debug(s(message)) };
}
