//! Model of `ureq` 2: what a request would send is recorded, and what comes back
//! is what the harness put there.  A reply of status 400 or more is an
//! `Error::Status`, a missing reply an `Error::Transport`, as in `ureq`.
use serde::de::DeserializeOwned;
use serde::Serialize;
pub use serde_json::{self, json};
use std::fmt;
use std::io;

/// What was sent.
#[derive(Clone, Debug)]
pub enum Body {
    Empty,
    Json(serde_json::Value),
    Bytes(Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Sent {
    pub method: String,
    pub url: String,
    pub headers: Vec<(String, String)>,
    pub body: Body,
}
pub mod net {
    use super::Sent;
    /// The reply to come: status and body, or nothing.
    pub struct Net {
        pub reply: Option<(u16, Vec<u8>)>,
        pub sent: Vec<Sent>,
    }
    static mut NET: Net = Net { reply: None, sent: Vec::new() };
    /// The only thread there is.
    #[allow(static_mut_refs)]
    pub fn net() -> &'static mut Net {
        unsafe { &mut NET }
    }
}

#[derive(Debug)]
pub struct Response {
    status: u16,
    body: Vec<u8>,
}
impl Response {
    pub fn new(status: u16, _text: &str, body: &str) -> Result<Self, Error> {
        Ok(Self { status, body: body.as_bytes().to_vec() })
    }
    pub fn status(&self) -> u16 {
        self.status
    }
    pub fn status_text(&self) -> &str {
        ""
    }
    pub fn header(&self, _name: &str) -> Option<&str> {
        None
    }
    pub fn has(&self, _name: &str) -> bool {
        false
    }
    pub fn all(&self, _name: &str) -> Vec<&str> {
        vec![]
    }
    pub fn headers_names(&self) -> Vec<String> {
        vec![]
    }
    pub fn content_type(&self) -> &str {
        "text/plain"
    }
    pub fn charset(&self) -> &str {
        "utf-8"
    }
    pub fn http_version(&self) -> &str {
        "HTTP/1.1"
    }
    pub fn into_string(self) -> io::Result<String> {
        Ok(String::from_utf8_lossy(&self.body).into_owned())
    }
    pub fn into_reader(self) -> Box<dyn io::Read + Send + Sync + 'static> {
        Box::new(io::Cursor::new(self.body))
    }
    pub fn into_json<T: DeserializeOwned>(self) -> io::Result<T> {
        serde_json::from_reader(io::Cursor::new(self.body)).map_err(|_| io::Error::from(io::ErrorKind::InvalidData))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrorKind {
    InvalidUrl,
    Dns,
    ConnectionFailed,
    Io,
    HTTP,
}
#[derive(Debug)]
pub struct Transport;
impl Transport {
    pub fn kind(&self) -> ErrorKind {
        ErrorKind::ConnectionFailed
    }
    pub fn message(&self) -> Option<&str> {
        None
    }
}
impl fmt::Display for Transport {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("transport")
    }
}
impl std::error::Error for Transport {}
#[derive(Debug)]
pub enum Error {
    Status(u16, Response),
    Transport(Transport),
}
impl Error {
    pub fn into_response(self) -> Option<Response> {
        match self {
            Error::Status(_, r) => Some(r),
            Error::Transport(_) => None,
        }
    }
    pub fn into_transport(self) -> Option<Transport> {
        match self {
            Error::Status(..) => None,
            Error::Transport(t) => Some(t),
        }
    }
    pub fn kind(&self) -> ErrorKind {
        match self {
            Error::Status(..) => ErrorKind::HTTP,
            Error::Transport(t) => t.kind(),
        }
    }
}
impl From<Transport> for Error {
    fn from(t: Transport) -> Self {
        Error::Transport(t)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Status(s, _) => write!(f, "status code {s}"),
            Error::Transport(t) => write!(f, "{t}"),
        }
    }
}
impl std::error::Error for Error {}
pub trait OrAnyStatus {
    fn or_any_status(self) -> Result<Response, Transport>;
}
impl OrAnyStatus for Result<Response, Error> {
    fn or_any_status(self) -> Result<Response, Transport> {
        match self {
            Ok(r) | Err(Error::Status(_, r)) => Ok(r),
            Err(Error::Transport(t)) => Err(t),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Request {
    s: Sent,
}
impl Request {
    fn new(method: &str, url: &str) -> Self {
        Self { s: Sent { method: method.to_string(), url: url.to_string(), headers: vec![], body: Body::Empty } }
    }
    pub fn method(&self) -> &str {
        &self.s.method
    }
    pub fn url(&self) -> &str {
        &self.s.url
    }
    pub fn set(mut self, header: &str, value: &str) -> Self {
        let h = header.to_ascii_lowercase();
        self.s.headers.retain(|x| x.0 != h);
        self.s.headers.push((h, value.to_string()));
        self
    }
    pub fn timeout(self, _t: std::time::Duration) -> Self {
        self
    }
    pub fn header(&self, name: &str) -> Option<&str> {
        let h = name.to_ascii_lowercase();
        self.s.headers.iter().find(|x| x.0 == h).map(|x| x.1.as_str())
    }
    pub fn has(&self, name: &str) -> bool {
        self.header(name).is_some()
    }
    /// Appended as it stands: the harness's texts need no escaping.
    pub fn query(mut self, param: &str, value: &str) -> Self {
        let sep = if self.s.url.contains('?') { '&' } else { '?' };
        self.s.url = format!("{}{sep}{param}={value}", self.s.url);
        self
    }
    fn typ(self, value: &str) -> Self {
        if self.s.headers.iter().any(|h| h.0 == "content-type") {
            self
        } else {
            self.set("content-type", value)
        }
    }
    fn go(mut self, body: Body) -> Result<Response, Error> {
        self.s.body = body;
        let n = net::net();
        n.sent.push(self.s);
        match n.reply.take() {
            None => Err(Error::Transport(Transport)),
            Some((status, body)) => {
                let r = Response { status, body };
                if status >= 400 {
                    Err(Error::Status(status, r))
                } else {
                    Ok(r)
                }
            }
        }
    }
    pub fn call(self) -> Result<Response, Error> {
        self.go(Body::Empty)
    }
    pub fn send_json(self, data: impl Serialize) -> Result<Response, Error> {
        let v = serde_json::to_value(data).expect("value");
        self.typ("application/json").go(Body::Json(v))
    }
    pub fn send_bytes(self, data: &[u8]) -> Result<Response, Error> {
        self.go(Body::Bytes(data.to_vec()))
    }
    pub fn send_string(self, data: &str) -> Result<Response, Error> {
        self.typ("text/plain; charset=utf-8").go(Body::Bytes(data.as_bytes().to_vec()))
    }
    pub fn send(self, mut reader: impl io::Read) -> Result<Response, Error> {
        let mut b = vec![];
        reader.read_to_end(&mut b).expect("read");
        self.go(Body::Bytes(b))
    }
}
pub fn request(method: &str, path: &str) -> Request {
    Request::new(method, path)
}
pub fn get(path: &str) -> Request {
    Request::new("GET", path)
}
pub fn post(path: &str) -> Request {
    Request::new("POST", path)
}
pub fn put(path: &str) -> Request {
    Request::new("PUT", path)
}
pub fn delete(path: &str) -> Request {
    Request::new("DELETE", path)
}
pub fn head(path: &str) -> Request {
    Request::new("HEAD", path)
}
pub fn patch(path: &str) -> Request {
    Request::new("PATCH", path)
}
#[derive(Clone, Debug, Default)]
pub struct Agent;
impl Agent {
    pub fn new() -> Self {
        Self
    }
    pub fn request(&self, method: &str, path: &str) -> Request {
        Request::new(method, path)
    }
    pub fn get(&self, path: &str) -> Request {
        Request::new("GET", path)
    }
    pub fn post(&self, path: &str) -> Request {
        Request::new("POST", path)
    }
    pub fn put(&self, path: &str) -> Request {
        Request::new("PUT", path)
    }
    pub fn delete(&self, path: &str) -> Request {
        Request::new("DELETE", path)
    }
    pub fn head(&self, path: &str) -> Request {
        Request::new("HEAD", path)
    }
    pub fn patch(&self, path: &str) -> Request {
        Request::new("PATCH", path)
    }
}
pub fn builder() -> AgentBuilder {
    AgentBuilder
}
pub fn agent() -> Agent {
    Agent
}
#[derive(Debug, Default)]
pub struct AgentBuilder;
impl AgentBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn timeout(self, _t: std::time::Duration) -> Self {
        self
    }
    pub fn timeout_connect(self, _t: std::time::Duration) -> Self {
        self
    }
    pub fn timeout_read(self, _t: std::time::Duration) -> Self {
        self
    }
    pub fn timeout_write(self, _t: std::time::Duration) -> Self {
        self
    }
    pub fn user_agent(self, _a: &str) -> Self {
        self
    }
    pub fn redirects(self, _n: u32) -> Self {
        self
    }
    pub fn no_delay(self, _n: bool) -> Self {
        self
    }
    pub fn https_only(self, _n: bool) -> Self {
        self
    }
    pub fn max_idle_connections(self, _n: usize) -> Self {
        self
    }
    pub fn build(self) -> Agent {
        Agent
    }
}
