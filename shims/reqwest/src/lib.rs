//! In-process stand-in for `reqwest`: a request is handed, fully formed, to the transport installed
//! by the harness, which returns the response.
pub use http::{header, Method, StatusCode};
pub use url::Url;
pub type Result<T> = std::result::Result<T, Error>;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Recorded {
    pub method: String,
    pub url: String,
    /// names in lower case
    pub headers: Vec<(String, String)>,
    pub body: Option<String>,
}

#[derive(Debug, Clone)]
pub struct Canned {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: String,
}

pub type Transport = Arc<dyn Fn(Recorded) -> Option<Canned> + Send + Sync>;

thread_local! {
    static T: std::cell::RefCell<Option<Transport>> = const { std::cell::RefCell::new(None) };
}
static G: Mutex<()> = Mutex::new(());

pub fn set_transport(t: Transport) {
    let _g = G.lock();
    T.with(|c| *c.borrow_mut() = Some(t));
}

#[derive(Debug, thiserror::Error)]
pub enum Error {
    #[error("error sending request")]
    Connect,
    #[error("error decoding response body: {0}")]
    Decode(#[from] serde_json::Error),
    #[error("builder error: {0}")]
    Builder(String),
    #[error("HTTP status error ({0})")]
    Status(StatusCode),
}
impl Error {
    pub fn is_connect(&self) -> bool {
        matches!(self, Error::Connect)
    }
    pub fn is_builder(&self) -> bool {
        matches!(self, Error::Builder(_))
    }
    pub fn is_status(&self) -> bool {
        matches!(self, Error::Status(_))
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self {
            Error::Status(s) => Some(*s),
            _ => None,
        }
    }
    pub fn is_decode(&self) -> bool {
        matches!(self, Error::Decode(_))
    }
}

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
}
macro_rules! text_url { ($($t:ty),*) => {$(
    impl IntoUrl for $t {
        fn into_url(self) -> Result<Url> {
            Url::parse(self.as_ref()).map_err(|e| Error::Builder(e.to_string()))
        }
    }
)*} }
text_url!(&str, String, &String);

#[derive(Clone, Debug, Default)]
pub struct Client;
impl Client {
    pub fn new() -> Self {
        Client
    }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
        let (url, err) = match url.into_url() {
            Ok(u) => (u, None),
            Err(e) => (Url::parse("http://invalid/").unwrap(), Some(e)),
        };
        RequestBuilder { method: method.as_str().into(), url, headers: vec![], body: None, err }
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::POST, url)
    }
    pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::PUT, url)
    }
    pub fn patch<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::PATCH, url)
    }
    pub fn head<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::HEAD, url)
    }
    pub fn delete<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::DELETE, url)
    }
}

pub struct RequestBuilder {
    method: String,
    url: Url,
    headers: Vec<(String, String)>,
    body: Option<String>,
    err: Option<Error>,
}

fn scalar(v: &serde_json::Value) -> Result<Option<String>> {
    use serde_json::Value::*;
    match v {
        Null => Ok(None),
        String(s) => Ok(Some(s.clone())),
        Bool(b) => Ok(Some(b.to_string())),
        Number(n) => Ok(Some(n.to_string())),
        _ => Err(Error::Builder("unsupported value".into())),
    }
}

impl RequestBuilder {
    pub fn query<Q: serde::Serialize + ?Sized>(mut self, q: &Q) -> Self {
        let r = (|| {
            let v = serde_json::to_value(q)?;
            let mut pairs = vec![];
            match v {
                serde_json::Value::Array(a) => {
                    for p in a {
                        match p.as_array().map(|p| p.as_slice()) {
                            Some([k, v]) => {
                                let k = scalar(k)?.ok_or(Error::Builder("key".into()))?;
                                if let Some(v) = scalar(v)? {
                                    pairs.push((k, v));
                                }
                            }
                            _ => return Err(Error::Builder("unsupported pair".into())),
                        }
                    }
                }
                serde_json::Value::Object(o) => {
                    for (k, v) in o {
                        if let Some(v) = scalar(&v)? {
                            pairs.push((k, v));
                        }
                    }
                }
                _ => return Err(Error::Builder("top-level serializer supports only maps and structs".into())),
            }
            {
                let mut qp = self.url.query_pairs_mut();
                for (k, v) in &pairs {
                    qp.append_pair(k, v);
                }
            }
            if self.url.query() == Some("") {
                self.url.set_query(None);
            }
            Ok(())
        })();
        if let Err(e) = r {
            self.err = Some(e);
        }
        self
    }
    pub fn json<T: serde::Serialize + ?Sized>(mut self, t: &T) -> Self {
        match serde_json::to_string(t) {
            Ok(b) => {
                self.body = Some(b);
                if !self.headers.iter().any(|(k, _)| k == "content-type") {
                    self.headers.push(("content-type".into(), "application/json".into()));
                }
            }
            Err(e) => self.err = Some(Error::Builder(e.to_string())),
        }
        self
    }
    pub fn body<T: Into<String>>(mut self, t: T) -> Self {
        self.body = Some(t.into());
        self
    }
    pub fn header<K: AsRef<str>, V: AsRef<str>>(mut self, k: K, v: V) -> Self {
        self.headers.push((k.as_ref().to_ascii_lowercase(), v.as_ref().to_string()));
        self
    }
    pub async fn send(self) -> Result<Response> {
        if let Some(e) = self.err {
            return Err(e)
        }
        let r = Recorded {
            method: self.method,
            url: self.url.to_string(),
            headers: self.headers,
            body: self.body,
        };
        let t = T.with(|c| c.borrow().clone());
        match t.and_then(|t| t(r)) {
            Some(c) => Ok(Response(c)),
            None => Err(Error::Connect),
        }
    }
}

#[derive(Debug)]
pub struct Response(Canned);
impl Response {
    pub fn error_for_status(self) -> Result<Self> {
        let s = self.status();
        if s.is_client_error() || s.is_server_error() {
            return Err(Error::Status(s))
        }
        Ok(self)
    }
    pub fn error_for_status_ref(&self) -> Result<&Self> {
        let s = self.status();
        if s.is_client_error() || s.is_server_error() {
            return Err(Error::Status(s))
        }
        Ok(self)
    }
    pub fn status(&self) -> StatusCode {
        StatusCode::from_u16(self.0.status).unwrap()
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        Ok(serde_json::from_str(&self.0.body)?)
    }
    pub async fn text(self) -> Result<String> {
        Ok(self.0.body)
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Ok(self.0.body.into_bytes())
    }
}
