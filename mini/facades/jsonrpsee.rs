//ver: 0.16.3
//deps: serde serde_json
pub mod core {
	pub use mf::mf_macros::ignored_attr as async_trait;
	#[derive(Debug, Clone)]
	pub enum Error {
		Call(super::types::error::CallError),
		Custom(String),
		MethodAlreadyRegistered(String),
	}
	impl std::fmt::Display for Error {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
			write!(f, "{self:?}")
		}
	}
	impl std::error::Error for Error {}
	impl From<super::types::error::CallError> for Error {
		fn from(e: super::types::error::CallError) -> Self {
			Error::Call(e)
		}
	}
	pub type RpcResult<T> = Result<T, Error>;
}
pub mod proc_macros {
	pub use mf::mf_macros::rpc;
}
pub mod types {
	pub use error::ErrorObject;
	pub mod error {
		#[derive(Debug, Clone)]
		pub enum CallError {
			Custom(ErrorObject),
			Failed(String),
			InvalidParams(String),
		}
		#[derive(Debug, Clone)]
		pub struct ErrorObject {
			pub code: i32,
			pub message: String,
			pub data: Option<String>,
		}
		impl ErrorObject {
			pub fn owned<S: std::fmt::Debug>(code: i32, message: impl Into<String>, data: Option<S>) -> Self {
				ErrorObject { code, message: message.into(), data: data.map(|d| format!("{d:?}")) }
			}
			pub fn code(&self) -> i32 {
				self.code
			}
			pub fn message(&self) -> &str {
				&self.message
			}
		}
		pub type ErrorObjectOwned = ErrorObject;
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		pub enum ErrorCode {
			ParseError,
			InvalidRequest,
			MethodNotFound,
			InvalidParams,
			InternalError,
			ServerError(i32),
		}
		impl ErrorCode {
			pub fn code(&self) -> i32 {
				match self {
					ErrorCode::ParseError => -32700,
					ErrorCode::InvalidRequest => -32600,
					ErrorCode::MethodNotFound => -32601,
					ErrorCode::InvalidParams => -32602,
					ErrorCode::InternalError => -32603,
					ErrorCode::ServerError(c) => *c,
				}
			}
		}
	}
}
pub mod tracing {
	pub use mf::log::{debug, error, info, trace, warn};
}
pub use serde;
pub use serde_json;
use core::Error;
use serde_json::Value;
use std::{collections::BTreeMap, marker::PhantomData};
use types::error::CallError;

fn camel(s: &str) -> String {
	let mut up = false;
	let mut r = String::new();
	for c in s.chars() {
		match c {
			'_' => up = !r.is_empty(),
			c if up => {
				r.extend(c.to_uppercase());
				up = false
			},
			c => r.push(c),
		}
	}
	r
}
/// the parameters of a call: a list, or by name
pub struct Params<'a>(Option<&'a Value>);
impl Params<'_> {
	pub fn take<T: serde::de::DeserializeOwned>(&self, n: usize, name: &str, optional: bool) -> Result<T, Error> {
		let v = match self.0 {
			Some(Value::Array(l)) => l.get(n),
			Some(Value::Object(m)) => match (m.get(name), m.get(&camel(name))) {
				(Some(_), Some(_)) if camel(name) != name => return Err(invalid("a parameter given twice")),
				(a, b) => a.or(b),
			},
			None => None,
			Some(_) => return Err(invalid("neither a list nor a map")),
		};
		match v {
			Some(v) => serde_json::from_value(v.clone()).map_err(|e| invalid(&e.to_string())),
			None if optional => serde_json::from_value(Value::Null).map_err(|e| invalid(&e.to_string())),
			None => Err(invalid("No more params")),
		}
	}
}
fn invalid(s: &str) -> Error {
	Error::Call(CallError::InvalidParams(s.into()))
}
/// the answer as it is sent: by its text
pub fn answer<T: serde::Serialize>(t: &T) -> Result<Value, Error> {
	let text = serde_json::to_string(t).map_err(|e| Error::Custom(e.to_string()))?;
	serde_json::from_str(&text).map_err(|e| Error::Custom(e.to_string()))
}
pub type Method = Box<dyn Fn(&Params) -> Result<Value, Error>>;
/// the methods that are served
pub struct RpcModule<C>(BTreeMap<String, Method>, PhantomData<C>);
impl<C> RpcModule<C> {
	pub fn new(_: C) -> Self {
		Self::empty()
	}
	pub fn empty() -> Self {
		RpcModule(BTreeMap::new(), PhantomData)
	}
	pub fn register(&mut self, name: &str, m: Method) {
		assert!(self.0.insert(name.into(), m).is_none(), "{name} is served twice");
	}
	pub fn merge<D>(&mut self, other: RpcModule<D>) -> Result<(), Error> {
		if let Some(k) = other.0.keys().find(|k| self.0.contains_key(*k)) {
			return Err(Error::MethodAlreadyRegistered(k.clone()))
		}
		self.0.extend(other.0);
		Ok(())
	}
	pub fn method_names(&self) -> impl Iterator<Item = &str> {
		self.0.keys().map(|k| k.as_str())
	}
	/// `None`: no such method
	pub fn ask(&self, name: &str, params: Option<&Value>) -> Option<Result<Value, Error>> {
		self.0.get(name).map(|m| m(&Params(params)))
	}
}
