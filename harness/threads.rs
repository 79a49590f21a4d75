//! Compile-time witness: builds only if these types may cross threads.
extern crate json;

fn moved<T: Send + 'static>() {}
fn shared<T: Sync + 'static>() {}

pub fn value() { moved::<json::JsonValue>(); shared::<json::JsonValue>(); }
pub fn number() { moved::<json::number::Number>(); shared::<json::number::Number>(); }
pub fn object() { moved::<json::object::Object>(); shared::<json::object::Object>(); }
pub fn short() { moved::<json::short::Short>(); shared::<json::short::Short>(); }
pub fn error() { moved::<json::Error>(); shared::<json::Error>(); }
