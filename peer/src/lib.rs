//! A peer whose fuel-tx is built without std, loadable into the simulator's process.
#[path = "../../sim/src/node.rs"]
mod node;
use node::*;

type Reply = extern "C" fn(*mut core::ffi::c_void, *const u8, usize);

#[no_mangle]
pub extern "C" fn peer_new() -> *mut Node {
    Box::into_raw(Box::new(Node::default()))
}
/// # Safety
/// `n` comes from `peer_new`
#[no_mangle]
pub unsafe extern "C" fn peer_drop(n: *mut Node) {
    drop(Box::from_raw(n))
}
/// # Safety
/// `n` comes from `peer_new`; the request is readable
#[no_mangle]
pub unsafe extern "C" fn peer_call(n: *mut Node, req: *const u8, len: usize, out: *mut core::ffi::c_void, reply: Reply) -> i32 {
    let req = core::slice::from_raw_parts(req, len);
    let node = &mut *n;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| node.call(req)));
    let (code, bytes) = match r {
        Ok(b) => (0, b),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            (1, m.into_bytes())
        }
    };
    reply(out, bytes.as_ptr(), bytes.len());
    code
}
/// The panics of the peer are reported as replies; keep stderr quiet.
#[no_mangle]
pub extern "C" fn peer_init() {
    std::panic::set_hook(Box::new(|_| {}));
}
