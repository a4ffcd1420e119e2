// What a call took: what it declared, and the state it touched.
use frame_support::dispatch::{DispatchInfo, PostDispatchInfo};
pub struct Done {
	by: Option<Key>,
	call: RuntimeCall,
	info: DispatchInfo,
	actual: Option<frame_support::weights::Weight>,
	ok: bool,
	touched: sp_io::Touched,
}
thread_local! {
	static DONE: std::cell::RefCell<Option<Vec<Done>>> = const { std::cell::RefCell::new(None) };
}
/// carries out a call, and keeps what it took if that is asked for
fn taken(call: RuntimeCall, by: Option<Key>) -> Result<(), DispatchError> {
	let origin = match &by {
		Some(k) => RuntimeOrigin::signed(k.clone()),
		None => RuntimeOrigin::root(),
	};
	if DONE.with(|d| d.borrow().is_none()) {
		return dispatch::<RuntimeCall>(call, origin)
	}
	use sp_runtime::traits::Dispatchable;
	let info = call.get_dispatch_info();
	let (r, touched) = sp_io::touching(|| call.clone().dispatch(origin));
	let post: PostDispatchInfo = match &r {
		Ok(p) => *p,
		Err(e) => e.post_info,
	};
	let done = Done { by, call, info, actual: post.actual_weight, ok: r.is_ok(), touched };
	DONE.with(|d| {
		if let Some(v) = d.borrow_mut().as_mut() {
			v.push(done)
		}
	});
	r.map(|_| ()).map_err(|e| e.error)
}
