// C38: every power of governance needs the approval it is documented to need, no more and no less.
include!("calls.rs");
use frame_support::traits::EnsureOrigin;
use pallet_collective::{Instance1, Instance2, RawOrigin as Of};
use rt::RuntimeOrigin as Origin;

/// how much of a body has to agree
#[derive(Clone, Copy, Debug, PartialEq)]
enum Need {
	Nobody,
	/// any member, acting alone
	AnyMember,
	/// so many members in a motion
	Members(u64),
	AtLeast(u64, u64),
	MoreThan(u64, u64),
}
use Need::*;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Body {
	Council,
	Technical,
}
use Body::*;
struct Power {
	name: &'static str,
	body: Body,
	need: Need,
	root: bool,
	signed: bool,
	may: fn(Origin) -> bool,
}
/// who asks
#[derive(Clone, Debug)]
enum Who {
	Root,
	Unsigned,
	Signed(AccountId),
	Member(Body, AccountId),
	Motion(Body, u32, u32),
}
fn origin(w: &Who) -> Origin {
	match w.clone() {
		Who::Root => Origin::root(),
		Who::Unsigned => Origin::none(),
		Who::Signed(a) => Origin::signed(a),
		Who::Member(Council, a) => Of::<AccountId, Instance1>::Member(a).into(),
		Who::Member(Technical, a) => Of::<AccountId, Instance2>::Member(a).into(),
		Who::Motion(Council, n, m) => Of::<AccountId, Instance1>::Members(n, m).into(),
		Who::Motion(Technical, n, m) => Of::<AccountId, Instance2>::Members(n, m).into(),
	}
}
fn ought(p: &Power, w: &Who) -> bool {
	match w {
		Who::Root => p.root,
		Who::Unsigned => false,
		Who::Signed(_) => p.signed,
		Who::Member(b, _) => *b == p.body && p.need == AnyMember,
		Who::Motion(b, n, m) => {
			let (n, m) = (*n as u64, *m as u64);
			*b == p.body && match p.need {
				Nobody | AnyMember => false,
				Members(k) => n >= k,
				AtLeast(a, d) => n * d >= m * a,
				MoreThan(a, d) => n * d > m * a,
			}
		},
	}
}
macro_rules! power {
	($name:literal, $body:expr, $need:expr, $root:literal, $signed:literal, $t:ty) => {
		Power { name: $name, body: $body, need: $need, root: $root, signed: $signed, may: |o| <$t as EnsureOrigin<Origin>>::try_origin(o).is_ok() }
	};
}
fn powers() -> Vec<Power> {
	vec![
		power!("create_provider", Council, Members(1), true, false, <Runtime as pallet_msa::Config>::CreateProviderViaGovernanceOrigin),
		power!("create_schema", Council, MoreThan(1, 2), true, false, <Runtime as pallet_schemas::Config>::CreateSchemaViaGovernanceOrigin),
		power!("schedule", Council, AtLeast(1, 2), true, false, <Runtime as pallet_scheduler::Config>::ScheduleOrigin),
		power!("preimage", Technical, AnyMember, true, false, <Runtime as pallet_preimage::Config>::ManagerOrigin),
		power!("council_members", Council, Nobody, true, false, <Runtime as pallet_collective::Config<Instance1>>::SetMembersOrigin),
		power!("technical_members", Council, Nobody, true, false, <Runtime as pallet_collective::Config<Instance2>>::SetMembersOrigin),
		power!("external_default", Council, AtLeast(1, 1), true, false, <Runtime as pallet_democracy::Config>::ExternalDefaultOrigin),
		power!("external_majority", Council, MoreThan(1, 2), true, false, <Runtime as pallet_democracy::Config>::ExternalMajorityOrigin),
		power!("external", Council, AtLeast(1, 2), true, false, <Runtime as pallet_democracy::Config>::ExternalOrigin),
		power!("submit", Council, Nobody, false, true, <Runtime as pallet_democracy::Config>::SubmitOrigin),
		power!("fast_track", Technical, AtLeast(2, 3), true, false, <Runtime as pallet_democracy::Config>::FastTrackOrigin),
		power!("instant", Technical, AtLeast(1, 1), true, false, <Runtime as pallet_democracy::Config>::InstantOrigin),
		power!("cancellation", Council, AtLeast(2, 3), true, false, <Runtime as pallet_democracy::Config>::CancellationOrigin),
		power!("cancel_proposal", Technical, AtLeast(1, 1), true, false, <Runtime as pallet_democracy::Config>::CancelProposalOrigin),
		power!("blacklist", Council, Nobody, true, false, <Runtime as pallet_democracy::Config>::BlacklistOrigin),
		power!("veto", Technical, AnyMember, false, false, <Runtime as pallet_democracy::Config>::VetoOrigin),
		power!("treasury_approve", Council, AtLeast(3, 5), true, false, <Runtime as pallet_treasury::Config>::ApproveOrigin),
		power!("treasury_reject", Council, MoreThan(1, 2), true, false, <Runtime as pallet_treasury::Config>::RejectOrigin),
		power!("treasury_spend", Council, Nobody, false, false, <Runtime as pallet_treasury::Config>::SpendOrigin),
		power!("collators", Council, AtLeast(3, 5), true, false, <Runtime as pallet_collator_selection::Config>::UpdateOrigin),
		power!("transfer_with_schedule", Council, Nobody, false, true, <Runtime as pallet_time_release::Config>::TransferOrigin),
	]
}
pub fn run(r: &mut Run, n: u64) {
	let g = r.rng(0x3800 + n);
	let mut o = Mon::new(r, g, json!({"network": NETWORK}));
	TestExternalities::default().execute_with(|| {
		let mut ask = vec![Who::Root, Who::Unsigned];
		for b in [Council, Technical] {
			ask.extend((0..3).map(|_| Who::Member(b, acc(o.g.usize(12)))));
			if n < 3 {
				// every vote a body of up to 13 can take
				ask.extend((1..=13u32).flat_map(|m| (0..=m).map(move |n| Who::Motion(b, n, m))));
			}
			for _ in 0..80 {
				let most = if o.g.chance(1, 2) { 30 } else { 1000 };
				let m = 1 + o.g.below(most) as u32;
				let (a, d) = *o.g.pick(&[(0, 1), (1, 2), (2, 3), (3, 5), (1, 1), (1, 3), (3, 4)]);
				let near = (m as u64 * a / d) as i64 + o.g.below(4) as i64 - 1;
				let k = if o.g.chance(1, 3) { o.g.below(m as u64 + 1) as i64 } else { near };
				ask.push(Who::Motion(b, k.clamp(0, m as i64) as u32, m));
			}
		}
		ask.extend((0..3).map(|_| Who::Signed(acc(o.g.usize(12)))));
		for w in &ask {
			for p in powers() {
				let want = ought(&p, w);
				let got = (p.may)(origin(w));
				o.r.count(&format!("{}:{}", p.name, if want { "may" } else { "may_not" }));
				let sig = format!("{}_{}", p.name, if want { "is_refused_to_those_who_may" } else { "is_open_to_those_who_may_not" });
				o.check("C38", got == want, &sig, || json!({"network": NETWORK, "power": p.name, "needs": dbg(&(p.body, p.need)), "who": dbg(w)}));
			}
			let k = format!("{w:?}");
			o.r.case(&(NETWORK, k.as_str()));
		}
	});
}
