//! C44: a development node seals blocks exactly as its sealing mode says.
//! One history: a node is started in a random configuration under a paused clock; transactions
//! arrive, vanish, commands are given over the RPC's channel, blocks take long or fail. Everything
//! the node asked of its parts is in the log, which is judged afterwards.
use clap::ValueEnum;
use cli_opt::SealingMode;
use futures::channel::oneshot;
use node_dev::{block_sealing::frequency_dev_sealing, *};
use std::{collections::BTreeMap, sync::Arc, time::Duration};
use vmon::*;

#[derive(Clone, Debug)]
struct Plan {
	mode: SealingMode,
	interval: u16,
	empty: bool,
	authority: bool,
	offchain: bool,
	script: Script,
	steps: Vec<(u64, Step)>,
	until: u64,
	/// no block takes any time to author
	prompt: bool,
}
#[derive(Clone, Debug, PartialEq)]
enum Step {
	Submit(u32),
	Drop,
	Seal { id: u64, empty: bool, finalize: bool, parent: Option<u64>, reply: bool, deaf: bool },
	Finalize { id: u64, hash: u64, reply: bool, justification: Option<Vec<u8>> },
}
fn plan(g: &mut Rng) -> Plan {
	let mode = *g.pick(&[SealingMode::Manual, SealingMode::Instant, SealingMode::Interval, SealingMode::Interval]);
	let interval = match g.below(6) {
		0 => 1,
		1 => 2,
		2 => 12,
		3 => g.range(3, 40) as u16,
		4 => g.range(41, 700) as u16,
		_ => g.range(1, 12) as u16,
	};
	let prompt = g.chance(2, 3);
	let scale = if mode == SealingMode::Interval { interval as u64 } else { g.range(1, 9) };
	let until = g.range(1, 6) * scale;
	let n = match g.below(4) {
		0 => g.range(0, 3),
		1 => g.range(0, 40),
		_ => g.range(1, 12),
	};
	let mut steps = vec![];
	let mut at = 0;
	let rate = if n == 0 { 1 } else { (2 * until / n).max(1) };
	for id in 1..=n {
		at += g.below(rate + 1);
		// never on the second
		let t = at.min(until) * 1000 + if g.chance(1, 3) { 100 } else { g.range(100, 900) };
		let step = match g.below(10) {
			0..=4 => Step::Submit(g.range(1, 5) as u32),
			5 => Step::Drop,
			6..=8 => Step::Seal {
				id,
				empty: g.chance(1, 2),
				finalize: g.chance(1, 2),
				parent: g.chance(1, 3).then(|| g.below(5)),
				reply: g.chance(3, 4),
				deaf: g.chance(1, 10),
			},
			_ => Step::Finalize { id, hash: g.below(6), reply: g.chance(3, 4), justification: g.chance(1, 2).then(|| g.bytes(3)) },
		};
		// without a way to reply, a command is known by its parent
		let step = match step {
			Step::Seal { id, empty, finalize, reply: false, .. } => Step::Seal { id, empty, finalize, parent: Some(1_000_000 + id), reply: false, deaf: false },
			s => s,
		};
		steps.push((t, step));
	}
	steps.sort_by_key(|(t, _)| *t);
	// in the order in which they are given, commands carry growing numbers
	for (i, (_, s)) in steps.iter_mut().enumerate() {
		match s {
			Step::Seal { id, reply, parent, .. } => {
				*id = i as u64 + 1;
				if !*reply {
					*parent = Some(1_000_000 + *id)
				}
			},
			Step::Finalize { id, .. } => *id = i as u64 + 1,
			_ => (),
		}
	}
	let some = |g: &mut Rng, p: u64| (0..20).map(|_| if g.chance(p, 6) { g.range(1, 4 * scale * 1000) } else { 0 }).collect::<Vec<_>>();
	let fails = if g.chance(1, 3) { (0..20).map(|_| [0, 0, 1, 2][g.usize(4)]).collect() } else { vec![] };
	Plan {
		mode,
		interval,
		empty: g.chance(1, 2),
		authority: g.chance(9, 10),
		offchain: g.chance(1, 2),
		script: Script {
			takes: if prompt { vec![] } else { some(g, 2) },
			fails,
			room: g.range(1, 6) as usize,
			setup: if g.chance(1, 12) { g.range(1, 3) as u8 } else { 0 },
		},
		steps,
		until: until * 1000 + 950,
		prompt,
	}
}
struct Seen {
	result: Result<(), Error>,
	log: Vec<(u64, Event)>,
	/// what the RPC was built with, for either answer about unsafe calls
	rpc: Vec<(bool, bool, bool)>,
	sent: Vec<(u64, Step)>,
	end: u64,
}
async fn history(p: &Plan) -> Seen {
	let w = World::new(p.script.clone());
	NOW.with(|n| *n.borrow_mut() = Some(w.clone()));
	RPC.with(|r| *r.borrow_mut() = None);
	let config = Configuration {
		world: w.clone(),
		network: NetworkConfiguration,
		offchain_worker: OffchainWorkerConfig { enabled: p.offchain, indexing_enabled: false },
		role: if p.authority { Role::Authority } else { Role::Full },
	};
	let tasks = frequency_dev_sealing(config, p.mode, p.interval, p.empty);
	let mut seen = Seen { result: Ok(()), log: vec![], rpc: vec![], sent: vec![], end: 0 };
	let tasks = match tasks {
		Ok(t) => t,
		Err(e) => {
			settle().await;
			seen.result = Err(e);
			seen.end = w.now();
			seen.log = w.chain.lock().unwrap().log.clone();
			return seen
		},
	};
	let rpc = RPC.with(|r| r.borrow_mut().take());
	let mut sinks = vec![];
	if let Some(build) = rpc.as_ref() {
		for d in [DenyUnsafe::Yes, DenyUnsafe::No] {
			if let Ok(m) = build(d, ()) {
				seen.rpc.push((m.deny_unsafe == d, m.command_sink.is_some(), m.offchain));
				sinks.extend(m.command_sink)
			}
		}
	}
	settle().await;
	for (at, step) in &p.steps {
		let now = w.now();
		if *at > now {
			tokio::time::sleep(Duration::from_millis(at - now)).await;
		}
		give(&w, step, &mut sinks, &mut seen);
		if p.prompt {
			settle().await
		}
	}
	let now = w.now();
	if p.until > now {
		tokio::time::sleep(Duration::from_millis(p.until - now)).await;
	}
	// one last command, once everything else is over
	w.chain.lock().unwrap().script.takes.clear();
	for _ in 0..9000 {
		let busy = {
			let c = w.chain.lock().unwrap();
			c.log.iter().filter(|(_, e)| matches!(e, Event::Attempt { .. })).count() != c.log.iter().filter(|(_, e)| matches!(e, Event::Done { .. })).count()
		};
		if !busy {
			break
		}
		tokio::time::sleep(Duration::from_millis(501)).await;
	}
	let last = Step::Seal { id: 900_000, empty: true, finalize: true, parent: None, reply: true, deaf: false };
	give(&w, &last, &mut sinks, &mut seen);
	settle().await;
	tokio::time::sleep(Duration::from_millis(10)).await;
	seen.end = w.now();
	seen.log = w.chain.lock().unwrap().log.clone();
	drop(rpc);
	tasks.stop();
	seen
}
async fn settle() {
	for _ in 0..40 {
		tokio::task::yield_now().await
	}
}
fn give(w: &Arc<World>, step: &Step, sinks: &mut [futures::channel::mpsc::Sender<EngineCommand<Hash>>], seen: &mut Seen) {
	match step {
		Step::Submit(n) =>
			for _ in 0..*n {
				let tx = w.chain.lock().unwrap().log.len() as u32 + 1;
				w.submit(tx)
			},
		Step::Drop => w.drop_ready(),
		Step::Seal { id, empty, finalize, parent, reply, deaf } => {
			let Some(sink) = pick(sinks, *id) else { return };
			let sender = reply.then(|| {
				let (to, from) = oneshot::channel();
				if !deaf {
					let (w, id) = (w.clone(), *id);
					tokio::spawn(async move {
						let r = from.await;
						w.tell(Event::Answered { id, lost: r.is_err(), sealed: r.ok(), finalized: None })
					});
				}
				Sender { id: *id, to }
			});
			let c = EngineCommand::SealNewBlock { create_empty: *empty, finalize: *finalize, parent_hash: *parent, sender };
			w.tell(Event::Asked { id: *id });
			if sink.try_send(c).is_ok() {
				seen.sent.push((w.now(), step.clone()))
			}
		},
		Step::Finalize { id, hash, reply, justification } => {
			let Some(sink) = pick(sinks, *id) else { return };
			let sender = reply.then(|| {
				let (to, from) = oneshot::channel();
				let (w, n) = (w.clone(), *id);
				tokio::spawn(async move {
					let r = from.await;
					w.tell(Event::Answered { id: n, lost: r.is_err(), finalized: r.ok(), sealed: None })
				});
				Sender { id: *id, to }
			});
			w.tell(Event::Asked { id: *id });
			if sink.try_send(EngineCommand::FinalizeBlock { hash: *hash, sender, justification: justification.clone() }).is_ok() {
				seen.sent.push((w.now(), step.clone()))
			}
		},
	}
}
/// commands come in over one connection, so that their order is known
fn pick<T>(sinks: &mut [T], _: u64) -> Option<&mut T> {
	sinks.first_mut()
}

/// the log, judged
fn judge(r: &mut Run, p: &Plan, s: &Seen) -> Vec<(String, Value)> {
	let mut bad: Vec<(String, Value)> = vec![];
	let count = |f: &dyn Fn(&Event) -> bool| s.log.iter().filter(|(_, e)| f(e)).count();
	macro_rules! want {
		($ok:expr, $what:expr, $($more:tt)*) => {
			if !$ok {
				bad.push(($what.to_string(), json!($($more)*)));
			}
		};
	}
	// how it starts
	want!(count(&|e| matches!(e, Event::NewPartial { .. })) == 1 && count(&|e| *e == Event::NewPartial { instant: true }) == 1, "node_not_set_up_for_sealing", {});
	let started = count(&|e| *e == Event::Network { started: true });
	if p.script.setup > 0 {
		r.count("starts_that_fail");
		want!(s.result == Err(Error::Other(format!("step {}", p.script.setup))), "failing_start_is_not_reported", { "got": dbg(&s.result) });
		want!(started == 0, "network_started_of_a_node_that_failed", {});
		return bad
	}
	want!(s.result.is_ok(), "start_fails", { "got": dbg(&s.result) });
	if s.result.is_err() {
		return bad
	}
	let place = |f: &dyn Fn(&Event) -> bool| s.log.iter().position(|(_, e)| f(e));
	want!(
		started == 1 && count(&|e| matches!(e, Event::Tasks { .. })) == 1 && place(&|e| matches!(e, Event::Tasks { .. })) < place(&|e| *e == Event::Network { started: true }),
		"network_not_started_once_after_the_rest",
		{}
	);
	let workers = Event::OffchainWorkers { validator: p.authority, keystore: true, database: true, pool: true, http: true };
	let many = p.offchain as usize;
	want!(
		count(&|e| matches!(e, Event::OffchainWorkers { .. })) == many && count(&|e| *e == workers) == many && count(&|e| *e == Event::OffchainRuns) == many,
		"offchain_workers_differ_from_configuration",
		{ "enabled": p.offchain, "log": dbg(&s.log.iter().take(8).collect::<Vec<_>>()) }
	);
	if p.offchain {
		r.count("nodes_with_offchain_workers");
	}
	want!(s.rpc.len() == 2 && s.rpc.iter().all(|x| *x == (true, p.authority, p.offchain)), "rpc_differs_from_configuration", { "got": s.rpc, "authority": p.authority, "offchain": p.offchain });
	let authors = count(&|e| matches!(e, Event::Authors { .. }));
	want!(
		authors == p.authority as usize && count(&|e| matches!(e, Event::Authors { essential: true, .. })) == authors,
		"authoring_task_differs_from_role",
		{ "authority": p.authority }
	);
	want!(count(&|e| *e == Event::AuthorsEnded) == 0, "authoring_ended", {});
	if !p.authority {
		r.count("nodes_that_do_not_author");
		want!(count(&|e| matches!(e, Event::Attempt { .. } | Event::Finalize { .. })) == 0, "sealed_without_authority", {});
		return bad
	}
	// what follows
	let sent: BTreeMap<u64, Step> = s.sent.iter().map(|(_, x)| (id(x), x.clone())).collect();
	let every = p.interval as u64 * 1000;
	let (mut ready, mut open): (Vec<u32>, Option<(u64, Option<u64>, bool)>) = (vec![], None);
	let (mut last_cmd, mut imports, mut autos) = (0u64, 0u64, 0u64);
	let mut waiting: BTreeMap<u64, bool> = BTreeMap::new(); // command → the pool was empty since
	let mut done: BTreeMap<u64, Result<Sealed, Error>> = BTreeMap::new(); // of which command
	let mut finals: BTreeMap<u64, bool> = BTreeMap::new();
	let mut answers: BTreeMap<u64, u64> = BTreeMap::new();
	let mut ticks: BTreeMap<u64, (u64, bool)> = BTreeMap::new(); // attempts at each tick
	let mut due: BTreeMap<u64, bool> = BTreeMap::new();
	let mut now = 0;
	// since when a block is due by the clock
	let mut since: Option<u64> = None;
	let mut tail = s.log.clone();
	tail.push((s.end, Event::Dropped));
	for (at, e) in &tail {
		if *at > now {
			// time passes
			if p.mode == SealingMode::Interval {
				let mut k = now / every + 1;
				while k * every + 2 < *at {
					due.insert(k, p.empty || !ready.is_empty());
					k += 1;
				}
				if open.is_none() && (p.empty || !ready.is_empty()) {
					let from = *since.get_or_insert(now);
					if *at > from + every + 5 {
						bad.push(("no_block_at_the_interval".into(), json!({"idle_since": from, "until": at, "interval": p.interval})));
						since = Some(*at);
					}
				} else {
					since = None
				}
			}
			if open.is_none() {
				for (c, idle) in waiting.clone() {
					let empty = matches!(sent.get(&c), Some(Step::Seal { empty: false, .. }));
					if !(empty && idle) {
						bad.push(("command_not_carried_out".into(), json!({"command": dbg(&sent.get(&c)), "at": now, "until": at})));
					} else {
						r.count("commands_declined_for_want_of_transactions");
					}
					waiting.remove(&c);
					last_cmd = last_cmd.max(c);
				}
				if p.mode == SealingMode::Instant && imports > autos {
					bad.push(("imported_transaction_not_sealed".into(), json!({"imported": imports, "blocks": autos, "at": now, "until": at})));
					autos = imports;
				}
			}
			now = *at;
		}
		match e {
			Event::Imported { tx } => {
				ready.push(*tx);
				imports += 1;
			},
			Event::Dropped => {
				ready.clear();
				waiting.values_mut().for_each(|x| *x = true)
			},
			Event::Asked { id } =>
				if sent.contains_key(id) {
					waiting.insert(*id, ready.is_empty());
				},
			Event::Attempt { n, create_empty, finalize, parent, by, ready: seen } => {
				r.count("attempts_to_seal");
				if let Some(o) = &open {
					bad.push(("two_blocks_authored_at_once".into(), json!({"first": o.0, "second": n})));
				}
				let command = by.or(parent.filter(|x| *x > 1_000_000).map(|x| x - 1_000_000));
				match command {
					Some(c) => {
						r.count("commands_to_seal_carried_out");
						let fits = match sent.get(&c) {
							Some(Step::Seal { empty, finalize: f, parent: q, reply, .. }) => empty == create_empty && f == finalize && q == parent && *reply == by.is_some(),
							_ => false,
						};
						if !fits || waiting.remove(&c).is_none() {
							bad.push(("sealed_otherwise_than_commanded".into(), json!({"command": dbg(&sent.get(&c)), "attempt": dbg(e)})));
						}
						// those before it that were declined
						for (x, idle) in waiting.clone().range(..c) {
							let empty = matches!(sent.get(x), Some(Step::Seal { empty: false, .. }));
							if !(empty && *idle) {
								bad.push(("command_passed_over".into(), json!({"command": dbg(&sent.get(x)), "by": c})));
							} else {
								r.count("commands_declined_for_want_of_transactions");
							}
							waiting.remove(x);
						}
						if c <= last_cmd {
							bad.push(("commands_out_of_order".into(), json!({"command": c, "after": last_cmd})));
						}
						last_cmd = last_cmd.max(c);
					},
					None => {
						autos += 1;
						let empty = match p.mode {
							SealingMode::Interval => p.empty,
							_ => true,
						};
						if p.mode == SealingMode::Manual {
							bad.push(("sealed_without_a_command".into(), json!({"attempt": dbg(e), "at": at})));
						} else if *create_empty != empty || !finalize || parent.is_some() {
							bad.push(("sealed_otherwise_than_configured".into(), json!({"attempt": dbg(e), "mode": dbg(&p.mode), "create_empty": p.empty})));
						}
						if p.mode == SealingMode::Instant {
							r.count("blocks_by_import");
							if autos > imports {
								bad.push(("sealed_without_a_transaction".into(), json!({"imported": imports, "blocks": autos, "at": at})));
							}
						}
						if p.mode == SealingMode::Interval {
							r.count("blocks_by_the_clock");
							let k = (at + 500) / every;
							if p.prompt {
								if at.abs_diff(k * every) > 3 {
									bad.push(("sealed_between_two_ticks".into(), json!({"at": at, "interval": p.interval})));
								}
								let t = ticks.entry(k).or_insert((0, false));
								t.0 += 1;
								if t.0 > 1 {
									bad.push(("sealed_twice_at_a_tick".into(), json!({"at": at, "interval": p.interval})));
								}
							} else if autos > at / every + 1 {
								bad.push(("sealed_more_often_than_the_interval".into(), json!({"at": at, "blocks": autos, "interval": p.interval})));
							}
							if !p.empty && *seen == 0 {
								bad.push(("attempted_an_empty_block".into(), json!({"at": at})));
							}
						}
					},
				}
				open = Some((*n, command, false));
				since = None;
			},
			Event::Timestamp =>
				if let Some(o) = open.as_mut() {
					o.2 = true
				},
			Event::Done { n, block, why } => {
				if let Some((m, command, stamped)) = open.take() {
					if m != *n {
						bad.push(("two_blocks_authored_at_once".into(), json!({"first": m, "second": n})));
					}
					if block.is_some() && !stamped {
						bad.push(("block_without_a_timestamp".into(), json!({"block": dbg(block)})));
					}
					if let Some(b) = block {
						r.count(if b.txs.is_empty() { "empty_blocks_sealed" } else { "blocks_sealed" });
						ready.retain(|t| !b.txs.contains(t));
						if ready.is_empty() {
							waiting.values_mut().for_each(|x| *x = true)
						}
					} else {
						r.count("attempts_that_failed");
					}
					if let Some(c) = command {
						done.insert(c, match (block, why) {
							(Some(b), _) => Ok(b.clone()),
							(_, w) => Err(w.clone().unwrap_or(Error::Other("?".into()))),
						});
					}
				}
			},
			Event::Finalize { hash, by, justification, ok } => {
				r.count("commands_to_finalize_carried_out");
				if open.is_some() {
					bad.push(("finalized_while_authoring".into(), json!({"at": at})));
				}
				let c = by.or_else(|| waiting.keys().copied().find(|c| matches!(sent.get(c), Some(Step::Finalize { reply: false, .. }))));
				let fits = match c.and_then(|c| sent.get(&c)) {
					Some(Step::Finalize { hash: h, reply, justification: j, .. }) =>
						h == hash && *reply == by.is_some() && *justification == j.clone().map(|j| (*b"manl", j)),
					_ => false,
				};
				if !fits || waiting.remove(&c.unwrap_or(0)).is_none() {
					bad.push(("finalized_otherwise_than_commanded".into(), json!({"command": dbg(&c.and_then(|c| sent.get(&c))), "done": dbg(e)})));
				}
				if let Some(c) = c {
					if c <= last_cmd {
						bad.push(("commands_out_of_order".into(), json!({"command": c, "after": last_cmd})));
					}
					last_cmd = last_cmd.max(c);
					finals.insert(c, *ok);
				}
			},
			Event::Answered { id, sealed, finalized, lost } => {
				*answers.entry(*id).or_insert(0) += 1;
				r.count("commands_answered");
				let ok = match (sealed, finalized) {
					(Some(x), _) => match done.get(id) {
						Some(d) => d == x,
						// declined
						None => *x == Err(Error::EmptyTransactionPool) && declinable(&sent, *id),
					},
					(_, Some(x)) => finals.get(id).map_or(false, |ok| *x == if *ok { Ok(()) } else { Err(Error::BlockNotFound) }),
					_ => *lost && !done.contains_key(id) && !finals.contains_key(id) && declinable(&sent, *id),
				};
				if *lost {
					r.count("commands_dropped_unanswered");
				}
				if !ok {
					bad.push(("answer_differs_from_what_was_done".into(), json!({"command": dbg(&sent.get(id)), "answer": dbg(e), "block": dbg(&done.get(id))})));
				}
			},
			_ => (),
		}
	}
	for (c, x) in &sent {
		let wants = matches!(x, Step::Seal { reply: true, deaf: false, .. } | Step::Finalize { reply: true, .. });
		if answers.get(c).copied().unwrap_or(0) != wants as u64 {
			bad.push(("command_not_answered_once".into(), json!({"command": dbg(x), "answers": answers.get(c)})));
		}
	}
	if p.mode == SealingMode::Interval && p.prompt {
		for (k, d) in due {
			r.count("ticks_judged");
			let n = ticks.get(&k).map_or(0, |t| t.0);
			if d && n == 0 {
				bad.push(("no_block_at_a_tick".into(), json!({"tick": k, "interval": p.interval})));
			}
		}
	}
	bad
}
fn declinable(sent: &BTreeMap<u64, Step>, id: u64) -> bool {
	matches!(sent.get(&id), Some(Step::Seal { empty: false, .. }))
}
fn id(s: &Step) -> u64 {
	match s {
		Step::Seal { id, .. } | Step::Finalize { id, .. } => *id,
		_ => 0,
	}
}
pub fn run() -> ! {
	let mut r = Run::from_env(25, 300);
	let mut g = r.rng(44);
	// the mode named on the command line is the mode that is meant, and is called the same in the log
	for (name, mode) in [("instant", SealingMode::Instant), ("manual", SealingMode::Manual), ("interval", SealingMode::Interval)] {
		r.count("modes_named");
		let shown = mode.to_string();
		r.check(SealingMode::from_str(name, false) == Ok(mode) && shown.to_lowercase() == name, "mode_named_otherwise", || json!({"name": name, "got": dbg(&SealingMode::from_str(name, false)), "shown": shown}));
	}
	for _ in 0..200 {
		let (from, to) = (g.usize(3), g.usize(4));
		let near = format!("{}{}", &["instant", "manual", "interval"][from][to..], ["", "s", " "][g.usize(3)]);
		if !["instant", "manual", "interval"].contains(&near.as_str()) {
			r.check(SealingMode::from_str(&near, false).is_err(), "unknown_mode_admitted", || json!({"name": near}));
		}
	}
	let mut n = 0u64;
	while r.time_left() && !r.too_many() {
		let p = plan(&mut g);
		n += 1;
		let seen = guarded(|| {
			let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
			let s = rt.block_on(history(&p));
			rt.shutdown_background();
			s
		});
		r.count(match p.mode {
			SealingMode::Manual => "nodes_sealing_by_hand",
			SealingMode::Instant => "nodes_sealing_instantly",
			SealingMode::Interval => "nodes_sealing_at_an_interval",
		});
		match seen {
			Ok(s) => {
				r.case(&format!("{:?}", s.log));
				r.add("events", s.log.len() as u64);
				if r.wants_sample() {
					r.sample(json!({"plan": dbg(&p), "log": dbg(&s.log.iter().take(12).collect::<Vec<_>>())}));
				}
				for (what, detail) in judge(&mut r, &p, &s).into_iter().take(3) {
					r.violation(&what, json!({"history": n, "plan": dbg(&p), "detail": detail, "log": dbg(&s.log.iter().take(80).collect::<Vec<_>>())}));
				}
			},
			Err(e) => r.violation("panic", json!({"plan": dbg(&p), "panic": panic_sig(&e)})),
		}
	}
	for (k, n) in [
		("modes_named", 3),
		("nodes_sealing_by_hand", 100),
		("nodes_sealing_instantly", 100),
		("nodes_sealing_at_an_interval", 200),
		("nodes_that_do_not_author", 20),
		("nodes_with_offchain_workers", 100),
		("starts_that_fail", 20),
		("blocks_by_import", 300),
		("blocks_by_the_clock", 300),
		("ticks_judged", 200),
		("commands_to_seal_carried_out", 300),
		("commands_to_finalize_carried_out", 100),
		("commands_declined_for_want_of_transactions", 30),
		("commands_answered", 300),
		("attempts_that_failed", 50),
		("blocks_sealed", 300),
		("empty_blocks_sealed", 100),
	] {
		r.require(k, n)
	}
	r.finish("the node's own sealing code under a paused clock: what it asked of pool, client, network and workers, judged against its mode, its configuration and the commands it was given")
}
