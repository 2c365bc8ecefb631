//! Which runs look at which property.
use crate::gen::{Do, KINDS};
use crate::world::*;

fn w(l: &[(Do, u32)]) -> [u32; KINDS] {
	let mut o = [0; KINDS];
	for (d, x) in l {
		o[*d as usize] = *x;
	}
	o
}
/// submit deliver drop dup author skip crash restart partition heal finalize ocw query upgrade
const CALM: [u32; OPS] = [60, 0, 0, 0, 18, 3, 0, 0, 0, 0, 0, 0, 0, 0];
const NET: [u32; OPS] = [42, 22, 3, 3, 14, 2, 1, 3, 1, 3, 3, 0, 0, 0];
const WITH: [u32; OPS] = [42, 22, 3, 3, 14, 2, 1, 3, 1, 3, 3, 6, 4, 0];
const INDEX: [u32; OPS] = [36, 22, 2, 2, 14, 1, 2, 5, 1, 3, 12, 30, 0, 0];
const DENSE: [u32; OPS] = [90, 22, 2, 2, 7, 1, 1, 3, 1, 3, 8, 25, 0, 0];

pub fn all() -> Vec<Profile> {
	use Do::*;
	let base = Profile { name: "", w: w(&[]), bad: 30, bases: 6, hot: 0, crowd: 0, schemas: 0, window: false, aged: false, versions: 0, max_sigs: 0, epoch_len: 6, nodes: 1, ops: CALM, len: (80, 160), skip: 12, single: false, first_worker: 5 };
	let p = |name: &'static str, l: &[(Do, u32)]| Profile { name, w: w(l), ..base.clone() };
	vec![
		Profile { nodes: 3, ops: NET, ..p("mixed", &[(Msa, 8), (Deleg, 8), (Handle, 8), (Capacity, 8), (Message, 6), (Schema, 3), (Storage, 8), (Release, 5), (Passkey, 3), (Balance, 4), (Proxy, 2), (Paid, 10), (Wrap, 8), (Replay, 6), (Govern, 5), (Fuzz, 1)]) },
		p("keys", &[(Msa, 40), (Deleg, 8), (Handle, 4), (Wrap, 6), (Proxy, 2), (Replay, 10), (Paid, 6)]),
		Profile { crowd: 75, bad: 6, len: (100, 180), ..p("keys-many", &[(Msa, 40), (Replay, 2), (Wrap, 2)]) },
		Profile { skip: 60, ..p("keys-time", &[(Msa, 30), (Deleg, 20), (Handle, 6), (Replay, 20), (Paid, 4)]) },
		Profile { skip: 70, bad: 15, ..p("payloads", &[(Handle, 25), (Msa, 15), (Deleg, 15), (Storage, 20), (Replay, 25), (Paid, 5)]) },
		Profile { max_sigs: 4, skip: 60, ..p("sigs", &[(Msa, 30), (Deleg, 30), (Replay, 25), (Wrap, 4)]) },
		Profile { max_sigs: 3, skip: 100, bad: 10, ..p("sigs-tiny", &[(Msa, 30), (Deleg, 40), (Replay, 25)]) },
		Profile { max_sigs: 2, skip: 60, bad: 10, len: (30, 60), ..p("sigs-first", &[(Msa, 40), (Deleg, 30), (Replay, 40)]) },
		p("delegations", &[(Msa, 10), (Deleg, 40), (Message, 12), (Storage, 12), (Replay, 8), (Paid, 6), (Schema, 2), (Wrap, 4)]),
		Profile { schemas: 28, bad: 10, ..p("delegations-wide", &[(Msa, 6), (Deleg, 50), (Message, 6), (Replay, 4), (Wrap, 2)]) },
		p("free", &[(Msa, 25), (Deleg, 30), (Handle, 25), (Wrap, 4), (Balance, 3)]),
		Profile { skip: 70, ..p("handles", &[(Handle, 50), (Msa, 6), (Paid, 5), (Replay, 6), (Wrap, 3)]) },
		Profile { skip: 25, bases: 1, bad: 8, len: (200, 330), ..p("handles-deep", &[(Handle, 50), (Msa, 4), (Paid, 3)]) },
		Profile { window: true, bases: 14, ..p("handles-window", &[(Handle, 50), (Msa, 6), (Replay, 2)]) },
		Profile { bases: 14, ..p("handles-wide", &[(Handle, 50), (Msa, 6)]) },
		p("capacity", &[(Capacity, 50), (Paid, 12), (Balance, 6), (Release, 6), (Msa, 3), (Wrap, 3)]),
		Profile { epoch_len: 1, skip: 40, ..p("capacity-thaw", &[(Capacity, 50), (Paid, 6), (Balance, 4)]) },
		Profile { epoch_len: 3, ..p("paid", &[(Paid, 50), (Capacity, 12), (Deleg, 4), (Wrap, 4), (Balance, 2)]) },
		p("storage", &[(Storage, 50), (Deleg, 6), (Paid, 8), (Replay, 8), (Wrap, 3)]),
		Profile { bad: 10, len: (150, 260), ..p("storage-deep", &[(Storage, 50), (Replay, 4), (Paid, 4)]) },
		Profile { bad: 4, hot: 90, len: (180, 300), ..p("storage-hot", &[(Storage, 50), (Replay, 2), (Wrap, 3)]) },
		Profile { aged: true, bad: 4, hot: 80, ..p("storage-aged", &[(Storage, 50), (Replay, 2), (Wrap, 3)]) },
		Profile { nodes: 2, bad: 15, ops: NET, ..p("events", &[(Msa, 12), (Deleg, 10), (Handle, 10), (Capacity, 14), (Message, 6), (Schema, 8), (Storage, 12), (Release, 12), (Passkey, 4), (Paid, 10), (Wrap, 14), (Balance, 3)]) },
		Profile { bad: 55, ..p("authority", &[(Storage, 35), (Deleg, 15), (Msa, 8), (Message, 10), (Schema, 3), (Replay, 10)]) },
		p("messages", &[(Message, 50), (Deleg, 8), (Paid, 6), (Wrap, 8), (Schema, 2)]),
		Profile { versions: 252, bad: 10, len: (30, 60), ..p("schemas-many", &[(Schema, 50), (Govern, 20)]) },
		p("schemas", &[(Schema, 50), (Message, 5), (Wrap, 5)]),
		p("governance", &[(Govern, 60), (Schema, 6), (Msa, 10), (Wrap, 6), (Proxy, 2), (Deleg, 3)]),
		Profile { bad: 20, ..p("offices", &[(Office, 60), (Schema, 3), (Msa, 4), (Wrap, 3), (Deleg, 2)]) },
		Profile { nodes: 3, bad: 20, ops: NET, ..p("offices-forks", &[(Office, 60), (Schema, 3), (Msa, 4), (Wrap, 3), (Proxy, 2)]) },
		Profile { nodes: 3, ops: NET, ..p("governance-forks", &[(Govern, 60), (Schema, 4), (Msa, 8), (Wrap, 4), (Message, 4)]) },
		p("release", &[(Release, 50), (Balance, 15), (Capacity, 8), (Wrap, 5), (Passkey, 3)]),
		p("passkey", &[(Passkey, 50), (Balance, 8), (Release, 6), (Capacity, 6)]),
		Profile { bad: 45, nodes: 2, ops: NET, ..p("nonces", &[(Balance, 15), (Msa, 10), (Passkey, 10), (Paid, 8), (Deleg, 8), (Fuzz, 8), (Wrap, 4)]) },
		Profile { bad: 20, ..p("filter", &[(Wrap, 50), (Proxy, 8), (Fuzz, 8), (Schema, 6), (Msa, 6)]) },
		Profile { nodes: 2, single: true, bad: 12, ops: INDEX, ..p("index", &[(Msa, 50), (Deleg, 4), (Handle, 4), (Wrap, 5)]) },
		Profile { nodes: 3, bad: 12, ops: INDEX, len: (60, 120), ..p("index-forks", &[(Msa, 50), (Deleg, 4), (Handle, 4), (Wrap, 5)]) },
		Profile { nodes: 1, bad: 8, skip: 70, ops: [40, 0, 0, 0, 14, 8, 3, 6, 0, 0, 10, 25, 0, 0], ..p("index-crash", &[(Msa, 50), (Wrap, 5)]) },
		Profile { nodes: 2, crowd: 35, bad: 5, single: true, first_worker: 9, ops: DENSE, len: (120, 200), ..p("index-dense", &[(Msa, 60), (Wrap, 3)]) },
		Profile { nodes: 2, bases: 4, hot: 40, aged: true, versions: 5, bad: 10, ops: [34, 16, 2, 2, 12, 3, 1, 2, 1, 3, 2, 2, 20, 0], ..p("queries", &[(Msa, 5), (Deleg, 12), (Handle, 12), (Message, 16), (Schema, 5), (Storage, 16), (Capacity, 3), (Paid, 12), (Wrap, 3), (Balance, 2)]) },
		Profile { bad: 10, skip: 40, epoch_len: 3, ops: [60, 0, 0, 0, 18, 4, 0, 0, 0, 0, 0, 0, 0, 4], ..p("upgrades", &[(Message, 12), (Schema, 8), (Capacity, 20), (Release, 16), (Deleg, 4), (Paid, 4), (Balance, 4), (Wrap, 2)]) },
		Profile { nodes: 3, ops: WITH, ..p("everything", &[(Msa, 8), (Deleg, 8), (Handle, 8), (Capacity, 8), (Message, 6), (Schema, 3), (Storage, 8), (Release, 5), (Passkey, 3), (Balance, 4), (Proxy, 2), (Paid, 10), (Wrap, 8), (Replay, 6), (Govern, 5), (Fuzz, 1)]) },
	]
}
/// profiles of a property, the most telling first
pub fn of(prop: &str) -> Vec<&'static str> {
	match prop {
		"C01" => vec!["keys", "keys-time", "mixed", "free", "keys-many"],
		"C02" => vec!["sigs", "keys-time", "sigs-tiny", "payloads", "mixed", "sigs-first"],
		"C03" => vec!["delegations", "keys-time", "mixed", "delegations-wide"],
		"C04" => vec!["free", "keys-time", "mixed"],
		"C05" => vec!["index", "index-crash", "index-dense", "index-forks", "index-dense", "everything"],
		"C06" => vec!["handles", "handles-wide", "mixed", "handles-deep", "handles-window"],
		"C07" => vec!["handles-deep", "suffixes", "handles", "handles-wide", "handles-window"],
		"C08" => vec!["handles-wide", "names", "handles", "mixed"],
		"C09" => vec!["capacity", "capacity-thaw", "mixed"],
		"C10" => vec!["capacity-thaw", "capacity"],
		"C11" => vec!["paid", "capacity", "mixed"],
		"C12" => vec!["storage", "storage-hot", "storage-deep", "authority", "storage-aged"],
		"C13" => vec!["authority", "storage", "mixed", "storage-hot", "payloads"],
		"C14" => vec!["messages", "delegations", "mixed"],
		"C15" => vec!["schemas", "mixed", "schemas-many"],
		"C16" => vec!["release", "mixed"],
		"C17" => vec!["passkey", "nonces", "mixed"],
		"C18" => vec!["nonces", "free", "mixed"],
		"C19" => vec!["filter", "mixed"],
		"C20" => vec!["upgrades"],
		"C21" => vec!["mixed", "everything", "filter"],
		"C25" => vec!["events", "release", "capacity", "schemas", "keys-time", "storage", "events", "delegations", "handles", "passkey", "governance"],
		"C26" => vec!["governance", "governance-forks", "mixed"],
		"C27" => vec!["offices", "offices-forks"],
		"C24" => vec!["queries", "everything"],
		"C22" => vec!["avro"],
		"C23" => vec!["sealing"],
		_ => vec!["mixed"],
	}
}

/// number of runs and the time they may take at most
pub fn effort(prop: &str, tier: &str) -> (u64, std::time::Duration) {
	let s = std::time::Duration::from_secs;
	if tier == "thorough" {
		(u64::MAX, s(600))
	} else {
		let runs = match prop {
			"C22" => 10_000,
			"C23" => 100_000,
			_ => 5_000,
		};
		(runs, s(240))
	}
}
const CHAIN: &[&str] = &[
	"the stand-in SDK (storage, hashing, signatures of ed25519/sr25519/ecdsa shape, frame pallets balances, proxy, utility, sudo, transaction-payment) behaves like polkadot-sdk in what the Frequency sources use",
	"signatures are unforgeable and hashes do not collide (simulated signatures are keyed hashes)",
	"weights are those of the repository's weight files; database read/write cost does not change behaviour",
];
pub fn assumed(prop: &str) -> Vec<&'static str> {
	match prop {
		"C22" => vec!["clients keep records and schemas as the wallets of the simulation do; apache-avro is the version of the repository's lock file"],
		"C23" => vec!["the stand-in manual-seal, pool and executor behave like polkadot-sdk in what block_sealing.rs uses"],
		_ => CHAIN.to_vec(),
	}
}
/// what ran for real, what was stood in for
pub fn parts(prop: &str) -> (Vec<&'static str>, Vec<&'static str>) {
	match prop {
		"C22" => (vec!["common/helpers/src/avro.rs and types.rs", "apache-avro 0.14 (the locked dependency)"], vec!["publishers, consumers and the wire between them (simulated)", "hash seeds of the process (seeded)"]),
		"C23" => (vec!["node/service/src/block_sealing.rs", "node/cli-opt"], vec!["sc-consensus-manual-seal, transaction pool, block production and import (re-implemented)", "executor, timer and clock (simulated)"]),
		"C20" => (
			vec!["migrations of pallets/messages, pallets/time-release, pallets/schemas", "pallets/* and the runtime's upgrade wiring (Executive order, storage versions)"],
			vec!["old layouts of storage (written from their description)", "locks and freezes of balances (re-implemented)", "frame_support/frame_system/sp_*/frame-executive (stand-in SDK of /verif/simsdk)"],
		),
		"C24" => (
			vec!["pallets/*/src/rpc", "pallets/* and their runtime APIs", "node/service/src/rpc/frequency_rpc.rs", "common/helpers/src/rpc.rs", "jsonrpsee 0.16 (server traits and errors)"],
			vec!["the node's client, its states and heads (simulated)", "transaction pool content (generated)", "frame_support/frame_system/sp_* (stand-in SDK of /verif/simsdk)", "rayon (in order)"],
		),
		_ => (
			vec!["pallets/* (all eight and passkey)", "common/primitives", "runtime/common", "runtime/frequency glue (filters, fee payment, extension order, constants)", "pallets/handles/src/handles-utils"],
			vec!["frame_support/frame_system/sp_* (stand-in SDK of /verif/simsdk)", "consensus, networking and the transaction pool (simulated nodes)", "balances, proxy, utility, sudo, collective, multisig, treasury, scheduler, democracy, preimage, collator-selection (re-implemented; the runtime's configuration of them is real)"],
		),
	}
}
