//! Deterministic simulation of probabilistic-collections-rs with fault injection.
mod any;
mod disk;
mod engine;
mod entropy;
mod equal;
mod fleet;
mod hashing;
mod net;
mod node;
mod plan;
mod prng;
mod sched;
mod seams;
mod similarity;
mod space;
mod storage;
mod threads;
mod twin;

use plan::Scenario;
use std::path::Path;

#[global_allocator]
static HEAP: simseam::heap::Heap = simseam::heap::Heap;

const REAL_NODE: &str = "the collection under test, its hashing (siphasher/SipHasherBuilder), rand_xorshift (and rand_chacha) seeding, serde, serde_json and bincode: real";
const STUB_NODE: &str = "OS entropy (getrandom), the random choice stream when a run overrides it, the storage device, clients, clock and crashes: simulated";

pub static SCENARIOS: &[Scenario] = &[
    Scenario { prop: "C01", quick: 36000, thorough: 1080000, gen: node::gen, exec: node::exec::<node::BloomOracle>,
        rule: "One run: a seeded discrete-event schedule of 1-4 clients, a snapshot timer on a possibly faulty disk, crashes with restart from the last durable snapshot, clone and round-trip hand-overs against one Bloom, partitioned or scalable Bloom filter of random parameters and hashers. Non-trivial: at least one client operation and more than two steps or a fault; distinct by event-log digest.",
        real: REAL_NODE, stub: STUB_NODE, assumptions: &["hashers are deterministic functions of the item", "bits are observed through count_ones/len/membership, not directly"] },
    Scenario { prop: "C02", quick: 40000, thorough: 1200000, gen: node::gen, exec: node::exec::<node::ClassOracle>,
        rule: "As C01 with one CuckooFilter; the eviction choices are drawn by the simulator (uniform, lowest, highest, alternating, sticky) or by the real generator. The oracle is an exact set over alias classes learned from fresh single-item filters.",
        real: REAL_NODE, stub: STUB_NODE, assumptions: &["the first hasher varies in its low bits (a constant one makes the constructor's rehash loop endless by design)"] },
    Scenario { prop: "C03", quick: 24000, thorough: 720000, gen: node::gen, exec: node::exec::<node::ScalableOracle>,
        rule: "As C02 with one ScalableCuckooFilter and an entropy source that may fail at any stage growth. The oracle is an exact set when fingerprints are at least 33 bits wide, otherwise a no-loss check.",
        real: REAL_NODE, stub: STUB_NODE, assumptions: &["no two of the at most 400 items of an exact run share a fingerprint of more than 33 bits, nor two of the at most 70 000 items of a large run one of more than 42 bits in one bucket"] },
    Scenario { prop: "C04", quick: 60000, thorough: 1800000, gen: node::gen, exec: node::exec_c04,
        rule: "As C02 with one QuotientFilter; runs 0-2 probe the listed known finding. Includes identity hashing onto tiny tables, wrap-around clusters and completely full filters.",
        real: REAL_NODE, stub: STUB_NODE, assumptions: &["remainder widths above 61 bits are the listed known finding and only probed"] },
    Scenario { prop: "C05", quick: 24000, thorough: 720000, gen: node::gen, exec: node::exec_c05,
        rule: "As C01 with one de-duplicating filter whose reset choices are the simulator's; about a quarter of the runs are long streams, or many restored copies of one small filter each given the same new item, compared in occupancy, number of cleared bits and forgetting of each item with three independent reference models.",
        real: REAL_NODE, stub: STUB_NODE, assumptions: &["occupancy tolerance 0.025 and forgetting tolerance 3x for streams, 6.5 standard errors for single resets, see DESIGN.md"] },
    Scenario { prop: "C06", quick: 10000, thorough: 300000, gen: net::gen_c06, exec: net::exec_c06,
        rule: "Two to five nodes holding HyperLogLog sketches gossip their serialised states over a network that loses, duplicates, delays and reorders messages and partitions; nodes crash and restart from snapshots on a possibly faulty disk; mismatched merges are attempted. 2% of runs measure the error of 40-250 independent sketches.",
        real: REAL_NODE, stub: "network, OS entropy, the storage device, clients, clock and crashes: simulated", assumptions: &["accuracy bounds (7 configured errors for one sketch, 1.5 for the root mean square of a sample) apply to well-mixed hashers only"] },
    Scenario { prop: "C07", quick: 24000, thorough: 720000, gen: node::gen, exec: node::exec::<node::CountOracle>,
        rule: "As C01 with one CountMinSketch and signed or strict weights; compared with fresh sketches fed the net weights once.",
        real: REAL_NODE, stub: STUB_NODE, assumptions: &["the magnitudes of all weights of a run add up to at most 2^61"] },
    Scenario { prop: "C08", quick: 40000, thorough: 1200000, gen: twin::gen_c08, exec: twin::exec_c08,
        rule: "A schedule as for C01-C07 over any collection type, executed in two lanes that are given the same random choices and entropy; one lane restarts from a snapshot (binary, JSON, pretty JSON; once or twice in a row) at seeded points. All accessors and answers of both lanes are compared after every step. One run in 25 compares filters with default hashers and their copies with ==.",
        real: REAL_NODE, stub: STUB_NODE, assumptions: &["the two lanes are given the same random choices through the seam, not through the generator's own state, which is not serialised by design"] },
    Scenario { prop: "C09", quick: 36000, thorough: 1080000, gen: storage::gen, exec: storage::exec,
        rule: "A schedule over any collection type with snapshots and loads on a device that fails, fills up, blocks, tears, shortens or interrupts transfers at seeded bytes, prefix sweeps, crashes with fallback to the last durable generation, and a failing entropy source at restore.",
        real: REAL_NODE, stub: STUB_NODE, assumptions: &["faults are fail-stop or truncation; bit rot is out of scope because no format carries a checksum"] },
    Scenario { prop: "C10", quick: 40000, thorough: 1200000, gen: twin::gen_c10, exec: twin::exec_c10,
        rule: "A schedule over any collection type in two lanes with the same random choices; in one lane seeded calls panic at the n-th hash of their item and are caught, in the other they are not made. All accessors and answers are compared after every step.",
        real: REAL_NODE, stub: STUB_NODE, assumptions: &["only the item's Hash panics, not the BuildHasher"] },
    Scenario { prop: "C11", quick: 24000, thorough: 720000, gen: net::gen_c11, exec: net::exec_c11,
        rule: "Two to four replicas receive a log of updates over a network with loss and retransmission, duplication, delay, reordering and partitions, and crash, restart from snapshots and are redelivered what they lost; each has its own entropy. Compared with each other and with in-order delivery; one run in 25 compares replicas with ==.",
        real: REAL_NODE, stub: "network, OS entropy, the random choice stream when a run overrides it, the storage device, clock and crashes: simulated", assumptions: &["no more distinct items than the quotient filter holds", "exactly-once delivery for CountMinSketch is the replica's log position, persisted with the snapshot"] },
    Scenario { prop: "C12", quick: 8000, thorough: 240000, gen: entropy::gen, exec: entropy::exec,
        rule: "One to four processes (fresh threads, each with its own entropy) construct collections through every constructor that takes no hasher, in seeded order, while the entropy source is good, constant, zero, repeating, failing or recovers, and use and restore what they made; every process is run twice with the same entropy and different hash-map seeds. 35% of runs compare the random choices of instances created or restored under different entropy.",
        real: "all collections with SipHasherBuilder, rand's thread_rng (ChaCha), rand_xorshift, serde, bincode: real", stub: "OS entropy (getrandom), hash-map seeds, processes (threads): simulated", assumptions: &["per-bit variation is read from the serialised form of SipHasherBuilder", "a process is modelled by a fresh thread, because rand's generator is per thread"] },
    Scenario { prop: "C13", quick: 30000, thorough: 900000, gen: threads::gen, exec: threads::exec,
        rule: "Two to four reader threads over one to three shared collections of any types; real threads run one at a time and the plan decides at which callback into caller code (item Hash, hasher builder and hasher, hasher clone/compare/serialise, iterator, writer) or at which memory access of the code under test (instrumented by the compiler) which thread goes on, and which callbacks re-enter a collection. All answers are compared with the sequential ones, and the collections with their state before. Send and Sync are asserted at compile time.",
        real: "the collections, threads: real", stub: "the thread scheduler (at callbacks and instrumented memory accesses), caller-side code: simulated", assumptions: &["interleavings are sequentially consistent: weak memory is not simulated", "should the instrumented build fail, threads are interleaved at callbacks only (the check says so)", "ScalableCuckooFilter::contains takes &mut self and is not a reader"] },
    Scenario { prop: "C14", quick: 18000, thorough: 540000, gen: similarity::gen, exec: similarity::exec,
        rule: "Two to four nodes (processes with their own entropy and hash-map seeds) receive the shingles of up to 30 documents over a network that loses and retransmits, duplicates, delays and reorders, crash, restart from snapshots and are redelivered what they lost. Signatures and reports are compared between nodes and with in-order delivery whenever two nodes hold the same shingles, and every pair of documents is judged on its own against reference signatures; some runs have 250 to 500 documents.",
        real: "MinHash, SimHash and their hashing, serde, bincode, serde_json: real", stub: "network, OS entropy, hash-map seeds, processes (threads), storage device, clock and crashes: simulated", assumptions: &["MinHash of an empty set of shingles panics by design and is not asked for", "exactly-once delivery for SimHash is the node's message numbers, persisted with the snapshot"] },
    Scenario { prop: "C15", quick: 30000, thorough: 900000, gen: twin::gen_c15, exec: twin::exec_c15,
        rule: "Two to six slots holding collections of any types, created, cloned, restored, dropped and used in a seeded interleaving; afterwards every instance's own history is replayed alone in a fresh thread with the same choices, and compared. In some runs the slots are driven by threads that the plan interleaves at callbacks and at memory accesses of the code under test; one run in 25 compares collections with ==.",
        real: REAL_NODE, stub: STUB_NODE, assumptions: &["interleavings are sequentially consistent", "CountMinSketch is cloned through a snapshot (its Clone needs a Clone strategy)"] },
    Scenario { prop: "C16", quick: 24000, thorough: 720000, gen: node::gen, exec: node::exec::<node::WorkOracle>,
        rule: "As C02 over every collection type, overloaded up to several times the capacity; hash evaluations and random draws of every call are metered.",
        real: REAL_NODE, stub: STUB_NODE, assumptions: &["work bounds are 8x the documented maximum, see DESIGN.md"] },
    Scenario { prop: "C17", quick: 60000, thorough: 1800000, gen: space::gen, exec: space::exec,
        rule: "A schedule over any collection type (clients, snapshots on a possibly faulty disk, crashes with restart, hand-overs to clones, overload, panicking items, failing entropy, abandoned loads, merges), 40% of them many such cycles over one instance; the allocator is the simulator's and counts the bytes the code under test holds. Non-trivial: at least one client operation and more than two steps or a fault; distinct by event-log digest.",
        real: REAL_NODE, stub: "allocator (counting), OS entropy, the random choice stream when a run overrides it, the storage device, clients, clock and crashes: simulated", assumptions: &["the bound is 1.5 times the documented size or, per table, the next power of two (2 times once loaded), plus 880 bytes for each table or stage, 48 for each item outside a cuckoo table and 4 KiB"] },
    Scenario { prop: "C50", quick: 800, thorough: 24000, gen: fleet::gen_c50, exec: fleet::exec_c50,
        rule: "A fleet of 300 processes, each with its own entropy, constructs the same filter through one of eleven constructors with default hashers, works through the same schedule of inserts, removes, snapshots, crashes with restart and client repeats, clone hand-overs and failing entropy (each striking a quarter of the processes), up to the configured number of items, and is asked for items that were never inserted. The share of false positives over the fleet is compared with the configured rate.",
        real: REAL_NODE, stub: "OS entropy (getrandom), hash-map seeds, processes (threads), storage device, clients and crashes: simulated", assumptions: &["the alarm threshold is 1.2 configured rates plus the double-hashing allowance plus 6.5 standard errors"] },
    Scenario { prop: "C52", quick: 3000, thorough: 90000, gen: fleet::gen_c52, exec: fleet::exec_c52,
        rule: "As C50 with a fleet of 250 CountMinSketch::from_error under a load of equally heavy items, the worst distribution for the bound; the share of counts that exceed the true weight by more than epsilon times the total is compared with delta, and no count may be too low.",
        real: REAL_NODE, stub: "OS entropy (getrandom), hash-map seeds, processes (threads), storage device, clients and crashes: simulated", assumptions: &["as C50"] },
    Scenario { prop: "C53", quick: 3000, thorough: 90000, gen: fleet::gen_c53, exec: fleet::exec_c53,
        rule: "A fleet of 200 processes with their own entropy computes MinHash or SimHash signatures of the same two documents (multisets, weights up to 50 000), restarting from a snapshot between the two or constructing under failing entropy in some; bias and root-mean-square error of the estimates over the fleet are compared with the exact Jaccard similarity or the angle of the count vectors, and get_jaccard_similarity with the exact value.",
        real: "MinHash, SimHash and their hashing, serde, bincode: real", stub: "OS entropy, hash-map seeds, processes (threads), storage, crashes: simulated", assumptions: &["SimHash's expected distance is computed with ideal hashes (independent fair coins), for which it tends to the angle"] },
    Scenario { prop: "C56", quick: 2500, thorough: 75000, gen: fleet::gen_c56, exec: fleet::exec_c56,
        rule: "As C50 with a fleet of 100 processes at any load; after every step the estimate is compared with the documented formula, inserts may not lower it and removes not raise it, snapshots, clones and restarts may not move it; at the end the mean estimate over the fleet is compared with the measured share of false positives.",
        real: REAL_NODE, stub: "OS entropy (getrandom), hash-map seeds, processes (threads), storage device, clients and crashes: simulated", assumptions: &["as C50"] },
];

fn main() {
    hashing::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("work") => {
            let j = serde_json::from_slice(&std::fs::read(&a[2]).expect("job")).expect("job");
            engine::work(&j);
            0
        }
        Some("replay-raw") => engine::replay_raw(Path::new(&a[2])),
        Some("replay") => engine::replay(Path::new(&a[2])),
        Some("shrink") => {
            engine::shrink(Path::new(&a[2]), a[3].parse().expect("seconds"));
            0
        }
        Some("plan") => {
            let sc = engine::find(&a[2]).expect("property");
            let p = engine::plan_of(sc, a[3].parse().expect("seed"), a[4].parse().expect("index"), false);
            println!("{}", serde_json::to_string_pretty(&p).expect("json"));
            let o = plan::run(sc, &p);
            println!("{:?} {:?}", o.viol, o.ctx.counts);
            0
        }
        Some(what @ ("check" | "determinism")) => {
            let env = |k: &str| std::env::var(k).ok();
            let get = |f: &str| a.iter().position(|x| x == f).and_then(|i| a.get(i + 1)).cloned();
            let thorough = get("--tier").or(env("VERIF_TIER")).is_some_and(|t| t == "thorough");
            let args = engine::Args {
                prop: a[2].clone(),
                thorough,
                master: get("--seed").or(env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1),
                runs: get("--runs").and_then(|s| s.parse().ok()),
                secs: get("--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 240 }),
                evidence: !a.iter().any(|x| x == "--no-evidence"),
            };
            if what == "determinism" {
                engine::determinism(&args, args.runs.unwrap_or(2000))
            } else {
                engine::check(&args)
            }
        }
        _ => {
            eprintln!("usage: sim check PROPERTY [--tier T] [--seed N] [--runs N] | sim replay FILE | sim plan PROPERTY SEED INDEX");
            2
        }
    };
    std::process::exit(code);
}
