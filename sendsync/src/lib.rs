//! C13, the part only the compiler can say: every collection is `Send` and `Sync` when its hasher
//! and the types it is generic over are.
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{MinHash, SimHash};
use probabilistic_collections::SipHasherBuilder;

fn both<X: Send + Sync>() {}
fn send<X: Send>() {}
fn sync<X: Sync>() {}

pub fn generic<T, U, B>()
where
    T: Send + Sync + Iterator<Item = U>,
    U: Send + Sync,
    B: Send + Sync,
{
    both::<BloomFilter<T, B>>();
    both::<PartitionedBloomFilter<T, B>>();
    both::<ScalableBloomFilter<T, B>>();
    both::<BSBloomFilter<T, B>>();
    both::<BSSDBloomFilter<T, B>>();
    both::<RLBSBloomFilter<T, B>>();
    both::<CuckooFilter<T, B>>();
    both::<ScalableCuckooFilter<T, B>>();
    both::<QuotientFilter<T, B>>();
    both::<CountMinSketch<CountMinStrategy, T, B>>();
    both::<CountMinSketch<CountMeanStrategy, T, B>>();
    both::<CountMinSketch<CountMedianBiasStrategy, T, B>>();
    both::<HyperLogLog<T, B>>();
    both::<MinHash<T, U, B>>();
    both::<SimHash<T, U, B>>();
    both::<SipHasherBuilder>();
}
/// Each marker on its own.
pub fn separate<T: Send, B: Send, V: Sync, C: Sync>() {
    send::<BloomFilter<T, B>>();
    send::<CuckooFilter<T, B>>();
    send::<QuotientFilter<T, B>>();
    send::<HyperLogLog<T, B>>();
    send::<CountMinSketch<CountMinStrategy, T, B>>();
    sync::<BloomFilter<V, C>>();
    sync::<CuckooFilter<V, C>>();
    sync::<QuotientFilter<V, C>>();
    sync::<HyperLogLog<V, C>>();
    sync::<CountMinSketch<CountMinStrategy, V, C>>();
}
