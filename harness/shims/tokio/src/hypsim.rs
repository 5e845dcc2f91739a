//! [hypsim] Seam for deterministic simulation: blocking jobs (`spawn_blocking`,
//! and with it all of `tokio::fs`) are handed to a process-wide hook when one is set.
//! Without a hook nothing changes.

use std::sync::OnceLock;

/// A blocking job.
pub type Job = Box<dyn FnOnce() + Send + 'static>;

/// Takes a job, or gives it back if the calling thread is not simulated.
pub type Hook = fn(Job) -> Option<Job>;

static HOOK: OnceLock<Hook> = OnceLock::new();

/// Install the hook (once per process).
pub fn set_hook(hook: Hook) {
    let _ = HOOK.set(hook);
}

pub(crate) fn hook() -> Option<&'static Hook> {
    HOOK.get()
}

/// Seeds of the runtime's own random choices (`select!` order, timer jitter).
pub type SeedHook = fn() -> Option<u64>;

static SEED: OnceLock<SeedHook> = OnceLock::new();

/// Install the seed hook (once per process).
pub fn set_seed_hook(hook: SeedHook) {
    let _ = SEED.set(hook);
}

pub(crate) fn seed() -> Option<u64> {
    SEED.get().and_then(|h| h())
}

pub(crate) static NEXT_ID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

/// Task ids decide the order in which a runtime drops its tasks, modulo its number of lists:
/// let every run start from the same remainder.
pub fn align_ids() {
    use std::sync::atomic::Ordering::Relaxed;
    let n = NEXT_ID.load(Relaxed);
    NEXT_ID.store((n / 65536 + 1) * 65536, Relaxed);
}
