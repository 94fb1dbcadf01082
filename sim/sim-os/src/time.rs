//! Time.
use crate::rt::*;
use pensim::api::*;

pub const MS: u64 = 1_000_000;

fn wall_ms() -> i64 {
    (now() as i64 + os(|o| o.realtime_offset)) / MS as i64
}

/// Sleeps and clocks.
pub fn time() {
    machine();
    system_faults(&["epoll.eintr", "epoll.early-timeout", "futex.spurious-wake", "poll.eintr", "sleep.eintr"], 40);
    let jumps = work(4);
    for _ in 0..jumps {
        let by = [3_600_000, -3_600_000, 1, -1, 86_400_000_000, -50][work(6) as usize] * MS as i64;
        at(work(60 * MS), move || {
            os(|o| o.realtime_offset += by);
            note(format!("the clock jumps by {by} ns"));
        });
    }
    let tasks = 1 + work(5);
    start(async move {
        let mut all = vec![];
        for _ in 0..tasks {
            all.push(
                task(async move {
                    for _ in 0..1 + work(4) {
                        if work(3) == 0 {
                            clock().await
                        } else {
                            nap().await
                        }
                    }
                })
                .await,
            );
        }
        if work(8) == 1 && !SYNC {
            task(async {
                sleep(f64::INFINITY).await;
                fail("early", "an endless sleep ends");
            })
            .await;
            sleep(1e9).await;
        }
        wait_all(all).await;
    });
}

async fn clock() {
    let a = wall_ms();
    let t = get_time();
    let b = wall_ms();
    ensure!(a as f64 <= t && t <= b as f64 || b < a && jumped(), "wrong-time", "the time is {t} ms between {a} and {b}");
    ensure!(t.fract() == 0.0, "wrong-time", "the time {t} is no number of milliseconds");
}

fn jumped() -> bool {
    true
}

async fn nap() {
    let ms = match work(9) {
        0 => 0.0,
        1 => 1.0,
        2 => work(50) as f64,
        3 => work(500) as f64 / 10.0,
        4 => -(work(9) as f64) - 1.0,
        5 => f64::NAN,
        6 => 1000.0 * work(100) as f64,
        7 => [2_147_483_650.0, 4_294_967_299.0, 9_000_000_001.0][work(3) as usize],
        _ => work(5) as f64,
    };
    let before = now();
    sleep(ms).await;
    let took = now() - before;
    let least = (ms.max(0.0) as u64) * MS;
    ensure!(took >= least, "early", "a sleep of {ms} ms takes {took} ns");
    // Timers have a resolution of a millisecond, and the rest is for other tasks of this run.
    ensure!(took <= least + 3 * MS, "late", "a sleep of {ms} ms takes {took} ns");
}

