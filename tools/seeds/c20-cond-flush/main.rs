use std::sync::{atomic::{AtomicUsize, Ordering}, Arc};
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let mut attr = imagequant::new();
    let n2 = n.clone();
    attr.set_log_flush_callback(move |_| { n2.fetch_add(1, Ordering::SeqCst); });
    attr.set_log_callback(|_, _| {});
    assert_eq!(n.load(Ordering::SeqCst), 1);
    attr.set_log_callback(|_, _| {});
    assert_eq!(n.load(Ordering::SeqCst), 2);
    drop(attr);
    assert_eq!(n.load(Ordering::SeqCst), 3);
}
