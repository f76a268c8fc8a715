use imagequant::ControlFlow;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
fn main() {
    let attr = imagequant::new();
    let px: Vec<_> = (0..128 * 128u32).map(|i| imagequant::RGBA::new((i % 128) as u8 * 2, (i / 128) as u8 * 2, 77, 255)).collect();
    for stop_after in 0..12 {
        let mut img = attr.new_image(px.clone(), 128, 128, 0.).unwrap();
        let mut res = attr.quantize(&mut img).unwrap();
        res.set_dithering_level(1.).unwrap();
        let stopped = Arc::new(AtomicBool::new(false));
        let (st, n) = (stopped.clone(), std::sync::atomic::AtomicUsize::new(0));
        res.set_progress_callback(move |_| {
            if n.fetch_add(1, SeqCst) >= stop_after { st.store(true, SeqCst); ControlFlow::Break } else { ControlFlow::Continue }
        });
        let r = res.remapped(&mut img);
        if stopped.load(SeqCst) {
            assert!(matches!(r, Err(imagequant::Error::Aborted)), "aborted at call {stop_after}");
        }
    }
}
