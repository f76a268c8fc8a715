use imagequant_sys::*;
use std::mem::MaybeUninit;
unsafe extern "C" fn go_on(_: f32, _: AnySyncSendPtr) -> i32 { -1 }
unsafe extern "C" fn stop(_: f32, _: AnySyncSendPtr) -> i32 { 0 }
fn main() {
    unsafe {
        let px: Vec<liq_color> = (0..=255u8).map(|i| liq_color { r: i, g: 255 - i, b: i / 2, a: 255 }).collect();
        for (cb, ok) in [(go_on as unsafe extern "C" fn(f32, AnySyncSendPtr) -> i32, true), (stop, false)] {
            let mut attr = liq_attr_create().unwrap();
            liq_attr_set_progress_callback(&mut attr, cb, AnySyncSendPtr::default());
            let mut img = liq_image_create_rgba(&attr, px.as_ptr(), 16, 16, 0.).unwrap();
            let mut out = MaybeUninit::uninit();
            let e = liq_image_quantize(&mut img, &mut attr, &mut out);
            assert_eq!(ok, e == liq_error::LIQ_OK, "{e:?}");
            drop(out.assume_init());
        }
    }
}
